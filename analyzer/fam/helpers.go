package fam

import (
	"net"
	"net/mail"
	"strconv"
	"strings"

	"verif/analyzer/spec"
)

// IsHostname is RFC 1034's preferred name syntax as the README documents it.
func IsHostname(s string) bool {
	s = strings.TrimSuffix(s, ".")
	if len(s) > 253 {
		return false
	}
	for _, l := range strings.Split(s, ".") {
		if l == "" || len(l) > 63 || l[0] == '-' || l[len(l)-1] == '-' {
			return false
		}
		for i := 0; i < len(l); i++ {
			c := l[i] | 0x20
			if l[i] == '-' || l[i] >= '0' && l[i] <= '9' || l[i] < 0x80 && c >= 'a' && c <= 'z' {
				continue
			}
			return false
		}
	}
	return true
}

// IsUUID is RFC 4122's textual form.
func IsUUID(s string) bool {
	if len(s) != 36 {
		return false
	}
	for i := 0; i < 36; i++ {
		c := s[i]
		if i == 8 || i == 13 || i == 18 || i == 23 {
			if c != '-' {
				return false
			}
			continue
		}
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
			return false
		}
	}
	return true
}

// IsEmail is RFC 5322's address form, with the documented limits.
func IsEmail(s string) bool {
	a, err := mail.ParseAddress(s)
	if err != nil {
		return false
	}
	i := strings.Index(a.Address, "@")
	return len(a.Address) <= 254 && i <= 64 && IsHostname(a.Address[i+1:])
}

func rep(s string, n int) string { return strings.Repeat(s, n) }

// edges are the characters at the borders of the classes hosts and UUIDs
// tell apart.
var edges = []string{"\x00", " ", ",", "-", ".", "/", "0", "9", ":", "@", "A", "F", "G", "Z", "[", "_", "`", "a", "f", "g", "z", "{", "\x7f", "é", "\u0130", "\u212a"}

// Hosts are host names and near misses: every shape of labels around the
// limits, and every character class at the first, an inner and the last place.
func Hosts() []string {
	out := []string{"", ".", "..", "a", "a.", "a..", ".a", "a..b", "a.b", "a.b.", "a.b.c", "A.B", "1.2", "1", "a-b.c", "a--b", "-", "-a", "a-", "a.-b", "a.b-", "-a.b", "a-.b", "a.-", "-.a", "a.b-.c", "a.-b.c"}
	for _, n := range []int{62, 63, 64, 65} {
		out = append(out, rep("a", n), rep("a", n)+".b", "b."+rep("a", n), "b."+rep("a", n)+".c", rep("a", n)+".")
	}
	l := rep("a", 63) + "."
	for _, n := range []int{59, 60, 61, 62, 63} {
		// 192 + n characters
		out = append(out, l+l+l+rep("b", n), rep("a.", 96)+rep("b", n))
	}
	out = append(out, rep("a.", 126)+"a", rep("a.", 126)+"ab", rep("a.", 127)+"a", rep("a.", 126), rep("a.", 126)+"a.", rep("a.", 126)+"ab.", l+l+l+rep("b", 60)+".", l+l+l+rep("b", 61)+".", l+l+l+rep("b", 62)+".")
	for _, e := range edges {
		out = append(out, e, e+"a", "a"+e, "a"+e+"a", "b."+e+"a", "b.a"+e, "b.a"+e+"a.c", "a"+e+".b", e+"a.b")
	}
	// Whether the final dot counts towards the 253 characters is left open.
	var keep []string
	for _, h := range uniq(out) {
		if len(h) != 254 || h[253] != '.' {
			keep = append(keep, h)
		}
	}
	return keep
}

// UUIDs are UUIDs and near misses: every length and every character class at
// every place.
func UUIDs() []string {
	base := "01234567-89ab-cdef-ABCD-EF0123456789"
	out := []string{"", base, strings.ToUpper(base), strings.ToLower(base), strings.Replace(base, "-", "", -1), "{" + base + "}", "urn:uuid:" + base, base + "\n", "\n" + base, " " + base, base + " ", "x" + base[1:] + "x"}
	for n := 1; n < 36; n++ {
		out = append(out, base[:n], base[n:])
	}
	out = append(out, base+"0", "0"+base, base+base)
	for i := 0; i < 36; i++ {
		for _, e := range edges {
			out = append(out, base[:i]+e+base[i+1:])
		}
	}
	return uniq(out)
}

// Emails are addresses around the limits.
func Emails() []string {
	out := []string{"", "a", "@", "a@", "@a", "a@b", "A@B", "a.b@c.d", "a@b.", "a@-b", "a@b-", "a@b..c", "a@b_c", "a b@c", "a@b c", "<a@b>", "N <a@b>", "N M <a@b>", "<a@b", "a@b>x", "<a@-b>", "N <a@b_c>", "a@[1.2.3.4]", "a@1.2", "a,b@c", "a@b,c@d", "x> <a@b", "N <a@b> x", "<a@b>>", `"N <x>" <a@b>`, `"N <a@b>" <x>`}
	for _, n := range []int{63, 64, 65, 66} {
		out = append(out, rep("a", n)+"@b", "N <"+rep("a", n)+"@b>")
	}
	l := rep("b", 63) + "."
	for _, n := range []int{58, 59, 60, 61, 62, 63} {
		// 194 + n characters
		out = append(out, "a@"+l+l+l+rep("b", n), "<a@"+l+l+l+rep("b", n)+">")
	}
	return out
}

// Addresses are host names, IP addresses and neither.
func Addresses() []string {
	return []string{"", "a", "a.b", "a_b", "-a", "1.2.3.4", "1.2.3.256", "256.256.256.256", "1.2.3.4.", "::", "::1", "1::", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7", ":", ":::", "1::2::3", "::ffff:1.2.3.4", "fe80::1%eth0", "[::1]", "g::", "a:1", "1.2.3.4/8", rep("a", 64), rep("a", 63)}
}

func uniq(in []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range in {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

// Helpers are the formats decided by code of the plugin.
func Helpers(full bool) []*Case {
	b := &builder{pre: "HP"}
	add := func(ctx, rule string, texts []string, is func(string) bool) {
		m := InContext("", ctx, Shape{Kind: "string"}, R{"string": R{rule: true}})
		var vals []CV
		for _, s := range texts {
			e := Env()
			e.F(rule+":"+strconv.Quote(s), is(s))
			vals = append(vals, CV{e, ValueIn(ctx, spec.Conc(s))})
		}
		b.add(ctx+" string {"+rule+":true}", m, vals)
	}
	isAddr := func(s string) bool { return IsHostname(s) || net.ParseIP(s) != nil }
	for _, ctx := range Contexts {
		few := ctx != "plain" && !full
		pick := func(in []string, n int) []string {
			if !few || len(in) < n {
				return in
			}
			var out []string
			for i := 0; i < len(in); i += (len(in) + n - 1) / n {
				out = append(out, in[i])
			}
			return out
		}
		add(ctx, "hostname", pick(Hosts(), 24), IsHostname)
		add(ctx, "uuid", pick(UUIDs(), 24), IsUUID)
		add(ctx, "email", pick(Emails(), 24), IsEmail)
		add(ctx, "address", pick(Addresses(), 24), isAddr)
	}
	return b.cases
}

// JavaHelpers are the same formats where libraries decide them.
func JavaHelpers(full bool) []*Case {
	b := &builder{pre: "JH"}
	for _, ctx := range Contexts {
		for _, rule := range []string{"hostname", "address"} {
			m := InContext("", ctx, Shape{Kind: "string"}, R{"string": R{rule: true}})
			var vals []CV
			for _, v := range []bool{true, false} {
				vals = append(vals, CV{textEnv("string", other, 9, 9).F(rule+":x", v), ValueIn(ctx, spec.Sym(X))})
			}
			b.add(ctx+" string {"+rule+":true}", m, vals)
		}
		m := InContext("", ctx, Shape{Kind: "string"}, R{"string": R{"email": true}})
		var vals []CV
		for _, s := range [][2]string{{"a@b", "a@b"}, {"", ""}, {"x", "x"}, {"<a@b>", "a@b"}, {"N <a@b>", "a@b"}, {"N M <a@b.c>", "a@b.c"}, {`"N" <a@b>`, "a@b"}, {`"N <x>" <a@b>`, "a@b"}, {`<"a<b"@c>`, `"a<b"@c`}, {"<>", ""}, {"N <x>", "x"}} {
			for _, v := range []bool{true, false} {
				if s[1] == "" && v {
					continue
				}
				e := Env()
				e.F("email:"+strconv.Quote(s[1]), v)
				e.F("email:"+strconv.Quote(s[0]), v)
				vals = append(vals, CV{e, ValueIn(ctx, spec.Conc(s[0]))})
			}
		}
		b.add(ctx+" string {email:true}", m, vals)
		if ctx == "plain" || full {
			m = InContext("", ctx, Shape{Kind: "string"}, R{"string": R{"uuid": true}})
			vals = nil
			for _, s := range UUIDs() {
				vals = append(vals, CV{Env().F("uuid:"+strconv.Quote(s), IsUUID(s)), ValueIn(ctx, spec.Conc(s))})
			}
			b.add(ctx+" string {uuid:true}", m, vals)
		}
	}
	return b.cases
}

// IsURI says whether s is a URI reference of RFC 3986, and whether it is a URI.
func IsURI(s string) (ref, abs bool) {
	const unreserved = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~"
	const hex = "0123456789abcdefABCDEF"
	of := func(s, set string) bool { return strings.Trim(s, set) == "" }
	made := func(s, more string) bool {
		for s != "" {
			if s[0] == '%' {
				if len(s) < 3 || !of(s[1:3], hex) {
					return false
				}
				s = s[3:]
				continue
			}
			if !strings.Contains(unreserved+"!$&'()*+,;="+more, s[:1]) {
				return false
			}
			s = s[1:]
		}
		return true
	}
	rest, frag, _ := strings.Cut(s, "#")
	rest, query, _ := strings.Cut(rest, "?")
	if !made(frag, ":@/?") || !made(query, ":@/?") {
		return false, false
	}
	if i := strings.IndexAny(rest, ":/"); i >= 0 && rest[i] == ':' {
		const alpha = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
		if i == 0 || !of(rest[:1], alpha) || !of(rest[:i], alpha+"0123456789+-.") {
			return false, false
		}
		abs, rest = true, rest[i+1:]
	}
	if strings.HasPrefix(rest, "//") {
		auth := rest[2:]
		rest = ""
		if i := strings.Index(auth, "/"); i >= 0 {
			auth, rest = auth[:i], auth[i:]
		}
		if user, host, ok := strings.Cut(auth, "@"); ok {
			if !made(user, ":") {
				return false, false
			}
			auth = host
		}
		if strings.HasPrefix(auth, "[") {
			ip, port, ok := strings.Cut(auth[1:], "]")
			if !ok || net.ParseIP(ip) == nil || !strings.Contains(ip, ":") || port != "" && (port[0] != ':' || !of(port[1:], "0123456789")) {
				return false, false
			}
		} else {
			host, port, _ := strings.Cut(auth, ":")
			if !made(host, "") || !of(port, "0123456789") {
				return false, false
			}
		}
	}
	if !made(rest, ":@/") {
		return false, false
	}
	return true, abs
}

// Uris are URIs, relative references and texts that are neither, by RFC 3986.
func Uris(full bool) []*Case {
	b := &builder{pre: "UR"}
	abs := []string{"http://h", "http://h/", "http://example.com/foo/bar?baz=quux", "http://h:80/", "http://h:/", "http://u:p@h/", "http://[::1]/", "http://[::1]:80", "urn:isbn:1", "mailto:a@b", "a:b", "a:/b", "http:", "http:///p", "a+b-c.1:x", "a:b#c", "a:?b", "h://a?b/c?d#e?f/g", "h://a.b-c_d~e/%41%fF", "h:a'b(c)*d,e;f=g!h$i&j"}
	rel := []string{"", "a", "a/b", "/a", "//h", "//h/p", "/%41", "/a#b", "?q", "#f", "?a?b", "example.com", "/a:b", "./a:b", "/foo/bar?baz=quux", "a//b", "..", "/a@b"}
	bad := []string{"http://h:x/", "http://[::1", "1a:b", "/%4", "/%zz", "!@#$%^&*%$#", "://h", ":", "http://h/a\n", "\n", "//a:b@c:x/", "\x7f", "http://a b/", "http://h/%", "%", "h://%zz/", "/a\tb", "a:b\x00"}
	for n, l := range [][]string{abs, rel, bad} {
		for _, s := range l {
			if r, a := IsURI(s); r != (n < 2) || a != (n == 0) {
				panic("URI " + s)
			}
		}
	}
	// Every character at every place.
	var every []string
	for _, t := range []string{"_x:y", "x_:y", "x_y", "_", "a:_", "a:b_c", "//_", "a://u_v@h", "a://h_i/", "//h:1_", "//h_", "//_h", "a://[::_]/", "a://[_::1]", "a:/b_", "a:/_", "/b/_", "a?_", "a?b_c", "a#_", "a#b_c", "%_0", "%A_", "?%_f", "#%f_", "//%_1", "a:b?c#%1_"} {
		for c := 0; c < 0x80; c++ {
			if strings.Contains(t, "[") && !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
				continue
			}
			every = append(every, strings.Replace(t, "_", string(rune(c)), 1))
		}
		every = append(every, strings.Replace(t, "_", "\u00e9", 1), strings.Replace(t, "_", "\u212a", 1), strings.Replace(t, "_", "\u0663", 1))
	}
	every = uniq(every)
	for _, rule := range []string{"uri", "uri_ref"} {
		var vals []CV
		for _, s := range every {
			q := strconv.Quote(s)
			r, a := IsURI(s)
			vals = append(vals, CV{Env().F("url:"+q, r).F("urlabs:"+q, a), ValueIn("plain", spec.Conc(s))})
		}
		b.add("every character in string {"+rule+":true}", InContext("", "plain", Shape{Kind: "string"}, R{"string": R{rule: true}}), vals)
	}
	for _, ctx := range Contexts {
		for _, rule := range []string{"uri", "uri_ref"} {
			m := InContext("", ctx, Shape{Kind: "string"}, R{"string": R{rule: true}})
			var vals []CV
			for n, l := range [][]string{abs, rel, bad} {
				for i, s := range l {
					if ctx != "plain" && !full && i%4 != 0 {
						continue
					}
					q := strconv.Quote(s)
					vals = append(vals, CV{Env().F("url:"+q, n < 2).F("urlabs:"+q, n == 0), ValueIn(ctx, spec.Conc(s))})
				}
			}
			b.add(ctx+" string {"+rule+":true} of texts", m, vals)
		}
	}
	return b.cases
}
