package fam

import (
	"net"
	"regexp"
	"strconv"
	"strings"

	"verif/analyzer/spec"
)

// lenPairs are the (runes, bytes) measures around the marks of a rule, kept
// consistent with UTF-8: a rune takes one to four bytes.
func lenPairs(r, b []float64) [][2]float64 {
	pos := func(ms []float64) []float64 {
		set := map[float64]bool{0: true}
		for _, m := range ms {
			set[m-1], set[m], set[m+1] = true, true, true
		}
		var out []float64
		for x := range set {
			if x >= 0 {
				out = append(out, x)
			}
		}
		return out
	}
	var out [][2]float64
	seen := map[[2]float64]bool{}
	add := func(x, y float64) {
		p := [2]float64{x, y}
		if x <= y && y <= 4*x && !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	for _, x := range pos(r) {
		add(x, x)
		add(x, x+1)
		add(x, 4*x)
		for _, y := range pos(b) {
			add(x, y)
		}
	}
	for _, y := range pos(b) {
		add(y, y)
		add(float64(int(y+3)/4), y)
	}
	return out
}

func marksOf(r R, keys ...string) []float64 {
	var out []float64
	for _, k := range keys {
		if r[k] != nil {
			out = append(out, rankOf(r[k]))
		}
	}
	return out
}

// Lengths: length constraints of strings and bytes.
func Lengths(full bool) []*Case {
	b := &builder{pre: "LN"}
	one := func(exact, min, max, e, m, x string) []R {
		return []R{{exact: L(e)}, {exact: 0}, {min: L(m)}, {max: L(x)}, {min: L(m), max: L(x)}, {min: L(m), max: L(m)}, {min: 0, max: L(x)}, {max: 0}, {min: 0, max: 0}, {min: 0}}
	}
	rr := one("len", "min_len", "max_len", "EL", "ML", "XL")
	rb := one("len_bytes", "min_bytes", "max_bytes", "EB", "MB", "XB")
	merge := func(a, b R) R {
		o := R{}
		for k, v := range a {
			o[k] = v
		}
		for k, v := range b {
			o[k] = v
		}
		return o
	}
	var strs []R
	strs = append(strs, rr...)
	strs = append(strs, rb...)
	for _, p := range [][2]R{{rr[0], rb[0]}, {rr[2], rb[3]}, {rr[4], rb[4]}, {rr[3], rb[2]}, {rr[5], rb[5]}, {rr[0], rb[4]}} {
		strs = append(strs, merge(p[0], p[1]))
	}
	run := func(kind string, rules []R) {
		for _, r := range rules {
			for _, ctx := range Contexts {
				m := InContext("", ctx, Shape{Kind: kind}, R{kind: r})
				if m == nil {
					continue
				}
				var vals []CV
				rm := marksOf(r, "len", "min_len", "max_len")
				bm := marksOf(r, "len_bytes", "min_bytes", "max_bytes")
				if kind == "bytes" {
					rm, bm = nil, rm
				}
				for _, p := range lenPairs(rm, bm) {
					c := float64(other)
					if p[1] == 0 {
						c = 0
					}
					vals = append(vals, CV{textEnv(kind, c, p[1], p[0]), ValueIn(ctx, spec.Sym(X))})
				}
				vals = append(vals, CV{Env(), spec.Msg(nil)})
				b.add(ctx+" "+kind+" "+r.String(), m, vals)
			}
		}
	}
	run("string", strs)
	run("bytes", rr)
	return b.cases
}

// awkward texts exercise quoting and escaping.
var awkward = []string{"pre", "", `a"b\c`, "tab\tnl\n", "%s%d%%", "`x`", "\u00e9\u4e16", "{{.}}", "\x01\x7f", "'"}

// Affixes: prefix, suffix, contains, not_contains and patterns.
func Affixes(full bool) []*Case {
	b := &builder{pre: "AF"}
	facts := func(r R) []string {
		var out []string
		for _, k := range []string{"prefix", "suffix", "contains", "not_contains", "pattern"} {
			v, ok := r[k]
			if !ok {
				continue
			}
			n := k
			switch k {
			case "not_contains":
				n = "contains"
			case "pattern":
				n = "match"
			}
			out = append(out, n+":"+X+":"+spec.TextKey(v))
		}
		return out
	}
	for _, kind := range []string{"string", "bytes"} {
		var rules []R
		for _, l := range awkward {
			for _, k := range []string{"prefix", "suffix", "contains", "not_contains"} {
				if kind == "bytes" && k == "not_contains" || l == "" {
					continue
				}
				rules = append(rules, R{k: txt(kind, l)})
			}
		}
		rules = append(rules, R{"prefix": txt(kind, "pre"), "suffix": txt(kind, "suf")}, R{"prefix": txt(kind, "pre"), "suffix": txt(kind, "suf"), "contains": txt(kind, "mid")})
		if kind == "string" {
			rules = append(rules, R{"contains": "mid", "not_contains": "no"})
		}
		for _, p := range []string{"^a+$", `^[\d"]+\\$`, "^x`y$", "\\p{L}%d{{.}}", "(?i)^ab|c$"} {
			rules = append(rules, R{"pattern": p})
		}
		rules = append(rules, R{"pattern": "^a+$", "prefix": txt(kind, "pre")})
		for _, r := range rules {
			for _, ctx := range Contexts {
				m := InContext("", ctx, Shape{Kind: kind}, R{kind: r})
				if m == nil {
					continue
				}
				fs := facts(r)
				var vals []CV
				for s := 0; s < 1<<len(fs); s++ {
					e := textEnv(kind, other, 9, 9)
					for i, f := range fs {
						e.F(f, s>>i&1 == 1)
					}
					vals = append(vals, CV{e, ValueIn(ctx, spec.Sym(X))})
				}
				b.add(ctx+" "+kind+" "+r.String(), m, vals)
			}
		}
	}
	return b.cases
}

// Formats: formats decided by the standard library, and header formats.
func Formats(full bool) []*Case {
	b := &builder{pre: "FM"}
	add := func(kind string, r R, mk func() []*spec.Env) {
		for _, ctx := range Contexts {
			m := InContext("", ctx, Shape{Kind: kind}, R{kind: r})
			if m == nil {
				continue
			}
			var vals []CV
			for _, e := range mk() {
				vals = append(vals, CV{e, ValueIn(ctx, spec.Sym(X))})
			}
			b.add(ctx+" "+kind+" "+r.String(), m, vals)
		}
	}
	for _, kind := range []string{"string", "bytes"} {
		kind := kind
		for _, k := range []string{"ip", "ipv4", "ipv6"} {
			add(kind, R{k: true}, func() []*spec.Env {
				var out []*spec.Env
				for _, p := range [][2]bool{{true, true}, {true, false}, {false, false}} {
					out = append(out, textEnv(kind, other, 9, 9).F("ip:x", p[0]).F("v4:x", p[1]))
				}
				return out
			})
			add(kind, R{k: false}, func() []*spec.Env {
				return []*spec.Env{textEnv(kind, other, 9, 9).F("ip:x", false).F("v4:x", false)}
			})
		}
	}
	for _, k := range []string{"uri", "uri_ref"} {
		add("string", R{k: true}, func() []*spec.Env {
			var out []*spec.Env
			for _, p := range [][2]bool{{true, true}, {true, false}, {false, false}} {
				out = append(out, textEnv("string", other, 9, 9).F("url:x", p[0]).F("urlabs:x", p[1]))
			}
			return out
		})
	}
	header := func(r R, pat string) {
		add("string", r, func() []*spec.Env {
			var out []*spec.Env
			for _, p := range []bool{true, false} {
				out = append(out, textEnv("string", other, 9, 9).F("match:x:"+strconv.Quote(pat), p))
			}
			return out
		})
	}
	n, v, l := spec.HeaderName, spec.HeaderValue, spec.HeaderString
	header(R{"well_known_regex": 1}, n)
	header(R{"well_known_regex": 2}, v)
	header(R{"well_known_regex": 1, "strict": true}, n)
	header(R{"well_known_regex": 2, "strict": true}, v)
	header(R{"well_known_regex": 1, "strict": false}, l)
	header(R{"well_known_regex": 2, "strict": false}, l)
	return b.cases
}

// Texts are affix and address rules on given texts, shorter ones than the
// affixes and ones that hold them elsewhere included.
func Texts(full bool) []*Case {
	b := &builder{pre: "TX"}
	has := map[string]func(s, p string) bool{"prefix": strings.HasPrefix, "suffix": strings.HasSuffix, "contains": strings.Contains, "not_contains": strings.Contains}
	ctxs := []string{"plain", "items"}
	if full {
		ctxs = Contexts
	}
	affixes := []string{"a", "ab", "aba", "\u00e9", "a\x00b", "%s", "\U0001f600x"}
	texts := []string{"", "a", "b", "ab", "ba", "aba", "abab", "baab", "cabac", "bab", "aab", "A", "AB", "\u00e9", "e\u0301", "x\u00e9", "\u00e9x", "a\x00b", "a\x00", "xa\x00by", "%s", "%", "%%s", "\U0001f600x", "\U0001f600", "x\U0001f600x", rep("ab", 150), rep("b", 299) + "a"}
	for _, kind := range []string{"string", "bytes"} {
		for _, k := range []string{"prefix", "suffix", "contains", "not_contains"} {
			if kind == "bytes" && k == "not_contains" {
				continue
			}
			for _, p := range affixes {
				for _, ctx := range ctxs {
					m := InContext("", ctx, Shape{Kind: kind}, R{kind: R{k: txt(kind, p)}})
					if m == nil {
						continue
					}
					var vals []CV
					for _, s := range texts {
						n := strings.TrimPrefix(k, "not_")
						e := Env().F(n+":"+strconv.Quote(s)+":"+strconv.Quote(p), has[k](s, p))
						vals = append(vals, CV{e, ValueIn(ctx, spec.Conc(txt(kind, s)))})
					}
					b.add(ctx+" "+kind+" "+R{k: txt(kind, p)}.String()+" of texts", m, vals)
				}
			}
		}
	}
	for _, k := range []string{"ip", "ipv4", "ipv6"} {
		for _, ctx := range ctxs {
			m := InContext("", ctx, Shape{Kind: "string"}, R{"string": R{k: true}})
			var vals []CV
			for _, s := range uniq(append(Addresses(), "0.0.0.0", "1.1.1.1", "255.255.255.255", "1:2:3:4:5:6:7::", "1:2:3:4:5:6:1.2.3.4", "2001:db8::ff00:42:8329", "::1.2.3", "1.2.3.4\x00", "::1\x00x", "\x001.2.3.4", "1.2.3.4 ", "1.2.3", "1.2.3.4.5", "01.2.3.4", "::12345", "1:2:3:4:5:6:7:8:9", "1:2:3:4:5:6:7:8::")) {
				ip := net.ParseIP(s)
				if ip != nil && ip.To4() != nil && strings.Contains(s, ":") {
					continue
				}
				vals = append(vals, CV{Env().F("ip:"+strconv.Quote(s), ip != nil).F("v4:"+strconv.Quote(s), ip != nil && ip.To4() != nil), ValueIn(ctx, spec.Conc(s))})
			}
			b.add(ctx+" string {"+k+":true} of texts", m, vals)
		}
	}
	return b.cases
}

// Patterns are patterns on given texts, whose meaning is RE2's: anchors and a
// final newline, classes and characters beyond ASCII, bytes read as UTF-8.
func Patterns(full bool) []*Case {
	b := &builder{pre: "PT"}
	ctxs := []string{"plain", "items"}
	if full {
		ctxs = Contexts
	}
	pats := []string{"a", "^a+$", "a$", "$", "^$", `^\d+$`, `^\w*\s\w*$`, `^\S+$`, `[^\d]`, `\D$`, `\W`, `^[\w.-]+$`, `^[^\s]+$`, "a|b$", "(?i)^ab|c$", `^\$\d+$`, "[$]", `^\\$`, `a\z`, `\Aa\z`,
		"(?m)^a$", "(?im)^a$", `\bab\b`, `\Bb`, "a.c", "(?s)a.c", "^.{2}$", "^a{2,3}$", "^[]a]$", "^[^]a]$", `^[\w-z]$`, `^[\s-z]$`, "\u00e9+$", "^(?:a|b)*$", "(?P<n>a)$", "^(a|(b$))", `\\\d`, `[\\]$`, "^[$a]+$", `^\[$`, `[\]$]`, `^[a-c\d]$`, "^[^\u00e9]$", "\t\"'", "%s{{.}}"}
	texts := []string{"", "a", "a\n", "aa", "aaa\n", "\n", "\na", "a\n\n", "1", "\u0663", "\u00e9", "\u00e9\n", "a b", "a\u00a0b", "a\vb", "a\fb", "$5", "$5\n", "$", "]", "[", "[\n", "abc", "a\nc", "a\u00e9c", "AB", "ab", "xab x", "\u00e9ab", "ab\u0663", "-", "z", "_", "\\", "\\1", "\\\u0663", "b\nx", "b", "c", "xC", " ", "\t\"'", "%s{{.}}", "5"}
	re := map[string]*regexp.Regexp{}
	for _, kind := range []string{"string", "bytes"} {
		for _, p := range pats {
			if re[p] == nil {
				re[p] = regexp.MustCompile(p)
			}
			for _, ctx := range ctxs {
				m := InContext("", ctx, Shape{Kind: kind}, R{kind: R{"pattern": p}})
				if m == nil {
					continue
				}
				all := texts
				if kind == "bytes" {
					all = append(all[:len(all):len(all)], "\xff", "a\xff", "\xff\n", "\xc3", "a\x80c")
				}
				var vals []CV
				for _, s := range all {
					e := Env().F("match:"+strconv.Quote(s)+":"+strconv.Quote(p), re[p].MatchString(s))
					vals = append(vals, CV{e, ValueIn(ctx, spec.Conc(txt(kind, s)))})
				}
				b.add(ctx+" "+kind+" "+R{"pattern": p}.String()+" of texts", m, vals)
			}
		}
	}
	return b.cases
}

// Headers are the well-known header formats on given texts.
func Headers(full bool) []*Case {
	b := &builder{pre: "HD"}
	re := map[string]*regexp.Regexp{}
	for _, p := range []string{spec.HeaderName, spec.HeaderValue, spec.HeaderString} {
		re[p] = regexp.MustCompile(p)
	}
	texts := []string{"", "\n", ":", ":a", "a:", "a:b", "::", "a\n", "\na", "a\r", "a\x00", "\x00", "a\x01", "a\tb", "a b", " ", "\x1f", "\x7f", "a\x7f", "\u00e9", "a\u00e9b", "\u0080", "Content-Type", "x_y.z", "a\r\n", "a\n\n", "\u0663", "\u212a"}
	for c := ' '; c < 0x7f; c++ {
		texts = append(texts, string(c), "a"+string(c))
	}
	for _, r := range []R{{"well_known_regex": 1}, {"well_known_regex": 2}, {"well_known_regex": 1, "strict": true}, {"well_known_regex": 2, "strict": true}, {"well_known_regex": 1, "strict": false}, {"well_known_regex": 2, "strict": false}} {
		p := spec.HeaderString
		if r["strict"] != false {
			p = map[int]string{1: spec.HeaderName, 2: spec.HeaderValue}[r["well_known_regex"].(int)]
		}
		for _, ctx := range Contexts {
			if ctx != "plain" && !full {
				continue
			}
			m := InContext("", ctx, Shape{Kind: "string"}, R{"string": r})
			if m == nil {
				continue
			}
			var vals []CV
			for _, s := range uniq(texts) {
				vals = append(vals, CV{Env().F("match:"+strconv.Quote(s)+":"+strconv.Quote(p), re[p].MatchString(s)), ValueIn(ctx, spec.Conc(s))})
			}
			b.add(ctx+" "+r.String()+" of texts", m, vals)
		}
	}
	return b.cases
}

// RE2Only are patterns of syntax that only RE2 has.
func RE2Only() []*Case {
	b := &builder{pre: "RO"}
	for _, p := range []string{`^\p{L}+$`, `^\Qa.b\E$`, `^[[:alpha:]]+$`, `^\x{e9}$`, "(?U)a+"} {
		re := regexp.MustCompile(p)
		var vals []CV
		for _, s := range []string{"a", "1", "a.b", "axb", "\u00e9", "alpha:]"} {
			vals = append(vals, CV{Env().F("match:"+strconv.Quote(s)+":"+strconv.Quote(p), re.MatchString(s)), ValueIn("plain", spec.Conc(s))})
		}
		b.add("syntax of RE2 alone "+p, InContext("", "plain", Shape{Kind: "string"}, R{"string": R{"pattern": p}}), vals)
	}
	return b.cases
}
