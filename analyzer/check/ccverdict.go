package check

import (
	"fmt"
	"math"
	"strings"
	"sync"

	"verif/analyzer/cxx"
	"verif/analyzer/fam"
	"verif/analyzer/golang"
	"verif/analyzer/scen"
	"verif/analyzer/spec"
)

var ccProbes struct {
	once   sync.Once
	probes []string
}

// ccProg prepares the emitted code of a unit for evaluation.
func (c *Ctx) ccProg(e *Emission, u *CCUnit) *cxx.Prog {
	u.once.Do(func() {
		p := cxx.NewProg(u.Units, u.Lits, e.B)
		ccProbes.once.Do(func() {
			ccProbes.probes = append(append(append(append([]string{}, fam.Hosts()...), fam.UUIDs()...), fam.Addresses()...), runeTexts()...)
		})
		p.Probes = ccProbes.probes
		p.Preds = map[string]func(string) bool{"hostname": fam.IsHostname, "uuid": fam.IsUUID}
		p.Enum = map[string]*scen.Enum{}
		ck := goChecker(e.B, spec.NewEnv())
		for fq, en := range ck.Enums {
			p.Enum[cxx.Class(e.B, fq)] = en
		}
		p.Validates = ck.Validates
		own := map[string]bool{}
		var add func(pre string, ms []*scen.Msg)
		add = func(pre string, ms []*scen.Msg) {
			for _, m := range ms {
				own[pre+"."+m.Name] = true
				add(pre+"."+m.Name, m.Nested)
			}
		}
		add("."+e.B.File.Package, e.B.File.Msgs)
		p.Foreign = func(fq string) bool { return !own[fq] && ck.Validates(fq) }
		u.P = p
	})
	return u.P
}

// runeTexts hold every byte valid UTF-8 can hold, at every place it can.
func runeTexts() []string {
	var out []string
	for _, at := range []rune{0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff} {
		out = append(out, string(at), "a"+string(at), string(at)+"b", string(at)+string(at))
	}
	// first bytes
	var one, two, three, four, cont []rune
	for r := rune(0); r < 0x80; r++ {
		one = append(one, r)
	}
	for r := rune(0x80); r < 0x800; r += 0x40 {
		two = append(two, r)
	}
	for r := rune(0x800); r < 0x10000; r += 0x1000 - r%0x1000 {
		if r != 0xd800 {
			three = append(three, r)
		}
	}
	for r := rune(0x10000); r < 0x110000; r += 0x40000 - r%0x40000 {
		four = append(four, r)
	}
	// later bytes
	for k := rune(0); k < 0x40; k++ {
		cont = append(cont, 0x80+k, 0x1000+k, 0x1000+k<<6, 0x40000+k, 0x40000+k<<6, 0x40000+k<<12)
	}
	for _, t := range [][]rune{one, two, three, four, cont} {
		out = append(out, string(t))
	}
	var mixed []rune
	for i := 0; i < 16; i++ {
		mixed = append(mixed, four[i%len(four)], one[i], three[i%len(three)], two[i%len(two)])
	}
	return append(out, string(mixed))
}

// ccMissing says which rule of a case C++ documents as not implemented.
func ccMissing(k *fam.Case) string {
	for _, r := range []string{"email", "uri", "uri_ref"} {
		if caseHas(k, r) {
			return r
		}
	}
	if caseHas(k, "bytes") {
		for _, r := range []string{"ip", "ipv4", "ipv6"} {
			if caseHas(k, r) {
				return "bytes " + r
			}
		}
	}
	if caseHas(k, "timestamp") {
		for _, r := range []string{"const", "lt", "lte", "gt", "gte", "lt_now", "gt_now", "within"} {
			if caseHas(k, r) {
				return "timestamp " + r
			}
		}
	}
	return ""
}

// ccEnvs completes an environment with what C++ code may ask.
func ccEnvs(env *spec.Env) []*spec.Env {
	out := []*spec.Env{env.Clone()}
	alts := func(f func(e *spec.Env) []*spec.Env) {
		var next []*spec.Env
		for _, e := range out {
			next = append(next, f(e)...)
		}
		out = next
	}
	both := func(e *spec.Env, k string) []*spec.Env {
		if _, ok := e.Fact[k]; ok {
			return []*spec.Env{e}
		}
		return []*spec.Env{e.Clone().F(k, true), e.Clone().F(k, false)}
	}
	syms := map[string]bool{}
	for k := range env.Fact {
		for _, p := range []string{"ip:", "v4:", "address:", "hostname:"} {
			if strings.HasPrefix(k, p) && !strings.Contains(k, `"`) {
				syms[k[len(p):]] = true
			}
		}
	}
	for x := range syms {
		alts(func(e *spec.Env) []*spec.Env {
			v, ok := e.Fact["address:"+x]
			if !ok {
				return []*spec.Env{e}
			}
			if !v {
				return []*spec.Env{e.Clone().F("hostname:"+x, false).F("ip:"+x, false)}
			}
			return []*spec.Env{e.Clone().F("hostname:"+x, true).F("ip:"+x, false), e.Clone().F("hostname:"+x, false).F("ip:"+x, true), e.Clone().F("hostname:"+x, true).F("ip:"+x, true)}
		})
		alts(func(e *spec.Env) []*spec.Env {
			if e.Fact["ip:"+x] {
				return both(e, "v4:"+x)
			}
			return []*spec.Env{e}
		})
		alts(func(e *spec.Env) []*spec.Env {
			if e.Fact["ip:"+x] || e.Fact["hostname:"+x] {
				return []*spec.Env{e.Clone().F("nul:"+x, false)}
			}
			es := []*spec.Env{e.Clone().F("nul:"+x, false)}
			return append(es, both(e.Clone().F("nul:"+x, true), "nulip:"+x)...)
		})
	}
	texts := map[string]bool{}
	for k := range env.Fact {
		p := strings.SplitN(k, ":", 3)
		if len(p) == 3 && (p[0] == "prefix" || p[0] == "suffix" || p[0] == "contains") {
			for _, x := range p[1:2] {
				if _, ok := env.Rank["bytes:"+x]; !ok {
					texts[x] = true
				}
			}
		}
	}
	for x := range texts {
		alts(func(e *spec.Env) []*spec.Env { return both(e, "short:"+x) })
	}
	return out
}

var ccDurations = []scen.DC{{Sec: 5, Nanos: 7}, {Sec: 0, Nanos: 7}, {Sec: 5}, {}, {Sec: -5, Nanos: -7}, {Sec: 0, Nanos: -7}, {Sec: -5}, {Sec: 315576000000, Nanos: 999999999}, {Sec: -315576000000, Nanos: -999999999}, {Sec: 315576000000}, {Sec: -315576000000}}
var ccMalformed = []scen.DC{{Sec: 0, Nanos: 1000000000}, {Sec: 0, Nanos: -1000000000}, {Sec: 315576000001}, {Sec: -315576000001}, {Sec: 1, Nanos: -1}, {Sec: -1, Nanos: 1}, {Sec: 5, Nanos: 1000000000}, {Sec: -5, Nanos: -1000000000}, {Sec: 0, Nanos: math.MaxInt32}, {Sec: math.MinInt64}, {Sec: math.MaxInt64}}

// ccParts are the seconds and nanoseconds symbolic durations may have.
func ccParts(env *spec.Env) []map[string]scen.DC {
	var syms []string
	for k := range env.Fact {
		if strings.HasPrefix(k, "valid:") {
			syms = append(syms, k[6:])
		}
	}
	if len(syms) == 0 {
		return []map[string]scen.DC{{}}
	}
	n := len(ccDurations)
	for _, s := range syms {
		if !env.Fact["valid:"+s] {
			n = len(ccMalformed)
		}
	}
	var out []map[string]scen.DC
	for i := 0; i < n; i++ {
		m := map[string]scen.DC{}
		for j, s := range syms {
			if env.Fact["valid:"+s] {
				m[s] = ccDurations[(i+j)%len(ccDurations)]
			} else {
				m[s] = ccMalformed[(i+j)%len(ccMalformed)]
			}
		}
		out = append(out, m)
	}
	return out
}

func elems(v *spec.Val) []*spec.Val {
	if v == nil {
		return nil
	}
	return v.List
}

// ccSkip says why a value has no counterpart in C++.
func ccSkip(b *scen.Built, m *scen.Msg, v fam.CV) string {
	if v.Val == nil || v.Val.Nil {
		return "there is no null message"
	}
	why := ""
	var walk func(x *spec.Val, elem bool)
	walk = func(x *spec.Val, elem bool) {
		if x == nil {
			return
		}
		if x.Nil && elem {
			why = "null elements do not exist"
		}
		for _, y := range x.List {
			walk(y, true)
		}
		for _, y := range x.Keys {
			walk(y, true)
		}
		for _, y := range x.Fields {
			walk(y, false)
		}
		if x.Inner != nil {
			walk(x.Inner, true)
		}
	}
	walk(v.Val, false)
	// a message of a disabled type is valid
	fields := append([]*scen.Field{}, m.Fields...)
	for _, o := range m.Oneofs {
		fields = append(fields, o.Fields...)
	}
	for _, f := range fields {
		if d := b.Msgs[f.Type]; d == nil || d.Disabled != true {
			continue
		}
		for _, x := range append([]*spec.Val{v.Val.Fields[f.Name]}, elems(v.Val.Fields[f.Name])...) {
			if why == "" && x != nil && v.Env.Fact["invalid:"+x.Sym] {
				why = "messages of a disabled type are valid"
			}
		}
	}
	for _, o := range m.Oneofs {
		for _, f := range o.Fields {
			if x := v.Val.Fields[f.Name]; x != nil && x.Nil {
				why = "a set member holds a message"
			}
		}
	}
	return why
}

// CompareCC decides the verdicts of the emitted C++ validation function.
func (c *Ctx) CompareCC(e *Emission, u *CCUnit, k *fam.Case) {
	fq := "." + e.B.File.Package + "." + k.Name
	if caseHas(k, "no_sparse") {
		c.Count("cases of rules C++ does not offer", 1)
		return
	}
	p := c.ccProg(e, u)
	missing := ccMissing(k)
	for _, cv := range k.Vals {
		if ccSkip(e.B, k.Msg, cv) != "" {
			c.Count("values outside C++", 1)
			continue
		}
		want, err := goChecker(e.B, cv.Env).Violations(fq, cv.Val)
		if err != nil {
			panic(fmt.Sprintf("%s %s: %v", k.Desc, cv.Val, err))
		}
		c.Count("abstract values", 1)
		bad := func(f string, a ...interface{}) {
			c.Violate("cc/"+k.Desc, c.where(e.Run.In), "%s, value %s with %s: C++: %s", k.Desc, cv.Val, relevant(cv.Env), fmt.Sprintf(f, a...))
		}
		for _, up := range upper(k, cv.Env) {
			for _, env := range ccEnvs(up) {
				for _, parts := range ccParts(env) {
					ev := p.NewEval(env)
					ev.Parts = parts
					r := ev.Validate(fq, cv.Val)
					c.Count("obligations", 1)
					c.judgeCC(k, fq, want, missing, r, bad)
				}
			}
		}
	}
	c.mu.Lock()
	for _, f := range p.Functions() {
		if f != "Validate" {
			c.Covered["function "+f] = true
		}
	}
	c.mu.Unlock()
}

// ccEffects reports what a validation writes and other threads can see.
func (c *Ctx) ccEffects(e *Emission, u *CCUnit, k *fam.Case) {
	fq := "." + e.B.File.Package + "." + k.Name
	if caseHas(k, "no_sparse") {
		return
	}
	p := c.ccProg(e, u)
	for _, cv := range k.Vals {
		if ccSkip(e.B, k.Msg, cv) != "" {
			continue
		}
		c.Count("abstract values", 1)
		up := upper(k, cv.Env)[0]
		env := ccEnvs(up)[0]
		ev := p.NewEval(env)
		ev.Parts = ccParts(env)[0]
		r := ev.Validate(fq, cv.Val)
		c.Count("obligations", 1)
		if r.Undec != "" {
			c.Violate("cc-effect/"+k.Desc, c.where(e.Run.In), "%s, value %s with %s: C++: the effects are not determined: %s", k.Desc, cv.Val, relevant(cv.Env), r.Undec)
		}
		for _, x := range ev.Effects {
			c.Violate("cc-effect/"+k.Desc+"/"+x, c.where(e.Run.In), "%s, value %s with %s: C++: %s", k.Desc, cv.Val, relevant(cv.Env), x)
		}
	}
	c.mu.Lock()
	for _, f := range p.Functions() {
		if f != "Validate" {
			c.Covered["function "+f] = true
		}
	}
	c.mu.Unlock()
}

func (c *Ctx) judgeCC(k *fam.Case, fq string, want []spec.Viol, missing string, r cxx.Result, bad func(f string, a ...interface{})) {
	switch {
	case r.Undec != "":
		bad("the outcome is not determined: %s", r.Undec)
	case r.Thrown != "":
		if missing == "" {
			bad("%s is thrown", r.Thrown)
		} else if r.Thrown != "pgv::UnimplementedException" {
			bad("%s is thrown for the unimplemented rule %s", r.Thrown, missing)
		}
	case r.OK:
		if len(want) > 0 {
			bad("the value is accepted although %v is violated", want)
		}
		if r.Set {
			bad("the value is accepted with the message %q", r.Text)
		}
	case len(want) == 0:
		bad("the value is rejected with %q although every constraint holds", r.Text)
	default:
		name := fq[strings.LastIndex(fq, ".")+1:]
		ok := false
		var paths []string
		for _, w := range want {
			path := w.Path
			if i := strings.Index(path, "["); i >= 0 {
				path = path[:i]
			}
			paths = append(paths, path)
			ok = ok || strings.Contains(r.Text, name+"ValidationError."+path)
		}
		for _, o := range k.Msg.Oneofs {
			for _, p := range paths {
				if p == golang.CamelCase(o.Name) || p == o.Name {
					ok = ok || strings.Contains(r.Text, o.Name)
				}
			}
		}
		if !ok {
			bad("the message %q names none of the violated fields %v", r.Text, paths)
		}
	}
}
