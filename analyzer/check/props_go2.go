package check

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"verif/analyzer/absint"
	"verif/analyzer/fam"
	"verif/analyzer/golang"
	"verif/analyzer/scen"
	"verif/analyzer/spec"
)

// mixedOpt is the file all single-rule families fit in.
func mixedOpt() *FileOpt {
	return &FileOpt{Enums: []*scen.Enum{fam.EnumE}, Extra: fam.EmbedExtra, Deps: []*scen.File{fam.Dep, fam.Near, fam.Google}}
}

// violated evaluates a single case against the reference.
func violated(o *FileOpt) func(c *fam.Case, v fam.CV) bool {
	cache := map[*fam.Case]*scen.Built{}
	return func(c *fam.Case, v fam.CV) bool {
		b := cache[c]
		if b == nil {
			var err error
			if b, err = scen.Build(o.file([]*fam.Case{c})); err != nil {
				panic(err)
			}
			cache[c] = b
		}
		vs, err := goChecker(b, v.Env).Violations(".t."+c.Name, v.Val)
		if err != nil {
			panic(err)
		}
		return len(vs) > 0
	}
}

func mixed(c *Ctx, o *FileOpt, stride int) []*fam.Case {
	all := fam.All(false)
	step := 5
	if c.Full() {
		step = 1
	}
	var pick []*fam.Case
	for i := c.Seed % step; i < len(all); i += step {
		pick = append(pick, all[i])
	}
	w := 4
	return fam.Mixed(pick, w, len(pick)/w+stride, violated(o))
}

// protocol decides how the two methods relate.
func (c *Ctx) protocol(e *Emission, u *golang.Unit, k *fam.Case) {
	fq := ".t." + k.Name
	gn := golang.GoTypeName(e.B, fq)
	for _, cv := range append(k.Vals, fam.CV{Env: fam.Env(), Val: spec.Nil()}) {
		want, err := goChecker(e.B, cv.Env).Violations(fq, cv.Val)
		if err != nil {
			panic(fmt.Sprintf("%s %s: %v", k.Desc, cv.Val, err))
		}
		c.Count("abstract values", 1)
		bad := func(f string, a ...interface{}) {
			c.Violate("protocol/"+k.Desc, c.where(e.Run.In), "%s, value %s with %s: %s", k.Desc, cv.Val, relevant(cv.Env), fmt.Sprintf(f, a...))
		}
		firsts := map[string]bool{}
		heads := map[string]bool{}
		for _, all := range []bool{true, false} {
			goResults(u, cv.Env, fq, cv.Val, all, func(r *golang.Result, ev *golang.Evaluator, path string) {
				c.Count("obligations", 1)
				if b := r.Bad(); b != "" {
					bad("all=%v %s", all, b)
					return
				}
				if (len(r.Errs) > 0) != (len(want) > 0) {
					bad("all=%v reports %v, violated are %v", all, r.Errs, want)
					return
				}
				if len(want) == 0 {
					return
				}
				for _, x := range r.Errs {
					if x.Type != gn+"ValidationError" {
						bad("a violation is reported as a %s", x.Type)
					}
				}
				if all {
					if !r.Wrapped || r.Type != gn+"MultiError" {
						bad("ValidateAll returns a %s", r.Type)
						return
					}
					if len(r.Errs) != len(want) {
						bad("ValidateAll reports %d violations, there are %d: %v; %v", len(r.Errs), len(want), r.Errs, want)
						return
					}
					if m := joined(r.Errs, r.Text); m != "" {
						bad("the text of the list %s", m)
					}
					heads[summary(r.Errs[0])] = true
				} else {
					if r.Wrapped || len(r.Errs) != 1 {
						bad("Validate returns %d violations as a %s", len(r.Errs), r.Type)
						return
					}
					firsts[summary(r.Errs[0])] = true
				}
			})
		}
		if fmt.Sprint(keys(firsts)) != fmt.Sprint(keys(heads)) {
			bad("Validate reports %v, ValidateAll begins with %v", keys(firsts), keys(heads))
		}
	}
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// summary identifies a violation; causes are compared without the entry point
// that produced them.
func summary(e golang.Err) string {
	e.Cause = strings.NewReplacer(":ValidateAll", "", ":Validate", "").Replace(e.Cause)
	return e.String()
}

// joined checks that the list's text holds every entry's text in order.
func joined(es []golang.Err, text string) string {
	at := 0
	for _, e := range es {
		i := strings.Index(text[at:], e.Text)
		if i < 0 || e.Text == "" {
			return fmt.Sprintf("%q lacks %q", absint.Show(text), absint.Show(e.Text))
		}
		at += i + len(e.Text)
	}
	return ""
}

// identified decides what the reported violations say.
func (c *Ctx) identified(e *Emission, u *golang.Unit, k *fam.Case) {
	fq := ".t." + k.Name
	gn := golang.GoTypeName(e.B, fq)
	for _, cv := range k.Vals {
		want, err := goChecker(e.B, cv.Env).Violations(fq, cv.Val)
		if err != nil {
			panic(fmt.Sprintf("%s %s: %v", k.Desc, cv.Val, err))
		}
		if len(want) == 0 {
			continue
		}
		c.Count("abstract values", 1)
		bad := func(f string, a ...interface{}) {
			c.Violate("says/"+k.Desc, c.where(e.Run.In), "%s, value %s with %s: %s", k.Desc, cv.Val, relevant(cv.Env), fmt.Sprintf(f, a...))
		}
		goResults(u, cv.Env, fq, cv.Val, true, func(r *golang.Result, ev *golang.Evaluator, path string) {
			if b := r.Bad(); b != "" {
				bad("%s", b)
				return
			}
			for _, w := range want {
				c.Count("obligations", 1)
				ok := false
				why := "no violation is reported at " + w.Path
				for _, x := range r.Errs {
					if pathText(x.Field) != w.Path {
						continue
					}
					m := tells(x, w, gn)
					if m == "" {
						ok = true
						break
					}
					why = m
				}
				if !ok {
					bad("violated %s: %s", w, why)
				}
			}
		})
	}
}

// tells checks that x describes violation w; "" when it does.
func tells(x golang.Err, w spec.Viol, gn string) string {
	if x.Reason == "" {
		return "the reason is empty"
	}
	for _, s := range w.Says {
		if !mentions(x.Reason, s) {
			return fmt.Sprintf("the reason %q does not mention %v", absint.Show(x.Reason), s)
		}
	}
	if x.Key != w.Key {
		return fmt.Sprintf("Key() is %v", x.Key)
	}
	if w.Nested != "" && !strings.HasPrefix(x.Cause, "nested:"+w.Nested+":") {
		return fmt.Sprintf("the cause is %q instead of the failure of the embedded message", absint.Show(x.Cause))
	}
	if w.Nested == "" && strings.HasPrefix(x.Cause, "nested:") {
		return fmt.Sprintf("the cause is %q", absint.Show(x.Cause))
	}
	if x.Name != gn+"ValidationError" {
		return fmt.Sprintf("ErrorName() is %q", x.Name)
	}
	for _, p := range []string{gn + ".", x.Field, x.Reason, x.Cause} {
		if p != "?" && !strings.Contains(x.Text, p) {
			return fmt.Sprintf("the text %q lacks %q", absint.Show(x.Text), absint.Show(p))
		}
	}
	if x.Key != strings.Contains(x.Text, "key for ") {
		return fmt.Sprintf("the text %q of a violation with Key()=%v", absint.Show(x.Text), x.Key)
	}
	return ""
}

func mentions(reason string, bound interface{}) bool {
	switch b := bound.(type) {
	case scen.L:
		return holeOf(reason, string(b))
	case scen.LN:
		return holeOf(reason, string(b))
	case scen.D:
		return holeOf(reason, string(b))
	case int:
		return strings.Contains(reason, fmt.Sprint(b))
	case string:
		q := strconv.Quote(b)
		return strings.Contains(reason, b) || strings.Contains(reason, q[1:len(q)-1]) || strings.Contains(reason, bytesText(b))
	}
	return true
}

// bytesText is how %v shows the bytes of b.
func bytesText(b string) string { return strings.Trim(fmt.Sprint([]byte(b)), "[]") }

// holeOf tells whether a symbolic part of text depends on sym.
func holeOf(text, sym string) bool {
	for _, g := range absint.Segs(text) {
		if g.Hole == nil {
			continue
		}
		k := g.Hole.Key()
		for i := strings.Index(k, sym); i >= 0; {
			end := i + len(sym)
			if (i == 0 || !wordByte(k[i-1])) && (end == len(k) || !wordByte(k[end])) {
				return true
			}
			j := strings.Index(k[end:], sym)
			if j < 0 {
				break
			}
			i = end + j
		}
	}
	return false
}

func wordByte(b byte) bool {
	return b == '_' || '0' <= b && b <= '9' || 'a' <= b && b <= 'z' || 'A' <= b && b <= 'Z'
}

// switchedOff decides the disabled and ignored options of a schema.
func (c *Ctx) switchedOff() {
	bad := R3{"int32": R3{"gt": fam.L("lo")}}
	fields := func() []*scen.Field {
		return []*scen.Field{{Name: "f", Kind: "int32", Rules: scen.R(bad)}, {Name: "s", Kind: "message", Type: ".t.Plain"},
			{Name: "d", Kind: "message", Type: ".google.protobuf.Duration", Rules: scen.R{"duration": scen.R{"required": true}}},
			{Name: "l", Kind: "string", Repeated: true, Rules: scen.R{"repeated": scen.R{"min_items": 2, "items": scen.R{"string": scen.R{"uuid": true}}}}},
			{Name: "in", Kind: "int64", Rules: scen.R{"int64": scen.R{"in": []interface{}{1, 2}}}},
			{Name: "p", Kind: "string", Rules: scen.R{"string": scen.R{"pattern": "^a+$"}}}}
	}
	opts := []interface{}{nil, true, false}
	var cases []*fam.Case
	n := 0
	for _, dis := range opts {
		for _, ign := range opts {
			for _, nd := range opts {
				for _, ni := range opts {
					n++
					inner := &scen.Msg{Name: "Inner", Disabled: nd, Ignored: ni, Fields: fields()[:1]}
					m := &scen.Msg{Name: fmt.Sprintf("OF%d", n), Disabled: dis, Ignored: ign, Fields: fields(), Nested: []*scen.Msg{inner},
						Oneofs: []*scen.Oneof{{Name: "o", Required: true, Fields: []*scen.Field{{Name: "a", Kind: "bool"}, {Name: "nm", Kind: "message", Type: fmt.Sprintf(".t.OF%d.Inner", n)}}}}}
					cases = append(cases, &fam.Case{Name: m.Name, Desc: fmt.Sprintf("disabled=%v ignored=%v, nested disabled=%v ignored=%v", dis, ign, nd, ni), Msg: m})
				}
			}
		}
	}
	// rules of a switched-off message are not looked at
	for i, r := range []scen.R{{"int32": scen.R{"gt": 1, "gte": 2}}, {"string": scen.R{"min_len": 1}}, {"int32": scen.R{"in": []interface{}{1}, "not_in": []interface{}{1}}}} {
		cases = append(cases, &fam.Case{Name: fmt.Sprintf("OX%d", i), Desc: fmt.Sprintf("disabled with contradictory rules %v", r),
			Msg: &scen.Msg{Name: fmt.Sprintf("OX%d", i), Disabled: true, Fields: []*scen.Field{{Name: "f", Kind: "int32", Rules: r}}}})
	}
	o := &FileOpt{Extra: []*scen.Msg{{Name: "Plain", Fields: []*scen.Field{{Name: "s", Kind: "int32", Rules: scen.R(bad)}}}}, Batch: 21}
	c.GoCases(o, cases, func(e *Emission, u *golang.Unit, k *fam.Case) {
		fail := func(f string, a ...interface{}) {
			c.Violate("off/"+k.Desc, c.where(e.Run.In), "%s: %s", k.Desc, fmt.Sprintf(f, a...))
		}
		is := func(x interface{}) bool { b, _ := x.(bool); return b }
		msgs := []struct {
			fq string
			m  *scen.Msg
		}{{".t." + k.Name, k.Msg}}
		for _, x := range k.Msg.Nested {
			msgs = append(msgs, struct {
				fq string
				m  *scen.Msg
			}{".t." + k.Name + "." + x.Name, x})
		}
		for _, x := range msgs {
			gn := golang.GoTypeName(e.B, x.fq)
			T := u.TPkg.Scope().Lookup(gn).Type()
			ms := types.NewMethodSet(types.NewPointer(T))
			c.Count("obligations", 1)
			has := ms.Lookup(u.TPkg, "Validate") != nil && ms.Lookup(u.TPkg, "ValidateAll") != nil
			any := ms.Lookup(u.TPkg, "Validate") != nil || ms.Lookup(u.TPkg, "ValidateAll") != nil
			if is(x.m.Ignored) {
				if any {
					fail("the ignored message %s has validation methods", gn)
				}
				if u.TPkg.Scope().Lookup(gn+"ValidationError") != nil {
					fail("the ignored message %s has an error type", gn)
				}
				continue
			}
			if !has {
				fail("message %s lacks a validation method", gn)
				continue
			}
			for q := 0; q < 8; q++ {
				env := fam.Env().R("x", 8+float64(q%2)*4).F("invalid:m", q&2 > 0).F("valid:d", q&4 > 0).F("uuid:l", false)
				fs := map[string]*spec.Val{"f": spec.Sym("x"), "s": spec.Sym("m")}
				if len(x.m.Fields) == 1 {
					delete(fs, "s")
				} else if !is(x.m.Disabled) {
					// keep away from the formats: their helpers are another property
					fs["l"] = spec.List()
					fs["d"] = spec.Sym("d")
					fs["in"] = spec.Conc(q)
					fs["p"] = spec.Conc("aa")
					env.F("match:\"aa\":\"^a+$\"", true)
				}
				want, err := goChecker(e.B, env).Violations(x.fq, spec.Msg(fs))
				if err != nil {
					panic(err)
				}
				for _, all := range []bool{false, true} {
					goResults(u, env, x.fq, spec.Msg(fs), all, func(r *golang.Result, ev *golang.Evaluator, path string) {
						c.Count("obligations", 1)
						if b := r.Bad(); b != "" {
							fail("%s: %s", gn, b)
						} else if (len(r.Errs) == 0) != (len(want) == 0) {
							fail("%s reports %v for %v", gn, r.Errs, fs)
						}
					})
				}
			}
		}
	})
}

type R3 = scen.R

func init() {
	register(&Property{ID: "G10", Explain: explainGo, Assume: assumeGo, Min: map[string]int{"obligations": 900}, Run: func(c *Ctx) { c.switchedOff() }})
	register(&Property{ID: "G11", Explain: explainGo, Assume: assumeGo, Min: map[string]int{"obligations": 5000, "schemas analysed": 250},
		Run: func(c *Ctx) {
			o := mixedOpt()
			cases := mixed(c, o, 1)
			if c.Full() {
				cases = append(cases, fam.All(true)...)
			}
			c.GoCases(o, cases, func(e *Emission, u *golang.Unit, k *fam.Case) {
				u.Texts = true
				c.protocol(e, u, k)
			})
		}})
	register(&Property{ID: "G12", Explain: explainGo, Assume: assumeGo, Min: map[string]int{"obligations": 5000, "schemas analysed": 1000},
		Run: func(c *Ctx) {
			o := mixedOpt()
			cases := fam.All(false)
			if !c.Full() {
				var pick []*fam.Case
				for i, k := range cases {
					if i%3 == 0 || !strings.HasPrefix(k.Name, "NR") {
						pick = append(pick, k)
					}
				}
				cases = pick
			}
			c.GoCases(o, cases, func(e *Emission, u *golang.Unit, k *fam.Case) {
				u.Texts = true
				c.identified(e, u, k)
			})
		}})
}
