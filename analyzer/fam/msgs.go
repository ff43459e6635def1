package fam

import (
	"fmt"

	"verif/analyzer/scen"
	"verif/analyzer/spec"
)

// Dep is a schema file generated earlier, in another Go package.
var Dep = &scen.File{Name: "dep/bar.proto", Package: "d", GoPackage: "example.com/dep;dep", Msgs: []*scen.Msg{
	{Name: "Both", Fields: []*scen.Field{{Name: "s", Kind: "int32"}}},
	{Name: "Old", GoMethods: "validate", Fields: []*scen.Field{{Name: "s", Kind: "int32"}}},
	{Name: "Plain", GoMethods: "none", Fields: []*scen.Field{{Name: "s", Kind: "int32"}}},
}, Enums: []*scen.Enum{{Name: "DE", Values: []scen.EnumVal{{Name: "D0", Num: 0}, {Name: "D2", Num: 2}}}}}

// Near is another file of the same Go package.
var Near = &scen.File{Name: "dir/near.proto", Package: "t", GoPackage: "example.com/t;t", Msgs: []*scen.Msg{
	{Name: "Near", Fields: []*scen.Field{{Name: "s", Kind: "int32"}}},
}, Enums: []*scen.Enum{{Name: "NE", Values: []scen.EnumVal{{Name: "N0", Num: 0}, {Name: "N2", Num: 2}}}}}

// Google is a file of a google package that is not google.protobuf, in yet
// another Go package; one of its messages has the name of a well-known one.
var Google = &scen.File{Name: "google/type/cal.proto", Package: "google.type", GoPackage: "example.com/gtype;gtype", Msgs: []*scen.Msg{
	{Name: "Cal", Fields: []*scen.Field{{Name: "s", Kind: "int32"}}},
	{Name: "Duration", Fields: []*scen.Field{{Name: "s", Kind: "int32"}}},
}}

// EmbedExtra are the message types of the file itself.
var EmbedExtra = []*scen.Msg{Sub,
	{Name: "Off", Disabled: true, Fields: []*scen.Field{{Name: "s", Kind: "int32", Rules: R{"int32": R{"gt": 3}}}}},
	{Name: "Gone", Ignored: true, Fields: []*scen.Field{{Name: "s", Kind: "int32", Rules: R{"int32": R{"gt": 3}}}}},
	{Name: "Outer", Fields: []*scen.Field{{Name: "in", Kind: "message", Type: ".t.Outer.Inner"}, {Name: "self", Kind: "message", Type: ".t.Outer"}},
		Nested: []*scen.Msg{{Name: "Inner", Fields: []*scen.Field{{Name: "s", Kind: "int32", Rules: R{"int32": R{"gt": 3}}}}}}},
}

var embedTypes = []string{subT, ".t.Off", ".t.Gone", ".t.Outer", ".t.Outer.Inner", ".d.Both", ".d.Old", ".d.Plain", ".t.Near", ".google.type.Cal", ".google.type.Duration"}

// Embedded: embedded messages are validated through, required and skip.
func Embedded(full bool) []*Case {
	b := &builder{pre: "EM"}
	rules := []R{nil, {"message": R{"required": true}}, {"message": R{"skip": true}}, {"message": R{"required": true, "skip": true}}, {"message": R{"required": false, "skip": false}}, {"message": R{}}}
	for _, t := range embedTypes {
		for _, r := range rules {
			d := "none"
			if r != nil {
				d = r.String()
			}
			for _, ctx := range []string{"plain", "oneof"} {
				var vals []CV
				for _, inv := range []bool{false, true} {
					vals = append(vals, CV{Env().F("invalid:m", inv), fv(spec.Sym("m"))})
				}
				vals = append(vals, CV{Env(), fv(spec.Nil())}, CV{Env(), spec.Msg(nil)}, CV{Env(), spec.Nil()})
				b.add(ctx+" "+t+" "+d, InContext("", ctx, Shape{"message", t}, r), vals)
			}
			for _, ctx := range []string{"items", "values"} {
				m := InContext("", ctx, Shape{"message", t}, r)
				if r == nil {
					m.Fields[0].Rules = nil
				}
				var vals []CV
				for s := 0; s < 3; s++ {
					e, x := Env(), spec.Nil()
					if s < 2 {
						e.F("invalid:m", s == 1)
						x = spec.Sym("m")
					}
					vals = append(vals, CV{e, ValueIn(ctx, x)})
				}
				// a later element is reached as well
				e := Env().F("invalid:m", false).F("invalid:n", true)
				if ctx == "items" {
					vals = append(vals, CV{e, fv(spec.List(spec.Sym("m"), spec.Nil(), spec.Sym("n")))}, CV{e, fv(spec.List(spec.Sym("m"), spec.Sym("m"), spec.Sym("n")))})
				} else {
					vals = append(vals, CV{e, fv(spec.Map(spec.Conc("k2"), spec.Sym("m"), spec.Conc("key2"), spec.Nil(), spec.Conc("key0"), spec.Sym("n")))}, CV{e, fv(spec.Map(spec.Conc("k2"), spec.Sym("m"), spec.Conc("key0"), spec.Sym("n")))})
				}
				vals = append(vals, CV{Env(), spec.Msg(nil)})
				b.add(ctx+" "+t+" "+d, m, vals)
			}
		}
	}
	// several embedded fields together
	m := &scen.Msg{}
	for i, t := range embedTypes {
		m.Fields = append(m.Fields, &scen.Field{Name: fmt.Sprintf("f%d", i), Kind: "message", Type: t})
	}
	var vals []CV
	for s := 0; s < 1<<len(embedTypes); s += 1 + (s%5)*3 {
		e := Env()
		fs := map[string]*spec.Val{}
		for i := range embedTypes {
			e.F(fmt.Sprintf("invalid:m%d", i), s>>i&1 == 1)
			fs[fmt.Sprintf("f%d", i)] = spec.Sym(fmt.Sprintf("m%d", i))
		}
		vals = append(vals, CV{e, spec.Msg(fs)})
	}
	b.add("several embedded fields", m, vals)
	// wrappers: required, unset, set
	for _, k := range []string{"int32", "string", "bytes", "bool", "double", "uint64"} {
		r := R{"gt": L("lo")}
		switch k {
		case "string", "bytes":
			r = R{"min_len": L("ML")}
		case "bool":
			r = R{"const": true}
		}
		for _, rr := range []R{{k: r}, {k: r, "message": R{"required": true}}, {k: r, "message": R{"required": false}}, {"message": R{"required": true}}, {k: r, "message": R{}}} {
			var vals []CV
			for _, p := range []float64{8, 12} {
				e := Env().R(X, p).R("runes:x", p/3).R("bytes:x", p/3)
				v := spec.Sym(X)
				if k == "bool" {
					v = spec.Conc(p > 10)
				}
				vals = append(vals, CV{e, fv(spec.Wrap(v))})
			}
			vals = append(vals, CV{Env(), spec.Msg(nil)}, CV{Env(), spec.Nil()})
			b.add("wrapper "+k+" "+rr.String(), InContext("", "wrapper", Shape{Kind: k}, rr), vals)
			b.add("wrapper in oneof "+k+" "+rr.String(), InContext("", "oneof", Shape{"message", Wrapper(k)}, rr), append(vals, CV{Env(), fv(spec.Nil())}))
		}
	}
	// Any
	for _, r := range []R{{"required": true}, {"required": false}, {"in": I{"one"}}, {"in": I{"one", "two"}}, {"not_in": I{"one"}}, {"required": true, "not_in": I{"one", "two"}}, {"required": true, "in": I{"one"}}, {}} {
		for _, ctx := range timeContexts {
			var vals []CV
			for _, s := range []string{"", "one", "two", "three"} {
				vals = append(vals, CV{textEnv("string", spec.StrClass(s), float64(len(s)), float64(len(s))), ValueIn(ctx, spec.Wrap(spec.Sym(X)))})
			}
			vals = append(vals, CV{Env(), ValueIn(ctx, spec.Nil())})
			if ctx == "plain" {
				vals = append(vals, CV{Env(), spec.Msg(nil)}, CV{Env(), spec.Nil()})
			}
			b.add(ctx+" any "+r.String(), InContext("", ctx, Shape{"message", anyT}, R{"any": r}), vals)
		}
	}
	return b.cases
}

// Oneofs: presence of oneof groups and rules of the member that is set.
func Oneofs(full bool) []*Case {
	b := &builder{pre: "OO"}
	members := []*scen.Field{
		{Name: "a", Kind: "int32", Rules: R{"int32": R{"gt": L("lo")}}},
		{Name: "b_two", Kind: "string", Rules: R{"string": R{"min_len": L("ML")}}},
		{Name: "c", Kind: "message", Type: subT},
		{Name: "d", Kind: "message", Type: subT, Rules: R{"message": R{"required": true}}},
		{Name: "e", Kind: "bool"},
		{Name: "w", Kind: "message", Type: ".google.protobuf.Int32Value", Rules: R{"int32": R{"gt": L("lo")}}},
		{Name: "g", Kind: "bytes", Rules: R{"bytes": R{"len": L("EL")}}},
		{Name: "h", Kind: "enum", Type: enumT, Rules: R{"enum": R{"defined_only": true}}},
		{Name: "dd", Kind: "message", Type: durT, Rules: R{"duration": R{"gt": scen.D("lo")}}},
		{Name: "z", Kind: "double", Rules: R{"double": R{"ignore_empty": true, "gte": L("lo")}}},
	}
	states := func(f *scen.Field) []CV {
		var out []CV
		add := func(e *spec.Env, v *spec.Val) { out = append(out, CV{e, v}) }
		for i, p := range []float64{8, 12} {
			e := Env().R(X, p).R("runes:x", p/3).R("bytes:x", p/2).F("valid:x", true).F("invalid:x", i == 0)
			switch {
			case f.Type == ".google.protobuf.Int32Value":
				add(e, spec.Wrap(spec.Sym(X)))
			case f.Kind == "enum":
				add(e, spec.Conc(i*7))
			case f.Kind == "bool":
				add(e, spec.Conc(i == 0))
			default:
				add(e, spec.Sym(X))
			}
		}
		if f.Kind == "message" {
			add(Env(), spec.Nil())
		}
		if f.Name == "z" {
			add(Env(), spec.Conc(0))
		}
		return out
	}
	cp := func(fs ...*scen.Field) []*scen.Field {
		var out []*scen.Field
		for _, f := range fs {
			g := *f
			out = append(out, &g)
		}
		return out
	}
	for _, req := range []interface{}{nil, true, false} {
		for i := range members {
			fs := cp(members[i], members[(i+4)%len(members)])
			m := &scen.Msg{Oneofs: []*scen.Oneof{{Name: "choice_of", Required: req, Fields: fs}}}
			var vals []CV
			for _, f := range fs {
				for _, s := range states(f) {
					vals = append(vals, CV{s.Env, spec.Msg(map[string]*spec.Val{f.Name: s.Val})})
				}
			}
			vals = append(vals, CV{Env(), spec.Msg(nil)}, CV{Env(), spec.Nil()})
			b.add(fmt.Sprintf("oneof required=%v of %s, %s", req, fs[0].Name, fs[1].Name), m, vals)
		}
		// every numeric kind in every place of a three-member group
		for i, k := range NumKinds {
			k2, k3 := NumKinds[(i+1)%len(NumKinds)], NumKinds[(i+5)%len(NumKinds)]
			m := &scen.Msg{Oneofs: []*scen.Oneof{{Name: "o", Required: req, Fields: []*scen.Field{
				{Name: "a", Kind: k, Rules: R{k: R{"gt": L("lo")}}}, {Name: "b", Kind: k2, Rules: R{k2: R{"lt": L("lo")}}}, {Name: "c", Kind: k3, Rules: R{k3: R{"const": L("lo")}}}}}}}
			var vals []CV
			for _, n := range []string{"a", "b", "c"} {
				for _, p := range []float64{8, 10, 12} {
					vals = append(vals, CV{Env().R(X, p), spec.Msg(map[string]*spec.Val{n: spec.Sym(X)})})
				}
			}
			vals = append(vals, CV{Env(), spec.Msg(nil)})
			b.add(fmt.Sprintf("oneof required=%v of %s, %s, %s", req, k, k2, k3), m, vals)
		}
		// all members, next to another group and plain fields
		for _, req2 := range []interface{}{nil, true} {
			m := &scen.Msg{
				Fields: []*scen.Field{{Name: "p", Kind: "int64", Rules: R{"int64": R{"lt": L("hi")}}}},
				Oneofs: []*scen.Oneof{{Name: "o", Required: req, Fields: cp(members...)}, {Name: "o2", Required: req2, Fields: []*scen.Field{{Name: "q", Kind: "uint32", Rules: R{"uint32": R{"gt": L("lo")}}}}}},
			}
			var vals []CV
			for _, p := range []float64{12, 25} {
				for _, q := range []float64{0, 8, 12} {
					add := func(cv CV, n string) {
						e := cv.Env.Clone().R("p", p).R("q", q)
						fs := map[string]*spec.Val{"p": spec.Sym("p")}
						if n != "" {
							fs[n] = cv.Val
						}
						if q > 0 {
							fs["q"] = spec.Sym("q")
						}
						vals = append(vals, CV{e, spec.Msg(fs)})
					}
					for _, f := range members {
						for _, s := range states(f) {
							add(s, f.Name)
						}
					}
					add(CV{Env(), nil}, "")
				}
			}
			b.add(fmt.Sprintf("two oneofs required=%v,%v", req, req2), m, vals)
		}
	}
	return b.cases
}

// IgnoreEmpty: rules marked to be skipped on default values.
func IgnoreEmpty(full bool) []*Case {
	b := &builder{pre: "IE"}
	for _, k := range NumKinds {
		for _, x := range []R{{"gt": L("lo")}, {"const": L("K")}, {"in": I{L("I1")}}, {"not_in": I{0}}, {"gte": L("hi"), "lte": L("lo")}, {"lt": 0}, {"const": L("K"), "-": 1}} {
			if !Signed(k) && x["lt"] != nil {
				continue
			}
			r := with(x, "ignore_empty", true)
			if x["-"] != nil {
				r = with(R{"const": L("K")}, "ignore_empty", false)
			}
			for _, ctx := range Contexts {
				b.add(ctx+" "+k+" "+r.String(), InContext("", ctx, Shape{Kind: k}, R{k: r}), NumVals(ctx, r, Signed(k), true))
			}
		}
	}
	for _, k := range []string{"string", "bytes"} {
		rules := []R{{"min_len": L("ML")}, {"len": L("EL")}, {"max_len": L("XL"), "min_len": L("ML")}, {"const": txt(k, "k")}, {"in": I{txt(k, "one")}}, {"not_in": I{txt(k, "")}}, {"prefix": txt(k, "pre")}, {"pattern": "^a+$"}, {"ip": true}}
		if k == "string" {
			rules = append(rules, R{"min_bytes": L("MB")}, R{"uri": true}, R{"contains": "mid", "suffix": "suf"})
		}
		for _, x := range rules {
			for _, ie := range []bool{true, false} {
				r := with(x, "ignore_empty", ie)
				for _, ctx := range Contexts {
					var vals []CV
					for _, n := range []float64{0, 1, 6, 7, 12} {
						for _, f := range []bool{true, false} {
							cl := float64(other)
							if n == 0 {
								cl = 0
							}
							e := textEnv(k, cl, n, n)
							for _, q := range []string{"prefix:x:\"pre\"", "suffix:x:\"suf\"", "contains:x:\"mid\"", "match:x:\"^a+$\"", "ip:x", "v4:x", "url:x", "urlabs:x"} {
								e.F(q, f && (n >= 6 || n > 0 && q[1] != 'r' && q[1] != 'u' && q[0] != 'c'))
							}
							vals = append(vals, CV{e, ValueIn(ctx, spec.Sym(X))})
						}
					}
					b.add(ctx+" "+k+" "+r.String(), InContext("", ctx, Shape{Kind: k}, R{k: r}), vals)
				}
			}
		}
	}
	for _, mk := range []struct {
		d string
		m *scen.Msg
		v []CV
	}{
		{"repeated", repeated("int32", "", R{"repeated": R{"ignore_empty": true, "min_items": 2, "items": R{"int32": R{"gt": L("lo")}}}}), elemVals(false, 3)},
		{"repeated, inner", repeated("string", "", R{"repeated": R{"items": R{"string": R{"ignore_empty": true, "min_len": L("ML")}}}}), append(elemVals(true, 2), CV{Env().R("x0", 0).R("runes:x0", 0).R("bytes:x0", 0), fv(spec.List(spec.Sym("x0")))})},
		{"map", mapOf("int32", "int32", "", R{"map": R{"ignore_empty": true, "min_pairs": 2, "keys": R{"int32": R{"gt": L("lo")}}}}), pairVals("int32", nil)},
	} {
		b.add(mk.d+" ignore_empty", mk.m, mk.v)
	}
	return b.cases
}
