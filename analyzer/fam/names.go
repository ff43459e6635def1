package fam

import (
	"math"

	"verif/analyzer/scen"
	"verif/analyzer/spec"
)

// Named gives the field f of each case a name of the list, in turn.
func Named(cases []*Case, names []string) []*Case {
	var out []*Case
	for i, c := range cases {
		n := names[i%len(names)]
		ren := func(fs []*scen.Field) []*scen.Field {
			var out []*scen.Field
			for _, f := range fs {
				g := *f
				if g.Name == "f" {
					g.Name = n
				}
				out = append(out, &g)
			}
			return out
		}
		m := &scen.Msg{Name: c.Name, Fields: ren(c.Msg.Fields)}
		for _, o := range c.Msg.Oneofs {
			m.Oneofs = append(m.Oneofs, &scen.Oneof{Name: o.Name, Required: o.Required, Fields: ren(o.Fields)})
		}
		d := &Case{Name: c.Name, Desc: "field " + n + ": " + c.Desc, Msg: m}
		for _, v := range c.Vals {
			if x := v.Val.Fields["f"]; x != nil && v.Val.IsMsg {
				w := *v.Val
				w.Fields = map[string]*spec.Val{}
				for k, y := range v.Val.Fields {
					if k == "f" {
						k = n
					}
					w.Fields[k] = y
				}
				v.Val = &w
			}
			d.Vals = append(d.Vals, v)
		}
		out = append(out, d)
	}
	return out
}

// Step is one validation of a history.
type Step struct {
	Type string
	Val  *spec.Val
}

// Histories are validations that follow one another, in a schema with types
// that share a name, contain one another or are switched off.
func Histories(full bool) (*scen.File, [][]Step) {
	flag := func(want bool) []*scen.Field {
		return []*scen.Field{{Name: "b", Kind: "bool", Rules: R{"bool": R{"const": want}}}}
	}
	f := &scen.File{Name: "dir/foo.proto", Package: "t", GoPackage: "example.com/t;t",
		Deps: []*scen.File{{Name: "dep/bar.proto", Package: "d", GoPackage: "example.com/dep;dep", Msgs: []*scen.Msg{
			{Name: "A", Fields: append(flag(true), &scen.Field{Name: "c", Kind: "bool", Rules: R{"bool": R{"const": false}}})}}},
			{Name: "google/day.proto", Package: "google.type", GoPackage: "example.com/day;day", Msgs: []*scen.Msg{{Name: "Day", Fields: flag(true)}}}},
		Msgs: []*scen.Msg{
			{Name: "A", Fields: []*scen.Field{{Name: "b", Kind: "bool"}}},
			{Name: "P", Nested: []*scen.Msg{{Name: "A", Fields: flag(true)}}, Fields: []*scen.Field{{Name: "a", Kind: "message", Type: ".t.P.A"}, {Name: "r", Kind: "message", Type: ".t.P.A", Repeated: true, Rules: R{"repeated": R{"max_items": 1}}}}},
			{Name: "Q", Nested: []*scen.Msg{{Name: "A", Fields: flag(false)}}, Fields: []*scen.Field{{Name: "a", Kind: "message", Type: ".t.Q.A", Rules: R{"message": R{"required": true}}}}},
			{Name: "Rec", Fields: append(flag(true), &scen.Field{Name: "self", Kind: "message", Type: ".t.Rec"}, &scen.Field{Name: "m", Kind: "message", Type: ".t.Rec", MapKey: "string"})},
			{Name: "Off", Disabled: true, Fields: flag(true)},
			{Name: "On", Disabled: false, Ignored: false, Fields: flag(true)},
			{Name: "Gone", Ignored: true, Fields: flag(true)},
			{Name: "Cal", Fields: []*scen.Field{{Name: "d", Kind: "message", Type: ".google.type.Day"}, {Name: "r", Kind: "message", Type: ".google.type.Day", Repeated: true}}},
			{Name: "Pair", Fields: []*scen.Field{{Name: "key", Kind: "bool", Rules: R{"bool": R{"const": true}}}, {Name: "value", Kind: "bool"}}},
			{Name: "Link", Fields: []*scen.Field{{Name: "key", Kind: "bool"}, {Name: "value", Kind: "message", Type: ".t.P.A"}}},
			{Name: "Pairs", Fields: []*scen.Field{{Name: "p", Kind: "message", Type: ".t.Pair", Repeated: true}, {Name: "l", Kind: "message", Type: ".t.Link", Repeated: true}}},
			{Name: "Pick", Oneofs: []*scen.Oneof{{Name: "o", Required: true, Fields: []*scen.Field{{Name: "p", Kind: "message", Type: ".t.P.A"}, {Name: "q", Kind: "message", Type: ".t.Q.A"}, {Name: "d", Kind: "message", Type: ".d.A"}}}}},
		}}
	b := func(x bool) *spec.Val { return spec.Msg(map[string]*spec.Val{"b": spec.Conc(x)}) }
	in := func(n string, v *spec.Val) *spec.Val { return spec.Msg(map[string]*spec.Val{n: v}) }
	both := func(x, y bool) *spec.Val {
		return spec.Msg(map[string]*spec.Val{"b": spec.Conc(x), "c": spec.Conc(y)})
	}
	var steps []Step
	add := func(t string, vs ...*spec.Val) {
		for _, v := range vs {
			steps = append(steps, Step{t, v})
		}
	}
	add(".t.A", b(true), b(false))
	add(".t.P.A", b(true), b(false))
	add(".t.Q.A", b(true), b(false))
	add(".d.A", both(true, true), both(true, false), both(false, false))
	add(".t.P", in("a", b(true)), in("a", b(false)), in("r", spec.List(b(true))), in("r", spec.List(b(false))), in("r", spec.List(b(true), b(true))))
	add(".t.Q", in("a", b(true)), in("a", b(false)), spec.Msg(nil))
	add(".t.Rec", b(true), b(false),
		spec.Msg(map[string]*spec.Val{"b": spec.Conc(true), "self": b(true)}), spec.Msg(map[string]*spec.Val{"b": spec.Conc(true), "self": b(false)}),
		spec.Msg(map[string]*spec.Val{"b": spec.Conc(true), "m": spec.Map(spec.Conc("k"), b(true), spec.Conc("l"), b(false))}))
	add(".t.Off", b(true), b(false))
	add(".t.On", b(true), b(false))
	add(".t.Gone", b(false))
	add(".t.Pick", spec.Msg(nil), in("p", b(true)), in("p", b(false)), in("q", b(true)), in("q", b(false)), in("d", both(true, false)), in("d", both(false, false)))
	// Messages with the fields of a map entry.
	pair := func(k bool) *spec.Val { return spec.Msg(map[string]*spec.Val{"key": spec.Conc(k)}) }
	link := func(x bool) *spec.Val {
		return spec.Msg(map[string]*spec.Val{"key": spec.Conc(true), "value": b(x)})
	}
	add(".t.Pairs", in("p", spec.List(pair(true), pair(true))), in("p", spec.List(pair(true), pair(false))), in("l", spec.List(link(true), link(true))), in("l", spec.List(link(true), link(false))))
	add(".t.Cal", in("d", b(true)), in("d", b(false)), in("r", spec.List(b(true), b(false))))
	var out [][]Step
	for i := range steps {
		out = append(out, []Step{steps[i]})
		for j := range steps {
			out = append(out, []Step{steps[i], steps[j]})
			for k := range steps {
				if full || (i*7+j*3+k)%17 == 0 {
					out = append(out, []Step{steps[i], steps[j], steps[k]})
				}
			}
		}
	}
	return f, out
}

// Infinite are bounds beyond every finite number.
func Infinite(full bool) []*Case {
	b := &builder{pre: "IF"}
	inf := math.Inf(1)
	for _, k := range []string{"float", "double"} {
		for _, ctx := range Contexts {
			for _, r := range []R{{"lt": inf}, {"gt": -inf}, {"lte": inf, "gte": -inf}, {"lt": -inf}, {"gt": inf}, {"gt": L("lo"), "lt": inf}, {"lt": L("lo"), "gt": inf}, {"const": inf}, {"in": I{inf, L("I1")}}, {"not_in": I{-inf, L("I1")}}} {
				if InContext("", ctx, Shape{Kind: k}, R{k: r}) == nil {
					continue
				}
				var vals []CV
				for _, p := range []float64{8, 10, 12, 40} {
					vals = append(vals, CV{Env().R(X, p), ValueIn(ctx, spec.Sym(X))})
				}
				b.add(ctx+" "+k+" "+r.String(), InContext("", ctx, Shape{Kind: k}, R{k: r}), vals)
			}
		}
	}
	return b.cases
}
