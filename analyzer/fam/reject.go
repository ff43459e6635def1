package fam

import (
	"fmt"
	"sort"

	"verif/analyzer/scen"
)

// Schema is a message type with the generator's expected verdict.
type Schema struct {
	Desc   string
	Msg    *scen.Msg
	Reject bool
}

type schemas struct {
	out []*Schema
}

func (s *schemas) add(reject bool, desc string, m *scen.Msg) {
	if m == nil {
		return
	}
	m.Name = fmt.Sprintf("S%d", len(s.out)+1)
	s.out = append(s.out, &Schema{desc, m, reject})
}

// each rule in each of the contexts
func (s *schemas) in(reject bool, ctxs []string, sh Shape, rules R) {
	for _, c := range ctxs {
		if m := InContext("", c, sh, rules); m != nil {
			s.add(reject, c+" "+sh.Kind+" "+rules.String(), m)
		}
	}
}

// subset of keys chosen by the bits of n
func subset(keys []string, n int, val func(k string) interface{}) (R, map[string]bool) {
	r, has := R{}, map[string]bool{}
	for i, k := range keys {
		if n>>uint(i)&1 == 1 {
			r[k] = val(k)
			has[k] = true
		}
	}
	return r, has
}

func badRange(h map[string]bool) bool {
	rng := h["lt"] || h["lte"] || h["gt"] || h["gte"]
	switch {
	case h["const"] && (rng || h["in"] || h["not_in"]):
		return true
	case h["in"] && (h["not_in"] || rng):
		return true
	case h["lt"] && h["lte"], h["gt"] && h["gte"]:
		return true
	}
	return false
}

var plainOnly = []string{"plain"}

// Contradictions lists rule sets that contradict themselves, and their
// consistent neighbours.
func Contradictions(full bool) []*Schema {
	s := &schemas{}
	all := Contexts
	keys := []string{"const", "lt", "lte", "gt", "gte", "in", "not_in"}
	list := func(xs ...interface{}) []interface{} { return xs }
	ranges := func(kind string, ctxs []string, sh Shape, sym func(string) interface{}, vals []interface{}) {
		names := map[string]string{"const": "K", "lt": "hi", "lte": "I1", "gt": "lo", "gte": "mid", "in": "I2", "not_in": "I3"}
		for n := 0; n < 1<<len(keys); n++ {
			r, has := subset(keys, n, func(k string) interface{} {
				if k == "in" || k == "not_in" {
					return list(sym(names[k]))
				}
				return sym(names[k])
			})
			cs := plainOnly
			pop := 0
			for range has {
				pop++
			}
			if pop == 2 || full {
				cs = ctxs
			}
			s.in(badRange(has), cs, sh, R{kind: r})
		}
		for _, v := range vals {
			for _, l := range []string{"lt", "lte"} {
				for _, g := range []string{"gt", "gte"} {
					s.in(true, ctxs, sh, R{kind: R{l: v, g: v}})
					// reversed and ordinary ranges are meaningful
					s.in(false, plainOnly, sh, R{kind: R{l: sym("hi"), g: sym("lo")}})
					s.in(false, plainOnly, sh, R{kind: R{l: sym("lo"), g: sym("hi")}})
				}
			}
		}
	}
	for _, k := range NumKinds {
		cs := all
		if !full && k != "int32" && k != "uint64" && k != "double" && k != "sfixed32" {
			cs = []string{"plain", "items"}
		}
		vs := list(L("K"), 0, 7)
		if !Signed(k) || k == "int64" || k == "sint32" {
			vs = list(L("K"), 0)
		}
		ranges(k, cs, Shape{Kind: k}, func(n string) interface{} { return L(n) }, vs)
	}
	durCtx := []string{"plain", "oneof", "items", "values"}
	D := func(n string) interface{} { return scen.D(n) }
	dur := Shape{"message", ".google.protobuf.Duration"}
	ranges("duration", durCtx, dur, D, list(D("K"), scen.DC{Sec: 3}, scen.DC{}))
	for _, bad := range []scen.DC{{1, -1}, {-1, 1}, {0, 1000000000}, {315576000001, 0}, {-315576000001, 0}} {
		for _, k := range keys {
			v := interface{}(bad)
			if k == "in" || k == "not_in" {
				s.in(true, durCtx, dur, R{"duration": R{k: list(scen.DC{Sec: 1}, bad)}})
				v = list(bad)
			}
			s.in(true, durCtx, dur, R{"duration": R{k: v}})
		}
	}
	ts := Shape{"message", ".google.protobuf.Timestamp"}
	for n := 0; n < 128; n++ {
		tk := []string{"lt", "lte", "gt", "gte", "lt_now", "gt_now", "within"}
		names := map[string]string{"lt": "hi", "lte": "I1", "gt": "lo", "gte": "mid", "within": "W"}
		r, has := subset(tk, n, func(k string) interface{} {
			if k == "lt_now" || k == "gt_now" {
				return true
			}
			if k == "within" {
				return scen.DC{Sec: 60}
			}
			return D(names[k])
		})
		abs := has["lt"] || has["lte"] || has["gt"] || has["gte"]
		bad := badRange(has) || abs && (has["lt_now"] || has["gt_now"] || has["within"]) || has["lt_now"] && has["gt_now"]
		cs := plainOnly
		if len(has) == 2 || full {
			cs = durCtx
		}
		s.in(bad, cs, ts, R{"timestamp": r})
	}
	for _, k := range []string{"lt", "lte", "gt", "gte"} {
		s.in(true, durCtx, ts, R{"timestamp": R{"const": D("K"), k: D("lo")}})
	}
	for _, v := range list(D("K"), scen.DC{Sec: 3}, scen.DC{}) {
		for _, l := range []string{"lt", "lte"} {
			for _, g := range []string{"gt", "gte"} {
				s.in(true, durCtx, ts, R{"timestamp": R{l: v, g: v}})
				s.in(false, plainOnly, ts, R{"timestamp": R{l: D("hi"), g: D("lo")}})
				s.in(false, plainOnly, ts, R{"timestamp": R{l: D("lo"), g: D("hi")}})
			}
		}
	}
	for _, w := range []scen.DC{{0, 0}, {-1, 0}, {0, -5}, {1, -1}, {0, 1000000000}} {
		s.in(true, durCtx, ts, R{"timestamp": R{"within": w}})
		s.in(true, durCtx, ts, R{"timestamp": R{"within": w, "lt_now": true}})
	}
	s.in(false, plainOnly, ts, R{"timestamp": R{"within": scen.DC{0, 1}}})
	for _, bad := range []scen.DC{{0, -1}, {0, 1000000000}, {253402300800, 0}, {-62135596801, 0}} {
		for _, k := range []string{"const", "lt", "lte", "gt", "gte"} {
			s.in(true, durCtx, ts, R{"timestamp": R{k: bad}})
		}
	}

	// sizes
	type mm struct{ lo, hi interface{} }
	over := []mm{{L("XL"), L("ML")}, {5, 4}, {1, 0}}
	fine := []mm{{L("ML"), L("XL")}, {L("ML"), L("ML")}, {4, 4}, {0, 0}, {0, 9}}
	str, byt := Shape{Kind: "string"}, Shape{Kind: "bytes"}
	for _, p := range []struct {
		sh     Shape
		lo, hi string
	}{{str, "min_len", "max_len"}, {str, "min_bytes", "max_bytes"}, {byt, "min_len", "max_len"}} {
		for _, x := range over {
			s.in(true, all, p.sh, R{p.sh.Kind: R{p.lo: x.lo, p.hi: x.hi}})
		}
		for _, x := range fine {
			s.in(false, all, p.sh, R{p.sh.Kind: R{p.lo: x.lo, p.hi: x.hi}})
		}
	}
	for _, p := range []struct {
		sh Shape
		x  string
		b  []string
	}{{str, "len", []string{"min_len", "max_len"}}, {str, "len_bytes", []string{"min_bytes", "max_bytes"}}, {byt, "len", []string{"min_len", "max_len"}}} {
		for _, v := range []interface{}{L("EL"), 0, 5} {
			s.in(true, all, p.sh, R{p.sh.Kind: R{p.x: v, p.b[0]: L("ML")}})
			s.in(true, all, p.sh, R{p.sh.Kind: R{p.x: v, p.b[1]: L("XL")}})
			s.in(true, plainOnly, p.sh, R{p.sh.Kind: R{p.x: v, p.b[0]: L("ML"), p.b[1]: L("XL")}})
			s.in(false, all, p.sh, R{p.sh.Kind: R{p.x: v}})
		}
	}
	for _, x := range over {
		s.add(true, fmt.Sprint("repeated items ", x), &scen.Msg{Fields: []*scen.Field{{Name: "f", Kind: "string", Repeated: true, Rules: R{"repeated": R{"min_items": x.lo, "max_items": x.hi}}}}})
		s.add(true, fmt.Sprint("map pairs ", x), &scen.Msg{Fields: []*scen.Field{{Name: "f", Kind: "string", MapKey: "string", Rules: R{"map": R{"min_pairs": x.lo, "max_pairs": x.hi}}}}})
	}
	for _, x := range fine {
		s.add(false, fmt.Sprint("repeated items ", x), &scen.Msg{Fields: []*scen.Field{{Name: "f", Kind: "string", Repeated: true, Rules: R{"repeated": R{"min_items": x.lo, "max_items": x.hi}}}}})
		s.add(false, fmt.Sprint("map pairs ", x), &scen.Msg{Fields: []*scen.Field{{Name: "f", Kind: "string", MapKey: "string", Rules: R{"map": R{"min_pairs": x.lo, "max_pairs": x.hi}}}}})
	}
	for _, a := range []string{"prefix", "suffix", "contains"} {
		for _, p := range []struct {
			sh     Shape
			limit  string
			text   string
			n      int
			reject bool
		}{
			{str, "max_len", "abc", 2, true}, {str, "max_len", "abc", 3, false}, {str, "max_len", "é☃", 2, false}, {str, "max_len", "é☃", 1, true},
			{str, "max_bytes", "abc", 2, true}, {str, "max_bytes", "abc", 3, false}, {str, "max_bytes", "é☃", 5, false}, {str, "max_bytes", "é☃", 4, true}, {str, "max_bytes", "é☃", 2, true},
			{byt, "max_len", "abc", 2, true}, {byt, "max_len", "abc", 3, false}, {byt, "max_len", "é☃", 4, true}, {byt, "max_len", "é☃", 5, false},
			{str, "max_len", "a", 0, true}, {byt, "max_len", "a", 0, true}, {str, "max_bytes", "a", 0, true},
		} {
			var tx interface{} = p.text
			if p.sh.Kind == "bytes" {
				tx = []byte(p.text)
			}
			s.in(p.reject, all, p.sh, R{p.sh.Kind: R{p.limit: p.n, a: tx}})
		}
	}
	s.in(true, all, str, R{"string": R{"max_len": L("XL"), "max_bytes": L("ML")}})
	s.in(true, all, str, R{"string": R{"max_len": 5, "max_bytes": 4}})
	s.in(false, all, str, R{"string": R{"max_len": 5, "max_bytes": 5}})
	s.in(false, all, str, R{"string": R{"max_len": L("ML"), "max_bytes": L("XL")}})
	s.in(false, all, str, R{"string": R{"max_len": L("ML"), "max_bytes": L("ML")}})

	// lists and patterns
	bl := func(x string) interface{} { return []byte(x) }
	s.in(true, all, str, R{"string": R{"in": list("a"), "not_in": list("b")}})
	s.in(true, all, str, R{"string": R{"in": list("a"), "pattern": "^a$"}})
	s.in(true, all, str, R{"string": R{"in": list("a"), "well_known_regex": 1}})
	s.in(false, all, str, R{"string": R{"not_in": list("a"), "pattern": "^a$"}})
	s.in(true, plainOnly, byt, R{"bytes": R{"in": list(bl("a")), "not_in": list(bl("b"))}})
	s.in(true, []string{"plain", "items", "values"}, byt, R{"bytes": R{"in": list(bl("a")), "pattern": "^a$"}})
	s.in(false, plainOnly, byt, R{"bytes": R{"not_in": list(bl("a")), "pattern": "^a$"}})
	for _, k := range []int{1, 2} {
		s.in(true, all, str, R{"string": R{"well_known_regex": k, "pattern": "^a$"}})
		s.in(true, all, str, R{"string": R{"well_known_regex": k, "pattern": "^a$", "strict": false}})
		s.in(true, plainOnly, str, R{"string": R{"well_known_regex": k, "pattern": ""}})
		for _, st := range []interface{}{nil, true, false} {
			s.in(false, all, str, R{"string": R{"well_known_regex": k, "strict": st}})
		}
	}
	for _, p := range []string{"(", "[a", "a**", "(?=x)", "(?<!a)b", "\\1", "*", "a{2,1}", "\\p{Nope}", "a)", "[z-a]", "\\"} {
		cs := plainOnly
		if p == "(" || p == "(?=x)" {
			cs = all
		}
		s.in(true, cs, str, R{"string": R{"pattern": p}})
		s.in(true, cs, byt, R{"bytes": R{"pattern": p}})
	}
	for _, p := range []string{"", "^a$", "(?i)x", "\\p{Greek}", "[[:alpha:]]", "a{2,3}?", "\\Qx\\E"} {
		s.in(false, plainOnly, str, R{"string": R{"pattern": p}})
		s.in(false, plainOnly, byt, R{"bytes": R{"pattern": p}})
	}

	// enums
	for _, ty := range []string{".t.RE", ".t.Holder.NE", ".dep.DE"} {
		en := Shape{"enum", ty}
		ec := []string{"plain", "oneof", "items", "values"}
		s.in(true, ec, en, R{"enum": R{"in": list(0), "not_in": list(1)}})
		s.in(true, ec, en, R{"enum": R{"in": list(0), "not_in": list(1), "defined_only": true}})
		for _, in := range [][]interface{}{list(2), list(0, 2), list(2, 0), list(-7, 4), list(0, 1, -3, 99)} {
			s.in(true, ec, en, R{"enum": R{"in": in, "defined_only": true}})
			s.in(false, plainOnly, en, R{"enum": R{"in": in, "defined_only": false}})
			s.in(false, plainOnly, en, R{"enum": R{"in": in}})
			s.in(false, plainOnly, en, R{"enum": R{"not_in": in, "defined_only": true}})
		}
		for _, in := range [][]interface{}{list(0), list(1, -3), list(-3, 0, 1)} {
			s.in(false, ec, en, R{"enum": R{"in": in, "defined_only": true}})
		}
	}
	// any
	av := Shape{"message", ".google.protobuf.Any"}
	s.in(true, durCtx, av, R{"any": R{"in": list("a"), "not_in": list("b")}})
	s.in(false, []string{"plain", "oneof"}, av, R{"any": R{"in": list("a")}})
	s.in(false, []string{"plain", "oneof"}, av, R{"any": R{"not_in": list("a")}})

	// collections of messages, and messages
	elem := []struct {
		sh  Shape
		msg bool
	}{{Shape{Kind: "string"}, false}, {Shape{Kind: "bool"}, false}, {Shape{Kind: "bytes"}, false}, {Shape{"enum", ".t.RE"}, false},
		{Shape{"message", ".t.Holder"}, true}, {Shape{"message", ".dep.DM"}, true}, {Shape{"message", ".google.protobuf.StringValue"}, true},
		{Shape{"message", ".google.protobuf.Any"}, true}, {Shape{"message", ".google.protobuf.Duration"}, true}}
	for _, e := range elem {
		f := func(mk string, r R) *scen.Msg {
			return &scen.Msg{Fields: []*scen.Field{{Name: "f", Kind: e.sh.Kind, Type: e.sh.Type, Repeated: mk == "", MapKey: mk, Rules: r}}}
		}
		s.add(e.msg, "unique "+e.sh.Kind+e.sh.Type, f("", R{"repeated": R{"unique": true}}))
		s.add(false, "unique off "+e.sh.Kind+e.sh.Type, f("", R{"repeated": R{"unique": false}}))
		s.add(!e.msg, "no_sparse "+e.sh.Kind+e.sh.Type, f("string", R{"map": R{"no_sparse": true}}))
		s.add(!e.msg, "no_sparse int key "+e.sh.Kind+e.sh.Type, f("int32", R{"map": R{"no_sparse": true, "min_pairs": 1}}))
		s.add(false, "no_sparse off "+e.sh.Kind+e.sh.Type, f("string", R{"map": R{"no_sparse": false}}))
	}
	for _, k := range []string{"string", "int32", "bool", "bytes", "uint64", "float"} {
		w := Wrapper(k)
		rr := R{}
		for _, skip := range []interface{}{true, false, nil} {
			s.add(skip == true, fmt.Sprint("skip ", skip, " with wrapped rules ", k), &scen.Msg{Fields: []*scen.Field{{Name: "f", Kind: "message", Type: w, Rules: R{k: rr, "message": R{"skip": skip, "required": true}}}}})
			s.add(skip == true, fmt.Sprint("skip ", skip, " with wrapped rules in oneof ", k), &scen.Msg{Oneofs: []*scen.Oneof{{Name: "o", Fields: []*scen.Field{{Name: "f", Kind: "message", Type: w, Rules: R{k: rr, "message": R{"skip": skip}}}}}}})
		}
	}

	// several element rules at once: each is checked
	{
		strOK, strBad := R{"string": R{"min_len": 1}}, R{"string": R{"min_len": 3, "max_len": 1}}
		intOK, intBad := R{"int64": R{"gt": 1}}, R{"int64": R{"const": 1, "gt": 0}}
		type colls struct{ k, v, all R }
		for i, own := range []R{{}, {"min_pairs": 1}, {"max_pairs": 3, "min_pairs": 1}, {"ignore_empty": true}, {"no_sparse": false}, {"min_pairs": 3, "max_pairs": 1}} {
			for j, c := range []colls{{k: strOK, v: intOK}, {k: strBad, v: intOK}, {k: strOK, v: intBad}, {k: strBad, v: intBad}, {k: R{}, v: intBad}, {k: strBad, v: R{}}, {k: strBad}, {v: intBad}, {k: strOK}, {v: intOK}} {
				r := R{}
				for k, v := range own {
					r[k] = v
				}
				if c.k != nil {
					r["keys"] = c.k
				}
				if c.v != nil {
					r["values"] = c.v
				}
				rej := i == 5 || fmt.Sprint(c.k) == fmt.Sprint(strBad) || fmt.Sprint(c.v) == fmt.Sprint(intBad)
				s.add(rej, fmt.Sprint("map with element rules ", i, j), &scen.Msg{Fields: []*scen.Field{{Name: "f", Kind: "int64", MapKey: "string", Rules: R{"map": r}}}})
			}
		}
		for i, own := range []R{{}, {"min_items": 1}, {"max_items": 3, "min_items": 3}, {"ignore_empty": true}, {"unique": true}, {"unique": false}, {"min_items": 3, "max_items": 1}} {
			for j, it := range []R{strOK, strBad, {}} {
				r := R{"items": it}
				for k, v := range own {
					r[k] = v
				}
				s.add(i == 6 || j == 1, fmt.Sprint("list with item rules ", i, j), &scen.Msg{Fields: []*scen.Field{{Name: "f", Kind: "string", Repeated: true, Rules: R{"repeated": r}}}})
			}
		}
		// messages in maps and lists may be skipped or required
		for i, mk := range []string{"", "string"} {
			for _, x := range []string{"skip", "required"} {
				k, f := "items", "repeated"
				if i == 1 {
					k, f = "values", "map"
				}
				s.add(false, fmt.Sprint(f, " messages ", x), &scen.Msg{Fields: []*scen.Field{{Name: "f", Kind: "message", Type: ".t.Holder", Repeated: i == 0, MapKey: mk, Rules: R{f: R{k: R{"message": R{x: true}}}}}}})
			}
		}
	}

	// wherever the field is, unless validation is disabled
	bad := func() *scen.Field {
		return &scen.Field{Name: "z", Kind: "int32", Rules: R{"int32": R{"const": 1, "gt": 2}}}
	}
	ok := func(n string) *scen.Field { return &scen.Field{Name: n, Kind: "int32", Rules: R{"int32": R{"gt": 2}}} }
	none := func(n string) *scen.Field { return &scen.Field{Name: n, Kind: "string"} }
	s.add(true, "last of three fields", &scen.Msg{Fields: []*scen.Field{ok("a"), none("b"), bad()}})
	s.add(true, "first of three fields", &scen.Msg{Fields: []*scen.Field{bad(), ok("a"), none("b")}})
	s.add(true, "second member of a oneof", &scen.Msg{Fields: []*scen.Field{ok("a")}, Oneofs: []*scen.Oneof{{Name: "o", Fields: []*scen.Field{ok("b"), bad()}}}})
	s.add(true, "member of the second oneof", &scen.Msg{Oneofs: []*scen.Oneof{{Name: "o", Fields: []*scen.Field{ok("b")}}, {Name: "p", Required: true, Fields: []*scen.Field{none("c"), bad()}}}})
	s.add(true, "nested message", &scen.Msg{Fields: []*scen.Field{ok("a")}, Nested: []*scen.Msg{{Name: "N1", Fields: []*scen.Field{ok("b")}}, {Name: "N2", Fields: []*scen.Field{bad()}}}})
	s.add(true, "twice nested message", &scen.Msg{Nested: []*scen.Msg{{Name: "N1", Nested: []*scen.Msg{{Name: "N2", Fields: []*scen.Field{none("a"), bad()}}}}}})
	s.add(true, "message nested in a disabled one", &scen.Msg{Disabled: true, Nested: []*scen.Msg{{Name: "N1", Fields: []*scen.Field{bad()}}}})
	s.add(true, "disabled set to false", &scen.Msg{Disabled: false, Fields: []*scen.Field{bad()}})
	s.add(true, "enclosing message of a disabled one", &scen.Msg{Fields: []*scen.Field{ok("a"), bad()}, Nested: []*scen.Msg{{Name: "N1", Disabled: true, Fields: []*scen.Field{bad()}}}})
	s.add(false, "disabled message", &scen.Msg{Disabled: true, Fields: []*scen.Field{ok("a"), bad()}})
	s.add(false, "disabled message with a nested one", &scen.Msg{Disabled: true, Fields: []*scen.Field{bad()}, Nested: []*scen.Msg{{Name: "N1", Fields: []*scen.Field{ok("a")}}}})
	return s.out
}

// RejectExtra and RejectDep are what the schemas above refer to.
var RejectEnum = &scen.Enum{Name: "RE", Values: []scen.EnumVal{{"RE_A", 0}, {"RE_B", 1}, {"RE_C", -3}}}
var RejectExtra = []*scen.Msg{{Name: "Holder", Enums: []*scen.Enum{{Name: "NE", Values: []scen.EnumVal{{"NE_A", 0}, {"NE_B", 1}, {"NE_C", -3}}}}}}
var RejectDep = &scen.File{Name: "dep/dep.proto", Package: "dep", GoPackage: "example.com/dep;dep",
	Enums: []*scen.Enum{{Name: "DE", Values: []scen.EnumVal{{"DE_A", 0}, {"DE_B", 1}, {"DE_C", -3}}}},
	Msgs:  []*scen.Msg{{Name: "DM"}}}

// ruleFor is an empty or minimal rule message of each kind of rule.
func ruleFor(kind string) R {
	switch kind {
	case "message":
		return R{"required": true}
	case "bool":
		return R{"const": true}
	case "string":
		return R{"min_len": 1}
	case "bytes":
		return R{"min_len": 1}
	case "enum":
		return R{"defined_only": true}
	case "repeated":
		return R{"min_items": 1}
	case "map":
		return R{"min_pairs": 1}
	case "any", "duration", "timestamp":
		return R{"required": true}
	}
	return R{"gt": 3}
}

// RuleKinds are the kinds of rule of a field.
func RuleKinds() []string {
	return append(append([]string{}, NumKinds...), "bool", "string", "bytes", "enum", "repeated", "map", "any", "duration", "timestamp", "message")
}

// Mismatches crosses every kind of rule with every type of field.
func Mismatches(full bool) []*Schema {
	s := &schemas{}
	type ft struct {
		sh   Shape
		kind string // the kind of rule it takes
	}
	var types []ft
	for _, k := range append(append([]string{}, NumKinds...), "bool", "string", "bytes") {
		types = append(types, ft{Shape{Kind: k}, k})
		if w := Wrapper(k); w != "" {
			types = append(types, ft{Shape{"message", w}, "w" + k})
		}
	}
	types = append(types, ft{Shape{"enum", ".t.RE"}, "enum"}, ft{Shape{"enum", ".dep.DE"}, "enum"},
		ft{Shape{"message", ".t.Holder"}, "message"}, ft{Shape{"message", ".dep.DM"}, "message"},
		ft{Shape{"message", ".google.protobuf.Any"}, "any"}, ft{Shape{"message", ".google.protobuf.Duration"}, "duration"},
		ft{Shape{"message", ".google.protobuf.Timestamp"}, "timestamp"})
	for _, t := range types {
		for _, rk := range RuleKinds() {
			fits := rk == t.kind || t.kind[0] == 'w' && rk == t.kind[1:]
			msgOK := t.kind == "message" || t.kind[0] == 'w'
			for _, empty := range []bool{true, false} {
				r := ruleFor(rk)
				if empty {
					r = R{}
				}
				d := fmt.Sprintf("%s rules %v on ", rk, r)
				tn := t.sh.Kind + t.sh.Type
				f := func(rep bool, mk string, rules R) *scen.Msg {
					return &scen.Msg{Fields: []*scen.Field{{Name: "f", Kind: t.sh.Kind, Type: t.sh.Type, Repeated: rep, MapKey: mk, Rules: rules}}}
				}
				good := fits
				if rk == "message" {
					good = msgOK
				}
				s.add(!good, d+tn, f(false, "", R{rk: r}))
				s.add(!good, d+"oneof member "+tn, &scen.Msg{Oneofs: []*scen.Oneof{{Name: "o", Fields: []*scen.Field{{Name: "f", Kind: t.sh.Kind, Type: t.sh.Type, Rules: R{rk: r}}, {Name: "g", Kind: "bool"}}}}})
				s.add(rk != "repeated", d+"repeated "+tn, f(true, "", R{rk: r}))
				s.add(rk != "map", d+"map of "+tn, f(false, "string", R{rk: r}))
				if KeyKind(t.sh.Kind) && rk != "map" && empty {
					s.add(true, d+"map keyed by "+tn, &scen.Msg{Fields: []*scen.Field{{Name: "f", Kind: "string", MapKey: t.sh.Kind, Rules: R{rk: r}}}})
				}
				if rk == "message" {
					continue
				}
				{
					s.add(!fits, d+"items of "+tn, f(true, "", R{"repeated": R{"items": R{rk: r}}}))
					s.add(!fits, d+"values of "+tn, f(false, "int32", R{"map": R{"values": R{rk: r}}}))
				}
				if !empty {
					s.add(!fits, d+"values next to keys rules of "+tn, f(false, "int32", R{"map": R{"keys": R{"int32": R{"gt": 1}}, "values": R{rk: r}}}))
					s.add(!fits, d+"items next to size rules of "+tn, f(true, "", R{"repeated": R{"min_items": 1, "items": R{rk: r}}}))
				}
				if KeyKind(t.sh.Kind) {
					if !empty {
						s.add(!fits, d+"keys next to values rules of "+tn, &scen.Msg{Fields: []*scen.Field{{Name: "f", Kind: "string", MapKey: t.sh.Kind, Rules: R{"map": R{"keys": R{rk: r}, "values": R{"string": R{"min_len": 1}}}}}}})
					}
					s.add(!fits, d+"keys of "+tn, &scen.Msg{Fields: []*scen.Field{{Name: "f", Kind: "string", MapKey: t.sh.Kind, Rules: R{"map": R{"keys": R{rk: r}}}}}})
				}
			}
		}
	}
	return s.out
}

// Descs of the schemas, sorted, for reports.
func Descs(ss []*Schema) []string {
	var out []string
	for _, x := range ss {
		out = append(out, x.Desc)
	}
	sort.Strings(out)
	return out
}
