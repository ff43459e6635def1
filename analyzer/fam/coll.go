package fam

import (
	"fmt"

	"verif/analyzer/scen"
	"verif/analyzer/spec"
)

// Sub is a message type with validation of its own used as an element.
var Sub = &scen.Msg{Name: "Sub", Fields: []*scen.Field{{Name: "s", Kind: "int32", Rules: R{"int32": R{"gt": L("lo")}}}}}

const subT = ".t.Sub"

func repeated(kind, typ string, r R) *scen.Msg {
	return &scen.Msg{Fields: []*scen.Field{{Name: "f", Kind: kind, Type: typ, Repeated: true, Rules: r}}}
}

func mapOf(key, kind, typ string, r R) *scen.Msg {
	return &scen.Msg{Fields: []*scen.Field{{Name: "f", Kind: kind, Type: typ, MapKey: key, Rules: r}}}
}

func fv(v *spec.Val) *spec.Val { return spec.Msg(map[string]*spec.Val{"f": v}) }

func syms(pre string, n int) []*spec.Val {
	var out []*spec.Val
	for i := 0; i < n; i++ {
		out = append(out, spec.Sym(fmt.Sprintf("%s%d", pre, i)))
	}
	return out
}

// partitions are the equality patterns of n elements, as class numbers.
func partitions(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range partitions(n - 1) {
		max := -1
		for _, c := range p {
			if c > max {
				max = c
			}
		}
		for c := 0; c <= max+1; c++ {
			out = append(out, append(append([]int{}, p...), c))
		}
	}
	return out
}

// Collections: size, uniqueness, sparseness and element rules.
func Collections(full bool) []*Case {
	b := &builder{pre: "CO"}
	sizes := func(min, max string) []R {
		var out []R
		for _, r := range []R{{min: L("ML")}, {max: L("XL")}, {min: L("ML"), max: L("XL")}, {min: L("ML"), max: L("ML")}, {min: 0, max: L("XL")}, {max: 0}, {min: 0}, {min: 0, max: 0}, {min: 1}, {min: 1, max: 1}, {}} {
			out = append(out, r, with(r, "ignore_empty", true))
		}
		return append(out, R{min: L("ML"), "ignore_empty": false})
	}
	sizeVals := func(r R, min, max string) []CV {
		var vals []CV
		for _, p := range Positions(append(marksOf(r, min, max), 1)...) {
			if p > 0 && p == float64(int(p)) {
				vals = append(vals, CV{Env().R("size:"+X, p), fv(spec.Sym(X))})
			}
		}
		for d := 1.0; d < 10; d++ {
			vals = append(vals, CV{Env().R("size:"+X, d), fv(spec.Sym(X))})
		}
		return append(vals, CV{Env(), spec.Msg(nil)})
	}
	for _, kt := range []Shape{{Kind: "int32"}, {Kind: "string"}, {Kind: "bytes"}, {"enum", enumT}, {Kind: "double"}} {
		for _, r := range sizes("min_items", "max_items") {
			b.add("repeated "+kt.Kind+" "+r.String(), repeated(kt.Kind, kt.Type, R{"repeated": r}), sizeVals(r, "min_items", "max_items"))
		}
	}
	for _, key := range []string{"string", "int64", "bool"} {
		for _, r := range sizes("min_pairs", "max_pairs") {
			b.add("map "+key+" "+r.String(), mapOf(key, "string", "", R{"map": r}), sizeVals(r, "min_pairs", "max_pairs"))
		}
	}
	// uniqueness: every equality pattern of up to four elements
	for _, kt := range []Shape{{Kind: "int32"}, {Kind: "uint64"}, {Kind: "string"}, {Kind: "bytes"}, {"enum", enumT}, {Kind: "bool"}, {Kind: "double"}, {Kind: "sfixed64"}, {Kind: "float"}} {
		for _, r := range []R{{"unique": true}, {"unique": false}, {"unique": true, "min_items": 2}, {"unique": true, "max_items": 2, "ignore_empty": true}} {
			var vals []CV
			for n := 0; n <= 4; n++ {
				for _, p := range partitions(n) {
					e := Env()
					l := syms("x", n)
					for i, c := range p {
						s := fmt.Sprintf("x%d", i)
						e.R(s, float64(c)*7+1)
						e.R("bytes:"+s, 3).R("runes:"+s, 3)
						if kt.Kind == "bool" {
							l[i] = spec.Conc(c%2 == 1)
						}
					}
					vals = append(vals, CV{e, fv(spec.List(l...))})
				}
			}
			b.add("repeated "+kt.Kind+" "+r.String(), repeated(kt.Kind, kt.Type, R{"repeated": r}), vals)
		}
		// uniqueness with element rules
		if kt.Kind == "int32" || kt.Kind == "double" {
			r := R{"unique": true, "items": R{kt.Kind: R{"gt": L("lo")}}}
			b.add("repeated "+kt.Kind+" "+r.String(), repeated(kt.Kind, kt.Type, R{"repeated": r}), elemVals(false, 3))
		}
	}
	// element rules reach every element
	for _, k := range []string{"int32", "uint64", "float", "string"} {
		rule := R{"gt": L("lo")}
		if k == "string" {
			rule = R{"min_len": L("ML")}
		}
		for _, x := range []R{{}, {"min_items": 2}, {"ignore_empty": true, "min_items": 3}} {
			r := with(x, "items", R{k: rule})
			b.add("repeated "+k+" "+r.String(), repeated(k, "", R{"repeated": r}), elemVals(k == "string", 3))
		}
	}
	for _, k := range []string{"int32", "string"} {
		rule := R{"gt": L("lo")}
		if k == "string" {
			rule = R{"min_len": L("ML")}
		}
		for _, r := range []R{{"keys": R{k: rule}}, {"values": R{k: rule}}, {"keys": R{k: rule}, "values": R{k: rule}}, {"keys": R{k: rule}, "min_pairs": 2}, {"values": R{k: rule}, "ignore_empty": true, "min_pairs": 3}} {
			b.add("map "+k+" "+r.String(), mapOf(k, k, "", R{"map": r}), pairVals(k, r))
		}
	}
	// the lists and patterns of keys are not those of values
	for _, k := range []string{"int32", "uint64", "sfixed32", "string"} {
		at := func(is ...int) I {
			var l I
			for _, i := range is {
				if k == "string" {
					l = append(l, []string{"one", "two", "three"}[i])
				} else {
					l = append(l, L([]string{"I1", "I2", "I3"}[i]))
				}
			}
			return l
		}
		pos := []float64{40, 45, 50, 60}
		if k == "string" {
			pos = []float64{spec.StrClass("one"), spec.StrClass("two"), spec.StrClass("three"), other}
		}
		for _, r := range []R{{"keys": R{k: R{"in": at(0, 1)}}, "values": R{k: R{"in": at(1, 2)}}}, {"keys": R{k: R{"not_in": at(0)}}, "values": R{k: R{"not_in": at(1, 2)}}},
			{"keys": R{k: R{"in": at(0)}}, "values": R{k: R{"not_in": at(0)}}}, {"keys": R{k: R{"not_in": at(2)}}}, {"values": R{k: R{"in": at(2, 0, 2)}}}} {
			var vals []CV
			for _, a := range pos {
				for _, c := range pos {
					vals = append(vals, CV{Env().R("k", a).R("v", c), fv(spec.Map(spec.Sym("k"), spec.Sym("v")))})
				}
			}
			b.add("map "+k+" "+r.String(), mapOf(k, k, "", R{"map": r}), vals)
		}
		for _, r := range []R{{"unique": true, "items": R{k: R{"in": at(0, 1)}}}, {"unique": true, "items": R{k: R{"not_in": at(0, 1)}}}} {
			var vals []CV
			for _, a := range pos {
				for _, c := range pos {
					vals = append(vals, CV{Env().R("x0", a).R("x1", c), fv(spec.List(syms("x", 2)...))})
				}
			}
			b.add("repeated "+k+" "+r.String(), repeated(k, "", R{"repeated": r}), vals)
		}
	}
	for _, v := range []string{"string", "bytes"} {
		for _, r := range []R{{"keys": R{"string": R{"pattern": "^a+$"}}, "values": R{v: R{"pattern": "^b$"}}}, {"values": R{v: R{"pattern": "^b$"}}}, {"keys": R{"string": R{"pattern": "^a+$"}}, "values": R{v: R{"prefix": txt(v, "pre")}}}} {
			var vals []CV
			for s := 0; s < 32; s++ {
				e := Env()
				for i, q := range []string{"match:k:\"^a+$\"", "match:k:\"^b$\"", "match:v:\"^a+$\"", "match:v:\"^b$\"", "prefix:v:\"pre\""} {
					e.F(q, s>>i&1 == 1)
				}
				for _, y := range []string{"k", "v"} {
					e.R(y, other).R("bytes:"+y, 9).R("runes:"+y, 9)
				}
				vals = append(vals, CV{e, fv(spec.Map(spec.Sym("k"), spec.Sym("v")))})
			}
			b.add("map string to "+v+" "+r.String(), mapOf("string", v, "", R{"map": r}), vals)
		}
	}
	// wrappers as elements: absent ones are not constrained
	for _, r := range []R{{"no_sparse": true}, {"no_sparse": false}, {"no_sparse": true, "min_pairs": 1}, {"no_sparse": true, "ignore_empty": true}, {"no_sparse": true, "keys": R{"string": R{"min_len": L("ML")}}}} {
		b.add("map of message "+r.String(), mapOf("string", "message", subT, R{"map": r}), msgPairs(r))
	}
	b.add("map of message, no rules", mapOf("string", "message", subT, nil), msgPairs(nil))
	for _, r := range []R{nil, {"min_items": 2}, {"max_items": 1, "ignore_empty": true}, {"items": R{"message": R{"required": true}}}, {"items": R{"message": R{"skip": true}}}, {"items": R{"message": R{"skip": true, "required": true}}}} {
		d, rr := "none", R(nil)
		if r != nil {
			d, rr = r.String(), R{"repeated": r}
		}
		var vals []CV
		for n := 0; n <= 3; n++ {
			for s := 0; s < pow(3, n); s++ {
				e := Env()
				var l []*spec.Val
				for i, q := 0, s; i < n; i, q = i+1, q/3 {
					sym := fmt.Sprintf("m%d", i)
					if q%3 == 2 {
						l = append(l, spec.Nil())
						continue
					}
					e.F("invalid:"+sym, q%3 == 1)
					l = append(l, spec.Sym(sym))
				}
				vals = append(vals, CV{e, fv(spec.List(l...))})
			}
		}
		b.add("repeated message "+d, repeated("message", subT, rr), vals)
	}
	long(b)
	return b.cases
}

// Sizes are lengths at which code that treats long collections otherwise
// would change its mind.
var Sizes = []int{5, 8, 11, 16, 17, 33, 65, 130, 257}

// long: collections of many elements.
func long(b *builder) {
	for _, kt := range []Shape{{Kind: "int32"}, {Kind: "string"}, {Kind: "bytes"}, {Kind: "double"}} {
		var vals []CV
		for _, n := range Sizes[:len(Sizes)-1] {
			for _, dup := range [][2]int{{0, 0}, {0, n - 1}, {n - 2, n - 1}, {n / 2, n - 1}, {0, 1}} {
				e := Env()
				for i := 0; i < n; i++ {
					s := fmt.Sprintf("x%d", i)
					e.R(s, float64(i)*3+2).R("bytes:"+s, 3).R("runes:"+s, 3)
				}
				e.R(fmt.Sprintf("x%d", dup[1]), float64(dup[0])*3+2)
				vals = append(vals, CV{e, fv(spec.List(syms("x", n)...))})
			}
		}
		b.add("long repeated "+kt.Kind+" unique", repeated(kt.Kind, kt.Type, R{"repeated": R{"unique": true}}), vals)
	}
	bad := func(n int) [][]int { return [][]int{nil, {n - 1}, {n / 2}, {0, n - 1}, {n - 2, n - 1}} }
	for _, k := range []string{"int32", "string"} {
		rule := R{k: R{"gt": L("lo")}}
		if k == "string" {
			rule = R{k: R{"min_len": L("ML")}}
		}
		var vals []CV
		for _, n := range Sizes {
			for _, w := range bad(n) {
				e := Env()
				for i := 0; i < n; i++ {
					elemEnv(e, fmt.Sprintf("x%d", i), true, k == "string")
				}
				for _, i := range w {
					elemEnv(e, fmt.Sprintf("x%d", i), false, k == "string")
				}
				vals = append(vals, CV{e, fv(spec.List(syms("x", n)...))})
			}
		}
		b.add("long repeated "+k, repeated(k, "", R{"repeated": R{"items": rule}}), vals)
		for _, part := range []string{"keys", "values"} {
			var vals []CV
			for _, n := range Sizes {
				for _, w := range bad(n) {
					e := Env()
					var kv []*spec.Val
					for i := 0; i < n; i++ {
						ks, vs := fmt.Sprintf("k%d", i), fmt.Sprintf("v%d", i)
						ok := true
						for _, j := range w {
							ok = ok && i != j
						}
						elemEnv(e, ks, ok || part != "keys", k == "string")
						elemEnv(e, vs, ok || part != "values", k == "string")
						e.R(ks, e.Rank[ks]+0.001*float64(i))
						kv = append(kv, spec.Sym(ks), spec.Sym(vs))
					}
					vals = append(vals, CV{e, fv(spec.Map(kv...))})
				}
			}
			b.add("long map "+k+" "+part, mapOf(k, k, "", R{"map": R{part: rule}}), vals)
		}
	}
	var ls, ms []CV
	for _, n := range Sizes {
		for _, w := range bad(n) {
			e := Env()
			var kv []*spec.Val
			for i := 0; i < n; i++ {
				s, k := fmt.Sprintf("m%d", i), fmt.Sprintf("k%d", i)
				e.F("invalid:"+s, false)
				elemEnv(e, k, true, true)
				e.R(k, e.Rank[k]+0.001*float64(i))
				kv = append(kv, spec.Sym(k), spec.Sym(s))
			}
			for _, i := range w {
				e.F(fmt.Sprintf("invalid:m%d", i), true)
			}
			ls = append(ls, CV{e, fv(spec.List(syms("m", n)...))})
			ms = append(ms, CV{e, fv(spec.Map(kv...))})
		}
	}
	b.add("long repeated message", repeated("message", subT, nil), ls)
	b.add("long map of message", mapOf("string", "message", subT, nil), ms)
}

func pow(a, n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= a
	}
	return r
}

func elemEnv(e *spec.Env, sym string, ok bool, text bool) {
	if text {
		n := 2.0
		if ok {
			n = 5
		}
		e.R(sym, other+n).R("runes:"+sym, n).R("bytes:"+sym, n)
		return
	}
	if ok {
		e.R(sym, 12)
	} else {
		e.R(sym, 8)
	}
}

func elemVals(text bool, max int) []CV {
	var vals []CV
	for n := 0; n <= max; n++ {
		for s := 0; s < 1<<n; s++ {
			e := Env()
			for i := 0; i < n; i++ {
				elemEnv(e, fmt.Sprintf("x%d", i), s>>i&1 == 1, text)
			}
			vals = append(vals, CV{e, fv(spec.List(syms("x", n)...))})
		}
	}
	return append(vals, CV{Env(), spec.Msg(nil)})
}

func pairVals(kind string, r R) []CV {
	var vals []CV
	for n := 0; n <= 2; n++ {
		for s := 0; s < 1<<(2*n); s++ {
			e := Env()
			var kv []*spec.Val
			for i := 0; i < n; i++ {
				ks, vs := fmt.Sprintf("k%d", i), fmt.Sprintf("v%d", i)
				elemEnv(e, ks, s>>(2*i)&1 == 1, kind == "string")
				elemEnv(e, vs, s>>(2*i+1)&1 == 1, kind == "string")
				e.R(ks, e.Rank[ks]+0.1*float64(i)) // distinct keys
				kv = append(kv, spec.Sym(ks), spec.Sym(vs))
			}
			vals = append(vals, CV{e, fv(spec.Map(kv...))})
		}
	}
	return append(vals, CV{Env(), spec.Msg(nil)})
}

func msgPairs(r R) []CV {
	var vals []CV
	for n := 0; n <= 2; n++ {
		for s := 0; s < pow(6, n); s++ {
			e := Env()
			var kv []*spec.Val
			for i, q := 0, s; i < n; i, q = i+1, q/6 {
				ks, ms := fmt.Sprintf("k%d", i), fmt.Sprintf("m%d", i)
				elemEnv(e, ks, q%2 == 1, true)
				e.R(ks, e.Rank[ks]+0.1*float64(i))
				switch q / 2 % 3 {
				case 0, 1:
					e.F("invalid:"+ms, q/2%3 == 1)
					kv = append(kv, spec.Sym(ks), spec.Sym(ms))
				default:
					kv = append(kv, spec.Sym(ks), spec.Nil())
				}
			}
			vals = append(vals, CV{e, fv(spec.Map(kv...))})
		}
	}
	return append(vals, CV{Env(), spec.Msg(nil)})
}
