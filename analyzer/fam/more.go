package fam

import (
	"fmt"

	"verif/analyzer/scen"
	"verif/analyzer/spec"
)

type I = []interface{}

// The enum used by the families.
var EnumE = &scen.Enum{Name: "E", Values: []scen.EnumVal{{Name: "E0", Num: 0}, {Name: "E1", Num: 1}, {Name: "E1B", Num: 1}, {Name: "E5", Num: 5}, {Name: "EN", Num: -3}}}

const enumT = ".t.E"

// TextVal is a text scalar symbol in an environment.
func textEnv(kind string, class float64, bytes, runes float64) *spec.Env {
	e := Env()
	e.R(X, class).R("bytes:"+X, bytes).R("runes:"+X, runes)
	return e
}

func txt(kind, s string) interface{} {
	if kind == "bytes" {
		return []byte(s)
	}
	return s
}

const other = 9999

// TextRule are the literals used in text rules.
var lits = []string{"", "k", "one", "two", "three", "zz\"\\\n\x01%d`'é"}

func init() {
	for _, l := range append([]string{"pre", "suf", "mid", "no", "pay", "key0", "key1", "key2", "k2"}, lits...) {
		spec.StrClass(l)
	}
}

// Membership: const, in and not_in for every scalar kind and context.
func Membership(full bool) []*Case {
	b := &builder{pre: "MB"}
	for _, k := range NumKinds {
		for _, r := range []R{{"const": L("K")}, {"const": 0}, {"in": I{L("I1")}}, {"in": I{L("I1"), L("I2"), L("I3")}}, {"in": I{0, L("I2")}},
			{"not_in": I{L("I1")}}, {"not_in": I{L("I1"), L("I2"), L("I3")}}, {"not_in": I{0, L("I2")}}, {"in": I{}, "not_in": I{}, "gte": L("lo")}} {
			for _, ctx := range Contexts {
				b.add(ctx+" "+k+" "+r.String(), InContext("", ctx, Shape{Kind: k}, R{k: r}), NumVals(ctx, r, Signed(k), true))
			}
		}
	}
	for _, ctx := range Contexts {
		for _, v := range []bool{true, false} {
			var vals []CV
			for _, x := range []bool{true, false} {
				vals = append(vals, CV{Env(), ValueIn(ctx, spec.Conc(x))})
			}
			vals = append(vals, CV{Env(), spec.Msg(nil)})
			r := R{"const": v}
			b.add(ctx+" bool "+r.String(), InContext("", ctx, Shape{Kind: "bool"}, R{"bool": r}), vals)
		}
	}
	for _, k := range []string{"string", "bytes"} {
		for _, r := range []R{{"const": txt(k, "k")}, {"const": txt(k, "")}, {"const": txt(k, lits[5])}, {"in": I{txt(k, "one")}}, {"in": I{txt(k, "one"), txt(k, "two"), txt(k, lits[5])}}, {"in": I{txt(k, ""), txt(k, "two")}},
			{"not_in": I{txt(k, "one")}}, {"not_in": I{txt(k, "one"), txt(k, "two"), txt(k, lits[5])}}, {"not_in": I{txt(k, ""), txt(k, "two")}}, {"const": txt(k, "k"), "not_in": I{txt(k, "one"), txt(k, "k")}}} {
			for _, ctx := range Contexts {
				var vals []CV
				for _, s := range lits {
					e := textEnv(k, spec.StrClass(s), float64(len(s)), float64(len([]rune(s))))
					vals = append(vals, CV{e, ValueIn(ctx, spec.Sym(X))})
				}
				vals = append(vals, CV{textEnv(k, other, 3, 3), ValueIn(ctx, spec.Sym(X))}, CV{Env(), spec.Msg(nil)})
				b.add(ctx+" "+k+" "+r.String(), InContext("", ctx, Shape{Kind: k}, R{k: r}), vals)
			}
		}
	}
	for _, r := range []R{{"const": 1}, {"const": 0}, {"const": 7}, {"const": -3}, {"in": I{1}}, {"in": I{0, 5}}, {"in": I{7, 1}}, {"not_in": I{1}}, {"not_in": I{0, 5, 7}}, {"defined_only": true}, {"defined_only": false},
		{"defined_only": true, "not_in": I{1}}, {"defined_only": true, "in": I{1, 5}}, {"defined_only": true, "const": 5}} {
		for _, ctx := range Contexts {
			var vals []CV
			for _, n := range []int{-4, -3, 0, 1, 2, 5, 7, 1 << 20} {
				vals = append(vals, CV{Env().R(X, float64(n)), ValueIn(ctx, spec.Sym(X))}, CV{Env(), ValueIn(ctx, spec.Conc(n))})
			}
			vals = append(vals, CV{Env(), spec.Msg(nil)})
			b.add(ctx+" enum "+r.String(), InContext("", ctx, Shape{"enum", enumT}, R{"enum": r}), vals)
		}
	}
	// many entries
	for _, n := range []int{9, 17, 40} {
		for _, rule := range []string{"in", "not_in"} {
			for _, ctx := range []string{"plain", "items", "values"} {
				for _, k := range []string{"int32", "sint64", "sfixed32", "double"} {
					var l I
					for i := 0; i < n; i++ {
						l = append(l, 3+i*7%n*2)
					}
					r := R{rule: l}
					b.add(fmt.Sprintf("%s %s %s of %d", ctx, k, rule, n), InContext("", ctx, Shape{Kind: k}, R{k: r}), NumVals(ctx, r, Signed(k), true))
				}
				for _, k := range []string{"string", "bytes"} {
					var l I
					var vals []CV
					for i := 0; i < n; i++ {
						s := fmt.Sprintf("entry-%d", i*7%n)
						l = append(l, txt(k, s))
						e := textEnv(k, spec.StrClass(s), float64(len(s)), float64(len(s)))
						vals = append(vals, CV{e, ValueIn(ctx, spec.Sym(X))})
					}
					vals = append(vals, CV{textEnv(k, other, 3, 3), ValueIn(ctx, spec.Sym(X))}, CV{Env(), spec.Msg(nil)})
					b.add(fmt.Sprintf("%s %s %s of %d", ctx, k, rule, n), InContext("", ctx, Shape{Kind: k}, R{k: R{rule: l}}), vals)
				}
			}
		}
	}
	return b.cases
}
