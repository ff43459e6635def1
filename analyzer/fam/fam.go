// Package fam enumerates abstract schemas and values by family of rule.
package fam

import (
	"fmt"
	"sort"

	"verif/analyzer/scen"
	"verif/analyzer/spec"
)

type R = scen.R
type L = scen.L

// CV is one abstract value in one abstract environment.
type CV struct {
	Env *spec.Env
	Val *spec.Val
}

// Case is a message type and the abstract values examined for it.
type Case struct {
	Name string // message name
	Desc string // schema shape
	Msg  *scen.Msg
	Vals []CV
}

// Base ranks of the symbolic rule bounds.
var Base = map[string]float64{
	"nlo": -20, "nhi": -10, "lo": 10, "mid": 15, "hi": 20, "K": 30, "I1": 40, "I2": 45, "I3": 50,
	"ML": 4, "EL": 6, "XL": 8, "MB": 5, "EB": 7, "XB": 11, "W": 3,
}

// Env returns an environment with the base ranks.
func Env() *spec.Env {
	e := spec.NewEnv()
	for k, v := range Base {
		e.Rank[k] = v
	}
	return e
}

// NumKinds are the numeric field kinds.
var NumKinds = []string{"float", "double", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64"}

func Signed(k string) bool {
	switch k {
	case "uint32", "uint64", "fixed32", "fixed64":
		return false
	}
	return true
}

// Wrapper is the wrapper message of a scalar kind, or "".
func Wrapper(kind string) string {
	switch kind {
	case "float", "double", "int32", "int64", "bool", "string", "bytes":
		return ".google.protobuf." + map[string]string{"float": "Float", "double": "Double", "int32": "Int32", "int64": "Int64", "bool": "Bool", "string": "String", "bytes": "Bytes"}[kind] + "Value"
	case "uint32":
		return ".google.protobuf.UInt32Value"
	case "uint64":
		return ".google.protobuf.UInt64Value"
	}
	return ""
}

// Contexts in which a scalar rule can be written.
var Contexts = []string{"plain", "wrapper", "oneof", "items", "keys", "values", "witems", "wvalues"}

// Shape describes a scalar type.
type Shape struct {
	Kind, Type string
}

func KeyKind(k string) bool {
	switch k {
	case "float", "double", "bytes", "message", "enum":
		return false
	}
	return true
}

// InContext builds the message holding rules for a scalar in context ctx; nil
// when the context does not exist for the type.
func InContext(name, ctx string, sh Shape, rules R) *scen.Msg {
	m := &scen.Msg{Name: name}
	switch ctx {
	case "plain":
		m.Fields = []*scen.Field{{Name: "f", Kind: sh.Kind, Type: sh.Type, Rules: rules}}
	case "wrapper":
		w := Wrapper(sh.Kind)
		if w == "" {
			return nil
		}
		m.Fields = []*scen.Field{{Name: "f", Kind: "message", Type: w, Rules: rules}}
	case "oneof":
		m.Oneofs = []*scen.Oneof{{Name: "o", Fields: []*scen.Field{{Name: "f", Kind: sh.Kind, Type: sh.Type, Rules: rules}, {Name: "g", Kind: "bool"}}}}
	case "items":
		m.Fields = []*scen.Field{{Name: "f", Kind: sh.Kind, Type: sh.Type, Repeated: true, Rules: R{"repeated": R{"items": rules}}}}
	case "keys":
		if !KeyKind(sh.Kind) {
			return nil
		}
		m.Fields = []*scen.Field{{Name: "f", Kind: "string", MapKey: sh.Kind, Rules: R{"map": R{"keys": rules}}}}
	case "values":
		m.Fields = []*scen.Field{{Name: "f", Kind: sh.Kind, Type: sh.Type, MapKey: "string", Rules: R{"map": R{"values": rules}}}}
	case "witems", "wvalues":
		w := Wrapper(sh.Kind)
		if w == "" {
			return nil
		}
		return InContext(name, ctx[1:], Shape{"message", w}, rules)
	default:
		panic(ctx)
	}
	return m
}

// InElem tells whether the context is an element of a collection other than
// a key.
func InElem(ctx string) bool {
	switch ctx {
	case "items", "values", "witems", "wvalues":
		return true
	}
	return false
}

// ValueIn places a scalar value in the context.
func ValueIn(ctx string, v *spec.Val) *spec.Val {
	switch ctx {
	case "plain", "oneof":
		return spec.Msg(map[string]*spec.Val{"f": v})
	case "wrapper":
		return spec.Msg(map[string]*spec.Val{"f": spec.Wrap(v)})
	case "items":
		return spec.Msg(map[string]*spec.Val{"f": spec.List(v)})
	case "keys":
		return spec.Msg(map[string]*spec.Val{"f": spec.Map(v, spec.Conc("pay"))})
	case "values":
		return spec.Msg(map[string]*spec.Val{"f": spec.Map(spec.Conc("key0"), v)})
	case "witems", "wvalues":
		return ValueIn(ctx[1:], spec.Wrap(v))
	}
	panic(ctx)
}

// Positions are the order positions distinguished by the given marks.
func Positions(marks ...float64) []float64 {
	seen := map[float64]bool{}
	var m []float64
	for _, x := range marks {
		if !seen[x] {
			seen[x] = true
			m = append(m, x)
		}
	}
	sort.Float64s(m)
	var out []float64
	for i, x := range m {
		if i == 0 {
			out = append(out, x-3)
		} else {
			out = append(out, (m[i-1]+x)/2)
		}
		out = append(out, x)
	}
	return append(out, m[len(m)-1]+3)
}

func rankOf(x interface{}) float64 {
	switch v := x.(type) {
	case L:
		return Base[string(v)]
	case scen.LN:
		return Base[string(v)]
	case scen.D:
		return Base[string(v)]
	case scen.DC:
		return float64(v.Sec)*1e9 + float64(v.Nanos)
	case int:
		return float64(v)
	}
	panic(fmt.Sprintf("rank of %v", x))
}

// Marks collects the ranks of the bounds in a rule.
func Marks(r R) []float64 {
	var out []float64
	for _, k := range []string{"lt", "lte", "gt", "gte", "const"} {
		if r[k] != nil {
			out = append(out, rankOf(r[k]))
		}
	}
	for _, k := range []string{"in", "not_in"} {
		if l, ok := r[k].([]interface{}); ok {
			for _, x := range l {
				out = append(out, rankOf(x))
			}
		}
	}
	sort.Float64s(out)
	return out
}

func with(r R, kv ...interface{}) R {
	o := R{}
	for k, v := range r {
		o[k] = v
	}
	for i := 0; i < len(kv); i += 2 {
		o[kv[i].(string)] = kv[i+1]
	}
	return o
}

// Ranges lists the bound combinations of an ordered type.  b makes a bound of
// a symbol; zero is the type's concrete zero (nil: none); neg adds bounds
// below zero.
func Ranges(b func(string) interface{}, zero interface{}, neg bool) []R {
	var out []R
	lows := []string{"gt", "gte"}
	highs := []string{"lt", "lte"}
	add := func(r R) { out = append(out, r) }
	singles := []interface{}{b("lo")}
	pairs := [][2]interface{}{{b("lo"), b("hi")}, {b("hi"), b("lo")}}
	if zero != nil {
		singles = append(singles, zero)
		pairs = append(pairs, [2]interface{}{zero, b("hi")}, [2]interface{}{b("hi"), zero})
	}
	if neg {
		singles = append(singles, b("nlo"))
		pairs = append(pairs, [2]interface{}{b("nlo"), b("nhi")}, [2]interface{}{b("nhi"), b("nlo")}, [2]interface{}{b("nlo"), b("hi")}, [2]interface{}{b("hi"), b("nlo")})
		if zero != nil {
			pairs = append(pairs, [2]interface{}{b("nlo"), zero}, [2]interface{}{zero, b("nlo")})
		}
	}
	for _, s := range singles {
		for _, k := range append(append([]string{}, lows...), highs...) {
			add(R{k: s})
		}
	}
	for _, p := range pairs {
		for _, l := range lows {
			for _, h := range highs {
				add(R{l: p[0], h: p[1]})
			}
		}
	}
	return out
}

// Ptsym is the value symbol used by single-value cases.
const X = "x"

// NumVals are the abstract values of an ordered scalar under rule r.
func NumVals(ctx string, r R, signed bool, zeroToo bool) []CV {
	marks := Marks(r)
	if zeroToo {
		marks = append(marks, 0)
	}
	var out []CV
	for _, p := range Positions(marks...) {
		if p < 0 && !signed {
			continue
		}
		out = append(out, CV{Env().R(X, p), ValueIn(ctx, spec.Sym(X))})
	}
	if zeroToo {
		out = append(out, CV{Env(), ValueIn(ctx, spec.Conc(0))})
		if ctx == "plain" || ctx == "wrapper" || ctx == "oneof" {
			out = append(out, CV{Env(), spec.Msg(nil)})
		}
		if InElem(ctx) || ctx == "keys" {
			out = append(out, CV{Env(), spec.Msg(nil)}, CV{Env(), spec.Msg(map[string]*spec.Val{"f": spec.List()})})
			if ctx != "items" && ctx != "witems" {
				out[len(out)-1].Val = spec.Msg(map[string]*spec.Val{"f": spec.Map()})
			}
		}
	}
	return out
}

type builder struct {
	n     int
	pre   string
	cases []*Case
}

func (b *builder) add(desc string, m *scen.Msg, vals []CV) {
	if m == nil || len(vals) == 0 {
		return
	}
	b.n++
	m.Name = fmt.Sprintf("%s%d", b.pre, b.n)
	b.cases = append(b.cases, &Case{Name: m.Name, Desc: desc, Msg: m, Vals: vals})
}

// NumRanges: range constraints on every numeric kind.
func NumRanges(full bool) []*Case {
	b := &builder{pre: "NR"}
	for _, k := range NumKinds {
		rs := Ranges(func(s string) interface{} { return L(s) }, 0, Signed(k))
		for _, r := range rs {
			if !Signed(k) && r["lt"] == 0 {
				// unsatisfiable bound, still well defined
			}
			b.add("plain "+k+" "+r.String(), InContext("", "plain", Shape{Kind: k}, R{k: r}), NumVals("plain", r, Signed(k), true))
		}
		for _, ctx := range Contexts[1:] {
			for _, r := range rs {
				b.add(ctx+" "+k+" "+r.String(), InContext("", ctx, Shape{Kind: k}, R{k: r}), NumVals(ctx, r, Signed(k), true))
			}
		}
		b.add("plain "+k+" range and not_in", InContext("", "plain", Shape{Kind: k}, R{k: R{"gt": L("lo"), "lt": L("hi"), "not_in": []interface{}{L("mid")}}}),
			NumVals("plain", R{"gt": L("lo"), "lt": L("hi"), "not_in": []interface{}{L("mid")}}, Signed(k), true))
	}
	return b.cases
}
