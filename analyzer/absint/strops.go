package absint

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Derived string and byte operations on abstract text are expressed through
// the basic predicates (contains, prefix, suffix), so that code written with
// either decides alike.

func abstractText(v Value) bool {
	switch x := v.(type) {
	case string:
		return HasHole(x)
	case *Term:
		return true
	}
	return false
}

func (in *Interp) textPred(pkg, name string, a, b Value) bool {
	return in.Truth(&Term{Op: pkg + "." + name, Args: []Value{freeze(a), freeze(b)}, T: boolT()})
}

func (in *Interp) knownPred(pkg, name string, a, b Value) (bool, bool) {
	if in.FactFn == nil {
		return false, false
	}
	return in.FactFn((&Term{Op: pkg + "." + name, Args: []Value{freeze(a), freeze(b)}, T: boolT()}).Key())
}

// asText turns a byte or rune argument into text of the package's kind.
func asText(pkg string, v Value) (Value, bool) {
	n := int64(-1)
	switch x := v.(type) {
	case int64:
		n = x
	case uint64:
		n = int64(x)
	default:
		return v, true
	}
	if n < 0 || n > 127 {
		return nil, false
	}
	if pkg == "bytes" {
		return MkSlice(types.Typ[types.Byte], uint64(n)), true
	}
	return string(rune(n)), true
}

func isEmptyText(v Value) bool {
	switch x := v.(type) {
	case string:
		return x == ""
	case *Slice:
		return x == nil || x.Len == 0
	}
	return false
}

func init() {
	I := intrinsics
	for _, p := range []string{"strings", "bytes"} {
		pkg := p
		for _, op := range []string{"Index", "LastIndex", "IndexByte", "IndexRune", "LastIndexByte", "Count"} {
			name, last := op, op[0] == 'L'
			full := pkg + "." + name
			prev := I[full]
			I[full] = func(in *Interp, fn *ssa.Function, a []Value) Value {
				sub, ok := asText(pkg, a[1])
				if !abstractText(a[0]) || !ok || isEmptyText(sub) {
					if prev != nil {
						return prev(in, fn, a)
					}
					if v, ok := in.reflectFold(full, fn, a); ok {
						return v
					}
					return in.Opaque(full, a, fn.Signature.Results())
				}
				none := int64(-1)
				if name == "Count" {
					none = 0
				}
				if !in.textPred(pkg, "Contains", a[0], sub) {
					return none
				}
				if !last && name != "Count" {
					if v, ok := in.knownPred(pkg, "HasPrefix", a[0], sub); ok && v {
						return int64(0)
					}
				}
				t := &Term{Op: full, Args: []Value{freeze(a[0]), freeze(sub)}, T: types.Typ[types.Int], Positive: true}
				if _, ok := in.Order[t.Key()]; !ok && in.Order != nil {
					in.Order[t.Key()] = 1.5
				}
				return t
			}
		}
		for _, q := range []string{"Prefix", "Suffix"} {
			end := q
			trim := func(in *Interp, fn *ssa.Function, s, x Value) (Value, bool) {
				if isEmptyText(x) {
					return s, true
				}
				if v, found, ok := trimLiteral(s, x, end == "Suffix"); ok {
					return v, found
				}
				if !in.textPred(pkg, "Has"+end, s, x) {
					return s, false
				}
				t := &Term{Op: pkg + ".Trim" + end, Args: []Value{freeze(s), freeze(x)}}
				if r, ok := in.Order[rankKey(s)]; ok {
					// some other text: never equal to a ranked one
					in.Order[t.Key()] = r + 0.015625
				}
				if r, ok := in.Order[rankKey(in.Len(s))]; ok {
					if c, ok := in.Len(x).(int64); ok {
						in.Order["len("+t.Key()+")"] = r - float64(c)
					}
				}
				return in.OpaqueOf(t, fn.Signature.Results().At(0).Type()), true
			}
			prevT := I[pkg+".Trim"+end]
			I[pkg+".Trim"+end] = func(in *Interp, fn *ssa.Function, a []Value) Value {
				if !abstractText(a[0]) {
					if prevT != nil {
						return prevT(in, fn, a)
					}
					if v, ok := in.reflectFold(pkg+".Trim"+end, fn, a); ok {
						return v
					}
					return in.Opaque(pkg+".Trim"+end, a, fn.Signature.Results())
				}
				v, _ := trim(in, fn, a[0], a[1])
				return v
			}
			prevC := I[pkg+".Cut"+end]
			I[pkg+".Cut"+end] = func(in *Interp, fn *ssa.Function, a []Value) Value {
				if !abstractText(a[0]) {
					if prevC != nil {
						return prevC(in, fn, a)
					}
					if v, ok := in.reflectFold(pkg+".Cut"+end, fn, a); ok {
						return v
					}
					return in.Opaque(pkg+".Cut"+end, a, fn.Signature.Results())
				}
				v, found := trim(in, fn, a[0], a[1])
				return Tuple{v, found}
			}
		}
		prevCut := I[pkg+".Cut"]
		I[pkg+".Cut"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
			if !abstractText(a[0]) || isEmptyText(a[1]) {
				if prevCut != nil {
					return prevCut(in, fn, a)
				}
				if v, ok := in.reflectFold(pkg+".Cut", fn, a); ok {
					return v
				}
				return in.Opaque(pkg+".Cut", a, fn.Signature.Results())
			}
			T := fn.Signature.Results().At(0).Type()
			if !in.textPred(pkg, "Contains", a[0], a[1]) {
				return Tuple{a[0], Zero(T), false}
			}
			part := func(n string) Value {
				return in.OpaqueOf(&Term{Op: pkg + ".Cut#" + n, Args: []Value{freeze(a[0]), freeze(a[1])}}, T)
			}
			return Tuple{part("0"), part("1"), true}
		}
	}
	I["unicode/utf8.RuneCount"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		if t, ok := a[0].(*Term); ok && t.Op == "bytes" && len(t.Args) == 1 {
			return &Term{Op: "unicode/utf8.RuneCountInString", Args: t.Args, T: types.Typ[types.Int]}
		}
		if v, ok := in.reflectFold("unicode/utf8.RuneCount", fn, a); ok {
			return v
		}
		return in.Opaque("unicode/utf8.RuneCount", a, fn.Signature.Results())
	}
	I["bytes.Compare"] = compareText("bytes")
	I["strings.Compare"] = compareText("strings")
}

// trimLiteral trims text with holes whose literal end decides it.
func trimLiteral(s, x Value, tail bool) (Value, bool, bool) {
	t, ok := s.(string)
	u, ok2 := x.(string)
	if !ok || !ok2 || HasHole(u) {
		return nil, false, false
	}
	lit := t
	if tail {
		if i := strings.LastIndex(t, HoleClose); i >= 0 {
			lit = t[i+len(HoleClose):]
		}
	} else if i := strings.Index(t, HoleOpen); i >= 0 {
		lit = t[:i]
	}
	if len(lit) < len(u) {
		return nil, false, false
	}
	if tail {
		v := strings.TrimSuffix(t, u)
		return v, v != t, true
	}
	v := strings.TrimPrefix(t, u)
	return v, v != t, true
}

// compareText orders equal texts equal; unequal ones by the comparison atom.
func compareText(pkg string) func(in *Interp, fn *ssa.Function, a []Value) Value {
	return func(in *Interp, fn *ssa.Function, a []Value) Value {
		if v, ok := in.reflectFold(pkg+".Compare", fn, a); ok && !abstractText(a[0]) && !abstractText(a[1]) {
			return v
		}
		var eq Value
		if pkg == "bytes" {
			eq = &Term{Op: "bytes.Equal", Args: []Value{freeze(a[0]), freeze(a[1])}, T: boolT()}
		} else {
			eq = in.Equal(types.Typ[types.String], a[0], a[1])
		}
		if in.Truth(eq) {
			return int64(0)
		}
		if in.Truth(&Term{Op: "less", Args: []Value{freeze(a[0]), freeze(a[1])}, T: boolT()}) {
			return int64(-1)
		}
		return int64(1)
	}
}

// substrEq relates a slice of abstract text compared with constant text to the
// prefix and suffix predicates; nil when it is not such a comparison.
func (in *Interp) substrEq(a, b string) Value {
	t := SingleHole(a)
	if t == nil || t.Op != "substr" || HasHole(b) || len(t.Args) != 3 {
		return nil
	}
	lo, hi := t.Args[1], t.Args[2]
	zero := lo == nil || isZero(lo)
	if n, ok := hi.(int64); ok && zero {
		if n != int64(len(b)) {
			return false
		}
		return in.textPred("strings", "HasPrefix", t.Args[0], b)
	}
	if lt, ok := lo.(*Term); ok && hi == nil && lt.Op == "-" && len(lt.Args) == 2 {
		if n, ok := lt.Args[1].(int64); ok && KeyOf(lt.Args[0]) == KeyOf(in.Len(t.Args[0])) {
			if n != int64(len(b)) {
				return false
			}
			return in.textPred("strings", "HasSuffix", t.Args[0], b)
		}
	}
	return nil
}
