package scen

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"verif/analyzer/absint"
	"verif/analyzer/world"
)

// R is a rule message: proto field name -> value. Values are bool, int,
// float64, string, []byte, L (a symbolic scalar), D (a symbolic duration or
// timestamp), []interface{} and R.
type R map[string]interface{}

// L is a symbolic scalar.
type L string

// D is a symbolic well-formed duration or timestamp.
type D string

// DC is a concrete duration or timestamp.
type DC struct{ Sec, Nanos int64 }

// Valid tells whether the pair denotes a duration or timestamp.
func (d DC) Valid(kind string) bool {
	if kind == "timestamp" {
		return d.Sec >= -62135596800 && d.Sec <= 253402300799 && d.Nanos >= 0 && d.Nanos < 1e9
	}
	return d.Sec >= -315576000000 && d.Sec <= 315576000000 && d.Nanos > -1e9 && d.Nanos < 1e9 &&
		!(d.Sec > 0 && d.Nanos < 0) && !(d.Sec < 0 && d.Nanos > 0)
}

// LN is a symbolic scalar known to be different from zero.
type LN string

func (r R) String() string {
	var ks []string
	for k := range r {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var p []string
	for _, k := range ks {
		p = append(p, fmt.Sprintf("%s:%s", k, showRule(r[k])))
	}
	return "{" + strings.Join(p, " ") + "}"
}

func showRule(v interface{}) string {
	switch v := v.(type) {
	case L:
		return "<" + string(v) + ">"
	case LN:
		return "<" + string(v) + ">"
	case D:
		return "<" + string(v) + ">"
	case string:
		return fmt.Sprintf("%q", v)
	case []byte:
		return fmt.Sprintf("%q", v)
	case []interface{}:
		var p []string
		for _, x := range v {
			p = append(p, showRule(x))
		}
		return "[" + strings.Join(p, ", ") + "]"
	}
	return fmt.Sprint(v)
}

type pbField struct {
	idx   int
	name  string
	oneof bool
}

// ProtoFields lists the protobuf fields of a generated message struct.
func ProtoFields(n *types.Named) []pbField {
	st := n.Underlying().(*types.Struct)
	var out []pbField
	for i := 0; i < st.NumFields(); i++ {
		tag := reflect.StructTag(st.Tag(i))
		if o := tag.Get("protobuf_oneof"); o != "" {
			out = append(out, pbField{i, o, true})
			continue
		}
		if nm := tagName(tag.Get("protobuf")); nm != "" {
			out = append(out, pbField{i, nm, false})
		}
	}
	return out
}

func tagName(t string) string {
	for _, p := range strings.Split(t, ",") {
		if strings.HasPrefix(p, "name=") {
			return p[5:]
		}
	}
	return ""
}

// OneofWrappers lists the wrapper struct types of the oneof interface it.
func OneofWrappers(pkg *types.Package, it types.Type) map[string]*types.Named {
	iface := it.Underlying().(*types.Interface)
	out := map[string]*types.Named{}
	for _, nm := range pkg.Scope().Names() {
		tn, ok := pkg.Scope().Lookup(nm).(*types.TypeName)
		if !ok {
			continue
		}
		n, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok || st.NumFields() != 1 || !types.Implements(types.NewPointer(n), iface) {
			continue
		}
		if x := tagName(reflect.StructTag(st.Tag(0)).Get("protobuf")); x != "" {
			out[x] = n
		}
	}
	return out
}

// RuleMsg builds the abstract value of message type n (a *Named struct
// generated by protoc-gen-go) as a pointer.
func RuleMsg(w *world.Loaded, n *types.Named, r R) absint.Value {
	st := n.Underlying().(*types.Struct)
	s := absint.Zero(n).(absint.Struct)
	used := map[string]bool{}
	for _, pf := range ProtoFields(n) {
		ft := st.Field(pf.idx).Type()
		if pf.oneof {
			for nm, wn := range OneofWrappers(n.Obj().Pkg(), ft) {
				v, ok := r[nm]
				if !ok || v == nil {
					continue
				}
				used[nm] = true
				wst := wn.Underlying().(*types.Struct)
				ws := absint.Zero(wn).(absint.Struct)
				ws[0] = RuleVal(w, wst.Field(0).Type(), v)
				s[pf.idx] = absint.Iface{T: types.NewPointer(wn), V: absint.NewPtr(ws)}
			}
			continue
		}
		v, ok := r[pf.name]
		used[pf.name] = true
		if !ok || v == nil {
			continue
		}
		s[pf.idx] = RuleVal(w, ft, v)
	}
	for k := range r {
		if !used[k] && r[k] != nil {
			panic(fmt.Sprintf("message %s has no rule field %q", n, k))
		}
	}
	return absint.NewPtr(s)
}

// RuleVal converts a rule value for Go type T.
func RuleVal(w *world.Loaded, T types.Type, v interface{}) absint.Value {
	switch x := v.(type) {
	case absint.Value:
		_ = x
	}
	if p, ok := T.Underlying().(*types.Pointer); ok {
		if n, ok := p.Elem().(*types.Named); ok {
			if _, ok := n.Underlying().(*types.Struct); ok {
				switch x := v.(type) {
				case R:
					return RuleMsg(w, n, x)
				case D:
					return TimeMsg(n, string(x))
				case DC:
					return TimeConst(n, x)
				}
				panic(fmt.Sprintf("bad value %v for %s", v, T))
			}
		}
		return absint.NewPtr(Scalar(p.Elem(), v))
	}
	if sl, ok := T.Underlying().(*types.Slice); ok {
		if isByte(sl.Elem()) {
			switch x := v.(type) {
			case []byte:
				var e []absint.Value
				for _, b := range x {
					e = append(e, uint64(b))
				}
				return absint.MkSlice(sl.Elem(), e...)
			case string:
				return RuleVal(w, T, []byte(x))
			case L:
				return &absint.Term{Op: string(x), T: T, NonZero: true}
			}
			panic(fmt.Sprintf("bad bytes value %v", v))
		}
		var e []absint.Value
		for _, x := range v.([]interface{}) {
			e = append(e, RuleVal(w, sl.Elem(), x))
		}
		return absint.MkSlice(sl.Elem(), e...)
	}
	return Scalar(T, v)
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func Scalar(T types.Type, v interface{}) absint.Value {
	b, ok := T.Underlying().(*types.Basic)
	if !ok {
		panic(fmt.Sprintf("scalar of %s", T))
	}
	switch x := v.(type) {
	case L:
		t := absint.Leaf(string(x), T)
		if b.Info()&types.IsString != 0 {
			return absint.HoleStr(t)
		}
		return t
	case LN:
		t := absint.Leaf(string(x), T)
		t.NonZero = true
		if b.Info()&types.IsString != 0 {
			return absint.HoleStr(t)
		}
		return t
	case bool:
		return x
	case string:
		return x
	case int:
		switch {
		case b.Info()&types.IsUnsigned != 0:
			return uint64(x)
		case b.Info()&types.IsInteger != 0:
			return int64(x)
		case b.Info()&types.IsFloat != 0:
			return float64(x)
		}
	case int64:
		return x
	case uint64:
		return x
	case float64:
		return x
	}
	panic(fmt.Sprintf("bad scalar %T for %s", v, T))
}

// TimeMsg is a symbolic duration/timestamp message.
func TimeMsg(n *types.Named, name string) absint.Value {
	s := absint.Zero(n).(absint.Struct)
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "Seconds":
			s[i] = absint.Leaf("sec:"+name, st.Field(i).Type())
		case "Nanos":
			s[i] = absint.Leaf("nanos:"+name, st.Field(i).Type())
		}
	}
	return absint.NewPtr(s)
}

// TimeConst is a concrete duration/timestamp message.
func TimeConst(n *types.Named, c DC) absint.Value {
	s := absint.Zero(n).(absint.Struct)
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "Seconds":
			s[i] = c.Sec
		case "Nanos":
			s[i] = c.Nanos
		}
	}
	return absint.NewPtr(s)
}

// SmallSyms are the symbols that stand for lengths and counts.
var SmallSyms = map[string]bool{"ML": true, "EL": true, "XL": true, "MB": true, "EB": true, "XB": true}
