package absint

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/token"
	"go/types"
	"math"
	"path"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/iancoleman/strcase"
	"golang.org/x/tools/go/ssa"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

type intrinsic func(in *Interp, fn *ssa.Function, args []Value) Value

var intrinsics = map[string]intrinsic{}

var pureExact = map[string]bool{"time.Now": true}

// pureLibrary tells which library functions may be treated as uninterpreted
// (deterministic, effect free) functions of their arguments.
func pureLibrary(name string) bool {
	if pureExact[name] || strings.HasPrefix(name, "invoke.") {
		return true
	}
	n := strings.TrimLeft(name, "(*")
	i := strings.LastIndex(n, "/")
	pk := n
	if i >= 0 {
		j := strings.IndexAny(n[i:], ".)")
		if j >= 0 {
			pk = n[:i+j]
		}
	} else if j := strings.IndexAny(n, ".)"); j >= 0 {
		pk = n[:j]
	}
	switch pk {
	case "strings", "strconv", "unicode", "unicode/utf8", "bytes", "net", "net/mail", "net/url", "regexp", "errors",
		"path", "path/filepath", "math", "time", "fmt", "net/netip", "html", "sort", "regexp/syntax":
		return true
	}
	return false
}

var foldTable = map[string]reflect.Value{}

func fold(name string, f interface{}) { foldTable[name] = reflect.ValueOf(f) }

func init() {
	fold("go/token.Lookup", token.Lookup)
	for n, f := range map[string]interface{}{"ToSnake": strcase.ToSnake, "ToScreamingSnake": strcase.ToScreamingSnake,
		"ToKebab": strcase.ToKebab, "ToCamel": strcase.ToCamel, "ToLowerCamel": strcase.ToLowerCamel} {
		fold("github.com/iancoleman/strcase."+n, f)
	}
	fold("go/token.IsKeyword", token.IsKeyword)
	fold("(go/token.Token).IsKeyword", token.Token.IsKeyword)
}

func init() {
	for n, f := range map[string]interface{}{
		"Contains": strings.Contains, "ContainsAny": strings.ContainsAny, "ContainsRune": strings.ContainsRune, "Count": strings.Count,
		"EqualFold": strings.EqualFold, "Fields": strings.Fields, "HasPrefix": strings.HasPrefix, "HasSuffix": strings.HasSuffix,
		"Index": strings.Index, "IndexAny": strings.IndexAny, "IndexByte": strings.IndexByte, "IndexRune": strings.IndexRune,
		"LastIndex": strings.LastIndex, "LastIndexAny": strings.LastIndexAny, "LastIndexByte": strings.LastIndexByte,
		"Repeat": strings.Repeat, "Replace": strings.Replace, "ReplaceAll": strings.ReplaceAll, "Split": strings.Split,
		"SplitAfter": strings.SplitAfter, "SplitN": strings.SplitN, "Title": strings.Title, "ToLower": strings.ToLower, "ToTitle": strings.ToTitle,
		"ToUpper": strings.ToUpper, "Trim": strings.Trim, "TrimLeft": strings.TrimLeft, "TrimPrefix": strings.TrimPrefix,
		"TrimRight": strings.TrimRight, "TrimSpace": strings.TrimSpace, "TrimSuffix": strings.TrimSuffix, "Compare": strings.Compare,
		"Cut": strings.Cut, "CutPrefix": strings.CutPrefix, "CutSuffix": strings.CutSuffix,
	} {
		fold("strings."+n, f)
	}
	for n, f := range map[string]interface{}{"Equal": bytes.Equal, "HasPrefix": bytes.HasPrefix, "HasSuffix": bytes.HasSuffix, "Contains": bytes.Contains, "Compare": bytes.Compare} {
		fold("bytes."+n, f)
	}
	fold("unicode/utf8.RuneCount", utf8.RuneCount)
	for n, f := range map[string]interface{}{
		"Itoa": strconv.Itoa, "Quote": strconv.Quote, "FormatInt": strconv.FormatInt, "FormatUint": strconv.FormatUint, "FormatBool": strconv.FormatBool,
		"FormatFloat": strconv.FormatFloat, "QuoteToASCII": strconv.QuoteToASCII, "CanBackquote": strconv.CanBackquote, "QuoteRune": strconv.QuoteRune, "QuoteRuneToASCII": strconv.QuoteRuneToASCII,
	} {
		fold("strconv."+n, f)
	}
	for n, f := range map[string]interface{}{
		"IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsDigit": unicode.IsDigit, "IsLetter": unicode.IsLetter, "ToUpper": unicode.ToUpper,
		"ToLower": unicode.ToLower, "IsSpace": unicode.IsSpace, "IsNumber": unicode.IsNumber,
		"IsTitle": unicode.IsTitle, "ToTitle": unicode.ToTitle, "IsPunct": unicode.IsPunct, "IsSymbol": unicode.IsSymbol, "IsControl": unicode.IsControl,
		"IsPrint": unicode.IsPrint, "IsGraphic": unicode.IsGraphic, "IsMark": unicode.IsMark,
	} {
		fold("unicode."+n, f)
	}
	for n, f := range map[string]interface{}{
		"RuneCountInString": utf8.RuneCountInString, "ValidString": utf8.ValidString, "RuneLen": utf8.RuneLen, "DecodeRuneInString": utf8.DecodeRuneInString,
		"DecodeLastRuneInString": utf8.DecodeLastRuneInString, "ValidRune": utf8.ValidRune,
	} {
		fold("unicode/utf8."+n, f)
	}
	for n, f := range map[string]interface{}{"Base": path.Base, "Dir": path.Dir, "Ext": path.Ext, "Clean": path.Clean, "Join": path.Join, "IsAbs": path.IsAbs} {
		fold("path."+n, f)
	}
	for n, f := range map[string]interface{}{"Base": filepath.Base, "Dir": filepath.Dir, "Ext": filepath.Ext, "Clean": filepath.Clean, "Join": filepath.Join,
		"ToSlash": filepath.ToSlash, "FromSlash": filepath.FromSlash, "IsAbs": filepath.IsAbs} {
		fold("path/filepath."+n, f)
	}
	for n, f := range map[string]interface{}{"IsNaN": math.IsNaN, "Floor": math.Floor, "IsInf": math.IsInf, "Abs": math.Abs, "Inf": math.Inf, "NaN": math.NaN, "Ceil": math.Ceil, "Trunc": math.Trunc, "Max": math.Max, "Min": math.Min, "Signbit": math.Signbit} {
		fold("math."+n, f)
	}
	initIntrinsics()
}

// reflectFold constant-folds a library function on concrete arguments.
func (in *Interp) reflectFold(name string, fn *ssa.Function, args []Value) (Value, bool) {
	f, ok := foldTable[name]
	if !ok {
		return nil, false
	}
	if hasAbstract(args) {
		if name == "math.IsInf" || name == "math.IsNaN" {
			return false, true // abstract numbers are finite
		}
		return in.Opaque(name, args, fn.Signature.Results()), true
	}
	ft := f.Type()
	var rv []reflect.Value
	for i, a := range args {
		var pt reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 {
			// variadic passed as slice
			s, _ := a.(*Slice)
			sl := reflect.MakeSlice(ft.In(ft.NumIn()-1), 0, 0)
			for k := 0; s != nil && k < s.Len; k++ {
				e, ok := toReflect(s.At(k), ft.In(ft.NumIn()-1).Elem())
				if !ok {
					return nil, false
				}
				sl = reflect.Append(sl, e)
			}
			rv = append(rv, sl)
			out := f.CallSlice(rv)
			return fromReflects(in, out, fn.Signature.Results())
		}
		pt = ft.In(i)
		e, ok := toReflect(a, pt)
		if !ok {
			return nil, false
		}
		rv = append(rv, e)
	}
	out := f.Call(rv)
	return fromReflects(in, out, fn.Signature.Results())
}

func fromReflects(in *Interp, out []reflect.Value, res *types.Tuple) (Value, bool) {
	if len(out) == 0 {
		return nil, true
	}
	var tp Tuple
	for i, o := range out {
		v, ok := in.fromReflect(o, res.At(i).Type())
		if !ok {
			return nil, false
		}
		tp = append(tp, v)
	}
	if len(tp) == 1 {
		return tp[0], true
	}
	return tp, true
}

func toReflect(v Value, t reflect.Type) (reflect.Value, bool) {
	out := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		s, ok := v.(string)
		if !ok {
			return out, false
		}
		out.SetString(s)
	case reflect.Bool:
		b, ok := v.(bool)
		if !ok {
			return out, false
		}
		out.SetBool(b)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		switch x := v.(type) {
		case int64:
			out.SetInt(x)
		case uint64:
			out.SetInt(int64(x))
		default:
			return out, false
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		switch x := v.(type) {
		case int64:
			out.SetUint(uint64(x))
		case uint64:
			out.SetUint(x)
		default:
			return out, false
		}
	case reflect.Float32, reflect.Float64:
		f, ok := v.(float64)
		if !ok {
			return out, false
		}
		out.SetFloat(f)
	case reflect.Slice:
		s, ok := v.(*Slice)
		if !ok {
			return out, false
		}
		if s == nil {
			return out, true
		}
		for i := 0; i < s.Len; i++ {
			e, ok := toReflect(s.At(i), t.Elem())
			if !ok {
				return out, false
			}
			out = reflect.Append(out, e)
		}
	case reflect.Interface, reflect.Ptr, reflect.Struct:
		switch x := v.(type) {
		case Host:
			if x.RV.Type().AssignableTo(t) {
				out.Set(x.RV)
				return out, true
			}
			return out, false
		case Iface:
			if x.T == nil {
				return out, true
			}
			return toReflect(x.V, t)
		case Ptr:
			if x == nil {
				return out, true
			}
		}
		return out, false
	default:
		return out, false
	}
	return out, true
}

// fromReflect converts a host result to a value of static type T.
func (in *Interp) fromReflect(o reflect.Value, T types.Type) (Value, bool) {
	switch o.Kind() {
	case reflect.String:
		return o.String(), true
	case reflect.Bool:
		return o.Bool(), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return o.Int(), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return o.Uint(), true
	case reflect.Float32, reflect.Float64:
		return o.Float(), true
	case reflect.Interface:
		if o.IsNil() {
			return Iface{}, true
		}
		e := o.Elem()
		if e.Kind() == reflect.Ptr && e.IsNil() {
			// typed nil inside an interface
		}
		ht := in.W.HostType(e.Type())
		if ht == nil {
			return nil, false
		}
		return Iface{T: ht, V: Host{e}}, true
	case reflect.Ptr:
		if o.IsNil() {
			return Ptr(nil), true
		}
		return Host{o}, true
	case reflect.Slice:
		st, ok := T.Underlying().(*types.Slice)
		if !ok {
			return nil, false
		}
		if o.IsNil() {
			return (*Slice)(nil), true
		}
		var vs []Value
		for i := 0; i < o.Len(); i++ {
			v, ok := in.fromReflect(o.Index(i), st.Elem())
			if !ok {
				return nil, false
			}
			vs = append(vs, v)
		}
		return MkSlice(st.Elem(), vs...), true
	case reflect.Map:
		mt, ok := T.Underlying().(*types.Map)
		if !ok {
			return nil, false
		}
		m := NewMap(mt.Key(), mt.Elem())
		keys := o.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		for _, k := range keys {
			kv, ok := in.fromReflect(k, mt.Key())
			if !ok {
				return nil, false
			}
			vv, ok := in.fromReflect(o.MapIndex(k), mt.Elem())
			if !ok {
				return nil, false
			}
			m.Set(kv, vv)
		}
		return m, true
	case reflect.Struct:
		return Host{o}, true
	}
	return nil, false
}

// HostCall calls a method of a schema entity.
func (in *Interp) HostCall(h Host, name string, args []Value, sig *types.Signature) Value {
	m := h.RV.MethodByName(name)
	if !m.IsValid() && h.RV.CanAddr() {
		m = h.RV.Addr().MethodByName(name)
	}
	if !m.IsValid() {
		in.Undecided("schema entity %s has no method %s", h.RV.Type(), name)
	}
	if name == "Extension" {
		in.Undecided("extension read outside a scenario")
	}
	mt := m.Type()
	var rv []reflect.Value
	for i, a := range args {
		if i >= mt.NumIn() {
			in.Undecided("arity of host call %s", name)
		}
		e, ok := toReflect(a, mt.In(i))
		if !ok {
			in.Undecided("argument %d of schema method %s", i, name)
		}
		rv = append(rv, e)
	}
	var out []reflect.Value
	func() {
		defer func() {
			if r := recover(); r != nil {
				in.GoPanic(fmt.Sprintf("schema library panics in %s: %v", name, r))
			}
		}()
		out = m.Call(rv)
	}()
	// the library collects these in a map
	switch name {
	case "Imports", "TransitiveImports", "UnusedImports", "Dependents":
		if len(out) == 1 && out[0].Kind() == reflect.Slice && (name != "Imports" || !strings.HasSuffix(h.RV.Type().String(), "pgs.file")) {
			out[0] = in.unordered(out[0])
		}
	}
	v, ok := fromReflects(in, out, sig.Results())
	if !ok {
		in.Undecided("result of schema method %s", name)
	}
	return v
}

// unordered puts entities in the order the run assumes for maps.
func (in *Interp) unordered(l reflect.Value) reflect.Value {
	n := l.Len()
	name := func(i int) string {
		x, ok := l.Index(i).Interface().(interface{ FullyQualifiedName() string })
		if !ok {
			return ""
		}
		if f, ok := x.(interface {
			Descriptor() *descriptorpb.FileDescriptorProto
		}); ok {
			return f.Descriptor().GetName()
		}
		return x.FullyQualifiedName()
	}
	at := make([]int, n)
	for i := range at {
		at[i] = i
	}
	sort.SliceStable(at, func(i, j int) bool { return name(at[i]) < name(at[j]) })
	out := reflect.MakeSlice(l.Type(), n, n)
	for i := range at {
		out.Index(i).Set(l.Index(at[in.permute(i, n)]))
	}
	return out
}

// HostIface wraps a Go value of the descriptor library.
func (in *Interp) HostIface(x interface{}) Iface {
	rv := reflect.ValueOf(x)
	return Iface{T: in.W.HostType(rv.Type()), V: Host{rv}}
}

// ---- errors ----

// ErrObj makes an error value.
func (in *Interp) ErrObj(msg string) Iface {
	o := &Obj{Kind: "error", State: msg}
	o.Meth = map[string]func(*Interp, []Value) Value{
		"Error": func(in *Interp, _ []Value) Value { return msg },
	}
	return Iface{T: in.errType(), V: o}
}

func (in *Interp) errType() types.Type {
	if p, ok := in.W.Pkgs["errors"]; ok {
		if o := p.Pkg.Scope().Lookup("errorString"); o != nil {
			return types.NewPointer(o.Type())
		}
	}
	return types.Universe.Lookup("error").Type()
}

// ---- reflect model ----

type RVal struct {
	T     types.Type
	V     Value
	Valid bool
}

func rv(v Value) RVal {
	switch x := v.(type) {
	case RVal:
		return x
	}
	return RVal{}
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.String, types.UntypedString:
			return reflect.String
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Struct:
		return reflect.Struct
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func (in *Interp) isNilVal(v Value) (bool, bool) {
	switch x := v.(type) {
	case Ptr:
		return x == nil, true
	case *Slice:
		return x == nil, true
	case *Map:
		return x == nil, true
	case Iface:
		return x.T == nil, true
	case *Closure:
		return x == nil, true
	case Host, *Obj, *ssa.Function, *NativeFn:
		return false, true
	case *Term:
		return in.IsNilTerm(x), true
	case nil:
		return true, true
	}
	return false, false
}

func (in *Interp) rtype(t types.Type) Value {
	o := &Obj{Kind: "reflect.Type", State: t}
	o.Meth = map[string]func(*Interp, []Value) Value{
		"Kind":   func(in *Interp, _ []Value) Value { return uint64(kindOf(t)) },
		"String": func(in *Interp, _ []Value) Value { return TypeString(t) },
		"Name": func(in *Interp, _ []Value) Value {
			if n, ok := t.(*types.Named); ok {
				return n.Obj().Name()
			}
			if b, ok := t.(*types.Basic); ok {
				return b.Name()
			}
			return ""
		},
		"Elem": func(in *Interp, _ []Value) Value {
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				return in.rtype(u.Elem())
			case *types.Slice:
				return in.rtype(u.Elem())
			case *types.Array:
				return in.rtype(u.Elem())
			case *types.Map:
				return in.rtype(u.Elem())
			}
			in.GoPanic("reflect: Elem of invalid type")
			return nil
		},
	}
	structField := func(st *types.Struct, i int) Value {
		p, ok := in.W.Pkgs["reflect"]
		if !ok || p.Pkg.Scope().Lookup("StructField") == nil {
			in.Undecided("reflect.StructField is not loaded")
		}
		T := p.Pkg.Scope().Lookup("StructField").Type()
		v := Zero(T).(Struct)
		if st == nil {
			return v
		}
		sf := T.Underlying().(*types.Struct)
		for k := 0; k < sf.NumFields(); k++ {
			switch sf.Field(k).Name() {
			case "Name":
				v[k] = st.Field(i).Name()
			case "Tag":
				v[k] = st.Tag(i)
			case "Type":
				v[k] = in.rtype(st.Field(i).Type())
			case "Anonymous":
				v[k] = st.Field(i).Embedded()
			case "PkgPath":
				if !st.Field(i).Exported() && st.Field(i).Pkg() != nil {
					v[k] = st.Field(i).Pkg().Path()
				}
			}
		}
		return v
	}
	structOf := func(what string) *types.Struct {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			in.GoPanic("reflect: " + what + " of non-struct type " + TypeString(t))
		}
		return st
	}
	o.Meth["FieldByName"] = func(in *Interp, a []Value) Value {
		st := structOf("FieldByName")
		n, ok := a[0].(string)
		if !ok || HasHole(n) {
			in.Undecided("abstract field name")
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return Tuple{structField(st, i), true}
			}
		}
		return Tuple{structField(nil, 0), false}
	}
	o.Meth["NumField"] = func(in *Interp, a []Value) Value { return int64(structOf("NumField").NumFields()) }
	o.Meth["Field"] = func(in *Interp, a []Value) Value {
		st := structOf("Field")
		return structField(st, in.idx(a[0], st.NumFields()))
	}
	o.Meth["Key"] = func(in *Interp, a []Value) Value {
		m, ok := t.Underlying().(*types.Map)
		if !ok {
			in.GoPanic("reflect: Key of non-map type " + TypeString(t))
		}
		return in.rtype(m.Key())
	}
	o.Meth["PkgPath"] = func(in *Interp, a []Value) Value {
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	}
	rt := types.Type(types.Universe.Lookup("error").Type())
	if p, ok := in.W.Pkgs["reflect"]; ok {
		if ob := p.Pkg.Scope().Lookup("rtype"); ob != nil {
			rt = types.NewPointer(ob.Type())
		}
	}
	return Iface{T: rt, V: o}
}

// DeepEqual of two values of static type T.
func (in *Interp) DeepEqual(T types.Type, a, b Value) bool {
	switch x := a.(type) {
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return false
		}
		if x.T == nil || y.T == nil {
			return x.T == nil && y.T == nil
		}
		if !types.Identical(x.T, y.T) {
			return false
		}
		return in.DeepEqual(x.T, x.V, y.V)
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return false
		}
		if x == nil || y == nil {
			return x == nil && y == nil
		}
		if x == y {
			return true
		}
		pt, _ := T.Underlying().(*types.Pointer)
		var et types.Type
		if pt != nil {
			et = pt.Elem()
		}
		return in.DeepEqual(et, *x, *y)
	case *Slice:
		y, ok := b.(*Slice)
		if !ok {
			return false
		}
		if (x == nil) != (y == nil) {
			return false
		}
		if x == nil {
			return true
		}
		if x.Len != y.Len {
			return false
		}
		for i := 0; i < x.Len; i++ {
			if !in.DeepEqual(x.Elem, x.At(i), y.At(i)) {
				return false
			}
		}
		return true
	case Struct:
		y, ok := b.(Struct)
		if !ok {
			return false
		}
		st, _ := T.Underlying().(*types.Struct)
		for i := range x {
			var ft types.Type
			if st != nil {
				ft = st.Field(i).Type()
			}
			if !in.DeepEqual(ft, x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return in.Truth(in.Equal(T, a, b))
}

// ---- registration ----

type Regexp struct {
	Pattern string // may contain holes
}

func (in *Interp) RegexpObj(pat string) *Obj {
	o := &Obj{Kind: "regexp", State: &Regexp{pat}}
	match := func(in *Interp, v Value) Value {
		if s, ok := v.(string); ok && !HasHole(s) && !HasHole(pat) {
			return regexp.MustCompile(pat).MatchString(s)
		}
		if t, ok := v.(*Term); ok && t.Op == "bytes" {
			v = t.Args[0]
		}
		if s, ok := v.(*Slice); ok {
			v = in.BytesToString(s)
			if s2 := v.(string); !HasHole(s2) && !HasHole(pat) {
				return regexp.MustCompile(pat).MatchString(s2)
			}
		}
		return &Term{Op: "regexp.match", Args: []Value{pat, v}, T: boolT()}
	}
	o.Meth = map[string]func(*Interp, []Value) Value{
		"MatchString": func(in *Interp, a []Value) Value { return match(in, a[0]) },
		"Match":       func(in *Interp, a []Value) Value { return match(in, a[0]) },
		"String":      func(in *Interp, a []Value) Value { return pat },
	}
	for _, n := range []string{"ReplaceAllString", "ReplaceAllLiteralString", "FindString", "FindStringIndex", "FindStringSubmatch", "FindAllString", "Split"} {
		n := n
		o.Meth[n] = func(in *Interp, a []Value) Value {
			if HasHole(pat) || hasAbstract(a) {
				in.Undecided("regexp %s on abstract text", n)
			}
			m := reflect.ValueOf(regexp.MustCompile(pat)).MethodByName(n)
			var rv []reflect.Value
			for i, x := range a {
				e, ok := toReflect(x, m.Type().In(i))
				if !ok {
					in.Undecided("argument of regexp %s", n)
				}
				rv = append(rv, e)
			}
			out := m.Call(rv)
			switch r := out[0].Interface().(type) {
			case string:
				return r
			case []string:
				if r == nil {
					return (*Slice)(nil)
				}
				var vs []Value
				for _, x := range r {
					vs = append(vs, x)
				}
				return MkSlice(types.Typ[types.String], vs...)
			case []int:
				if r == nil {
					return (*Slice)(nil)
				}
				var vs []Value
				for _, x := range r {
					vs = append(vs, int64(x))
				}
				return MkSlice(types.Typ[types.Int], vs...)
			}
			in.Undecided("regexp %s", n)
			return nil
		}
	}
	return o
}

func sideBuf(in *Interp, v Value) *strings.Builder {
	p, ok := v.(Ptr)
	if !ok {
		in.Undecided("buffer of %T", v)
	}
	if p == nil {
		in.GoPanic("nil buffer")
	}
	sb := in.SideBuf[p]
	if sb == nil {
		sb = &strings.Builder{}
		in.SideBuf[p] = sb
	}
	return sb
}

// WriteTo appends s to an io.Writer value.
func (in *Interp) WriteTo(w Value, s string) {
	i, ok := w.(Iface)
	if !ok {
		in.Undecided("write to %T", w)
	}
	if p, ok := i.V.(Ptr); ok && p != nil {
		switch TypeString(i.T) {
		case "*bytes.Buffer", "*strings.Builder":
			sideBuf(in, p).WriteString(s)
			return
		}
	}
	if o, ok := i.V.(*Obj); ok && o != nil {
		if f, ok := o.Meth["WriteString"]; ok {
			f(in, []Value{s})
			return
		}
	}
	in.Undecided("write to a %s", TypeString(i.T))
}

func toBytes(in *Interp, s string) Value {
	if HasHole(s) {
		return &Term{Op: "bytes", Args: []Value{s}}
	}
	var vs []Value
	for i := 0; i < len(s); i++ {
		vs = append(vs, uint64(s[i]))
	}
	return MkSlice(types.Typ[types.Uint8], vs...)
}

func fromBytes(in *Interp, v Value) string {
	switch x := v.(type) {
	case string:
		return x
	case *Slice:
		return in.BytesToString(x).(string)
	case *Term:
		if x.Op == "bytes" {
			return x.Args[0].(string)
		}
		return HoleStr(&Term{Op: "string", Args: []Value{x}})
	}
	in.Undecided("bytes of %T", v)
	return ""
}

func initIntrinsics() {
	I := intrinsics
	I["fmt.Sprintf"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		f, ok := a[0].(string)
		if !ok || HasHole(f) {
			in.Undecided("abstract format string")
		}
		return in.Sprintf(f, variadic(a[1]))
	}
	I["fmt.Sprint"] = func(in *Interp, fn *ssa.Function, a []Value) Value { return in.Sprint(variadic(a[0]), false) }
	I["fmt.Sprintln"] = func(in *Interp, fn *ssa.Function, a []Value) Value { return in.Sprint(variadic(a[0]), true) }
	I["fmt.Errorf"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.ErrObj(in.Sprintf(strings.ReplaceAll(a[0].(string), "%w", "%v"), variadic(a[1])))
	}
	I["errors.New"] = func(in *Interp, fn *ssa.Function, a []Value) Value { return in.ErrObj(a[0].(string)) }
	I["fmt.Fprintf"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		s := in.Sprintf(a[1].(string), variadic(a[2]))
		in.WriteTo(a[0], s)
		return Tuple{int64(len(s)), Iface{}}
	}
	I["fmt.Fprint"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		s := in.Sprint(variadic(a[1]), false)
		in.WriteTo(a[0], s)
		return Tuple{int64(len(s)), Iface{}}
	}
	I["fmt.Fprintln"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		s := in.Sprint(variadic(a[1]), true)
		in.WriteTo(a[0], s)
		return Tuple{int64(len(s)), Iface{}}
	}
	I["io.WriteString"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.WriteTo(a[0], a[1].(string))
		return Tuple{int64(len(a[1].(string))), Iface{}}
	}
	for _, T := range []string{"(*strings.Builder)", "(*bytes.Buffer)"} {
		I[T+".WriteString"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
			sideBuf(in, a[0]).WriteString(a[1].(string))
			return Tuple{int64(len(a[1].(string))), Iface{}}
		}
		I[T+".WriteByte"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
			b, ok := a[1].(uint64)
			if !ok {
				in.Undecided("write of abstract byte")
			}
			sideBuf(in, a[0]).WriteByte(byte(b))
			return Iface{}
		}
		I[T+".WriteRune"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
			r, ok := a[1].(int64)
			if !ok {
				in.Undecided("write of abstract rune")
			}
			sideBuf(in, a[0]).WriteRune(rune(r))
			return Tuple{int64(1), Iface{}}
		}
		I[T+".Write"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
			s := fromBytes(in, a[1])
			sideBuf(in, a[0]).WriteString(s)
			return Tuple{int64(len(s)), Iface{}}
		}
		I[T+".String"] = func(in *Interp, fn *ssa.Function, a []Value) Value { return sideBuf(in, a[0]).String() }
		I[T+".Bytes"] = func(in *Interp, fn *ssa.Function, a []Value) Value { return toBytes(in, sideBuf(in, a[0]).String()) }
		I[T+".Len"] = func(in *Interp, fn *ssa.Function, a []Value) Value { return in.Len(sideBuf(in, a[0]).String()) }
		I[T+".Reset"] = func(in *Interp, fn *ssa.Function, a []Value) Value { sideBuf(in, a[0]).Reset(); return nil }
		I[T+".Grow"] = func(in *Interp, fn *ssa.Function, a []Value) Value { return nil }
	}
	I["strings.Join"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		s, ok := a[0].(*Slice)
		if !ok {
			return in.Opaque("strings.Join", a, fn.Signature.Results())
		}
		var p []string
		for i := 0; s != nil && i < s.Len; i++ {
			p = append(p, s.At(i).(string))
		}
		return strings.Join(p, a[1].(string))
	}
	I["strings.NewReplacer"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		var pairs []string
		plain := true // no replaced text occurs in a rendered number
		if s, ok := a[0].(*Slice); ok && s != nil {
			for i := 0; i < s.Len; i++ {
				x, ok := s.At(i).(string)
				if !ok || HasHole(x) {
					in.Undecided("a replacer of abstract text")
				}
				if i%2 == 0 && (x == "" || strings.Trim(x, "0123456789+-.einfaINFA") == "") {
					plain = false
				}
				pairs = append(pairs, x)
			}
		}
		if len(pairs)%2 == 1 {
			in.GoPanic("strings.NewReplacer: odd argument count")
		}
		r := strings.NewReplacer(pairs...)
		return &Obj{Kind: "replacer", State: r, Meth: map[string]func(*Interp, []Value) Value{
			"Replace": func(in *Interp, a []Value) Value {
				s, ok := a[0].(string)
				if !ok {
					in.Undecided("replacement in abstract text")
				}
				var sb strings.Builder
				for _, g := range Segs(s) {
					if g.Hole == nil {
						sb.WriteString(r.Replace(g.Lit))
						continue
					}
					num := false
					if strings.HasPrefix(g.Hole.Op, "fmt:") && len(g.Hole.Args) == 1 {
						if t, ok := g.Hole.Args[0].(*Term); ok && t.T != nil {
							b, ok := t.T.Underlying().(*types.Basic)
							num = ok && b.Info()&types.IsNumeric != 0
						}
					}
					switch {
					case num && plain || g.Hole.Op == "escaped":
						sb.WriteString(HoleStr(g.Hole))
					case strings.HasPrefix(r.Replace("\""), "\\") && strings.HasPrefix(r.Replace("\\"), "\\") && strings.HasPrefix(r.Replace("\n"), "\\"):
						// text made safe for the inside of a literal
						sb.WriteString(HoleStr(&Term{Op: "escaped", Args: []Value{HoleStr(g.Hole)}, T: types.Typ[types.String]}))
					default:
						in.Undecided("replacement in abstract text")
					}
				}
				return sb.String()
			},
		}}
	}
	I["strconv.Quote"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.FormatVal("", 'q', Iface{types.Typ[types.String], a[0]}, 0)
	}
	I["encoding/json.Marshal"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		if i, ok := a[0].(Iface); ok && i.T != nil {
			if b, ok := i.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				if s, ok := i.V.(string); ok && !HasHole(s) {
					out, err := json.Marshal(s)
					if err == nil {
						return Tuple{toBytes(in, string(out)), Iface{}}
					}
				}
				// a JSON string is quoted much like a Go one
				return Tuple{toBytes(in, in.FormatVal("", 'q', i, 0)), Iface{}}
			}
		}
		return in.Opaque("json.Marshal", a, fn.Signature.Results())
	}
	num := func(in *Interp, T types.Type, v Value) Value {
		return in.FormatVal("", 'v', Iface{T, v}, 0)
	}
	I["strconv.Itoa"] = func(in *Interp, fn *ssa.Function, a []Value) Value { return num(in, types.Typ[types.Int], a[0]) }
	I["strconv.FormatBool"] = func(in *Interp, fn *ssa.Function, a []Value) Value { return num(in, types.Typ[types.Bool], a[0]) }
	I["strconv.FormatInt"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		if b, ok := a[1].(int64); ok && b != 10 {
			if x, ok := a[0].(int64); ok {
				return strconv.FormatInt(x, int(b))
			}
			return in.holeFmt("base"+fmt.Sprint(b), a[0])
		}
		return num(in, types.Typ[types.Int64], a[0])
	}
	I["strconv.FormatUint"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		if b, ok := a[1].(int64); ok && b != 10 {
			if x, ok := a[0].(uint64); ok {
				return strconv.FormatUint(x, int(b))
			}
			return in.holeFmt("base"+fmt.Sprint(b), a[0])
		}
		return num(in, types.Typ[types.Uint64], a[0])
	}
	I["strconv.FormatFloat"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		f, fok := a[1].(uint64)
		if i, ok := a[1].(int64); ok {
			f, fok = uint64(i), true
		}
		prec, pok := a[2].(int64)
		bits, bok := a[3].(int64)
		if x, ok := a[0].(float64); ok && fok && pok && bok && (bits == 32 || bits == 64) {
			return strconv.FormatFloat(x, byte(f), int(prec), int(bits))
		}
		v := a[0]
		t, isT := v.(*Term)
		for isT && strings.HasPrefix(t.Op, "conv:float") && len(t.Args) == 1 {
			u, ok := t.Args[0].(*Term)
			if !ok || !isFloat32(u.T) {
				break
			}
			v, t = u, u
		}
		if fok && pok && bok && prec == -1 && isT && (bits == 64 || isFloat32(t.T)) && (f == 'e' || f == 'g') {
			return in.holeFmt(string(rune(f)), v)
		}
		return in.holeFmt(fmt.Sprintf("float%v,%v,%v", a[1], a[2], a[3]), v)
	}
	I["errors.Is"] = func(in *Interp, fn *ssa.Function, a []Value) Value { return in.Equal(nil, a[0], a[1]) }

	// reflect
	I["reflect.ValueOf"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		i, ok := a[0].(Iface)
		if !ok {
			if t, isT := a[0].(*Term); isT {
				return RVal{T: t.T, V: t, Valid: true}
			}
			in.Undecided("reflect.ValueOf %T", a[0])
		}
		if i.T == nil {
			return RVal{}
		}
		return RVal{T: i.T, V: i.V, Valid: true}
	}
	I["reflect.TypeOf"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		i := in.ifaceArg(a[0])
		if i.T == nil {
			return Iface{}
		}
		return in.rtype(i.T)
	}
	I["reflect.DeepEqual"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.DeepEqual(nil, a[0], a[1])
	}
	I["reflect.Indirect"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		r := rv(a[0])
		if r.Valid && kindOf(r.T) == reflect.Ptr {
			return rvElem(in, r)
		}
		return r
	}
	R := func(m string, f func(in *Interp, r RVal, a []Value) Value) {
		I["(reflect.Value)."+m] = func(in *Interp, fn *ssa.Function, a []Value) Value { return f(in, rv(a[0]), a[1:]) }
	}
	R("Kind", func(in *Interp, r RVal, a []Value) Value {
		if !r.Valid {
			return uint64(0)
		}
		return uint64(kindOf(r.T))
	})
	R("IsValid", func(in *Interp, r RVal, a []Value) Value { return r.Valid })
	R("IsNil", func(in *Interp, r RVal, a []Value) Value {
		if !r.Valid {
			in.GoPanic("reflect: IsNil on zero Value")
		}
		switch kindOf(r.T) {
		case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Func, reflect.Chan, reflect.Interface:
		default:
			in.GoPanic("reflect: IsNil on " + r.T.String())
		}
		b, ok := in.isNilVal(r.V)
		if !ok {
			in.GoPanic("reflect: IsNil on " + r.T.String())
		}
		return b
	})
	R("IsZero", func(in *Interp, r RVal, a []Value) Value {
		if !r.Valid {
			in.GoPanic("reflect: IsZero on zero Value")
		}
		if b, ok := in.isNilVal(r.V); ok {
			return b
		}
		return in.Truth(in.Equal(r.T, r.V, Zero(r.T)))
	})
	R("Elem", func(in *Interp, r RVal, a []Value) Value { return rvElem(in, r) })
	R("Interface", func(in *Interp, r RVal, a []Value) Value {
		if !r.Valid {
			in.GoPanic("reflect: Interface on zero Value")
		}
		return in.asIface(r.T, r.V)
	})
	R("CanInterface", func(in *Interp, r RVal, a []Value) Value { return r.Valid })
	R("Type", func(in *Interp, r RVal, a []Value) Value {
		if !r.Valid {
			in.GoPanic("reflect: Type on zero Value")
		}
		return in.rtype(r.T)
	})
	R("Len", func(in *Interp, r RVal, a []Value) Value { return in.Len(r.V) })
	R("Index", func(in *Interp, r RVal, a []Value) Value {
		s, ok := r.V.(*Slice)
		if !ok {
			in.Undecided("reflect Index of %T", r.V)
		}
		n := 0
		if s != nil {
			n = s.Len
		}
		return RVal{T: r.T.Underlying().(*types.Slice).Elem(), V: s.At(in.idx(a[0], n)), Valid: true}
	})
	R("NumField", func(in *Interp, r RVal, a []Value) Value {
		return int64(r.T.Underlying().(*types.Struct).NumFields())
	})
	R("Field", func(in *Interp, r RVal, a []Value) Value {
		st := r.T.Underlying().(*types.Struct)
		i := in.idx(a[0], st.NumFields())
		return RVal{T: st.Field(i).Type(), V: r.V.(Struct)[i], Valid: true}
	})
	R("FieldByName", func(in *Interp, r RVal, a []Value) Value {
		if !r.Valid {
			in.GoPanic("reflect: FieldByName on zero Value")
		}
		st, ok := r.T.Underlying().(*types.Struct)
		if !ok {
			in.GoPanic("reflect: FieldByName on " + r.T.String())
		}
		n, ok := a[0].(string)
		if !ok || HasHole(n) {
			in.Undecided("abstract field name")
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return RVal{T: st.Field(i).Type(), V: r.V.(Struct)[i], Valid: true}
			}
		}
		return RVal{}
	})
	R("MethodByName", func(in *Interp, r RVal, a []Value) Value {
		n := a[0].(string)
		f := in.FindMethod(r.T, n, nil)
		if f == nil {
			return RVal{}
		}
		nf := &NativeFn{Name: n, F: func(in *Interp, args []Value) Value {
			return in.CallStatic(f, append([]Value{r.V}, args...), nil)
		}}
		return RVal{T: types.NewSignatureType(nil, nil, nil, f.Signature.Params(), f.Signature.Results(), f.Signature.Variadic()), V: nf, Valid: true}
	})
	R("Call", func(in *Interp, r RVal, a []Value) Value {
		var args []Value
		for _, x := range variadic(a[0]) {
			args = append(args, rv(x).V)
		}
		res := in.Call(r.V, args)
		sig := r.T.Underlying().(*types.Signature)
		vt := fnResultElem(in)
		switch sig.Results().Len() {
		case 0:
			return (*Slice)(nil)
		case 1:
			return MkSlice(vt, RVal{T: sig.Results().At(0).Type(), V: res, Valid: true})
		}
		var out []Value
		for i, x := range res.(Tuple) {
			out = append(out, RVal{T: sig.Results().At(i).Type(), V: x, Valid: true})
		}
		return MkSlice(vt, out...)
	})
	R("String", func(in *Interp, r RVal, a []Value) Value {
		if s, ok := r.V.(string); ok {
			return s
		}
		return "<" + TypeString(r.T) + " Value>"
	})
	for _, n := range []string{"Int", "Uint", "Float", "Bool"} {
		R(n, func(in *Interp, r RVal, a []Value) Value { return r.V })
	}
	R("Bytes", func(in *Interp, r RVal, a []Value) Value { return r.V })

	// regexp
	I["regexp.Compile"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		p := a[0].(string)
		if !HasHole(p) {
			if _, err := regexp.Compile(p); err != nil {
				return Tuple{Ptr(nil), in.ErrObj(err.Error())}
			}
			return Tuple{in.RegexpObj(p), Iface{}}
		}
		t := &Term{Op: "regexp.valid", Args: []Value{p}, T: boolT()}
		if in.Bool(t) {
			return Tuple{in.RegexpObj(p), Iface{}}
		}
		return Tuple{Ptr(nil), in.ErrObj("invalid regexp")}
	}
	I["regexp.MustCompile"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		p := a[0].(string)
		if !HasHole(p) {
			if _, err := regexp.Compile(p); err != nil {
				in.GoPanic("regexp: Compile(" + strconv.Quote(p) + "): " + err.Error())
			}
		}
		return in.RegexpObj(p)
	}
	I["regexp.MatchString"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		r := in.RegexpObj(a[0].(string))
		return Tuple{r.Meth["MatchString"](in, a[1:]), Iface{}}
	}
	I["regexp.QuoteMeta"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		if s := a[0].(string); !HasHole(s) {
			return regexp.QuoteMeta(s)
		}
		return HoleStr(&Term{Op: "regexp.QuoteMeta", Args: a})
	}
	I["regexp/syntax.Parse"] = I["regexp.Compile"]

	// time
	instant := func(in *Interp, v Value) Value { return v }
	_ = instant
	I["time.Now"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.Events = append(in.Events, Event{Kind: "timenow", Pos: in.curPos})
		return &Term{Op: "now", T: fn.Signature.Results().At(0).Type()}
	}
	I["time.Unix"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		T := fn.Signature.Results().At(0).Type()
		if x := pairLeaf(a[0], a[1]); x != "" {
			return &Term{Op: x, T: T}
		}
		return in.instant(a[0], a[1], T)
	}
	I["(time.Time).Sub"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		return &Term{Op: "time.sub", Args: []Value{a[0], a[1]}, T: fn.Signature.Results().At(0).Type()}
	}
	I["time.Since"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		return &Term{Op: "time.sub", Args: []Value{&Term{Op: "now"}, a[0]}, T: fn.Signature.Results().At(0).Type()}
	}
	I["time.Until"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		return &Term{Op: "time.sub", Args: []Value{a[0], &Term{Op: "now"}}, T: fn.Signature.Results().At(0).Type()}
	}
	I["(time.Time).Add"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		return &Term{Op: "time.add", Args: []Value{a[0], a[1]}, T: fn.Signature.Results().At(0).Type()}
	}
	I["(time.Time).Before"] = func(in *Interp, fn *ssa.Function, a []Value) Value { return in.Cmp(nil, a[0], a[1]) < 0 }
	I["(time.Time).After"] = func(in *Interp, fn *ssa.Function, a []Value) Value { return in.Cmp(nil, a[0], a[1]) > 0 }
	I["(time.Time).Equal"] = func(in *Interp, fn *ssa.Function, a []Value) Value { return in.Cmp(nil, a[0], a[1]) == 0 }
	I["(time.Time).Compare"] = func(in *Interp, fn *ssa.Function, a []Value) Value { return int64(in.Cmp(nil, a[0], a[1])) }
	same := func(in *Interp, fn *ssa.Function, a []Value) Value { return a[0] }
	I["(time.Time).UTC"] = same
	I["(time.Time).Local"] = same
	I["(time.Time).UnixNano"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		if t, ok := a[0].(*Term); ok {
			// order-preserving view of the instant
			k := &Term{Op: "unixnano", Args: []Value{t}, T: types.Typ[types.Int64]}
			if r, ok := in.Order[t.Key()]; ok {
				in.Order[k.Key()] = r
			}
			return k
		}
		in.Undecided("UnixNano of %T", a[0])
		return nil
	}
	dur := func(in *Interp, v Value) Value {
		s, ok := v.(Ptr)
		if ok && s == nil {
			return Struct{}
		}
		if !ok {
			return v
		}
		return *s
	}
	secNanos := func(in *Interp, v Value) (Value, Value) {
		st, ok := dur(in, v).(Struct)
		if !ok || len(st) == 0 {
			return int64(0), int64(0)
		}
		return st[len(st)-2], st[len(st)-1]
	}
	const dpb = "(*google.golang.org/protobuf/types/known/durationpb.Duration)"
	const tpb = "(*google.golang.org/protobuf/types/known/timestamppb.Timestamp)"
	I[dpb+".AsDuration"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		T := fn.Signature.Results().At(0).Type()
		if t, ok := a[0].(*Term); ok {
			return &Term{Op: "asduration", Args: []Value{t}, T: T}
		}
		s, n := secNanos(in, a[0])
		if x := pairLeaf(s, n); x != "" {
			return &Term{Op: x, T: T}
		}
		if si, ok := s.(int64); ok {
			if ni, ok := n.(int64); ok {
				return int64((&durationpb.Duration{Seconds: si, Nanos: int32(ni)}).AsDuration())
			}
		}
		return &Term{Op: "asduration", Args: []Value{s, n}, T: T}
	}
	I[tpb+".AsTime"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		T := fn.Signature.Results().At(0).Type()
		if t, ok := a[0].(*Term); ok {
			return &Term{Op: "astime", Args: []Value{t}, T: T}
		}
		s, n := secNanos(in, a[0])
		if x := pairLeaf(s, n); x != "" {
			return &Term{Op: x, T: T}
		}
		return in.instant(s, n, T)
	}
	valid := func(kind string) intrinsic {
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			var key string
			if p, ok := a[0].(Ptr); ok && p == nil {
				return in.ErrObj("invalid nil " + kind)
			}
			if t, ok := a[0].(*Term); ok {
				key = t.Key()
			} else {
				s, n := secNanos(in, a[0])
				key = pairLeaf(s, n)
				si, ok1 := s.(int64)
				ni, ok2 := n.(int64)
				if ok1 && ok2 {
					ok := (&durationpb.Duration{Seconds: si, Nanos: int32(ni)}).IsValid()
					if kind == "timestamp" {
						ok = (&timestamppb.Timestamp{Seconds: si, Nanos: int32(ni)}).IsValid()
					}
					if ok {
						return Iface{}
					}
					return in.ErrObj("invalid " + kind)
				}
				if key == "" {
					key = KeyOf(s) + ":" + KeyOf(n)
				}
			}
			t := &Term{Op: "valid", Args: []Value{raw(key)}, T: boolT()}
			if in.Bool(t) {
				return Iface{}
			}
			return in.ErrObj("invalid " + kind + " " + key)
		}
	}
	I[dpb+".CheckValid"] = valid("duration")
	I[tpb+".CheckValid"] = valid("timestamp")
	isvalid := func(kind string) intrinsic {
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			r := valid(kind)(in, fn, a)
			return r.(Iface).T == nil
		}
	}
	I[dpb+".IsValid"] = isvalid("duration")
	I[tpb+".IsValid"] = isvalid("timestamp")
	for _, n := range []string{"Int64", "Int32", "Uint32", "Uint64", "String", "Bool", "Float32", "Float64"} {
		I["google.golang.org/protobuf/proto."+n] = func(in *Interp, fn *ssa.Function, a []Value) Value { return NewPtr(a[0]) }
	}
	I["(*google.golang.org/protobuf/internal/impl.Export).MessageStringOf"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		return HoleStr(&Term{Op: "prototext", Args: []Value{freeze(a[1])}, NonZero: true})
	}
	I["sort.Strings"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		s := a[0].(*Slice)
		if s == nil {
			return nil
		}
		var ss []string
		for i := 0; i < s.Len; i++ {
			ss = append(ss, s.At(i).(string))
		}
		sort.Strings(ss)
		for i := range ss {
			s.Set(i, ss[i])
		}
		return nil
	}
	I["sort.Slice"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		s, ok := a[0].(Iface).V.(*Slice)
		if !ok || s == nil {
			return nil
		}
		// insertion sort through the comparison function
		for i := 1; i < s.Len; i++ {
			for j := i; j > 0; j-- {
				r := in.Call(a[1], []Value{int64(j), int64(j - 1)})
				if !in.Truth(r) {
					break
				}
				x, y := s.At(j), s.At(j-1)
				s.Set(j, y)
				s.Set(j-1, x)
			}
		}
		return nil
	}
	I["sort.SliceStable"] = I["sort.Slice"]
	I["sort.Ints"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		s, _ := a[0].(*Slice)
		for i := 1; s != nil && i < s.Len; i++ {
			for j := i; j > 0; j-- {
				x, ok1 := s.At(j).(int64)
				y, ok2 := s.At(j - 1).(int64)
				if !ok1 || !ok2 {
					in.Undecided("sorting of unknown numbers")
				}
				if x >= y {
					break
				}
				s.Set(j, y)
				s.Set(j-1, x)
			}
		}
		return nil
	}
	// insertion sort through the methods of the value
	I["sort.Sort"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		x := a[0].(Iface)
		switch types.TypeString(x.T, nil) {
		case "sort.StringSlice":
			return I["sort.Strings"](in, fn, []Value{x.V})
		case "sort.IntSlice":
			return I["sort.Ints"](in, fn, []Value{x.V})
		}
		call := func(name string, args ...Value) Value {
			m := in.FindMethod(x.T, name, nil)
			if m == nil {
				in.Undecided("method %s of %s", name, x.T)
			}
			return in.CallStatic(m, append([]Value{x.V}, args...), nil)
		}
		n, ok := call("Len").(int64)
		if !ok {
			in.Undecided("length of %s", x.T)
		}
		for i := int64(1); i < n; i++ {
			for j := i; j > 0; j-- {
				if !in.Truth(call("Less", j, j-1)) {
					break
				}
				call("Swap", j, j-1)
			}
		}
		return nil
	}
	I["sort.Stable"] = I["sort.Sort"]
	// string functions taking a predicate or a mapping, on known text
	pred := func(in *Interp, f Value) func(rune) bool {
		return func(r rune) bool { return in.Truth(in.Call(f, []Value{int64(r)})) }
	}
	known := func(in *Interp, fn *ssa.Function, v Value) string {
		s, ok := v.(string)
		if !ok || HasHole(s) {
			in.Undecided("%s of unknown text", fn.Name())
		}
		return s
	}
	I["strings.Map"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		return strings.Map(func(r rune) rune {
			n, ok := in.Call(a[0], []Value{int64(r)}).(int64)
			if !ok {
				in.Undecided("strings.Map to an unknown character")
			}
			return rune(n)
		}, known(in, fn, a[1]))
	}
	for n, f := range map[string]func(string, func(rune) bool) string{"TrimFunc": strings.TrimFunc, "TrimLeftFunc": strings.TrimLeftFunc, "TrimRightFunc": strings.TrimRightFunc} {
		f := f
		I["strings."+n] = func(in *Interp, fn *ssa.Function, a []Value) Value {
			return f(known(in, fn, a[0]), pred(in, a[1]))
		}
	}
	for n, f := range map[string]func(string, func(rune) bool) int{"IndexFunc": strings.IndexFunc, "LastIndexFunc": strings.LastIndexFunc} {
		f := f
		I["strings."+n] = func(in *Interp, fn *ssa.Function, a []Value) Value {
			return int64(f(known(in, fn, a[0]), pred(in, a[1])))
		}
	}
	I["strings.ContainsFunc"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		return strings.IndexFunc(known(in, fn, a[0]), pred(in, a[1])) >= 0
	}
	I["strings.FieldsFunc"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		var out []Value
		for _, p := range strings.FieldsFunc(known(in, fn, a[0]), pred(in, a[1])) {
			out = append(out, p)
		}
		return MkSlice(types.Typ[types.String], out...)
	}
	_ = errors.New
}

func fnResultElem(in *Interp) types.Type {
	if p, ok := in.W.Pkgs["reflect"]; ok {
		if o := p.Pkg.Scope().Lookup("Value"); o != nil {
			return o.Type()
		}
	}
	return types.Typ[types.Int]
}

func rvElem(in *Interp, r RVal) Value {
	if !r.Valid {
		in.GoPanic("reflect: Elem on zero Value")
	}
	switch u := r.T.Underlying().(type) {
	case *types.Pointer:
		switch p := r.V.(type) {
		case Ptr:
			if p == nil {
				return RVal{}
			}
			return RVal{T: u.Elem(), V: *p, Valid: true}
		case *Term:
			return RVal{T: u.Elem(), V: in.OpaqueOf(&Term{Op: "*", Args: []Value{p}}, u.Elem()), Valid: true}
		}
		in.Undecided("reflect Elem of %T", r.V)
	case *types.Interface:
		i := r.V.(Iface)
		if i.T == nil {
			return RVal{}
		}
		return RVal{T: i.T, V: i.V, Valid: true}
	}
	in.GoPanic("reflect: Elem of " + r.T.String())
	return nil
}

// instant is the time at a number of seconds and nanoseconds; concrete ones
// have a position in the order.
func (in *Interp) instant(s, n Value, T types.Type) Value {
	t := &Term{Op: "time.Unix", Args: []Value{s, n}, T: T}
	a, ok1 := s.(int64)
	b, ok2 := n.(int64)
	if ok1 && ok2 {
		a += b / 1e9
		b %= 1e9
		if b < 0 {
			a, b = a-1, b+1e9
		}
		t.Args = []Value{a, b}
		in.Order[t.Key()] = float64(a)*1e9 + float64(b)
	}
	return t
}

// pairLeaf recognises (sec(X), nanos(X)).
func pairLeaf(s, n Value) string {
	a, ok1 := s.(*Term)
	b, ok2 := n.(*Term)
	if !ok1 || !ok2 {
		return ""
	}
	if strings.HasPrefix(a.Op, "sec:") && strings.HasPrefix(b.Op, "nanos:") && a.Op[4:] == b.Op[6:] {
		return a.Op[4:]
	}
	return ""
}

// ListIntrinsics names the modelled library functions (for reports).
func ListIntrinsics() []string {
	var out []string
	for k := range intrinsics {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func isFloat32(T types.Type) bool {
	if T == nil {
		return false
	}
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float32
}
