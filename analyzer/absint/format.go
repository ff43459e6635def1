package absint

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// TypeString renders a type the way reflect / %T does.
func TypeString(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	s = strings.ReplaceAll(s, "interface{}", "interface {}")
	if s == "any" {
		s = "interface {}"
	}
	s = replaceWord(s, "byte", "uint8")
	s = replaceWord(s, "rune", "int32")
	return s
}

func replaceWord(s, w, r string) string {
	var sb strings.Builder
	for i := 0; i < len(s); {
		j := i
		for j < len(s) && (s[j] == '_' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= '0' && s[j] <= '9' || s[j] == '.') {
			j++
		}
		if j == i {
			sb.WriteByte(s[i])
			i++
			continue
		}
		if s[i:j] == w {
			sb.WriteString(r)
		} else {
			sb.WriteString(s[i:j])
		}
		i = j
	}
	return sb.String()
}

// native converts a concrete basic value to the Go type of its static type.
func native(T types.Type, v Value) (interface{}, bool) {
	b, ok := T.Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	switch x := v.(type) {
	case bool:
		return x, true
	case string:
		return x, true
	case float64:
		if b.Kind() == types.Float32 {
			return float32(x), true
		}
		return x, true
	case int64:
		switch b.Kind() {
		case types.Int8:
			return int8(x), true
		case types.Int16:
			return int16(x), true
		case types.Int32, types.UntypedRune:
			return int32(x), true
		case types.Int64:
			return x, true
		}
		return int(x), true
	case uint64:
		switch b.Kind() {
		case types.Uint8:
			return uint8(x), true
		case types.Uint16:
			return uint16(x), true
		case types.Uint32:
			return uint32(x), true
		case types.Uint64:
			return x, true
		}
		return uint(x), true
	}
	return nil, false
}

func (in *Interp) holeFmt(spec string, v Value) string {
	return HoleStr(&Term{Op: "fmt:" + spec, Args: []Value{v}, T: types.Typ[types.String], NonZero: true})
}

// stringer calls Error/String if the type has it; ok=false otherwise.
func (in *Interp) stringer(i Iface) (string, bool) {
	switch v := i.V.(type) {
	case Host:
		for _, m := range []string{"Error", "String"} {
			if v.RV.MethodByName(m).IsValid() && v.RV.Type().Kind().String() == "ptr" {
				return fmt.Sprint(v.RV.Interface()), true
			}
		}
		return "", false
	case *Obj:
		if v == nil {
			return "", false
		}
		for _, m := range []string{"Error", "String"} {
			if f, ok := v.Meth[m]; ok {
				if s, ok := f(in, nil).(string); ok {
					return s, true
				}
			}
		}
		return "", false
	}
	if i.T == nil {
		return "", false
	}
	if t, ok := i.V.(*Term); ok {
		if hasMethod(i.T, "Error") || hasMethod(i.T, "String") {
			return HoleStr(&Term{Op: "String", Args: []Value{t}, NonZero: true}), true
		}
		return "", false
	}
	if hasMethod(i.T, "ProtoReflect") {
		if p, ok := i.V.(Ptr); ok && p != nil {
			in.Events = append(in.Events, Event{Kind: "prototext", Pos: in.curPos})
			return HoleStr(&Term{Op: "prototext", Args: []Value{freeze(p)}, NonZero: true}), true
		}
		return "<nil>", true
	}
	for _, m := range []string{"Error", "String"} {
		if hasMethod(i.T, m) {
			fn := in.FindMethod(i.T, m, nil)
			if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 {
				continue
			}
			if p, ok := i.V.(Ptr); ok && p == nil {
				return "<nil>", true
			}
			r := in.CallStatic(fn, []Value{i.V}, nil)
			if s, ok := r.(string); ok {
				return s, true
			}
		}
	}
	return "", false
}

func hasMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name && ms.At(i).Obj().Exported() {
			return true
		}
	}
	return false
}

// FormatVal renders one operand with a verb.
func (in *Interp) FormatVal(flags string, verb byte, i Iface, depth int) string {
	spec := "%" + flags + string(verb)
	if verb == 'T' {
		if i.T == nil {
			return "<nil>"
		}
		return TypeString(i.T)
	}
	if i.T == nil {
		if t, ok := i.V.(*Term); ok {
			return in.holeFmt(string(verb), t)
		}
		return fmt.Sprintf(spec, nil)
	}
	plus := strings.ContainsAny(flags, "#")
	if !plus && (verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X') {
		if s, ok := in.stringer(i); ok {
			return in.FormatVal(flags, verb, Iface{types.Typ[types.String], s}, depth+1)
		}
	}
	switch v := i.V.(type) {
	case string:
		if HasHole(v) {
			switch {
			case verb == 'q':
				return HoleStr(&Term{Op: "quote", Args: []Value{v}, T: types.Typ[types.String], NonZero: true})
			case (verb == 's' || verb == 'v') && flags == "":
				return v
			}
			return in.holeFmt(flags+string(verb), v)
		}
		return fmt.Sprintf(spec, v)
	case *Term:
		v2 := v
		if b, ok := i.T.Underlying().(*types.Basic); ok {
			if verb == 'd' && flags == "" && b.Info()&types.IsInteger != 0 {
				verb = 'v'
			}
			return in.holeFmt(flags+string(verb), v2)
		}
		if _, ok := i.T.Underlying().(*types.Pointer); ok && verb == 'v' {
			return in.holeFmt("ptr", v2)
		}
		return in.holeFmt(flags+string(verb), v2)
	case bool, int64, uint64, float64:
		n, ok := native(i.T, v)
		if !ok {
			in.Undecided("cannot format %s", i.T)
		}
		return fmt.Sprintf(spec, n)
	case *Slice:
		st, ok := i.T.Underlying().(*types.Slice)
		if !ok {
			break
		}
		if b, ok := st.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && !isAbstract(v, 0) {
			var bs []byte
			if v != nil {
				bs = []byte{}
				for k := 0; k < v.Len; k++ {
					bs = append(bs, byte(v.At(k).(uint64)))
				}
			}
			return fmt.Sprintf(spec, bs)
		} else if ok && b.Kind() == types.Uint8 && verb != 'v' && verb != 'd' {
			return in.holeFmt(flags+string(verb), freeze(v))
		}
		if flags == "#" && verb == 'v' {
			if v == nil {
				return TypeString(i.T) + "(nil)"
			}
			var p []string
			for k := 0; k < v.Len; k++ {
				p = append(p, in.FormatVal(flags, verb, in.asIface(st.Elem(), v.At(k)), depth+1))
			}
			return TypeString(i.T) + "{" + strings.Join(p, ", ") + "}"
		}
		var p []string
		for k := 0; v != nil && k < v.Len; k++ {
			p = append(p, in.FormatVal(flags, verb, in.asIface(st.Elem(), v.At(k)), depth+1))
		}
		return "[" + strings.Join(p, " ") + "]"
	case Ptr:
		if v == nil {
			return fmt.Sprintf(spec, nil)
		}
		if depth == 0 {
			if s, ok := (*v).(Struct); ok {
				return "&" + in.FormatVal(flags, verb, Iface{i.T.Underlying().(*types.Pointer).Elem(), s}, depth+1)
			}
		}
		in.Events = append(in.Events, Event{Kind: "addrprint", Pos: in.curPos})
		return in.holeFmt("addr", HoleStr(&Term{Op: "address"}))
	case Struct:
		st := i.T.Underlying().(*types.Struct)
		var p []string
		for k := range v {
			p = append(p, in.FormatVal(flags, verb, in.asIface(st.Field(k).Type(), v[k]), depth+1))
		}
		return "{" + strings.Join(p, " ") + "}"
	case *Map:
		mt := i.T.Underlying().(*types.Map)
		var p []string
		if v != nil {
			for _, e := range v.Ent {
				p = append(p, in.FormatVal(flags, verb, in.asIface(mt.Key(), e.K), depth+1)+":"+in.FormatVal(flags, verb, in.asIface(mt.Elem(), e.V), depth+1))
			}
		}
		return "map[" + strings.Join(p, " ") + "]"
	case Host:
		s, ok := in.stringer(i)
		if ok {
			return s
		}
		return fmt.Sprintf("%v", v.RV.Interface())
	case Array:
		at := i.T.Underlying().(*types.Array)
		var p []string
		for k := range v {
			p = append(p, in.FormatVal(flags, verb, in.asIface(at.Elem(), v[k]), depth+1))
		}
		return "[" + strings.Join(p, " ") + "]"
	case *Obj:
		if v == nil {
			return "<nil>"
		}
		return HoleStr(&Term{Op: "obj:" + v.Kind, NonZero: true})
	case *ssa.Function, *Closure, *NativeFn:
		return HoleStr(&Term{Op: "funcaddr", NonZero: true})
	}
	in.Undecided("cannot format %T as %s", i.V, spec)
	return ""
}

func (in *Interp) asIface(T types.Type, v Value) Iface {
	if types.IsInterface(T) {
		if i, ok := v.(Iface); ok {
			return i
		}
		if t, ok := v.(*Term); ok {
			return Iface{T: nil, V: t}
		}
	}
	return Iface{T, v}
}

func (in *Interp) ifaceArg(v Value) Iface {
	switch x := v.(type) {
	case Iface:
		return x
	case *Term:
		return Iface{T: x.T, V: x}
	}
	return Iface{}
}

// Sprintf formats with abstract operands.
func (in *Interp) Sprintf(format string, args []Value) string {
	var sb strings.Builder
	n := 0
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' {
			sb.WriteByte(c)
			continue
		}
		i++
		st := i
		for i < len(format) && strings.IndexByte("+-# 0123456789.*[]", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			sb.WriteString("%!(NOVERB)")
			break
		}
		flags := format[st:i]
		verb := format[i]
		if verb == '%' {
			sb.WriteByte('%')
			continue
		}
		if strings.ContainsAny(flags, "*[]") {
			in.Undecided("format flags %q", flags)
		}
		if n >= len(args) {
			sb.WriteString("%!" + string(verb) + "(MISSING)")
			in.Events = append(in.Events, Event{Kind: "fmtmissing", Pos: in.curPos})
			continue
		}
		sb.WriteString(in.FormatVal(flags, verb, in.ifaceArg(args[n]), 0))
		n++
	}
	if n < len(args) {
		sb.WriteString("%!(EXTRA)")
		in.Events = append(in.Events, Event{Kind: "fmtextra", Pos: in.curPos})
	}
	return sb.String()
}

func isStr(i Iface) bool {
	if i.T == nil {
		return false
	}
	b, ok := i.T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (in *Interp) Sprint(args []Value, ln bool) string {
	var sb strings.Builder
	for k, a := range args {
		i := in.ifaceArg(a)
		if k > 0 && (ln || (!isStr(i) && !isStr(in.ifaceArg(args[k-1])))) {
			sb.WriteByte(' ')
		}
		sb.WriteString(in.FormatVal("", 'v', i, 0))
	}
	if ln {
		sb.WriteByte('\n')
	}
	return sb.String()
}

// variadic arguments as a list of interface values
func variadic(v Value) []Value {
	s, ok := v.(*Slice)
	if !ok || s == nil {
		return nil
	}
	out := make([]Value, s.Len)
	for i := range out {
		out[i] = s.At(i)
	}
	return out
}
