package golang

import (
	"fmt"
	"go/token"
	"go/types"
	"net"
	"net/mail"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/absint"
	"verif/analyzer/scen"
	"verif/analyzer/spec"
)

// Err is one reported validation error.
type Err struct {
	Type   string
	Field  string
	Reason string
	Cause  string
	Key    bool
	Name   string // ErrorName()
	Text   string // Error()
}

func (e Err) String() string {
	s := fmt.Sprintf("%s{field:%q reason:%q", e.Type, absint.Show(e.Field), absint.Show(e.Reason))
	if e.Cause != "" {
		s += " cause:" + absint.Show(e.Cause)
	}
	if e.Key {
		s += " key"
	}
	return s + "}"
}

// Result of abstractly evaluating a validation method.
type Result struct {
	Errs    []Err
	Wrapped bool // the error is a list type
	Type    string
	Text    string // Error() of the list
	Panic   string
	Undec   string
}

func (r *Result) Bad() string {
	if r.Panic != "" {
		return "panics: " + r.Panic
	}
	if r.Undec != "" {
		return "could not be decided: " + r.Undec
	}
	return ""
}

type opaqueMsg struct {
	sym string
	fq  string
}

// Evaluator runs the abstract interpreter over the emitted methods.
type Evaluator struct {
	U   *Unit
	Env *spec.Env
	In  *absint.Interp
	ptr map[absint.Ptr]opaqueMsg
	// Texts has the texts of errors evaluated as well.
	Texts bool
}

// GoTypeName is the Go name of message fq (".pkg.A.B" -> A_B).
func GoTypeName(b *scen.Built, fq string) string {
	s := strings.TrimPrefix(fq, ".")
	if p := b.Decl[fq].Package; p != "" {
		s = strings.TrimPrefix(s, p+".")
	}
	return CamelCase(s)
}

func (u *Unit) NewEval(env *spec.Env, o *absint.Oracle) *Evaluator {
	e := &Evaluator{U: u, Env: env, ptr: map[absint.Ptr]opaqueMsg{}}
	in := absint.New(u.W.World, o)
	in.Extra = u.Prog
	in.ConstHook = u.Lits.ConstHook
	in.Order = GoOrder(env)
	in.Small = scen.SmallSyms
	in.FactFn = e.fact
	in.Intercept = e.intercept
	in.Max = 400000
	e.In = in
	return e
}

// GoOrder names the ranked quantities as the interpreter does.
func GoOrder(env *spec.Env) map[string]float64 {
	out := map[string]float64{}
	for lit, r := range spec.Classes() {
		out[absint.KeyOf(lit)] = r
	}
	for k, r := range env.Rank {
		switch {
		case strings.HasPrefix(k, "bytes:"):
			out["len("+k[6:]+")"] = r
			out["len(string("+k[6:]+"))"] = r
		case strings.HasPrefix(k, "runes:"):
			out["unicode/utf8.RuneCountInString("+k[6:]+")"] = r
			out["unicode/utf8.RuneCount(bytes("+k[6:]+"))"] = r
		case strings.HasPrefix(k, "size:"):
			out["len("+k[5:]+")"] = r
		case k == "now-W":
			out["time.add(now,neg(W))"] = r
		case k == "now+W":
			out["time.add(now,W)"] = r
		default:
			out[k] = r
			out["sec:"+k], out["nanos:"+k] = r, 0
			out["string("+k+")"] = r
		}
	}
	return out
}

// fact translates predicates over library calls into scenario facts.
func (e *Evaluator) fact(key string) (bool, bool) {
	op, args := splitCall(key)
	get := func(k string) (bool, bool) { v, ok := e.Env.Fact[k]; return v, ok }
	text := func(s string) string {
		if strings.HasPrefix(s, "string(") || strings.HasPrefix(s, "bytes(") {
			return s[strings.Index(s, "(")+1 : len(s)-1]
		}
		if strings.HasPrefix(s, "[") {
			return quoteBytes(s)
		}
		return s
	}
	switch op {
	case "strings.HasPrefix", "bytes.HasPrefix":
		return get("prefix:" + text(args[0]) + ":" + text(args[1]))
	case "strings.HasSuffix", "bytes.HasSuffix":
		return get("suffix:" + text(args[0]) + ":" + text(args[1]))
	case "strings.Contains", "bytes.Contains":
		return get("contains:" + text(args[0]) + ":" + text(args[1]))
	case "regexp.match":
		return get("match:" + text(args[1]) + ":" + text(args[0]))
	case "bytes.Equal", "eq":
		a, ok1 := e.rankOf(text(args[0]))
		b, ok2 := e.rankOf(text(args[1]))
		return a == b, ok1 && ok2
	case "valid":
		return get("valid:" + args[0])
	case "(*net/url.URL).IsAbs":
		if o, a := splitCall(args[0]); o == "net/url.Parse#0" {
			return get("urlabs:" + text(a[0]))
		}
	case "isnil":
		o, a := splitCall(args[0])
		switch o {
		case "net/url.Parse#1":
			return get("url:" + text(a[0]))
		case "net/url.Parse#0":
			v, ok := get("url:" + text(a[0]))
			return !v, ok
		case "net.ParseIP":
			v, ok := get("ip:" + text(a[0]))
			if !ok {
				if lit, err := strconv.Unquote(a[0]); err == nil {
					return net.ParseIP(lit) == nil, true
				}
			}
			return !v, ok
		case "(net.IP).To4", "(net.IP).To16":
			x := text(a[0])
			if o2, a2 := splitCall(x); o2 == "net.ParseIP" {
				x = text(a2[0])
			}
			ip, ok := get("ip:" + x)
			v4, ok2 := get("v4:" + x)
			if o == "(net.IP).To16" {
				return !ip, ok
			}
			return !(ip && v4), ok && ok2
		}
	}
	return false, false
}

func (e *Evaluator) rankOf(k string) (float64, bool) {
	if r, ok := e.Env.Rank[k]; ok {
		return r, true
	}
	r, ok := e.In.Order[k]
	return r, ok
}

func quoteBytes(s string) string {
	s = strings.Trim(s, "[]")
	var b []byte
	if s != "" {
		for _, p := range strings.Split(s, ",") {
			n := 0
			fmt.Sscanf(p, "%d", &n)
			b = append(b, byte(n))
		}
	}
	return fmt.Sprintf("%q", string(b))
}

// splitCall parses "op(a,b)" at the top level.
func splitCall(k string) (string, []string) {
	// the operator itself may contain parentheses, as in (net.IP).To4(x)
	if !strings.HasSuffix(k, ")") {
		return k, nil
	}
	depth := 0
	open := -1
	inq := false
	for i := len(k) - 1; i >= 0; i-- {
		switch k[i] {
		case '"':
			if i == 0 || k[i-1] != '\\' {
				inq = !inq
			}
		case ')':
			if !inq {
				depth++
			}
		case '(':
			if !inq {
				depth--
				if depth == 0 {
					open = i
				}
			}
		}
		if open >= 0 {
			break
		}
	}
	if open < 0 {
		return k, nil
	}
	op, rest := k[:open], k[open+1:len(k)-1]
	var args []string
	depth, start := 0, 0
	inq = false
	for i := 0; i < len(rest); i++ {
		switch rest[i] {
		case '\\':
			if inq {
				i++
			}
		case '"':
			inq = !inq
		case '(', '[', '{':
			if !inq {
				depth++
			}
		case ')', ']', '}':
			if !inq {
				depth--
			}
		case ',':
			if !inq && depth == 0 {
				args = append(args, rest[start:i])
				start = i + 1
			}
		}
	}
	args = append(args, rest[start:])
	return op, args
}

// intercept answers validation of opaque embedded messages.
func (e *Evaluator) intercept(in *absint.Interp, fn *ssa.Function, args []absint.Value, pos token.Position) (absint.Value, bool) {
	n := fn.Name()
	if n == "ParseAddress" && fn.Pkg != nil && fn.Pkg.Pkg.Path() == "net/mail" && len(args) == 1 {
		s, ok := args[0].(string)
		if !ok || absint.HasHole(s) {
			return nil, false
		}
		pt := fn.Signature.Results().At(0).Type().(*types.Pointer)
		a, err := mail.ParseAddress(s)
		if err != nil {
			return absint.Tuple{absint.Zero(pt), in.ErrObj("mail")}, true
		}
		v := absint.Zero(pt.Elem()).(absint.Struct)
		st := pt.Elem().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			switch st.Field(i).Name() {
			case "Name":
				v[i] = a.Name
			case "Address":
				v[i] = a.Address
			}
		}
		return absint.Tuple{absint.NewPtr(v), absint.Iface{}}, true
	}
	if (n != "Validate" && n != "ValidateAll") || fn.Signature.Recv() == nil || len(args) != 1 {
		return nil, false
	}
	p, ok := args[0].(absint.Ptr)
	if ok && p == nil && len(fn.Blocks) == 0 {
		// generated methods of other packages accept nil receivers
		return absint.Iface{}, true
	}
	if !ok || p == nil {
		return nil, false
	}
	o, ok := e.ptr[p]
	if !ok {
		return nil, false
	}
	inv, ok := e.Env.Fact["invalid:"+o.sym]
	if !ok {
		in.Undecided("validity of %s", o.sym)
	}
	if !inv {
		return absint.Iface{}, true
	}
	return in.ErrObj("nested:" + o.sym + ":" + n), true
}

// build makes the Go representation of v at type T.
func (e *Evaluator) build(T types.Type, kind, typ string, v *spec.Val) absint.Value {
	if v == nil || v.Nil {
		return absint.Zero(T)
	}
	switch u := T.Underlying().(type) {
	case *types.Pointer:
		n, ok := u.Elem().(*types.Named)
		if !ok {
			break
		}
		st := n.Underlying().(*types.Struct)
		switch typ {
		case ".google.protobuf.Duration", ".google.protobuf.Timestamp":
			if v.Conc != nil {
				return scen.TimeConst(n, v.Conc.(scen.DC))
			}
			return scen.TimeMsg(n, v.Sym)
		}
		s := absint.Zero(n).(absint.Struct)
		if typ == ".google.protobuf.Any" || spec.WrapperKind(typ) != "" {
			for i := 0; i < st.NumFields(); i++ {
				if f := st.Field(i); f.Name() == "Value" && typ != ".google.protobuf.Any" {
					s[i] = e.build(f.Type(), spec.WrapperKind(typ), "", v.Inner)
				} else if f.Name() == "TypeUrl" {
					s[i] = e.build(f.Type(), "string", "", v.Inner)
				}
			}
			return absint.NewPtr(s)
		}
		p := absint.NewPtr(s)
		e.ptr[p] = opaqueMsg{sym: v.Sym, fq: typ}
		return p
	case *types.Slice:
		if kind == "bytes" && isByte(u.Elem()) {
			if v.Sym != "" {
				return &absint.Term{Op: v.Sym, T: T, NonZero: true}
			}
			var e []absint.Value
			switch x := v.Conc.(type) {
			case []byte:
				for _, b := range x {
					e = append(e, uint64(b))
				}
			case string:
				for i := 0; i < len(x); i++ {
					e = append(e, uint64(x[i]))
				}
			}
			return absint.MkSlice(u.Elem(), e...)
		}
		if v.Sym != "" {
			return &absint.Term{Op: v.Sym, T: T, NonZero: true}
		}
		var es []absint.Value
		for _, x := range v.List {
			es = append(es, e.build(u.Elem(), kind, typ, x))
		}
		return absint.MkSlice(u.Elem(), es...)
	case *types.Basic:
		return scen.Scalar(T, scalarOf(v))
	}
	panic(fmt.Sprintf("build %s", T))
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func scalarOf(v *spec.Val) interface{} {
	if v.Sym != "" {
		return scen.L(v.Sym)
	}
	return v.Conc
}

// Message builds the receiver.
func (e *Evaluator) Message(fq string, v *spec.Val) (absint.Value, *types.Named, error) {
	gn := GoTypeName(e.U.B, fq)
	tn, ok := e.U.TPkg.Scope().Lookup(gn).(*types.TypeName)
	if !ok {
		return nil, nil, fmt.Errorf("no Go type %s", gn)
	}
	n := tn.Type().(*types.Named)
	if v.Nil {
		return absint.Ptr(nil), n, nil
	}
	m := e.U.B.Msgs[fq]
	st := n.Underlying().(*types.Struct)
	s := absint.Zero(n).(absint.Struct)
	idx := func(name string) int {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name || st.Field(i).Name() == name+"_" {
				return i
			}
		}
		panic("no field " + name)
	}
	for _, f := range m.Fields {
		x := v.Fields[f.Name]
		if x == nil {
			continue
		}
		i := idx(CamelCase(f.Name))
		ft := st.Field(i).Type()
		if f.MapKey != "" && x.Sym == "" {
			mt := ft.Underlying().(*types.Map)
			mp := absint.NewMap(mt.Key(), mt.Elem())
			for j := range x.List {
				mp.Set(e.build(mt.Key(), f.MapKey, "", x.Keys[j]), e.build(mt.Elem(), f.Kind, f.Type, x.List[j]))
			}
			s[i] = mp
			continue
		}
		if f.MapKey != "" {
			s[i] = &absint.Term{Op: x.Sym, T: ft, NonZero: true}
			continue
		}
		if p, ok := ft.Underlying().(*types.Pointer); ok && f.Kind != "message" {
			s[i] = absint.NewPtr(e.build(p.Elem(), f.Kind, f.Type, x))
			continue
		}
		s[i] = e.build(ft, f.Kind, f.Type, x)
	}
	for _, o := range m.Oneofs {
		for _, f := range o.Fields {
			x := v.Fields[f.Name]
			if x == nil {
				continue
			}
			wt, ok := e.U.TPkg.Scope().Lookup(gn + "_" + CamelCase(f.Name)).(*types.TypeName)
			if !ok {
				return nil, nil, fmt.Errorf("no oneof wrapper for %s", f.Name)
			}
			wn := wt.Type().(*types.Named)
			ws := absint.Zero(wn).(absint.Struct)
			ws[0] = e.build(wn.Underlying().(*types.Struct).Field(0).Type(), f.Kind, f.Type, x)
			s[idx(CamelCase(o.Name))] = absint.Iface{T: types.NewPointer(wn), V: absint.NewPtr(ws)}
		}
	}
	return absint.NewPtr(s), n, nil
}

// Validate evaluates Validate (all=false) or ValidateAll on v.
func (e *Evaluator) Validate(fq string, v *spec.Val, all bool) (res *Result) {
	res = &Result{}
	defer func() {
		switch r := recover().(type) {
		case nil:
		case absint.Undecided:
			res.Undec = r.Error()
		case absint.GoPanic:
			res.Panic = absint.Show(r.Error())
		case absint.Abort:
			res.Undec = "aborted: " + r.Msg
		default:
			panic(r)
		}
	}()
	recv, n, err := e.Message(fq, v)
	if err != nil {
		res.Undec = err.Error()
		return
	}
	name := "Validate"
	if all {
		name = "ValidateAll"
	}
	PT := types.NewPointer(n)
	fn := e.In.FindMethod(PT, name, nil)
	if fn == nil {
		res.Undec = "no method " + name
		return
	}
	out := e.In.CallStatic(fn, []absint.Value{recv}, nil)
	i, ok := out.(absint.Iface)
	if !ok {
		res.Undec = fmt.Sprintf("result %T", out)
		return
	}
	if i.T == nil {
		return
	}
	res.Type = shortType(i.T)
	if sl, ok := i.V.(*absint.Slice); ok {
		res.Wrapped = true
		l := e.In.CallMethod(i, "AllErrors", nil, nil)
		sl, ok = l.(*absint.Slice)
		if !ok || sl == nil {
			res.Undec = "AllErrors does not return the list"
			return
		}
		for k := 0; k < sl.Len; k++ {
			res.Errs = append(res.Errs, e.errOf(sl.At(k)))
		}
		if e.Texts {
			res.Text, _ = e.In.CallMethod(i, "Error", nil, nil).(string)
		}
		return
	}
	res.Errs = append(res.Errs, e.errOf(i))
	return
}

func shortType(t types.Type) string {
	s := types.TypeString(t, func(*types.Package) string { return "" })
	return s
}

func (e *Evaluator) errOf(v absint.Value) Err {
	i, ok := v.(absint.Iface)
	if !ok {
		e.In.Undecided("error list entry %T", v)
	}
	if i.T == nil {
		e.In.Undecided("nil entry in the error list")
	}
	x := Err{Type: shortType(i.T)}
	str := func(m string) string {
		s, ok := e.In.CallMethod(i, m, nil, nil).(string)
		if !ok {
			e.In.Undecided("%s() is not a string", m)
		}
		return s
	}
	if _, isObj := i.V.(*absint.Obj); isObj {
		x.Cause = str("Error")
		x.Type = "foreign"
		return x
	}
	x.Field, x.Reason = str("Field"), str("Reason")
	if e.Texts {
		x.Name, x.Text = str("ErrorName"), str("Error")
	}
	x.Key = e.In.Truth(e.In.CallMethod(i, "Key", nil, nil))
	if c, ok := e.In.CallMethod(i, "Cause", nil, nil).(absint.Iface); ok && c.T != nil {
		x.Cause, _ = e.In.CallMethod(c, "Error", nil, nil).(string)
		if x.Cause == "" {
			x.Cause = "?"
		}
	}
	return x
}
