package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"
	"sync"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

// Tpl models *text/template.Template: a name and a set of associated trees.
type TplSet struct {
	Trees map[string]*TplTree
	Funcs map[string]Iface
	Left  string
	Right string
	Opts  []string
}
type TplTree struct {
	Tree *parse.Tree
	Text string
	At   token.Position // where the text is attached
}
type Tpl struct {
	Name string
	Set  *TplSet
}

// TplError is a template execution error.
type TplError struct {
	Msg string
	Tpl string
	Pos token.Position
}

func (e TplError) Error() string { return fmt.Sprintf("template %q: %s", e.Tpl, e.Msg) }

func tplT(in *Interp) types.Type {
	if p, ok := in.W.Pkgs["text/template"]; ok {
		return types.NewPointer(p.Pkg.Scope().Lookup("Template").Type())
	}
	return nil
}

func (in *Interp) mkTpl(t *Tpl) *Obj { return &Obj{Kind: "template", T: tplT(in), State: t} }

func tplOf(in *Interp, v Value) *Tpl {
	if i, isI := v.(Iface); isI {
		v = i.V
	}
	o, ok := v.(*Obj)
	if !ok || o == nil {
		if p, isP := v.(Ptr); isP && p == nil {
			in.GoPanic("nil template")
		}
		in.Undecided("template value %T", v)
	}
	t, ok := o.State.(*Tpl)
	if !ok {
		in.Undecided("template value %s", o.Kind)
	}
	return t
}

var builtinNames = map[string]interface{}{}

func init() {
	for _, n := range []string{"and", "or", "not", "len", "index", "slice", "print", "printf", "println", "eq", "ne", "lt", "le", "gt", "ge", "html", "js", "urlquery", "call"} {
		builtinNames[n] = 0
	}
	I := intrinsics
	I["text/template.New"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.mkTpl(&Tpl{Name: a[0].(string), Set: &TplSet{Trees: map[string]*TplTree{}, Funcs: map[string]Iface{}}})
	}
	I["text/template.Must"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		if e, ok := a[1].(Iface); ok && e.T != nil {
			s, _ := in.stringer(e)
			in.GoPanic("template.Must: " + s)
		}
		return a[0]
	}
	const T = "(*text/template.Template)."
	I[T+"New"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.mkTpl(&Tpl{Name: a[1].(string), Set: tplOf(in, a[0]).Set})
	}
	I[T+"Name"] = func(in *Interp, fn *ssa.Function, a []Value) Value { return tplOf(in, a[0]).Name }
	I[T+"Funcs"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		t := tplOf(in, a[0])
		m, _ := a[1].(*Map)
		if m != nil {
			for _, e := range m.Ent {
				f, ok := e.V.(Iface)
				if !ok {
					f = Iface{T: m.VT, V: e.V}
				}
				t.Set.Funcs[e.K.(string)] = f
			}
		}
		return a[0]
	}
	I[T+"Delims"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		t := tplOf(in, a[0])
		t.Set.Left, t.Set.Right = a[1].(string), a[2].(string)
		return a[0]
	}
	I[T+"Option"] = func(in *Interp, fn *ssa.Function, a []Value) Value { return a[0] }
	I[T+"Lookup"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		t := tplOf(in, a[0])
		if t.Set.Trees[a[1].(string)] == nil {
			return Ptr(nil)
		}
		return in.mkTpl(&Tpl{Name: a[1].(string), Set: t.Set})
	}
	I[T+"Templates"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		t := tplOf(in, a[0])
		var names []string
		for n := range t.Set.Trees {
			names = append(names, n)
		}
		sort.Strings(names)
		var vs []Value
		for _, n := range names {
			vs = append(vs, in.mkTpl(&Tpl{Name: n, Set: t.Set}))
		}
		return MkSlice(tplT(in), vs...)
	}
	I[T+"Parse"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		t := tplOf(in, a[0])
		text, ok := a[1].(string)
		if !ok || HasHole(text) {
			in.Undecided("template text is not a constant")
		}
		trees, err := parseCached(t.Name, text, t.Set)
		if err != nil {
			return Tuple{a[0], in.ErrObj(err.Error())}
		}
		for n, tr := range trees {
			if tr == nil || tr.Root == nil {
				continue
			}
			if n != t.Name && parse.IsEmptyTree(tr.Root) && t.Set.Trees[n] != nil {
				continue
			}
			if n == t.Name && parse.IsEmptyTree(tr.Root) && t.Set.Trees[n] != nil {
				continue
			}
			t.Set.Trees[n] = &TplTree{Tree: tr, Text: text, At: in.curPos}
		}
		return Tuple{a[0], Iface{}}
	}
	I[T+"ExecuteTemplate"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		t := tplOf(in, a[0])
		name, ok := a[2].(string)
		if !ok || HasHole(name) {
			in.Undecided("abstract template name")
		}
		if t.Set.Trees[name] == nil {
			return in.ErrObj(fmt.Sprintf("template: no template %q associated with template %q", name, t.Name))
		}
		s, err := in.ExecTpl(t.Set, name, in.ifaceArg(a[3]))
		in.WriteTo(a[1], s)
		if err != nil {
			return in.ErrObj(err.Error())
		}
		return Iface{}
	}
	I[T+"Execute"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		t := tplOf(in, a[0])
		if t.Set.Trees[t.Name] == nil {
			return in.ErrObj(fmt.Sprintf("template: %q is an incomplete or empty template", t.Name))
		}
		s, err := in.ExecTpl(t.Set, t.Name, in.ifaceArg(a[2]))
		in.WriteTo(a[1], s)
		if err != nil {
			return in.ErrObj(err.Error())
		}
		return Iface{}
	}
}

var (
	parseMu    sync.Mutex
	parseCache = map[string]map[string]*parse.Tree{}
)

func parseCached(name, text string, set *TplSet) (map[string]*parse.Tree, error) {
	fns := map[string]interface{}{}
	var names []string
	for n := range set.Funcs {
		fns[n] = 0
		names = append(names, n)
	}
	sort.Strings(names)
	key := name + "\x00" + strings.Join(names, ",") + "\x00" + set.Left + set.Right + "\x00" + text
	parseMu.Lock()
	defer parseMu.Unlock()
	if t, ok := parseCache[key]; ok {
		return t, nil
	}
	trees, err := parse.Parse(name, text, set.Left, set.Right, fns, builtinNames)
	if err == nil {
		parseCache[key] = trees
	}
	return trees, err
}

// TplOf exposes the model behind a template value.
func TplOf(in *Interp, v Value) *Tpl { return tplOf(in, v) }

type tvar struct {
	name string
	v    Iface
}

type tstate struct {
	in    *Interp
	set   *TplSet
	name  string
	tree  *TplTree
	out   *strings.Builder
	vars  []tvar
	depth int
}

type ctlBreak struct{}
type ctlContinue struct{}

// TplTrace, when set, receives the name of every executed template.
type TplTrace func(name string)

// ExecTpl executes a named template on abstract data.
func (in *Interp) ExecTpl(set *TplSet, name string, data Iface) (out string, err error) {
	var sb strings.Builder
	st := &tstate{in: in, set: set, name: name, tree: set.Trees[name], out: &sb, vars: []tvar{{"$", data}}}
	in.Depth++
	if in.Depth > 300 {
		in.Undecided("template recursion")
	}
	defer func() {
		in.Depth--
		out = sb.String()
		if r := recover(); r != nil {
			if te, ok := r.(TplError); ok {
				err = te
				return
			}
			if gp, ok := r.(GoPanic); ok {
				// text/template turns panics of called methods into errors
				err = TplError{Msg: "panic during template execution: " + gp.Msg, Tpl: name, Pos: gp.Pos}
				return
			}
			panic(r)
		}
	}()
	in.TplUsed[name] = st.tree.Text
	st.walk(data, st.tree.Tree.Root)
	return
}

func (s *tstate) errorf(f string, a ...interface{}) {
	panic(TplError{Msg: fmt.Sprintf(f, a...), Tpl: s.name, Pos: s.in.curPos})
}

func (s *tstate) push(n string, v Iface) { s.vars = append(s.vars, tvar{n, v}) }
func (s *tstate) pop(m int)              { s.vars = s.vars[:m] }
func (s *tstate) setVar(n string, v Iface) {
	for i := len(s.vars) - 1; i >= 0; i-- {
		if s.vars[i].name == n {
			s.vars[i].v = v
			return
		}
	}
	s.errorf("undefined variable: %s", n)
}
func (s *tstate) varValue(n string) Iface {
	for i := len(s.vars) - 1; i >= 0; i-- {
		if s.vars[i].name == n {
			return s.vars[i].v
		}
	}
	s.errorf("undefined variable: %s", n)
	return Iface{}
}

func (s *tstate) walk(dot Iface, n parse.Node) {
	s.in.Steps++
	if s.in.Steps > s.in.Max {
		s.in.Undecided("step budget exceeded in template %s", s.name)
	}
	switch n := n.(type) {
	case *parse.ListNode:
		if n == nil {
			return
		}
		for _, x := range n.Nodes {
			s.walk(dot, x)
		}
	case *parse.TextNode:
		s.out.Write(n.Text)
	case *parse.CommentNode:
	case *parse.ActionNode:
		v := s.pipeline(dot, n.Pipe)
		if len(n.Pipe.Decl) == 0 {
			s.out.WriteString(s.print(v))
		}
	case *parse.IfNode:
		m := len(s.vars)
		v := s.pipeline(dot, n.Pipe)
		if s.in.TplTruth(v) {
			s.walk(dot, n.List)
		} else if n.ElseList != nil {
			s.walk(dot, n.ElseList)
		}
		s.pop(m)
	case *parse.WithNode:
		m := len(s.vars)
		v := s.pipeline(dot, n.Pipe)
		if s.in.TplTruth(v) {
			s.walk(v, n.List)
		} else if n.ElseList != nil {
			s.walk(dot, n.ElseList)
		}
		s.pop(m)
	case *parse.RangeNode:
		s.walkRange(dot, n)
	case *parse.BreakNode:
		panic(ctlBreak{})
	case *parse.ContinueNode:
		panic(ctlContinue{})
	case *parse.TemplateNode:
		t := s.set.Trees[n.Name]
		if t == nil {
			s.errorf("template %q not defined", n.Name)
		}
		if s.depth > 200 {
			s.in.Undecided("template recursion %s", n.Name)
		}
		v := Iface{}
		if n.Pipe != nil {
			v = s.pipeline(dot, n.Pipe)
		}
		ns := &tstate{in: s.in, set: s.set, name: n.Name, tree: t, out: s.out, vars: []tvar{{"$", v}}, depth: s.depth + 1}
		s.in.TplUsed[n.Name] = t.Text
		ns.walk(v, t.Tree.Root)
	default:
		s.in.Undecided("template node %T", n)
	}
}

func (s *tstate) walkRange(dot Iface, r *parse.RangeNode) {
	mark := len(s.vars)
	defer func() {
		s.pop(mark)
		if x := recover(); x != nil {
			if _, ok := x.(ctlBreak); ok {
				return
			}
			panic(x)
		}
	}()
	v := s.pipeline(dot, r.Pipe)
	one := func(k, e Iface) {
		m := len(s.vars)
		if len(r.Pipe.Decl) > 0 {
			if len(r.Pipe.Decl) == 1 {
				s.bind(r.Pipe, 0, e)
			} else {
				s.bind(r.Pipe, 0, k)
				s.bind(r.Pipe, 1, e)
			}
		}
		defer s.pop(m)
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(ctlContinue); ok {
					return
				}
				panic(x)
			}
		}()
		s.walk(e, r.List)
	}
	val := v
	for {
		if p, ok := val.V.(Ptr); ok && val.T != nil {
			if p == nil {
				break
			}
			if pt, ok := val.T.Underlying().(*types.Pointer); ok {
				val = s.in.asIface(pt.Elem(), *p)
				continue
			}
		}
		break
	}
	switch x := val.V.(type) {
	case *Slice:
		if x != nil && x.Len > 0 {
			et := val.T.Underlying().(*types.Slice).Elem()
			for i := 0; i < x.Len; i++ {
				one(Iface{types.Typ[types.Int], int64(i)}, s.in.asIface(et, x.At(i)))
			}
			return
		}
	case Array:
		et := val.T.Underlying().(*types.Array).Elem()
		for i := range x {
			one(Iface{types.Typ[types.Int], int64(i)}, s.in.asIface(et, x[i]))
		}
		if len(x) > 0 {
			return
		}
	case *Map:
		if x != nil && len(x.Ent) > 0 {
			mt := val.T.Underlying().(*types.Map)
			ents := append([]*MapEntry{}, x.Ent...)
			sort.SliceStable(ents, func(i, j int) bool { return KeyOf(ents[i].K) < KeyOf(ents[j].K) })
			for _, e := range ents {
				one(s.in.asIface(mt.Key(), e.K), s.in.asIface(mt.Elem(), e.V))
			}
			return
		}
	case int64:
		for i := int64(0); i < x; i++ {
			one(Iface{types.Typ[types.Int], i}, Iface{types.Typ[types.Int], i})
		}
		if x > 0 {
			return
		}
	case nil:
		if val.T == nil {
			// nil value: no iterations
		}
	default:
		if val.T != nil {
			s.in.Undecided("template range over %T", val.V)
		}
	}
	if r.ElseList != nil {
		s.walk(dot, r.ElseList)
	}
}

func (s *tstate) bind(p *parse.PipeNode, i int, v Iface) {
	n := p.Decl[i].Ident[0]
	if p.IsAssign {
		s.setVar(n, v)
	} else {
		s.push(n, v)
	}
}

func (s *tstate) pipeline(dot Iface, p *parse.PipeNode) Iface {
	if p == nil {
		return Iface{}
	}
	var v Iface
	has := false
	for _, c := range p.Cmds {
		v = s.command(dot, c, v, has)
		has = true
	}
	isRange := false
	_ = isRange
	for i := range p.Decl {
		if len(p.Decl) == 1 || i == 0 {
			if p.IsAssign {
				s.setVar(p.Decl[i].Ident[0], v)
			} else {
				s.push(p.Decl[i].Ident[0], v)
			}
		}
	}
	return v
}

func (s *tstate) command(dot Iface, c *parse.CommandNode, final Iface, has bool) Iface {
	first := c.Args[0]
	switch n := first.(type) {
	case *parse.FieldNode:
		return s.fieldChain(dot, dot, n.Ident, c.Args, final, has)
	case *parse.ChainNode:
		r := s.evalArg(dot, n.Node)
		return s.fieldChain(dot, r, n.Field, c.Args, final, has)
	case *parse.IdentifierNode:
		return s.function(dot, n, c.Args, final, has)
	case *parse.PipeNode:
		s.notFunction(c.Args, has)
		return s.pipeline(dot, n)
	case *parse.VariableNode:
		v := s.varValue(n.Ident[0])
		if len(n.Ident) == 1 {
			s.notFunction(c.Args, has)
			return v
		}
		return s.fieldChain(dot, v, n.Ident[1:], c.Args, final, has)
	}
	s.notFunction(c.Args, has)
	switch n := first.(type) {
	case *parse.BoolNode:
		return Iface{types.Typ[types.Bool], n.True}
	case *parse.DotNode:
		return dot
	case *parse.NilNode:
		s.errorf("nil is not a command")
	case *parse.NumberNode:
		return number(n)
	case *parse.StringNode:
		return Iface{types.Typ[types.String], n.Text}
	}
	s.in.Undecided("template command %T", first)
	return Iface{}
}

func (s *tstate) notFunction(args []parse.Node, has bool) {
	if len(args) > 1 || has {
		s.errorf("can't give argument to non-function %s", args[0])
	}
}

func number(n *parse.NumberNode) Iface {
	switch {
	case n.IsInt:
		return Iface{types.Typ[types.Int], n.Int64}
	case n.IsUint:
		return Iface{types.Typ[types.Uint], n.Uint64}
	case n.IsFloat:
		return Iface{types.Typ[types.Float64], n.Float64}
	}
	return Iface{}
}

func (s *tstate) evalArg(dot Iface, n parse.Node) Iface {
	switch n := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.NilNode:
		return Iface{}
	case *parse.FieldNode:
		return s.fieldChain(dot, dot, n.Ident, []parse.Node{n}, Iface{}, false)
	case *parse.VariableNode:
		v := s.varValue(n.Ident[0])
		if len(n.Ident) == 1 {
			return v
		}
		return s.fieldChain(dot, v, n.Ident[1:], []parse.Node{n}, Iface{}, false)
	case *parse.PipeNode:
		return s.pipeline(dot, n)
	case *parse.IdentifierNode:
		return s.function(dot, n, []parse.Node{n}, Iface{}, false)
	case *parse.ChainNode:
		r := s.evalArg(dot, n.Node)
		return s.fieldChain(dot, r, n.Field, []parse.Node{n}, Iface{}, false)
	case *parse.BoolNode:
		return Iface{types.Typ[types.Bool], n.True}
	case *parse.NumberNode:
		return number(n)
	case *parse.StringNode:
		return Iface{types.Typ[types.String], n.Text}
	}
	s.in.Undecided("template argument %T", n)
	return Iface{}
}

func (s *tstate) fieldChain(dot, recv Iface, ident []string, args []parse.Node, final Iface, has bool) Iface {
	n := len(ident)
	for i := 0; i < n-1; i++ {
		recv = s.field(dot, ident[i], nil, Iface{}, false, recv)
	}
	return s.field(dot, ident[n-1], args, final, has, recv)
}

func (s *tstate) field(dot Iface, name string, args []parse.Node, final Iface, has bool, recv Iface) Iface {
	in := s.in
	if recv.T == nil {
		if t, ok := recv.V.(*Term); ok {
			_ = t
			in.Undecided("template field .%s of abstract value", name)
		}
		s.errorf("nil data evaluating .%s", name)
	}
	hasArgs := len(args) > 1 || has
	// method first
	switch v := recv.V.(type) {
	case Host:
		if m := v.RV.MethodByName(name); m.IsValid() {
			sig := hostSig(in, recv.T, name)
			if sig == nil {
				in.Undecided("method %s of schema entity", name)
			}
			vals := s.args(dot, args, final, has, sig)
			if in.InvokeHook != nil {
				if r, ok := in.InvokeHook(in, recv, name, vals, in.curPos); ok {
					return s.result(r, sig)
				}
			}
			return s.result(in.HostCall(v, name, vals, sig), sig)
		}
		s.errorf("can't evaluate field %s in type %s", name, recv.T)
	case *Obj:
		if v != nil && v.Meth[name] != nil {
			var vals []Value
			for i := 1; i < len(args); i++ {
				vals = append(vals, s.evalArg(dot, args[i]).V)
			}
			r := v.Meth[name](in, vals)
			return in.ifaceArg(r)
		}
		in.Undecided("template field %s of %s", name, v.Kind)
	}
	if fn := in.tplMethod(recv.T, name); fn != nil {
		r := recv
		vals := s.args(dot, args, final, has, fn.Signature)
		return s.result(in.CallStatic(fn, append([]Value{r.V}, vals...), nil), fn.Signature)
	}
	// value receiver through pointer indirection is part of the method set; fields next
	T, v := recv.T, recv.V
	if pt, ok := T.Underlying().(*types.Pointer); ok {
		p, okp := v.(Ptr)
		if okp && p == nil {
			s.errorf("nil pointer evaluating %s.%s", TypeString(T), name)
		}
		if okp {
			T, v = pt.Elem(), *p
			// methods on pointer receiver already tried
		} else if t, ok := v.(*Term); ok {
			T = pt.Elem()
			v = &Term{Op: "*", Args: []Value{t}, T: T}
		}
	}
	switch u := T.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				if !u.Field(i).Exported() {
					s.errorf("%s is an unexported field", name)
				}
				if hasArgs {
					s.errorf("%s has arguments but cannot be invoked as function", name)
				}
				switch sv := v.(type) {
				case Struct:
					return in.asIface(u.Field(i).Type(), sv[i])
				case *Term:
					return Iface{u.Field(i).Type(), in.OpaqueOf(&Term{Op: "." + name, Args: []Value{sv}}, u.Field(i).Type())}
				}
				in.Undecided("template field of %T", v)
			}
		}
		// promoted fields
		obj, index, _ := types.LookupFieldOrMethod(T, true, nil, name)
		if f, ok := obj.(*types.Var); ok && f.IsField() {
			cur, ct := v, T
			for _, ix := range index {
				if p, ok := cur.(Ptr); ok {
					if p == nil {
						s.errorf("nil pointer evaluating %s", name)
					}
					cur = *p
					ct = ct.Underlying().(*types.Pointer).Elem()
				}
				st := ct.Underlying().(*types.Struct)
				cur = cur.(Struct)[ix]
				ct = st.Field(ix).Type()
			}
			return in.asIface(ct, cur)
		}
	case *types.Map:
		m, ok := v.(*Map)
		if ok {
			if x, found := m.Get(name); found {
				return in.asIface(u.Elem(), x)
			}
			return Iface{}
		}
	}
	s.errorf("can't evaluate field %s in type %s", name, TypeString(recv.T))
	return Iface{}
}

func hostSig(in *Interp, T types.Type, name string) *types.Signature {
	obj, _, _ := types.LookupFieldOrMethod(T, true, nil, name)
	if f, ok := obj.(*types.Func); ok {
		return f.Type().(*types.Signature)
	}
	return nil
}

func (in *Interp) tplMethod(T types.Type, name string) *ssa.Function {
	if !token.IsExported(name) {
		return nil
	}
	if types.IsInterface(T) {
		return nil
	}
	if fn := in.FindMethod(T, name, nil); fn != nil {
		return fn
	}
	return nil
}

// args evaluates call arguments against a signature.
func (s *tstate) args(dot Iface, args []parse.Node, final Iface, has bool, sig *types.Signature) []Value {
	var vals []Iface
	for i := 1; i < len(args); i++ {
		vals = append(vals, s.evalArg(dot, args[i]))
	}
	if has {
		vals = append(vals, final)
	}
	return s.convArgs(vals, sig)
}

func (s *tstate) convArgs(vals []Iface, sig *types.Signature) []Value {
	np := sig.Params().Len()
	if sig.Variadic() {
		if len(vals) < np-1 {
			s.errorf("wrong number of args: want at least %d got %d", np-1, len(vals))
		}
	} else if len(vals) != np {
		s.errorf("wrong number of args: want %d got %d", np, len(vals))
	}
	var out []Value
	var rest []Value
	for i, v := range vals {
		var pt types.Type
		isRest := false
		if sig.Variadic() && i >= np-1 {
			pt = sig.Params().At(np - 1).Type().Underlying().(*types.Slice).Elem()
			isRest = true
		} else {
			pt = sig.Params().At(i).Type()
		}
		x := s.coerce(v, pt)
		if isRest {
			rest = append(rest, x)
		} else {
			out = append(out, x)
		}
	}
	if sig.Variadic() {
		et := sig.Params().At(np - 1).Type().Underlying().(*types.Slice).Elem()
		if len(rest) == 0 {
			out = append(out, (*Slice)(nil))
		} else {
			out = append(out, MkSlice(et, rest...))
		}
	}
	return out
}

func (s *tstate) coerce(v Iface, pt types.Type) Value {
	if v.T == nil {
		if t, ok := v.V.(*Term); ok {
			return t
		}
		switch pt.Underlying().(type) {
		case *types.Interface:
			return Iface{}
		case *types.Pointer, *types.Slice, *types.Map, *types.Signature:
			return Zero(pt)
		}
		s.errorf("cannot assign nil to %s", pt)
	}
	if types.IsInterface(pt) {
		if !types.Implements(v.T, pt.Underlying().(*types.Interface)) {
			s.errorf("wrong type for value; expected %s; got %s", pt, v.T)
		}
		return v
	}
	if types.AssignableTo(v.T, pt) {
		return v.V
	}
	// untyped constants and convertible kinds
	if vb, ok := v.T.Underlying().(*types.Basic); ok {
		if pb, ok := pt.Underlying().(*types.Basic); ok {
			sameFam := (vb.Info()&types.IsString != 0 && pb.Info()&types.IsString != 0) ||
				(vb.Info()&types.IsBoolean != 0 && pb.Info()&types.IsBoolean != 0) ||
				(vb.Info()&types.IsNumeric != 0 && pb.Info()&types.IsNumeric != 0)
			if sameFam {
				return s.in.Convert(v.T, pt, v.V)
			}
		}
	}
	if p, ok := v.T.Underlying().(*types.Pointer); ok {
		if types.AssignableTo(p.Elem(), pt) {
			pp, ok := v.V.(Ptr)
			if ok && pp == nil {
				s.errorf("dereference of nil pointer of type %s", pt)
			}
			if ok {
				return Copy(*pp)
			}
			if h, ok := v.V.(Host); ok {
				return h
			}
		}
	}
	s.errorf("wrong type for value; expected %s; got %s", TypeString(pt), TypeString(v.T))
	return nil
}

func (s *tstate) result(r Value, sig *types.Signature) Iface {
	res := sig.Results()
	switch res.Len() {
	case 1:
		return s.in.asIface(res.At(0).Type(), r)
	case 2:
		tp, ok := r.(Tuple)
		if !ok {
			s.in.Undecided("result tuple")
		}
		if e, ok := tp[1].(Iface); ok {
			if e.T != nil {
				msg, _ := s.in.stringer(e)
				s.errorf("error calling function: %s", msg)
			}
		} else if t, ok := tp[1].(*Term); ok {
			if !s.in.IsNilTerm(t) {
				s.errorf("error calling function: %s", t)
			}
		}
		return s.in.asIface(res.At(0).Type(), tp[0])
	}
	s.errorf("function has %d return values; should be 1 or 2", res.Len())
	return Iface{}
}

func (s *tstate) function(dot Iface, n *parse.IdentifierNode, args []parse.Node, final Iface, has bool) Iface {
	in := s.in
	if f, ok := s.set.Funcs[n.Ident]; ok {
		sig, ok := f.T.Underlying().(*types.Signature)
		if !ok {
			s.errorf("%s is not a function", n.Ident)
		}
		vals := s.args(dot, args, final, has, sig)
		r := in.Call(f.V, vals)
		return s.result(r, sig)
	}
	// builtins
	if n.Ident == "and" || n.Ident == "or" {
		if len(args) < 2 && !has {
			s.errorf("wrong number of args for %s", n.Ident)
		}
		var v Iface
		for i := 1; i < len(args); i++ {
			v = s.evalArg(dot, args[i])
			if in.TplTruth(v) == (n.Ident == "or") {
				return v
			}
		}
		if has {
			v = final
		}
		return v
	}
	var vals []Iface
	for i := 1; i < len(args); i++ {
		vals = append(vals, s.evalArg(dot, args[i]))
	}
	if has {
		vals = append(vals, final)
	}
	need := func(k int) {
		if len(vals) != k {
			s.errorf("wrong number of args for %s: want %d got %d", n.Ident, k, len(vals))
		}
	}
	B := func(b bool) Iface { return Iface{types.Typ[types.Bool], b} }
	switch n.Ident {
	case "not":
		need(1)
		return B(!in.TplTruth(vals[0]))
	case "len":
		need(1)
		v := s.indirect(vals[0])
		return Iface{types.Typ[types.Int], in.Len(v.V)}
	case "print":
		return Iface{types.Typ[types.String], in.Sprint(ifv(vals), false)}
	case "println":
		return Iface{types.Typ[types.String], in.Sprint(ifv(vals), true)}
	case "printf":
		if len(vals) == 0 {
			s.errorf("wrong number of args for printf")
		}
		f, ok := vals[0].V.(string)
		if !ok || HasHole(f) {
			in.Undecided("abstract printf format in template")
		}
		return Iface{types.Typ[types.String], in.Sprintf(f, ifv(vals[1:]))}
	case "eq":
		if len(vals) < 2 {
			s.errorf("missing argument for comparison")
		}
		for _, y := range vals[1:] {
			if s.basicEq(vals[0], y) {
				return B(true)
			}
		}
		return B(false)
	case "ne":
		need(2)
		return B(!s.basicEq(vals[0], vals[1]))
	case "lt":
		need(2)
		return B(s.basicCmp(vals[0], vals[1]) < 0)
	case "le":
		need(2)
		return B(s.basicCmp(vals[0], vals[1]) <= 0)
	case "gt":
		need(2)
		return B(s.basicCmp(vals[0], vals[1]) > 0)
	case "ge":
		need(2)
		return B(s.basicCmp(vals[0], vals[1]) >= 0)
	case "index":
		if len(vals) < 2 {
			s.errorf("missing index")
		}
		v := s.indirect(vals[0])
		for _, ix := range vals[1:] {
			switch x := v.V.(type) {
			case *Slice:
				nn := 0
				if x != nil {
					nn = x.Len
				}
				k, ok := ix.V.(int64)
				if !ok {
					in.Undecided("abstract index in template")
				}
				if k < 0 || int(k) >= nn {
					s.errorf("index out of range: %d", k)
				}
				v = in.asIface(v.T.Underlying().(*types.Slice).Elem(), x.At(int(k)))
			case *Map:
				mt := v.T.Underlying().(*types.Map)
				i := in.mapFind(x, ix.V)
				if i < 0 {
					v = in.asIface(mt.Elem(), Zero(mt.Elem()))
				} else {
					v = in.asIface(mt.Elem(), x.Ent[i].V)
				}
			default:
				in.Undecided("template index of %T", v.V)
			}
		}
		return v
	case "call":
		if len(vals) == 0 {
			s.errorf("missing function for call")
		}
		sig, ok := vals[0].T.Underlying().(*types.Signature)
		if !ok {
			s.errorf("non-function in call")
		}
		return s.result(in.Call(vals[0].V, s.convArgs(vals[1:], sig)), sig)
	case "html", "js", "urlquery":
		t := in.Sprint(ifv(vals), false)
		if !HasHole(t) {
			in.Undecided("template escaper %s", n.Ident)
		}
		return Iface{types.Typ[types.String], HoleStr(&Term{Op: n.Ident, Args: []Value{t}})}
	case "slice":
		v := s.indirect(vals[0])
		if x, ok := v.V.(*Slice); ok && x != nil {
			lo, hi := 0, x.Len
			if len(vals) > 1 {
				lo = int(vals[1].V.(int64))
			}
			if len(vals) > 2 {
				hi = int(vals[2].V.(int64))
			}
			if lo < 0 || hi < lo || hi > x.Cap {
				s.errorf("slice bounds")
			}
			return Iface{v.T, &Slice{Arr: x.Arr, Off: x.Off + lo, Len: hi - lo, Cap: x.Cap - lo, Elem: x.Elem}}
		}
		if x, ok := v.V.(string); ok && !HasHole(x) {
			lo, hi := 0, len(x)
			if len(vals) > 1 {
				lo = int(vals[1].V.(int64))
			}
			if len(vals) > 2 {
				hi = int(vals[2].V.(int64))
			}
			if lo < 0 || hi < lo || hi > len(x) {
				s.errorf("slice bounds")
			}
			return Iface{v.T, x[lo:hi]}
		}
		in.Undecided("template slice of %T", v.V)
	}
	s.errorf("%q is not a defined function", n.Ident)
	return Iface{}
}

func ifv(v []Iface) []Value {
	out := make([]Value, len(v))
	for i := range v {
		out[i] = v[i]
	}
	return out
}

func (s *tstate) indirect(v Iface) Iface {
	for v.T != nil {
		pt, ok := v.T.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		p, ok := v.V.(Ptr)
		if !ok || p == nil {
			break
		}
		v = s.in.asIface(pt.Elem(), *p)
	}
	return v
}

func fam(k reflect.Kind) int {
	switch k {
	case reflect.Bool:
		return 1
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return 2
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return 3
	case reflect.Float32, reflect.Float64:
		return 4
	case reflect.String:
		return 5
	}
	return 0
}

func norm(a, b Iface, fa, fb int) (Value, Value) {
	x, y := a.V, b.V
	if fa == 2 && fb == 3 {
		if i, ok := x.(int64); ok && i >= 0 {
			x = uint64(i)
		}
	}
	if fa == 3 && fb == 2 {
		if i, ok := y.(int64); ok && i >= 0 {
			y = uint64(i)
		}
	}
	return x, y
}

func (s *tstate) basicEq(a, b Iface) bool {
	in := s.in
	if a.T == nil || b.T == nil {
		return a.T == nil && b.T == nil
	}
	fa, fb := fam(kindOf(a.T)), fam(kindOf(b.T))
	if fa == 0 || fb == 0 {
		if kindOf(a.T) == reflect.Ptr || kindOf(b.T) == reflect.Ptr || types.Comparable(a.T) {
			if _, ok := a.V.(Host); ok {
				return in.Truth(in.Equal(a.T, a.V, b.V))
			}
			n1, ok1 := in.isNilVal(a.V)
			n2, ok2 := in.isNilVal(b.V)
			if ok1 && ok2 && (n1 || n2) {
				return n1 && n2
			}
			if !types.Identical(a.T, b.T) {
				s.errorf("incompatible types for comparison")
			}
			return in.Truth(in.Equal(a.T, a.V, b.V))
		}
		s.errorf("non-comparable type in eq")
	}
	if fa != fb && !(fa == 2 && fb == 3 || fa == 3 && fb == 2) {
		s.errorf("incompatible types for comparison")
	}
	x, y := norm(a, b, fa, fb)
	if fa == 2 || fa == 3 || fa == 4 {
		return in.Cmp(a.T, x, y) == 0
	}
	return in.Truth(in.Equal(a.T, x, y))
}

func (s *tstate) basicCmp(a, b Iface) int {
	if a.T == nil || b.T == nil {
		s.errorf("invalid type for comparison")
	}
	fa, fb := fam(kindOf(a.T)), fam(kindOf(b.T))
	if fa < 2 || fb < 2 {
		s.errorf("invalid type for comparison")
	}
	if fa != fb && !(fa == 2 && fb == 3 || fa == 3 && fb == 2) {
		s.errorf("incompatible types for comparison")
	}
	x, y := norm(a, b, fa, fb)
	c := s.in.Cmp(a.T, x, y)
	if c == 2 {
		return -1
	}
	return c
}

// TplTruth is text/template truth.
func (in *Interp) TplTruth(v Iface) bool {
	if v.T == nil {
		if t, ok := v.V.(*Term); ok {
			return !in.IsNilTerm(t)
		}
		return false
	}
	switch x := v.V.(type) {
	case bool:
		return x
	case int64:
		return x != 0
	case uint64:
		return x != 0
	case float64:
		return x != 0
	case string:
		if x == "" {
			return false
		}
		if !HasHole(x) || strNonEmpty(x) {
			return true
		}
		return !in.Truth(in.strEq(x, ""))
	case Ptr:
		return x != nil
	case *Slice:
		return x != nil && x.Len > 0
	case *Map:
		return x != nil && len(x.Ent) > 0
	case Array:
		return len(x) > 0
	case Struct:
		return true
	case Host, *Obj, *Closure, *ssa.Function, *NativeFn:
		return true
	case Iface:
		return x.T != nil
	case *Term:
		if x.NonZero || x.Positive {
			return true
		}
		switch u := v.T.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsBoolean != 0:
				return in.Bool(x)
			case u.Info()&types.IsNumeric != 0:
				var z Value = int64(0)
				if u.Info()&types.IsUnsigned != 0 {
					z = uint64(0)
				} else if u.Info()&types.IsFloat != 0 {
					z = float64(0)
				}
				return in.Cmp(v.T, x, z) != 0
			}
		case *types.Slice, *types.Map:
			return in.Cmp(types.Typ[types.Int], in.Len(x), int64(0)) > 0
		case *types.Struct:
			return true
		}
		return !in.IsNilTerm(x)
	}
	in.Undecided("template truth of %T", v.V)
	return false
}

func (s *tstate) print(v Iface) string {
	in := s.in
	if v.T == nil {
		if t, ok := v.V.(*Term); ok {
			return in.FormatVal("", 'v', Iface{T: t.T, V: t}, 0)
		}
		return "<no value>"
	}
	if pt, ok := v.T.Underlying().(*types.Pointer); ok {
		if _, isS := pt.Elem().Underlying().(*types.Struct); !isS {
			if p, ok := v.V.(Ptr); ok {
				if p == nil {
					return "<nil>"
				}
				return in.FormatVal("", 'v', in.asIface(pt.Elem(), *p), 0)
			}
		}
	}
	return in.FormatVal("", 'v', v, 0)
}
