package golang

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effect is a write that outlives a call of a generated method.
type Effect struct {
	Fn    string // the method or function that writes
	What  string // "the message" or "package-level state"
	How   string // the construct
	Where string // file:line of the emitted source
}

// orig says where a pointer-carrying value may point: into what a parameter
// reaches, into package-level state, or into an object made by the function.
type orig struct {
	params uint64
	global bool
	roots  map[ssa.Value]bool
}

func (o *orig) add(p orig) bool {
	ch := false
	if p.params&^o.params != 0 {
		o.params |= p.params
		ch = true
	}
	if p.global && !o.global {
		o.global, ch = true, true
	}
	for r := range p.roots {
		if !o.roots[r] {
			if o.roots == nil {
				o.roots = map[ssa.Value]bool{}
			}
			o.roots[r], ch = true, true
		}
	}
	return ch
}

// Effects lists the lasting writes of the emitted package: stores into what a
// message reaches and stores into package-level variables outside package
// initialisation.  Each method and exported function is analysed together
// with everything of the package it calls.  Writes to package-level state
// under a lock are left to the other rules.
func (u *Unit) Effects() (out []Effect, funcs int) {
	a := &effects{u: u, seen: map[Effect]bool{}}
	var fns []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && f.Synthetic == "" && a.emitted(f) {
			fns = append(fns, f)
		}
	}
	for _, m := range u.Pkg.Members {
		switch m := m.(type) {
		case *ssa.Function:
			if m.Object() != nil && m.Object().Exported() {
				add(m)
			}
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := u.Prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					add(u.Prog.MethodValue(ms.At(i)))
				}
			}
		}
	}
	done := map[*ssa.Function]bool{}
	for _, f := range fns {
		if !done[f] {
			done[f] = true
			funcs++
			a.analyse(f)
		}
	}
	return a.out, funcs
}

type effects struct {
	u    *Unit
	out  []Effect
	seen map[Effect]bool
}

// emitted tells generated functions from the declarations of protoc-gen-go.
func (a *effects) emitted(f *ssa.Function) bool {
	if f.Origin() != nil {
		f = f.Origin()
	}
	return f.Blocks != nil && a.u.Src[a.u.Fset.Position(f.Pos()).Filename] != ""
}

// family is the function with the function literals inside it.
func (a *effects) family(f *ssa.Function) []*ssa.Function {
	out := []*ssa.Function{f}
	for _, g := range f.AnonFuncs {
		out = append(out, a.family(g)...)
	}
	return out
}

// carries says whether values of the type may hold references.
func carries(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		return t.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if carries(t.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return carries(t.Elem())
	case *types.Tuple:
		for i := 0; i < t.Len(); i++ {
			if carries(t.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

type flow struct {
	a       *effects
	top     *ssa.Function
	fns     []*ssa.Function
	has     map[*ssa.Function]bool
	val     map[ssa.Value]*orig
	content map[ssa.Value]*orig // what references stored in an object point to
	ret     map[*ssa.Function]*orig
	changed bool
}

// include analyses the function and the literals inside it as well.
func (w *flow) include(f *ssa.Function) {
	if !w.has[f] {
		w.has[f] = true
		w.fns = append(w.fns, f)
		w.changed = true
		for _, g := range f.AnonFuncs {
			w.include(g)
		}
	}
}

func (a *effects) analyse(f *ssa.Function) {
	w := &flow{a: a, top: f, has: map[*ssa.Function]bool{}, val: map[ssa.Value]*orig{}, content: map[ssa.Value]*orig{}, ret: map[*ssa.Function]*orig{}}
	w.include(f)
	for i, p := range f.Params {
		if i < 64 && carries(p.Type()) {
			w.put(p, orig{params: 1 << i})
		}
	}
	for w.changed {
		w.changed = false
		for i := 0; i < len(w.fns); i++ {
			for _, b := range w.fns[i].Blocks {
				for _, in := range b.Instrs {
					w.instr(w.fns[i], in)
				}
			}
		}
	}
}

func (w *flow) put(v ssa.Value, o orig) {
	x := w.val[v]
	if x == nil {
		x = &orig{}
		w.val[v] = x
	}
	if x.add(o) {
		w.changed = true
	}
}

func (w *flow) of(v ssa.Value) orig {
	switch v := v.(type) {
	case nil, *ssa.Const, *ssa.Builtin, *ssa.Function:
		return orig{}
	case *ssa.Global:
		return orig{global: true}
	case *ssa.FreeVar:
		// bound where the literal is made
		_ = v
	}
	if x := w.val[v]; x != nil {
		return *x
	}
	return orig{}
}

// inside is what references found in what o points to point to.
func (w *flow) inside(o orig) orig {
	r := orig{params: o.params, global: o.global}
	for x := range o.roots {
		if c := w.content[x]; c != nil {
			r.add(*c)
		}
	}
	return r
}

func (w *flow) fill(o, with orig) {
	for x := range o.roots {
		c := w.content[x]
		if c == nil {
			c = &orig{}
			w.content[x] = c
		}
		if c.add(with) {
			w.changed = true
		}
	}
}

// write records a store through what o describes.  A function without a
// receiver may write what it is given; its callers answer for it.
func (w *flow) write(in ssa.Instruction, o orig, how string) {
	p := w.a.u.Fset.Position(in.Pos())
	at := in.Parent()
	for at.Parent() != nil {
		at = at.Parent()
	}
	e := Effect{Fn: at.String(), How: how, Where: fmt.Sprintf("%s:%d", p.Filename, p.Line)}
	note := func(what string) {
		e.What = what
		if !w.a.seen[e] {
			w.a.seen[e] = true
			w.a.out = append(w.a.out, e)
		}
	}
	if o.params&1 != 0 && w.top.Signature.Recv() != nil && w.message() {
		note("the message")
	}
	if o.global && !locked(in) {
		note("package-level state")
	}
}

// message: helper types of the emitted code may change themselves; messages
// and the errors handed out may not.
func (w *flow) message() bool {
	if !token.IsExported(w.top.Name()) {
		return false
	}
	t := w.top.Signature.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if w.a.u.Src[w.a.u.Fset.Position(n.Obj().Pos()).Filename] == "" {
		return true
	}
	err := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	return types.Implements(n, err) || types.Implements(types.NewPointer(n), err)
}

// locked says whether a mutex is taken on the way to the instruction.
func locked(in ssa.Instruction) bool {
	b := in.Block()
	for d := b; d != nil; d = d.Idom() {
		for _, x := range d.Instrs {
			if x == in {
				break
			}
			if c, ok := x.(*ssa.Call); ok {
				if s := c.Call.StaticCallee(); s != nil && s.Pkg != nil && s.Pkg.Pkg.Path() == "sync" && s.Name() == "Lock" {
					return true
				}
			}
		}
	}
	// a literal handed to sync.Once runs once, and everybody waits for it
	if f := in.Parent(); f.Parent() != nil {
		for _, b := range f.Parent().Blocks {
			for _, x := range b.Instrs {
				if c, ok := x.(ssa.CallInstruction); ok {
					if s := c.Common().StaticCallee(); s != nil && s.Pkg != nil && s.Pkg.Pkg.Path() == "sync" && strings.HasPrefix(s.Name(), "Once") || s != nil && s.Name() == "Do" && s.Pkg != nil && s.Pkg.Pkg.Path() == "sync" {
						for _, v := range c.Common().Args {
							if m, ok := v.(*ssa.MakeClosure); ok && m.Fn == f || v == ssa.Value(f) {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

func (w *flow) instr(g *ssa.Function, in ssa.Instruction) {
	if v, ok := in.(ssa.Value); ok {
		if _, isCall := in.(ssa.CallInstruction); !isCall && !carries(v.Type()) {
			return
		}
	}
	switch in := in.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		w.put(v, orig{roots: map[ssa.Value]bool{v: true}})
	case *ssa.MakeClosure:
		w.put(in, orig{roots: map[ssa.Value]bool{in: true}})
		fn := in.Fn.(*ssa.Function)
		for i, b := range in.Bindings {
			o := w.of(b)
			w.fill(w.of(in), o)
			if i < len(fn.FreeVars) {
				w.put(fn.FreeVars[i], o)
			}
		}
	case *ssa.FieldAddr:
		w.put(in, w.of(in.X))
	case *ssa.IndexAddr:
		w.put(in, w.of(in.X))
	case *ssa.UnOp:
		w.put(in, w.inside(w.of(in.X)))
	case *ssa.Field:
		w.put(in, w.of(in.X))
	case *ssa.Index:
		w.put(in, w.inside(w.of(in.X)))
		w.put(in, w.of(in.X))
	case *ssa.Lookup:
		w.put(in, w.inside(w.of(in.X)))
	case *ssa.Range:
		w.put(in, w.of(in.X))
	case *ssa.Next:
		w.put(in, w.inside(w.of(in.Iter)))
	case *ssa.Phi:
		for _, e := range in.Edges {
			w.put(in, w.of(e))
		}
	case *ssa.Slice:
		if c, ok := in.Max.(*ssa.Const); ok && c.Int64() == 0 {
			w.put(in, orig{roots: map[ssa.Value]bool{in: true}})
			return
		}
		w.put(in, w.of(in.X))
	case *ssa.Convert:
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			w.put(in, orig{roots: map[ssa.Value]bool{in: true}})
			return
		}
		w.put(in, w.of(in.X))
	case *ssa.ChangeType:
		w.put(in, w.of(in.X))
	case *ssa.ChangeInterface:
		w.put(in, w.of(in.X))
	case *ssa.MakeInterface:
		w.put(in, w.of(in.X))
	case *ssa.TypeAssert:
		w.put(in, w.of(in.X))
	case *ssa.SliceToArrayPointer:
		w.put(in, w.of(in.X))
	case *ssa.Extract:
		w.put(in, w.of(in.Tuple))
	case *ssa.Store:
		o := w.of(in.Addr)
		w.write(in, o, "a store")
		w.fill(o, w.of(in.Val))
	case *ssa.MapUpdate:
		o := w.of(in.Map)
		w.write(in, o, "a map update")
		w.fill(o, w.of(in.Key))
		w.fill(o, w.of(in.Value))
	case *ssa.Send:
		o := w.of(in.Chan)
		w.write(in, o, "a send")
		w.fill(o, w.of(in.X))
	case *ssa.Return:
		rs := w.ret[g]
		if rs == nil {
			rs = &orig{}
			w.ret[g] = rs
		}
		for _, r := range in.Results {
			if carries(r.Type()) && rs.add(w.of(r)) {
				w.changed = true
			}
		}
	case ssa.CallInstruction:
		w.call(g, in)
	}
}

func (w *flow) call(g *ssa.Function, in ssa.CallInstruction) {
	c := in.Common()
	var args []ssa.Value
	if c.IsInvoke() {
		args = append(args, c.Value)
	}
	args = append(args, c.Args...)
	var all orig
	os := make([]orig, len(args))
	for i, x := range args {
		if carries(x.Type()) {
			os[i] = w.of(x)
			all.add(os[i])
		}
	}
	res := in.Value()
	result := func(o orig, made bool) {
		if res == nil || !carries(res.Type()) {
			return
		}
		if made && isError(res.Type()) {
			// a library makes its errors anew
			w.put(res, orig{roots: map[ssa.Value]bool{res: true}})
			return
		}
		w.put(res, o)
		if made {
			r := orig{roots: map[ssa.Value]bool{res: true}}
			w.put(res, r)
			w.fill(r, all)
			w.fill(r, w.inside(all))
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			w.write(in.(ssa.Instruction), os[0], "an append to a list that is not the method's own")
			w.fill(os[0], os[1])
			w.fill(os[0], w.inside(os[1]))
			result(os[0], true)
		case "copy", "clear", "delete":
			w.write(in.(ssa.Instruction), os[0], "a "+b.Name())
			if b.Name() == "copy" {
				w.fill(os[0], w.inside(os[1]))
			}
		case "min", "max":
			result(all, false)
		}
		return
	}
	// functions of the package and literals: their parameters receive what
	// the call hands over
	callee := c.StaticCallee()
	if callee == nil {
		callee = literal(c.Value)
	}
	if callee != nil && w.a.emitted(callee) {
		w.include(callee)
		for i, p := range callee.Params {
			if i < len(os) && carries(p.Type()) {
				w.put(p, os[i])
			}
		}
		if r := w.ret[callee]; r != nil {
			result(*r, false)
		}
		return
	}
	for _, x := range args {
		if fn := literal(x); fn != nil && fn.Parent() != nil {
			for _, p := range fn.Params {
				if carries(p.Type()) {
					w.put(p, all)
					w.put(p, w.inside(all))
				}
			}
		}
	}
	if callee != nil {
		pkg, recv := "", ""
		if callee.Pkg != nil {
			pkg = callee.Pkg.Pkg.Path()
		}
		if sr := callee.Signature.Recv(); sr != nil {
			t := sr.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := t.(*types.Named); ok {
				recv = n.Obj().Name()
				if n.Obj().Pkg() != nil {
					pkg = n.Obj().Pkg().Path()
				}
			}
		}
		w.external(in, pkg, recv, callee.Name(), args, os, all, result)
		return
	}
	if c.IsInvoke() {
		pkg := ""
		if c.Method.Pkg() != nil {
			pkg = c.Method.Pkg().Path()
		}
		w.external(in, pkg, "interface", c.Method.Name(), args, os, all, result)
		return
	}
	// a call through a function value may reach any function of its type
	result(all, true)
}

func isError(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// literal is the function literal a value is known to be.
func literal(v ssa.Value) *ssa.Function {
	switch v := v.(type) {
	case *ssa.MakeClosure:
		return v.Fn.(*ssa.Function)
	case *ssa.Function:
		return v
	case *ssa.ChangeType:
		return literal(v.X)
	}
	return nil
}

var (
	// what writes into its arguments, by package
	sorters = map[string]bool{"Sort": true, "Stable": true, "Slice": true, "SliceStable": true, "Ints": true, "Strings": true, "Float64s": true, "SortFunc": true, "SortStableFunc": true, "Reverse": true, "Delete": true, "DeleteFunc": true,
		"Insert": true, "Replace": true, "Compact": true, "CompactFunc": true, "Copy": true, "Shuffle": true, "Heapify": true}
	setters = map[string]bool{"Reset": true, "Merge": true, "Unmarshal": true, "SetExtension": true, "ClearExtension": true, "ClearAllExtensions": true, "DiscardUnknown": true, "Set": true, "Clear": true, "Mutable": true, "SetUnknown": true, "Truncate": true, "Append": true, "AppendMutable": true, "Longest": true}
	// what returns something of its own
	cloners = map[string]bool{"Clone": true, "CloneOf": true, "Collect": true, "Sorted": true, "SortedFunc": true, "SortedStableFunc": true, "Concat": true, "ToLower": true, "ToUpper": true, "Map": true, "Repeat": true, "ReplaceAll": true, "Join": true, "Title": true, "Runes": true, "ToValidUTF8": true}
)

func (w *flow) external(in ssa.CallInstruction, pkg, recv, name string, args []ssa.Value, os []orig, all orig, result func(orig, bool)) {
	hit := func(i int) {
		if i < len(os) {
			o := os[i]
			// sort.Interface and the like hold the list inside
			o.add(w.inside(o))
			w.write(in.(ssa.Instruction), o, "a call of "+pkg+"."+name)
			for j := range os {
				if j != i {
					w.fill(os[i], os[j])
					w.fill(os[i], w.inside(os[j]))
				}
			}
		}
	}
	switch {
	case pkg == "sync" || pkg == "sync/atomic":
		if recv == "Pool" && name == "Get" {
			result(orig{}, true)
			return
		}
		result(all, false)
		return
	case recv == "" && (pkg == "sort" || pkg == "slices" || pkg == "maps" || strings.HasPrefix(pkg, "math/rand") || strings.HasPrefix(pkg, "golang.org/x/exp/")) && sorters[name]:
		hit(0)
	case pkg == "container/heap" && recv == "":
		hit(0)
	case recv == "" && strings.HasPrefix(pkg, "google.golang.org/protobuf/") && (setters[name] || strings.HasPrefix(name, "Marshal") && name == "MarshalFrom"):
		if name == "Unmarshal" {
			hit(1)
		} else {
			hit(0)
		}
	case recv == "" && name == "Unmarshal":
		hit(1)
	case pkg == "fmt" && strings.HasPrefix(name, "Fprint"):
		hit(0)
	case recv != "" && (setters[name] || strings.HasPrefix(name, "Set") || strings.HasPrefix(name, "Write") || strings.HasPrefix(name, "Unmarshal") && name != "UnmarshalNew" && name != "UnmarshalTo"):
		hit(0)
	case recv != "" && name == "UnmarshalTo":
		hit(1)
	}
	if recv == "" && cloners[name] {
		// a copy of its own
		if v := in.Value(); v != nil && carries(v.Type()) {
			o := orig{roots: map[ssa.Value]bool{v: true}}
			w.put(v, o)
			if pkg != "google.golang.org/protobuf/proto" {
				w.fill(o, w.inside(all))
			}
		}
		return
	}
	result(all, true)
}
