package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Program-wide, read-only tables.
type World struct {
	Prog  *ssa.Program
	Funcs map[string]*ssa.Function // by full name (String())
	Pkgs  map[string]*ssa.Package
	// Interpretable decides whether a function of package path is analysed
	// from source (true) or treated as an opaque library call (false).
	Interpretable func(path string) bool
	HostType      func(rt reflect.Type) types.Type
}

type Event struct {
	Kind string
	Pos  token.Position
	Fn   string
}

type Interp struct {
	W       *World
	Extra   *ssa.Program // additional program (emitted code), may be nil
	Globals map[*ssa.Global]Ptr
	inited  map[*ssa.Package]bool
	O       *Oracle
	Order   map[string]float64 // rank of term keys
	Small   map[string]bool    // symbols that fit a machine integer
	Facts   map[string]int     // preset atoms
	Steps   int
	Max     int
	Depth   int
	// Intercept is consulted before any static call.
	Intercept func(in *Interp, fn *ssa.Function, args []Value, pos token.Position) (Value, bool)
	// InvokeHook is consulted before any interface method call.
	InvokeHook func(in *Interp, recv Value, name string, args []Value, pos token.Position) (Value, bool)
	ConstHook  func(c *ssa.Const) (Value, bool)
	Scenario   interface{}
	// FactFn answers atoms that have a fixed truth value in the scenario.
	FactFn func(key string) (val, ok bool)
	// MapOrder chooses the order in which maps are ranged over: 0 as
	// inserted, 1 reversed, 2 rotated.
	MapOrder  int
	Unordered int // entries visited in an order that is not fixed
	Events    []Event
	Covered   map[*ssa.Function]bool
	TplUsed   map[string]string // executed templates: name -> text
	SideBuf   map[Ptr]*strings.Builder
	curPos    token.Position
}

func New(w *World, o *Oracle) *Interp {
	return &Interp{W: w, O: o, Globals: map[*ssa.Global]Ptr{}, inited: map[*ssa.Package]bool{},
		Order: map[string]float64{}, Facts: map[string]int{}, Max: 4000000, Covered: map[*ssa.Function]bool{}, TplUsed: map[string]string{},
		SideBuf: map[Ptr]*strings.Builder{}}
}

func (in *Interp) Undecided(f string, a ...interface{}) {
	panic(Undecided{Msg: fmt.Sprintf(f, a...), Pos: in.curPos})
}

func (in *Interp) Pos() token.Position { return in.curPos }

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	defers []deferred
	result Value
	panicv *GoPanic
}

func (in *Interp) fset(fn *ssa.Function) *token.FileSet { return fn.Prog.Fset }

func (in *Interp) get(fr *frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		if in.ConstHook != nil {
			if x, ok := in.ConstHook(v); ok {
				return x
			}
		}
		return constVal(v)
	case *ssa.Global:
		return in.GlobalPtr(v)
	case *ssa.Function:
		return v
	case *ssa.Builtin:
		return v
	}
	x, ok := fr.env[v]
	if !ok {
		in.Undecided("no value for %s in %s", v.Name(), fr.fn)
	}
	return x
}

func (in *Interp) GlobalPtr(g *ssa.Global) Ptr {
	if p, ok := in.Globals[g]; ok {
		return p
	}
	et := g.Type().Underlying().(*types.Pointer).Elem()
	p := NewPtr(Zero(et))
	in.Globals[g] = p
	in.InitPackage(g.Pkg)
	return p
}

// InitPackage evaluates the package's variable initialisers (without the
// init() functions of packages that are not ours).
func (in *Interp) InitPackage(p *ssa.Package) {
	if p == nil || in.inited[p] {
		return
	}
	in.inited[p] = true
	f := p.Func("init")
	if f == nil {
		return
	}
	if f.Blocks == nil {
		if p.Prog == in.W.Prog {
			p.Build()
		}
		if f.Blocks == nil {
			return
		}
	}
	save := in.curPos
	defer func() { in.curPos = save }()
	func() {
		// variable initialisers that cannot be analysed leave opaque globals
		in.callInit(f)
	}()
}

func (in *Interp) callInit(f *ssa.Function) {
	// mark guard false, run body but skip calls to other inits.
	in.CallFn(f, nil, nil)
}

// Call calls any function value.
func (in *Interp) Call(fv Value, args []Value) Value {
	switch f := fv.(type) {
	case *ssa.Function:
		if f == nil {
			in.GoPanic("call of nil function")
		}
		return in.CallStatic(f, args, nil)
	case *Closure:
		if f == nil {
			in.GoPanic("call of nil function")
		}
		return in.CallStatic(f.Fn, args, f.Env)
	case *NativeFn:
		return f.F(in, args)
	}
	in.Undecided("call of %T", fv)
	return nil
}

func (in *Interp) GoPanic(msg string) {
	panic(GoPanic{Msg: msg, Pos: in.curPos})
}

func fullName(fn *ssa.Function) string { return fn.String() }

func pkgOf(fn *ssa.Function) string {
	f := fn
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	if f.Parent() != nil {
		return pkgOf(f.Parent())
	}
	// synthetic wrappers
	if f.Signature.Recv() != nil {
		t := f.Signature.Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	return ""
}

func hasAbstract(args []Value) bool {
	for _, a := range args {
		if isAbstract(a, 0) {
			return true
		}
	}
	return false
}
func isAbstract(a Value, d int) bool {
	if d > 6 {
		return false
	}
	switch a := a.(type) {
	case *Term:
		return true
	case string:
		return HasHole(a)
	case Iface:
		return isAbstract(a.V, d+1)
	case Struct:
		for _, x := range a {
			if isAbstract(x, d+1) {
				return true
			}
		}
	case Array:
		for _, x := range a {
			if isAbstract(x, d+1) {
				return true
			}
		}
	case *Slice:
		if a == nil {
			return false
		}
		for i := 0; i < a.Len; i++ {
			if isAbstract(a.At(i), d+1) {
				return true
			}
		}
	case Ptr:
		if a == nil {
			return false
		}
		return isAbstract(*a, d+1)
	}
	return false
}

// CallStatic calls fn.
func (in *Interp) CallStatic(fn *ssa.Function, args []Value, env []Value) Value {
	if in.Intercept != nil && env == nil {
		if v, ok := in.Intercept(in, fn, args, in.curPos); ok {
			return v
		}
	}
	name := fullName(fn)
	if env == nil {
		if h, ok := intrinsics[name]; ok {
			return h(in, fn, args)
		}
		// methods on host entities
		if fn.Signature.Recv() != nil && len(args) > 0 {
			if h, ok := args[0].(Host); ok {
				return in.HostCall(h, fn.Name(), args[1:], fn.Signature)
			}
			if o, ok := args[0].(*Obj); ok && o != nil {
				if m, ok := o.Meth[fn.Name()]; ok {
					return m(in, args[1:])
				}
			}
			if i, ok := args[0].(Iface); ok {
				if h, ok := i.V.(Host); ok {
					return in.HostCall(h, fn.Name(), args[1:], fn.Signature)
				}
			}
		}
		if v, ok := in.reflectFold(name, fn, args); ok {
			return v
		}
		if v, ok := in.enumString(fn, args); ok {
			return v
		}
	}
	if fn.Prog != in.W.Prog && fn.Blocks == nil {
		// emitted program referring to a library function
		if g, ok := in.W.Funcs[name]; ok {
			fn = g
		}
	}
	path := pkgOf(fn)
	own := in.Extra != nil && fn.Prog == in.Extra && fn.Blocks != nil
	if env == nil && fn.Parent() == nil && !own && !in.W.Interpretable(path) {
		return in.Opaque(name, args, fn.Signature.Results())
	}
	if fn.Blocks == nil {
		if p := fn.Pkg; p != nil && fn.Prog == in.W.Prog {
			p.Build()
		}
		if fn.Blocks == nil {
			return in.Opaque(name, args, fn.Signature.Results())
		}
	}
	return in.CallFn(fn, args, env)
}

// Opaque is the result of a pure library call the analysis does not model.
func (in *Interp) Opaque(name string, args []Value, res *types.Tuple) Value {
	if !pureLibrary(name) {
		in.Undecided("call of unmodelled function %s", name)
	}
	for _, a := range args {
		switch a.(type) {
		case *Closure, *ssa.Function, *NativeFn:
			in.Undecided("function value passed to unmodelled %s", name)
		}
	}
	cp := make([]Value, len(args))
	for i, a := range args {
		cp[i] = freeze(a)
	}
	t := &Term{Op: name, Args: cp}
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return in.OpaqueOf(t, res.At(0).Type())
	}
	tp := make(Tuple, res.Len())
	for i := range tp {
		tp[i] = in.OpaqueOf(&Term{Op: fmt.Sprintf("%s#%d", name, i), Args: cp}, res.At(i).Type())
	}
	return tp
}

// OpaqueOf gives t the representation of its type.
func (in *Interp) OpaqueOf(t *Term, T types.Type) Value {
	t.T = T
	if b, ok := T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return HoleStr(t)
	}
	return t
}

func freeze(a Value) Value {
	switch a := a.(type) {
	case *Slice:
		if a == nil {
			return Array{}
		}
		ar := make(Array, a.Len)
		for i := range ar {
			ar[i] = Copy(a.At(i))
		}
		return ar
	case Struct, Array:
		return Copy(a)
	case Iface:
		return freeze(a.V)
	case Ptr:
		if a == nil {
			return nil
		}
		switch x := (*a).(type) {
		case Struct:
			return Copy(x)
		}
	}
	return a
}

func (in *Interp) CallFn(fn *ssa.Function, args []Value, env []Value) Value {
	in.Depth++
	if in.Depth > 400 {
		in.Depth = 0
		in.Undecided("recursion too deep in %s", fn)
	}
	defer func() { in.Depth-- }()
	in.Covered[fn] = true
	fr := &frame{fn: fn, env: make(map[ssa.Value]Value, 32)}
	if len(args) != len(fn.Params) {
		in.Undecided("arity mismatch calling %s", fn)
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = env[i]
	}
	for _, l := range fn.Locals {
		fr.env[l] = NewPtr(Zero(l.Type().Underlying().(*types.Pointer).Elem()))
	}
	fr.block = fn.Blocks[0]
	in.runFrame(fr)
	return fr.result
}

func (in *Interp) runFrame(fr *frame) {
	normal := false
	defer func() {
		if normal {
			return
		}
		r := recover()
		switch p := r.(type) {
		case GoPanic:
			fr.panicv = &p
			in.runDefers(fr)
			if fr.panicv != nil {
				panic(*fr.panicv)
			}
			// recovered
			if fr.fn.Recover != nil {
				fr.block = fr.fn.Recover
				fr.prev = nil
				in.loop(fr)
			} else {
				fr.result = zeroResult(fr.fn)
			}
		case Abort:
			panic(r)
		default:
			panic(r)
		}
	}()
	in.loop(fr)
	normal = true
}

func zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return Zero(r.At(0).Type())
	}
	return Zero(r)
}

func (in *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		in.doCall(fr, d.call, d.fn, d.args)
	}
}

func (in *Interp) loop(fr *frame) {
	for {
		b := fr.block
		// phis evaluated in parallel
		var phis []Value
		n := 0
		for _, ins := range b.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			n++
			for i, pred := range b.Preds {
				if pred == fr.prev {
					phis = append(phis, in.get(fr, phi.Edges[i]))
					break
				}
			}
		}
		for i := 0; i < n; i++ {
			fr.env[b.Instrs[i].(*ssa.Phi)] = phis[i]
		}
		var jumped bool
		for _, ins := range b.Instrs[n:] {
			in.Steps++
			if in.Steps > in.Max {
				in.Undecided("analysis step budget exceeded in %s", fr.fn)
			}
			if p := ins.Pos(); p.IsValid() {
				in.curPos = fr.fn.Prog.Fset.Position(p)
			}
			switch ins := ins.(type) {
			case *ssa.Jump:
				fr.prev, fr.block = b, b.Succs[0]
				jumped = true
			case *ssa.If:
				c := in.get(fr, ins.Cond)
				i := 1
				if in.Truth(c) {
					i = 0
				}
				fr.prev, fr.block = b, b.Succs[i]
				jumped = true
			case *ssa.Return:
				switch len(ins.Results) {
				case 0:
				case 1:
					fr.result = in.get(fr, ins.Results[0])
				default:
					t := make(Tuple, len(ins.Results))
					for i, r := range ins.Results {
						t[i] = in.get(fr, r)
					}
					fr.result = t
				}
				return
			case *ssa.Panic:
				v := in.get(fr, ins.X)
				panic(GoPanic{V: v, Msg: "explicit panic " + KeyOf(v), Pos: in.curPos})
			default:
				in.exec(fr, ins)
			}
			if jumped {
				break
			}
		}
		if !jumped {
			in.Undecided("block without terminator in %s", fr.fn)
		}
	}
}

// Truth resolves a boolean value.
func (in *Interp) Truth(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return in.Bool(v)
	}
	in.Undecided("truth of %T", v)
	return false
}

// Bool resolves a boolean term: structural simplification, facts, then split.
func (in *Interp) Bool(t *Term) bool {
	switch t.Op {
	case "!":
		return !in.Truth(t.Args[0])
	}
	if f, ok := in.Facts[t.Key()]; ok {
		return f == 1
	}
	if in.FactFn != nil {
		if v, ok := in.FactFn(t.Key()); ok {
			return v
		}
	}
	return in.O.Choose(t.Key(), 2) == 1
}

// IsNil decides x == nil for a term of nilable type.
func (in *Interp) IsNilTerm(t *Term) bool {
	if t.NonZero {
		return false
	}
	k := "isnil(" + t.Key() + ")"
	if f, ok := in.Facts[k]; ok {
		return f == 1
	}
	if in.FactFn != nil {
		if v, ok := in.FactFn(k); ok {
			return v
		}
	}
	return in.O.Choose(k, 2) == 1
}

func (in *Interp) exec(fr *frame, ins ssa.Instruction) {
	switch ins := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		fr.env[ins] = NewPtr(Zero(ins.Type().Underlying().(*types.Pointer).Elem()))
	case *ssa.UnOp:
		fr.env[ins] = in.unop(fr, ins)
	case *ssa.BinOp:
		fr.env[ins] = in.BinOp(ins.Op, ins.X.Type(), ins.Type(), in.get(fr, ins.X), in.get(fr, ins.Y))
	case *ssa.Call:
		fn, args := in.prepare(fr, &ins.Call)
		r := in.doCall(fr, &ins.Call, fn, args)
		fr.env[ins] = r
	case *ssa.ChangeInterface:
		fr.env[ins] = in.get(fr, ins.X)
	case *ssa.ChangeType:
		fr.env[ins] = in.get(fr, ins.X)
	case *ssa.Convert:
		fr.env[ins] = in.Convert(ins.X.Type(), ins.Type(), in.get(fr, ins.X))
	case *ssa.MultiConvert:
		fr.env[ins] = in.Convert(ins.X.Type(), ins.Type(), in.get(fr, ins.X))
	case *ssa.MakeInterface:
		v := in.get(fr, ins.X)
		fr.env[ins] = Iface{T: ins.X.Type(), V: Copy(v)}
	case *ssa.Extract:
		tv := in.get(fr, ins.Tuple)
		tp, ok := tv.(Tuple)
		if !ok {
			in.Undecided("extract from %T", tv)
		}
		fr.env[ins] = tp[ins.Index]
	case *ssa.Slice:
		fr.env[ins] = in.slice(fr, ins)
	case *ssa.Store:
		in.store(in.get(fr, ins.Addr), in.get(fr, ins.Val))
	case *ssa.MakeClosure:
		var env []Value
		for _, b := range ins.Bindings {
			env = append(env, in.get(fr, b))
		}
		fr.env[ins] = &Closure{Fn: ins.Fn.(*ssa.Function), Env: env}
	case *ssa.MakeMap:
		m := ins.Type().Underlying().(*types.Map)
		fr.env[ins] = NewMap(m.Key(), m.Elem())
	case *ssa.MakeSlice:
		n, ok := in.get(fr, ins.Len).(int64)
		if !ok {
			in.Undecided("make slice with abstract length")
		}
		c, ok := in.get(fr, ins.Cap).(int64)
		if !ok {
			c = n
		}
		et := ins.Type().Underlying().(*types.Slice).Elem()
		if c > 1<<16 {
			in.Undecided("huge slice")
		}
		a := make(Array, c)
		for i := range a {
			a[i] = Zero(et)
		}
		fr.env[ins] = &Slice{Arr: &a, Len: int(n), Cap: int(c), Elem: et}
	case *ssa.FieldAddr:
		p := in.get(fr, ins.X)
		fr.env[ins] = in.fieldAddr(p, ins)
	case *ssa.Field:
		x := in.get(fr, ins.X)
		switch s := x.(type) {
		case Struct:
			fr.env[ins] = Copy(s[ins.Field])
		case *Term:
			fr.env[ins] = in.OpaqueOf(&Term{Op: "." + ins.X.Type().Underlying().(*types.Struct).Field(ins.Field).Name(), Args: []Value{s}}, ins.Type())
		default:
			in.Undecided("field of %T", x)
		}
	case *ssa.IndexAddr:
		fr.env[ins] = in.indexAddr(fr, ins)
	case *ssa.Index:
		x := in.get(fr, ins.X)
		i := in.get(fr, ins.Index)
		switch s := x.(type) {
		case Array:
			fr.env[ins] = Copy(s[in.idx(i, len(s))])
		case string:
			fr.env[ins] = in.strIndex(s, i)
		default:
			in.Undecided("index of %T", x)
		}
	case *ssa.Lookup:
		fr.env[ins] = in.lookup(fr, ins)
	case *ssa.MapUpdate:
		m := in.get(fr, ins.Map)
		mm, ok := m.(*Map)
		if !ok {
			in.Undecided("map update on %T", m)
		}
		if mm == nil {
			in.GoPanic("assignment to entry in nil map")
		}
		k, v := Copy(in.get(fr, ins.Key)), Copy(in.get(fr, ins.Value))
		if i := in.mapFind(mm, k); i >= 0 {
			mm.Ent[i].V = v
		} else {
			mm.Set(k, v)
		}
	case *ssa.TypeAssert:
		fr.env[ins] = in.typeAssert(ins, in.get(fr, ins.X))
	case *ssa.Range:
		x := in.get(fr, ins.X)
		fr.env[ins] = in.makeRange(x, ins, fr)
	case *ssa.Next:
		it := in.get(fr, ins.Iter).(*iter)
		fr.env[ins] = it.next(in)
	case *ssa.Defer:
		fn, args := in.prepare(fr, &ins.Call)
		fr.defers = append(fr.defers, deferred{fn, args, &ins.Call})
	case *ssa.RunDefers:
		in.runDefers(fr)
	case *ssa.Go:
		in.Undecided("goroutine started in %s", fr.fn)
	case *ssa.MakeChan, *ssa.Send, *ssa.Select:
		in.Undecided("channel operation in %s", fr.fn)
	default:
		in.Undecided("instruction %T", ins)
	}
}

type iter struct {
	keys, vals []Value
	i          int
	kt, vt     types.Type
	str        bool
}

func (it *iter) next(in *Interp) Value {
	if it.i >= len(it.keys) {
		return Tuple{false, zeroOr(it.kt), zeroOr(it.vt)}
	}
	k, v := it.keys[it.i], it.vals[it.i]
	it.i++
	return Tuple{true, k, v}
}
func zeroOr(t types.Type) Value {
	if t == nil {
		return nil
	}
	return Zero(t)
}

// permute maps a position of a map's iteration to the entry visited.
func (in *Interp) permute(i, n int) int {
	if n > 1 {
		in.Unordered++
	}
	switch in.MapOrder {
	case 1:
		return n - 1 - i
	case 2:
		return (i + (n+1)/2) % n
	}
	return i
}

func (in *Interp) makeRange(x Value, ins *ssa.Range, fr *frame) Value {
	switch x := x.(type) {
	case string:
		if HasHole(x) {
			in.Undecided("iteration over the characters of an abstract string")
		}
		it := &iter{str: true, kt: types.Typ[types.Int], vt: types.Typ[types.Int32]}
		for i, r := range x {
			it.keys = append(it.keys, int64(i))
			it.vals = append(it.vals, int64(r))
		}
		return it
	case *Map:
		it := &iter{}
		in.Events = append(in.Events, Event{Kind: "maprange", Pos: in.fset(fr.fn).Position(ins.Pos()), Fn: fr.fn.String()})
		if x != nil {
			it.kt, it.vt = x.KT, x.VT
			for i := range x.Ent {
				e := x.Ent[in.permute(i, len(x.Ent))]
				it.keys = append(it.keys, Copy(e.K))
				it.vals = append(it.vals, Copy(e.V))
			}
		} else {
			mt := ins.X.Type().Underlying().(*types.Map)
			it.kt, it.vt = mt.Key(), mt.Elem()
		}
		return it
	}
	in.Undecided("range over %T", x)
	return nil
}

func (in *Interp) store(p Value, v Value) {
	pp, ok := p.(Ptr)
	if !ok {
		in.Undecided("store through %T", p)
	}
	if pp == nil {
		in.GoPanic("nil pointer dereference (store)")
	}
	*pp = Copy(v)
}

func (in *Interp) fieldAddr(p Value, ins *ssa.FieldAddr) Value {
	pp, ok := p.(Ptr)
	if !ok {
		switch x := p.(type) {
		case *Term:
			st := ins.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			return NewPtr(in.OpaqueOf(&Term{Op: "." + st.Field(ins.Field).Name(), Args: []Value{x}}, st.Field(ins.Field).Type()))
		case Host:
			st := ins.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			rv := x.RV
			if rv.Kind() == reflect.Ptr {
				if rv.IsNil() {
					in.GoPanic("nil pointer dereference")
				}
				rv = rv.Elem()
			}
			if rv.Kind() == reflect.Struct {
				if f := rv.FieldByName(st.Field(ins.Field).Name()); f.IsValid() && f.CanInterface() {
					if v, ok := in.fromReflect(f, st.Field(ins.Field).Type()); ok {
						return NewPtr(v)
					}
				}
			}
		}
		in.Undecided("field address of %T", p)
	}
	if pp == nil {
		in.GoPanic("nil pointer dereference")
	}
	s, ok := (*pp).(Struct)
	if !ok {
		in.Undecided("field address in %T", *pp)
	}
	return &s[ins.Field]
}

func (in *Interp) idx(i Value, n int) int {
	var k int
	switch x := i.(type) {
	case int64:
		k = int(x)
	case uint64:
		k = int(x)
	default:
		in.Undecided("abstract index")
	}
	if k < 0 || k >= n {
		in.GoPanic(fmt.Sprintf("index out of range [%d] with length %d", k, n))
	}
	return k
}

func (in *Interp) indexAddr(fr *frame, ins *ssa.IndexAddr) Value {
	x := in.get(fr, ins.X)
	i := in.get(fr, ins.Index)
	switch x := x.(type) {
	case *Slice:
		if x == nil {
			in.GoPanic("index of nil slice")
		}
		return x.Addr(in.idx(i, x.Len))
	case Ptr:
		if x == nil {
			in.GoPanic("nil pointer dereference")
		}
		a, ok := (*x).(Array)
		if !ok {
			in.Undecided("index address in %T", *x)
		}
		return &a[in.idx(i, len(a))]
	case *Term:
		et := ins.Type().Underlying().(*types.Pointer).Elem()
		return NewPtr(in.OpaqueOf(&Term{Op: "[]", Args: []Value{x, i}}, et))
	}
	in.Undecided("index address of %T", x)
	return nil
}

func (in *Interp) strIndex(s string, i Value) Value {
	if HasHole(s) {
		return &Term{Op: "[]", Args: []Value{s, i}, T: types.Typ[types.Uint8]}
	}
	return uint64(s[in.idx(i, len(s))])
}

// mapFind finds key k in m, resolving abstract equality.
func (in *Interp) mapFind(m *Map, k Value) int {
	if m == nil {
		return -1
	}
	if i, ok := m.Idx[mapKey(k)]; ok {
		return i
	}
	abs := isAbstract(k, 0)
	for i, e := range m.Ent {
		if abs || isAbstract(e.K, 0) {
			if in.Truth(in.Equal(m.KT, k, e.K)) {
				return i
			}
		}
	}
	return -1
}

func (in *Interp) lookup(fr *frame, ins *ssa.Lookup) Value {
	x := in.get(fr, ins.X)
	k := in.get(fr, ins.Index)
	switch x := x.(type) {
	case string:
		return in.strIndex(x, k)
	case *Map:
		vt := ins.X.Type().Underlying().(*types.Map).Elem()
		i := in.mapFind(x, k)
		if i >= 0 {
			if ins.CommaOk {
				return Tuple{Copy(x.Ent[i].V), true}
			}
			return Copy(x.Ent[i].V)
		}
		if ins.CommaOk {
			return Tuple{Zero(vt), false}
		}
		return Zero(vt)
	case *Term:
		vt := ins.X.Type().Underlying().(*types.Map).Elem()
		t := &Term{Op: "mapget", Args: []Value{x, k}}
		if ins.CommaOk {
			ok := &Term{Op: "maphas", Args: []Value{x, k}, T: types.Typ[types.Bool]}
			return Tuple{in.opaqueAny(t, vt), ok}
		}
		return in.opaqueAny(t, vt)
	}
	in.Undecided("lookup in %T", x)
	return nil
}

func (in *Interp) opaqueAny(t *Term, T types.Type) Value {
	if st, ok := T.Underlying().(*types.Struct); ok && st.NumFields() == 0 {
		return Struct{}
	}
	return in.OpaqueOf(t, T)
}

func (in *Interp) unop(fr *frame, ins *ssa.UnOp) Value {
	x := in.get(fr, ins.X)
	switch ins.Op {
	case token.MUL:
		p, ok := x.(Ptr)
		if !ok {
			switch y := x.(type) {
			case Host:
				return y
			case *Term:
				return in.OpaqueOf(&Term{Op: "*", Args: []Value{y}}, ins.Type())
			case *Obj:
				return y
			}
			in.Undecided("load through %T", x)
		}
		if p == nil {
			in.GoPanic("nil pointer dereference")
		}
		return Copy(*p)
	case token.NOT:
		switch b := x.(type) {
		case bool:
			return !b
		case *Term:
			return &Term{Op: "!", Args: []Value{b}, T: b.T}
		}
	case token.SUB:
		switch n := x.(type) {
		case int64:
			return wrap(ins.Type(), -n)
		case uint64:
			return wrap(ins.Type(), -n)
		case float64:
			return -n
		case *Term:
			return &Term{Op: "neg", Args: []Value{n}, T: n.T}
		}
	case token.XOR:
		switch n := x.(type) {
		case int64:
			return wrap(ins.Type(), ^n)
		case uint64:
			return wrap(ins.Type(), ^n)
		}
	}
	in.Undecided("unary %s on %T", ins.Op, x)
	return nil
}

func (in *Interp) slice(fr *frame, ins *ssa.Slice) Value {
	x := in.get(fr, ins.X)
	val := func(v ssa.Value, def int) int {
		if v == nil {
			return def
		}
		n, ok := in.get(fr, v).(int64)
		if !ok {
			if u, ok2 := in.get(fr, v).(uint64); ok2 {
				return int(u)
			}
			in.Undecided("abstract slice bound")
		}
		return int(n)
	}
	bad := func(lo, hi, n int) {
		if lo < 0 || hi < lo || hi > n {
			in.GoPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
	}
	switch s := x.(type) {
	case string:
		if HasHole(s) {
			var a []Value
			a = append(a, s)
			for _, b := range []ssa.Value{ins.Low, ins.High} {
				if b == nil {
					a = append(a, nil)
				} else {
					a = append(a, in.get(fr, b))
				}
			}
			if ins.Low == nil && ins.High == nil {
				return s
			}
			for _, b := range a[1:] {
				if n, ok := b.(int64); ok && n > 0 && in.Cmp(types.Typ[types.Int], in.Len(s), n) < 0 {
					in.GoPanic(fmt.Sprintf("slice bound %d out of range", n))
				}
				if t, ok := b.(*Term); ok && t.Op == "-" && len(t.Args) == 2 && KeyOf(t.Args[0]) == KeyOf(in.Len(s)) &&
					in.Cmp(types.Typ[types.Int], in.Len(s), t.Args[1]) < 0 {
					in.GoPanic("slice bound out of range")
				}
			}
			return HoleStr(&Term{Op: "substr", Args: a, T: ins.Type()})
		}
		lo := val(ins.Low, 0)
		hi := val(ins.High, len(s))
		bad(lo, hi, len(s))
		return s[lo:hi]
	case *Slice:
		if s == nil {
			lo, hi := val(ins.Low, 0), val(ins.High, 0)
			bad(lo, hi, 0)
			return s
		}
		lo, hi := val(ins.Low, 0), val(ins.High, s.Len)
		bad(lo, hi, s.Cap)
		c := s.Cap
		if ins.Max != nil {
			c = val(ins.Max, s.Cap)
		}
		return &Slice{Arr: s.Arr, Off: s.Off + lo, Len: hi - lo, Cap: c - lo, Elem: s.Elem}
	case Ptr:
		if s == nil {
			in.GoPanic("slice of nil array pointer")
		}
		a, ok := (*s).(Array)
		if !ok {
			in.Undecided("slice of %T", *s)
		}
		lo, hi := val(ins.Low, 0), val(ins.High, len(a))
		bad(lo, hi, len(a))
		// share the backing array
		et := ins.Type().Underlying().(*types.Slice).Elem()
		backing := a
		return &Slice{Arr: &backing, Off: lo, Len: hi - lo, Cap: len(a) - lo, Elem: et}
	case *Term:
		if ins.Low == nil && ins.High == nil {
			return s
		}
		var a []Value
		a = append(a, s)
		for _, b := range []ssa.Value{ins.Low, ins.High} {
			if b == nil {
				a = append(a, nil)
			} else {
				a = append(a, in.get(fr, b))
			}
		}
		return &Term{Op: "subslice", Args: a, T: ins.Type()}
	}
	in.Undecided("slice of %T", x)
	return nil
}

// dynamic type of an interface value
func (in *Interp) typeAssert(ins *ssa.TypeAssert, x Value) Value {
	fail := func() Value {
		if ins.CommaOk {
			return Tuple{Zero(ins.AssertedType), false}
		}
		in.GoPanic("interface conversion to " + ins.AssertedType.String())
		return nil
	}
	ok := func(v Value) Value {
		if ins.CommaOk {
			return Tuple{v, true}
		}
		return v
	}
	if t, isT := x.(*Term); isT {
		// abstract interface value: both outcomes
		k := &Term{Op: "is " + ins.AssertedType.String(), Args: []Value{t}, T: types.Typ[types.Bool]}
		if in.Bool(k) {
			if types.IsInterface(ins.AssertedType) {
				return ok(t)
			}
			return ok(in.OpaqueOf(&Term{Op: "as " + ins.AssertedType.String(), Args: []Value{t}}, ins.AssertedType))
		}
		return fail()
	}
	i, isI := x.(Iface)
	if !isI {
		in.Undecided("type assertion on %T", x)
	}
	if i.T == nil {
		return fail()
	}
	if types.IsInterface(ins.AssertedType) {
		it := ins.AssertedType.Underlying().(*types.Interface)
		if types.Implements(i.T, it) {
			return ok(i)
		}
		return fail()
	}
	if types.Identical(i.T, ins.AssertedType) {
		return ok(i.V)
	}
	return fail()
}

func (in *Interp) prepare(fr *frame, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	fn := in.get(fr, c.Value)
	if c.IsInvoke() {
		args = append(args, fn)
		fn = nil
	}
	for _, a := range c.Args {
		args = append(args, in.get(fr, a))
	}
	return fn, args
}

func (in *Interp) doCall(fr *frame, c *ssa.CallCommon, fn Value, args []Value) Value {
	if c.IsInvoke() {
		return in.Invoke(args[0], c.Method, args[1:])
	}
	switch f := fn.(type) {
	case *ssa.Builtin:
		return in.builtin(fr, f, c, args)
	case *Term:
		return in.Opaque(f.Key(), args, c.Signature().Results())
	}
	if f, ok := fn.(*ssa.Function); ok && f != nil {
		// initialisation of other packages is handled lazily
		if f.Synthetic != "" && f.Name() == "init" && fr.fn.Name() == "init" {
			return nil
		}
		if fr.fn.Synthetic != "" && fr.fn.Name() == "init" && strings.HasPrefix(f.Name(), "init#") {
			if f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/validate") {
				return nil // generated descriptor registration
			}
			if !in.W.Interpretable(f.Pkg.Pkg.Path()) {
				return nil
			}
		}
	}
	// method call through promoted/embedded nil etc. handled by callee
	return in.Call(fn, args)
}

func (in *Interp) Invoke(recv Value, m *types.Func, args []Value) Value {
	if in.InvokeHook != nil {
		if v, ok := in.InvokeHook(in, recv, m.Name(), args, in.curPos); ok {
			return v
		}
	}
	switch r := recv.(type) {
	case Iface:
		if r.T == nil {
			in.GoPanic("method " + m.Name() + " called on nil interface")
		}
		switch v := r.V.(type) {
		case Host:
			return in.HostCall(v, m.Name(), args, m.Type().(*types.Signature))
		case *Obj:
			if v != nil {
				if f, ok := v.Meth[m.Name()]; ok {
					return f(in, args)
				}
				in.Undecided("method %s on modelled %s", m.Name(), v.Kind)
			}
		}
		return in.CallMethod(r, m.Name(), m.Pkg(), args)
	case *Term:
		return in.Opaque("invoke."+m.Name(), append([]Value{r}, args...), m.Type().(*types.Signature).Results())
	}
	in.Undecided("invoke %s on %T", m.Name(), recv)
	return nil
}

func (in *Interp) progOf(t types.Type) *ssa.Program {
	if in.Extra != nil {
		u := t
		if p, ok := u.(*types.Pointer); ok {
			u = p.Elem()
		}
		if n, ok := u.(*types.Named); ok && n.Obj().Pkg() != nil {
			if in.W.Pkgs[n.Obj().Pkg().Path()] == nil || in.W.Pkgs[n.Obj().Pkg().Path()].Pkg != n.Obj().Pkg() {
				return in.Extra
			}
		}
	}
	return in.W.Prog
}

// CallMethod calls the named method on a concrete value.
func (in *Interp) CallMethod(r Iface, name string, pkg *types.Package, args []Value) Value {
	fn := in.FindMethod(r.T, name, pkg)
	if fn == nil {
		in.Undecided("no method %s on %s", name, r.T)
	}
	return in.CallStatic(fn, append([]Value{r.V}, args...), nil)
}

func (in *Interp) FindMethod(T types.Type, name string, pkg *types.Package) *ssa.Function {
	prog := in.progOf(T)
	ms := prog.MethodSets.MethodSet(T)
	sel := ms.Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return prog.MethodValue(sel)
}

// ---- operators ----

func isConcrete(v Value) bool {
	switch x := v.(type) {
	case bool, int64, uint64, float64:
		return true
	case string:
		return !HasHole(x)
	}
	return false
}

func (in *Interp) BinOp(op token.Token, xt, rt types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		return in.Equal(xt, x, y)
	case token.NEQ:
		r := in.Equal(xt, x, y)
		switch b := r.(type) {
		case bool:
			return !b
		case *Term:
			return &Term{Op: "!", Args: []Value{b}, T: b.T}
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		c := in.Cmp(xt, x, y)
		switch op {
		case token.LSS:
			return c < 0
		case token.LEQ:
			return c <= 0
		case token.GTR:
			return c > 0 && c != 2
		case token.GEQ:
			return c >= 0 && c != 2
		}
	}
	_, xa := x.(*Term)
	_, ya := y.(*Term)
	if s, ok := x.(string); ok && op == token.ADD {
		return s + y.(string)
	}
	if xa || ya {
		// comparisons handled above; arithmetic on abstract values is opaque
		if op == token.ADD {
			// seconds and nanoseconds of one instant
			for _, p := range [][2]Value{{x, y}, {y, x}} {
				if m, ok := p[0].(*Term); ok && m.Op == "*" && len(m.Args) == 2 {
					for i := 0; i < 2; i++ {
						if k, ok := m.Args[i].(int64); ok && k == 1000000000 {
							if n := pairLeaf(m.Args[1-i], p[1]); n != "" {
								return &Term{Op: n, T: rt}
							}
						}
					}
				}
			}
		}
		switch op {
		case token.ADD, token.SUB:
			// identity
			if z, ok := y.(int64); ok && z == 0 {
				return x
			}
			if z, ok := y.(uint64); ok && z == 0 {
				return x
			}
			if z, ok := x.(int64); ok && z == 0 && op == token.ADD {
				return y
			}
		case token.MUL:
			if z, ok := y.(int64); ok && z == 1 {
				return x
			}
			if z, ok := x.(int64); ok && z == 1 {
				return y
			}
		}
		return &Term{Op: op.String(), Args: []Value{x, y}, T: rt}
	}
	switch a := x.(type) {
	case int64:
		if op == token.SHL || op == token.SHR {
			var n uint64
			switch b := y.(type) {
			case int64:
				n = uint64(b)
			case uint64:
				n = b
			}
			if op == token.SHL {
				return wrap(rt, a<<n)
			}
			return wrap(rt, a>>n)
		}
		b, ok := y.(int64)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			return wrap(rt, a+b)
		case token.SUB:
			return wrap(rt, a-b)
		case token.MUL:
			return wrap(rt, a*b)
		case token.QUO:
			if b == 0 {
				in.GoPanic("integer divide by zero")
			}
			return wrap(rt, a/b)
		case token.REM:
			if b == 0 {
				in.GoPanic("integer divide by zero")
			}
			return wrap(rt, a%b)
		case token.AND:
			return wrap(rt, a&b)
		case token.OR:
			return wrap(rt, a|b)
		case token.XOR:
			return wrap(rt, a^b)
		case token.AND_NOT:
			return wrap(rt, a&^b)
		}
	case uint64:
		if op == token.SHL || op == token.SHR {
			var n uint64
			switch b := y.(type) {
			case int64:
				n = uint64(b)
			case uint64:
				n = b
			}
			if op == token.SHL {
				return wrap(rt, a<<n)
			}
			return wrap(rt, a>>n)
		}
		b, ok := y.(uint64)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			return wrap(rt, a+b)
		case token.SUB:
			return wrap(rt, a-b)
		case token.MUL:
			return wrap(rt, a*b)
		case token.QUO:
			if b == 0 {
				in.GoPanic("integer divide by zero")
			}
			return wrap(rt, a/b)
		case token.REM:
			if b == 0 {
				in.GoPanic("integer divide by zero")
			}
			return wrap(rt, a%b)
		case token.AND:
			return wrap(rt, a&b)
		case token.OR:
			return wrap(rt, a|b)
		case token.XOR:
			return wrap(rt, a^b)
		case token.AND_NOT:
			return wrap(rt, a&^b)
		}
	case float64:
		b, ok := y.(float64)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			return wrap(rt, a+b)
		case token.SUB:
			return wrap(rt, a-b)
		case token.MUL:
			return wrap(rt, a*b)
		case token.QUO:
			return wrap(rt, a/b)
		}
	case bool:
		if b, ok := y.(bool); ok {
			switch op {
			case token.AND, token.LAND:
				return a && b
			case token.OR, token.LOR:
				return a || b
			}
		}
	}
	in.Undecided("binary %s on %T and %T", op, x, y)
	return nil
}

func boolT() types.Type { return types.Typ[types.Bool] }

// Equal computes x == y (bool or Term).
func (in *Interp) Equal(t types.Type, x, y Value) Value {
	switch a := x.(type) {
	case nil:
		if y == nil {
			return true
		}
		return in.Equal(t, y, x)
	case *Term:
		return in.termEq(t, a, y)
	}
	if b, ok := y.(*Term); ok {
		return in.termEq(t, b, x)
	}
	switch a := x.(type) {
	case bool:
		b, ok := y.(bool)
		return ok && a == b
	case int64:
		b, ok := y.(int64)
		return ok && a == b
	case uint64:
		b, ok := y.(uint64)
		return ok && a == b
	case float64:
		b, ok := y.(float64)
		return ok && a == b
	case string:
		b, ok := y.(string)
		if !ok {
			return false
		}
		if a == b {
			return true
		}
		if !HasHole(a) && !HasHole(b) {
			return false
		}
		return in.strEq(a, b)
	case Ptr:
		switch b := y.(type) {
		case Ptr:
			return a == b
		case nil:
			return a == nil
		}
		return false
	case *Slice:
		if y == nil {
			return a == nil
		}
		if b, ok := y.(*Slice); ok {
			return a == nil && b == nil
		}
	case *Map:
		if y == nil {
			return a == nil
		}
		if b, ok := y.(*Map); ok {
			return a == b
		}
	case *Closure:
		switch b := y.(type) {
		case *Closure:
			return a == b
		case nil:
			return a == nil
		}
		return false
	case *ssa.Function:
		if b, ok := y.(*ssa.Function); ok {
			return a == b
		}
		return false
	case *NativeFn:
		return x == y
	case *Obj:
		switch b := y.(type) {
		case *Obj:
			return a == b
		}
		return false
	case Host:
		b, ok := y.(Host)
		if !ok {
			return false
		}
		return a.RV.Interface() == b.RV.Interface()
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			if y == nil {
				return a.T == nil
			}
			return false
		}
		if a.T == nil || b.T == nil {
			if a.T == nil && b.T == nil {
				return true
			}
			return false
		}
		if !types.Identical(a.T, b.T) {
			return false
		}
		return in.Equal(a.T, a.V, b.V)
	case Struct:
		b := y.(Struct)
		st, _ := t.Underlying().(*types.Struct)
		for i := range a {
			var ft types.Type
			if st != nil {
				ft = st.Field(i).Type()
			}
			if !in.Truth(in.Equal(ft, a[i], b[i])) {
				return false
			}
		}
		return true
	case Array:
		b := y.(Array)
		for i := range a {
			if !in.Truth(in.Equal(nil, a[i], b[i])) {
				return false
			}
		}
		return true
	}
	in.Undecided("equality of %T and %T", x, y)
	return nil
}

func rankKey(v Value) string {
	switch x := v.(type) {
	case *Term:
		return x.Key()
	case string:
		if t := SingleHole(x); t != nil {
			return t.Key()
		}
	}
	return KeyOf(v)
}

func (in *Interp) ranks(x, y Value) (float64, float64, bool) {
	a, ok1 := in.rank(x)
	b, ok2 := in.rank(y)
	return a, b, ok1 && ok2
}

// rank is the position of v in the scenario's order; numbers are their own.
func (in *Interp) rank(v Value) (float64, bool) {
	if r, ok := in.Order[rankKey(v)]; ok {
		return r, true
	}
	switch n := v.(type) {
	case int64:
		return float64(n), true
	case uint64:
		return float64(n), true
	case float64:
		return n, !math.IsNaN(n)
	case *Term:
		// a length bound viewed as a machine integer keeps its position
		if (n.Op == "conv:int" || n.Op == "conv:int64" || n.Op == "conv:uint64") && len(n.Args) == 1 && in.Small[rankKey(n.Args[0])] {
			return in.rank(n.Args[0])
		}
	}
	return 0, false
}

// injective compares two renderings of values of one basic type.
func (in *Interp) injective(a, b string) (Value, bool) {
	h := SingleHole(a)
	if h == nil {
		a, b = b, a
		if h = SingleHole(a); h == nil {
			return nil, false
		}
	}
	if h.Op != "quote" && !strings.HasPrefix(h.Op, "fmt:") || len(h.Args) != 1 {
		return nil, false
	}
	T := types.Type(types.Typ[types.String])
	if h.Op != "quote" {
		t, ok := h.Args[0].(*Term)
		if !ok || t.T == nil {
			return nil, false
		}
		bt, ok := t.T.Underlying().(*types.Basic)
		if !ok || bt.Info()&types.IsNumeric == 0 || h.Op != "fmt:v" && h.Op != "fmt:d" {
			return nil, false
		}
		T = bt
	}
	if g := SingleHole(b); g != nil {
		if g.Op != h.Op || len(g.Args) != 1 {
			return nil, false
		}
		if gt, ok := g.Args[0].(*Term); ok && h.Op != "quote" && (gt.T == nil || !types.Identical(gt.T.Underlying(), T)) {
			return nil, false
		}
		return in.Equal(T, h.Args[0], g.Args[0]), true
	}
	if HasHole(b) {
		return nil, false
	}
	bt := T.(*types.Basic)
	switch {
	case h.Op == "quote":
		if s, err := strconv.Unquote(b); err == nil {
			return in.Equal(T, h.Args[0], s), true
		}
		return false, true
	case bt.Info()&types.IsUnsigned != 0:
		if n, err := strconv.ParseUint(b, 10, 64); err == nil {
			return in.Equal(T, h.Args[0], n), true
		}
		return false, true
	case bt.Info()&types.IsInteger != 0:
		if n, err := strconv.ParseInt(b, 10, 64); err == nil {
			return in.Equal(T, h.Args[0], n), true
		}
		return false, true
	case bt.Info()&types.IsFloat != 0:
		if n, err := strconv.ParseFloat(b, 64); err == nil && n == n {
			return in.Equal(T, h.Args[0], n), true
		}
	}
	return nil, false
}

func (in *Interp) strEq(a, b string) Value {
	if v, ok := in.injective(a, b); ok {
		return v
	}
	if v := in.substrEq(a, b); v != nil {
		return v
	}
	if v := in.substrEq(b, a); v != nil {
		return v
	}
	if ra, rb, ok := in.ranks(a, b); ok {
		return ra == rb
	}
	// a nonempty attribute against ""
	for _, p := range [][2]string{{a, b}, {b, a}} {
		if p[1] == "" {
			if strNonEmpty(p[0]) {
				return false
			}
		}
	}
	ka, kb := KeyOf(a), KeyOf(b)
	if ka > kb {
		ka, kb = kb, ka
	}
	t := &Term{Op: "eq", Args: []Value{raw(ka), raw(kb)}, T: boolT()}
	return t
}

type rawKey string

func raw(s string) Value { return &Term{Op: s} }

func strNonEmpty(s string) bool {
	for _, g := range Segs(s) {
		if g.Hole == nil && g.Lit != "" {
			return true
		}
		if g.Hole != nil && (g.Hole.NonZero || strings.HasPrefix(g.Hole.Op, "fmt:") || g.Hole.Op == "quote") {
			return true
		}
	}
	return false
}

func (in *Interp) termEq(t types.Type, a *Term, y Value) Value {
	if b, ok := y.(*Term); ok && b.Key() == a.Key() {
		return true
	}
	// nil comparisons
	switch b := y.(type) {
	case nil:
		return in.IsNilTerm(a)
	case Iface:
		if b.T == nil {
			return in.IsNilTerm(a)
		}
	case Ptr:
		if b == nil {
			return in.IsNilTerm(a)
		}
	case *Slice:
		if b == nil {
			return in.IsNilTerm(a)
		}
	case *Map:
		if b == nil {
			return in.IsNilTerm(a)
		}
	case *Closure:
		if b == nil {
			return in.IsNilTerm(a)
		}
	case bool:
		if b {
			return a
		}
		return &Term{Op: "!", Args: []Value{a}, T: a.T}
	}
	if ra, rb, ok := in.ranks(a, y); ok {
		return ra == rb
	}
	if a.T != nil {
		if bt, ok := a.T.Underlying().(*types.Basic); ok && bt.Info()&types.IsNumeric != 0 {
			return in.Cmp(t, a, y) == 0
		}
	}
	ka, kb := a.Key(), KeyOf(y)
	if ka > kb {
		ka, kb = kb, ka
	}
	return &Term{Op: "eq", Args: []Value{raw(ka), raw(kb)}, T: boolT()}
}

func nonNegative(v Value) bool {
	switch x := v.(type) {
	case *Term:
		if x.Positive || x.Op == "len" || x.Op == "unicode/utf8.RuneCountInString" || x.Op == "unicode/utf8.RuneCount" {
			return true
		}
		if x.T != nil {
			if b, ok := x.T.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
				return true
			}
		}
	}
	return false
}

func isZero(v Value) bool {
	switch x := v.(type) {
	case int64:
		return x == 0
	case uint64:
		return x == 0
	case float64:
		return x == 0
	}
	return false
}

// Cmp is the three-way comparison of x and y; abstract ones are split.
func (in *Interp) Cmp(t types.Type, x, y Value) int {
	switch a := x.(type) {
	case int64:
		if b, ok := y.(int64); ok {
			return cmp3(a < b, a > b)
		}
	case uint64:
		if b, ok := y.(uint64); ok {
			return cmp3(a < b, a > b)
		}
	case float64:
		if b, ok := y.(float64); ok {
			if math.IsNaN(a) || math.IsNaN(b) {
				return 2
			}
			return cmp3(a < b, a > b)
		}
	case string:
		if b, ok := y.(string); ok && !HasHole(a) && !HasHole(b) {
			return strings.Compare(a, b)
		}
	}
	if rankKey(x) == rankKey(y) {
		return 0
	}
	// differences of instants compared with zero
	if tx, ok := x.(*Term); ok && tx.Op == "time.sub" && isZero(y) {
		return in.Cmp(t, tx.Args[0], tx.Args[1])
	}
	if ty, ok := y.(*Term); ok && ty.Op == "time.sub" && isZero(x) {
		return in.Cmp(t, ty.Args[1], ty.Args[0])
	}
	if ra, rb, ok := in.ranks(x, y); ok {
		return cmp3(ra < rb, ra > rb)
	}
	// attributes against zero
	if isZero(y) {
		if tx, ok := x.(*Term); ok && tx.Positive {
			return 1
		}
	}
	if isZero(x) {
		if ty, ok := y.(*Term); ok && ty.Positive {
			return -1
		}
	}
	kx, ky := rankKey(x), rankKey(y)
	sw := 1
	a, b := x, y
	if kx > ky {
		kx, ky = ky, kx
		a, b = y, x
		sw = -1
	}
	key := "cmp(" + kx + "," + ky + ")"
	if f, ok := in.Facts[key]; ok {
		return sw * f
	}
	nz := false
	if ta, ok := a.(*Term); ok && ta.NonZero && isZero(b) {
		nz = true
	}
	if tb, ok := b.(*Term); ok && tb.NonZero && isZero(a) {
		nz = true
	}
	var opts []int
	for _, c := range []int{-1, 0, 1} {
		if c == 0 && nz {
			continue
		}
		if c == -1 && isZero(b) && nonNegative(a) {
			continue
		}
		if c == 1 && isZero(a) && nonNegative(b) {
			continue
		}
		opts = append(opts, c)
	}
	if len(opts) == 1 {
		return sw * opts[0]
	}
	c := in.O.Choose(key, len(opts))
	return sw * opts[c]
}

func cmp3(lt, gt bool) int {
	if lt {
		return -1
	}
	if gt {
		return 1
	}
	return 0
}

func lossless(from, to *types.Basic) bool {
	fi, ti := from.Info(), to.Info()
	if fi&types.IsInteger != 0 && ti&types.IsInteger != 0 {
		fu, tu := fi&types.IsUnsigned != 0, ti&types.IsUnsigned != 0
		fb, tb := bits(from), bits(to)
		if fu == tu {
			return tb >= fb
		}
		if fu && !tu {
			return tb > fb
		}
		return false
	}
	if fi&types.IsFloat != 0 && ti&types.IsFloat != 0 {
		return from.Kind() == to.Kind() || to.Kind() == types.Float64
	}
	return false
}

func isRuneSlice(t *types.Slice) bool {
	b, ok := t.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

// Convert implements conversions.
func (in *Interp) Convert(from, to types.Type, v Value) Value {
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	if t, ok := v.(*Term); ok {
		if fb != nil && tb != nil {
			if tb.Info()&types.IsString != 0 {
				return HoleStr(&Term{Op: "string(rune)", Args: []Value{t}, T: to})
			}
			if lossless(fb, tb) {
				// value preserving: same abstract value, new type
				return &Term{Op: t.Op, Args: t.Args, T: to, NonZero: t.NonZero, Positive: t.Positive}
			}
			if t.Op == "len" || t.Op == "unicode/utf8.RuneCountInString" {
				return &Term{Op: t.Op, Args: t.Args, T: to, NonZero: t.NonZero, Positive: t.Positive}
			}
			// an enum value or an int64<->uint64 rule bound viewed as another
			// integer type: modular, value changes only outside the range
			return &Term{Op: "conv:" + tb.Name(), Args: []Value{t}, T: to}
		}
		if tb != nil && tb.Info()&types.IsString != 0 {
			if (t.Op == "bytes" || t.Op == "runes") && len(t.Args) == 1 {
				return t.Args[0]
			}
			// []byte -> string view
			return HoleStr(&Term{Op: "string", Args: []Value{t}, T: to})
		}
		return &Term{Op: t.Op, Args: t.Args, T: to, NonZero: t.NonZero}
	}
	if fb != nil && tb != nil {
		switch {
		case tb.Info()&types.IsString != 0:
			switch x := v.(type) {
			case string:
				return x
			case int64:
				return string(rune(x))
			case uint64:
				return string(rune(x))
			}
		case tb.Info()&types.IsInteger != 0:
			if f, ok := v.(float64); ok {
				if tb.Info()&types.IsUnsigned != 0 {
					return wrap(to, uint64(f))
				}
				return wrap(to, int64(f))
			}
			return wrap(to, v)
		case tb.Info()&types.IsFloat != 0:
			switch x := v.(type) {
			case int64:
				return wrap(to, float64(x))
			case uint64:
				return wrap(to, float64(x))
			case float64:
				return wrap(to, x)
			}
		case tb.Kind() == types.UnsafePointer || fb.Kind() == types.UnsafePointer:
			in.Undecided("unsafe conversion")
		}
	}
	// string <-> []byte / []rune
	if ts, ok := to.Underlying().(*types.Slice); ok {
		if s, ok := v.(string); ok {
			if HasHole(s) {
				if isRuneSlice(ts) {
					return &Term{Op: "runes", Args: []Value{s}, T: to}
				}
				return &Term{Op: "bytes", Args: []Value{s}, T: to}
			}
			eb := ts.Elem().Underlying().(*types.Basic)
			var vs []Value
			if eb.Kind() == types.Uint8 {
				for i := 0; i < len(s); i++ {
					vs = append(vs, uint64(s[i]))
				}
			} else {
				for _, r := range s {
					vs = append(vs, int64(r))
				}
			}
			return MkSlice(ts.Elem(), vs...)
		}
		return v
	}
	if tb != nil && tb.Info()&types.IsString != 0 {
		if s, ok := v.(*Slice); ok {
			return in.BytesToString(s)
		}
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return v
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	in.Undecided("conversion %s -> %s of %T", from, to, v)
	return nil
}

// BytesToString converts a byte (or rune) slice value.
func (in *Interp) BytesToString(s *Slice) Value {
	if s == nil {
		return ""
	}
	var sb strings.Builder
	for i := 0; i < s.Len; i++ {
		switch x := s.At(i).(type) {
		case uint64:
			sb.WriteByte(byte(x))
		case int64:
			sb.WriteRune(rune(x))
		case *Term:
			return HoleStr(&Term{Op: "string", Args: []Value{freeze(s)}, T: types.Typ[types.String]})
		}
	}
	return sb.String()
}

func (in *Interp) Len(v Value) Value {
	switch x := v.(type) {
	case string:
		if HasHole(x) {
			t := &Term{Op: "len", Args: []Value{x}, T: types.Typ[types.Int]}
			if strNonEmpty(x) {
				t.Positive = true
			}
			return t
		}
		return int64(len(x))
	case *Slice:
		if x == nil {
			return int64(0)
		}
		return int64(x.Len)
	case *Map:
		if x == nil {
			return int64(0)
		}
		return int64(len(x.Ent))
	case Array:
		return int64(len(x))
	case Ptr:
		if x != nil {
			if a, ok := (*x).(Array); ok {
				return int64(len(a))
			}
		}
	case *Term:
		if x.Op == "bytes" {
			return in.Len(x.Args[0])
		}
		if x.Op == "runes" {
			return &Term{Op: "unicode/utf8.RuneCountInString", Args: x.Args, T: types.Typ[types.Int]}
		}
		return &Term{Op: "len", Args: []Value{x}, T: types.Typ[types.Int], Positive: x.NonZero}
	}
	in.Undecided("len of %T", v)
	return nil
}

func (in *Interp) builtin(fr *frame, b *ssa.Builtin, c *ssa.CallCommon, args []Value) Value {
	switch b.Name() {
	case "len":
		return in.Len(args[0])
	case "cap":
		if s, ok := args[0].(*Slice); ok {
			if s == nil {
				return int64(0)
			}
			return int64(s.Cap)
		}
		return in.Len(args[0])
	case "append":
		st, _ := c.Args[0].Type().Underlying().(*types.Slice)
		var et types.Type
		if st != nil {
			et = st.Elem()
		}
		var items []Value
		if s, ok := args[0].(*Slice); ok {
			if s != nil {
				for i := 0; i < s.Len; i++ {
					items = append(items, s.At(i))
				}
			}
		} else {
			return &Term{Op: "append", Args: []Value{args[0], freeze(args[1])}, T: c.Args[0].Type()}
		}
		if len(args) > 1 {
			switch y := args[1].(type) {
			case *Slice:
				if y != nil {
					for i := 0; i < y.Len; i++ {
						items = append(items, Copy(y.At(i)))
					}
				}
			case string:
				if HasHole(y) {
					in.Undecided("append of abstract string bytes")
				}
				for i := 0; i < len(y); i++ {
					items = append(items, uint64(y[i]))
				}
			case *Term:
				return &Term{Op: "append", Args: []Value{freeze(args[0]), y}, T: c.Args[0].Type()}
			default:
				in.Undecided("append of %T", y)
			}
		}
		if s := args[0].(*Slice); s != nil && len(items) <= s.Cap && len(items) >= s.Len {
			// in-place growth within capacity (aliasing semantics)
			ok := s.Off+len(items) <= len(*s.Arr)
			if ok {
				for i := s.Len; i < len(items); i++ {
					(*s.Arr)[s.Off+i] = items[i]
				}
				return &Slice{Arr: s.Arr, Off: s.Off, Len: len(items), Cap: s.Cap, Elem: et}
			}
		}
		if len(items) == 0 {
			if s := args[0].(*Slice); s != nil {
				return s
			}
			return (*Slice)(nil)
		}
		return MkSlice(et, items...)
	case "copy":
		d, ok := args[0].(*Slice)
		if !ok {
			in.Undecided("copy into %T", args[0])
		}
		n := 0
		switch s := args[1].(type) {
		case *Slice:
			for d != nil && s != nil && n < d.Len && n < s.Len {
				d.Set(n, Copy(s.At(n)))
				n++
			}
		case string:
			if HasHole(s) {
				in.Undecided("copy of abstract string")
			}
			for d != nil && n < d.Len && n < len(s) {
				d.Set(n, uint64(s[n]))
				n++
			}
		}
		return int64(n)
	case "delete":
		if m, ok := args[0].(*Map); ok && m != nil {
			m.Delete(args[1])
		}
		return nil
	case "panic":
		panic(GoPanic{V: args[0], Msg: "explicit panic " + KeyOf(args[0]), Pos: in.curPos})
	case "recover":
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			k := in.Cmp(c.Args[0].Type(), a, r)
			if (b.Name() == "min" && k < 0) || (b.Name() == "max" && k > 0) {
				r = a
			}
		}
		return r
	case "clear":
		if m, ok := args[0].(*Map); ok && m != nil {
			m.Ent = nil
			m.Idx = map[string]int{}
			return nil
		}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p == nil {
			in.GoPanic("nil pointer dereference (method value)")
		}
		return args[0]
	}
	in.Undecided("builtin %s", b.Name())
	return nil
}

// enumString evaluates the generated String method of a protobuf enum from
// the enum's name table.
func (in *Interp) enumString(fn *ssa.Function, args []Value) (Value, bool) {
	r := fn.Signature.Recv()
	if r == nil || fn.Name() != "String" || len(args) != 1 || fn.Prog != in.W.Prog {
		return nil, false
	}
	n, ok := r.Type().(*types.Named)
	if !ok || fn.Pkg == nil || !strings.HasSuffix(in.W.Prog.Fset.Position(fn.Pos()).Filename, ".pb.go") {
		return nil, false
	}
	g, ok := fn.Pkg.Members[n.Obj().Name()+"_name"].(*ssa.Global)
	k, isInt := args[0].(int64)
	if !ok || !isInt {
		return nil, false
	}
	m, ok := (*in.GlobalPtr(g)).(*Map)
	if !ok {
		return nil, false
	}
	v, found := m.Get(k)
	if !found {
		return fmt.Sprint(k), true
	}
	return v, true
}
