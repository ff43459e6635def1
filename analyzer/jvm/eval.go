package jvm

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"verif/analyzer/absint"
	"verif/analyzer/golang"
	"verif/analyzer/scen"
	"verif/analyzer/spec"
)

// Value is an abstract Java value: nil (null), bool, Num, Text, Bytes, *Obj,
// *Arr, *Coll, *Lam, *Nat, Class, Enum, Time.
type Value interface{}

// Num is a number of a primitive type: a constant or a symbol.
type Num struct {
	T   string
	I   int64
	F   float64
	Sym string
	// Uns is 2^n for a symbol read from an unsigned field of n bits.
	Uns float64
}

// Text is a string: a constant, a symbol, or a text nothing depends on.
type Text struct {
	S    string
	Sym  string
	Free bool
}

// Bytes is a ByteString.
type Bytes struct {
	S   string
	Sym string
}

// Time is a Duration or Timestamp.
type Time struct {
	Dur  bool
	Sym  string
	Conc *scen.DC
	// Rank is set on values computed from other times.
	Rank *float64
}

type Obj struct {
	Cls string
	F   map[string]Value
	// message content
	Msg    *spec.Val
	Opaque string
	Type   string      // the message type
	Out    interface{} // enclosing instance
}

// Arr is an array; Of is the text whose encoding an opaque array holds.
type Arr struct {
	E     []Value
	Of    *Bytes
	Chars bool // the characters of the text, not its encoding
}

// Coll is a collection; Sym names one of unknown contents.
type Coll struct {
	Kind string // list, set, map, iter
	E, V []Value
	Sym  string
	pos  int
	Safe bool // meant for several threads
}

type Lam struct {
	N    *Node
	Fr   *frame
	This Value
	Cls  *cls
}

// Nat is a function of the library.
type Nat struct {
	Name string
	Fn   func(args []Value) Value
}

type Class struct{ Name string } // java.lang.Class value

type EnumV struct {
	T    string // binary class
	Name string // "" for UNRECOGNIZED
	Num  Value  // number when it is a message enum
}

// Thrown is a Java exception in flight.
type Thrown struct{ Ex *Obj }

// Undec is thrown when the value does not determine the outcome.
type Undec struct{ Msg string }

type cls struct {
	N       *Node
	Name    string
	Super   string
	Ifaces  []string
	Fields  []*Node
	Inits   []*Node // fields and initialisers in order
	Methods map[string]*Node
	Static  map[string]Value
	state   int
	Native  bool // library declaration: its methods without body are modelled
}

// Prog is a set of analysed classes.
type Prog struct {
	base map[string]*cls
	own  map[string]*Node
	St   *Stubs
	Lits *golang.Lits
}

// NewProg indexes the classes of a unit on top of the runtime.
func (t *Tool) NewProg(u *Unit, st *Stubs, lits *golang.Lits) *Prog {
	p := &Prog{St: st, Lits: lits, own: map[string]*Node{}}
	for _, c := range t.Base.Classes {
		p.own[c.S] = c
	}
	if u != nil {
		for _, c := range u.Classes {
			p.own[c.S] = c
		}
	}
	return p
}

// Eval is one evaluation.
type Eval struct {
	P     *Prog
	Env   *spec.Env
	cls   map[string]*cls
	steps int
	Used  map[string]bool // classes entered
	depth int
	w     *watch
}

func (p *Prog) NewEval(env *spec.Env) *Eval {
	return &Eval{P: p, Env: env, cls: map[string]*cls{}, Used: map[string]bool{}}
}

func (e *Eval) undec(f string, a ...interface{}) { panic(Undec{fmt.Sprintf(f, a...)}) }

func (e *Eval) class(name string) *cls {
	if c, ok := e.cls[name]; ok {
		return c
	}
	n := e.P.own[name]
	if n == nil {
		e.cls[name] = nil
		return nil
	}
	c := &cls{N: n, Name: name, Super: n.T, Ifaces: n.P, Methods: map[string]*Node{}, Static: map[string]Value{}}
	for _, m := range n.C {
		switch m.K {
		case "method":
			c.Methods[m.S] = m
		case "field":
			c.Fields = append(c.Fields, m)
			c.Inits = append(c.Inits, m)
		case "init":
			c.Inits = append(c.Inits, m)
		}
	}
	e.cls[name] = c
	return c
}

type frame struct {
	vars   map[string]Value
	types  map[string]string
	parent *frame
}

func (f *frame) find(n string) *frame {
	for x := f; x != nil; x = x.parent {
		if _, ok := x.vars[n]; ok {
			return x
		}
	}
	return nil
}

func (f *frame) sub() *frame {
	return &frame{vars: map[string]Value{}, types: map[string]string{}, parent: f}
}

func (f *frame) declare(n, t string, v Value) {
	f.vars[n] = v
	f.types[n] = t
}

type ctx struct {
	this Value
	cls  *cls
	fr   *frame
}

type ctl struct {
	kind  string // "", break, continue, return
	label string
	val   Value
}

func (e *Eval) throw(cls, msg string) {
	panic(Thrown{&Obj{Cls: cls, F: map[string]Value{"$msg": Text{S: msg}}}})
}

func (e *Eval) initStatic(c *cls) {
	if c.state != 0 {
		return
	}
	c.state = 1
	if e.w != nil {
		e.w.init++
		defer func() {
			e.w.init--
			for _, v := range c.Static {
				e.share(v)
			}
		}()
	}
	if s := e.class(c.Super); s != nil {
		e.initStatic(s)
	}
	for _, f := range c.Inits {
		if f.K == "field" && (f.has("static") || strings.Contains(c.N.F, "interface")) {
			c.Static[f.S] = zero(f.T)
		}
	}
	for _, f := range c.Inits {
		st := f.has("static") || strings.Contains(c.N.F, "interface")
		if !st {
			continue
		}
		x := &ctx{cls: c, fr: (*frame)(nil).sub()}
		if f.K == "field" {
			if f.C[0] != nil {
				c.Static[f.S] = e.coerce(e.expr(x, f.C[0]), f.T)
			}
		} else {
			e.stmt(x, f.C[0])
		}
	}
}

func zero(t string) Value {
	switch t {
	case "int", "long", "short", "byte", "char", "float", "double":
		return Num{T: t}
	case "boolean":
		return false
	}
	return nil
}

func isFloatT(t string) bool { return t == "float" || t == "double" }

// coerce converts a number to the primitive type t; other types are kept.
func (e *Eval) coerce(v Value, t string) Value {
	n, ok := v.(Num)
	if !ok || n.T == t {
		return v
	}
	switch t {
	case "int", "long", "short", "byte", "char", "float", "double":
	default:
		return v
	}
	if n.Sym != "" {
		if isFloatT(t) != isFloatT(n.T) || width(t) < width(n.T) && !strings.HasPrefix(n.Sym, "nanos:") && (n.Uns == 0 || n.Uns != range_(t)) {
			e.undec("conversion of %s from %s to %s", n.Sym, n.T, t)
		}
		if n.Uns != 0 && n.Uns == range_(n.T) && width(t) > width(n.T) && e.Env.Rank[n.Sym] >= n.Uns/2 {
			e.undec("widening of the unsigned %s", n.Sym)
		}
		n.T = t
		return n
	}
	if isFloatT(t) {
		f := n.F
		if !isFloatT(n.T) {
			f = float64(n.I)
		}
		if t == "float" {
			f = float64(float32(f))
		}
		return Num{T: t, F: f}
	}
	i := n.I
	if isFloatT(n.T) {
		i = int64(n.F)
	}
	return Num{T: t, I: wrap(i, t)}
}

func width(t string) int {
	switch t {
	case "byte":
		return 8
	case "short", "char":
		return 16
	case "int":
		return 32
	case "float":
		return 33
	case "long":
		return 64
	}
	return 65
}

func wrap(i int64, t string) int64 {
	switch t {
	case "int":
		return int64(int32(i))
	case "short":
		return int64(int16(i))
	case "byte":
		return int64(int8(i))
	case "char":
		return int64(uint16(i))
	}
	return i
}

// rank is the position of a number in the order of its Java type.
func (e *Eval) rank(n Num) float64 {
	if n.Sym != "" {
		if strings.HasPrefix(n.Sym, "char:") {
			// some character of the text
			if e.fact("ascii:" + n.Sym[5:]) {
				return 'A'
			}
			return 0x4e2d
		}
		r, ok := e.Env.Rank[n.Sym]
		if !ok {
			e.undec("the order of %s", n.Sym)
		}
		if n.Uns == range_(n.T) && r >= n.Uns/2 {
			r -= n.Uns
		}
		return r
	}
	if isFloatT(n.T) {
		return n.F
	}
	return float64(n.I)
}

func (e *Eval) cmp(a, b Num) int {
	if a.Sym == "" && b.Sym == "" && !isFloatT(a.T) && !isFloatT(b.T) {
		switch {
		case a.I < b.I:
			return -1
		case a.I > b.I:
			return 1
		}
		return 0
	}
	x, y := e.rank(a), e.rank(b)
	switch {
	case x < y:
		return -1
	case x > y:
		return 1
	}
	return 0
}

// textRank is the identity class of a text.
func (e *Eval) textRank(s, sym string) float64 {
	if sym == "" {
		return spec.StrClass(s)
	}
	r, ok := e.Env.Rank[sym]
	if !ok {
		e.undec("the contents of %s", sym)
	}
	return r
}

func (e *Eval) timeRank(t Time) float64 {
	switch {
	case t.Rank != nil:
		return *t.Rank
	case t.Conc != nil:
		return float64(t.Conc.Sec)*1e9 + float64(t.Conc.Nanos)
	}
	r, ok := e.Env.Rank[t.Sym]
	if !ok {
		e.undec("the order of %s", t.Sym)
	}
	return r
}

// equal is Object.equals.
func (e *Eval) equal(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case Num:
		y, ok := b.(Num)
		return ok && x.T == y.T && e.cmp(x, y) == 0
	case Text:
		y, ok := b.(Text)
		if !ok {
			return false
		}
		if x.Free || y.Free {
			e.undec("a comparison of message texts")
		}
		return e.textRank(x.S, x.Sym) == e.textRank(y.S, y.Sym)
	case Bytes:
		y, ok := b.(Bytes)
		return ok && e.textRank(x.S, x.Sym) == e.textRank(y.S, y.Sym)
	case Time:
		y, ok := b.(Time)
		if !ok || x.Dur != y.Dur {
			return false
		}
		if x.Conc != nil && y.Conc != nil {
			return *x.Conc == *y.Conc
		}
		return e.timeRank(x) == e.timeRank(y)
	case EnumV:
		y, ok := b.(EnumV)
		return ok && x.T == y.T && x.Name == y.Name
	case Class:
		y, ok := b.(Class)
		return ok && x == y
	case *Coll:
		y, ok := b.(*Coll)
		if !ok || x.Kind != y.Kind {
			return false
		}
		if x.Sym != "" || y.Sym != "" {
			if x == y {
				return true
			}
			e.undec("a comparison of collections")
		}
		if len(x.E) != len(y.E) || x.Kind != "list" {
			return len(x.E) == len(y.E) && e.sameSet(x, y)
		}
		for i := range x.E {
			if !e.equal(x.E[i], y.E[i]) {
				return false
			}
		}
		return true
	case *Obj:
		y, ok := b.(*Obj)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if m, c := e.find(x.Cls, "equals(java.lang.Object)"); m != nil && m.C[0] != nil {
			return e.invoke(c, m, x, []Value{b}).(bool)
		}
		if x.Opaque != "" || y.Opaque != "" || x.Msg != nil && y.Msg != nil {
			if x.Opaque != "" && x.Opaque == y.Opaque {
				return true
			}
			rx, ok1 := e.Env.Rank[x.Opaque]
			ry, ok2 := e.Env.Rank[y.Opaque]
			if ok1 && ok2 {
				return rx == ry
			}
			e.undec("a comparison of messages")
		}
		return false
	case *Arr, *Lam, *Nat:
		return a == b
	}
	e.undec("equals on %T", a)
	return false
}

func (e *Eval) sameSet(x, y *Coll) bool {
	for i, k := range x.E {
		j := e.indexIn(y, k)
		if j < 0 || x.Kind == "map" && !e.equal(x.V[i], y.V[j]) {
			return false
		}
	}
	return true
}

func (e *Eval) indexIn(c *Coll, k Value) int {
	for i, x := range c.E {
		if e.equal(k, x) {
			return i
		}
	}
	return -1
}

// find locates a method by signature along the class chain, then by name and
// arity.
func (e *Eval) find(clsName, sig string) (*Node, *cls) {
	return e.lookup(clsName, sig, false)
}

func (e *Eval) supers(name string) []string {
	c := e.class(name)
	if c == nil {
		return nil
	}
	return append([]string{c.Super}, c.Ifaces...)
}

func (e *Eval) lookup(clsName, sig string, up bool) (*Node, *cls) {
	name := sig[:strings.Index(sig, "(")]
	arity := len(sigParams(sig))
	var abs *Node
	var absC *cls
	seen := map[string]bool{}
	queue := []string{clsName}
	if up {
		queue = e.supers(clsName)
	}
	exact := e.declaredExactly(queue, sig)
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		if seen[n] {
			continue
		}
		seen[n] = true
		c := e.class(n)
		if c == nil {
			continue
		}
		if m, ok := c.Methods[sig]; ok && m.C[0] != nil {
			return m, c
		} else if ok && abs == nil {
			abs, absC = m, c
		}
		// the overriding method of a generic declaration differs in its
		// erased parameter types
		var cand []*Node
		for s, m := range c.Methods {
			if !exact && m.C[0] != nil && !m.has("static") && strings.HasPrefix(s, name+"(") && len(sigParams(s)) == arity && s != sig && erases(s, sig) {
				cand = append(cand, m)
			}
		}
		if len(cand) == 1 {
			return cand[0], c
		}
		queue = append(queue, c.Super)
		queue = append(queue, c.Ifaces...)
	}
	return abs, absC
}

// declaredExactly: the method is declared with these very types, not with
// type variables.
func (e *Eval) declaredExactly(queue []string, sig string) bool {
	seen := map[string]bool{}
	found := false
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		c := e.class(n)
		if seen[n] || c == nil {
			continue
		}
		seen[n] = true
		if m, ok := c.Methods[sig]; ok {
			if m.has("typevar") {
				return false
			}
			found = true
		}
		queue = append(queue, c.Super)
		queue = append(queue, c.Ifaces...)
	}
	return found
}

// erases: s may override sig, whose Object parameters stand for type variables.
func erases(s, sig string) bool {
	a, b := sigParams(s), sigParams(sig)
	for i := range a {
		if a[i] != b[i] && b[i] != "java.lang.Object" && b[i] != "com.google.protobuf.Message" {
			return false
		}
	}
	return true
}

func sigParams(sig string) []string {
	i := strings.Index(sig, "(")
	in := sig[i+1 : len(sig)-1]
	if in == "" {
		return nil
	}
	return strings.Split(in, ",")
}

// invoke runs a method body.
func (e *Eval) invoke(c *cls, m *Node, this Value, args []Value) Value {
	if m.C[0] == nil {
		e.undec("abstract or native method %s.%s", c.Name, m.S)
	}
	e.depth++
	if e.depth > 200 {
		e.undec("unbounded recursion in %s.%s", c.Name, m.S)
	}
	defer func() { e.depth-- }()
	e.Used[c.Name] = true
	ps := sigParams(m.S)
	x := &ctx{this: this, cls: c, fr: (*frame)(nil).sub()}
	if o, ok := this.(*Obj); ok && o.Out != nil {
		if l, ok := o.Out.(*ctx); ok {
			x.fr.parent = l.fr
		}
	}
	for i, p := range m.P {
		var v Value
		if i < len(args) {
			v = e.coerce(args[i], ps[i])
		}
		x.fr.declare(p, ps[i], v)
	}
	if w := e.w; w != nil {
		w.where = append(w.where, c.Name+"."+strings.SplitN(m.S, "(", 2)[0])
		if m.has("synchronized") {
			w.sync++
		}
		defer func() {
			w.where = w.where[:len(w.where)-1]
			if m.has("synchronized") {
				w.sync--
			}
		}()
	}
	r := e.stmt(x, m.C[0])
	if r.kind == "return" {
		return r.val
	}
	return nil
}

// construct makes an instance.
func (e *Eval) construct(name, ctor string, args []Value, at *ctx) Value {
	c := e.class(name)
	if c == nil {
		return e.newNative(name, args)
	}
	e.initStatic(c)
	o := &Obj{Cls: name, F: map[string]Value{}}
	if at != nil {
		o.Out = at
	}
	e.initObj(c, o, ctor, args)
	return o
}

func (e *Eval) initObj(c *cls, o *Obj, ctor string, args []Value) {
	m := c.Methods[ctor]
	if m == nil && len(args) == 0 {
		m = c.Methods["<init>()"]
	}
	if m == nil { // anonymous classes pass their arguments on
		for s, x := range c.Methods {
			if strings.HasPrefix(s, "<init>(") && len(sigParams(s)) == len(args) {
				m = x
			}
		}
	}
	x := &ctx{this: o, cls: c, fr: (*frame)(nil).sub()}
	if l, ok := o.Out.(*ctx); ok {
		x.fr.parent = l.fr
	}
	var body []*Node
	if m != nil {
		ps := sigParams(m.S)
		for i, p := range m.P {
			x.fr.declare(p, ps[i], e.coerce(args[i], ps[i]))
		}
		if m.C[0] != nil {
			body = m.C[0].C
		}
	}
	explicit := ""
	if len(body) > 0 && body[0].K == "expr" && body[0].C[0].K == "call" && body[0].C[0].has("ctor") {
		call := body[0].C[0]
		explicit = call.O
		as := e.args(x, call)
		body = body[1:]
		if call.O == c.Name {
			e.initObj(c, o, call.S, as)
		} else if s := e.class(call.O); s != nil {
			e.initObj(s, o, call.S, as)
		} else if len(as) > 0 {
			o.F["$msg"] = as[0]
		}
	} else if s := e.class(c.Super); s != nil {
		// an anonymous class passes the arguments to its superclass
		if m == nil || m.C[0] == nil {
			e.initObj(s, o, ctor, args)
		} else {
			e.initObj(s, o, "<init>()", nil)
		}
	}
	if explicit != c.Name {
		for _, f := range c.Fields {
			if !f.has("static") {
				o.F[c.Name+"."+f.S] = zero(f.T)
			}
		}
		for _, f := range c.Inits {
			if f.has("static") {
				continue
			}
			if f.K == "field" {
				if f.C[0] != nil {
					o.F[c.Name+"."+f.S] = e.coerce(e.expr(&ctx{this: o, cls: c, fr: x.fr.sub()}, f.C[0]), f.T)
				}
			} else {
				e.stmt(x, f.C[0])
			}
		}
	}
	for _, s := range body {
		if r := e.stmt(x, s); r.kind != "" {
			return
		}
	}
}

func (e *Eval) args(x *ctx, n *Node) []Value {
	var out []Value
	list := n.C
	if n.K == "call" {
		list = n.C[1:]
	}
	for _, a := range list {
		out = append(out, e.expr(x, a))
	}
	sig := n.S
	if n.K == "new" {
		sig = n.O
	}
	if n.has("varargs") {
		ps := sigParams(sig)
		k := len(ps) - 1
		if len(out) == k+1 {
			switch v := out[k].(type) {
			case *Arr:
				return out
			case nil:
				if strings.HasSuffix(list[k].T, "[]") {
					return out
				}
				_ = v
			}
		}
		rest := &Arr{}
		if len(out) >= k {
			rest.E = append(rest.E, out[k:]...)
			out = append(out[:k:k], rest)
		}
	}
	return out
}

func (e *Eval) tick(n *Node) {
	e.steps++
	if e.steps > 4000000 {
		e.undec("the evaluation does not end (line %d)", n.L)
	}
}

func (e *Eval) cond(x *ctx, n *Node) bool {
	b, ok := e.expr(x, n).(bool)
	if !ok {
		e.undec("a condition at line %d", n.L)
	}
	return b
}

func (e *Eval) stmt(x *ctx, n *Node) (r ctl) {
	if n == nil {
		return
	}
	e.tick(n)
	switch n.K {
	case "block":
		y := &ctx{x.this, x.cls, x.fr.sub()}
		for _, s := range n.C {
			if r = e.stmt(y, s); r.kind != "" {
				return r
			}
		}
	case "nop":
	case "sync":
		if e.w != nil {
			e.w.sync++
			defer func() { e.w.sync-- }()
		}
		return e.stmt(x, n.C[0])
	case "expr":
		e.expr(x, n.C[0])
	case "var":
		var v Value
		if n.C[0] != nil {
			v = e.coerce(e.expr(x, n.C[0]), n.T)
		}
		x.fr.declare(n.S, n.T, v)
	case "if":
		if e.cond(x, n.C[0]) {
			return e.stmt(x, n.C[1])
		}
		return e.stmt(x, n.C[2])
	case "while", "dowhile":
		for first := true; ; first = false {
			if !(first && n.K == "dowhile") && !e.cond(x, n.C[0]) {
				return
			}
			r = e.stmt(x, n.C[1])
			if stop, out := loopCtl(r); stop {
				return out
			}
		}
	case "for":
		y := &ctx{x.this, x.cls, x.fr.sub()}
		for _, s := range n.C[0].C {
			e.stmt(y, s)
		}
		for n.C[1] == nil || e.cond(y, n.C[1]) {
			r = e.stmt(y, n.C[3])
			if stop, out := loopCtl(r); stop {
				return out
			}
			for _, s := range n.C[2].C {
				e.stmt(y, s)
			}
			e.tick(n)
		}
		return ctl{}
	case "foreach":
		for _, v := range e.iterate(e.expr(x, n.C[0])) {
			y := &ctx{x.this, x.cls, x.fr.sub()}
			y.fr.declare(n.S, n.T, e.coerce(v, n.T))
			r = e.stmt(y, n.C[1])
			if stop, out := loopCtl(r); stop {
				return out
			}
		}
		return ctl{}
	case "label":
		r = e.stmt(x, n.C[0])
		if r.kind == "break" && r.label == n.S {
			return ctl{}
		}
		return r
	case "break", "continue":
		return ctl{kind: n.K, label: n.S}
	case "return":
		var v Value
		if n.C[0] != nil {
			v = e.expr(x, n.C[0])
		}
		return ctl{kind: "return", val: v}
	case "throw":
		v := e.expr(x, n.C[0])
		o, ok := v.(*Obj)
		if !ok {
			e.throw("java.lang.NullPointerException", "throw null")
		}
		panic(Thrown{o})
	case "switch":
		return e.sw(x, n)
	case "try":
		return e.try(x, n)
	default:
		e.undec("statement %s %s at line %d", n.K, n.S, n.L)
	}
	return ctl{}
}

func loopCtl(r ctl) (bool, ctl) {
	switch {
	case r.kind == "":
		return false, r
	case r.label != "":
		return true, r // a labelled continue of this loop is not modelled
	case r.kind == "break":
		return true, ctl{}
	case r.kind == "continue":
		return false, ctl{}
	}
	return true, r
}

func (e *Eval) sw(x *ctx, n *Node) ctl {
	v := e.expr(x, n.C[0])
	if v == nil {
		e.throw("java.lang.NullPointerException", "switch on null")
	}
	start := -1
	for i, c := range n.C[1:] {
		if len(c.C[0].C) == 0 {
			if start < 0 {
				start = -2 - i
			}
			continue
		}
		for _, l := range c.C[0].C {
			if l.K == "enumc" {
				ev, ok := v.(EnumV)
				if ok && ev.Name == l.S {
					start = i
				}
			} else if e.equalPrim(e.expr(x, l), v) {
				start = i
			}
		}
		if start >= 0 {
			break
		}
	}
	if start == -1 {
		return ctl{}
	}
	if start < 0 {
		start = -2 - start
	}
	y := &ctx{x.this, x.cls, x.fr.sub()}
	for _, c := range n.C[1+start:] {
		for _, s := range c.C[1].C {
			r := e.stmt(y, s)
			if r.kind == "break" && r.label == "" {
				return ctl{}
			}
			if r.kind != "" {
				return r
			}
		}
		if c.F == "rule" {
			break
		}
	}
	return ctl{}
}

func (e *Eval) equalPrim(a, b Value) bool {
	x, ok1 := a.(Num)
	y, ok2 := b.(Num)
	if ok1 && ok2 {
		return e.cmp(x, y) == 0
	}
	return e.equal(a, b)
}

func (e *Eval) try(x *ctx, n *Node) (r ctl) {
	if n.C[1] != nil {
		defer func() {
			p := recover()
			if _, ok := p.(Undec); ok {
				panic(p)
			}
			if f := e.stmt(x, n.C[1]); f.kind != "" {
				r = f
				return
			}
			if p != nil {
				panic(p)
			}
		}()
	}
	return e.catch(x, n)
}

func (e *Eval) catch(x *ctx, n *Node) (r ctl) {
	depth := e.depth
	var caught *Node
	var ex *Obj
	func() {
		defer func() {
			p := recover()
			if p == nil {
				return
			}
			t, ok := p.(Thrown)
			if !ok {
				panic(p)
			}
			for _, c := range n.C[2:] {
				for _, ty := range c.P {
					if caught == nil && e.instance(t.Ex.Cls, ty) {
						caught, ex = c, t.Ex
					}
				}
			}
			if caught == nil {
				panic(p)
			}
		}()
		r = e.stmt(x, n.C[0])
	}()
	if caught != nil {
		e.depth = depth
		y := &ctx{x.this, x.cls, x.fr.sub()}
		y.fr.declare(caught.S, "", ex)
		return e.stmt(y, caught.C[0])
	}
	return r
}

var jdkSuper = map[string]string{
	"java.lang.Throwable": "java.lang.Object", "java.lang.Exception": "java.lang.Throwable", "java.lang.Error": "java.lang.Throwable",
	"java.lang.RuntimeException": "java.lang.Exception", "java.lang.ReflectiveOperationException": "java.lang.Exception",
	"java.lang.ClassNotFoundException": "java.lang.ReflectiveOperationException", "java.lang.NoSuchMethodException": "java.lang.ReflectiveOperationException",
	"java.lang.IllegalAccessException": "java.lang.ReflectiveOperationException", "java.lang.reflect.InvocationTargetException": "java.lang.ReflectiveOperationException",
	"java.lang.IllegalArgumentException": "java.lang.RuntimeException", "java.lang.NullPointerException": "java.lang.RuntimeException",
	"java.lang.ClassCastException": "java.lang.RuntimeException", "java.lang.ArithmeticException": "java.lang.RuntimeException",
	"java.lang.IndexOutOfBoundsException": "java.lang.RuntimeException", "java.lang.ArrayIndexOutOfBoundsException": "java.lang.IndexOutOfBoundsException",
	"java.lang.StringIndexOutOfBoundsException": "java.lang.IndexOutOfBoundsException", "java.lang.IllegalStateException": "java.lang.RuntimeException",
	"java.lang.UnsupportedOperationException": "java.lang.RuntimeException", "java.util.NoSuchElementException": "java.lang.RuntimeException",
	"java.net.URISyntaxException": "java.lang.Exception", "java.lang.NumberFormatException": "java.lang.IllegalArgumentException",
	"com.google.re2j.PatternSyntaxException": "java.lang.RuntimeException",
}

// instance tells whether class a is b or below it.
func (e *Eval) instance(a, b string) bool {
	if a == b || b == "java.lang.Object" {
		return true
	}
	if a == "" {
		return false
	}
	if c := e.class(a); c != nil {
		for _, s := range append([]string{c.Super}, c.Ifaces...) {
			if s != "" && e.instance(s, b) {
				return true
			}
		}
		return false
	}
	if s, ok := jdkSuper[a]; ok {
		return e.instance(s, b)
	}
	return false
}

func (e *Eval) lit(n *Node) Value {
	switch n.T {
	case "null":
		return nil
	case "boolean":
		return n.S == "true"
	case "java.lang.String":
		return Text{S: n.S}
	case "float", "double":
		f, _ := strconv.ParseFloat(n.S, 64)
		if e.P.Lits != nil && f-math.Floor(f) == 0.5 {
			if t := e.P.Lits.Lookup(int64(math.Floor(f))); t != nil {
				return Num{T: n.T, Sym: t.Op}
			}
		}
		return Num{T: n.T, F: f}
	}
	i, err := strconv.ParseInt(n.S, 10, 64)
	if err != nil {
		e.undec("literal %s", n.S)
	}
	if e.P.Lits != nil {
		if t := e.P.Lits.Lookup(i); t != nil {
			k := Num{T: n.T, Sym: t.Op, Uns: unsBits(t)}
			if k.Uns != 0 && k.Uns == range_(k.T) && e.Env.Rank[k.Sym] >= k.Uns/2 {
				e.undec("the literal %s of an unsigned number is out of range", t.Op)
			}
			return k
		}
	}
	return Num{T: n.T, I: i}
}

// range_ is the number of values of an integer type symbols may have.
func range_(t string) float64 {
	switch t {
	case "int":
		return 4294967296
	case "long":
		return 18446744073709551616
	}
	return -1
}

// unsBits is 2^n for a term of an unsigned Go type of n bits.
func unsBits(t *absint.Term) float64 {
	if t.T != nil {
		if b, ok := t.T.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Uint32:
				return 4294967296
			case types.Uint64:
				return 18446744073709551616
			}
		}
	}
	return 0
}

func boxed(t string) bool {
	switch t {
	case "java.lang.Integer", "java.lang.Long", "java.lang.Float", "java.lang.Double", "java.lang.Boolean", "java.lang.Short", "java.lang.Byte", "java.lang.Character":
		return true
	}
	return false
}

func (e *Eval) fieldOwner(o *Obj, owner, name string) string { return owner + "." + name }

func (e *Eval) statics(owner, name string) Value {
	if c := e.class(owner); c != nil {
		if strings.Contains(c.N.F, "enum") {
			for _, f := range c.Fields {
				if f.S == name && f.has("static") && f.T == owner {
					return e.enumConst(c, f)
				}
			}
		}
		e.initStatic(c)
		if v, ok := c.Static[name]; ok {
			return v
		}
	}
	return e.nativeStaticField(owner, name)
}

// enumConst makes a constant of an enum with source.
func (e *Eval) enumConst(c *cls, f *Node) Value {
	key := "$const." + f.S
	if v, ok := c.Static[key]; ok {
		return v
	}
	o := &Obj{Cls: c.Name, F: map[string]Value{}}
	c.Static[key] = o
	if f.C[0] != nil && f.C[0].K == "new" {
		x := &ctx{cls: c, fr: (*frame)(nil).sub()}
		e.initObj(c, o, f.C[0].O, e.args(x, f.C[0]))
	}
	return o
}

func (e *Eval) deref(v Value, what string) {
	if v == nil {
		e.throw("java.lang.NullPointerException", what)
	}
}

func (e *Eval) expr(x *ctx, n *Node) Value {
	e.tick(n)
	switch n.K {
	case "lit":
		return e.lit(n)
	case "this":
		return x.this
	case "name":
		f := x.fr.find(n.S)
		if f == nil {
			e.undec("variable %s at line %d", n.S, n.L)
		}
		return f.vars[n.S]
	case "ifield":
		return e.getField(e.self(x, n.O), n.O, n.S)
	case "field":
		v := e.expr(x, n.C[0])
		e.deref(v, n.S)
		if a, ok := v.(*Arr); ok && n.S == "length" {
			return e.arrLen(a)
		}
		return e.getField(v, n.O, n.S)
	case "sfield":
		if n.S == "length" && n.O == "" {
			break
		}
		return e.statics(n.O, n.S)
	case "classlit":
		return Class{n.S}
	case "outer":
		return e.self(x, n.S)
	case "cond":
		if e.cond(x, n.C[0]) {
			return e.coerce(e.expr(x, n.C[1]), n.T)
		}
		return e.coerce(e.expr(x, n.C[2]), n.T)
	case "cast":
		return e.coerce(e.expr(x, n.C[0]), n.T)
	case "instanceof":
		v := e.expr(x, n.C[0])
		if v == nil {
			return false
		}
		c := e.classOf(v)
		if c == "" {
			e.undec("the class of a value at line %d", n.L)
		}
		return e.instance(c, n.S)
	case "index":
		a, ok := e.expr(x, n.C[0]).(*Arr)
		if !ok {
			e.throw("java.lang.NullPointerException", "index")
		}
		i := e.conc(e.expr(x, n.C[1]), "an index")
		if a.Of != nil {
			e.undec("an element of the encoding of %s", a.Of.Sym)
		}
		if i < 0 || i >= int64(len(a.E)) {
			e.throw("java.lang.ArrayIndexOutOfBoundsException", strconv.FormatInt(i, 10))
		}
		return a.E[i]
	case "array":
		a := &Arr{E: []Value{}}
		el := strings.TrimSuffix(n.T, "[]")
		for _, c := range n.C {
			a.E = append(a.E, e.coerce(e.expr(x, c), el))
		}
		return a
	case "newarray":
		k := e.conc(e.expr(x, n.C[0]), "an array size")
		a := &Arr{E: []Value{}}
		el := strings.TrimSuffix(n.T, "[]")
		for i := int64(0); i < k && i < 10000; i++ {
			a.E = append(a.E, zero(el))
		}
		return a
	case "lambda":
		return &Lam{N: n, Fr: x.fr, This: x.this, Cls: x.cls}
	case "ref":
		return e.ref(x, n)
	case "new":
		var at *ctx
		if c := e.class(n.S); c != nil && !c.N.has("static") {
			at = x
		}
		return e.construct(n.S, n.O, e.args(x, n), at)
	case "call":
		return e.call(x, n)
	case "assign":
		v := e.expr(x, n.C[1])
		e.assign(x, n.C[0], v)
		return v
	case "opassign":
		op := strings.TrimSuffix(n.S, "_ASSIGNMENT")
		old := e.expr(x, n.C[0])
		v := e.coerce(e.binop(&Node{K: "bin", S: op, T: n.T, L: n.L, C: n.C}, op, old, e.expr(x, n.C[1])), n.T)
		e.assign(x, n.C[0], v)
		return v
	case "un":
		return e.unop(x, n)
	case "bin":
		switch n.S {
		case "CONDITIONAL_AND":
			return e.cond(x, n.C[0]) && e.cond(x, n.C[1])
		case "CONDITIONAL_OR":
			return e.cond(x, n.C[0]) || e.cond(x, n.C[1])
		}
		return e.binop(n, n.S, e.expr(x, n.C[0]), e.expr(x, n.C[1]))
	}
	e.undec("expression %s %s at line %d", n.K, n.S, n.L)
	return nil
}

// self is the enclosing instance of class owner.
func (e *Eval) self(x *ctx, owner string) Value {
	v := x.this
	for {
		o, ok := v.(*Obj)
		if !ok {
			return v
		}
		if e.instance(o.Cls, owner) {
			return v
		}
		out, ok := o.Out.(*ctx)
		if !ok {
			return v
		}
		v = out.this
	}
}

func (e *Eval) getField(v Value, owner, name string) Value {
	o, ok := v.(*Obj)
	if !ok {
		e.undec("field %s.%s", owner, name)
	}
	if f, ok := o.F[owner+"."+name]; ok {
		return f
	}
	e.undec("field %s.%s", owner, name)
	return nil
}

func (e *Eval) assign(x *ctx, l *Node, v Value) {
	switch l.K {
	case "name":
		f := x.fr.find(l.S)
		if f == nil {
			e.undec("variable %s", l.S)
		}
		f.vars[l.S] = e.coerce(v, f.types[l.S])
	case "ifield":
		o, ok := e.self(x, l.O).(*Obj)
		if !ok {
			e.undec("assignment to %s", l.S)
		}
		e.touch(o, "writes the field %s", l.S)
		o.F[l.O+"."+l.S] = e.coerce(v, l.T)
	case "field":
		o, ok := e.expr(x, l.C[0]).(*Obj)
		if !ok {
			e.undec("assignment to %s", l.S)
		}
		e.touch(o, "writes the field %s", l.S)
		o.F[l.O+"."+l.S] = e.coerce(v, l.T)
	case "sfield":
		c := e.class(l.O)
		if c == nil {
			e.undec("assignment to %s", l.S)
		}
		e.initStatic(c)
		e.touch(nil, "writes the static field %s.%s", l.O, l.S)
		c.Static[l.S] = e.coerce(v, l.T)
	case "index":
		a, ok := e.expr(x, l.C[0]).(*Arr)
		i := e.conc(e.expr(x, l.C[1]), "an index")
		if !ok || a.Of != nil {
			e.undec("assignment to an element")
		}
		if i < 0 || i >= int64(len(a.E)) {
			e.throw("java.lang.ArrayIndexOutOfBoundsException", "")
		}
		e.touch(a, "writes an element of a shared array")
		a.E[i] = v
	default:
		e.undec("assignment to %s", l.K)
	}
}

func (e *Eval) conc(v Value, what string) int64 {
	n, ok := v.(Num)
	if !ok {
		e.throw("java.lang.NullPointerException", what)
	}
	if n.Sym != "" {
		e.undec("%s depends on %s", what, n.Sym)
	}
	return n.I
}

func (e *Eval) unop(x *ctx, n *Node) Value {
	switch n.S {
	case "LOGICAL_COMPLEMENT":
		return !e.cond(x, n.C[0])
	case "PREFIX_INCREMENT", "PREFIX_DECREMENT", "POSTFIX_INCREMENT", "POSTFIX_DECREMENT":
		old := e.expr(x, n.C[0])
		d := Num{T: "int", I: 1}
		op := "PLUS"
		if strings.HasSuffix(n.S, "DECREMENT") {
			op = "MINUS"
		}
		v := e.coerce(e.binop(&Node{T: n.T, L: n.L, C: []*Node{{T: n.T}, {T: "int"}}}, op, old, d), n.T)
		e.assign(x, n.C[0], v)
		if strings.HasPrefix(n.S, "POST") {
			return old
		}
		return v
	case "UNARY_PLUS":
		return e.expr(x, n.C[0])
	case "UNARY_MINUS":
		v, ok := e.expr(x, n.C[0]).(Num)
		if !ok {
			e.throw("java.lang.NullPointerException", "")
		}
		if v.Sym != "" {
			e.undec("the negation of %s", v.Sym)
		}
		return Num{T: n.T, I: wrap(-v.I, n.T), F: -v.F}
	}
	e.undec("operator %s", n.S)
	return nil
}

func (e *Eval) binop(n *Node, op string, a, b Value) Value {
	switch op {
	case "EQUAL_TO", "NOT_EQUAL_TO":
		var eq bool
		x, ok1 := a.(Num)
		y, ok2 := b.(Num)
		switch {
		case a == nil || b == nil:
			eq = a == nil && b == nil
		case ok1 && ok2:
			if boxed(n.C[0].T) && boxed(n.C[1].T) {
				e.undec("the identity of boxed numbers at line %d", n.L)
			}
			eq = e.cmp(x, y) == 0
		default:
			switch a.(type) {
			case bool, EnumV, Class:
				eq = e.equal(a, b)
			case *Obj, *Arr, *Coll, *Lam, *Nat:
				eq = a == b
			default:
				e.undec("the identity of objects at line %d", n.L)
			}
		}
		return eq == (op == "EQUAL_TO")
	case "PLUS":
		_, t1 := a.(Text)
		_, t2 := b.(Text)
		if n.T == "java.lang.String" || t1 || t2 {
			return e.concat(a, b)
		}
	}
	if p, ok := a.(bool); ok {
		q, ok := b.(bool)
		if !ok {
			e.undec("operator %s", op)
		}
		switch op {
		case "AND":
			return p && q
		case "OR":
			return p || q
		case "XOR":
			return p != q
		}
	}
	x, ok1 := a.(Num)
	y, ok2 := b.(Num)
	if !ok1 || !ok2 {
		e.throw("java.lang.NullPointerException", "operator "+op)
	}
	switch op {
	case "LESS_THAN":
		return e.cmp(x, y) < 0
	case "LESS_THAN_EQUAL":
		return e.cmp(x, y) <= 0
	case "GREATER_THAN":
		return e.cmp(x, y) > 0
	case "GREATER_THAN_EQUAL":
		return e.cmp(x, y) >= 0
	}
	if x.Sym != "" || y.Sym != "" {
		e.undec("arithmetic on %s%s", x.Sym, y.Sym)
	}
	t := n.T
	if isFloatT(x.T) || isFloatT(y.T) {
		p, q := e.rank(x), e.rank(y)
		switch op {
		case "PLUS":
			return Num{T: t, F: p + q}
		case "MINUS":
			return Num{T: t, F: p - q}
		case "MULTIPLY":
			return Num{T: t, F: p * q}
		case "DIVIDE":
			return Num{T: t, F: p / q}
		}
		e.undec("operator %s", op)
	}
	var r int64
	switch op {
	case "PLUS":
		r = x.I + y.I
	case "MINUS":
		r = x.I - y.I
	case "MULTIPLY":
		r = x.I * y.I
	case "DIVIDE", "REMAINDER":
		if y.I == 0 {
			e.throw("java.lang.ArithmeticException", "/ by zero")
		}
		r = x.I / y.I
		if op == "REMAINDER" {
			r = x.I % y.I
		}
	case "AND":
		r = x.I & y.I
	case "OR":
		r = x.I | y.I
	case "XOR":
		r = x.I ^ y.I
	case "LEFT_SHIFT", "RIGHT_SHIFT":
		k := uint(y.I & 31)
		if t == "long" {
			k = uint(y.I & 63)
		}
		if op == "LEFT_SHIFT" {
			r = x.I << k
		} else {
			r = x.I >> k
		}
	default:
		e.undec("operator %s", op)
	}
	return Num{T: t, I: wrap(r, t)}
}

func (e *Eval) concat(a, b Value) Value {
	x, ok1 := e.str(a).(Text)
	y, ok2 := e.str(b).(Text)
	if !ok1 || !ok2 || x.Free || y.Free || x.Sym != "" || y.Sym != "" {
		return Text{Free: true}
	}
	return Text{S: x.S + y.S}
}

// str is String.valueOf.
func (e *Eval) str(v Value) Value {
	switch x := v.(type) {
	case nil:
		return Text{S: "null"}
	case bool:
		return Text{S: strconv.FormatBool(x)}
	case Text:
		return x
	case Num:
		if x.Sym == "" && x.T == "char" {
			return Text{S: string(rune(x.I))}
		}
		if x.Sym == "" && !isFloatT(x.T) {
			return Text{S: strconv.FormatInt(x.I, 10)}
		}
	case EnumV:
		if x.Name == "" {
			return Text{S: "UNRECOGNIZED"}
		}
		return Text{S: x.Name}
	case *Obj:
		if m, c := e.find(x.Cls, "toString()"); m != nil && m.C[0] != nil {
			return e.invoke(c, m, x, nil)
		}
	}
	return Text{Free: true}
}

func (e *Eval) ref(x *ctx, n *Node) Value {
	name := n.S[:strings.Index(n.S, "(")]
	if n.has("new") {
		return &Nat{"new", func(a []Value) Value { return e.construct(n.O, n.S, a, nil) }}
	}
	var bound Value
	if n.C[0] != nil {
		bound = e.expr(x, n.C[0])
		e.deref(bound, "method reference")
		return &Nat{name, func(a []Value) Value { return e.virtual(n, n.O, n.S, bound, a) }}
	}
	if n.has("static") {
		return &Nat{name, func(a []Value) Value { return e.staticCall(n, n.O, n.S, a) }}
	}
	return &Nat{name, func(a []Value) Value {
		e.deref(a[0], name)
		return e.virtual(n, n.O, n.S, a[0], a[1:])
	}}
}

func (e *Eval) staticCall(n *Node, owner, sig string, args []Value) Value {
	if c := e.class(owner); c != nil {
		if m := c.Methods[sig]; m != nil && m.C[0] != nil {
			e.initStatic(c)
			return e.invoke(c, m, nil, args)
		}
	}
	return e.nativeStatic(n, owner, sig[:strings.Index(sig, "(")], args)
}

func (e *Eval) call(x *ctx, n *Node) Value {
	var recv Value
	if n.C[0] != nil {
		recv = e.expr(x, n.C[0])
		e.deref(recv, n.S)
	}
	args := e.args(x, n)
	switch {
	case n.has("static"):
		return e.staticCall(n, n.O, n.S, args)
	case n.has("super"):
		o, ok := x.this.(*Obj)
		if ok {
			if m, c := e.lookup(x.cls.Name, n.S, true); m != nil && m.C[0] != nil {
				return e.invoke(c, m, o, args)
			}
		}
		e.undec("super call to %s", n.S)
	case n.has("implicit"):
		recv = e.self(x, n.O)
		if recv == nil {
			e.undec("call of %s without receiver", n.S)
		}
	}
	return e.virtual(n, n.O, n.S, recv, args)
}

// virtual dispatches an instance method.
func (e *Eval) virtual(n *Node, owner, sig string, recv Value, args []Value) Value {
	name := sig[:strings.Index(sig, "(")]
	switch r := recv.(type) {
	case *Obj:
		if m, c := e.find(r.Cls, sig); m != nil && m.C[0] != nil {
			return e.invoke(c, m, r, args)
		}
		return e.nativeObj(n, r, owner, sig, name, args)
	case *Lam:
		if m, c := e.find(owner, sig); m != nil && m.C[0] != nil {
			return e.invoke(c, m, r, args) // default method
		}
		if v, ok := e.nativeFn(r, owner, name, args); ok {
			return v
		}
		return e.apply(r, args)
	case *Nat:
		if m, c := e.find(owner, sig); m != nil && m.C[0] != nil {
			return e.invoke(c, m, r, args)
		}
		if v, ok := e.nativeFn(r, owner, name, args); ok {
			return v
		}
		return r.Fn(args)
	}
	return e.nativeCall(n, recv, owner, name, sig, args)
}

// apply calls a function value.
func (e *Eval) apply(f Value, args []Value) Value {
	switch l := f.(type) {
	case *Lam:
		e.depth++
		if e.depth > 200 {
			e.undec("unbounded recursion")
		}
		defer func() { e.depth-- }()
		fr := l.Fr.sub()
		for i, p := range l.N.P {
			if i < len(args) {
				fr.declare(p, "", args[i])
			}
		}
		x := &ctx{this: l.This, cls: l.Cls, fr: fr}
		if l.N.has("expr") {
			return e.expr(x, l.N.C[0])
		}
		return e.stmt(x, l.N.C[0]).val
	case *Nat:
		return l.Fn(args)
	case *Obj:
		// an instance of a functional interface
		c := e.class(l.Cls)
		var names []string
		if c != nil {
			for s, m := range c.Methods {
				if m.C[0] != nil && !strings.HasPrefix(s, "<") && len(sigParams(s)) == len(args) {
					names = append(names, s)
				}
			}
		}
		sort.Strings(names)
		if len(names) == 1 {
			return e.invoke(c, c.Methods[names[0]], l, args)
		}
	case nil:
		e.throw("java.lang.NullPointerException", "function")
	}
	e.undec("call of a function value")
	return nil
}

func (e *Eval) arrLen(a *Arr) Value {
	if a.Chars {
		return e.utf16Len(Text{S: a.Of.S, Sym: a.Of.Sym})
	}
	if a.Of != nil && a.Of.Sym == "" {
		return Num{T: "int", I: int64(len(a.Of.S))}
	}
	if a.Of != nil {
		return e.measure("bytes", a.Of.Sym, "int")
	}
	return Num{T: "int", I: int64(len(a.E))}
}

// measure is a length of a symbolic text.
func (e *Eval) measure(what, sym, t string) Value {
	r, ok := e.Env.Rank[what+":"+sym]
	if !ok {
		e.undec("the %s of %s", what, sym)
	}
	return Num{T: t, I: int64(r)}
}

// Outcome of a validation.
type Outcome struct {
	Thrown *Obj
	Undec  string
}

// Catch runs f and reports how it ends.
func (e *Eval) Catch(f func()) (o Outcome) {
	defer func() {
		switch p := recover().(type) {
		case nil:
		case Thrown:
			o.Thrown = p.Ex
		case Undec:
			o.Undec = p.Msg
		default:
			panic(p)
		}
	}()
	f()
	return
}
