package cxx

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"

	"verif/analyzer/absint"
	"verif/analyzer/golang"
	"verif/analyzer/scen"
	"verif/analyzer/spec"
)

// Value is an abstract C++ value: nil (null pointer), bool, Num, Text, Chars,
// *Cell (a pointer), Time, *Msg, *Coll, Iter, *Stream, *Pair, *Obj, Fn, *Lam,
// Regex, TypeIdx.
type Value interface{}

// Num is a number of an arithmetic type: a constant or a symbol.
type Num struct {
	T   string
	I   int64
	F   float64
	Sym string
	// Turn counts how often a symbol was carried past the end of its type.
	Turn int
	// Minus is a symbol subtracted from Sym.
	Minus string
	// Near marks a rounded symbol.
	Near bool
	// F32 marks the constant of a float rule.
	F32 bool
}

// Text is a std::string or string piece: a constant, a symbol, or a text
// nothing depends on.
type Text struct {
	S    string
	Sym  string
	Free bool
}

// Chars is a const char* into a text; Lit has its terminating NUL at the end.
type Chars struct {
	T   Text
	Off int64
}

// Time is a Duration or Timestamp; Part says which addend a half-built one is.
type Time struct {
	Dur  bool
	Sym  string
	Conc *scen.DC
	Part string
}

// Msg is a message.
type Msg struct {
	Fq     string
	V      *spec.Val
	Opaque string
}

// Coll is a container.
type Coll struct {
	Kind string
	T    string
	E, V []Value
	Vals []*Cell // of maps with mutable entries
	Sym  string
}

// Iter is a position in a container; At < 0 is the end.
type Iter struct {
	C  *Coll
	At int
}

// TextIter is a position in a text.
type TextIter struct {
	T   Text
	At  int64
	End bool
	Rev bool // a reverse iterator, at what precedes At
}

// TokenIter walks the pieces of a text between matches.
type TokenIter struct {
	Parts []string
	At    int
}

type Stream struct {
	S   string
	Pos int
}

type Pair struct{ A, B Value }

// Obj is an instance of a class of the analysed code.
type Obj struct {
	Cls *Node
	F   map[string]*Cell
	Up  *frame
}

// Hash is the hash of a value.
type Hash struct{ V Value }

// Fn is a function or a std::function holding one.
type Fn struct {
	N    *Node
	Name string
	Type string
}

// Lam is a closure.
type Lam struct {
	M  *Node
	Fr *frame
}

type Regex struct{ P Text }

type TypeIdx struct{ T string }

// Opaque is a library object nothing is known of.
type Opaque struct{ T string }

// Cell is a variable; a pointer value is the cell it points to.
type Cell struct{ V Value }

type frame struct {
	vars map[string]*Cell
	this Value
	up   *frame
	recs map[string]*Node
}

func (f *frame) find(id string) *Cell {
	for ; f != nil; f = f.up {
		if c := f.vars[id]; c != nil {
			return c
		}
	}
	return nil
}

// Undec is thrown when the value does not determine the outcome.
type Undec struct{ Msg string }

// Thrown is an exception in flight.
type Thrown struct{ T string }

// Prog is a unit prepared for evaluation.
type Prog struct {
	Lits    *golang.Lits
	B       *scen.Built
	Enum    map[string]*scen.Enum // by C++ name
	ids     map[string]*Node
	defs    map[string]*Node   // functions with a body by linkage name
	ctorsOf map[string][]*Node // constructors with a body by class
	ctorRec map[*Node]*Node
	recs    map[string]*Node // records by name
	globals []*Node
	vals    map[string]*Cell
	old     map[interface{}]bool // what all threads see
	reg     bool
	sums    map[*Node]string
	pairs   map[*Node]relation
	// Classes maps C++ class names to message types.
	Classes map[string]string
	// Probes are texts that tell the named predicates apart.
	Probes []string
	Preds  map[string]func(string) bool
	// Validates says whether the fields of messages of the type are checked.
	Validates func(fq string) bool
	// Foreign says whether messages of the type have a validator in another file.
	Foreign func(fq string) bool
}

// NewProg indexes units.
func NewProg(us []*Unit, lits *golang.Lits, b *scen.Built) *Prog {
	p := &Prog{Lits: lits, B: b, ids: map[string]*Node{}, defs: map[string]*Node{}, ctorsOf: map[string][]*Node{}, ctorRec: map[*Node]*Node{}, recs: map[string]*Node{}, vals: map[string]*Cell{}, old: map[interface{}]bool{}, sums: map[*Node]string{}, pairs: map[*Node]relation{}, Classes: map[string]string{}}
	for fq := range b.Msgs {
		p.Classes[Class(b, fq)] = fq
	}
	for _, u := range us {
		p.index(u.Root, nil, false)
	}
	return p
}

// Class is protoc's name for a message type.
func Class(b *scen.Built, fq string) string {
	pkg := ""
	for _, f := range b.FDS.File {
		pre := "." + f.GetPackage() + "."
		if f.GetPackage() != "" && strings.HasPrefix(fq, pre) && len(pre) > len(pkg) {
			pkg = pre
		}
	}
	rest := strings.TrimPrefix(fq, pkg)
	if pkg == "" {
		rest = strings.TrimPrefix(fq, ".")
	}
	return strings.ReplaceAll(strings.Trim(pkg, "."), ".", "::") + "::" + strings.ReplaceAll(rest, ".", "_")
}

func body(n *Node) *Node {
	for _, c := range n.Inner {
		if c.Kind == "CompoundStmt" {
			return c
		}
	}
	return nil
}

func (p *Prog) index(n *Node, rec *Node, inFn bool) {
	if n == nil {
		return
	}
	if n.ID != "" && n.Kind != "" {
		if _, ok := p.ids[n.ID]; !ok {
			p.ids[n.ID] = n
		}
	}
	switch n.Kind {
	case "FunctionDecl", "CXXMethodDecl":
		if body(n) != nil && n.Mangled != "" {
			p.defs[n.Mangled] = n
		}
		inFn = true
	case "CXXConstructorDecl":
		if body(n) != nil && rec != nil {
			p.ctorsOf[rec.Name] = append(p.ctorsOf[rec.Name], n)
			p.ctorRec[n] = rec
		}
		inFn = true
	case "CXXRecordDecl", "ClassTemplateSpecializationDecl":
		rec = n
		if len(n.Inner) > 0 {
			p.recs[n.Name] = n
		}
		inFn = true
	case "ClassTemplateDecl", "FunctionTemplateDecl":
		for _, c := range n.Inner {
			if c.Kind == "ClassTemplateSpecializationDecl" || n.Kind == "FunctionTemplateDecl" && c.Kind == "FunctionDecl" {
				p.index(c, rec, inFn)
			}
		}
		return
	case "VarDecl":
		if !inFn {
			p.globals = append(p.globals, n)
		}
	}
	for _, c := range n.Inner {
		p.index(c, rec, inFn)
	}
}

// Functions lists the analysed functions with a body.
func (p *Prog) Functions() []string {
	var out []string
	for _, n := range p.defs {
		out = append(out, n.Name)
	}
	return out
}

// Eval is one evaluation.
type Eval struct {
	P     *Prog
	Env   *spec.Env
	Parts map[string]scen.DC // seconds and nanos of symbolic times
	steps int
	depth int
	probe bool
	colls map[collID]*Coll
	init  int // depth of initialisation
	locks int // locks held
	where []string
	// Effects are the writes to what all threads see.
	Effects []string
}

// collID is a collection of a message.
type collID struct {
	M *spec.Val
	F string
}

func (p *Prog) NewEval(env *spec.Env) *Eval {
	return &Eval{P: p, Env: env, Parts: map[string]scen.DC{}, colls: map[collID]*Coll{}}
}

func (e *Eval) undec(f string, a ...interface{}) { panic(Undec{fmt.Sprintf(f, a...)}) }

// Result of a validation.
type Result struct {
	OK     bool
	Text   string // the error text written
	Set    bool
	Thrown string
	Undec  string
}

func (e *Eval) catch(f func()) (thrown, und string) {
	defer func() {
		switch p := recover().(type) {
		case nil:
		case Thrown:
			thrown = p.T
		case Undec:
			und = p.Msg
		default:
			panic(p)
		}
	}()
	f()
	return
}

// Validate evaluates Validate on a message of type fq.
func (e *Eval) Validate(fq string, v *spec.Val) (r Result) {
	r.Thrown, r.Undec = e.catch(func() {
		e.register()
		cls := Class(e.P.B, fq)
		var fn *Node
		for _, d := range e.P.defs {
			if d.Name == "Validate" && paramClass(d) == cls {
				fn = d
			}
		}
		if fn == nil {
			e.undec("there is no Validate for %s", cls)
		}
		err := &Cell{V: Text{}}
		out := e.invoke(fn, nil, []Value{&Msg{Fq: fq, V: v}, err}, nil, nil)
		b, ok := out.(bool)
		if !ok {
			e.undec("Validate returns %T", out)
		}
		r.OK = b
		if t, ok := err.V.(Text); ok {
			r.Text, r.Set = t.S, t.S != "" || t.Free
		}
	})
	return
}

// paramClass is the class of the first parameter of a function.
func paramClass(d *Node) string {
	for _, c := range d.Inner {
		if c.Kind == "ParmVarDecl" {
			return bare(c.T())
		}
	}
	return ""
}

// bare strips qualifiers from a type.
func bare(t string) string {
	t = strings.TrimSpace(t)
	for {
		s := strings.TrimSpace(strings.TrimSuffix(strings.TrimSuffix(strings.TrimPrefix(t, "const "), "&"), " const"))
		s = strings.TrimPrefix(s, "::")
		if s == t {
			return t
		}
		t = s
	}
}

// register constructs the namespace-scope validators.
func (e *Eval) register() {
	if e.P.reg {
		return
	}
	e.P.reg = true
	for _, g := range e.P.globals {
		if strings.Contains(g.T(), "Validator<") {
			e.global(g)
		}
	}
}

func (e *Eval) global(n *Node) *Cell {
	if c := e.P.vals[n.ID]; c != nil {
		return c
	}
	c := &Cell{}
	e.P.vals[n.ID] = c
	e.init++
	c.V = e.varInit(&frame{vars: map[string]*Cell{}}, n, c)
	e.init--
	if x, ok := c.V.(Num); ok && x.Sym == "?" {
		c.V = Num{T: x.T}
	}
	if n.TLS == "" {
		e.P.share(c)
	}
	return c
}

// varInit is the initial value of a variable.
func (e *Eval) varInit(f *frame, n *Node, c *Cell) Value {
	for _, x := range n.Inner {
		if !strings.HasSuffix(x.Kind, "Attr") && x.Kind != "" && x.Kind != "FullComment" {
			if isCtorOf(x) {
				return e.construct(f, x, c)
			}
			return e.expr(f, x)
		}
	}
	t := bare(n.T())
	if isArith(t) {
		return Num{T: t, Sym: "?"}
	}
	return &Opaque{t}
}

func isCtorOf(n *Node) bool {
	for n.Kind == "ExprWithCleanups" && len(n.Inner) == 1 {
		n = n.Inner[0]
	}
	return n.Kind == "CXXConstructExpr"
}

func isFloatT(t string) bool { return t == "float" || t == "double" }

func isArith(t string) bool {
	switch t {
	case "int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "short", "unsigned short", "char", "signed char", "unsigned char", "float", "double", "bool":
		return true
	}
	return false
}

// bits is the width of an integer type and whether it is unsigned.
func bits(t string) (int, bool) {
	switch t {
	case "int":
		return 32, false
	case "unsigned int":
		return 32, true
	case "long", "long long":
		return 64, false
	case "unsigned long", "unsigned long long":
		return 64, true
	case "short":
		return 16, false
	case "unsigned short":
		return 16, true
	case "char", "signed char":
		return 8, false
	case "unsigned char":
		return 8, true
	}
	// enumerations
	return 32, false
}

func wrap(i int64, t string) int64 {
	b, u := bits(t)
	switch {
	case b == 64:
		return i
	case u:
		return i & (1<<uint(b) - 1)
	case b == 32:
		return int64(int32(i))
	case b == 16:
		return int64(int16(i))
	}
	return int64(int8(i))
}

func (n Num) big() *big.Int {
	if b, u := bits(n.T); b == 64 && u {
		return new(big.Int).SetUint64(uint64(n.I))
	}
	return big.NewInt(n.I)
}

func (e *Eval) rankOf(n Num) float64 {
	if n.Sym == "" {
		if isFloatT(n.T) {
			return n.F
		}
		f, _ := new(big.Float).SetInt(n.big()).Float64()
		return f
	}
	if n.Minus != "" {
		e.undec("the difference of %s and %s", n.Sym, n.Minus)
	}
	r, ok := e.Env.Rank[n.Sym]
	if !ok {
		e.undec("the order of %s", n.Sym)
	}
	return r
}

// short reports whether the sizes named by two symbols are decided by what is
// known of the texts: a prefix, suffix or part is not longer than the whole.
func (e *Eval) sized(n Num) (string, bool) {
	if strings.HasPrefix(n.Sym, "bytes:") && n.Minus == "" {
		return n.Sym[6:], true
	}
	return "", false
}

func (e *Eval) cmp(a, b Num) int {
	if a.Sym == "" && b.Sym == "" {
		if isFloatT(a.T) || isFloatT(b.T) {
			x, y := e.rankOf(a), e.rankOf(b)
			switch {
			case x < y:
				return -1
			case x > y:
				return 1
			}
			return 0
		}
		return a.big().Cmp(b.big())
	}
	if x, ok := e.sized(a); ok {
		if d, ok := e.sizeCmp(x, b); ok {
			return d
		}
	}
	if x, ok := e.sized(b); ok {
		if d, ok := e.sizeCmp(x, a); ok {
			return -d
		}
	}
	if a.Turn != b.Turn {
		if a.Turn < b.Turn {
			return -1
		}
		return 1
	}
	x, y := e.rankOf(a), e.rankOf(b)
	switch {
	case x < y:
		return -1
	case x > y:
		return 1
	}
	if a.Near != b.Near {
		e.undec("a comparison of a rounded and an exact number")
	}
	return 0
}

// sizeCmp compares the size of the text key with n where the order of sizes is
// not fixed by the environment.
func (e *Eval) sizeCmp(key string, n Num) (int, bool) {
	if _, ok := e.Env.Rank["bytes:"+key]; ok {
		if n.Sym == "" {
			return 0, false
		}
		if _, ok := e.Env.Rank[n.Sym]; ok {
			return 0, false
		}
	}
	other, ok := "", false
	if n.Sym == "" {
		if r, is := e.Env.Rank[key]; is && n.I == 0 {
			if r == 0 {
				return 0, true
			}
			return 1, true
		}
		// the length of a constant
		for f := range e.Env.Fact {
			p := strings.SplitN(f, ":", 3)
			if len(p) == 3 && p[1] == key {
				if s, err := strconv.Unquote(p[2]); err == nil && int64(len(s)) == n.I {
					other, ok = p[2], true
				}
			}
		}
	} else {
		other, ok = e.sized(n)
	}
	if !ok {
		return 0, false
	}
	if key == other {
		return 0, true
	}
	// key is the whole, other the part
	for _, k := range []string{"prefix", "suffix", "contains"} {
		if e.Env.Fact[k+":"+key+":"+other] {
			return 1, true
		}
		if e.Env.Fact[k+":"+other+":"+key] {
			return -1, true
		}
	}
	short, ok := e.Env.Fact["short:"+key]
	if !ok {
		short, ok = e.Env.Fact["short:"+other]
		short = !short
	}
	if !ok {
		return 0, false
	}
	if short {
		return -1, true
	}
	return 1, true
}

func (e *Eval) fact(k string) bool {
	v, ok := e.Env.Fact[k]
	if !ok {
		e.undec("whether %s", k)
	}
	return v
}

func key(t Text) string {
	if t.Sym != "" {
		return t.Sym
	}
	return strconv.Quote(t.S)
}

func (e *Eval) textRank(t Text) float64 {
	if t.Free {
		e.undec("the contents of a message text")
	}
	if t.Sym == "" {
		return spec.StrClass(t.S)
	}
	r, ok := e.Env.Rank[t.Sym]
	if !ok {
		e.undec("the contents of %s", t.Sym)
	}
	return r
}

func (e *Eval) timeRank(t Time) float64 {
	if t.Part != "" {
		e.undec("a time built from %s of %s", t.Part, t.Sym)
	}
	if t.Conc != nil {
		return float64(t.Conc.Sec)*1e9 + float64(t.Conc.Nanos)
	}
	r, ok := e.Env.Rank[t.Sym]
	if !ok {
		e.undec("the order of %s", t.Sym)
	}
	return r
}

// equal is operator==.
func (e *Eval) equal(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case bool:
		if y, ok := b.(bool); ok {
			return x == y
		}
	case Num:
		if y, ok := b.(Num); ok {
			if excluded(x, y) || excluded(y, x) {
				return false
			}
			return e.cmp(x, y) == 0
		}
	case Text, Chars:
		if what, whole, ok := e.partOf(e.text(a), e.text(b)); ok {
			return e.affix(what, whole, e.text(b))
		}
		if what, whole, ok := e.partOf(e.text(b), e.text(a)); ok {
			return e.affix(what, whole, e.text(a))
		}
		return e.textRank(e.text(a)) == e.textRank(e.text(b))
	case Time:
		if y, ok := b.(Time); ok {
			return e.timeRank(x) == e.timeRank(y)
		}
	case Iter:
		if y, ok := b.(Iter); ok {
			if x.C != y.C {
				e.undec("a comparison of iterators of different containers")
			}
			return x.At == y.At
		}
	case TextIter:
		if y, ok := b.(TextIter); ok {
			return x.At == y.At && (x.End == y.End || x.Rev) && x.Rev == y.Rev
		}
	case TokenIter:
		if y, ok := b.(TokenIter); ok {
			xe, ye := x.At >= len(x.Parts), y.At >= len(y.Parts)
			return xe && ye || !xe && !ye && x.At == y.At
		}
	case TypeIdx:
		if y, ok := b.(TypeIdx); ok {
			return x == y
		}
	case Hash:
		if y, ok := b.(Hash); ok {
			return e.equal(x.V, y.V)
		}
	case *Cell, *Obj, *Coll:
		return a == b
	case *Msg:
		if y, ok := b.(*Msg); ok && x.Opaque != "" && y.Opaque != "" {
			rx, ok1 := e.Env.Rank[x.Opaque]
			ry, ok2 := e.Env.Rank[y.Opaque]
			if ok1 && ok2 {
				return rx == ry
			}
		}
	}
	e.undec("equality of %T and %T", a, b)
	return false
}

// less is operator<.
func (e *Eval) less(a, b Value) bool {
	switch x := a.(type) {
	case Num:
		if y, ok := b.(Num); ok {
			return e.cmp(x, y) < 0
		}
	case Time:
		if y, ok := b.(Time); ok {
			return e.timeRank(x) < e.timeRank(y)
		}
	case Text:
		if y, ok := b.(Text); ok && x.Sym == "" && y.Sym == "" {
			return x.S < y.S
		}
	case TextIter:
		if y, ok := b.(TextIter); ok && x.Rev == y.Rev {
			return x.At != y.At && x.At < y.At != x.Rev
		}
	case bool:
		if y, ok := b.(bool); ok {
			return !x && y
		}
	}
	e.undec("the order of %T and %T", a, b)
	return false
}

// text is a value as a text.
func (e *Eval) text(v Value) Text {
	switch x := v.(type) {
	case Text:
		return x
	case Chars:
		if x.T.Sym != "" {
			e.undec("a text cut at its first NUL")
		}
		if x.Off < 0 || x.Off > int64(len(x.T.S)) {
			e.undec("a pointer past the end of a text")
		}
		s := x.T.S[x.Off:]
		if i := strings.IndexByte(s, 0); i >= 0 {
			s = s[:i]
		}
		return Text{S: s, Free: x.T.Free}
	case nil:
		e.undec("undefined behaviour: a text from a null pointer")
	}
	e.undec("a text from %T", v)
	return Text{}
}

func (e *Eval) num(v Value) Num {
	switch x := v.(type) {
	case Num:
		if x.Sym == "?" {
			e.undec("undefined behaviour: an uninitialised variable is read")
		}
		return x
	case bool:
		n := Num{T: "int"}
		if x {
			n.I = 1
		}
		return n
	}
	e.undec("a number from %T", v)
	return Num{}
}

func (e *Eval) size(t Text) Value {
	if t.Free {
		e.undec("the length of a message text")
	}
	if t.Sym != "" {
		return Num{T: "unsigned long", Sym: "bytes:" + t.Sym}
	}
	return Num{T: "unsigned long", I: int64(len(t.S))}
}

// conc is a constant integer.
func (e *Eval) conc(v Value, what string) int64 {
	n := e.num(v)
	if n.Sym != "" {
		if r, ok := e.Env.Rank[n.Sym]; ok && strings.HasPrefix(n.Sym, "bytes:") && n.Minus == "" {
			return int64(r)
		}
		e.undec("%s given by %s", what, n.Sym)
	}
	return n.I
}

// cast converts v to the arithmetic type t.
func (e *Eval) cast(v Value, t string) Value {
	t = bare(t)
	if t == "bool" {
		return e.truth(v)
	}
	if _, ok := v.(bool); ok {
		n := e.num(v)
		n.T = t
		if isFloatT(t) {
			n.F, n.I = float64(n.I), 0
		}
		return n
	}
	n, ok := v.(Num)
	if !ok {
		return v
	}
	if n.T == t {
		return n
	}
	if n.Sym != "" {
		if n.Sym == "?" {
			e.num(n)
		}
		switch {
		case isFloatT(t) && isFloatT(n.T):
			if t == "float" {
				if !n.Near && !n.F32 {
					e.undec("rounding of %s to float", n.Sym)
				}
				n.Near = false
			}
			n.T = t
			return n
		case isFloatT(t) || isFloatT(n.T):
			e.undec("conversion of %s from %s to %s", n.Sym, n.T, t)
		}
		from, fu := bits(n.T)
		to, tu := bits(t)
		if n.Minus != "" && from == to {
			n.T = t
			return n
		}
		if to < from {
			if strings.HasPrefix(n.Sym, "bytes:") || strings.HasPrefix(n.Sym, "runes:") || strings.HasPrefix(n.Sym, "size:") || strings.HasPrefix(n.Sym, "nanos:") {
				n.T = t
				return n
			}
			e.undec("narrowing of %s from %s to %s", n.Sym, n.T, t)
		}
		if from == to && fu == tu {
			n.T = t
			return n
		}
		if !fu && tu && (n.Turn < 0 || n.Turn == 0 && e.rankOf(n) < 0) {
			if to != from && n.Turn != 0 {
				e.undec("widening of %s", n.Sym)
			}
			n.Turn++
		}
		if fu && !tu && to == from {
			if n.Turn > 0 || e.rankOf(n) >= math.Ldexp(1, to-1) {
				n.Turn--
			}
		}
		if fu && to > from && n.Turn > 0 {
			e.undec("widening of %s", n.Sym)
		}
		n.T = t
		return n
	}
	if isFloatT(t) {
		f := n.F
		if !isFloatT(n.T) {
			f, _ = new(big.Float).SetInt(n.big()).Float64()
		}
		if t == "float" {
			f = float64(float32(f))
		}
		return Num{T: t, F: f}
	}
	if isFloatT(n.T) {
		if math.Abs(n.F) >= 9e18 {
			e.undec("undefined behaviour: %v as %s", n.F, t)
		}
		return Num{T: t, I: wrap(int64(n.F), t)}
	}
	return Num{T: t, I: wrap(n.I, t)}
}

func isFloat32(t *absint.Term) bool {
	if t.T == nil {
		return false
	}
	b, ok := t.T.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float32
}

func (e *Eval) truth(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case Num:
		return !e.equal(x, Num{T: x.T})
	case nil:
		return false
	case *Cell, *Obj, *Coll, Chars, Fn, *Lam:
		return true
	}
	e.undec("the truth of %T", v)
	return false
}

// invoke calls a function with a body.
func (e *Eval) invoke(d *Node, this Value, args []Value, refs []*Cell, up *frame) Value {
	if len(args) > 0 {
		if m, ok := args[0].(*Msg); ok && m.Opaque != "" {
			if fq, ok := e.P.Classes[paramClass(d)]; ok && d.Name == "Validate" && e.P.registered(m.Fq) {
				if fq != m.Fq {
					e.undec("a message of type %s given to the validator of %s", m.Fq, fq)
				}
				return e.opaque(m, args)
			}
		}
	}
	if e.depth++; e.depth > 60 {
		e.undec("unbounded recursion")
	}
	locks := e.locks
	e.where = append(e.where, d.Name)
	defer func() { e.depth--; e.locks = locks; e.where = e.where[:len(e.where)-1] }()
	if len(args) == 1 && !e.probe {
		if t, ok := args[0].(Text); ok && t.Sym != "" && this == nil {
			if s := e.summary(d); s != "" {
				if s == "runes" {
					return Num{T: bare(resultType(d)), Sym: "runes:" + t.Sym}
				}
				if v, ok := e.Env.Fact[s+":"+t.Sym]; ok {
					return v
				}
			}
		}
	}
	if len(args) == 2 && !e.probe && this == nil {
		a, ok1 := plainText(args[0])
		b, ok2 := plainText(args[1])
		if ok1 && ok2 && (a.Sym != "" || b.Sym != "") && !a.Free && !b.Free {
			if s := e.pairSummary(d); s.what != "" {
				if s.swap {
					a, b = b, a
				}
				return e.affix(s.what, a, b) != s.not
			}
		}
	}
	f := &frame{vars: map[string]*Cell{}, this: this, up: up}
	i := 0
	for _, c := range d.Inner {
		if c.Kind != "ParmVarDecl" {
			continue
		}
		cell := &Cell{}
		if i < len(args) {
			cell.V = args[i]
			if i < len(refs) && refs[i] != nil && strings.HasSuffix(strings.TrimSpace(c.T()), "&") {
				cell = refs[i]
			}
		} else if len(c.Inner) > 0 {
			cell.V = e.expr(f, c.Inner[0])
		}
		f.vars[c.ID] = cell
		i++
	}
	b := body(d)
	if b == nil {
		e.undec("the body of %s", d.Name)
	}
	switch r := e.stmt(f, b).(type) {
	case ret:
		return r.V
	case nil:
		if rt := resultType(d); rt != "void" && rt != "" {
			e.undec("undefined behaviour: the end of %s is reached without a result", d.Name)
		}
	}
	return nil
}

func resultType(d *Node) string {
	t := d.T()
	if i := strings.Index(t, "("); i >= 0 {
		return strings.TrimSpace(t[:i])
	}
	return ""
}

// registered says whether messages of the type are checked.
func (p *Prog) registered(fq string) bool { return p.Validates == nil || p.Validates(fq) }

// opaque is the outcome of validating a message of which only the validity is known.
func (e *Eval) opaque(m *Msg, args []Value) Value {
	bad := e.fact("invalid:" + m.Opaque)
	if bad && len(args) > 1 {
		if c, ok := args[1].(*Cell); ok {
			c.V = Text{S: "<inner>"}
		} else {
			e.undec("undefined behaviour: a validator without a place for its message")
		}
	}
	return !bad
}

func plainText(v Value) (Text, bool) {
	switch x := v.(type) {
	case Text:
		return x, true
	case Chars:
		return x.T, x.Off == 0
	}
	return Text{}, false
}

// relation is a predicate over two texts: what the second is in the first.
type relation struct {
	what      string
	swap, not bool
}

var pairProbes = []string{"", "a", "b", "ab", "ba", "aa", "aba", "abab", "baab", "bab", "abc", "cab", "xabx", "A", "AB", "\u00e9", "x\u00e9", "\u00e9x", "\x00", "a\x00b", "xa\x00by", "a\x00", "\x00b"}

// pairSummary finds the relation a function of two texts decides.
func (e *Eval) pairSummary(d *Node) relation {
	if r, ok := e.P.pairs[d]; ok {
		return r
	}
	e.P.pairs[d] = relation{}
	alive := map[relation]bool{}
	for _, w := range []string{"prefix", "suffix", "contains"} {
		for k := 0; k < 4; k++ {
			alive[relation{w, k&1 > 0, k&2 > 0}] = true
		}
	}
	for _, a := range pairProbes {
		for _, b := range pairProbes {
			ev := e.P.NewEval(spec.NewEnv())
			ev.probe = true
			var out Value
			th, und := ev.catch(func() { out = ev.invoke(d, nil, []Value{Text{S: a}, Text{S: b}}, nil, nil) })
			got, ok := out.(bool)
			if th != "" || und != "" || !ok {
				return relation{}
			}
			for r := range alive {
				x, y := a, b
				if r.swap {
					x, y = b, a
				}
				if ev.affix(r.what, Text{S: x}, Text{S: y}) == r.not == got {
					delete(alive, r)
				}
			}
			if len(alive) == 0 {
				return relation{}
			}
		}
	}
	for r := range alive {
		if len(alive) == 1 {
			e.P.pairs[d] = r
		}
	}
	return e.P.pairs[d]
}

// summary names the predicate over texts a function decides, found by
// evaluating it on texts that tell the predicates apart.
func (e *Eval) summary(d *Node) string {
	if s, ok := e.P.sums[d]; ok {
		return s
	}
	e.P.sums[d] = ""
	if len(e.P.Probes) == 0 {
		return ""
	}
	alive := map[string]bool{}
	for k := range e.P.Preds {
		alive[k] = true
	}
	runes := true
	for _, s := range e.P.Probes {
		ev := e.P.NewEval(spec.NewEnv())
		ev.probe = true
		var out Value
		th, und := ev.catch(func() { out = ev.invoke(d, nil, []Value{Text{S: s}}, nil, nil) })
		if th != "" || und != "" {
			return ""
		}
		switch x := out.(type) {
		case bool:
			runes = false
			for k, f := range e.P.Preds {
				if f(s) != x {
					delete(alive, k)
				}
			}
		case Num:
			alive = nil
			if x.Sym != "" || x.I != int64(len([]rune(s))) && validUTF8(s) {
				runes = false
			}
		default:
			return ""
		}
	}
	if runes {
		e.P.sums[d] = "runes"
	}
	for k := range alive {
		if len(alive) == 1 {
			e.P.sums[d] = k
		}
	}
	return e.P.sums[d]
}

func validUTF8(s string) bool { return strings.ToValidUTF8(s, "") == s }
