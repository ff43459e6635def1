package cxx

import (
	"math"
	"strconv"
	"strings"

	"verif/analyzer/scen"
)

type ret struct{ V Value }
type brk struct{}
type cont struct{}

const maxSteps = 6000000

// stmt executes a statement; it returns nil, ret, brk or cont.
func (e *Eval) stmt(f *frame, n *Node) interface{} {
	if e.steps++; e.steps > maxSteps {
		e.undec("an unbounded computation")
	}
	switch n.Kind {
	case "CompoundStmt":
		in := &frame{vars: map[string]*Cell{}, recs: map[string]*Node{}, this: f.this, up: f}
		for _, c := range n.Inner {
			if r := e.stmt(in, c); r != nil {
				return r
			}
		}
		return nil
	case "DeclStmt":
		for _, c := range n.Inner {
			switch c.Kind {
			case "VarDecl":
				e.declare(f, c)
			case "CXXRecordDecl":
				if f.recs == nil {
					f.recs = map[string]*Node{}
				}
				f.recs[c.Name] = c
			case "TypedefDecl", "TypeAliasDecl", "UsingDecl", "StaticAssertDecl", "EmptyDecl", "NamespaceAliasDecl":
			default:
				e.undec("the declaration %s", c.Kind)
			}
		}
		return nil
	case "NullStmt", "":
		return nil
	case "ReturnStmt":
		if len(n.Inner) == 0 {
			return ret{}
		}
		return ret{e.expr(f, n.Inner[0])}
	case "BreakStmt":
		return brk{}
	case "ContinueStmt":
		return cont{}
	case "IfStmt":
		in := n.Inner
		g := &frame{vars: map[string]*Cell{}, this: f.this, up: f}
		for len(in) > 0 && (in[0].Kind == "DeclStmt" || in[0].Kind == "") {
			e.stmt(g, in[0])
			in = in[1:]
		}
		if n.HasVar && len(in) > 0 && in[0].Kind == "VarDecl" {
			in = in[1:]
		}
		if e.truth(e.expr(g, in[0])) {
			return e.stmt(g, in[1])
		}
		if len(in) > 2 {
			return e.stmt(g, in[2])
		}
		return nil
	case "ForStmt":
		g := &frame{vars: map[string]*Cell{}, this: f.this, up: f}
		e.stmt(g, n.Inner[0])
		for {
			if n.Inner[2].Kind != "" && !e.truth(e.expr(g, n.Inner[2])) {
				return nil
			}
			switch r := e.stmt(g, n.Inner[4]).(type) {
			case ret:
				return r
			case brk:
				return nil
			}
			if n.Inner[3].Kind != "" {
				e.expr(g, n.Inner[3])
			}
			if e.steps++; e.steps > maxSteps {
				e.undec("an unbounded computation")
			}
		}
	case "WhileStmt":
		for e.truth(e.expr(f, n.Inner[0])) {
			switch r := e.stmt(f, n.Inner[len(n.Inner)-1]).(type) {
			case ret:
				return r
			case brk:
				return nil
			}
			if e.steps++; e.steps > maxSteps {
				e.undec("an unbounded computation")
			}
		}
		return nil
	case "DoStmt":
		for {
			switch r := e.stmt(f, n.Inner[0]).(type) {
			case ret:
				return r
			case brk:
				return nil
			}
			if !e.truth(e.expr(f, n.Inner[1])) {
				return nil
			}
		}
	case "CXXForRangeStmt":
		return e.ranged(f, n)
	case "SwitchStmt":
		return e.choose(f, n)
	case "AttributedStmt":
		return e.stmt(f, n.Inner[len(n.Inner)-1])
	case "CXXTryStmt", "GotoStmt", "LabelStmt":
		e.undec("a %s", n.Kind)
	}
	e.expr(f, n)
	return nil
}

func isRef(t string) bool { return strings.HasSuffix(strings.TrimSpace(t), "&") }

func (e *Eval) declare(f *frame, n *Node) {
	if n.Storage == "static" || n.TLS != "" {
		f.vars[n.ID] = e.global(n)
		return
	}
	c := &Cell{}
	f.vars[n.ID] = c
	if isRef(n.T()) {
		for _, x := range n.Inner {
			if strings.HasSuffix(x.Kind, "Attr") || x.Kind == "FullComment" {
				continue
			}
			if l := e.lval(f, x, true); l != nil {
				f.vars[n.ID] = l
			} else {
				c.V = e.expr(f, x)
			}
			return
		}
	}
	c.V = e.copied(e.varInit(f, n, c), n.T())
}

// copied is a copy of a container or class object held by value.
func (e *Eval) copied(v Value, t string) Value {
	if strings.HasSuffix(strings.TrimSpace(t), "*") {
		return v
	}
	switch x := v.(type) {
	case *Coll:
		c := *x
		c.E = append([]Value{}, x.E...)
		c.Vals = nil
		for _, k := range x.Vals {
			c.Vals = append(c.Vals, &Cell{k.V})
		}
		return &c
	case *Pair:
		c := *x
		return &c
	}
	return v
}

func (e *Eval) ranged(f *frame, n *Node) interface{} {
	var rangeDecl, loopDecl, body *Node
	k := len(n.Inner)
	body = n.Inner[k-1]
	loopDecl = n.Inner[k-2]
	for _, c := range n.Inner {
		if c.Kind == "DeclStmt" && len(c.Inner) == 1 && strings.HasPrefix(c.Inner[0].Name, "__range") {
			rangeDecl = c.Inner[0]
		}
	}
	if rangeDecl == nil || loopDecl.Kind != "DeclStmt" || len(loopDecl.Inner) != 1 {
		e.undec("a range loop")
	}
	g := &frame{vars: map[string]*Cell{}, this: f.this, up: f}
	var v Value
	for _, x := range rangeDecl.Inner {
		v = e.expr(g, x)
	}
	lv := loopDecl.Inner[0]
	for _, el := range e.elements(v) {
		h := &frame{vars: map[string]*Cell{lv.ID: {el}}, this: f.this, up: g}
		switch r := e.stmt(h, body).(type) {
		case ret:
			return r
		case brk:
			return nil
		}
	}
	return nil
}

// elements are the values a loop over v visits.
func (e *Eval) elements(v Value) []Value {
	switch x := v.(type) {
	case *Coll:
		if x.Sym != "" {
			e.undec("the elements of %s", x.Sym)
		}
		if x.Kind != "map" {
			return x.E
		}
		var out []Value
		for i := range x.E {
			out = append(out, &Pair{x.E[i], e.mapped(x, i)})
		}
		return out
	case Text:
		if x.Sym != "" || x.Free {
			e.undec("the characters of %s", x.Sym)
		}
		var out []Value
		for i := 0; i < len(x.S); i++ {
			out = append(out, Num{T: "char", I: int64(int8(x.S[i]))})
		}
		return out
	}
	e.undec("a loop over %T", v)
	return nil
}

func (e *Eval) mapped(c *Coll, i int) Value {
	if len(c.Vals) > i {
		return c.Vals[i].V
	}
	return c.V[i]
}

// choose executes a switch.
func (e *Eval) choose(f *frame, n *Node) interface{} {
	g := &frame{vars: map[string]*Cell{}, this: f.this, up: f}
	in := n.Inner
	for len(in) > 0 && (in[0].Kind == "DeclStmt" || in[0].Kind == "") {
		e.stmt(g, in[0])
		in = in[1:]
	}
	v := e.num(e.expr(g, in[0]))
	b := in[1]
	if b.Kind != "CompoundStmt" {
		e.undec("a switch without a block")
	}
	type arm struct {
		labels []*Node
		def    bool
		s      *Node
	}
	var arms []arm
	for _, c := range b.Inner {
		a := arm{}
		for c != nil && (c.Kind == "CaseStmt" || c.Kind == "DefaultStmt") {
			if c.Kind == "DefaultStmt" {
				a.def = true
			} else {
				if len(c.Inner) > 2 {
					e.undec("a case range")
				}
				a.labels = append(a.labels, c.Inner[0])
			}
			c = c.Inner[len(c.Inner)-1]
		}
		a.s = c
		arms = append(arms, a)
	}
	at := -1
	for i, a := range arms {
		for _, l := range a.labels {
			w := e.expr(g, l)
			if e.equal(v, e.num(w)) && at < 0 {
				at = i
			}
		}
	}
	for i, a := range arms {
		if a.def && at < 0 {
			at = i
		}
	}
	if at < 0 {
		return nil
	}
	h := &frame{vars: map[string]*Cell{}, this: f.this, up: g}
	for _, a := range arms[at:] {
		switch r := e.stmt(h, a.s).(type) {
		case brk:
			return nil
		case ret, cont:
			return r
		}
	}
	return nil
}

// lval is the variable an expression denotes; with soft it is nil for values.
func (e *Eval) lval(f *frame, n *Node, soft bool) *Cell {
	switch n.Kind {
	case "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "CXXConstCastExpr", "CXXStaticCastExpr", "ImplicitCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr":
		switch n.Cast {
		case "", "NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived":
			if len(n.Inner) == 1 {
				return e.lval(f, n.Inner[0], soft)
			}
		}
	case "DeclRefExpr":
		if n.Ref != nil && (n.Ref.Kind == "VarDecl" || n.Ref.Kind == "ParmVarDecl") {
			if c := f.find(n.Ref.ID); c != nil {
				return c
			}
			if d := e.P.ids[n.Ref.ID]; d != nil && d.Kind == "VarDecl" {
				return e.global(e.P.definition(d))
			}
		}
	case "MemberExpr":
		b := n.Inner[0]
		var v Value
		if c := e.lval(f, b, true); c != nil {
			v = c.V
		} else {
			v = e.expr(f, b)
		}
		if c, ok := v.(*Cell); ok && n.Arrow {
			v = c.V
		}
		switch x := v.(type) {
		case *Obj:
			if c := x.F[n.Name]; c != nil {
				return c
			}
			c := &Cell{}
			x.F[n.Name] = c
			return c
		case *Opaque:
			return &Cell{&Opaque{n.Name}}
		}
	case "UnaryOperator":
		switch n.Opcode {
		case "*":
			switch x := e.expr(f, n.Inner[0]).(type) {
			case *Cell:
				return x
			case nil:
				e.undec("undefined behaviour: a null pointer is followed")
			}
		case "++", "--":
			if !n.Postfix {
				e.expr(f, n)
				return e.lval(f, n.Inner[0], soft)
			}
		}
	case "CXXOperatorCallExpr":
		if e.opName(n) == "operator[]" {
			if c, ok := e.expr(f, n.Inner[1]).(*Coll); ok && c.Kind == "map" && len(c.Vals) == len(c.E) {
				return e.slot(c, e.expr(f, n.Inner[2]))
			}
		}
	case "BinaryOperator":
		if n.Opcode == "=" {
			e.expr(f, n)
			return e.lval(f, n.Inner[0], soft)
		}
	}
	if !soft {
		e.undec("the variable denoted by a %s", n.Kind)
	}
	return nil
}

// slot is the entry of a map for a key, which is made where it is missing.
func (e *Eval) slot(c *Coll, k Value) *Cell {
	e.foreign(c, k)
	for i, x := range c.E {
		if e.equal(x, k) {
			return c.Vals[i]
		}
	}
	cell := &Cell{}
	e.touch(c, "makes an entry of a shared map")
	c.E = append(c.E, k)
	c.Vals = append(c.Vals, cell)
	if e.P.old[c] {
		e.P.share(cell)
	}
	return cell
}

// foreign enters what the unit of another file registers for a type.
func (e *Eval) foreign(c *Coll, k Value) {
	t, ok := k.(TypeIdx)
	if !ok || e.P.Foreign == nil || c.Kind != "map" || len(c.Vals) != len(c.E) {
		return
	}
	for _, x := range c.E {
		if e.equal(x, k) {
			return
		}
	}
	if fq, ok := e.P.Classes[t.T]; ok && e.P.Foreign(fq) {
		c.E = append(c.E, k)
		c.Vals = append(c.Vals, &Cell{&Obj{F: map[string]*Cell{"check_": {Fn{Name: "foreign", Type: fq}}}}})
		if e.P.old[c] {
			e.P.share(c)
		}
	}
}

// definition is the declaration of a variable that initialises it.
func (p *Prog) definition(d *Node) *Node {
	if d.Storage == "extern" && len(d.Inner) == 0 {
		for _, g := range p.globals {
			if g.Name == d.Name && g.Mangled == d.Mangled && g.Storage != "extern" {
				return g
			}
		}
	}
	return d
}

func (e *Eval) opName(n *Node) string {
	c := n.Inner[0]
	for len(c.Inner) == 1 && c.Kind == "ImplicitCastExpr" {
		c = c.Inner[0]
	}
	if c.Ref != nil {
		return c.Ref.Name
	}
	return ""
}

// unquoteC is the text of a C string literal as clang prints it.
func (e *Eval) unquoteC(s string) string {
	if i := strings.IndexByte(s, '"'); i > 0 {
		s = s[i:]
	}
	if len(s) < 2 {
		e.undec("the literal %s", s)
	}
	s = s[1 : len(s)-1]
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' || i+1 >= len(s) {
			b.WriteByte(s[i])
			continue
		}
		i++
		switch c := s[i]; c {
		case 'n':
			b.WriteByte('\n')
		case 't':
			b.WriteByte('\t')
		case 'r':
			b.WriteByte('\r')
		case 'a':
			b.WriteByte('\a')
		case 'b':
			b.WriteByte('\b')
		case 'f':
			b.WriteByte('\f')
		case 'v':
			b.WriteByte('\v')
		case 'x', 'u', 'U':
			j := i + 1
			for j < len(s) && strings.IndexByte("0123456789abcdefABCDEF", s[j]) >= 0 && (c == 'x' || c == 'u' && j < i+5 || c == 'U' && j < i+9) {
				j++
			}
			v, err := strconv.ParseUint(s[i+1:j], 16, 32)
			if err != nil {
				e.undec("the literal %s", s)
			}
			if c == 'x' {
				b.WriteByte(byte(v))
			} else {
				b.WriteRune(rune(v))
			}
			i = j - 1
		case '0', '1', '2', '3', '4', '5', '6', '7':
			j := i
			for j < len(s) && j < i+3 && s[j] >= '0' && s[j] <= '7' {
				j++
			}
			v, _ := strconv.ParseUint(s[i:j], 8, 16)
			b.WriteByte(byte(v))
			i = j - 1
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

func (e *Eval) intLit(n *Node) Value {
	t := bare(n.T())
	u, err := strconv.ParseUint(n.Value.S, 10, 64)
	if err != nil {
		i, err := strconv.ParseInt(n.Value.S, 10, 64)
		if err != nil {
			e.undec("the literal %s", n.Value.S)
		}
		return Num{T: t, I: i}
	}
	if s := e.P.Lits.Lookup(int64(u)); s != nil {
		return Num{T: t, Sym: s.Op}
	}
	return Num{T: t, I: int64(u)}
}

func (e *Eval) floatLit(n *Node) Value {
	t := bare(n.T())
	v, err := strconv.ParseFloat(n.Value.S, 64)
	if err != nil {
		e.undec("the literal %s", n.Value.S)
	}
	// a float is too short for the half
	for _, x := range []float64{v - 0.5} {
		if x == math.Floor(x) {
			if s := e.P.Lits.Lookup(int64(x)); s != nil {
				k := Num{T: t, Sym: s.Op}
				k.F32 = isFloat32(s)
				k.Near = t == "double" && k.F32
				return k
			}
		}
	}
	return Num{T: t, F: v}
}

// arith is a binary operation on numbers.
func (e *Eval) arith(op, t string, a, b Num) Value {
	t = bare(t)
	if a.Sym == "" && b.Sym == "" {
		if isFloatT(t) {
			x, y := e.rankOf(a), e.rankOf(b)
			switch op {
			case "+":
				x += y
			case "-":
				x -= y
			case "*":
				x *= y
			case "/":
				x /= y
			default:
				e.undec("%s of floats", op)
			}
			return Num{T: t, F: x}
		}
		x, y := a.I, b.I
		_, u := bits(t)
		switch op {
		case "+":
			x += y
		case "-":
			x -= y
		case "*":
			x *= y
		case "/", "%":
			if y == 0 {
				e.undec("undefined behaviour: a division by zero")
			}
			switch {
			case u && op == "/":
				x = int64(uint64(x) / uint64(y))
			case u:
				x = int64(uint64(x) % uint64(y))
			case op == "/":
				x /= y
			default:
				x %= y
			}
		case "&":
			x &= y
		case "|":
			x |= y
		case "^":
			x ^= y
		case "<<":
			x <<= uint(y)
		case ">>":
			if u {
				x = int64(uint64(x) >> uint(y))
			} else {
				x >>= uint(y)
			}
		default:
			e.undec("the operator %s", op)
		}
		return Num{T: t, I: wrap(x, t)}
	}
	if op == "-" && a.Sym != "" && a.Minus == "" && strings.HasPrefix(a.Sym, "bytes:") {
		r := Num{T: t, Sym: a.Sym, Minus: b.Sym}
		if b.Sym == "" {
			r.Minus = "#" + strconv.FormatInt(b.I, 10)
		}
		return r
	}
	if (op == "+" || op == "-") && b.Sym == "" && b.I == 0 && !isFloatT(t) {
		return a
	}
	// sizes are numbers wherever the environment fixes them
	if x, ok := e.known(a); ok {
		if y, ok := e.known(b); ok {
			return e.arith(op, t, x, y)
		}
	}
	e.undec("%s of %s and %s", op, a.show(), b.show())
	return nil
}

// known is a size with the value the environment gives it.
func (e *Eval) known(n Num) (Num, bool) {
	if n.Sym == "" {
		return n, true
	}
	for _, p := range []string{"size:", "bytes:", "runes:"} {
		if r, ok := e.Env.Rank[n.Sym]; ok && strings.HasPrefix(n.Sym, p) && n.Minus == "" && r == math.Floor(r) {
			return Num{T: n.T, I: int64(r)}, true
		}
	}
	return n, false
}

func (n Num) show() string {
	if n.Sym != "" {
		return n.Sym
	}
	if isFloatT(n.T) {
		return strconv.FormatFloat(n.F, 'g', -1, 64)
	}
	return strconv.FormatInt(n.I, 10)
}

// expr evaluates an expression.
func (e *Eval) expr(f *frame, n *Node) Value {
	if e.steps++; e.steps > maxSteps {
		e.undec("an unbounded computation")
	}
	switch n.Kind {
	case "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "SubstNonTypeTemplateParmExpr", "CXXDefaultInitExpr":
		if len(n.Inner) == 0 {
			e.undec("a %s", n.Kind)
		}
		return e.expr(f, n.Inner[len(n.Inner)-1])
	case "ConstantExpr":
		if n.Value.Set {
			if i, err := strconv.ParseInt(n.Value.S, 10, 64); err == nil {
				if s := e.P.Lits.Lookup(i); s != nil {
					return Num{T: bare(n.T()), Sym: s.Op}
				}
				return Num{T: bare(n.T()), I: i}
			}
		}
		return e.expr(f, n.Inner[0])
	case "CXXDefaultArgExpr":
		if len(n.Inner) == 1 {
			return e.expr(f, n.Inner[0])
		}
		return &Opaque{"default"}
	case "CXXBoolLiteralExpr":
		return n.Value.S == "true" || n.Value.S == "1"
	case "IntegerLiteral":
		return e.intLit(n)
	case "FloatingLiteral":
		return e.floatLit(n)
	case "CharacterLiteral":
		i, _ := strconv.ParseInt(n.Value.S, 10, 64)
		return Num{T: "char", I: wrap(i, "char")}
	case "StringLiteral":
		return Chars{T: Text{S: e.unquoteC(n.Value.S)}}
	case "CXXNullPtrLiteralExpr", "GNUNullExpr":
		return nil
	case "ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "CXXConstCastExpr", "CXXReinterpretCastExpr":
		return e.castExpr(f, n)
	case "DeclRefExpr":
		return e.declRef(f, n)
	case "CXXThisExpr":
		return f.this
	case "MemberExpr":
		return e.member(f, n)
	case "CXXMemberCallExpr":
		return e.memberCall(f, n)
	case "CXXOperatorCallExpr":
		return e.opCall(f, n)
	case "CallExpr":
		return e.call(f, n)
	case "CXXConstructExpr", "CXXTemporaryObjectExpr":
		return e.construct(f, n, nil)
	case "InitListExpr":
		if len(n.Inner) == 1 && !strings.HasSuffix(bare(n.T()), "]") {
			return e.expr(f, n.Inner[0])
		}
		var vs []Value
		for _, c := range n.Inner {
			vs = append(vs, e.expr(f, c))
		}
		if len(vs) == 0 && isArith(bare(n.T())) {
			return Num{T: bare(n.T())}
		}
		return &Coll{Kind: "list", E: vs}
	case "CXXStdInitializerListExpr":
		in := n.Inner[0]
		for in.Kind != "InitListExpr" && len(in.Inner) == 1 {
			in = in.Inner[0]
		}
		var vs []Value
		for _, c := range in.Inner {
			vs = append(vs, e.expr(f, c))
		}
		return &Coll{Kind: "list", E: vs}
	case "ImplicitValueInitExpr", "CXXScalarValueInitExpr":
		t := bare(n.T())
		if t == "bool" {
			return false
		}
		if isArith(t) {
			return Num{T: t}
		}
		return nil
	case "CXXTypeidExpr":
		if n.TypeArg == nil {
			e.undec("the type of an expression")
		}
		t := n.TypeArg.Desug
		if t == "" {
			t = n.TypeArg.Qual
		}
		return TypeIdx{bare(t)}
	case "CXXNewExpr":
		for _, c := range n.Inner {
			return e.expr(f, c)
		}
	case "CXXThrowExpr":
		if len(n.Inner) == 0 {
			e.undec("a rethrow")
		}
		panic(Thrown{bare(n.Inner[0].T())})
	case "LambdaExpr":
		for _, c := range n.Inner {
			if c.Kind == "CXXRecordDecl" {
				for _, m := range c.Inner {
					if m.Kind == "CXXMethodDecl" && m.Name == "operator()" {
						return &Lam{M: m, Fr: f}
					}
				}
			}
		}
	case "UnaryExprOrTypeTraitExpr":
		if n.Name == "sizeof" && len(n.Inner) == 1 {
			t := n.Inner[0].T()
			if i := strings.LastIndex(t, "["); i >= 0 && strings.HasPrefix(bare(t), "char[") {
				k, err := strconv.ParseInt(strings.TrimSuffix(t[i+1:], "]"), 10, 64)
				if err == nil {
					return Num{T: "unsigned long", I: k}
				}
			}
		}
	case "ConditionalOperator":
		if e.truth(e.expr(f, n.Inner[0])) {
			return e.expr(f, n.Inner[1])
		}
		return e.expr(f, n.Inner[2])
	case "UnaryOperator":
		return e.unary(f, n)
	case "BinaryOperator", "CompoundAssignOperator":
		return e.binary(f, n)
	case "CXXRewrittenBinaryOperator":
		return e.expr(f, n.Inner[0])
	}
	e.undec("the expression %s", n.Kind)
	return nil
}

func (e *Eval) castExpr(f *frame, n *Node) Value {
	in := n.Inner[len(n.Inner)-1]
	switch n.Cast {
	case "ToVoid":
		if in.Kind != "DeclRefExpr" {
			e.expr(f, in)
		}
		return nil
	case "NullToPointer":
		return nil
	case "IntegralCast", "IntegralToFloating", "FloatingToIntegral", "FloatingCast":
		return e.cast(e.expr(f, in), n.T())
	case "IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean":
		return e.truth(e.expr(f, in))
	}
	v := e.expr(f, in)
	if k, ok := v.(Num); ok && n.Kind != "ImplicitCastExpr" && (isArith(bare(n.T())) || k.T != bare(n.T()) && n.Cast == "IntegralCast") {
		return e.cast(v, n.T())
	}
	return v
}

func (e *Eval) unary(f *frame, n *Node) Value {
	switch n.Opcode {
	case "!":
		return !e.truth(e.expr(f, n.Inner[0]))
	case "+":
		return e.expr(f, n.Inner[0])
	case "-":
		x := e.num(e.expr(f, n.Inner[0]))
		if x.Sym != "" {
			// a literal with a minus sign
			s := e.P.Lits.ByOp("-" + x.Sym)
			if s == nil {
				e.undec("the negative of %s", x.Sym)
			}
			return Num{T: x.T, Sym: s.Op}
		}
		if isFloatT(x.T) {
			return Num{T: x.T, F: -x.F}
		}
		t := bare(n.T())
		return Num{T: t, I: wrap(-x.I, t)}
	case "~":
		x := e.num(e.expr(f, n.Inner[0]))
		if x.Sym == "" {
			return Num{T: bare(n.T()), I: wrap(^x.I, bare(n.T()))}
		}
	case "&":
		in := n.Inner[0]
		if in.Kind == "DeclRefExpr" && in.Ref != nil && strings.HasSuffix(in.Ref.Kind, "Decl") && (in.Ref.Kind == "FunctionDecl" || in.Ref.Kind == "CXXMethodDecl") {
			return e.expr(f, in)
		}
		c := e.lval(f, in, true)
		if c == nil {
			switch v := e.expr(f, in).(type) {
			case *Obj, *Msg, *Coll, *Stream:
				return v
			}
			e.undec("the address of a %s", in.Kind)
		}
		switch v := c.V.(type) {
		case *Obj, *Msg, *Coll, *Stream:
			return v
		}
		return c
	case "*":
		switch x := e.expr(f, n.Inner[0]).(type) {
		case *Cell:
			return x.V
		case nil:
			e.undec("undefined behaviour: a null pointer is followed")
		case Chars:
			return e.charAt(x.T, x.Off, true)
		case *Obj, *Msg, *Coll, *Stream:
			return x
		case Fn, *Lam:
			return x
		}
	case "++", "--":
		c := e.lval(f, n.Inner[0], false)
		old := c.V
		switch x := old.(type) {
		case Num:
			d := "+"
			if n.Opcode == "--" {
				d = "-"
			}
			e.set(c, e.arith(d, x.T, e.num(x), Num{T: x.T, I: 1, F: 1}))
		case Chars:
			if n.Opcode == "++" {
				x.Off++
			} else {
				x.Off--
			}
			e.set(c, x)
		default:
			e.undec("%s of %T", n.Opcode, old)
		}
		if n.Postfix {
			return old
		}
		return c.V
	}
	e.undec("the operator %s", n.Opcode)
	return nil
}

// charAt is a character of a text.
func (e *Eval) charAt(t Text, i int64, nul bool) Value {
	if t.Sym != "" || t.Free {
		e.undec("the characters of %s", t.Sym)
	}
	if i == int64(len(t.S)) && nul {
		return Num{T: "char"}
	}
	if i < 0 || i >= int64(len(t.S)) {
		e.undec("undefined behaviour: a character outside a text")
	}
	return Num{T: "char", I: int64(int8(t.S[i]))}
}

// move is the iterator d places on.
func (x TextIter) move(d int64) TextIter {
	if x.Rev {
		d = -d
	}
	x.At += d
	x.End = x.At == int64(len(x.T.S)) && !x.Rev
	return x
}

// between are the characters from one iterator to another.
func between(a, b TextIter) (string, bool) {
	n := int64(len(a.T.S))
	if a.T != b.T || a.T.Sym != "" || a.T.Free || a.Rev != b.Rev || a.At < 0 || b.At < 0 || a.At > n || b.At > n {
		return "", false
	}
	if !a.Rev {
		if a.At > b.At {
			return "", false
		}
		return a.T.S[a.At:b.At], true
	}
	if a.At < b.At {
		return "", false
	}
	var out []byte
	for i := a.At - 1; i >= b.At; i-- {
		out = append(out, a.T.S[i])
	}
	return string(out), true
}

// end is the iterator at the end of a range.
func (x TextIter) end() TextIter {
	if x.Rev {
		x.At = 0
	} else {
		x.At, x.End = int64(len(x.T.S)), true
	}
	return x
}

func (e *Eval) binary(f *frame, n *Node) Value {
	l, r := n.Inner[0], n.Inner[1]
	switch n.Opcode {
	case "&&":
		return e.truth(e.expr(f, l)) && e.truth(e.expr(f, r))
	case "||":
		return e.truth(e.expr(f, l)) || e.truth(e.expr(f, r))
	case ",":
		e.expr(f, l)
		return e.expr(f, r)
	case "=":
		v := e.expr(f, r)
		c := e.lval(f, l, false)
		e.set(c, e.copied(v, n.T()))
		return c.V
	}
	if strings.HasSuffix(n.Opcode, "=") && n.Kind == "CompoundAssignOperator" {
		c := e.lval(f, l, false)
		v := e.expr(f, r)
		op := strings.TrimSuffix(n.Opcode, "=")
		switch x := c.V.(type) {
		case Chars:
			d := e.conc(v, "an offset")
			if op == "-" {
				d = -d
			}
			x.Off += d
			e.set(c, x)
		case bool:
			y := e.truth(v)
			switch op {
			case "&":
				e.set(c, x && y)
			case "|":
				e.set(c, x || y)
			default:
				e.undec("%s of booleans", op)
			}
		default:
			a := e.num(c.V)
			e.set(c, e.cast(e.arith(op, a.T, a, e.num(v)), a.T))
		}
		return c.V
	}
	a, b := e.expr(f, l), e.expr(f, r)
	switch n.Opcode {
	case "==":
		return e.equal(e.flat(a, b), e.flat(b, a))
	case "!=":
		return !e.equal(e.flat(a, b), e.flat(b, a))
	case "<":
		return e.less(e.flat(a, b), e.flat(b, a))
	case ">":
		return e.less(e.flat(b, a), e.flat(a, b))
	case "<=":
		return !e.less(e.flat(b, a), e.flat(a, b))
	case ">=":
		return !e.less(e.flat(a, b), e.flat(b, a))
	}
	if x, ok := a.(Chars); ok && (n.Opcode == "+" || n.Opcode == "-") {
		if y, ok := b.(Chars); ok && n.Opcode == "-" && x.T == y.T {
			return Num{T: "long", I: x.Off - y.Off}
		}
		d := e.conc(b, "an offset")
		if n.Opcode == "-" {
			d = -d
		}
		x.Off += d
		return x
	}
	if x, ok := a.(bool); ok {
		if y, ok := b.(bool); ok {
			switch n.Opcode {
			case "&":
				return x && y
			case "|":
				return x || y
			case "^":
				return x != y
			}
		}
	}
	return e.arith(n.Opcode, n.T(), e.num(a), e.num(b))
}

// flat makes a boolean a number next to a number.
func (e *Eval) flat(v, other Value) Value {
	if b, ok := v.(bool); ok {
		if _, ok := other.(Num); ok {
			return e.num(b)
		}
	}
	return v
}

func (e *Eval) declRef(f *frame, n *Node) Value {
	r := n.Ref
	if r == nil {
		e.undec("an unresolved name")
	}
	switch r.Kind {
	case "VarDecl", "ParmVarDecl":
		if c := f.find(r.ID); c != nil {
			return c.V
		}
		if d := e.P.ids[r.ID]; d != nil && d.Kind == "VarDecl" {
			return e.global(e.P.definition(d)).V
		}
		switch r.Name {
		case "npos":
			return Num{T: "unsigned long", I: -1}
		case "kDurationMaxSeconds":
			return Num{T: "long", I: 315576000000}
		case "kDurationMinSeconds":
			return Num{T: "long", I: -315576000000}
		case "kTimestampMinSeconds":
			return Num{T: "long", I: -62135596800}
		case "kTimestampMaxSeconds":
			return Num{T: "long", I: 253402300799}
		}
		return &Opaque{r.Name}
	case "FunctionDecl", "CXXMethodDecl":
		d := e.P.ids[r.ID]
		if d == nil {
			return Fn{Name: r.Name, Type: r.T()}
		}
		return Fn{N: d, Name: r.Name}
	case "EnumConstantDecl":
		return e.enumerator(r)
	}
	e.undec("the %s %s", r.Kind, r.Name)
	return nil
}

// enumerator is the value of an enumerator of the message classes.
func (e *Eval) enumerator(r *Node) Value {
	t := bare(r.T())
	if strings.HasSuffix(t, "Case") {
		cls := t[:strings.LastIndex(t, "::")]
		if fq, ok := e.P.Classes[cls]; ok {
			if strings.HasSuffix(r.Name, "_NOT_SET") {
				return Num{T: t}
			}
			for _, fd := range e.P.fields(fq) {
				if "k"+camel(fd.GetName()) == r.Name {
					return Num{T: t, I: int64(fd.GetNumber())}
				}
			}
		}
	}
	if en := e.P.Enum[t]; en != nil {
		for _, v := range en.Values {
			if r.Name == v.Name || strings.HasSuffix(r.Name, "_"+v.Name) {
				return Num{T: t, I: int64(v.Num)}
			}
		}
	}
	e.undec("the enumerator %s of %s", r.Name, t)
	return nil
}

func camel(s string) string {
	var b strings.Builder
	up := true
	for _, c := range s {
		switch {
		case c == '_':
			up = true
			continue
		case up && c >= 'a' && c <= 'z':
			b.WriteRune(c - 32)
		default:
			b.WriteRune(c)
		}
		up = c >= '0' && c <= '9'
	}
	return b.String()
}

func (e *Eval) member(f *frame, n *Node) Value {
	v := e.expr(f, n.Inner[0])
	if c, ok := v.(*Cell); ok {
		v = c.V
	}
	switch x := v.(type) {
	case nil:
		e.undec("undefined behaviour: a null pointer is followed")
	case *Pair:
		switch n.Name {
		case "first":
			return x.A
		case "second":
			return x.B
		}
	case *Obj:
		if c := x.F[n.Name]; c != nil {
			return c.V
		}
	case Iter:
		if el := e.elements(x.C); x.At >= 0 && x.At < len(el) {
			if p, ok := el[x.At].(*Pair); ok {
				switch n.Name {
				case "first":
					return p.A
				case "second":
					return p.B
				}
			}
		}
	case *Opaque:
		return &Opaque{n.Name}
	}
	e.undec("the member %s of %T", n.Name, v)
	return nil
}

// args evaluates arguments; refs are the variables behind them.
func (e *Eval) args(f *frame, ns []*Node) (vs []Value, refs []*Cell) {
	for _, a := range ns {
		var c *Cell
		if strings.Contains(a.Prop, "lvalue") || a.Prop == "" {
			c = e.lvalQuiet(f, a)
		}
		if c != nil {
			vs = append(vs, c.V)
		} else {
			vs = append(vs, e.expr(f, a))
		}
		refs = append(refs, c)
	}
	return
}

// lvalQuiet is the variable an argument names.
func (e *Eval) lvalQuiet(f *frame, a *Node) *Cell {
	switch a.Kind {
	case "DeclRefExpr", "MemberExpr", "ParenExpr", "ImplicitCastExpr", "CXXConstCastExpr":
		return e.lval(f, a, true)
	case "UnaryOperator":
		if a.Opcode == "*" {
			return e.lval(f, a, true)
		}
	}
	return nil
}

// resolve finds the body of a function.
func (e *Eval) resolve(d *Node) *Node {
	if d == nil {
		return nil
	}
	if body(d) != nil {
		return d
	}
	if d.Mangled != "" {
		return e.P.defs[d.Mangled]
	}
	return nil
}

func (e *Eval) call(f *frame, n *Node) Value {
	fn := e.expr(f, n.Inner[0])
	vs, refs := e.args(f, n.Inner[1:])
	return e.apply(fn, vs, refs)
}

// apply calls a function value.
func (e *Eval) apply(fn Value, vs []Value, refs []*Cell) Value {
	if c, ok := fn.(*Cell); ok {
		fn = c.V
	}
	switch x := fn.(type) {
	case Fn:
		if x.Name == "foreign" && x.N == nil {
			m, ok := vs[0].(*Msg)
			if !ok || m.Fq != x.Type {
				e.undec("the validator of %s is given %T", x.Type, vs[0])
			}
			return e.opaque(m, vs)
		}
		if d := e.resolve(x.N); d != nil {
			return e.invoke(d, nil, vs, refs, nil)
		}
		if x.N != nil && x.Name == "Validate" && len(vs) == 2 {
			// the validator of a message of another file
			if m, ok := vs[0].(*Msg); ok && e.P.Foreign != nil && e.P.Foreign(m.Fq) {
				return e.opaque(m, vs)
			}
		}
		return e.native(x.Name, x.Type, vs, refs)
	case *Lam:
		return e.invoke(x.M, nil, vs, refs, x.Fr)
	case *Obj:
		for _, c := range x.Cls.Inner {
			if c.Kind == "CXXMethodDecl" && c.Name == "operator()" && body(c) != nil {
				return e.invoke(c, x, vs, refs, x.Up)
			}
		}
	case *order:
		return !e.truth(e.apply(x.less, vs, refs)) && !e.truth(e.apply(x.less, []Value{vs[1], vs[0]}, nil))
	case *Opaque:
		if strings.HasPrefix(x.T, "std::hash<") && len(vs) == 1 {
			return Hash{vs[0]}
		}
		if strings.HasPrefix(x.T, "std::equal_to<") && len(vs) == 2 {
			return e.equal(vs[0], vs[1])
		}
	case nil:
		e.undec("undefined behaviour: an empty function is called")
	}
	e.undec("a call of %T", fn)
	return nil
}

func (e *Eval) opCall(f *frame, n *Node) Value {
	name := strings.TrimPrefix(e.opName(n), "operator")
	// operators of the analysed code
	if c := n.Inner[0]; true {
		for len(c.Inner) == 1 && c.Kind == "ImplicitCastExpr" {
			c = c.Inner[0]
		}
		if c.Ref != nil {
			if d := e.resolve(e.P.ids[c.Ref.ID]); d != nil && d.Kind == "FunctionDecl" {
				vs, refs := e.args(f, n.Inner[1:])
				return e.invoke(d, nil, vs, refs, nil)
			}
		}
	}
	switch name {
	case "=", "+=", "++", "--":
		c := e.lval(f, n.Inner[1], false)
		switch name {
		case "=":
			v := e.expr(f, n.Inner[2])
			if _, ok := c.V.(Text); ok {
				switch x := v.(type) {
				case Chars:
					v = e.text(x)
				case Num:
					v = Text{S: string([]byte{byte(x.I)})}
				}
			}
			e.set(c, e.copied(v, n.Inner[2].T()))
			return c.V
		case "+=":
			e.set(c, e.plus(c.V, e.expr(f, n.Inner[2])))
			return c.V
		}
		old := c.V
		d := 1
		if name == "--" {
			d = -1
		}
		switch x := old.(type) {
		case TokenIter:
			x.At += d
			e.set(c, x)
		case Iter:
			x.At += d
			if x.At >= len(x.C.E) {
				x.At = -1
			}
			e.set(c, x)
		case TextIter:
			e.set(c, x.move(int64(d)))
		default:
			e.undec("%s of %T", name, old)
		}
		if len(n.Inner) > 2 {
			return old
		}
		return c.V
	}
	vs, refs := e.args(f, n.Inner[1:])
	switch name {
	case "()":
		return e.apply(vs[0], vs[1:], refs[1:])
	case "==":
		return e.equal(e.flat(vs[0], vs[1]), e.flat(vs[1], vs[0]))
	case "!=":
		return !e.equal(e.flat(vs[0], vs[1]), e.flat(vs[1], vs[0]))
	case "<":
		return e.less(vs[0], vs[1])
	case ">":
		return e.less(vs[1], vs[0])
	case "<=":
		return !e.less(vs[1], vs[0])
	case ">=":
		return !e.less(vs[0], vs[1])
	case "<<":
		if s, ok := vs[0].(*Stream); ok {
			e.write(s, vs[1])
			return s
		}
	case "+":
		if len(vs) == 2 {
			return e.plus(vs[0], vs[1])
		}
	case "-":
		x, ok1 := vs[0].(TextIter)
		y, ok2 := vs[1].(TextIter)
		if ok1 && ok2 && x.Rev == y.Rev {
			if x.Rev {
				x, y = y, x
			}
			return Num{T: "long", I: x.At - y.At}
		}
		if k, ok := vs[1].(Num); ok && ok1 {
			return x.move(-e.conc(k, "an offset"))
		}
	case "*", "->":
		switch x := vs[0].(type) {
		case TokenIter:
			if x.At >= len(x.Parts) {
				e.undec("undefined behaviour: an iterator at the end is followed")
			}
			return Text{S: x.Parts[x.At]}
		case TextIter:
			if x.Rev {
				return e.charAt(x.T, x.At-1, false)
			}
			return e.charAt(x.T, x.At, false)
		case Iter:
			el := e.elements(x.C)
			if x.At < 0 || x.At >= len(el) {
				e.undec("undefined behaviour: an iterator at the end is followed")
			}
			return el[x.At]
		}
	case "[]":
		switch x := vs[0].(type) {
		case *Coll:
			if x.Kind == "map" {
				if len(x.Vals) == len(x.E) {
					return e.slot(x, vs[1]).V
				}
				break
			}
			return e.at(x, vs[1])
		case Text:
			return e.charAt(x, e.conc(vs[1], "an index"), true)
		}
	case "!":
		return !e.truth(vs[0])
	}
	e.undec("operator%s of %T", name, vs[0])
	return nil
}

func (e *Eval) at(c *Coll, iv Value) Value {
	i := e.conc(iv, "an index")
	if c.Sym != "" {
		e.undec("the elements of %s", c.Sym)
	}
	if i < 0 || i >= int64(len(c.E)) {
		e.undec("undefined behaviour: element %d of %d", i, len(c.E))
	}
	return c.E[i]
}

// plus joins texts and half-built times.
func (e *Eval) plus(a, b Value) Value {
	if x, ok := a.(Time); ok {
		y, ok := b.(Time)
		if !ok {
			e.undec("a time plus %T", b)
		}
		switch {
		case x.Conc != nil && y.Conc != nil:
			d := scen.DC{Sec: x.Conc.Sec + y.Conc.Sec, Nanos: x.Conc.Nanos + y.Conc.Nanos}
			for d.Nanos >= 1e9 {
				d.Sec, d.Nanos = d.Sec+1, d.Nanos-1e9
			}
			for d.Nanos <= -1e9 {
				d.Sec, d.Nanos = d.Sec-1, d.Nanos+1e9
			}
			if d.Sec > 0 && d.Nanos < 0 {
				d.Sec, d.Nanos = d.Sec-1, d.Nanos+1e9
			}
			if d.Sec < 0 && d.Nanos > 0 {
				d.Sec, d.Nanos = d.Sec+1, d.Nanos-1e9
			}
			return Time{Dur: x.Dur, Conc: &d}
		case x.Conc != nil && *x.Conc == (scen.DC{}):
			return y
		case y.Conc != nil && *y.Conc == (scen.DC{}):
			return x
		case x.Part != "" && y.Part != "" && x.Part != y.Part && x.Sym == y.Sym:
			return Time{Dur: x.Dur, Sym: x.Sym}
		}
		e.undec("the sum of two times")
	}
	switch a.(type) {
	case Text, Chars:
	default:
		if x, ok := a.(Num); ok {
			return e.arith("+", x.T, x, e.num(b))
		}
		if x, ok := a.(TextIter); ok {
			return x.move(e.conc(b, "an offset"))
		}
	}
	x := e.text(a)
	var y Text
	if c, ok := b.(Num); ok && c.T == "char" && c.Sym == "" {
		y = Text{S: string([]byte{byte(c.I)})}
	} else {
		y = e.text(b)
	}
	if x.Sym != "" || x.Free || y.Sym != "" || y.Free {
		return Text{S: loose(x) + loose(y), Free: true}
	}
	return Text{S: x.S + y.S}
}

// loose is a text for a message.
func loose(t Text) string {
	if t.Sym != "" {
		return "<" + t.Sym + ">"
	}
	return t.S
}

// write puts a value at the position of a stream.
func (e *Eval) write(s *Stream, v Value) {
	e.touch(s, "writes a shared stream")
	var t string
	switch x := v.(type) {
	case Text:
		t = loose(x)
	case Chars:
		t = loose(e.text(x))
	case Num:
		e.num(x)
		if x.T == "char" && x.Sym == "" {
			t = string([]byte{byte(x.I)})
		} else {
			t = "<" + x.show() + ">"
		}
	case bool:
		t = "0"
		if x {
			t = "1"
		}
	case nil:
		e.undec("undefined behaviour: a null pointer is written")
	default:
		t = "<value>"
	}
	b := []byte(s.S)
	for len(b) < s.Pos+len(t) {
		b = append(b, 0)
	}
	copy(b[s.Pos:], t)
	s.S = string(b)
	s.Pos += len(t)
}
