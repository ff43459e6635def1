// Package golang analyses the Go code the plugin emits: it type-checks the
// abstract emission and abstractly evaluates its validation methods.
package golang

import (
	"fmt"
	"go/constant"
	"go/scanner"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/absint"
)

// Lits maps symbolic numbers to unique literals and back.
type Lits struct {
	byKey map[string]int
	terms []*absint.Term
}

func NewLits() *Lits { return &Lits{byKey: map[string]int{}} }

const litBase = 700001

func (l *Lits) id(t *absint.Term) int {
	k := t.Key()
	if t.T != nil {
		k += "|" + t.T.String()
	}
	if i, ok := l.byKey[k]; ok {
		return i
	}
	i := len(l.terms)
	l.byKey[k] = i
	l.terms = append(l.terms, t)
	return i
}

func (l *Lits) lookupInt(n int64) *absint.Term {
	i := n - litBase
	if i < 0 || i%3 != 0 {
		return nil
	}
	i /= 3
	if i >= int64(len(l.terms)) {
		return nil
	}
	return l.terms[i]
}

func isFloat(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isNumeric(T types.Type) bool {
	if T == nil {
		return false
	}
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}
func isString(T types.Type) bool {
	if T == nil {
		return false
	}
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// Text is an emission whose symbolic parts have been given concrete syntax.
type Text struct {
	Src   string
	Flaws []string // symbolic text spliced in without escaping
}

// Finalize turns the holes of an emitted Go file into Go syntax.
func Finalize(text string, l *Lits) Text {
	var sb strings.Builder
	var out Text
	for _, g := range absint.Segs(text) {
		if g.Hole == nil {
			sb.WriteString(g.Lit)
			continue
		}
		sb.WriteString(l.render(g.Hole))
	}
	out.Src = sb.String()
	return out
}

// RawOpen and RawClose enclose symbolic text that has no syntax of its own.
const RawOpen, RawClose = rawOpen, rawClose

const rawOpen, rawClose = "\uE002", "\uE003"

// render gives the Go syntax of one hole at top level.
func (l *Lits) render(t *absint.Term) string {
	switch {
	case t.Op == "quote":
		return `"` + l.quoted(t.Args[0]) + `"`
	case t.Op == "escaped":
		return l.quoted(t.Args[0])
	case strings.HasPrefix(t.Op, "fmt:"):
		x, ok := t.Args[0].(*absint.Term)
		if ok && isNumeric(x.T) && (t.Op == "fmt:v" || t.Op == "fmt:d" || t.Op == "fmt:g" || t.Op == "fmt:e") {
			n := litBase + 3*l.id(x)
			if isFloat(x.T) {
				return strconv.Itoa(n) + ".5"
			}
			return strconv.Itoa(n)
		}
	}
	// raw symbolic text: only legal in comments
	return rawOpen + absint.HoleStr(t) + rawClose
}

func (l *Lits) quoted(v absint.Value) string {
	s, ok := v.(string)
	if !ok {
		if t, isT := v.(*absint.Term); isT {
			s = absint.HoleStr(t)
		}
	}
	var sb strings.Builder
	for _, g := range absint.Segs(s) {
		if g.Hole != nil {
			sb.WriteString(absint.HoleStr(g.Hole))
			continue
		}
		q := strconv.Quote(g.Lit)
		sb.WriteString(q[1 : len(q)-1])
	}
	return sb.String()
}

// CheckRaw reports raw symbolic text outside comments and returns the source
// with comment-only raw text removed.
func CheckRaw(src string) (clean string, flaws []string) {
	if !strings.Contains(src, rawOpen) {
		return src, nil
	}
	fs := token.NewFileSet()
	f := fs.AddFile("x.go", -1, len(src))
	var sc scanner.Scanner
	sc.Init(f, []byte(src), func(token.Position, string) {}, scanner.ScanComments)
	for {
		pos, tok, lit := sc.Scan()
		if tok == token.EOF {
			break
		}
		if tok != token.COMMENT && strings.Contains(lit, rawOpen) {
			flaws = append(flaws, fmt.Sprintf("unescaped rule text in %s token at line %d: %s", tok, f.Line(pos), absint.Show(stripRaw(lit))))
		}
	}
	return stripRaw(src), flaws
}

func stripRaw(s string) string {
	return strings.NewReplacer(rawOpen, "", rawClose, "").Replace(s)
}

// ConstHook recognises the unique literals in compiled constants.
func (l *Lits) ConstHook(c *ssa.Const) (absint.Value, bool) {
	if c.Value == nil {
		return nil, false
	}
	b, ok := c.Type().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsNumeric == 0 {
		return nil, false
	}
	var n int64
	var frac float64
	switch c.Value.Kind() {
	case constant.Int:
		x, exact := constant.Int64Val(c.Value)
		if !exact {
			return nil, false
		}
		n = x
	case constant.Float:
		f, _ := constant.Float64Val(c.Value)
		if math.Abs(f) > 1e15 {
			return nil, false
		}
		n = int64(math.Floor(f))
		frac = f - math.Floor(f)
	default:
		return nil, false
	}
	if t := l.lookupInt(n); t != nil && (frac == 0.5) == isFloat(t.T) {
		if !isNumeric(t.T) {
			return nil, false
		}
		return &absint.Term{Op: t.Op, Args: t.Args, T: c.Type(), NonZero: t.NonZero, Positive: t.Positive}, true
	}
	// seconds*1e9 + nanos
	if frac == 0 && n >= litBase*1000000000 {
		s, ns := l.lookupInt(n/1000000000), l.lookupInt(n%1000000000)
		if s != nil && ns != nil && strings.HasPrefix(s.Op, "sec:") && ns.Op == "nanos:"+s.Op[4:] {
			return &absint.Term{Op: s.Op[4:], T: c.Type()}, true
		}
	}
	if n >= litBase && l.suspicious(n) {
		return &absint.Term{Op: fmt.Sprintf("const(%d)", n), T: c.Type()}, true
	}
	return nil, false
}

// suspicious: a constant computed from unique literals in an unrecognised way.
func (l *Lits) suspicious(n int64) bool {
	if len(l.terms) == 0 {
		return false
	}
	if n > litBase+int64(3*len(l.terms)) && n < 4000000 {
		return false
	}
	s := n / 1000000000
	return l.lookupInt(s) != nil || l.lookupInt(n-(n/1000000000)*1000000000) != nil
}

// Lookup finds the symbol a unique literal stands for.
func (l *Lits) Lookup(n int64) *absint.Term { return l.lookupInt(n) }

// ByOp finds the symbol of that name.
func (l *Lits) ByOp(op string) *absint.Term {
	for _, t := range l.terms {
		if t.Op == op {
			return t
		}
	}
	return nil
}
