// Package absint is an abstract interpreter for Go SSA.
//
// Values are either concrete constants or symbolic Terms.  A branch on a Term
// is resolved by the configured abstract environment (an order/presence
// abstraction) and otherwise splits the abstract state (both outcomes are
// explored).  Nothing of the analysed program is ever executed.
package absint

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Ptr = *Value // address of a cell

type Struct []Value
type Array []Value

type Slice struct {
	Arr  *Array
	Off  int
	Len  int
	Cap  int
	Elem types.Type
}

func (s *Slice) At(i int) Value     { return (*s.Arr)[s.Off+i] }
func (s *Slice) Addr(i int) Ptr     { return &(*s.Arr)[s.Off+i] }
func (s *Slice) Set(i int, v Value) { (*s.Arr)[s.Off+i] = v }

type MapEntry struct {
	K, V Value
}
type Map struct {
	Ent  []*MapEntry
	Idx  map[string]int
	KT   types.Type
	VT   types.Type
	Dead bool
}

type Iface struct {
	T types.Type
	V Value
}

type Closure struct {
	Fn  *ssa.Function
	Env []Value
}

// NativeFn is a function implemented by the analyser.
type NativeFn struct {
	Name string
	F    func(in *Interp, args []Value) Value
}

// Obj is a native object (mutable model of a library object).
type Obj struct {
	Kind  string
	T     types.Type
	State interface{}
	Meth  map[string]func(in *Interp, args []Value) Value // args without receiver
}

// Host wraps a schema entity (a value of the descriptor library).
type Host struct {
	RV reflect.Value
}

type Tuple []Value

// Term is a symbolic value.
type Term struct {
	Op   string
	Args []Value
	T    types.Type
	key  string
	// attributes of leaves
	NonZero  bool
	Positive bool
}

func (t *Term) Key() string {
	if t.key == "" {
		var sb strings.Builder
		sb.WriteString(t.Op)
		if len(t.Args) > 0 {
			sb.WriteString("(")
			for i, a := range t.Args {
				if i > 0 {
					sb.WriteString(",")
				}
				sb.WriteString(KeyOf(a))
			}
			sb.WriteString(")")
		}
		t.key = sb.String()
	}
	return t.key
}
func (t *Term) String() string { return t.Key() }

func Leaf(name string, T types.Type) *Term {
	return &Term{Op: name, T: T}
}

// ---- holes: symbolic strings embedded in Go strings -----

const (
	HoleOpen  = "\uE000"
	HoleClose = "\uE001"
)

var (
	holeMu  sync.Mutex
	holes   []*Term
	holeIdx = map[string]int{}
)

// HoleStr returns a string consisting of a single hole for t.
func HoleStr(t *Term) string {
	k := t.Key() + "|" + typeKey(t)
	holeMu.Lock()
	defer holeMu.Unlock()
	id, ok := holeIdx[k]
	if !ok {
		id = len(holes)
		holes = append(holes, t)
		holeIdx[k] = id
	}
	return HoleOpen + strconv.Itoa(id) + HoleClose
}

func typeKey(t *Term) string {
	s := ""
	if t.T != nil {
		s = t.T.String()
	}
	for _, a := range t.Args {
		if x, ok := a.(*Term); ok {
			s += "," + typeKey(x)
		}
	}
	return s
}

func HoleTerm(id int) *Term {
	holeMu.Lock()
	defer holeMu.Unlock()
	return holes[id]
}

func HasHole(s string) bool { return strings.Contains(s, HoleOpen) }

type Seg struct {
	Lit  string
	Hole *Term
}

func Segs(s string) []Seg {
	var out []Seg
	for {
		i := strings.Index(s, HoleOpen)
		if i < 0 {
			if s != "" {
				out = append(out, Seg{Lit: s})
			}
			return out
		}
		j := strings.Index(s[i+len(HoleOpen):], HoleClose)
		id, err := 0, error(nil)
		if j >= 0 {
			id, err = strconv.Atoi(s[i+len(HoleOpen) : i+len(HoleOpen)+j])
		}
		if j < 0 || err != nil {
			// a given text that happens to hold the mark
			return append(out, Seg{Lit: s})
		}
		if i > 0 {
			out = append(out, Seg{Lit: s[:i]})
		}
		s = s[i+len(HoleOpen):]
		out = append(out, Seg{Hole: HoleTerm(id)})
		s = s[j+len(HoleClose):]
	}
}

// SingleHole returns the term if s is exactly one hole.
func SingleHole(s string) *Term {
	if !strings.HasPrefix(s, HoleOpen) {
		return nil
	}
	sg := Segs(s)
	if len(sg) == 1 {
		return sg[0].Hole
	}
	return nil
}

// Show renders a string with holes readable.
func Show(s string) string {
	if !HasHole(s) {
		return s
	}
	var sb strings.Builder
	for _, g := range Segs(s) {
		if g.Hole != nil {
			sb.WriteString("«" + g.Hole.Key() + "»")
		} else {
			sb.WriteString(g.Lit)
		}
	}
	return sb.String()
}

// KeyOf is a canonical rendering used for memo keys and map keys.
func KeyOf(v Value) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case bool:
		return strconv.FormatBool(v)
	case int64:
		return strconv.FormatInt(v, 10)
	case uint64:
		return strconv.FormatUint(v, 10)
	case float64:
		return strconv.FormatFloat(v, 'g', -1, 64)
	case string:
		if t := SingleHole(v); t != nil {
			return t.Key()
		}
		return strconv.Quote(Show(v))
	case *Term:
		return v.Key()
	case Iface:
		if v.T == nil {
			return "nil"
		}
		return KeyOf(v.V)
	case Struct:
		var p []string
		for _, x := range v {
			p = append(p, KeyOf(x))
		}
		return "{" + strings.Join(p, ",") + "}"
	case Array:
		var p []string
		for _, x := range v {
			p = append(p, KeyOf(x))
		}
		return "[" + strings.Join(p, ",") + "]"
	case *Slice:
		if v == nil {
			return "nil"
		}
		var p []string
		for i := 0; i < v.Len; i++ {
			p = append(p, KeyOf(v.At(i)))
		}
		return "[" + strings.Join(p, ",") + "]"
	case Ptr:
		if v == nil {
			return "nil"
		}
		return fmt.Sprintf("&%p", v)
	case Host:
		return fmt.Sprintf("host:%v", v.RV.Interface())
	case *Obj:
		return fmt.Sprintf("%s@%p", v.Kind, v)
	case *Map:
		if v == nil {
			return "nil"
		}
		return fmt.Sprintf("map@%p", v)
	case *Closure:
		if v == nil {
			return "nil"
		}
		return v.Fn.String()
	case *ssa.Function:
		if v == nil {
			return "nil"
		}
		return v.String()
	case *NativeFn:
		return v.Name
	}
	return fmt.Sprintf("%T:%v", v, v)
}

// ---- undecided / panics -----

type Undecided struct {
	Msg string
	Pos token.Position
}

func (u Undecided) Error() string { return fmt.Sprintf("undecided: %s (%s)", u.Msg, u.Pos) }

type GoPanic struct {
	V   Value
	Msg string
	Pos token.Position
}

func (p GoPanic) Error() string { return fmt.Sprintf("panic: %s (%s)", p.Msg, p.Pos) }

// Abort is thrown by models to stop a path with a label (e.g. "reject").
type Abort struct {
	Label string
	Msg   string
	Pos   token.Position
}

// ---- zero values, copies ----

func Zero(t types.Type) Value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsUnsigned != 0:
			return uint64(0)
		case t.Info()&types.IsInteger != 0:
			return int64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsString != 0:
			return ""
		case t.Kind() == types.UnsafePointer:
			return Ptr(nil)
		case t.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return Ptr(nil)
	case *types.Slice:
		return (*Slice)(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Chan:
		return (*Obj)(nil)
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = Zero(t.Field(i).Type())
		}
		return s
	case *types.Array:
		if t.Len() > 1<<16 {
			panic(Undecided{Msg: "huge array"})
		}
		a := make(Array, t.Len())
		for i := range a {
			a[i] = Zero(t.Elem())
		}
		return a
	case *types.Tuple:
		tp := make(Tuple, t.Len())
		for i := range tp {
			tp[i] = Zero(t.At(i).Type())
		}
		return tp
	}
	panic(Undecided{Msg: "zero of " + t.String()})
}

func Copy(v Value) Value {
	switch v := v.(type) {
	case Struct:
		c := make(Struct, len(v))
		for i := range v {
			c[i] = Copy(v[i])
		}
		return c
	case Array:
		c := make(Array, len(v))
		for i := range v {
			c[i] = Copy(v[i])
		}
		return c
	}
	return v
}

func NewPtr(v Value) Ptr { p := new(Value); *p = v; return p }

func MkSlice(elem types.Type, vs ...Value) *Slice {
	a := Array(append([]Value{}, vs...))
	return &Slice{Arr: &a, Len: len(vs), Cap: len(vs), Elem: elem}
}

func IsSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func bits(t types.Type) int {
	b := t.Underlying().(*types.Basic)
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func wrap(t types.Type, v Value) Value {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	switch {
	case b.Info()&types.IsUnsigned != 0:
		var u uint64
		switch x := v.(type) {
		case uint64:
			u = x
		case int64:
			u = uint64(x)
		default:
			return v
		}
		n := bits(t)
		if n < 64 {
			u &= (1 << uint(n)) - 1
		}
		return u
	case b.Info()&types.IsInteger != 0:
		var i int64
		switch x := v.(type) {
		case uint64:
			i = int64(x)
		case int64:
			i = x
		default:
			return v
		}
		switch bits(t) {
		case 8:
			i = int64(int8(i))
		case 16:
			i = int64(int16(i))
		case 32:
			i = int64(int32(i))
		}
		return i
	case b.Info()&types.IsFloat != 0:
		f, ok := v.(float64)
		if !ok {
			return v
		}
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	}
	return v
}

func constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return Zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		// type parameter etc.
		panic(Undecided{Msg: "const of type " + t.String()})
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsUnsigned != 0:
		u, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return u
	case b.Info()&types.IsInteger != 0:
		i, _ := constant.Int64Val(constant.ToInt(c.Value))
		return i
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return f
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(c.Value)
		return string(rune(i))
	case b.Info()&types.IsComplex != 0:
		panic(Undecided{Msg: "complex const"})
	}
	panic(Undecided{Msg: "const " + c.String()})
}

// ---- maps ----

func NewMap(kt, vt types.Type) *Map { return &Map{Idx: map[string]int{}, KT: kt, VT: vt} }

func (m *Map) Get(k Value) (Value, bool) {
	if m == nil {
		return nil, false
	}
	i, ok := m.Idx[mapKey(k)]
	if !ok {
		return nil, false
	}
	return m.Ent[i].V, true
}
func mapKey(k Value) string {
	switch x := k.(type) {
	case Iface:
		if x.T != nil {
			return x.T.String() + ":" + KeyOf(x.V)
		}
	}
	return KeyOf(k)
}
func (m *Map) Set(k, v Value) {
	kk := mapKey(k)
	if i, ok := m.Idx[kk]; ok {
		m.Ent[i].V = v
		return
	}
	m.Idx[kk] = len(m.Ent)
	m.Ent = append(m.Ent, &MapEntry{k, v})
}
func (m *Map) Delete(k Value) {
	kk := mapKey(k)
	i, ok := m.Idx[kk]
	if !ok {
		return
	}
	m.Ent = append(m.Ent[:i:i], m.Ent[i+1:]...)
	m.Idx = map[string]int{}
	for j, e := range m.Ent {
		m.Idx[mapKey(e.K)] = j
	}
}

// ---- oracle: exploration of abstract branches ----

type Choice struct {
	Key string
	N   int
	Pos token.Position
	Val int
}

type Oracle struct {
	Script  []int
	Taken   []Choice
	Memo    map[string]int
	MaxDeep int
}

func (o *Oracle) Choose(key string, n int) int {
	if v, ok := o.Memo[key]; ok {
		return v
	}
	if o.Memo == nil {
		o.Memo = map[string]int{}
	}
	i := len(o.Taken)
	v := 0
	if i < len(o.Script) {
		v = o.Script[i]
	}
	if o.MaxDeep > 0 && i > o.MaxDeep {
		panic(Undecided{Msg: "too many abstract branches: " + key})
	}
	o.Taken = append(o.Taken, Choice{Key: key, N: n, Val: v})
	o.Memo[key] = v
	return v
}

// next script in DFS order, or nil when exhausted.
func (o *Oracle) Next() []int {
	for i := len(o.Taken) - 1; i >= 0; i-- {
		if o.Taken[i].Val+1 < o.Taken[i].N {
			s := make([]int, i+1)
			for j := 0; j < i; j++ {
				s[j] = o.Taken[j].Val
			}
			s[i] = o.Taken[i].Val + 1
			return s
		}
	}
	return nil
}

// AtomString renders the choices of a path.
func (o *Oracle) AtomString() string {
	var p []string
	for _, c := range o.Taken {
		p = append(p, fmt.Sprintf("%s=%d", c.Key, c.Val))
	}
	sort.Strings(p)
	return strings.Join(p, " ")
}
