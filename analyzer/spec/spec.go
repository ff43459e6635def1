// Package spec is the reference meaning of the validation rules, as their
// documentation states it, over abstract values.
//
// An abstract value is a tree whose leaves are symbols.  What is known about a
// symbol is its position in an order (Rank) and the truth of named predicates
// (Fact).  Concrete numbers are their own rank.
package spec

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"

	"verif/analyzer/scen"
)

// Env fixes what is known of the symbols.
type Env struct {
	Rank map[string]float64
	Fact map[string]bool
}

func NewEnv() *Env { return &Env{Rank: map[string]float64{}, Fact: map[string]bool{}} }

func (e *Env) Clone() *Env {
	n := NewEnv()
	for k, v := range e.Rank {
		n.Rank[k] = v
	}
	for k, v := range e.Fact {
		n.Fact[k] = v
	}
	return n
}
func (e *Env) R(k string, v float64) *Env { e.Rank[k] = v; return e }
func (e *Env) F(k string, v bool) *Env    { e.Fact[k] = v; return e }
func (e *Env) String() string {
	var p []string
	for k, v := range e.Rank {
		p = append(p, fmt.Sprintf("%s@%v", k, v))
	}
	for k, v := range e.Fact {
		p = append(p, fmt.Sprintf("%s=%v", k, v))
	}
	sort.Strings(p)
	return strings.Join(p, " ")
}

// Val is an abstract field or message value.
type Val struct {
	Nil    bool
	Sym    string      // symbolic scalar/text/time, or an opaque message
	Conc   interface{} // concrete scalar: int, float64, bool, string, []byte
	List   []*Val
	Keys   []*Val // with List: the entries of a map
	Coll   bool   // a list or map (possibly empty)
	Fields map[string]*Val
	IsMsg  bool
	Inner  *Val // wrapper payload, Any type URL
}

func Sym(s string) *Val       { return &Val{Sym: s} }
func Conc(x interface{}) *Val { return &Val{Conc: x} }
func Nil() *Val               { return &Val{Nil: true} }
func Wrap(v *Val) *Val        { return &Val{Inner: v} }
func List(vs ...*Val) *Val    { return &Val{Coll: true, List: vs} }
func Map(kv ...*Val) *Val {
	v := &Val{Coll: true, Keys: []*Val{}}
	for i := 0; i+1 < len(kv); i += 2 {
		v.Keys = append(v.Keys, kv[i])
		v.List = append(v.List, kv[i+1])
	}
	return v
}
func Msg(fs map[string]*Val) *Val { return &Val{IsMsg: true, Fields: fs} }

func (v *Val) String() string {
	switch {
	case v == nil:
		return "unset"
	case v.Nil:
		return "nil"
	case v.IsMsg:
		var p []string
		for k, x := range v.Fields {
			p = append(p, k+":"+x.String())
		}
		sort.Strings(p)
		return "{" + strings.Join(p, " ") + "}"
	case v.Coll:
		var p []string
		for i, x := range v.List {
			if v.Keys != nil {
				p = append(p, v.Keys[i].String()+":"+x.String())
			} else {
				p = append(p, x.String())
			}
		}
		return "[" + strings.Join(p, " ") + "]"
	case v.Inner != nil:
		return "wrap(" + v.Inner.String() + ")"
	case v.Sym != "":
		return v.Sym
	}
	return fmt.Sprintf("%#v", v.Conc)
}

// Viol is a violated constraint.
type Viol struct {
	Path   string // field, with [index] or [key] for elements
	Rule   string
	Nested string        // the invalid embedded message
	Key    bool          // the violation concerns a map key
	Says   []interface{} // the bounds of the violated rule
}

func (v Viol) String() string {
	s := v.Path + ":" + v.Rule
	if v.Nested != "" {
		s += "(" + v.Nested + ")"
	}
	return s
}

// Undef is thrown when the environment does not determine the outcome.
type Undef struct{ Msg string }

// Namer maps a schema field to the name reported in violations.
type Checker struct {
	B   *scen.Built
	Env *Env
	// Name is the reported name of a field or oneof.
	Name func(string) string
	// KeyText renders a map key in a path.
	KeyText func(*Val) string
	Enums   map[string]*scen.Enum
	// Validates says whether messages of the named type carry validation.
	Validates func(fq string) bool
	out       []Viol
}

func undef(f string, a ...interface{}) { panic(Undef{fmt.Sprintf(f, a...)}) }

// scalar operand: a rank key or a number
func (c *Checker) rank(x interface{}) float64 {
	switch v := x.(type) {
	case *Val:
		if v.Sym != "" {
			return c.rank(scen.L(v.Sym))
		}
		return c.rank(v.Conc)
	case scen.L:
		r, ok := c.Env.Rank[string(v)]
		if !ok {
			undef("rank of %s", v)
		}
		return r
	case scen.LN:
		return c.rank(scen.L(v))
	case scen.D:
		return c.rank(scen.L(v))
	case scen.DC:
		return float64(v.Sec)*1e9 + float64(v.Nanos)
	case int:
		return float64(v)
	case int64:
		return float64(v)
	case float64:
		return v
	case bool:
		if v {
			return 1
		}
		return 0
	case string:
		return StrClass(v)
	case []byte:
		return StrClass(string(v))
	}
	undef("rank of %T", x)
	return 0
}

var classMu sync.Mutex

var classes = map[string]float64{"": 0}

// StrClass is the identity class of a text literal.
func StrClass(s string) float64 {
	classMu.Lock()
	defer classMu.Unlock()
	if r, ok := classes[s]; ok {
		return r
	}
	r := float64(len(classes))
	classes[s] = r
	return r
}

// Classes lists the known text literals.
func Classes() map[string]float64 {
	classMu.Lock()
	defer classMu.Unlock()
	out := make(map[string]float64, len(classes))
	for k, v := range classes {
		out[k] = v
	}
	return out
}

// TextKey is the name of a text operand in predicate keys.
func TextKey(x interface{}) string {
	switch v := x.(type) {
	case *Val:
		if v.Sym != "" {
			return v.Sym
		}
		return TextKey(v.Conc)
	case scen.L:
		return string(v)
	case scen.LN:
		return string(v)
	case string:
		return strconv.Quote(v)
	case []byte:
		return strconv.Quote(string(v))
	}
	return fmt.Sprint(x)
}

func (c *Checker) fact(k string) bool {
	v, ok := c.Env.Fact[k]
	if !ok {
		undef("fact %s", k)
	}
	return v
}

func list(r scen.R, k string) []interface{} {
	l, _ := r[k].([]interface{})
	return l
}

func truth(r scen.R, k string) bool {
	b, _ := r[k].(bool)
	return b
}

func has(r scen.R, k string) bool { return r[k] != nil }

// Violations computes the violated constraints of message m for value v.
func (c *Checker) Violations(fq string, v *Val) (out []Viol, err error) {
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(Undef)
			if !ok {
				panic(r)
			}
			err = fmt.Errorf("reference semantics undetermined: %s", u.Msg)
		}
	}()
	m := c.B.Msgs[fq]
	c.out = nil
	if v.Nil || truthy(m.Disabled) || truthy(m.Ignored) {
		return nil, nil
	}
	get := func(f *scen.Field) *Val { return v.Fields[f.Name] }
	for _, f := range m.Fields {
		c.field(f, get(f))
	}
	for _, o := range m.Oneofs {
		set := false
		for _, f := range o.Fields {
			if x := get(f); x != nil {
				set = true
				c.field(f, x)
			}
		}
		if !set && truthy(o.Required) {
			c.add(c.Name(o.Name), "required", false)
		}
	}
	return c.out, nil
}

func truthy(x interface{}) bool { b, _ := x.(bool); return b }

func (c *Checker) add(path, rule string, key bool, says ...interface{}) {
	c.out = append(c.out, Viol{Path: path, Rule: rule, Key: key, Says: says})
}

var zeroVals = map[string]interface{}{"string": "", "bytes": []byte{}, "bool": false}

func defaultVal(kind string) *Val {
	if z, ok := zeroVals[kind]; ok {
		return Conc(z)
	}
	if kind == "message" {
		return Nil()
	}
	return Conc(0)
}

func (c *Checker) field(f *scen.Field, v *Val) {
	path := c.Name(f.Name)
	if f.Repeated || f.MapKey != "" {
		if v == nil || v.Nil {
			v = &Val{Coll: true}
		}
		c.collection(f, path, v)
		return
	}
	if v == nil {
		v = defaultVal(f.Kind)
	}
	c.value(f.Kind, f.Type, path, f.Rules, v, false)
}

// RuleKinds are the scalar rule names.
var wrapperOf = map[string]string{
	".google.protobuf.DoubleValue": "double", ".google.protobuf.FloatValue": "float", ".google.protobuf.Int64Value": "int64", ".google.protobuf.UInt64Value": "uint64",
	".google.protobuf.Int32Value": "int32", ".google.protobuf.UInt32Value": "uint32", ".google.protobuf.BoolValue": "bool", ".google.protobuf.StringValue": "string", ".google.protobuf.BytesValue": "bytes",
}

func WrapperKind(t string) string { return wrapperOf[t] }

func sub(r scen.R, k string) scen.R {
	x, _ := r[k].(scen.R)
	return x
}

// value checks one value of a singular field or element.
func (c *Checker) value(kind, typ, path string, rules scen.R, v *Val, key bool) {
	if kind == "message" {
		c.message(typ, path, rules, v)
		return
	}
	if rules == nil {
		return
	}
	r := sub(rules, kind)
	if r == nil {
		return
	}
	c.scalar(kind, typ, path, r, v, key)
}

func (c *Checker) message(typ, path string, rules scen.R, v *Val) {
	mr := sub(rules, "message")
	switch typ {
	case ".google.protobuf.Duration":
		if r := sub(rules, "duration"); r != nil {
			c.time("duration", path, r, v)
		}
		return
	case ".google.protobuf.Timestamp":
		if r := sub(rules, "timestamp"); r != nil {
			c.time("timestamp", path, r, v)
		}
		return
	case ".google.protobuf.Any":
		if r := sub(rules, "any"); r != nil {
			if v.Nil {
				if truth(r, "required") {
					c.add(path, "required", false)
				}
				return
			}
			c.membership(path, r, v.Inner, false)
		}
		return
	}
	if k := wrapperOf[typ]; k != "" {
		if v.Nil {
			if truth(mr, "required") {
				c.add(path, "required", false)
			}
			return
		}
		if r := sub(rules, k); r != nil {
			c.scalar(k, "", path, r, v.Inner, false)
		}
		return
	}
	if truth(mr, "required") && v.Nil {
		c.add(path, "required", false)
	}
	if truth(mr, "skip") || v.Nil || !c.Validates(typ) {
		return
	}
	if v.IsMsg {
		d := *c
		d.out = nil
		vs, err := d.Violations(typ, v)
		if err != nil {
			panic(err)
		}
		if len(vs) > 0 {
			c.out = append(c.out, Viol{Path: path, Rule: "embedded"})
		}
		return
	}
	if c.fact("invalid:" + v.Sym) {
		c.out = append(c.out, Viol{Path: path, Rule: "embedded", Nested: v.Sym})
	}
}

func (c *Checker) membership(path string, r scen.R, v *Val, key bool) {
	if in := list(r, "in"); len(in) > 0 {
		ok := false
		for _, x := range in {
			ok = ok || c.rank(v) == c.rank(x)
		}
		if !ok {
			c.add(path, "in", key, in...)
		}
	}
	if nin := list(r, "not_in"); len(nin) > 0 {
		bad := false
		for _, x := range nin {
			bad = bad || c.rank(v) == c.rank(x)
		}
		if bad {
			c.add(path, "not_in", key, nin...)
		}
	}
}

// rng decides the range constraint: both bounds with the upper one larger
// mean the interval between them, with the upper one smaller the outside.
func (c *Checker) rng(path string, r scen.R, v float64, key bool) {
	var lo, hi *float64
	loIn, hiIn := false, false
	set := func(k string, p **float64, incl *bool, isIncl bool) {
		if has(r, k) {
			x := c.rank(r[k])
			*p = &x
			*incl = isIncl
		}
	}
	set("gt", &lo, &loIn, false)
	set("gte", &lo, &loIn, true)
	set("lt", &hi, &hiIn, false)
	set("lte", &hi, &hiIn, true)
	if lo == nil && hi == nil {
		return
	}
	above := func() bool { return lo == nil || v > *lo || loIn && v == *lo }
	below := func() bool { return hi == nil || v < *hi || hiIn && v == *hi }
	ok := above() && below()
	if lo != nil && hi != nil && *hi < *lo {
		ok = above() || below()
	}
	if !ok {
		var says []interface{}
		for _, k := range []string{"gt", "gte", "lt", "lte"} {
			if has(r, k) {
				says = append(says, r[k])
			}
		}
		c.add(path, "range", key, says...)
	}
}

func (c *Checker) scalar(kind, typ, path string, r scen.R, v *Val, key bool) {
	switch kind {
	case "string", "bytes":
		c.text(kind, path, r, v, key)
		return
	}
	if truth(r, "ignore_empty") && c.rank(v) == 0 {
		return
	}
	if has(r, "const") && c.rank(v) != c.rank(r["const"]) {
		c.add(path, "const", key, r["const"])
	}
	if kind == "bool" {
		return
	}
	if kind != "enum" {
		c.rng(path, r, c.rank(v), key)
	}
	c.membership(path, r, v, key)
	if kind == "enum" && truth(r, "defined_only") {
		ok := false
		for _, x := range c.Enums[typ].Values {
			ok = ok || c.rank(v) == float64(x.Num)
		}
		if !ok {
			c.add(path, "defined_only", key)
		}
	}
}

// The documented header formats.
const (
	HeaderName   = "^:?[0-9a-zA-Z!#$%&'*+-.^_|~\x60]+$"
	HeaderValue  = "^[^\u0000-\u0008\u000A-\u001F\u007F]*$"
	HeaderString = "^[^\u0000\u000A\u000D]*$"
)

// measure is the rank of a text measure.
func (c *Checker) measure(what string, v *Val) float64 {
	if v.Sym != "" {
		return c.rank(scen.L(what + ":" + v.Sym))
	}
	var s string
	switch x := v.Conc.(type) {
	case string:
		s = x
	case []byte:
		s = string(x)
	}
	if what == "bytes" {
		return float64(len(s))
	}
	return float64(len([]rune(s)))
}

func (c *Checker) size(path, rule string, r scen.R, exact, min, max string, n float64, key bool) {
	if has(r, exact) {
		if n != c.rank(r[exact]) {
			c.add(path, rule, key, r[exact])
		}
		return
	}
	bad := has(r, min) && n < c.rank(r[min]) || has(r, max) && n > c.rank(r[max])
	if bad {
		var says []interface{}
		for _, k := range []string{min, max} {
			if has(r, k) && c.rank(r[k]) != 0 {
				says = append(says, r[k])
			}
		}
		c.add(path, rule, key, says...)
	}
}

func (c *Checker) text(kind, path string, r scen.R, v *Val, key bool) {
	if truth(r, "ignore_empty") && c.rank(v) == 0 {
		return
	}
	if has(r, "const") && c.rank(v) != c.rank(r["const"]) {
		c.add(path, "const", key, r["const"])
	}
	c.membership(path, r, v, key)
	if kind == "string" {
		if has(r, "len") || has(r, "min_len") || has(r, "max_len") {
			c.size(path, "len", r, "len", "min_len", "max_len", c.measure("runes", v), key)
		}
		if has(r, "len_bytes") || has(r, "min_bytes") || has(r, "max_bytes") {
			c.size(path, "bytes", r, "len_bytes", "min_bytes", "max_bytes", c.measure("bytes", v), key)
		}
	} else if has(r, "len") || has(r, "min_len") || has(r, "max_len") {
		c.size(path, "len", r, "len", "min_len", "max_len", c.measure("bytes", v), key)
	}
	for _, k := range []string{"prefix", "suffix", "contains"} {
		if has(r, k) && !c.fact(k+":"+TextKey(v)+":"+TextKey(r[k])) {
			c.add(path, k, key, r[k])
		}
	}
	if has(r, "not_contains") && c.fact("contains:"+TextKey(v)+":"+TextKey(r["not_contains"])) {
		c.add(path, "not_contains", key, r["not_contains"])
	}
	if wk, ok := r["well_known_regex"].(int); ok && wk != 0 {
		strict, set := r["strict"].(bool)
		p := HeaderString
		if strict || !set {
			p = map[int]string{1: HeaderName, 2: HeaderValue}[wk]
		}
		if !c.fact("match:" + TextKey(v) + ":" + TextKey(p)) {
			c.add(path, "well_known_regex", key)
		}
	}
	if has(r, "pattern") && !c.fact("match:"+TextKey(v)+":"+TextKey(r["pattern"])) {
		c.add(path, "pattern", key, r["pattern"])
	}
	x := TextKey(v)
	switch {
	case truth(r, "ip"):
		if !c.fact("ip:" + x) {
			c.add(path, "ip", key)
		}
	case truth(r, "ipv4"):
		if !(c.fact("ip:"+x) && c.fact("v4:"+x)) {
			c.add(path, "ipv4", key)
		}
	case truth(r, "ipv6"):
		if !(c.fact("ip:"+x) && !c.fact("v4:"+x)) {
			c.add(path, "ipv6", key)
		}
	case truth(r, "uri"):
		if !(c.fact("url:"+x) && c.fact("urlabs:"+x)) {
			c.add(path, "uri", key)
		}
	case truth(r, "uri_ref"):
		if !c.fact("url:" + x) {
			c.add(path, "uri_ref", key)
		}
	}
	for _, wk := range []string{"email", "hostname", "uuid", "address"} {
		if truth(r, wk) && !c.fact(wk+":"+x) {
			c.add(path, wk, key)
		}
	}
}

func (c *Checker) time(kind, path string, r scen.R, v *Val) {
	if v.Nil {
		if truth(r, "required") {
			c.add(path, "required", false)
		}
		return
	}
	any := false
	for _, k := range []string{"const", "lt", "lte", "gt", "gte", "within"} {
		any = any || has(r, k)
	}
	any = any || truth(r, "lt_now") || truth(r, "gt_now") || len(list(r, "in")) > 0 || len(list(r, "not_in")) > 0
	if !any {
		return
	}
	ok := false
	if x, isC := v.Conc.(scen.DC); isC {
		ok = x.Valid(kind)
	} else {
		ok = c.fact("valid:" + v.Sym)
	}
	if !ok {
		c.add(path, "valid", false)
		return
	}
	x := c.rank(v)
	if has(r, "const") && x != c.rank(r["const"]) {
		c.add(path, "const", false, r["const"])
	}
	c.rng(path, r, x, false)
	c.membership(path, r, v, false)
	if truth(r, "lt_now") || truth(r, "gt_now") || has(r, "within") {
		now := c.rank(scen.L("now"))
		bad := false
		switch {
		case truth(r, "lt_now"):
			bad = x >= now || has(r, "within") && x < c.rank(scen.L("now-W"))
		case truth(r, "gt_now"):
			bad = x <= now || has(r, "within") && x > c.rank(scen.L("now+W"))
		default:
			bad = x >= c.rank(scen.L("now+W")) || x <= c.rank(scen.L("now-W"))
		}
		if bad {
			if has(r, "within") {
				c.add(path, "now", false, r["within"])
			} else {
				c.add(path, "now", false)
			}
		}
	}
}

func (c *Checker) collection(f *scen.Field, path string, v *Val) {
	isMap := f.MapKey != ""
	var r scen.R
	var n float64
	if v.Sym != "" {
		n = c.rank(scen.L("size:" + v.Sym))
	} else {
		n = float64(len(v.List))
	}
	if isMap {
		r = sub(f.Rules, "map")
	} else {
		r = sub(f.Rules, "repeated")
	}
	if truth(r, "ignore_empty") && n == 0 {
		return
	}
	if r != nil {
		if isMap {
			c.size(path, "size", r, "-", "min_pairs", "max_pairs", n, false)
		} else {
			c.size(path, "size", r, "-", "min_items", "max_items", n, false)
		}
	}
	for i, e := range v.List {
		ep := fmt.Sprintf("%s[%d]", path, i)
		if isMap {
			ep = path + "[" + c.KeyText(v.Keys[i]) + "]"
			if truth(r, "no_sparse") && e.Nil {
				c.add(ep, "no_sparse", false)
			}
			if kr := sub(r, "keys"); kr != nil {
				c.value(f.MapKey, "", ep, kr, v.Keys[i], true)
			}
			c.value(f.Kind, f.Type, ep, sub(r, "values"), e, false)
			continue
		}
		if truth(r, "unique") {
			for _, p := range v.List[:i] {
				if c.rank(p) == c.rank(e) {
					c.add(ep, "unique", false)
					break
				}
			}
		}
		c.value(f.Kind, f.Type, ep, sub(r, "items"), e, false)
	}
}
