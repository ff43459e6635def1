package cxx

import (
	"net/netip"
	"regexp"
	"strconv"
	"strings"

	"google.golang.org/protobuf/types/descriptorpb"

	"verif/analyzer/scen"
	"verif/analyzer/spec"
)

// known values of comparisons with npos and zero
const notConst = "?not"

func not(t string, ks ...string) Num { return Num{T: t, Sym: notConst, Minus: strings.Join(ks, ",")} }

// excluded reports whether n is known to differ from the constant k.
func excluded(n Num, k Num) bool {
	if n.Sym != notConst || k.Sym != "" {
		return false
	}
	for _, x := range strings.Split(n.Minus, ",") {
		if x == strconv.FormatInt(k.I, 10) {
			return true
		}
	}
	return false
}

// fields are the descriptors of a message's fields.
func (p *Prog) fields(fq string) []*descriptorpb.FieldDescriptorProto {
	var find func(pre string, ms []*descriptorpb.DescriptorProto) []*descriptorpb.FieldDescriptorProto
	find = func(pre string, ms []*descriptorpb.DescriptorProto) []*descriptorpb.FieldDescriptorProto {
		for _, m := range ms {
			n := pre + "." + m.GetName()
			if n == fq {
				return m.Field
			}
			if r := find(n, m.NestedType); r != nil {
				return r
			}
		}
		return nil
	}
	for _, f := range p.B.FDS.File {
		pre := ""
		if f.GetPackage() != "" {
			pre = "." + f.GetPackage()
		}
		if r := find(pre, f.MessageType); r != nil {
			return r
		}
	}
	return nil
}

// types of C++ numbers by proto kind
var cppType = map[string]string{
	"int32": "int", "sint32": "int", "sfixed32": "int", "uint32": "unsigned int", "fixed32": "unsigned int",
	"int64": "long", "sint64": "long", "sfixed64": "long", "uint64": "unsigned long", "fixed64": "unsigned long",
	"float": "float", "double": "double",
}

// scalar is the C++ value of a proto scalar.
func (e *Eval) scalar(kind, typ string, v *spec.Val) Value {
	switch kind {
	case "string", "bytes":
		t := Text{}
		if v != nil {
			t.Sym = v.Sym
			if v.Sym == "" {
				switch x := v.Conc.(type) {
				case string:
					t.S = x
				case []byte:
					t.S = string(x)
				}
			}
		}
		return t
	case "bool":
		if v == nil {
			return false
		}
		if v.Sym != "" {
			r, ok := e.Env.Rank[v.Sym]
			if !ok {
				e.undec("the value of %s", v.Sym)
			}
			return r != 0
		}
		b, _ := v.Conc.(bool)
		return b
	case "enum":
		n := e.scalar("int32", "", v).(Num)
		n.T = Class(e.P.B, typ)
		return n
	}
	n := Num{T: cppType[kind]}
	if v == nil {
		return n
	}
	if v.Sym != "" {
		n.Sym = v.Sym
		return n
	}
	switch x := v.Conc.(type) {
	case int:
		n.I, n.F = int64(x), float64(x)
	case int64:
		n.I, n.F = x, float64(x)
	case float64:
		n.F = x
		if x >= 9223372036854775808 {
			n.I = int64(uint64(x))
		} else {
			n.I = int64(x)
		}
	case float32:
		n.F = float64(x)
	}
	if isFloatT(n.T) {
		n.I = 0
	} else {
		n.F = 0
		n.I = wrap(n.I, n.T)
	}
	return n
}

// build is the C++ value of a proto value.
func (e *Eval) build(kind, typ string, v *spec.Val) Value {
	if kind != "message" {
		return e.scalar(kind, typ, v)
	}
	unset := v == nil || v.Nil
	switch typ {
	case ".google.protobuf.Duration", ".google.protobuf.Timestamp":
		t := Time{Dur: strings.HasSuffix(typ, "Duration")}
		switch {
		case unset:
			t.Conc = &scen.DC{}
		case v.Conc != nil:
			c := v.Conc.(scen.DC)
			t.Conc = &c
		default:
			t.Sym = v.Sym
		}
		return t
	}
	m := &Msg{Fq: typ}
	if !unset {
		m.V, m.Opaque = v, v.Sym
	}
	return m
}

// keywords protoc appends an underscore to.
var keywords = map[string]bool{}

func init() {
	for _, k := range strings.Fields("alignas alignof and and_eq asm auto bitand bitor bool break case catch char class compl const constexpr const_cast continue decltype default delete do double dynamic_cast else enum explicit export extern false float for friend goto if inline int long mutable namespace new noexcept not not_eq nullptr operator or or_eq private protected public register reinterpret_cast return short signed sizeof static static_assert static_cast struct switch template this thread_local throw true try typedef typeid typename union unsigned using virtual void volatile wchar_t while xor xor_eq NULL assert char8_t char16_t char32_t concept consteval constinit co_await co_return co_yield requires") {
		keywords[k] = true
	}
}

func accessorName(f string) string {
	n := strings.ToLower(f)
	if keywords[n] {
		n += "_"
	}
	return n
}

// accessor evaluates an accessor of a message.
func (e *Eval) accessor(m *Msg, name string, vs []Value) Value {
	unset := m.V == nil || m.V.Nil
	if w := spec.WrapperKind(m.Fq); w != "" && name == "value" {
		if unset {
			return e.scalar(w, "", nil)
		}
		return e.scalar(w, "", m.V.Inner)
	}
	if m.Fq == ".google.protobuf.Any" {
		switch name {
		case "type_url":
			if unset {
				return Text{}
			}
			return e.scalar("string", "", m.V.Inner)
		case "value":
			return Text{Free: true}
		}
	}
	d := e.P.B.Msgs[m.Fq]
	if d == nil {
		e.undec("the accessor %s of %s", name, m.Fq)
	}
	raw := func(f *scen.Field) *spec.Val {
		if unset {
			return nil
		}
		if m.V.Fields == nil && m.Opaque != "" {
			e.undec("the field %s of %s", f.Name, m.Opaque)
		}
		return m.V.Fields[f.Name]
	}
	get := func(f *scen.Field) *spec.Val {
		v := raw(f)
		if v != nil && v.Nil {
			return nil
		}
		return v
	}
	fs := append([]*scen.Field{}, d.Fields...)
	for _, o := range d.Oneofs {
		fs = append(fs, o.Fields...)
		if name == strings.ToLower(o.Name)+"_case" || name == o.Name+"_case" {
			t := Class(e.P.B, m.Fq) + "::" + camel(o.Name) + "Case"
			for _, f := range o.Fields {
				if raw(f) != nil {
					for _, fd := range e.P.fields(m.Fq) {
						if fd.GetName() == f.Name {
							return Num{T: t, I: int64(fd.GetNumber())}
						}
					}
				}
			}
			return Num{T: t}
		}
	}
	for _, f := range fs {
		n := accessorName(f.Name)
		coll := f.Repeated || f.MapKey != ""
		switch {
		case name == n && !coll:
			return e.build(f.Kind, f.Type, get(f))
		case name == "has_"+strings.ToLower(f.Name) && !coll:
			// a present member of a oneof may be empty
			for _, o := range d.Oneofs {
				for _, g := range o.Fields {
					if g == f {
						return raw(f) != nil
					}
				}
			}
			return get(f) != nil
		case name == n && coll && len(vs) == 0, name == n+"_size" && coll:
			id := collID{m.V, f.Name}
			c := e.colls[id]
			if c != nil {
				if name != n {
					return e.count(c, "int")
				}
				return c
			}
			c = &Coll{Kind: "list"}
			e.colls[id] = c
			if f.MapKey != "" {
				c.Kind = "map"
			}
			if v := get(f); v != nil {
				c.Sym = v.Sym
				for i, x := range v.List {
					el := e.build(f.Kind, f.Type, x)
					if f.MapKey != "" {
						c.E = append(c.E, e.build(f.MapKey, "", v.Keys[i]))
						c.V = append(c.V, el)
					} else {
						c.E = append(c.E, el)
					}
				}
			}
			if name != n {
				return e.count(c, "int")
			}
			return c
		case name == n && coll && len(vs) == 1:
			return e.at(e.accessor(m, name, nil).(*Coll), vs[0])
		}
	}
	e.undec("the accessor %s of %s", name, m.Fq)
	return nil
}

func (e *Eval) count(c *Coll, t string) Value {
	if c.Sym != "" {
		return Num{T: t, Sym: "size:" + c.Sym}
	}
	return Num{T: t, I: int64(len(c.E))}
}

func (e *Eval) memberCall(f *frame, n *Node) Value {
	me := n.Inner[0]
	for me.Kind == "ParenExpr" || me.Kind == "ImplicitCastExpr" {
		me = me.Inner[0]
	}
	if me.Kind != "MemberExpr" {
		e.undec("a call through a %s", me.Kind)
	}
	var self *Cell
	base := me.Inner[0]
	self = e.lval(f, base, true)
	var b Value
	if self != nil {
		b = self.V
	} else {
		b = e.expr(f, base)
	}
	if c, ok := b.(*Cell); ok && me.Arrow {
		self, b = c, c.V
	}
	vs, refs := e.args(f, n.Inner[1:])
	for len(vs) > 0 {
		o, ok := vs[len(vs)-1].(*Opaque)
		if !ok || o.T != "default" {
			break
		}
		vs, refs = vs[:len(vs)-1], refs[:len(refs)-1]
	}
	// methods of the analysed code
	if d := e.P.ids[me.Member]; d != nil {
		if d = e.resolve(d); d != nil {
			return e.invoke(d, b, vs, refs, nil)
		}
	}
	name := me.Name
	if strings.HasPrefix(name, "operator ") && len(vs) == 0 {
		// conversions
		if strings.Contains(name, "bool") {
			return e.truth(b)
		}
		return b
	}
	switch x := b.(type) {
	case nil:
		e.undec("undefined behaviour: a null pointer is followed")
	case *Msg:
		return e.accessor(x, name, vs)
	case Time:
		switch name {
		case "seconds", "nanos":
			d := x.Conc
			if d == nil {
				p, ok := e.Parts[x.Sym]
				if !ok || x.Part != "" {
					e.undec("the parts of %s", x.Sym)
				}
				d = &p
			}
			if name == "seconds" {
				return Num{T: "long", I: d.Sec}
			}
			return Num{T: "int", I: d.Nanos}
		}
	case Text:
		return e.textCall(x, self, name, vs)
	case *Coll:
		return e.collCall(f, x, name, vs)
	case *Stream:
		switch name {
		case "str":
			if len(vs) == 0 {
				return Text{S: x.S, Free: strings.Contains(x.S, "<")}
			}
			x.S, x.Pos = e.text(vs[0]).S, 0
			return nil
		case "seekp":
			if len(vs) == 2 {
				x.Pos = len(x.S)
			}
			return x
		case "put":
			e.write(x, vs[0])
			return x
		}
	case TokenIter:
		if name == "str" || name == "length" {
			break
		}
	case Num, bool, *Pair:
		if name == "get" && len(vs) == 0 {
			return b
		}
	case TypeIdx:
		if name == "hash_code" {
			return Hash{x}
		}
	}
	if name == "get" && len(vs) == 0 {
		return b
	}
	e.undec("the method %s of %T", name, b)
	return nil
}

// textCall is a method of a std::string or a string piece.
func (e *Eval) textCall(t Text, self *Cell, name string, vs []Value) Value {
	const sz = "unsigned long"
	npos := Num{T: sz, I: -1}
	switch name {
	case "size", "length":
		return e.size(t)
	case "get", "str", "as_string", "ToString":
		return t
	case "c_str", "data":
		return Chars{T: t}
	case "empty":
		return e.cmp(e.size(t).(Num), Num{T: sz}) == 0
	case "at", "operator[]":
		i := e.num(vs[0])
		if t.Sym == "" && i.Sym == "" && (uint64(i.I) >= uint64(len(t.S))) {
			panic(Thrown{"std::out_of_range"})
		}
		return e.charAt(t, e.conc(i, "an index"), false)
	case "front":
		return e.charAt(t, 0, false)
	case "back":
		return e.charAt(t, int64(len(t.S))-1, false)
	case "begin", "cbegin":
		return TextIter{T: t, End: t.Sym == "" && t.S == ""}
	case "end", "cend":
		return TextIter{T: t, At: int64(len(t.S)), End: true}
	case "rbegin", "crbegin":
		return TextIter{T: t, At: int64(len(t.S)), Rev: true}
	case "rend", "crend":
		return TextIter{T: t, Rev: true}
	case "append", "push_back":
		if self != nil && len(vs) == 1 {
			e.set(self, e.plus(t, vs[0]))
			return self.V
		}
	case "assign":
		if self != nil && len(vs) == 1 {
			e.set(self, e.text(vs[0]))
			return self.V
		}
	case "clear":
		if self != nil {
			e.set(self, Text{})
			return nil
		}
	case "swap":
	case "compare":
		return e.compare(t, vs)
	case "find", "rfind":
		from := int64(0)
		if name == "rfind" {
			from = -1
		}
		if len(vs) == 3 {
			c, ok := vs[0].(Chars)
			k := e.num(vs[2])
			if !ok || c.T.Sym != "" || k.Sym != "" || k.I > int64(len(c.T.S))-c.Off {
				e.undec("a search for part of a text")
			}
			vs = []Value{Text{S: c.T.S[c.Off : c.Off+k.I]}, vs[1]}
		}
		if len(vs) == 2 {
			if k, ok := vs[1].(Num); ok {
				from = e.conc(k, "a position")
			}
		}
		var p Text
		if c, ok := vs[0].(Num); ok {
			if c.Sym != "" {
				e.undec("a search for %s", c.Sym)
			}
			p = Text{S: string([]byte{byte(c.I)})}
		} else {
			p = e.text(vs[0])
		}
		if t.Sym == "" && !t.Free && p.Sym == "" && !p.Free {
			i := -1
			switch {
			case name == "rfind" && (from < 0 || from >= int64(len(t.S))):
				i = strings.LastIndex(t.S, p.S)
			case name == "rfind":
				for k := from; k >= 0 && i < 0; k-- {
					if strings.HasPrefix(t.S[k:], p.S) {
						i = int(k)
					}
				}
			case from >= 0 && from <= int64(len(t.S)):
				if i = strings.Index(t.S[from:], p.S); i >= 0 {
					i += int(from)
				}
			}
			return Num{T: sz, I: int64(i)}
		}
		if name == "rfind" && from == 0 {
			if e.affix("prefix", t, p) {
				return Num{T: sz}
			}
			return npos
		}
		if name == "find" && from != 0 || name == "rfind" && from != -1 {
			break
		}
		if p.S == "\x00" && p.Sym == "" && t.Sym != "" {
			if e.fact("nul:" + t.Sym) {
				return not(sz, "-1")
			}
			return npos
		}
		if !e.affix("contains", t, p) {
			return npos
		}
		if name == "find" {
			k := "prefix:" + key(t) + ":" + key(p)
			if v, ok := e.Env.Fact[k]; ok {
				if v {
					return Num{T: sz}
				}
				return not(sz, "-1", "0")
			}
		}
		return not(sz, "-1")
	case "find_first_of", "find_first_not_of", "find_last_of", "find_last_not_of":
		var set string
		if c, ok := vs[0].(Num); ok {
			if c.Sym != "" {
				e.undec("a search for %s", c.Sym)
			}
			set = string([]byte{byte(c.I)})
		} else if p := e.text(vs[0]); p.Sym == "" && !p.Free {
			set = p.S
		} else {
			break
		}
		if len(vs) == 3 {
			k := e.conc(e.num(vs[2]), "a length")
			if k < 0 || k > int64(len(set)) {
				break
			}
			set = set[:k]
		}
		if t.Sym != "" || t.Free {
			break
		}
		last := strings.HasPrefix(name, "find_last")
		want := !strings.Contains(name, "_not_")
		from := int64(0)
		if last {
			from = int64(len(t.S)) - 1
		}
		if len(vs) > 1 {
			if k := e.conc(e.num(vs[1]), "a position"); !last {
				from = k
				if k < 0 || k > int64(len(t.S)) {
					from = int64(len(t.S))
				}
			} else if k >= 0 && k < from {
				from = k
			}
		}
		for k := from; k >= 0 && k < int64(len(t.S)); {
			if strings.IndexByte(set, t.S[k]) >= 0 == want {
				return Num{T: sz, I: k}
			}
			if last {
				k--
			} else {
				k++
			}
		}
		return npos
	case "substr":
		var i, k Num
		i = Num{T: sz}
		k = npos
		if len(vs) > 0 {
			i = e.num(vs[0])
		}
		if len(vs) > 1 {
			k = e.num(vs[1])
		}
		if t.Sym == "" && !t.Free {
			a, b := e.conc(i, "a position"), e.conc(k, "a length")
			if uint64(a) > uint64(len(t.S)) {
				panic(Thrown{"std::out_of_range"})
			}
			s := t.S[a:]
			if uint64(b) < uint64(len(s)) {
				s = s[:b]
			}
			return Text{S: s}
		}
		if r, ok := e.piece(t, i, k); ok {
			return r
		}
	case "remove_prefix", "remove_suffix":
	}
	e.undec("the method %s of a text", name)
	return nil
}

// piece is the part of a symbolic text from i with k bytes.
func (e *Eval) piece(t Text, i, k Num) (Text, bool) {
	n := ""
	switch {
	case i.Sym == "" && i.I == 0 && k.Sym == "" && k.I >= 0:
		return Text{Sym: "pre:#" + strconv.FormatInt(k.I, 10) + ":" + t.Sym}, true
	case i.Sym == "" && i.I == 0 && strings.HasPrefix(k.Sym, "bytes:") && k.Minus == "":
		return Text{Sym: "pre:" + k.Sym + ":" + t.Sym}, true
	case i.Sym == "bytes:"+t.Sym && i.Minus != "":
		n = i.Minus
	default:
		return Text{}, false
	}
	// a position past the end wraps around
	short, ok := Num{T: "unsigned long"}, false
	if strings.HasPrefix(n, "#") {
		short.I, _ = strconv.ParseInt(n[1:], 10, 64)
		ok = true
	} else {
		short.Sym = n
		ok = strings.HasPrefix(n, "bytes:")
	}
	if !ok {
		return Text{}, false
	}
	if e.cmp(Num{T: "unsigned long", Sym: "bytes:" + t.Sym}, short) < 0 {
		panic(Thrown{"std::out_of_range"})
	}
	if k.Sym == "" && k.I == -1 || k == short || k.Sym == short.Sym && k.I == short.I {
		return Text{Sym: "suf:" + n + ":" + t.Sym}, true
	}
	return Text{}, false
}

// partOf says that x is the named end of a text, with as many bytes as p has.
func (e *Eval) partOf(x, p Text) (what string, whole Text, ok bool) {
	for _, k := range []string{"pre:", "suf:"} {
		if !strings.HasPrefix(x.Sym, k) {
			continue
		}
		n := "#" + strconv.Itoa(len(p.S))
		if p.Sym != "" {
			n = "bytes:" + p.Sym
		}
		if rest := x.Sym[len(k):]; strings.HasPrefix(rest, n+":") {
			w := map[string]string{"pre:": "prefix", "suf:": "suffix"}[k]
			return w, Text{Sym: rest[len(n)+1:]}, true
		}
		// an end of another length
		e.undec("a comparison of texts of unlike lengths")
	}
	return "", Text{}, false
}

// affix says whether t has p as prefix, suffix or part.
func (e *Eval) affix(what string, t, p Text) bool {
	if t.Free || p.Free {
		e.undec("the contents of a message text")
	}
	if t.Sym == "" && p.Sym == "" {
		switch what {
		case "prefix":
			return strings.HasPrefix(t.S, p.S)
		case "suffix":
			return strings.HasSuffix(t.S, p.S)
		}
		return strings.Contains(t.S, p.S)
	}
	if p.Sym == "" && p.S == "" || key(t) == key(p) {
		return true
	}
	return e.fact(what + ":" + key(t) + ":" + key(p))
}

// compare is std::string::compare.
func (e *Eval) compare(t Text, vs []Value) Value {
	differ := not("int", "0")
	switch len(vs) {
	case 1:
		p := e.text(vs[0])
		if t.Sym == "" && p.Sym == "" && !t.Free && !p.Free {
			return Num{T: "int", I: int64(strings.Compare(t.S, p.S))}
		}
		if e.equal(t, p) {
			return Num{T: "int"}
		}
		return differ
	case 3:
		i, k, p := e.num(vs[0]), e.num(vs[1]), e.text(vs[2])
		if t.Sym == "" && !t.Free && p.Sym == "" {
			s := e.textCall(t, nil, "substr", []Value{i, k}).(Text)
			return Num{T: "int", I: int64(strings.Compare(s.S, p.S))}
		}
		if t.Sym == "" && i.Sym == "" && !t.Free {
			// a constant against the whole of a symbol
			if e.conc(i, "a position") == 0 && k.Sym == "bytes:"+p.Sym {
				if e.affix("prefix", t, p) {
					return Num{T: "int"}
				}
				return differ
			}
			if i.Sym == "" {
				break
			}
		}
		if r, ok := e.piece(t, i, k); ok {
			what, whole, ok := e.partOf(r, p)
			if !ok {
				break
			}
			if e.affix(what, whole, p) {
				return Num{T: "int"}
			}
			return differ
		}
	}
	e.undec("a comparison of parts of texts")
	return nil
}

// collCall is a method of a container.
func (e *Eval) collCall(f *frame, c *Coll, name string, vs []Value) Value {
	if len(vs) > 0 {
		e.foreign(c, vs[0])
	}
	switch name {
	case "size":
		t := "unsigned long"
		if c.Kind == "list" {
			t = "int"
		}
		return e.count(c, t)
	case "get":
		return c
	case "empty":
		return e.cmp(e.num(e.count(c, "int")), Num{T: "int"}) == 0
	case "Get", "at", "operator[]":
		if c.Kind == "map" {
			for i, x := range c.E {
				if e.equal(x, vs[0]) {
					return e.mapped(c, i)
				}
			}
			panic(Thrown{"std::out_of_range"})
		}
		return e.at(c, vs[0])
	case "end", "cend":
		return Iter{c, -1}
	case "begin", "cbegin":
		if len(e.elements(c)) == 0 {
			return Iter{c, -1}
		}
		return Iter{c, 0}
	case "find", "count", "contains":
		e.elements(c)
		at := -1
		for i, x := range c.E {
			if at < 0 && e.same(f, c, x, vs[0]) {
				at = i
			}
		}
		switch name {
		case "count":
			if at >= 0 {
				return Num{T: "unsigned long", I: 1}
			}
			return Num{T: "unsigned long"}
		case "contains":
			return at >= 0
		}
		return Iter{c, at}
	case "insert", "emplace":
		if c.Kind == "set" && len(vs) == 1 {
			for i, x := range c.E {
				if e.same(f, c, x, vs[0]) {
					return &Pair{Iter{c, i}, false}
				}
			}
			e.touch(c, "adds to a shared set")
			c.E = append(c.E, vs[0])
			return &Pair{Iter{c, len(c.E) - 1}, true}
		}
	case "push_back", "emplace_back":
		if c.Kind == "list" && len(vs) == 1 {
			e.touch(c, "adds to a shared list")
			c.E = append(c.E, vs[0])
			return nil
		}
	case "clear":
		if (c.Kind == "list" || c.Kind == "set" || c.Kind == "map") && c.Sym == "" {
			e.touch(c, "clears a shared %s", c.Kind)
			c.E, c.V, c.Vals = nil, nil, nil
			return nil
		}
	case "reserve":
		return nil
	}
	e.undec("the method %s of a container", name)
	return nil
}

// same says whether a set holds two values to be the same element.
func (e *Eval) same(f *frame, c *Coll, a, b Value) bool {
	hash, eq := e.policy(f, c)
	if hash != nil {
		x := e.apply(hash, []Value{a}, nil)
		y := e.apply(hash, []Value{b}, nil)
		if !e.equal(x, y) {
			return false
		}
	}
	if eq != nil {
		return e.truth(e.apply(eq, []Value{a, b}, nil))
	}
	return e.equal(a, b)
}

// policy are the hash and the equality of a set.
func (e *Eval) policy(f *frame, c *Coll) (hash, eq Value) {
	i := strings.Index(c.T, "<")
	if c.Kind != "set" || i < 0 {
		return nil, nil
	}
	args := split(c.T[i+1 : strings.LastIndex(c.T, ">")])
	obj := func(t string) Value {
		t = strings.TrimSpace(t)
		if strings.HasPrefix(t, "std::hash<") || strings.HasPrefix(t, "std::equal_to<") || strings.HasPrefix(t, "std::less<") || strings.HasPrefix(t, "std::allocator<") {
			return nil
		}
		for g := f; g != nil; g = g.up {
			if r := g.recs[t]; r != nil {
				return e.object(f, r)
			}
		}
		if r := e.P.recs[t[strings.LastIndex(t, ":")+1:]]; r != nil {
			return e.object(f, r)
		}
		e.undec("the policy %s of a set", t)
		return nil
	}
	if strings.HasPrefix(c.T, "std::unordered_set<") {
		if len(args) > 1 {
			hash = obj(args[1])
		}
		if len(args) > 2 {
			eq = obj(args[2])
		}
		return
	}
	if len(args) > 1 {
		if o := obj(args[1]); o != nil {
			// an order: neither is less than the other
			return nil, &order{o}
		}
	}
	return nil, nil
}

// order is the equality an order induces.
type order struct{ less Value }

// split separates template arguments.
func split(s string) []string {
	var out []string
	d, from := 0, 0
	for i, c := range s {
		switch c {
		case '<', '(':
			d++
		case '>', ')':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[from:i]))
				from = i + 1
			}
		}
	}
	return append(out, strings.TrimSpace(s[from:]))
}

// object is a default-constructed instance of a record.
func (e *Eval) object(f *frame, r *Node) *Obj {
	o := &Obj{Cls: r, F: map[string]*Cell{}, Up: f}
	for _, c := range r.Inner {
		if c.Kind == "FieldDecl" {
			cell := &Cell{}
			o.F[c.Name] = cell
			if len(c.Inner) > 0 && c.HasInit {
				cell.V = e.expr(f, c.Inner[0])
			} else {
				cell.V = e.blank(bare(c.T()))
			}
		}
	}
	return o
}

// blank is the default value of a type.
func (e *Eval) blank(t string) Value {
	switch {
	case isArith(t):
		return Num{T: t, Sym: "?"}
	case strings.HasPrefix(t, "std::basic_string<") || strings.HasPrefix(t, "std::string"):
		return Text{}
	case strings.HasPrefix(t, "std::function<"):
		return nil
	}
	if c := container(t); c != nil {
		return c
	}
	return &Opaque{t}
}

func container(t string) *Coll {
	switch {
	case strings.HasPrefix(t, "std::set<") || strings.HasPrefix(t, "std::unordered_set<"):
		return &Coll{Kind: "set", T: t}
	case strings.HasPrefix(t, "std::map<") || strings.HasPrefix(t, "std::unordered_map<"):
		return &Coll{Kind: "map", T: t, Vals: []*Cell{}}
	case strings.HasPrefix(t, "std::vector<"):
		return &Coll{Kind: "list", T: t}
	}
	return nil
}

// construct evaluates a constructor call.
func (e *Eval) construct(f *frame, n *Node, cell *Cell) Value {
	for n.Kind == "ExprWithCleanups" {
		n = n.Inner[0]
	}
	t := bare(n.T())
	vs, _ := e.args(f, n.Inner)
	for len(vs) > 0 {
		o, ok := vs[len(vs)-1].(*Opaque)
		if !ok || o.T != "default" && !strings.HasPrefix(o.T, "std::allocator<") {
			break
		}
		vs = vs[:len(vs)-1]
	}
	for _, l := range []string{"std::lock_guard<", "std::unique_lock<", "std::scoped_lock<"} {
		if strings.HasPrefix(t, l) && len(vs) == 1 {
			// held until the function returns
			e.locks++
			return &Opaque{t}
		}
	}
	// copies
	if len(vs) == 1 {
		switch x := vs[0].(type) {
		case *Msg, Time, TypeIdx, Iter, TextIter, TokenIter, Hash:
			return x
		case Fn, *Lam:
			if len(e.P.ctorsOf[classBase(t)]) == 0 {
				return x
			}
		case *Pair:
			c := *x
			return &c
		case Regex:
			if strings.Contains(t, "basic_regex<") || t == "re2::RE2" {
				return x
			}
		case *Obj:
			c := &Obj{Cls: x.Cls, F: map[string]*Cell{}, Up: x.Up}
			for k, v := range x.F {
				c.F[k] = &Cell{v.V}
			}
			return c
		}
	}
	switch {
	case strings.HasPrefix(t, "std::basic_string<"), strings.HasPrefix(t, "std::basic_string_view<"), t == "re2::StringPiece", strings.HasSuffix(t, "StringPiece"), strings.HasSuffix(t, "string_view"):
		switch len(vs) {
		case 0:
			return Text{}
		case 1:
			return e.text(vs[0])
		case 2:
			switch x := vs[0].(type) {
			case Chars:
				k := e.num(vs[1])
				if x.T.Sym != "" {
					if x.Off == 0 && k.Sym == "bytes:"+x.T.Sym && k.Minus == "" {
						return x.T
					}
					e.undec("part of %s", x.T.Sym)
				}
				s := x.T.S + "\x00"
				if k.Sym != "" || x.Off < 0 || k.I < 0 || x.Off+k.I > int64(len(s)) {
					e.undec("undefined behaviour: a text beyond its end")
				}
				return Text{S: s[x.Off : x.Off+k.I], Free: x.T.Free}
			case TextIter:
				y, ok := vs[1].(TextIter)
				if ok && x.T == y.T {
					if x.At == 0 && y.End {
						return x.T
					}
					if x.T.Sym == "" && x.At <= y.At && y.At <= int64(len(x.T.S)) {
						return Text{S: x.T.S[x.At:y.At]}
					}
				}
			case Num:
				if c, ok := vs[1].(Num); ok && x.Sym == "" && c.Sym == "" {
					return Text{S: strings.Repeat(string([]byte{byte(c.I)}), int(x.I))}
				}
			case Text:
				return e.textCall(x, nil, "substr", vs[1:])
			}
		case 3:
			if x, ok := vs[0].(Text); ok {
				return e.textCall(x, nil, "substr", vs[1:])
			}
		}
		e.undec("the construction of a text")
	case t == "re2::RE2", strings.HasPrefix(t, "std::basic_regex<"):
		return Regex{e.text(vs[0])}
	case strings.HasPrefix(t, "std::basic_ostringstream<"), strings.HasPrefix(t, "std::basic_stringstream<"):
		s := &Stream{}
		if len(vs) > 0 {
			if o, ok := vs[0].(*Opaque); ok && len(vs) == 1 && o != nil {
				return s
			}
			s.S = e.text(vs[0]).S
			if len(vs) > 1 {
				// opened at its end
				s.Pos = len(s.S)
			}
		}
		return s
	case strings.HasPrefix(t, "std::regex_token_iterator<"):
		if len(vs) == 0 {
			return TokenIter{}
		}
		return e.tokens(vs)
	case strings.HasPrefix(t, "std::reference_wrapper<"), strings.HasPrefix(t, "std::function<"), strings.HasPrefix(t, "std::pair<"):
		if len(vs) == 0 {
			return nil
		}
		if len(vs) == 2 && strings.HasPrefix(t, "std::pair<") {
			return &Pair{vs[0], vs[1]}
		}
		return vs[0]
	case t == "std::type_index":
		return vs[0]
	case t == "google::protobuf::Duration", t == "google::protobuf::Timestamp":
		if len(vs) == 0 {
			return Time{Dur: strings.HasSuffix(t, "Duration"), Conc: &scen.DC{}}
		}
		return vs[0]
	}
	if c := container(t); c != nil {
		switch len(vs) {
		case 0:
			return c
		case 2:
			if _, ok := vs[1].(*Opaque); ok {
				vs = vs[:1]
				break
			}
			x, ok1 := vs[0].(Iter)
			y, ok2 := vs[1].(Iter)
			if ok1 && ok2 && x.C == y.C && y.At < 0 && x.At <= 0 {
				vs = []Value{x.C}
			}
		}
		src, ok := vs[0].(*Coll)
		if !ok || len(vs) != 1 {
			e.undec("the construction of a container")
		}
		if c.Kind == "map" {
			for _, x := range src.E {
				p, ok := x.(*Pair)
				if !ok {
					e.undec("the construction of a map")
				}
				c.E, c.Vals = append(c.E, p.A), append(c.Vals, &Cell{p.B})
			}
			return c
		}
		// equal elements are found at the first
		c.E = append([]Value{}, src.E...)
		if src.Kind == "map" && src.Vals != nil {
			e.undec("the copy of a map")
		}
		return c
	}
	if strings.HasPrefix(t, "std::hash<") || strings.HasPrefix(t, "std::equal_to<") || strings.HasPrefix(t, "std::allocator<") {
		return &Opaque{t}
	}
	// classes of the analysed code
	name := classBase(t)
	ct := ""
	if n.Ctor != nil {
		ct = n.Ctor.Desug
		if ct == "" {
			ct = n.Ctor.Qual
		}
	}
	if d := e.P.ctor(name, t, ct); d != nil {
		o := &Obj{F: map[string]*Cell{}, Cls: e.P.ctorRec[d]}
		e.runCtor(o, d, vs)
		return o
	}
	for g := f; g != nil; g = g.up {
		if r := g.recs[name]; r != nil && len(vs) == 0 {
			return e.object(f, r)
		}
	}
	if r := e.P.recs[name]; r != nil && len(vs) == 0 {
		return e.object(f, r)
	}
	if fq, ok := e.P.Classes[t]; ok && len(vs) == 0 {
		return &Msg{Fq: fq}
	}
	if len(vs) == 0 || strings.HasPrefix(t, "std::") || strings.HasSuffix(t, "Exception") {
		return &Opaque{t}
	}
	e.undec("the construction of a %s", t)
	return nil
}

// classBase is the name of a class without its namespaces and arguments.
func classBase(t string) string {
	if i := strings.Index(t, "<"); i >= 0 {
		t = t[:i]
	}
	return t[strings.LastIndex(t, ":")+1:]
}

// ctor finds a constructor with a body.
func (p *Prog) ctor(name, t, ct string) *Node {
	for _, d := range p.ctorsOf[name] {
		if d.T() == ct || d.Type != nil && d.Type.Qual == ct {
			r := p.ctorRec[d]
			if r.Kind != "ClassTemplateSpecializationDecl" || specialised(r, t) {
				return d
			}
		}
	}
	// the spelling of the parameters differs
	var one *Node
	for _, d := range p.ctorsOf[name] {
		r := p.ctorRec[d]
		if r.Kind == "ClassTemplateSpecializationDecl" && specialised(r, t) {
			if one != nil {
				return nil
			}
			one = d
		}
	}
	return one
}

// specialised says whether t names the specialisation r.
func specialised(r *Node, t string) bool {
	var args []string
	for _, c := range r.Inner {
		if c.Kind == "TemplateArgument" {
			args = append(args, bare(c.T()))
		}
	}
	i := strings.Index(t, "<")
	if i < 0 {
		return false
	}
	got := split(t[i+1 : strings.LastIndex(t, ">")])
	if len(got) != len(args) {
		return false
	}
	for k := range got {
		if bare(got[k]) != args[k] {
			return false
		}
	}
	return true
}

// runCtor runs a constructor's initialisers and body.
func (e *Eval) runCtor(o *Obj, d *Node, vs []Value) {
	f := &frame{vars: map[string]*Cell{}, this: o}
	i := 0
	for _, c := range d.Inner {
		if c.Kind == "ParmVarDecl" {
			cell := &Cell{}
			if i < len(vs) {
				cell.V = vs[i]
			} else if len(c.Inner) > 0 {
				cell.V = e.expr(f, c.Inner[0])
			}
			f.vars[c.ID] = cell
			i++
		}
	}
	for _, c := range d.Inner {
		if c.Kind == "CXXCtorInitializer" && c.AnyInit != nil && len(c.Inner) == 1 {
			o.F[c.AnyInit.Name] = &Cell{e.expr(f, c.Inner[0])}
		}
	}
	if b := body(d); b != nil {
		e.stmt(f, b)
	}
}

// span is a range of characters.
func span(vs []Value) (a, b TextIter, s string, ok bool) {
	a, ok1 := vs[0].(TextIter)
	b, ok2 := vs[1].(TextIter)
	if !ok1 || !ok2 {
		return
	}
	s, ok = between(a, b)
	return
}

// tokens are the pieces of a text between the matches of a pattern.
func (e *Eval) tokens(vs []Value) Value {
	a, ok1 := vs[0].(TextIter)
	b, ok2 := vs[1].(TextIter)
	re, ok3 := vs[2].(Regex)
	if !ok1 || !ok2 || !ok3 || a.At != 0 || !b.End || a.T != b.T || len(vs) < 4 {
		e.undec("the pieces of a text")
	}
	if k := e.num(vs[3]); k.Sym != "" || k.I != -1 {
		e.undec("the matches of a pattern")
	}
	if a.T.Sym != "" || a.T.Free {
		e.undec("the pieces of %s", a.T.Sym)
	}
	r, err := regexp.Compile(re.P.S)
	if err != nil || re.P.Sym != "" {
		e.undec("the pattern %q", re.P.S)
	}
	s := a.T.S
	ms := r.FindAllStringIndex(s, -1)
	if len(ms) == 0 {
		// one piece even where the text is empty
		return TokenIter{Parts: []string{s}}
	}
	var parts []string
	at := 0
	for _, m := range ms {
		if m[0] == m[1] {
			e.undec("an empty match")
		}
		parts = append(parts, s[at:m[0]])
		at = m[1]
	}
	// there is no empty piece at the end
	if at < len(s) {
		parts = append(parts, s[at:])
	}
	return TokenIter{Parts: parts}
}

// native is a function of a library.
func (e *Eval) native(name, typ string, vs []Value, refs []*Cell) Value {
	for len(vs) > 0 {
		o, ok := vs[len(vs)-1].(*Opaque)
		if !ok || o.T != "default" {
			break
		}
		vs = vs[:len(vs)-1]
	}
	switch name {
	case "inet_pton":
		fam := e.conc(vs[0], "an address family")
		c, ok := vs[1].(Chars)
		if !ok {
			e.undec("an address given by %T", vs[1])
		}
		yes := false
		if c.T.Sym != "" {
			if c.Off != 0 {
				e.undec("part of an address")
			}
			if n, ok := e.Env.Fact["nul:"+c.T.Sym]; ok && n {
				// what precedes the NUL may be an address
				yes = e.fact("nulip:" + c.T.Sym)
			} else {
				yes = e.fact("ip:"+c.T.Sym) && e.fact("v4:"+c.T.Sym) == (fam == 2)
			}
		} else {
			a, err := netip.ParseAddr(e.text(c).S)
			yes = err == nil && a.Zone() == "" && a.Is4() == (fam == 2)
		}
		switch {
		case fam != 2 && fam != 10:
			return Num{T: "int", I: -1}
		case yes:
			return Num{T: "int", I: 1}
		}
		return Num{T: "int"}
	case "FullMatch", "FullMatchN", "PartialMatch", "regex_match":
		if len(vs) == 2 {
			re, ok := vs[1].(Regex)
			if !ok {
				re = Regex{e.text(vs[1])}
			}
			return e.match(e.text(vs[0]), re, name == "PartialMatch")
		}
	case "SecondsToDuration", "NanosecondsToDuration", "MillisecondsToDuration", "MicrosecondsToDuration":
		n := e.num(vs[0])
		unit := map[string]int64{"N": 1, "Mi": 1e6, "S": 1e9}
		u := unit[name[:1]]
		if name[:2] == "Mi" {
			u = 1e6
			if strings.HasPrefix(name, "Micro") {
				u = 1e3
			}
		}
		if n.Sym == "" {
			var d scen.DC
			if u == 1e9 {
				d.Sec = n.I
			} else {
				d = scen.DC{Sec: n.I / (1e9 / u), Nanos: n.I % (1e9 / u) * u}
			}
			return Time{Dur: true, Conc: &d}
		}
		switch {
		case u == 1e9 && strings.HasPrefix(n.Sym, "sec:"):
			return Time{Dur: true, Sym: n.Sym[4:], Part: "seconds"}
		case u == 1 && strings.HasPrefix(n.Sym, "nanos:"):
			return Time{Dur: true, Sym: n.Sym[6:], Part: "nanoseconds"}
		}
	case "UTF8FirstLetterNumBytes":
		c, ok := vs[0].(Chars)
		if !ok || c.T.Sym != "" || c.T.Free {
			e.undec("the letters of a text")
		}
		k := e.conc(vs[1], "a length")
		if k <= 0 {
			return Num{T: "int"}
		}
		if c.Off < 0 || c.Off+k > int64(len(c.T.S)) {
			e.undec("undefined behaviour: a text beyond its end")
		}
		r := []rune(c.T.S[c.Off : c.Off+k])
		return Num{T: "int", I: int64(len(string(r[:1])))}
	case "operator==", "operator!=":
		if len(vs) == 2 {
			return e.equal(vs[0], vs[1]) == (name == "operator==")
		}
	case "move", "forward", "ref", "cref", "as_const":
		if len(vs) == 1 {
			return vs[0]
		}
	case "find":
		if len(vs) == 3 {
			it, ok := vs[0].(Iter)
			if ok {
				for i, x := range e.elements(it.C) {
					if i >= it.At && it.At >= 0 && e.equal(x, vs[2]) {
						return Iter{it.C, i}
					}
				}
				return Iter{it.C, -1}
			}
			if a, b, s, ok := span(vs); ok {
				if i := strings.IndexByte(s, byte(e.conc(vs[2], "a character"))); i >= 0 {
					return a.move(int64(i))
				}
				return b
			}
		}
	case "count":
		if len(vs) == 3 {
			if _, _, s, ok := span(vs); ok {
				return Num{T: "long", I: int64(strings.Count(s, string([]byte{byte(e.conc(vs[2], "a character"))})))}
			}
		}
	case "search":
		if len(vs) == 4 {
			a, b, s, ok1 := span(vs)
			_, _, p, ok2 := span(vs[2:])
			if ok1 && ok2 {
				if i := strings.Index(s, p); i >= 0 {
					return a.move(int64(i))
				}
				return b
			}
		}
	case "distance":
		if len(vs) == 2 {
			if _, _, s, ok := span(vs); ok {
				return Num{T: "long", I: int64(len(s))}
			}
		}
	case "next", "prev":
		if x, ok := vs[0].(TextIter); ok {
			d := int64(1)
			if len(vs) == 2 {
				d = e.conc(vs[1], "a distance")
			}
			if name == "prev" {
				d = -d
			}
			return x.move(d)
		}
	case "any_of", "all_of", "none_of", "find_if", "count_if", "for_each":
		if len(vs) == 3 {
			it, ok := vs[0].(Iter)
			var els []Value
			if ok {
				if it.At >= 0 {
					els = e.elements(it.C)[it.At:]
				}
			} else if _, _, s, ok2 := span(vs); ok2 {
				els, ok = e.elements(Text{S: s}), true
			}
			if !ok {
				break
			}
			n := int64(0)
			for i, x := range els {
				r := e.apply(vs[2], []Value{x}, []*Cell{nil})
				if name == "for_each" {
					continue
				}
				b := e.truth(r)
				switch {
				case name == "any_of" && b:
					return true
				case name == "all_of" && !b:
					return false
				case name == "none_of" && b:
					return false
				case name == "find_if" && b && it.C != nil:
					return Iter{it.C, it.At + i}
				case name == "find_if" && b:
					return vs[0].(TextIter).move(int64(i))
				case b:
					n++
				}
			}
			switch name {
			case "any_of":
				return false
			case "all_of", "none_of":
				return true
			case "count_if":
				return Num{T: "long", I: n}
			case "find_if":
				if it.C != nil {
					return Iter{it.C, -1}
				}
				return vs[1]
			case "for_each":
				return vs[2]
			}
		}
	case "min", "max":
		if len(vs) == 2 {
			if e.less(vs[0], vs[1]) == (name == "min") {
				return vs[0]
			}
			return vs[1]
		}
	case "equal":
		if len(vs) == 3 || len(vs) == 4 {
			_, _, s, ok1 := span(vs)
			c, ok2 := vs[2].(TextIter)
			var to TextIter
			ok3 := true
			if len(vs) == 4 {
				to, ok3 = vs[3].(TextIter)
			} else {
				to = c.end()
			}
			if ok1 && ok2 && ok3 {
				if p, ok := between(c, to); ok {
					if len(vs) == 3 && len(p) >= len(s) {
						p = p[:len(s)]
					} else if len(vs) == 3 && strings.HasPrefix(s, p) {
						e.undec("undefined behaviour: characters beyond the end of a text")
					}
					return s == p
				}
			}
		}
		if len(vs) == 3 {
			a, ok1 := vs[0].(TextIter)
			b, ok2 := vs[1].(TextIter)
			c, ok3 := vs[2].(TextIter)
			if ok1 && ok2 && ok3 && a.At == 0 && b.End && a.T == b.T && c.At == 0 && a.T.Sym == "" && c.T.Sym != "" {
				// the caller has compared the lengths
				return e.affix("prefix", c.T, a.T)
			}
		}
	case "isalnum", "isalpha", "isdigit", "isupper", "islower":
		c := e.conc(vs[0], "a character")
		up, lo, di := c >= 'A' && c <= 'Z', c >= 'a' && c <= 'z', c >= '0' && c <= '9'
		r := Num{T: "int"}
		if up && (name == "isalnum" || name == "isalpha" || name == "isupper") || lo && (name == "isalnum" || name == "isalpha" || name == "islower") || di && (name == "isalnum" || name == "isdigit") {
			r.I = 1
		}
		return r
	case "to_string":
		return Text{Free: true, S: "<number>"}
	}
	if strings.HasSuffix(name, "_IsValid") && len(vs) == 1 {
		n := e.num(vs[0])
		for t, en := range e.P.Enum {
			if t+"_IsValid" == name || strings.HasSuffix(t, "::"+strings.TrimSuffix(name, "_IsValid")) {
				for _, v := range en.Values {
					if e.cmp(n, Num{T: "int", I: int64(v.Num)}) == 0 {
						return true
					}
				}
				return false
			}
		}
	}
	e.undec("the function %s", name)
	return nil
}

// match decides whether a text matches a pattern.
func (e *Eval) match(t Text, re Regex, part bool) Value {
	if re.P.Sym != "" || re.P.Free {
		e.undec("a pattern given by %s", re.P.Sym)
	}
	if t.Free {
		e.undec("the contents of a message text")
	}
	if t.Sym != "" {
		k := "match:" + t.Sym + ":" + strconv.Quote(re.P.S)
		if v, ok := e.Env.Fact[k]; ok {
			return v
		}
		if p := e.P.pattern(re.P.S, part); p != "" {
			return e.fact(p + ":" + t.Sym)
		}
		return e.fact(k)
	}
	p := re.P.S
	if !part {
		p = `\A(?:` + p + `)\z`
	}
	r, err := regexp.Compile(p)
	if err != nil {
		e.undec("the pattern %q", re.P.S)
	}
	return r.MatchString(t.S)
}

// pattern names the predicate a pattern decides.
func (p *Prog) pattern(pat string, part bool) string {
	full := pat
	if !part {
		full = `\A(?:` + pat + `)\z`
	}
	r, err := regexp.Compile(full)
	if err != nil {
		return ""
	}
	for k, f := range p.Preds {
		same := true
		for _, s := range p.Probes {
			same = same && f(s) == r.MatchString(s)
		}
		if same {
			return k
		}
	}
	return ""
}
