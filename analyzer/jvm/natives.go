package jvm

import (
	"math"
	"strconv"
	"strings"
	"unicode/utf16"

	"verif/analyzer/scen"
	"verif/analyzer/spec"
)

// The library functions the emitted code and the runtime use, as their
// documentation defines them.

func jint(i int64) Num  { return Num{T: "int", I: i} }
func jlong(i int64) Num { return Num{T: "long", I: i} }

func sign(x int) Num { return jint(int64(x)) }

func (e *Eval) npe(what string) { e.throw("java.lang.NullPointerException", what) }

func (e *Eval) fact(k string) bool {
	v, ok := e.Env.Fact[k]
	if !ok {
		e.undec("whether %s", k)
	}
	return v
}

// textKey names a text in facts.
func textKey(s, sym string) string {
	if sym != "" {
		return sym
	}
	return strconv.Quote(s)
}

// content is the text or bytes of v.
func (e *Eval) content(v Value) (s, sym string) {
	switch x := v.(type) {
	case Text:
		if x.Free {
			e.undec("the contents of a message text")
		}
		return x.S, x.Sym
	case Bytes:
		return x.S, x.Sym
	case *Arr:
		if x.Of != nil {
			return x.Of.S, x.Of.Sym
		}
		var b []byte
		for _, c := range x.E {
			b = append(b, byte(e.conc(c, "a byte")))
		}
		return string(b), ""
	case nil:
		e.npe("text")
	}
	e.undec("the text of %T", v)
	return
}

// relation decides prefix, suffix and contains.
func (e *Eval) relation(what string, a, b Value) bool {
	s, sx := e.content(a)
	t, tx := e.content(b)
	if sx == "" && tx == "" {
		switch what {
		case "prefix":
			return strings.HasPrefix(s, t)
		case "suffix":
			return strings.HasSuffix(s, t)
		}
		return strings.Contains(s, t)
	}
	return e.fact(what + ":" + textKey(s, sx) + ":" + textKey(t, tx))
}

func (e *Eval) regex(text, pattern Value) bool {
	s, sx := e.content(text)
	p, px := e.content(pattern)
	return e.fact("match:" + textKey(s, sx) + ":" + textKey(p, px))
}

// utf16Len is the number of chars of a text.
func (e *Eval) utf16Len(x Text) Value {
	if x.Free {
		e.undec("the length of a message text")
	}
	if x.Sym == "" {
		return jint(int64(len(utf16.Encode([]rune(x.S)))))
	}
	r, ok1 := e.Env.Rank["runes:"+x.Sym]
	b, ok2 := e.Env.Rank["bytes:"+x.Sym]
	if k, ok := e.Env.Rank[x.Sym]; ok && k == 0 {
		return jint(0)
	}
	if !ok1 || !ok2 {
		return jint(5)
	}
	// a feasible length: as many characters outside the BMP as the bytes allow
	return jint(int64(r + math.Floor((b-r)/3)))
}

func (e *Eval) iterate(v Value) []Value {
	switch x := v.(type) {
	case nil:
		e.npe("iteration")
	case *Arr:
		if x.Of != nil {
			return []Value{Num{T: "char", Sym: "char:" + x.Of.Sym}}
		}
		return x.E
	case *Coll:
		if x.Sym != "" {
			if r, ok := e.Env.Rank["size:"+x.Sym]; ok && r == 0 {
				return nil
			}
			return []Value{&Obj{Cls: "", Opaque: "an element of " + x.Sym}}
		}
		return x.E
	case *Obj:
		if m, c := e.find(x.Cls, "iterator()"); m != nil && m.C[0] != nil {
			return e.iterate(e.invoke(c, m, x, nil))
		}
	}
	e.undec("iteration over %T", v)
	return nil
}

func (e *Eval) size(c *Coll) Value {
	if c.Sym != "" {
		return e.measure("size", c.Sym, "int")
	}
	return jint(int64(len(c.E)))
}

func (e *Eval) newNative(name string, args []Value) Value {
	switch name {
	case "java.util.HashSet", "java.util.LinkedHashSet", "java.util.TreeSet":
		c := &Coll{Kind: "set"}
		if len(args) == 1 {
			if _, ok := args[0].(Num); !ok {
				e.addAll(c, args[0])
			}
		}
		return c
	case "java.util.ArrayList", "java.util.LinkedList", "java.util.ArrayDeque":
		c := &Coll{Kind: "list"}
		if len(args) == 1 {
			if _, ok := args[0].(Num); !ok {
				e.addAll(c, args[0])
			}
		}
		return c
	case "java.util.HashMap", "java.util.LinkedHashMap", "java.util.concurrent.ConcurrentHashMap", "java.util.TreeMap", "java.util.IdentityHashMap":
		return &Coll{Kind: "map", Safe: strings.HasPrefix(name, "java.util.concurrent.")}
	case "java.lang.StringBuilder", "java.lang.StringBuffer":
		o := &Obj{Cls: name, F: map[string]Value{"$": Text{}}}
		if len(args) == 1 {
			if t, ok := args[0].(Text); ok {
				o.F["$"] = t
			}
		}
		return o
	case "java.lang.String":
		if len(args) == 0 {
			return Text{}
		}
		if t, ok := args[0].(Text); ok {
			return t
		}
		if a, ok := args[0].(*Arr); ok && a.Of == nil {
			return Text{S: charsOf(e, a)}
		}
	case "java.lang.Object", "java.lang.ThreadLocal":
		return &Obj{Cls: name, F: map[string]Value{}}
	case "java.net.URI":
		s, sx := e.content(args[0])
		if !e.fact("url:" + textKey(s, sx)) {
			e.throw("java.net.URISyntaxException", "")
		}
		return &Obj{Cls: name, F: map[string]Value{"$": args[0]}}
	case "java.util.concurrent.atomic.AtomicBoolean", "java.util.concurrent.atomic.AtomicInteger", "java.util.concurrent.atomic.AtomicReference", "java.util.concurrent.atomic.AtomicLong":
		var v Value
		switch {
		case len(args) == 1:
			v = args[0]
		case strings.HasSuffix(name, "Boolean"):
			v = false
		case strings.HasSuffix(name, "Integer"):
			v = jint(0)
		case strings.HasSuffix(name, "Long"):
			v = jlong(0)
		}
		return &Obj{Cls: name, F: map[string]Value{"$": v}}
	}
	if _, ok := jdkSuper[name]; ok {
		o := &Obj{Cls: name, F: map[string]Value{}}
		for _, a := range args {
			if _, ok := a.(Text); ok {
				o.F["$msg"] = a
			} else if x, ok := a.(*Obj); ok {
				o.F["$cause"] = x
			}
		}
		return o
	}
	e.undec("new %s", name)
	return nil
}

func charsOf(e *Eval, a *Arr) string {
	var u []uint16
	for _, c := range a.E {
		u = append(u, uint16(e.conc(c, "a char")))
	}
	return string(utf16.Decode(u))
}

func (e *Eval) addAll(c *Coll, from Value) bool {
	changed := false
	for _, v := range e.iterate(from) {
		changed = e.add(c, v) || changed
	}
	return changed
}

func (e *Eval) add(c *Coll, v Value) bool {
	if c.Sym != "" {
		e.undec("a change of %s", c.Sym)
	}
	if c.Kind == "set" && e.indexIn(c, v) >= 0 {
		return false
	}
	e.touch(c, "adds to a shared %s", c.Kind)
	c.E = append(c.E, v)
	return true
}

func (e *Eval) nativeStaticField(owner, name string) Value {
	switch owner {
	case "java.nio.charset.StandardCharsets":
		return &Obj{Cls: "java.nio.charset.Charset", Opaque: name}
	case "java.lang.Integer":
		switch name {
		case "MAX_VALUE":
			return jint(math.MaxInt32)
		case "MIN_VALUE":
			return jint(math.MinInt32)
		}
	case "java.lang.Long":
		switch name {
		case "MAX_VALUE":
			return jlong(math.MaxInt64)
		case "MIN_VALUE":
			return jlong(math.MinInt64)
		}
	case "java.lang.Boolean":
		return name == "TRUE"
	case "com.google.protobuf.ByteString":
		return Bytes{}
	}
	if en := e.P.St.enumOf(owner); en != nil {
		for _, v := range en.Values {
			if v.Name == name {
				return e.P.St.enumConst(owner, v.Num)
			}
		}
	}
	e.undec("the field %s.%s", owner, name)
	return nil
}

func (s *Stubs) enumOf(cls string) *scen.Enum {
	if s == nil {
		return nil
	}
	return s.Enums[s.Proto[cls]]
}

// enumConst is the constant of number n.
func (s *Stubs) enumConst(cls string, n int32) Value {
	for _, v := range s.enumOf(cls).Values {
		if v.Num == n {
			return EnumV{T: cls, Name: v.Name, Num: jint(int64(n))}
		}
	}
	return nil
}

func (e *Eval) classOf(v Value) string {
	switch x := v.(type) {
	case *Obj:
		return x.Cls
	case Text:
		return "java.lang.String"
	case bool:
		return "java.lang.Boolean"
	case Bytes:
		return "com.google.protobuf.ByteString"
	case Time:
		if x.Dur {
			return "com.google.protobuf.Duration"
		}
		return "com.google.protobuf.Timestamp"
	case EnumV:
		return x.T
	case Class:
		return "java.lang.Class"
	case Num:
		return map[string]string{"int": "java.lang.Integer", "long": "java.lang.Long", "float": "java.lang.Float", "double": "java.lang.Double", "char": "java.lang.Character", "short": "java.lang.Short", "byte": "java.lang.Byte"}[x.T]
	}
	return ""
}

func (e *Eval) num(v Value) Num {
	n, ok := v.(Num)
	if !ok {
		if v == nil {
			e.npe("number")
		}
		e.undec("a number from %T", v)
	}
	return n
}

// unsigned is the position of a number in the unsigned order.
func (e *Eval) unsigned(n Num) float64 {
	r := e.rank(n)
	if r < 0 {
		if n.T == "int" {
			r += 4294967296
		} else {
			r += 18446744073709551616
		}
	}
	return r
}

func cmpF(a, b float64) Num {
	switch {
	case a < b:
		return jint(-1)
	case a > b:
		return jint(1)
	}
	return jint(0)
}

func (e *Eval) natural(a, b Value) Value {
	switch x := a.(type) {
	case nil:
		e.npe("compare")
	case Num:
		return sign(e.cmp(x, e.num(b)))
	case bool:
		y, ok := b.(bool)
		if !ok {
			e.npe("compare")
		}
		p, q := 0.0, 0.0
		if x {
			p = 1
		}
		if y {
			q = 1
		}
		return cmpF(p, q)
	case Text:
		s, sx := e.content(a)
		t, tx := e.content(b)
		if sx == "" && tx == "" {
			return sign(strings.Compare(s, t))
		}
	}
	e.undec("the order of %T", a)
	return nil
}

func (e *Eval) timeOf(v Value) Time {
	t, ok := v.(Time)
	if !ok {
		if v == nil {
			e.npe("time")
		}
		e.undec("a time from %T", v)
	}
	return t
}

func (e *Eval) timeCmp(a, b Value) Value {
	return cmpF(e.timeRank(e.timeOf(a)), e.timeRank(e.timeOf(b)))
}

func (e *Eval) nanos(r float64) Value {
	if r != math.Trunc(r) || math.Abs(r) > 1e15 {
		e.undec("a time arithmetic")
	}
	return jlong(int64(r))
}

func (e *Eval) nativeStatic(n *Node, owner, name string, args []Value) Value {
	rk := func(r float64, dur bool) Value { return Time{Dur: dur, Rank: &r} }
	switch owner {
	case "java.lang.Math", "java.lang.StrictMath":
		switch name {
		case "min", "max":
			a, b := e.num(args[0]), e.num(args[1])
			if (e.cmp(a, b) < 0) == (name == "min") {
				return e.coerce(a, n.T)
			}
			return e.coerce(b, n.T)
		case "abs":
			a := e.num(args[0])
			if a.Sym == "" {
				if isFloatT(a.T) {
					a.F = math.Abs(a.F)
				} else if a.I < 0 {
					a.I = wrap(-a.I, a.T)
				}
				return a
			}
			if e.rank(a) >= 0 {
				return a
			}
		}
	case "java.lang.Integer", "java.lang.Long", "java.lang.Float", "java.lang.Double", "java.lang.Character", "java.lang.Boolean", "java.lang.Short":
		switch name {
		case "compare":
			return e.natural(args[0], args[1])
		case "compareUnsigned":
			return cmpF(e.unsigned(e.num(args[0])), e.unsigned(e.num(args[1])))
		case "valueOf":
			if _, ok := args[0].(Text); !ok {
				return args[0]
			}
		case "toString", "toUnsignedString", "toHexString":
			return Text{Free: true}
		case "toUnsignedLong":
			a := e.num(args[0])
			if a.Sym == "" {
				return jlong(int64(uint32(a.I)))
			}
			r := e.unsigned(a)
			if r == math.Trunc(r) && r < 1e15 {
				return jlong(int64(r))
			}
		case "parseUnsignedInt", "parseUnsignedLong":
			s, sx := e.content(args[0])
			if sx == "" {
				bits := 32
				if name == "parseUnsignedLong" {
					bits = 64
				}
				k, err := strconv.ParseUint(s, 10, bits)
				if err != nil {
					e.throw("java.lang.NumberFormatException", s)
				}
				r := Num{T: map[string]string{"parseUnsignedInt": "int", "parseUnsignedLong": "long"}[name]}
				if t := e.P.Lits.Lookup(int64(k)); t != nil && k < 1<<62 {
					r.Sym, r.Uns = t.Op, unsBits(t)
					if r.Uns != 0 && r.Uns != range_(r.T) && e.Env.Rank[r.Sym] >= range_(r.T) {
						e.throw("java.lang.NumberFormatException", s)
					}
					return r
				}
				r.I = wrap(int64(k), r.T)
				return r
			}
		case "parseInt", "parseLong":
			s, sx := e.content(args[0])
			if sx == "" {
				k, err := strconv.ParseInt(s, 10, 64)
				if err != nil {
					e.throw("java.lang.NumberFormatException", s)
				}
				return Num{T: n.T, I: k}
			}
		case "isDigit", "isLetter", "isLetterOrDigit":
			c := e.num(args[0])
			if c.Sym == "" {
				d := c.I >= '0' && c.I <= '9'
				l := c.I >= 'a' && c.I <= 'z' || c.I >= 'A' && c.I <= 'Z'
				if c.I < 128 {
					return name == "isDigit" && d || name == "isLetter" && l || name == "isLetterOrDigit" && (l || d)
				}
			}
		case "isNaN", "isInfinite":
			return false
		}
	case "java.util.Arrays":
		switch name {
		case "toString", "deepToString":
			return Text{Free: true}
		case "asList":
			return &Coll{Kind: "list", E: e.iterate(args[0])}
		case "stream":
			return &Coll{Kind: "stream", E: append([]Value{}, e.iterate(args[0])...)}
		case "equals":
			s, sx := e.content(args[0])
			t, tx := e.content(args[1])
			return e.textRank(s, sx) == e.textRank(t, tx)
		case "copyOf", "copyOfRange":
		}
	case "java.lang.ThreadLocal":
		if name == "withInitial" {
			return &Obj{Cls: owner, F: map[string]Value{"$init": args[0]}}
		}
	case "java.util.Collections":
		switch name {
		case "emptyList":
			return &Coll{Kind: "list"}
		case "emptyMap":
			return &Coll{Kind: "map"}
		case "emptySet":
			return &Coll{Kind: "set"}
		case "unmodifiableList", "unmodifiableSet", "unmodifiableMap", "unmodifiableCollection":
			return args[0]
		case "synchronizedMap", "synchronizedSet", "synchronizedList", "synchronizedCollection":
			if c, ok := args[0].(*Coll); ok {
				c.Safe = true
			}
			return args[0]
		case "singletonList", "singleton":
			return &Coll{Kind: "list", E: args}
		}
	case "java.util.List", "java.util.Set":
		if name == "of" {
			return &Coll{Kind: strings.ToLower(owner[10:]), E: e.iterate(args[0])}
		}
	case "java.util.Objects":
		switch name {
		case "equals":
			return e.equal(args[0], args[1])
		case "requireNonNull":
			if args[0] == nil {
				e.npe("requireNonNull")
			}
			return args[0]
		case "isNull":
			return args[0] == nil
		case "nonNull":
			return args[0] != nil
		case "toString":
			return e.str(args[0])
		case "hash":
			return Num{T: "int", Sym: "hash"}
		}
	case "java.lang.String":
		switch name {
		case "valueOf":
			return e.str(args[0])
		case "format", "join":
			return Text{Free: true}
		}
	case "com.google.protobuf.ByteString":
		switch name {
		case "copyFrom", "copyFromUtf8":
			if len(args) == 1 {
				s, sx := e.content(args[0])
				return Bytes{S: s, Sym: sx}
			}
		}
	case "com.google.common.primitives.Bytes":
		if name == "indexOf" {
			if e.relation("contains", args[0], args[1]) {
				return jint(0)
			}
			return jint(-1)
		}
	case "com.google.protobuf.Duration", "com.google.protobuf.Timestamp":
		switch name {
		case "newBuilder":
			return &Obj{Cls: owner + "$Builder", F: map[string]Value{"sec": jlong(0), "nanos": jint(0)}}
		case "getDefaultInstance":
			return Time{Dur: strings.HasSuffix(owner, "Duration"), Conc: &scen.DC{}}
		}
	case "com.google.protobuf.Any":
		if name == "pack" {
			return &Obj{Cls: owner, F: map[string]Value{"$packed": args[0]}}
		}
	case "com.google.protobuf.util.Durations", "com.google.protobuf.util.Timestamps":
		dur := strings.HasSuffix(owner, "Durations")
		switch name {
		case "comparator":
			return &Nat{"time order", func(a []Value) Value { return e.timeCmp(a[0], a[1]) }}
		case "compare":
			return e.timeCmp(args[0], args[1])
		case "toNanos":
			return e.nanos(e.timeRank(e.timeOf(args[0])))
		case "toMillis", "toMicros", "toSeconds":
			// coarser than the nanoseconds of the value
			e.undec("a rounded time")
		case "fromNanos":
			a := e.num(args[0])
			return rk(e.rank(a), dur)
		case "fromMillis":
			if a := e.num(args[0]); a.Sym == "now" {
				return Time{Sym: "now"}
			}
		case "between":
			return rk(e.timeRank(e.timeOf(args[1]))-e.timeRank(e.timeOf(args[0])), true)
		case "add":
			return rk(e.timeRank(e.timeOf(args[0]))+e.timeRank(e.timeOf(args[1])), dur)
		case "subtract":
			return rk(e.timeRank(e.timeOf(args[0]))-e.timeRank(e.timeOf(args[1])), dur)
		case "isNegative":
			return e.timeRank(e.timeOf(args[0])) < 0
		case "isValid":
			return e.timeValid(e.timeOf(args[0]))
		case "checkValid":
			if !e.timeValid(e.timeOf(args[0])) {
				e.throw("java.lang.IllegalArgumentException", "")
			}
			return args[0]
		case "toString":
			return Text{Free: true}
		}
	case "java.util.Comparator":
		switch name {
		case "naturalOrder":
			return &Nat{name, func(a []Value) Value { return e.natural(a[0], a[1]) }}
		case "reverseOrder":
			return &Nat{name, func(a []Value) Value { return e.natural(a[1], a[0]) }}
		}
	case "com.google.re2j.Pattern", "java.util.regex.Pattern":
		switch name {
		case "compile":
			return &Obj{Cls: owner, F: map[string]Value{"$": args[0]}}
		case "matches":
			return e.regex(args[1], args[0])
		case "quote":
			return args[0]
		}
	case "org.apache.commons.validator.routines.InetAddressValidator", "org.apache.commons.validator.routines.EmailValidator", "org.apache.commons.validator.routines.DomainValidator":
		if name == "getInstance" {
			return &Obj{Cls: owner, F: map[string]Value{}}
		}
	case "java.lang.System":
		switch name {
		case "currentTimeMillis":
			return Num{T: "long", Sym: "now"}
		}
	case "java.net.URI":
		if name == "create" {
			s, sx := e.content(args[0])
			if !e.fact("url:" + textKey(s, sx)) {
				e.throw("java.lang.IllegalArgumentException", "")
			}
			return &Obj{Cls: owner, F: map[string]Value{"$": args[0]}}
		}
	case "java.util.stream.Collectors":
		return &Nat{name, nil}
	}
	if en := e.P.St.enumOf(owner); en != nil && (name == "forNumber" || name == "valueOf") {
		v := e.num(args[0])
		return e.P.St.enumConst(owner, int32(e.rank(v)))
	}
	e.undec("the function %s.%s", owner, name)
	return nil
}

func (e *Eval) timeValid(t Time) bool {
	if t.Conc != nil {
		if t.Dur {
			return t.Conc.Valid("duration")
		}
		return t.Conc.Valid("timestamp")
	}
	return e.fact("valid:" + t.Sym)
}

func (e *Eval) nativeFn(fn Value, owner, name string, args []Value) (Value, bool) {
	switch owner {
	case "java.util.Comparator":
		if name == "reversed" {
			return &Nat{name, func(a []Value) Value { return e.apply(fn, []Value{a[1], a[0]}) }}, true
		}
	case "java.lang.Object":
		switch name {
		case "equals":
			return fn == args[0], true
		case "getClass":
			return Class{"$function"}, true
		case "toString":
			return Text{Free: true}, true
		}
	}
	return nil, false
}

// scalar is the Java value of a proto scalar.
func (e *Eval) scalar(kind, typ string, v *spec.Val) Value {
	switch kind {
	case "string", "bytes":
		s := ""
		if v != nil && v.Sym == "" {
			switch x := v.Conc.(type) {
			case string:
				s = x
			case []byte:
				s = string(x)
			}
		}
		sym := ""
		if v != nil {
			sym = v.Sym
		}
		if kind == "bytes" {
			return Bytes{S: s, Sym: sym}
		}
		return Text{S: s, Sym: sym}
	case "enum":
		var n Num
		if v != nil {
			n = e.scalar("int32", "", v).(Num)
		} else {
			n = jint(0)
		}
		r := e.rank(n)
		cls := e.P.St.Class[typ]
		if c := e.P.St.enumConst(cls, int32(r)); c != nil && r == math.Trunc(r) {
			return c
		}
		return EnumV{T: cls, Num: n}
	case "bool":
		if v == nil {
			return false
		}
		if v.Sym != "" {
			return e.Env.Rank[v.Sym] != 0
		}
		b, _ := v.Conc.(bool)
		return b
	}
	n := Num{T: prim[kind][0]}
	switch kind {
	case "uint32", "fixed32":
		n.Uns = 4294967296
	case "uint64", "fixed64":
		n.Uns = 18446744073709551616
	}
	if v == nil {
		n.Uns = 0
		return n
	}
	if v.Sym != "" {
		n.Sym = v.Sym
		return n
	}
	var f float64
	switch x := v.Conc.(type) {
	case int:
		n.I, f = int64(x), float64(x)
	case int64:
		n.I, f = x, float64(x)
	case float64:
		n.I, f = int64(x), x
		if n.Uns != 0 && x >= n.Uns/2 {
			n.I = int64(x - n.Uns)
		}
	}
	if isFloatT(n.T) {
		n.I, n.F = 0, f
	} else {
		n.I = wrap(n.I, n.T)
	}
	n.Uns = 0
	return n
}

// Build is the Java value of a proto value.
func (e *Eval) Build(kind, typ string, v *spec.Val) Value {
	if kind != "message" {
		return e.scalar(kind, typ, v)
	}
	unset := v == nil || v.Nil
	switch typ {
	case ".google.protobuf.Duration", ".google.protobuf.Timestamp":
		t := Time{Dur: strings.HasSuffix(typ, "Duration")}
		switch {
		case unset:
			t.Conc = &scen.DC{}
		case v.Conc != nil:
			c := v.Conc.(scen.DC)
			t.Conc = &c
		default:
			t.Sym = v.Sym
		}
		return t
	}
	o := &Obj{Cls: e.P.St.Class[typ], F: map[string]Value{}, Type: typ}
	if o.Cls == "" {
		e.undec("the class of %s", typ)
	}
	if !unset {
		o.Msg, o.Opaque = v, v.Sym
	}
	return o
}

func (e *Eval) access(o *Obj, a Access, args []Value) Value {
	get := func(f *scen.Field) *spec.Val {
		if o.Msg == nil {
			return nil
		}
		if o.Msg.Fields == nil && o.Opaque != "" {
			e.undec("the field %s of %s", f.Name, o.Opaque)
		}
		v := o.Msg.Fields[f.Name]
		if v != nil && v.Nil {
			return nil
		}
		return v
	}
	list := func(f *scen.Field) *Coll {
		v := get(f)
		c := &Coll{Kind: "list"}
		if f.MapKey != "" {
			c.Kind = "map"
		}
		if v == nil {
			return c
		}
		c.Sym = v.Sym
		for i, x := range v.List {
			el := e.Build(f.Kind, f.Type, x)
			if f.MapKey != "" {
				c.E = append(c.E, e.Build(f.MapKey, "", v.Keys[i]))
				c.V = append(c.V, el)
			} else {
				c.E = append(c.E, el)
			}
		}
		return c
	}
	switch a.Op {
	case "get":
		return e.Build(a.Field.Kind, a.Field.Type, get(a.Field))
	case "has":
		return get(a.Field) != nil
	case "num":
		ev := e.scalar("enum", a.Field.Type, get(a.Field)).(EnumV)
		return ev.Num
	case "bytes":
		t := e.scalar("string", "", get(a.Field)).(Text)
		return Bytes{S: t.S, Sym: t.Sym}
	case "list", "map":
		return list(a.Field)
	case "count":
		return e.size(list(a.Field))
	case "at":
		c := list(a.Field)
		i := e.conc(args[0], "an index")
		if c.Sym != "" {
			e.undec("an element of %s", c.Sym)
		}
		if i < 0 || int(i) >= len(c.E) {
			e.throw("java.lang.IndexOutOfBoundsException", "")
		}
		return c.E[i]
	case "case":
		t := e.P.St.Class[a.Owner] + "$" + Camel(a.Oneof.Name, true) + "Case"
		for _, f := range a.Oneof.Fields {
			if get(f) != nil || o.Msg != nil && o.Msg.Fields[f.Name] != nil {
				return EnumV{T: t, Name: strings.ToUpper(f.Name)}
			}
		}
		return EnumV{T: t, Name: strings.ToUpper(strings.ReplaceAll(Camel(a.Oneof.Name, true), "_", "")) + "_NOT_SET"}
	}
	e.undec("the accessor %s", a.Op)
	return nil
}

func (e *Eval) nativeObj(n *Node, o *Obj, owner, sig, name string, args []Value) Value {
	if e.P.St != nil {
		if a, ok := e.P.St.Method[o.Cls+"."+sig]; ok {
			return e.access(o, a, args)
		}
	}
	switch o.Cls {
	case "com.google.protobuf.Duration$Builder", "com.google.protobuf.Timestamp$Builder":
		switch name {
		case "setSeconds":
			o.F["sec"] = args[0]
			return o
		case "setNanos":
			o.F["nanos"] = args[0]
			return o
		case "build":
			s, x := e.num(o.F["sec"]), e.num(o.F["nanos"])
			t := Time{Dur: strings.HasPrefix(o.Cls, "com.google.protobuf.Duration")}
			switch {
			case s.Sym == "" && x.Sym == "":
				t.Conc = &scen.DC{Sec: s.I, Nanos: x.I}
			case strings.HasPrefix(s.Sym, "sec:") && x.Sym == "nanos:"+s.Sym[4:]:
				t.Sym = s.Sym[4:]
			default:
				t.Sym = "seconds " + s.Sym + " and nanoseconds " + x.Sym
			}
			return t
		}
	case "com.google.protobuf.Any":
		if name == "getTypeUrl" {
			if o.Msg == nil {
				return Text{}
			}
			return e.scalar("string", "", o.Msg.Inner)
		}
	case "com.google.re2j.Pattern", "java.util.regex.Pattern":
		switch name {
		case "matches":
			return e.regex(args[0], o.F["$"])
		case "pattern", "toString":
			return o.F["$"]
		case "matcher":
			return &Obj{Cls: "com.google.re2j.Matcher", F: map[string]Value{"p": o.F["$"], "t": args[0]}}
		}
	case "com.google.re2j.Matcher":
		switch name {
		case "matches", "find":
			return e.regex(o.F["t"], o.F["p"])
		}
	case "java.net.URI":
		switch name {
		case "isAbsolute":
			s, sx := e.content(o.F["$"])
			return e.fact("urlabs:" + textKey(s, sx))
		case "toString":
			return o.F["$"]
		}
	case "org.apache.commons.validator.routines.InetAddressValidator":
		s, sx := e.content(args[0])
		k := textKey(s, sx)
		switch name {
		case "isValid":
			return e.fact("ip:" + k)
		case "isValidInet4Address":
			return e.fact("ip:"+k) && e.fact("v4:"+k)
		case "isValidInet6Address":
			return e.fact("ip:"+k) && !e.fact("v4:"+k)
		}
	case "org.apache.commons.validator.routines.EmailValidator":
		if name == "isValid" {
			s, sx := e.content(args[0])
			return e.fact("email:" + textKey(s, sx))
		}
	case "org.apache.commons.validator.routines.DomainValidator":
		if name == "isValid" {
			s, sx := e.content(args[0])
			return e.fact("domain:" + textKey(s, sx))
		}
	case "java.lang.StringBuilder", "java.lang.StringBuffer":
		t := o.F["$"].(Text)
		if name != "toString" && name != "length" && name != "charAt" {
			e.touch(o, "changes a shared buffer")
		}
		switch name {
		case "append":
			o.F["$"] = e.concat(t, args[0])
			return o
		case "reverse":
			if t.Free {
				return o
			}
			r := []rune(t.S)
			for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
				r[i], r[j] = r[j], r[i]
			}
			o.F["$"] = Text{S: string(r)}
			return o
		case "insert":
			if k, ok := args[0].(Num); ok && k.Sym == "" && k.I == 0 {
				o.F["$"] = e.concat(args[1], t)
				return o
			}
		case "toString":
			return t
		case "length":
			return e.utf16Len(t)
		}
	case "java.lang.ClassLoader":
		if name == "loadClass" {
			s, sx := e.content(args[0])
			if sx == "" {
				if e.P.own[s] == nil {
					e.throw("java.lang.ClassNotFoundException", s)
				}
				return Class{s}
			}
		}
	case "java.lang.reflect.Method":
		if name == "invoke" {
			c := e.class(o.F["c"].(Text).S)
			m := c.Methods[o.F["m"].(Text).S]
			as := e.iterate(args[1])
			e.initStatic(c)
			if !m.has("static") {
				e.undec("a reflective call of an instance method")
			}
			return e.reflective(c, m, as)
		}
		if name == "setAccessible" {
			return nil
		}
	}
	if o.Cls == "java.lang.ThreadLocal" {
		// every thread has a value of its own
		switch name {
		case "get":
			if _, ok := o.F["$"]; !ok {
				var v Value
				if f := o.F["$init"]; f != nil {
					v = e.apply(f, nil)
				}
				o.F["$"] = v
			}
			return o.F["$"]
		case "set":
			o.F["$"] = args[0]
			return nil
		case "remove":
			delete(o.F, "$")
			return nil
		}
	}
	if strings.HasPrefix(o.Cls, "java.util.concurrent.atomic.") {
		switch name {
		case "get":
			return o.F["$"]
		case "set":
			o.F["$"] = args[0]
			return nil
		case "getAndSet":
			v := o.F["$"]
			o.F["$"] = args[0]
			return v
		case "compareAndSet":
			if e.equal(o.F["$"], args[0]) {
				o.F["$"] = args[1]
				return true
			}
			return false
		case "incrementAndGet":
			k := e.num(o.F["$"])
			k.I++
			o.F["$"] = k
			return k
		}
	}
	if e.P.St != nil && strings.HasPrefix(o.Cls, "com.google.protobuf.") && name == "getValue" {
		if k := spec.WrapperKind(e.P.St.protoOf(o.Cls)); k != "" {
			if o.Msg == nil {
				return e.scalar(k, "", nil)
			}
			return e.scalar(k, "", o.Msg.Inner)
		}
	}
	switch name {
	case "getClass":
		if o.Cls == "" {
			e.undec("the class of %s", o.Opaque)
		}
		return Class{o.Cls}
	case "equals":
		return e.equal(o, args[0])
	case "hashCode":
		return Num{T: "int", Sym: "hash"}
	case "toString", "name":
		return e.str(o)
	case "getMessage", "getLocalizedMessage":
		return o.F["$msg"]
	case "getCause":
		return o.F["$cause"]
	case "initCause", "addSuppressed":
		return o
	case "printStackTrace", "fillInStackTrace":
		return nil
	case "isInitialized":
		return true
	}
	e.undec("the method %s.%s of %s", owner, sig, o.Cls)
	return nil
}

// reflective calls m; what it throws is wrapped.
func (e *Eval) reflective(c *cls, m *Node, as []Value) (v Value) {
	depth := e.depth
	defer func() {
		if p := recover(); p != nil {
			t, ok := p.(Thrown)
			if !ok {
				panic(p)
			}
			e.depth = depth
			panic(Thrown{&Obj{Cls: "java.lang.reflect.InvocationTargetException", F: map[string]Value{"$cause": t.Ex}}})
		}
	}()
	return e.invoke(c, m, nil, as)
}

func (s *Stubs) protoOf(cls string) string {
	return "." + cls[len("com."):]
}

func (e *Eval) nativeCall(n *Node, recv Value, owner, name, sig string, args []Value) Value {
	switch name {
	case "equals":
		return e.equal(recv, args[0])
	case "hashCode":
		return Num{T: "int", Sym: "hash"}
	case "getClass":
		if c := e.classOf(recv); c != "" {
			return Class{c}
		}
	}
	switch x := recv.(type) {
	case Text:
		return e.textCall(x, name, args)
	case Bytes:
		switch name {
		case "size":
			if x.Sym != "" {
				return e.measure("bytes", x.Sym, "int")
			}
			return jint(int64(len(x.S)))
		case "isEmpty":
			return e.textRank(x.S, x.Sym) == 0
		case "toByteArray":
			return &Arr{Of: &x}
		case "startsWith":
			return e.relation("prefix", x, args[0])
		case "endsWith":
			return e.relation("suffix", x, args[0])
		case "toStringUtf8":
			return Text{S: x.S, Sym: x.Sym}
		case "toString":
			if len(args) == 1 {
				return Text{S: x.S, Sym: x.Sym}
			}
			return Text{Free: true}
		}
	case Num:
		switch name {
		case "compareTo":
			return e.natural(x, args[0])
		case "intValue":
			return e.coerce(x, "int")
		case "longValue":
			return e.coerce(x, "long")
		case "doubleValue":
			return e.coerce(x, "double")
		case "floatValue":
			return e.coerce(x, "float")
		case "toString":
			return e.str(x)
		}
	case bool:
		switch name {
		case "booleanValue":
			return x
		case "compareTo":
			return e.natural(x, args[0])
		case "toString":
			return e.str(x)
		}
	case EnumV:
		switch name {
		case "getNumber":
			if x.Name == "" {
				e.throw("java.lang.IllegalArgumentException", "Can't get the number of an unknown enum value.")
			}
			return x.Num
		case "toString", "name":
			return e.str(x)
		}
	case Time:
		switch name {
		case "getSeconds", "getNanos":
			if x.Conc != nil {
				if name == "getNanos" {
					return jint(int64(x.Conc.Nanos))
				}
				return jlong(x.Conc.Sec)
			}
			if x.Sym != "" {
				if name == "getNanos" {
					return Num{T: "int", Sym: "nanos:" + x.Sym}
				}
				return Num{T: "long", Sym: "sec:" + x.Sym}
			}
		case "toString":
			return Text{Free: true}
		}
	case Class:
		switch name {
		case "getName", "getTypeName":
			return Text{S: x.Name}
		case "getSimpleName":
			s := x.Name[strings.LastIndexAny(x.Name, ".$")+1:]
			return Text{S: s}
		case "getCanonicalName":
			return Text{S: strings.ReplaceAll(x.Name, "$", ".")}
		case "getPackage":
			return &Obj{Cls: "java.lang.Package", F: map[string]Value{}}
		case "getEnclosingClass", "getDeclaringClass":
			if i := strings.LastIndex(x.Name, "$"); i > 0 {
				return Class{x.Name[:i]}
			}
			return nil
		case "getClassLoader":
			return &Obj{Cls: "java.lang.ClassLoader", F: map[string]Value{}}
		case "toString":
			return Text{S: "class " + x.Name}
		case "isInstance":
			return args[0] != nil && e.instance(e.classOf(args[0]), x.Name)
		case "isAssignableFrom":
			if y, ok := args[0].(Class); ok {
				return e.instance(y.Name, x.Name)
			}
		case "cast":
			return args[0]
		case "getDeclaredMethod", "getMethod":
			var ps []string
			for _, p := range e.iterate(args[1]) {
				if c, ok := p.(Class); ok {
					ps = append(ps, c.Name)
				}
			}
			s, _ := e.content(args[0])
			sig := s + "(" + strings.Join(ps, ",") + ")"
			c := e.class(x.Name)
			if c == nil || c.Methods[sig] == nil {
				e.throw("java.lang.NoSuchMethodException", sig)
			}
			return &Obj{Cls: "java.lang.reflect.Method", F: map[string]Value{"c": Text{S: x.Name}, "m": Text{S: sig}}}
		}
	case *Coll:
		return e.collCall(x, name, args)
	case *Arr:
		if name == "clone" {
			return &Arr{E: append([]Value{}, x.E...), Of: x.Of}
		}
	}
	e.undec("the method %s.%s", owner, sig)
	return nil
}

func (e *Eval) textCall(x Text, name string, args []Value) Value {
	if x.Free {
		if name == "toString" {
			return x
		}
		e.undec("the method %s of a message text", name)
	}
	switch name {
	case "length":
		return e.utf16Len(x)
	case "isEmpty":
		if _, ok := e.Env.Rank[x.Sym]; !ok && x.Sym != "" {
			if b, ok := e.Env.Rank["bytes:"+x.Sym]; ok {
				return b == 0
			}
			return false
		}
		return e.textRank(x.S, x.Sym) == 0
	case "codePointCount":
		if x.Sym == "" {
			r := []rune(x.S)
			return jint(int64(len(r)))
		}
		b := e.num(args[1])
		l := e.num(e.utf16Len(x))
		if e.conc(args[0], "an index") == 0 && (b == l) {
			return e.measure("runes", x.Sym, "int")
		}
	case "codePoints", "chars":
		if x.Sym == "" {
			c := &Coll{Kind: "stream"}
			if name == "codePoints" {
				for _, r := range x.S {
					c.E = append(c.E, jint(int64(r)))
				}
			} else {
				for _, r := range utf16.Encode([]rune(x.S)) {
					c.E = append(c.E, jint(int64(r)))
				}
			}
			return c
		}
		return &Coll{Kind: "stream", Sym: name + " of " + x.Sym, E: []Value{x}}
	case "getBytes":
		return &Arr{Of: &Bytes{S: x.S, Sym: x.Sym}}
	case "startsWith":
		if len(args) == 1 {
			return e.relation("prefix", x, args[0])
		}
	case "endsWith":
		return e.relation("suffix", x, args[0])
	case "contains":
		return e.relation("contains", x, args[0])
	case "matches":
		return e.regex(x, args[0])
	case "toString", "intern":
		return x
	case "compareTo":
		return e.natural(x, args[0])
	case "concat":
		return e.concat(x, args[0])
	case "indexOf":
		if t, ok := args[0].(Text); ok && x.Sym != "" && len(args) == 1 {
			if e.relation("contains", x, t) {
				return Num{T: "int", I: 0}
			}
			return jint(-1)
		}
	case "toCharArray":
		if x.Sym != "" {
			return &Arr{Of: &Bytes{Sym: x.Sym}, Chars: true}
		}
	case "charAt":
		if x.Sym != "" {
			return Num{T: "char", Sym: "char:" + x.Sym}
		}
	}
	if x.Sym != "" {
		e.undec("the method %s of %s", name, x.Sym)
	}
	u := utf16.Encode([]rune(x.S))
	at := func(i int) int64 {
		k := e.conc(args[i], "an index")
		if k < 0 || k > int64(len(u)) {
			e.throw("java.lang.StringIndexOutOfBoundsException", "")
		}
		return k
	}
	switch name {
	case "toCharArray":
		a := &Arr{E: []Value{}}
		for _, c := range u {
			a.E = append(a.E, Num{T: "char", I: int64(c)})
		}
		return a
	case "charAt":
		k := at(0)
		if k == int64(len(u)) {
			e.throw("java.lang.StringIndexOutOfBoundsException", "")
		}
		return Num{T: "char", I: int64(u[k])}
	case "substring":
		a, b := at(0), int64(len(u))
		if len(args) == 2 {
			b = at(1)
		}
		if a > b {
			e.throw("java.lang.StringIndexOutOfBoundsException", "")
		}
		return Text{S: string(utf16.Decode(u[a:b]))}
	case "indexOf", "lastIndexOf":
		if len(args) != 1 {
			break
		}
		var t string
		switch y := args[0].(type) {
		case Num:
			t = string(rune(e.conc(y, "a char")))
		case Text:
			t, _ = e.content(y)
		}
		i := strings.Index(x.S, t)
		if name == "lastIndexOf" {
			i = strings.LastIndex(x.S, t)
		}
		if i > 0 {
			i = len(utf16.Encode([]rune(x.S[:i])))
		}
		return jint(int64(i))
	case "trim":
		return Text{S: strings.TrimFunc(x.S, func(r rune) bool { return r <= ' ' })}
	case "toLowerCase":
		return Text{S: strings.ToLower(x.S)}
	case "toUpperCase":
		return Text{S: strings.ToUpper(x.S)}
	case "replace":
		a, a1 := args[0].(Text)
		b, b1 := args[1].(Text)
		if a1 && b1 {
			return Text{S: strings.ReplaceAll(x.S, a.S, b.S)}
		}
		p, q := e.num(args[0]), e.num(args[1])
		return Text{S: strings.ReplaceAll(x.S, string(rune(p.I)), string(rune(q.I)))}
	}
	e.undec("the method %s of a text", name)
	return nil
}

func (e *Eval) collCall(x *Coll, name string, args []Value) Value {
	if x.Kind == "stream" {
		return e.stream(x, name, args)
	}
	if x.Kind == "iter" {
		switch name {
		case "hasNext":
			return x.pos < len(x.E)
		case "next":
			if x.pos >= len(x.E) {
				e.throw("java.util.NoSuchElementException", "")
			}
			x.pos++
			return x.E[x.pos-1]
		}
	}
	switch name {
	case "size":
		return e.size(x)
	case "isEmpty":
		return e.num(e.size(x)).I == 0
	case "toString":
		return Text{Free: true}
	case "iterator", "listIterator":
		return &Coll{Kind: "iter", E: e.iterate(x)}
	case "stream", "parallelStream":
		return &Coll{Kind: "stream", E: e.iterate(x)}
	}
	if x.Kind == "map" {
		if x.Sym != "" {
			switch name {
			case "keySet", "values", "entrySet", "forEach":
				if r, ok := e.Env.Rank["size:"+x.Sym]; ok && r == 0 {
					return &Coll{Kind: "list"}
				}
				if name != "forEach" {
					return &Coll{Kind: "list", E: []Value{&Obj{Opaque: "an element of " + x.Sym}}}
				}
			}
			e.undec("the method %s of %s", name, x.Sym)
		}
		i := -1
		if len(args) > 0 {
			switch args[0].(type) {
			case *Lam, *Nat:
			default:
				i = e.indexIn(x, args[0])
			}
		}
		switch name {
		case "keySet":
			return &Coll{Kind: "set", E: x.E}
		case "values":
			return &Coll{Kind: "list", E: x.V}
		case "entrySet":
			c := &Coll{Kind: "set"}
			for j := range x.E {
				c.E = append(c.E, &Coll{Kind: "entry", E: []Value{x.E[j], x.V[j]}})
			}
			return c
		case "forEach":
			for j := range x.E {
				e.call2(args[0], x.E[j], x.V[j])
			}
			return nil
		case "containsKey":
			return i >= 0
		case "clear":
			e.touch(x, "clears a shared map")
			x.E, x.V = nil, nil
			return nil
		case "containsValue":
			return e.indexIn(&Coll{E: x.V}, args[0]) >= 0
		case "get":
			if i < 0 {
				return nil
			}
			return x.V[i]
		case "getOrDefault":
			if i < 0 {
				return args[1]
			}
			return x.V[i]
		case "put", "putIfAbsent":
			e.touch(x, "puts into a shared map")
			if i >= 0 {
				old := x.V[i]
				if name == "put" || old == nil {
					x.V[i] = args[1]
				}
				return old
			}
			x.E, x.V = append(x.E, args[0]), append(x.V, args[1])
			return nil
		case "computeIfAbsent":
			if i >= 0 && x.V[i] != nil {
				return x.V[i]
			}
			v := e.apply(args[1], args[:1])
			if v != nil {
				e.touch(x, "puts into a shared map")
				if i = e.indexIn(x, args[0]); i >= 0 {
					x.V[i] = v
				} else {
					x.E, x.V = append(x.E, args[0]), append(x.V, v)
				}
			}
			return v
		case "remove":
			if i < 0 {
				return nil
			}
			e.touch(x, "removes from a shared map")
			v := x.V[i]
			x.E = append(append([]Value{}, x.E[:i]...), x.E[i+1:]...)
			x.V = append(append([]Value{}, x.V[:i]...), x.V[i+1:]...)
			return v
		}
		e.undec("the map method %s", name)
	}
	if x.Kind == "entry" {
		switch name {
		case "getKey":
			return x.E[0]
		case "getValue":
			return x.E[1]
		}
	}
	switch name {
	case "forEach":
		for _, v := range e.iterate(x) {
			e.apply(args[0], []Value{v})
		}
		return nil
	}
	if x.Sym != "" {
		e.undec("the method %s of %s", name, x.Sym)
	}
	switch name {
	case "get":
		i := e.conc(args[0], "an index")
		if i < 0 || int(i) >= len(x.E) {
			e.throw("java.lang.IndexOutOfBoundsException", "")
		}
		return x.E[i]
	case "add":
		if len(args) == 1 {
			return e.add(x, args[0])
		}
	case "addAll":
		return e.addAll(x, args[0])
	case "contains":
		return e.indexIn(x, args[0]) >= 0
	case "indexOf":
		return jint(int64(e.indexIn(x, args[0])))
	case "containsAll":
		for _, v := range e.iterate(args[0]) {
			if e.indexIn(x, v) < 0 {
				return false
			}
		}
		return true
	case "toArray":
		return &Arr{E: append([]Value{}, x.E...)}
	case "clear":
		e.touch(x, "clears a shared %s", x.Kind)
		x.E = nil
		return nil
	case "subList":
		return &Coll{Kind: "list", E: x.E[e.conc(args[0], ""):e.conc(args[1], "")]}
	}
	e.undec("the collection method %s", name)
	return nil
}

func (e *Eval) call2(f Value, a ...Value) Value { return e.apply(f, a) }

func (e *Eval) stream(x *Coll, name string, args []Value) Value {
	if x.Sym != "" {
		// the characters of a symbolic text
		t := x.E[0].(Text)
		switch name {
		case "count":
			if strings.HasPrefix(x.Sym, "codePoints") {
				return e.measure("runes", t.Sym, "long")
			}
			return e.coerce(e.utf16Len(t), "long")
		}
		x = &Coll{Kind: "stream", E: []Value{Num{T: "int", Sym: "char:" + t.Sym}}}
	}
	truth := func(v Value) bool {
		b, ok := e.apply(args[0], []Value{v}).(bool)
		if !ok {
			e.undec("a predicate")
		}
		return b
	}
	switch name {
	case "anyMatch", "noneMatch", "allMatch":
		for _, v := range x.E {
			if truth(v) == (name != "allMatch") {
				return name == "anyMatch"
			}
		}
		return name != "anyMatch"
	case "filter":
		c := &Coll{Kind: "stream"}
		for _, v := range x.E {
			if truth(v) {
				c.E = append(c.E, v)
			}
		}
		return c
	case "map", "mapToObj", "mapToInt", "mapToLong":
		c := &Coll{Kind: "stream"}
		for _, v := range x.E {
			c.E = append(c.E, e.apply(args[0], []Value{v}))
		}
		return c
	case "distinct":
		c := &Coll{Kind: "stream"}
		for _, v := range x.E {
			if e.indexIn(c, v) < 0 {
				c.E = append(c.E, v)
			}
		}
		return c
	case "count":
		return jlong(int64(len(x.E)))
	case "forEach", "forEachOrdered":
		for _, v := range x.E {
			e.apply(args[0], []Value{v})
		}
		return nil
	case "boxed", "sequential":
		return x
	case "iterator":
		return &Coll{Kind: "iter", E: x.E}
	case "toArray":
		return &Arr{E: x.E}
	case "collect":
		k, _ := args[0].(*Nat)
		if k != nil && (k.Name == "toSet" || k.Name == "toList") {
			c := &Coll{Kind: strings.ToLower(k.Name[2:])}
			for _, v := range x.E {
				e.add(c, v)
			}
			return c
		}
		if k != nil && k.Name == "joining" {
			return Text{Free: true}
		}
	}
	e.undec("the stream method %s", name)
	return nil
}
