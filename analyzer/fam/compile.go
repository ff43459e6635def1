package fam

import (
	"fmt"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"math"
	"sort"
	"strings"

	"verif/analyzer/scen"
)

// Catalogue names every rule of every kind in every context once, with
// ordinary and extreme bounds.
func Catalogue(full bool) []*Case {
	b := &builder{pre: "CT"}
	in := func(ctxs []string, sh Shape, kind string, rules map[string]R) {
		for _, ctx := range ctxs {
			for _, n := range ruleNames(rules) {
				r := rules[n]
				m := InContext("", ctx, sh, R{kind: r})
				if m == nil {
					continue
				}
				t := kind
				if sh.Type != "" {
					t = strings.TrimPrefix(sh.Type, ".")
				}
				b.add(ctx+" "+t+" "+n, m, none)
			}
		}
	}
	for _, k := range NumKinds {
		rs := map[string]R{"lt": {"lt": L("hi")}, "lte": {"lte": L("hi")}, "gt": {"gt": L("lo")}, "gte": {"gte": L("lo")}, "gtlt": {"gt": L("lo"), "lt": L("hi")}, "gtelte": {"gte": L("lo"), "lte": L("hi")},
			"ltgt": {"gt": L("hi"), "lt": L("lo")}, "ltegte": {"gte": L("hi"), "lte": L("lo")}, "const": {"const": L("K")}, "in": {"in": I{L("I1"), L("I2")}}, "not_in": {"not_in": I{L("I1"), L("I2")}},
			"in-repeated": {"in": I{7, 7}}, "ignore_empty": {"ignore_empty": true}, "ignore_empty-range": {"ignore_empty": true, "gt": L("lo")}, "zero": {"lt": 0, "gt": 0 + 3}}
		switch k {
		case "float", "double":
			rs["const-negative"] = R{"const": -2.5}
			rs["const-huge"] = R{"const": 1e30}
			rs["const-tiny"] = R{"const": 1e-30}
			if k == "double" {
				in([]string{"plain"}, Shape{Kind: k}, k, map[string]R{"lt-inf": {"lt": math.Inf(1)}})
			}
		case "int64", "sint64", "sfixed64":
			rs["const-least"] = R{"const": math.MinInt64}
			rs["const-most"] = R{"const": math.MaxInt64}
			rs["range-extreme"] = R{"gte": math.MinInt64, "lte": math.MaxInt64}
		case "int32", "sint32", "sfixed32":
			rs["const-least"] = R{"const": math.MinInt32}
			rs["const-most"] = R{"const": math.MaxInt32}
			rs["range-extreme"] = R{"gte": math.MinInt32, "lte": math.MaxInt32}
		case "uint32", "fixed32":
			rs["const-most"] = R{"const": math.MaxUint32}
			rs["range-extreme"] = R{"gte": 0, "lte": math.MaxUint32}
		case "uint64", "fixed64":
			rs["const-big"] = R{"const": math.MaxInt64}
		}
		in(Contexts, Shape{Kind: k}, k, rs)
	}
	in(Contexts, Shape{Kind: "bool"}, "bool", map[string]R{"const": {"const": true}, "const-false": {"const": false}, "empty": {}})
	for _, k := range []string{"string", "bytes"} {
		t := func(s string) interface{} { return txt(k, s) }
		rs := map[string]R{"const": {"const": t("k")}, "const-empty": {"const": t("")}, "len": {"len": L("EL")}, "min_len": {"min_len": L("ML")}, "max_len": {"max_len": L("XL")}, "minmax": {"min_len": L("ML"), "max_len": L("XL")},
			"prefix": {"prefix": t("pre")}, "suffix": {"suffix": t("suf")}, "contains": {"contains": t("mid")}, "pattern": {"pattern": "^a`b\"+$"}, "in": {"in": I{t("one"), t("two")}}, "not_in": {"not_in": I{t("one"), t("two")}},
			"in-repeated": {"in": I{t("one"), t("one")}}, "in-awkward": {"in": I{t("zz\"\\\n\x01%d`'é")}}, "const-awkward": {"const": t("zz\"\\\n\x01%d`'é\x7f")}, "prefix-awkward": {"prefix": t("zz\"\\\n\x01%d`'é\x7f")},
			"ip": {"ip": true}, "ipv4": {"ipv4": true}, "ipv6": {"ipv6": true}, "ignore_empty": {"ignore_empty": true}, "ignore_empty-len": {"ignore_empty": true, "len": L("EL")},
			"max_len-huge": {"max_len": uint64(math.MaxInt64)}, "empty": {}}
		if k == "string" {
			for _, f := range []string{"email", "hostname", "address", "uri", "uri_ref", "uuid"} {
				rs[f] = R{f: true}
				rs[f+"-ignore_empty"] = R{f: true, "ignore_empty": true}
				rs[f+"-pattern"] = R{f: true, "pattern": "^a$"}
			}
			rs["len_bytes"] = R{"len_bytes": L("EB")}
			rs["min_bytes"] = R{"min_bytes": L("MB")}
			rs["max_bytes"] = R{"max_bytes": L("XB")}
			rs["bytes"] = R{"min_bytes": L("MB"), "max_bytes": L("XB")}
			rs["lens"] = R{"min_bytes": L("MB"), "max_bytes": L("XB"), "min_len": L("ML"), "max_len": L("XL")}
			rs["same"] = R{"min_bytes": L("MB"), "max_bytes": L("MB"), "min_len": L("ML"), "max_len": L("ML")}
			rs["not_contains"] = R{"not_contains": "no"}
			rs["header-name"] = R{"well_known_regex": 1}
			rs["header-value"] = R{"well_known_regex": 2, "strict": false}
			rs["all-affixes"] = R{"prefix": "a", "suffix": "b", "contains": "c", "not_contains": "d", "pattern": "e", "const": "f"}
		}
		in(Contexts, Shape{Kind: k}, k, rs)
	}
	for _, t := range []string{".t.E", ".t.EmbedE.NE", ".d.DE", ".t.NE"} {
		in(Contexts, Shape{"enum", t}, "enum", map[string]R{"const": {"const": 1}, "in": {"in": I{1, 5}}, "not_in": {"not_in": I{1, 5}}, "in-repeated": {"in": I{1, 1}}, "defined_only": {"defined_only": true}, "all": {"defined_only": true, "not_in": I{1}}, "empty": {}})
	}
	rng := map[string]R{"lt": {"lt": scen.D("hi")}, "lte": {"lte": scen.D("hi")}, "gt": {"gt": scen.D("lo")}, "gte": {"gte": scen.D("lo")}, "gtlt": {"gt": scen.D("lo"), "lt": scen.D("hi")}, "gtelte": {"gte": scen.D("lo"), "lte": scen.D("hi")},
		"ltgt": {"gt": scen.D("hi"), "lt": scen.D("lo")}, "ltegte": {"gte": scen.D("hi"), "lte": scen.D("lo")}, "const": {"const": scen.D("K")}, "required": {"required": true}, "required-const": {"required": true, "const": scen.D("K")}, "empty": {}}
	plus := func(m map[string]R, kv ...interface{}) map[string]R {
		out := map[string]R{}
		for k, v := range m {
			out[k] = v
		}
		for i := 0; i < len(kv); i += 2 {
			out[kv[i].(string)] = kv[i+1].(R)
		}
		return out
	}
	in(timeContexts, Shape{"message", durT}, "duration", plus(rng, "in", R{"in": I{scen.D("I1"), scen.D("I2")}}, "not_in", R{"not_in": I{scen.D("I1"), scen.D("I2")}}, "in-repeated", R{"in": I{scen.DC{3, 0}, scen.DC{3, 0}}},
		"const-negative", R{"const": scen.DC{-3, -5}}, "const-long", R{"const": scen.DC{9223372035, 999999999}}))
	in([]string{"plain"}, Shape{"message", durT}, "duration", map[string]R{"const-longest": {"const": scen.DC{315576000000, 0}}})
	in(timeContexts, Shape{"message", tsT}, "timestamp", plus(rng, "lt_now", R{"lt_now": true}, "gt_now", R{"gt_now": true}, "within", R{"within": scen.D("W")}, "gt_now-within", R{"gt_now": true, "within": scen.D("W")}, "lt_now-within", R{"lt_now": true, "within": scen.D("W")},
		"const-first", R{"const": scen.DC{-62135596800, 0}}, "const-last", R{"const": scen.DC{253402300799, 999999999}}))
	in(timeContexts, Shape{"message", anyT}, "any", map[string]R{"in": {"in": I{"a", "b"}}, "not_in": {"not_in": I{"a", "b"}}, "in-repeated": {"in": I{"a", "a"}}, "required": {"required": true}, "required-in": {"required": true, "in": I{"a"}}, "empty": {}})
	for _, t := range []string{".t.Sub", ".t.Off", ".t.Gone", ".t.Outer.Inner", ".d.Both", ".d.Plain", ".t.Near", ".google.type.Duration", anyT, durT, ".google.protobuf.Int32Value"} {
		sh := Shape{"message", t}
		n := strings.TrimPrefix(t, ".")
		for _, ctx := range timeContexts {
			for _, r := range []struct {
				n string
				r R
			}{{"none", nil}, {"skip", R{"message": R{"skip": true}}}, {"required", R{"message": R{"required": true}}}, {"both", R{"message": R{"required": true, "skip": true}}}} {
				if r.r != nil && (t == anyT || t == durT) {
					continue
				}
				m := InContext("", ctx, sh, r.r)
				if r.r == nil && (ctx == "items" || ctx == "values") {
					m.Fields[0].Rules = nil
				}
				b.add(ctx+" "+n+" message "+r.n, m, none)
			}
		}
	}
	// collections by element type
	elems := []Shape{{Kind: "bool"}, {Kind: "string"}, {Kind: "bytes"}, {Kind: "enum", Type: ".t.E"}, {Kind: "enum", Type: ".t.EmbedE.NE"}, {Kind: "enum", Type: ".d.DE"}, {Kind: "enum", Type: ".t.NE"}, {"message", ".t.Sub"}, {"message", ".d.Both"}, {"message", ".google.protobuf.StringValue"}}
	for _, k := range NumKinds {
		elems = append(elems, Shape{Kind: k})
	}
	for _, e := range elems {
		n := e.Kind
		if e.Type != "" {
			n = strings.TrimPrefix(e.Type, ".")
		}
		rs := map[string]R{"min_items": {"min_items": L("ML")}, "max_items": {"max_items": L("XL")}, "minmax": {"min_items": L("ML"), "max_items": L("XL")}, "exactly": {"min_items": L("ML"), "max_items": L("ML")}, "ignore_empty": {"ignore_empty": true, "min_items": L("ML")}, "empty": {}}
		if e.Kind == "int32" {
			rs["min_items-over"] = R{"min_items": uint64(math.MaxInt64) + 1}
		}
		if e.Kind != "message" {
			rs["unique"] = R{"unique": true}
			rs["unique-ignore_empty"] = R{"unique": true, "ignore_empty": true}
		}
		for _, d := range ruleNames(rs) {
			r := rs[d]
			b.add("list "+n+" "+d, repeated(e.Kind, e.Type, R{"repeated": r}), none)
		}
		rs = map[string]R{"min_pairs": {"min_pairs": L("ML")}, "max_pairs": {"max_pairs": L("XL")}, "minmax": {"min_pairs": L("ML"), "max_pairs": L("XL")}, "exactly": {"min_pairs": L("ML"), "max_pairs": L("ML")}, "ignore_empty": {"ignore_empty": true, "min_pairs": L("ML")}, "empty": {}}
		if e.Kind == "message" {
			rs["no_sparse"] = R{"no_sparse": true}
			rs["no_sparse-all"] = R{"no_sparse": true, "ignore_empty": true, "min_pairs": L("ML"), "keys": R{"string": R{"min_len": L("ML")}}}
		}
		for _, d := range ruleNames(rs) {
			r := rs[d]
			b.add("map "+n+" "+d, mapOf("string", e.Kind, e.Type, R{"map": r}), none)
		}
		if KeyKind(e.Kind) {
			b.add("map by "+n, mapOf(e.Kind, "message", ".t.Sub", R{"map": R{"no_sparse": true, "min_pairs": L("ML")}}), none)
		}
	}
	for _, x := range []string{"pattern", "uuid", "email", "hostname", "address", "ip", "min_len", "prefix"} {
		v := func() interface{} {
			switch x {
			case "pattern", "prefix":
				return "a"
			case "min_len":
				return L("ML")
			}
			return true
		}()
		b.add("map keys and values "+x, mapOf("string", "string", "", R{"map": R{"keys": R{"string": R{x: v}}, "values": R{"string": R{x: v}}}}), none)
		b.add("map keys and wrapped values "+x, mapOf("string", "message", ".google.protobuf.StringValue", R{"map": R{"keys": R{"string": R{x: v}}, "values": R{"string": R{x: v}}}}), none)
	}
	return b.cases
}

// CompileEnum declares a nested enum used as a field type.
var CompileEnum = &scen.Msg{Name: "EmbedE", Enums: []*scen.Enum{{Name: "NE", Values: []scen.EnumVal{{"NE0", 0}, {"NE1", 1}, {"NE5", 5}}}}}

var none = []CV{{}}

func ruleNames(m map[string]R) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Program is a set of schema files generated together.
type Program struct {
	Desc    string
	Root    *scen.File
	Targets []string // names of the generated files; the root alone when empty
}

// rich gives a message a field of every sort of rule that declares something
// or refers to something outside its method.
func rich(name string) *scen.Msg {
	s := func(n string, r R) *scen.Field { return &scen.Field{Name: n, Kind: "string", Rules: R{"string": r}} }
	return &scen.Msg{Name: name, Fields: []*scen.Field{
		s("in_a", R{"in": I{"x"}}), s("not_in_b", R{"not_in": I{"x"}}), s("pat", R{"pattern": "^a$"}), s("mail", R{"email": true}), s("host", R{"hostname": true}), s("uid", R{"uuid": true}), s("addr", R{"address": true}), s("uri", R{"uri": true}), s("ip", R{"ip": true}),
		{Name: "list", Kind: "int32", Repeated: true, Rules: R{"repeated": R{"unique": true, "items": R{"int32": R{"gt": L("lo")}}}}},
		{Name: "table", Kind: "string", MapKey: "int32", Rules: R{"map": R{"keys": R{"int32": R{"gt": L("lo")}}, "values": R{"string": R{"pattern": "b"}}}}},
		{Name: "dur", Kind: "message", Type: durT, Rules: R{"duration": R{"in": I{scen.D("I1")}}}},
		{Name: "time", Kind: "message", Type: tsT, Rules: R{"timestamp": R{"gt_now": true, "required": true}}},
		{Name: "wrap", Kind: "message", Type: ".google.protobuf.Int32Value", Rules: R{"int32": R{"in": I{1, 2}}, "message": R{"required": true}}},
	}, Oneofs: []*scen.Oneof{{Name: "choice", Required: true, Fields: []*scen.Field{s("one_in", R{"in": I{"y"}}), {Name: "two", Kind: "bool"}, {Name: "emb", Kind: "message", Type: ".google.protobuf.Duration"}}}}}
}

// Programs enumerates naming shapes of files, packages, messages and fields.
func Programs(full bool) []*Program {
	var out []*Program
	file := func(name, pkg, gopkg string, ms ...*scen.Msg) *scen.File {
		return &scen.File{Name: name, Package: pkg, GoPackage: gopkg, Msgs: ms}
	}
	one := func(desc string, ms ...*scen.Msg) {
		out = append(out, &Program{Desc: desc, Root: file("dir/foo.proto", "t", "example.com/t;t", ms...)})
	}
	// message names
	for _, n := range []string{"M", "m", "lower", "snake_case", "Mixed_Case_X", "X1", "V1beta1", "HTTPServer", "A_", "_Lead", "error", "Error", "string", "errors", "fmt", "type", "func", "Any", "Duration", "Time", "interface", "nil", "len", "true", "int", "v", "err", "all"} {
		one("message "+n, rich(n))
		nest := rich(n)
		nest.Nested = []*scen.Msg{rich(n)}
		one("message nested in "+n, nest)
	}
	deep := rich("A")
	deep.Nested = []*scen.Msg{rich("B")}
	deep.Nested[0].Nested = []*scen.Msg{rich("C")}
	one("three levels", deep, rich("B"), rich("AB"))
	one("no fields", &scen.Msg{Name: "Empty"})
	one("no messages")
	one("only a nested message", &scen.Msg{Name: "A", Nested: []*scen.Msg{rich("B")}})
	// field names
	for _, n := range []string{"m", "err", "errors", "all", "v", "ok", "key", "val", "idx", "item", "wrapper", "uri", "ip", "l", "a", "d", "t", "dur", "ts", "now", "within", "field", "reason", "cause", "error", "type", "func", "range", "map", "nil", "len", "string", "reset", "descriptor", "proto_message", "marshal", "get_f", "f1", "f_1", "f1_2", "_f", "f_", "F", "FOO_BAR", "camelCase", "validation_error", "x_y_z", "validate_", "validates"} {
		f := func(r R, kind, typ string, ed func(*scen.Field)) *scen.Msg {
			x := &scen.Field{Name: n, Kind: kind, Type: typ, Rules: r}
			if ed != nil {
				ed(x)
			}
			return &scen.Msg{Name: "M", Fields: []*scen.Field{x, {Name: "zz", Kind: "bool"}}}
		}
		rep := func(x *scen.Field) { x.Repeated = true }
		mp := func(x *scen.Field) { x.MapKey = "string" }
		var ms []*scen.Msg
		for i, m := range []*scen.Msg{f(R{"string": R{"in": I{"a"}, "prefix": "a"}}, "string", "", nil), f(R{"int32": R{"gt": L("lo"), "lt": L("hi"), "not_in": I{L("mid")}}}, "int32", "", nil), f(R{"string": R{"email": true, "pattern": "a"}}, "string", "", nil),
			f(R{"repeated": R{"unique": true, "min_items": 1, "items": R{"string": R{"pattern": "a"}}}}, "string", "", rep), f(R{"map": R{"min_pairs": 1, "keys": R{"string": R{"uuid": true}}, "values": R{"int32": R{"gt": 1}}}}, "int32", "", mp),
			f(R{"duration": R{"required": true, "gt": scen.D("lo")}}, "message", durT, nil), f(R{"timestamp": R{"within": scen.D("W")}}, "message", tsT, nil), f(R{"any": R{"in": I{"a"}}}, "message", anyT, nil),
			f(R{"string": R{"min_len": 1}, "message": R{"required": true}}, "message", ".google.protobuf.StringValue", nil), f(R{"message": R{"required": true}}, "message", ".t.M0", nil), f(nil, "message", ".t.M0", rep), f(R{"map": R{"no_sparse": true}}, "message", ".t.M0", mp),
			{Oneofs: []*scen.Oneof{{Name: "oo", Required: true, Fields: []*scen.Field{{Name: n, Kind: "string", Rules: R{"string": R{"in": I{"a"}}}}, {Name: "zz", Kind: "bool"}}}}}, {Oneofs: []*scen.Oneof{{Name: n, Required: true, Fields: []*scen.Field{{Name: "ff", Kind: "string", Rules: R{"string": R{"in": I{"a"}}}}, {Name: "zz", Kind: "bool"}}}}}} {
			m.Name = fmt.Sprintf("M%d", i)
			ms = append(ms, m)
		}
		one("field "+n, ms...)
	}
	one("field validate", &scen.Msg{Name: "M", Fields: []*scen.Field{{Name: "validate", Kind: "int32", Rules: R{"int32": R{"gt": 1}}}}})
	one("field validate_all", &scen.Msg{Name: "M", Fields: []*scen.Field{{Name: "validate_all", Kind: "int32", Rules: R{"int32": R{"gt": 1}}}}})
	one("two fields with the same rule", &scen.Msg{Name: "M", Fields: []*scen.Field{{Name: "a", Kind: "string", Rules: R{"string": R{"email": true, "pattern": "a"}}}, {Name: "b", Kind: "string", Rules: R{"string": R{"email": true, "pattern": "a"}}}, {Name: "c", Kind: "int32", Repeated: true, Rules: R{"repeated": R{"unique": true}}}, {Name: "d", Kind: "int32", Repeated: true, Rules: R{"repeated": R{"unique": true}}}}})
	// packages and file names
	for _, gp := range []string{"example.com/t;t", "example.com/t", "t", "example.com/t/v1", "example.com/with-dash;with_dash", "example.com/x;validate", "example.com/x;strings"} {
		out = append(out, &Program{Desc: "go_package " + gp, Root: file("foo.proto", "p.v1", gp, rich("M"), rich("N"))})
	}
	for _, n := range []string{"foo.proto", "a/b/foo-bar.proto", "1foo.proto", "foo.v1.proto", "FooBar.proto", "foo_bar.proto", "HTTP.proto", "foo bar.proto", "foo+bar.proto"} {
		out = append(out, &Program{Desc: "file " + n, Root: file(n, "t", "example.com/t;t", rich("M"))})
	}
	// several files of one Go package
	a, b := file("dir/a.proto", "t", "example.com/t;t", rich("A")), file("dir/b.proto", "t", "example.com/t;t", rich("B"))
	b.Deps = []*scen.File{a}
	b.Msgs = append(b.Msgs, &scen.Msg{Name: "U", Fields: []*scen.Field{{Name: "a", Kind: "message", Type: ".t.A", Rules: R{"message": R{"required": true}}}}})
	out = append(out, &Program{Desc: "two files of one package", Root: b, Targets: []string{"dir/a.proto", "dir/b.proto"}})
	a, b = file("dir/a-b.proto", "t", "example.com/t;t", rich("A")), file("dir/a_b.proto", "t", "example.com/t;t", rich("B"))
	b.Deps = []*scen.File{a}
	out = append(out, &Program{Desc: "two files of one package whose names differ in punctuation", Root: b, Targets: []string{"dir/a-b.proto", "dir/a_b.proto"}})
	// enums of other packages
	en := func(n string) *scen.Enum {
		return &scen.Enum{Name: n, Values: []scen.EnumVal{{n + "_ZERO", 0}, {n + "_ONE", 1}}}
	}
	use := func(name, typ string, how ...string) *scen.Msg {
		m := &scen.Msg{Name: name}
		for i, h := range how {
			x := &scen.Field{Name: fmt.Sprintf("f%d", i), Kind: "enum", Type: typ}
			switch h {
			case "none":
			case "const":
				x.Rules = R{"enum": R{"const": 1}}
			case "in":
				x.Rules = R{"enum": R{"in": I{1}}}
			case "not_in":
				x.Rules = R{"enum": R{"not_in": I{1}}}
			case "defined_only":
				x.Rules = R{"enum": R{"defined_only": true}}
			case "unique":
				x.Repeated = true
				x.Rules = R{"repeated": R{"unique": true}}
			case "items in":
				x.Repeated = true
				x.Rules = R{"repeated": R{"items": R{"enum": R{"in": I{1}}}}}
			case "items defined_only":
				x.Repeated = true
				x.Rules = R{"repeated": R{"items": R{"enum": R{"defined_only": true}}}}
			case "values defined_only":
				x.MapKey = "string"
				x.Rules = R{"map": R{"values": R{"enum": R{"defined_only": true}}}}
			case "oneof in":
				x.Rules = R{"enum": R{"in": I{1}}}
				m.Oneofs = append(m.Oneofs, &scen.Oneof{Name: fmt.Sprintf("o%d", i), Fields: []*scen.Field{x}})
				continue
			}
			m.Fields = append(m.Fields, x)
		}
		return m
	}
	hows := []string{"none", "const", "in", "not_in", "defined_only", "unique", "items in", "items defined_only", "values defined_only", "oneof in"}
	for _, p := range []struct{ desc, pkg, gopkg string }{
		{"of another package", "dep", "example.com/dep;dep"}, {"of another package with the same last element", "dep", "example.com/other/t;t"}, {"of the same proto package in another Go package", "t", "example.com/dep;dep"},
		{"of a package named like a standard one", "dep", "example.com/time;time"}, {"of a package in the same Go package", "dep", "example.com/t;t"}, {"of a package named after a local", "dep", "example.com/key;key"}} {
		d := file("dep/d.proto", p.pkg, p.gopkg, &scen.Msg{Name: "Holder", Enums: []*scen.Enum{en("NE")}})
		d.Enums = []*scen.Enum{en("DE")}
		for _, ty := range []string{"DE", "Holder.NE"} {
			for _, h := range hows {
				if p.gopkg == "example.com/time;time" && (h != "const" || ty != "DE") {
					continue
				}
				r := file("dir/foo.proto", "t", "example.com/t;t", use("M", "."+p.pkg+"."+ty, h))
				r.Deps = []*scen.File{d}
				out = append(out, &Program{Desc: "enum " + ty + " " + p.desc + ", " + h, Root: r})
			}
			if p.gopkg == "example.com/time;time" {
				continue
			}
			r := file("dir/foo.proto", "t", "example.com/t;t", use("M", "."+p.pkg+"."+ty, "none", "in", "const", "in"), use("N", "."+p.pkg+"."+ty, "defined_only"))
			r.Deps = []*scen.File{d}
			out = append(out, &Program{Desc: "enum " + ty + " " + p.desc + ", used twice", Root: r})
		}
	}
	d1, d2 := file("d1/d.proto", "d1", "example.com/d1/v1;v1"), file("d2/d.proto", "d2", "example.com/d2/v1;v1")
	d1.Enums, d2.Enums = []*scen.Enum{en("DE")}, []*scen.Enum{en("DE")}
	r := file("dir/foo.proto", "t", "example.com/t;t", use("M", ".d1.DE", "in"), use("N", ".d2.DE", "in"))
	r.Deps = []*scen.File{d1, d2}
	out = append(out, &Program{Desc: "enums of two packages of the same name", Root: r})
	return out
}

// JavaPrograms are naming shapes that matter to Java code.
func JavaPrograms(full bool) []*Program {
	var out []*Program
	opt := func(f func(o *descriptorpb.FileOptions)) func(o *descriptorpb.FileOptions) { return f }
	add := func(desc string, f *scen.File, o func(o *descriptorpb.FileOptions)) {
		f.Options = o
		out = append(out, &Program{Desc: "java " + desc, Root: f})
	}
	file := func(name, pkg string, ms ...*scen.Msg) *scen.File {
		return &scen.File{Name: name, Package: pkg, GoPackage: "example.com/t;t", Msgs: ms}
	}
	multi := opt(func(o *descriptorpb.FileOptions) { o.JavaMultipleFiles = proto.Bool(true) })
	nest := func(name string, in ...*scen.Msg) *scen.Msg {
		m := rich(name)
		m.Nested = in
		return m
	}
	for _, v := range []struct {
		d string
		o func(o *descriptorpb.FileOptions)
	}{{"one class", nil}, {"multiple files", multi},
		{"java_package", opt(func(o *descriptorpb.FileOptions) { o.JavaPackage = proto.String("com.example.x") })},
		{"java_package, multiple files", opt(func(o *descriptorpb.FileOptions) {
			o.JavaPackage = proto.String("com.example.x")
			o.JavaMultipleFiles = proto.Bool(true)
		})},
		{"java_outer_classname", opt(func(o *descriptorpb.FileOptions) { o.JavaOuterClassname = proto.String("Custom_Outer") })},
		{"java_outer_classname, multiple files", opt(func(o *descriptorpb.FileOptions) {
			o.JavaOuterClassname = proto.String("CustomOuter")
			o.JavaMultipleFiles = proto.Bool(true)
		})}} {
		add(v.d+": plain", file("dir/foo.proto", "t.v1", rich("A"), rich("B")), v.o)
		add(v.d+": nested", file("dir/foo.proto", "t", nest("A", nest("B", rich("C")), rich("D")), rich("E")), v.o)
		add(v.d+": same nested name", file("dir/foo.proto", "t", nest("A", rich("In")), nest("B", rich("In")), rich("C")), v.o)
		add(v.d+": nested named like a top-level message", file("dir/foo.proto", "t", nest("A", rich("B")), rich("B")), v.o)
		add(v.d+": same nested name in one parent's children", file("dir/foo.proto", "t", nest("A", nest("B", rich("X")), nest("C", rich("X")))), v.o)
		add(v.d+": message named like the file", file("dir/foo.proto", "t", rich("Foo")), v.o)
		ig := rich("Gone")
		ig.Ignored = true
		off := rich("Off")
		off.Disabled = true
		add(v.d+": ignored and disabled", file("dir/foo.proto", "t", ig, off, rich("A")), v.o)
		en := rich("A")
		en.Enums = []*scen.Enum{{Name: "NE", Values: []scen.EnumVal{{"NE_ZERO", 0}, {"NE_ONE", 1}}}}
		for i, how := range []R{{"const": 1}, {"in": I{0, 1}}, {"not_in": I{1}}, {"defined_only": true}} {
			for j, ty := range []string{".t.A.NE", ".t.TE", ".d.DE"} {
				n := fmt.Sprintf("e%d_%d", i, j)
				en.Fields = append(en.Fields, &scen.Field{Name: n, Kind: "enum", Type: ty, Rules: R{"enum": how}},
					&scen.Field{Name: n + "_list", Kind: "enum", Type: ty, Repeated: true, Rules: R{"repeated": R{"unique": true, "items": R{"enum": how}}}},
					&scen.Field{Name: n + "_map", Kind: "enum", Type: ty, MapKey: "string", Rules: R{"map": R{"values": R{"enum": how}}}})
			}
		}
		f := file("dir/foo.proto", "t", en)
		f.Enums = []*scen.Enum{{Name: "TE", Values: []scen.EnumVal{{"TE_ZERO", 0}, {"TE_ONE", 1}}}}
		d := file("d/d.proto", "d")
		d.Enums = []*scen.Enum{{Name: "DE", Values: []scen.EnumVal{{"DE_ZERO", 0}, {"DE_ONE", 1}}}}
		d.Options = v.o
		f.Deps = []*scen.File{d}
		add(v.d+": enums here, nested and elsewhere", f, v.o)
	}
	add("no package", file("dir/foo.proto", "", rich("A")), nil)
	for _, n := range []string{"foo_bar.proto", "foo-bar.proto", "foo1bar.proto", "fooBar.proto", "HTTP.proto", "foo.v1.proto", "1foo.proto"} {
		add("file "+n, file("x/"+n, "t", rich("A"), nest("B", rich("C"))), nil)
	}
	return out
}

// CCPrograms are naming shapes that matter to C++ code.
func CCPrograms(full bool) []*Program {
	var out []*Program
	add := func(desc string, f *scen.File) { out = append(out, &Program{Desc: "c++ " + desc, Root: f}) }
	file := func(name, pkg string, ms ...*scen.Msg) *scen.File {
		return &scen.File{Name: name, Package: pkg, GoPackage: "example.com/t;t", Msgs: ms}
	}
	nest := func(name string, in ...*scen.Msg) *scen.Msg {
		m := rich(name)
		m.Nested = in
		return m
	}
	for _, p := range []string{"", "foo_bar", "fooBar", "FooBar", "foo_bar.baz_qux", "a.b.c.d", "foo1.v1beta1", "foo.v1_2", "FOO.Bar", "string", "foo._x", "foo.class"} {
		add("package "+p, file("dir/foo.proto", p, nest("A", rich("B")), rich("C")))
	}
	kw := []string{"class", "private", "delete", "new", "operator", "template", "int", "double", "namespace", "const", "inline", "static", "typename", "this", "union", "virtual", "void", "while", "default", "switch", "case", "register", "and", "or", "not", "xor", "public", "protected", "friend", "explicit", "enum", "struct", "export", "extern", "goto", "mutable", "signed", "unsigned", "volatile", "auto", "typedef", "try", "catch", "throw", "using", "NULL", "nullptr", "thread_local", "constexpr", "bitor", "Upper", "mIxed", "UPPER_CASE", "a1b", "a__b", "_a"}
	x := &scen.Msg{Name: "M"}
	in := &scen.Msg{Name: "N"}
	o := &scen.Oneof{Name: "pick", Required: true}
	y := &scen.Msg{Name: "O", Oneofs: []*scen.Oneof{o}}
	for _, k := range kw {
		x.Fields = append(x.Fields, &scen.Field{Name: k, Kind: "string", Rules: R{"string": R{"in": I{"a"}, "prefix": "a"}}})
		in.Fields = append(in.Fields, &scen.Field{Name: k, Kind: "message", Type: ".google.protobuf.StringValue", Rules: R{"string": R{"min_len": 1}, "message": R{"required": true}}})
		o.Fields = append(o.Fields, &scen.Field{Name: k, Kind: "string", Rules: R{"string": R{"in": I{"a"}, "prefix": "a"}}})
	}
	add("fields named like keywords", file("dir/foo.proto", "t", x))
	add("message fields named like keywords", file("dir/foo.proto", "t", in))
	add("members named like keywords", file("dir/foo.proto", "t", y))
	z := &scen.Msg{Name: "P"}
	for i, k := range []string{"Upper", "mIxed", "UPPER_CASE", "a1b", "a__b", "_a", "a1_b", "a_1"} {
		z.Oneofs = append(z.Oneofs, &scen.Oneof{Name: k, Required: true, Fields: []*scen.Field{{Name: fmt.Sprintf("zz%d", i), Kind: "string", Rules: R{"string": R{"in": I{"a"}}}}}})
	}
	add("oneofs of many spellings", file("dir/foo.proto", "t", z))
	for _, k := range []string{"class", "private", "delete", "int", "const", "union", "std", "google"} {
		e := &scen.Enum{Name: "N_" + k, Values: []scen.EnumVal{{"Z_" + k, 0}}}
		m := nest(k, rich("In"))
		m.Enums = []*scen.Enum{e}
		m.Fields = append(m.Fields, &scen.Field{Name: "e", Kind: "enum", Type: ".t." + k + ".N_" + k, Rules: R{"enum": R{"defined_only": true, "in": I{0}}}}, &scen.Field{Name: "self", Kind: "message", Type: ".t." + k})
		add("message named "+k, file("dir/foo.proto", "t", m))
	}
	add("file whose name has several dots", file("dir/a.b.c.proto", "t", rich("A")))
	return out
}
