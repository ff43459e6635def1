package golang

import (
	"fmt"
	"strings"

	"verif/analyzer/scen"
)

// CamelCase is protoc-gen-go's naming of fields and types.
func CamelCase(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '.' && i+1 < len(s) && isLower(s[i+1]):
		case c == '.':
			b = append(b, '_')
		case c == '_' && (i == 0 || s[i-1] == '.'):
			b = append(b, 'X')
		case c == '_' && i+1 < len(s) && isLower(s[i+1]):
		case isDigit(c):
			b = append(b, c)
		default:
			if isLower(c) {
				c -= 'a' - 'A'
			}
			b = append(b, c)
			for ; i+1 < len(s) && isLower(s[i+1]); i++ {
				b = append(b, s[i+1])
			}
		}
	}
	return string(b)
}

// child is the Go name of a type nested in another.
func child(parent, name string) string {
	if name != "" && isLower(name[0]) {
		return parent + CamelCase(name)
	}
	return parent + "_" + CamelCase(name)
}

func isLower(c byte) bool { return 'a' <= c && c <= 'z' }
func isDigit(c byte) bool { return '0' <= c && c <= '9' }

var scalarGo = map[string]string{
	"double": "float64", "float": "float32", "int64": "int64", "uint64": "uint64", "int32": "int32", "fixed64": "uint64",
	"fixed32": "uint32", "bool": "bool", "string": "string", "bytes": "[]byte", "uint32": "uint32", "sfixed32": "int32",
	"sfixed64": "int64", "sint32": "int32", "sint64": "int64",
}

var wkt = map[string][2]string{
	".google.protobuf.Any":       {"anypb", "Any"},
	".google.protobuf.Duration":  {"durationpb", "Duration"},
	".google.protobuf.Timestamp": {"timestamppb", "Timestamp"},
}

func init() {
	for _, n := range []string{"Double", "Float", "Int64", "UInt64", "Int32", "UInt32", "Bool", "String", "Bytes"} {
		wkt[".google.protobuf."+n+"Value"] = [2]string{"wrapperspb", n + "Value"}
	}
}

// GoPkg gives the import path and package name of a schema file.
func GoPkg(f *scen.File) (path, name string) {
	gp := f.GoPackage
	if i := strings.LastIndex(gp, ";"); i >= 0 {
		return gp[:i], gp[i+1:]
	}
	if i := strings.LastIndex(gp, "/"); i >= 0 {
		return gp, gp[i+1:]
	}
	return gp, gp
}

type stubber struct {
	b       *strings.Builder
	f       *scen.File
	imports map[string]string // path -> alias
	types   map[string][2]string
	owner   map[string]*scen.File
	methods bool // declare the validation methods of an already generated file
}

func (s *stubber) collect(f *scen.File) {
	path, _ := GoPkg(f)
	pre := ""
	if f.Package != "" {
		pre = "." + f.Package
	}
	for _, e := range f.Enums {
		s.types[pre+"."+e.Name] = [2]string{path, CamelCase(e.Name)}
	}
	var rec func(fq, goName string, m *scen.Msg)
	rec = func(fq, goName string, m *scen.Msg) {
		s.types[fq] = [2]string{path, goName}
		for _, e := range m.Enums {
			s.types[fq+"."+e.Name] = [2]string{path, child(goName, e.Name)}
		}
		for _, n := range m.Nested {
			rec(fq+"."+n.Name, child(goName, n.Name), n)
		}
	}
	for _, m := range f.Msgs {
		rec(pre+"."+m.Name, CamelCase(m.Name), m)
	}
	for _, d := range f.Deps {
		s.collect(d)
	}
}

func (s *stubber) typ(name string) string {
	if w, ok := wkt[name]; ok {
		s.imports["google.golang.org/protobuf/types/known/"+w[0]] = w[0]
		return w[0] + "." + w[1]
	}
	t, ok := s.types[name]
	if !ok {
		panic("unknown type " + name)
	}
	own, _ := GoPkg(s.f)
	if t[0] == own {
		return t[1]
	}
	alias := "x" + strings.NewReplacer("/", "_", ".", "_", "-", "_").Replace(t[0])
	s.imports[t[0]] = alias
	return alias + "." + t[1]
}

func (s *stubber) base(kind, tn string) string {
	switch kind {
	case "message":
		return "*" + s.typ(tn)
	case "enum":
		return s.typ(tn)
	}
	return scalarGo[kind]
}

func (s *stubber) goType(x *scen.Field) string {
	t := s.base(x.Kind, x.Type)
	if x.MapKey != "" {
		return "map[" + scalarGo[x.MapKey] + "]" + t
	}
	if x.Repeated {
		return "[]" + t
	}
	return t
}

func zeroOf(t string) string {
	switch {
	case strings.HasPrefix(t, "*"), strings.HasPrefix(t, "["), strings.HasPrefix(t, "map["):
		return "nil"
	case t == "string":
		return `""`
	case t == "bool":
		return "false"
	}
	return "0"
}

// Stub synthesises the message types protoc-gen-go declares for f.
// With methods set the validation methods exist as well.
func Stub(f *scen.File, methods bool) string {
	s := &stubber{methods: methods, b: &strings.Builder{}, f: f, imports: map[string]string{}, types: map[string][2]string{}}
	s.collect(f)
	var body strings.Builder
	s.b = &body
	for _, e := range f.Enums {
		s.enum(CamelCase(e.Name), e)
	}
	for _, m := range f.Msgs {
		s.msg(CamelCase(m.Name), m)
	}
	var out strings.Builder
	_, name := GoPkg(f)
	fmt.Fprintf(&out, "package %s\n\n", name)
	for p, a := range s.imports {
		fmt.Fprintf(&out, "import %s %q\n", a, p)
	}
	out.WriteString(body.String())
	return out.String()
}

func (s *stubber) enum(goName string, e *scen.Enum) {
	fmt.Fprintf(s.b, "type %s int32\n\nvar %s_name = map[int32]string{\n", goName, goName)
	seen := map[int32]bool{}
	for _, v := range e.Values {
		if !seen[v.Num] {
			fmt.Fprintf(s.b, "\t%d: %q,\n", v.Num, v.Name)
			seen[v.Num] = true
		}
	}
	fmt.Fprintf(s.b, "}\n\nvar %s_value = map[string]int32{\n", goName)
	for _, v := range e.Values {
		fmt.Fprintf(s.b, "\t%q: %d,\n", v.Name, v.Num)
	}
	fmt.Fprintf(s.b, "}\n\nfunc (x %s) String() string { return %s_name[int32(x)] }\n\n", goName, goName)
}

func (s *stubber) msg(goName string, m *scen.Msg) {
	used := map[string]bool{"Reset": true, "String": true, "ProtoMessage": true, "Marshal": true, "Unmarshal": true, "ExtensionRangeArray": true, "ExtensionMap": true, "Descriptor": true}
	pick := func(n string) string {
		for used[n] || used["Get"+n] {
			n += "_"
		}
		used[n], used["Get"+n] = true, true
		return n
	}
	type fld struct {
		x    *scen.Field
		name string
		oo   string
	}
	var fs []fld
	fmt.Fprintf(s.b, "type %s struct {\n", goName)
	for _, x := range m.Fields {
		n := pick(CamelCase(x.Name))
		t := s.goType(x)
		if (x.Optional || s.f.Proto2) && zeroOf(t) != "nil" {
			t = "*" + t
		}
		fmt.Fprintf(s.b, "\t%s %s\n", n, t)
		fs = append(fs, fld{x, n, ""})
	}
	oneofs := map[*scen.Oneof]string{}
	for _, o := range m.Oneofs {
		var on string
		for i, x := range o.Fields {
			n := pick(CamelCase(x.Name))
			if i == 0 {
				// the getter of the oneof is not considered, for historical reasons
				on = CamelCase(o.Name)
				for used[on] {
					on += "_"
				}
				used[on] = true
				oneofs[o] = on
			}
			fs = append(fs, fld{x, n, on})
		}
		fmt.Fprintf(s.b, "\t%s is%s_%s\n", on, goName, on)
	}
	s.b.WriteString("}\n\n")
	fmt.Fprintf(s.b, "func (x *%s) Reset() {}\nfunc (x *%s) String() string { return \"\" }\nfunc (*%s) ProtoMessage() {}\n", goName, goName, goName)
	nested := map[string]bool{}
	for _, n := range m.Nested {
		nested[child(goName, n.Name)] = true
	}
	for _, e := range m.Enums {
		nested[child(goName, e.Name)] = true
	}
	for _, o := range m.Oneofs {
		on := oneofs[o]
		fmt.Fprintf(s.b, "type is%s_%s interface{ is%s_%s() }\n", goName, on, goName, on)
		fmt.Fprintf(s.b, "func (x *%s) Get%s() is%s_%s { if x != nil { return x.%s }; return nil }\n", goName, on, goName, on, on)
	}
	for _, f := range fs {
		t := s.goType(f.x)
		z := zeroOf(t)
		if f.oo == "" {
			if (f.x.Optional || s.f.Proto2) && z != "nil" {
				fmt.Fprintf(s.b, "func (x *%s) Get%s() %s { if x != nil && x.%s != nil { return *x.%s }; return %s }\n", goName, f.name, t, f.name, f.name, z)
				continue
			}
			fmt.Fprintf(s.b, "func (x *%s) Get%s() %s { if x != nil { return x.%s }; return %s }\n", goName, f.name, t, f.name, z)
			continue
		}
		wn := goName + "_" + f.name
		for nested[wn] {
			wn += "_"
		}
		fmt.Fprintf(s.b, "type %s struct { %s %s }\nfunc (*%s) is%s_%s() {}\n", wn, f.name, t, wn, goName, f.oo)
		fmt.Fprintf(s.b, "func (x *%s) Get%s() %s { if w, ok := x.Get%s().(*%s); ok { return w.%s }; return %s }\n", goName, f.name, t, f.oo, wn, f.name, z)
	}
	if s.methods && m.GoMethods != "none" {
		fmt.Fprintf(s.b, "func (m *%s) Validate() error { return nil }\n", goName)
		if m.GoMethods != "validate" {
			fmt.Fprintf(s.b, "func (m *%s) ValidateAll() error { return nil }\n", goName)
		}
	}
	s.b.WriteString("\n")
	for _, e := range m.Enums {
		s.enum(child(goName, e.Name), e)
	}
	for _, n := range m.Nested {
		s.msg(child(goName, n.Name), n)
	}
}
