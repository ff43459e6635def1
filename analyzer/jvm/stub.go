package jvm

import (
	"fmt"
	"strings"

	"google.golang.org/protobuf/types/descriptorpb"

	"verif/analyzer/scen"
)

// Access is what a method of a generated message class does.
type Access struct {
	Op    string // get, has, list, map, case
	Field *scen.Field
	Oneof *scen.Oneof
	Owner string // fully qualified message
}

// Stubs are the message classes protoc generates for a schema.
type Stubs struct {
	Sources []Source
	Class   map[string]string // fully qualified proto name -> binary class name
	Proto   map[string]string // and back
	Method  map[string]Access // class.method(sig)
	Enums   map[string]*scen.Enum
	Proto2  map[string]bool // enum fq declared in a proto2 file
	src     map[string]string
}

// Camel is protoc's Java naming of fields.
func Camel(s string, first bool) string {
	var b strings.Builder
	up := first
	for i, c := range s {
		switch {
		case c >= 'a' && c <= 'z':
			if up {
				c -= 'a' - 'A'
			}
			b.WriteRune(c)
			up = false
		case c >= 'A' && c <= 'Z':
			if i == 0 && !up {
				c += 'a' - 'A'
			}
			b.WriteRune(c)
			up = false
		case c >= '0' && c <= '9':
			b.WriteRune(c)
			up = true
		default:
			up = true
		}
	}
	return b.String()
}

// fieldName applies protoc's treatment of names that clash with inherited
// methods.
func fieldName(f string) string {
	n := Camel(f, true)
	switch strings.ToLower(f[:1]) + f[1:] {
	case "cached_size", "serialized_size", "class":
		return n + "_"
	}
	return n
}

// OuterClass is protoc's name of the class of a file.
func OuterClass(f *scen.File) string {
	o := options(f)
	if o.JavaOuterClassname != nil {
		return o.GetJavaOuterClassname()
	}
	base := f.Name
	if i := strings.LastIndex(base, "/"); i >= 0 {
		base = base[i+1:]
	}
	base = strings.TrimSuffix(base, ".proto")
	n := Camel(base, true)
	clash := false
	var msgs func(ms []*scen.Msg)
	msgs = func(ms []*scen.Msg) {
		for _, m := range ms {
			clash = clash || m.Name == n
			for _, e := range m.Enums {
				clash = clash || e.Name == n
			}
			msgs(m.Nested)
		}
	}
	msgs(f.Msgs)
	for _, e := range f.Enums {
		clash = clash || e.Name == n
	}
	if clash {
		n += "OuterClass"
	}
	return n
}

func options(f *scen.File) *descriptorpb.FileOptions {
	o := &descriptorpb.FileOptions{}
	if f.Options != nil {
		f.Options(o)
	}
	return o
}

// Package is the Java package of a file.
func Package(f *scen.File) string {
	if o := options(f); o.JavaPackage != nil {
		return o.GetJavaPackage()
	}
	return f.Package
}

// MakeStubs declares the classes of a file and its dependencies.
func MakeStubs(f *scen.File) *Stubs {
	s := &Stubs{Class: map[string]string{}, Proto: map[string]string{}, Method: map[string]Access{}, Enums: map[string]*scen.Enum{}, Proto2: map[string]bool{}, src: map[string]string{}}
	for k, v := range map[string]string{"Duration": "", "Timestamp": "", "Any": "", "DoubleValue": "", "FloatValue": "", "Int64Value": "", "UInt64Value": "", "Int32Value": "", "UInt32Value": "", "BoolValue": "", "StringValue": "", "BytesValue": ""} {
		s.Class[".google.protobuf."+k] = "com.google.protobuf." + k + v
		s.src[".google.protobuf."+k] = "com.google.protobuf." + k + v
	}
	seen := map[string]bool{}
	var names func(f *scen.File)
	var files []*scen.File
	names = func(f *scen.File) {
		if seen[f.Name] {
			return
		}
		seen[f.Name] = true
		for _, d := range f.Deps {
			names(d)
		}
		files = append(files, f)
		s.names(f)
	}
	names(f)
	for _, f := range files {
		s.file(f)
	}
	return s
}

func (s *Stubs) names(f *scen.File) {
	pkg := Package(f)
	pre, bin := "", ""
	if pkg != "" {
		pre, bin = pkg+".", pkg+"."
	}
	if !options(f).GetJavaMultipleFiles() {
		pre += OuterClass(f) + "."
		bin += OuterClass(f) + "$"
	}
	fq := "."
	if f.Package != "" {
		fq += f.Package + "."
	}
	put := func(fq, src, bin string) {
		s.src[fq], s.Class[fq], s.Proto[bin] = src, bin, fq
	}
	var msg func(fq, src, bin string, m *scen.Msg)
	msg = func(fq, src, bin string, m *scen.Msg) {
		put(fq+m.Name, src+m.Name, bin+m.Name)
		for _, e := range m.Enums {
			put(fq+m.Name+"."+e.Name, src+m.Name+"."+e.Name, bin+m.Name+"$"+e.Name)
			s.Enums[fq+m.Name+"."+e.Name] = e
			s.Proto2[fq+m.Name+"."+e.Name] = f.Proto2
		}
		for _, n := range m.Nested {
			msg(fq+m.Name+".", src+m.Name+".", bin+m.Name+"$", n)
		}
	}
	for _, m := range f.Msgs {
		msg(fq, pre, bin, m)
	}
	for _, e := range f.Enums {
		put(fq+e.Name, pre+e.Name, bin+e.Name)
		s.Enums[fq+e.Name] = e
		s.Proto2[fq+e.Name] = f.Proto2
	}
}

func (s *Stubs) file(f *scen.File) {
	pkg := Package(f)
	head := ""
	dir := ""
	if pkg != "" {
		head = "package " + pkg + ";\n"
		dir = strings.ReplaceAll(pkg, ".", "/") + "/"
	}
	fq := "."
	if f.Package != "" {
		fq += f.Package + "."
	}
	if options(f).GetJavaMultipleFiles() {
		for _, m := range f.Msgs {
			var b strings.Builder
			s.msg(&b, fq, m, false)
			s.Sources = append(s.Sources, Source{dir + m.Name + ".java", head + b.String(), false})
		}
		for _, e := range f.Enums {
			var b strings.Builder
			s.enum(&b, e, f.Proto2, false)
			s.Sources = append(s.Sources, Source{dir + e.Name + ".java", head + b.String(), false})
		}
		n := OuterClass(f)
		s.Sources = append(s.Sources, Source{dir + n + ".java", head + "public final class " + n + " { }\n", false})
		return
	}
	var b strings.Builder
	n := OuterClass(f)
	fmt.Fprintf(&b, "%spublic final class %s {\n", head, n)
	for _, m := range f.Msgs {
		s.msg(&b, fq, m, true)
	}
	for _, e := range f.Enums {
		s.enum(&b, e, f.Proto2, true)
	}
	b.WriteString("}\n")
	s.Sources = append(s.Sources, Source{dir + n + ".java", b.String(), false})
}

func static(nested bool) string {
	if nested {
		return "public static "
	}
	return "public "
}

func (s *Stubs) enum(b *strings.Builder, e *scen.Enum, proto2, nested bool) {
	fmt.Fprintf(b, "%senum %s implements com.google.protobuf.ProtocolMessageEnum {\n", static(nested), e.Name)
	first := map[int32]string{}
	var alias []string
	for _, v := range e.Values {
		if o, ok := first[v.Num]; ok {
			alias = append(alias, fmt.Sprintf("  public static final %s %s = %s;\n", e.Name, v.Name, o))
			continue
		}
		first[v.Num] = v.Name
		fmt.Fprintf(b, "  %s(%d),\n", v.Name, v.Num)
	}
	if !proto2 {
		b.WriteString("  UNRECOGNIZED(-1),\n")
	}
	b.WriteString("  ;\n" + strings.Join(alias, ""))
	fmt.Fprintf(b, "  private final int n; %s(int n) { this.n = n; }\n  public native int getNumber();\n  public static native %s forNumber(int n);\n  @java.lang.Deprecated public static native %s valueOf(int n);\n}\n", e.Name, e.Name, e.Name)
}

var prim = map[string][2]string{
	"double": {"double", "java.lang.Double"}, "float": {"float", "java.lang.Float"}, "bool": {"boolean", "java.lang.Boolean"},
	"int64": {"long", "java.lang.Long"}, "uint64": {"long", "java.lang.Long"}, "sint64": {"long", "java.lang.Long"}, "fixed64": {"long", "java.lang.Long"}, "sfixed64": {"long", "java.lang.Long"},
	"int32": {"int", "java.lang.Integer"}, "uint32": {"int", "java.lang.Integer"}, "sint32": {"int", "java.lang.Integer"}, "fixed32": {"int", "java.lang.Integer"}, "sfixed32": {"int", "java.lang.Integer"},
	"string": {"java.lang.String", "java.lang.String"}, "bytes": {"com.google.protobuf.ByteString", "com.google.protobuf.ByteString"},
}

func (s *Stubs) typ(kind, typ string, box bool) string {
	if p, ok := prim[kind]; ok {
		if box {
			return p[1]
		}
		return p[0]
	}
	return s.src[typ]
}

func (s *Stubs) msg(b *strings.Builder, fq string, m *scen.Msg, nested bool) {
	fq += m.Name
	cls := s.Class[fq]
	fmt.Fprintf(b, "%sfinal class %s extends com.google.protobuf.GeneratedMessageV3 {\n", static(nested), m.Name)
	add := func(ret, name string, a Access) {
		a.Owner = fq
		fmt.Fprintf(b, "  public native %s %s();\n", ret, name)
		s.Method[cls+"."+name+"()"] = a
	}
	field := func(f *scen.Field, oneof bool) {
		n := fieldName(f.Name)
		switch {
		case f.MapKey != "":
			t := fmt.Sprintf("java.util.Map<%s, %s>", s.typ(f.MapKey, "", true), s.typ(f.Kind, f.Type, true))
			add(t, "get"+n+"Map", Access{Op: "map", Field: f})
			fmt.Fprintf(b, "  @java.lang.Deprecated public native %s get%s();\n  public native int get%sCount();\n", t, n, n)
			s.Method[cls+".get"+n+"()"] = Access{Op: "map", Field: f, Owner: fq}
			s.Method[cls+".get"+n+"Count()"] = Access{Op: "count", Field: f, Owner: fq}
		case f.Repeated:
			add(fmt.Sprintf("java.util.List<%s>", s.typ(f.Kind, f.Type, true)), "get"+n+"List", Access{Op: "list", Field: f})
			add("int", "get"+n+"Count", Access{Op: "count", Field: f})
			fmt.Fprintf(b, "  public native %s get%s(int i);\n", s.typ(f.Kind, f.Type, false), n)
			s.Method[cls+".get"+n+"(int)"] = Access{Op: "at", Field: f, Owner: fq}
		default:
			add(s.typ(f.Kind, f.Type, false), "get"+n, Access{Op: "get", Field: f})
			if f.Kind == "message" || oneof {
				add("boolean", "has"+n, Access{Op: "has", Field: f})
			}
			if f.Kind == "enum" {
				add("int", "get"+n+"Value", Access{Op: "num", Field: f})
			}
			if f.Kind == "string" {
				add("com.google.protobuf.ByteString", "get"+n+"Bytes", Access{Op: "bytes", Field: f})
			}
		}
	}
	for _, f := range m.Fields {
		field(f, false)
	}
	for _, o := range m.Oneofs {
		for _, f := range o.Fields {
			field(f, true)
		}
		n := Camel(o.Name, true)
		fmt.Fprintf(b, "  public enum %sCase {\n", n)
		for _, f := range o.Fields {
			fmt.Fprintf(b, "    %s, ", strings.ToUpper(f.Name))
		}
		fmt.Fprintf(b, "%s_NOT_SET;\n", strings.ToUpper(strings.ReplaceAll(n, "_", "")))
		fmt.Fprintf(b, "    public native int getNumber();\n  }\n")
		add(n+"Case", "get"+n+"Case", Access{Op: "case", Oneof: o})
	}
	for _, x := range m.Nested {
		s.msg(b, fq+".", x, true)
	}
	for _, e := range m.Enums {
		s.enum(b, e, s.Proto2[fq+"."+e.Name], true)
	}
	b.WriteString("}\n")
}
