// Package scen builds abstract schemas: protobuf files whose validation rules
// carry symbolic bounds, and feeds them to the plugin's own source.
package scen

import (
	"fmt"
	"strings"

	pgs "github.com/lyft/protoc-gen-star"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/protobuf/types/known/wrapperspb"
)

type File struct {
	Name      string // path, e.g. "dir/foo.proto"
	Package   string
	GoPackage string
	Proto2    bool
	Msgs      []*Msg
	Enums     []*Enum
	Deps      []*File
	Options   func(*descriptorpb.FileOptions)
	Imports   []string // further imports, made empty files when unknown
}

type Enum struct {
	Name   string
	Values []EnumVal
}
type EnumVal struct {
	Name string
	Num  int32
}

type Msg struct {
	Name     string
	Fields   []*Field
	Oneofs   []*Oneof
	Nested   []*Msg
	Enums    []*Enum
	Disabled interface{} // nil: option absent; bool or abstract value
	Ignored  interface{}
	// GoMethods says which validation methods the Go type of a message in
	// another file has: "" both, "validate" only Validate, "none".
	GoMethods string
}

type Oneof struct {
	Name     string
	Required interface{}
	Fields   []*Field
}

type Field struct {
	Name     string
	Kind     string // scalar kind name, "enum", "message"
	Type     string // fully qualified enum/message name (leading dot)
	Repeated bool
	MapKey   string // when set the field is a map<MapKey, Kind/Type>
	Optional bool
	Rules    R // nil: no rules
}

var kinds = map[string]descriptorpb.FieldDescriptorProto_Type{
	"double": 1, "float": 2, "int64": 3, "uint64": 4, "int32": 5, "fixed64": 6, "fixed32": 7, "bool": 8, "string": 9,
	"message": 11, "bytes": 12, "uint32": 13, "enum": 14, "sfixed32": 15, "sfixed64": 16, "sint32": 17, "sint64": 18,
}

// Built is a schema turned into descriptor entities.
type Built struct {
	File    *File
	AST     pgs.AST
	PFile   pgs.File
	FDS     *descriptorpb.FileDescriptorSet
	Fields  map[string]*Field // by ".pkg.Msg.field"
	Msgs    map[string]*Msg
	Oneofs  map[string]*Oneof
	AllMsgs []string
	Decl    map[string]*File
}

func upperCamel(s string) string {
	var b strings.Builder
	up := true
	for _, r := range s {
		if r == '_' {
			up = true
			continue
		}
		if up {
			b.WriteString(strings.ToUpper(string(r)))
			up = false
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

func (f *File) fd(b *Built) *descriptorpb.FileDescriptorProto {
	d := &descriptorpb.FileDescriptorProto{
		Name:    proto.String(f.Name),
		Package: proto.String(f.Package),
		Syntax:  proto.String("proto3"),
		Options: &descriptorpb.FileOptions{},
	}
	if f.Proto2 {
		d.Syntax = nil
	}
	if f.GoPackage != "" {
		d.Options.GoPackage = proto.String(f.GoPackage)
	}
	if f.Options != nil {
		f.Options(d.Options)
	}
	for _, x := range f.Deps {
		d.Dependency = append(d.Dependency, x.Name)
	}
	d.Dependency = append(d.Dependency, f.Imports...)
	d.Dependency = append(d.Dependency, "google/protobuf/wrappers.proto", "google/protobuf/any.proto", "google/protobuf/duration.proto", "google/protobuf/timestamp.proto")
	for _, e := range f.Enums {
		d.EnumType = append(d.EnumType, e.ed())
	}
	pre := ""
	if f.Package != "" {
		pre = "." + f.Package
	}
	for _, m := range f.Msgs {
		d.MessageType = append(d.MessageType, m.md(pre, f, b))
	}
	return d
}

func (e *Enum) ed() *descriptorpb.EnumDescriptorProto {
	d := &descriptorpb.EnumDescriptorProto{Name: proto.String(e.Name)}
	for _, v := range e.Values {
		d.Value = append(d.Value, &descriptorpb.EnumValueDescriptorProto{Name: proto.String(v.Name), Number: proto.Int32(v.Num)})
	}
	return d
}

func (m *Msg) md(pre string, f *File, b *Built) *descriptorpb.DescriptorProto {
	fq := pre + "." + m.Name
	b.Msgs[fq] = m
	b.Decl[fq] = f
	b.AllMsgs = append(b.AllMsgs, fq)
	d := &descriptorpb.DescriptorProto{Name: proto.String(m.Name), Options: &descriptorpb.MessageOptions{}}
	num := int32(0)
	var syn []*descriptorpb.OneofDescriptorProto
	add := func(x *Field, oo int32) {
		num++
		b.Fields[fq+"."+x.Name] = x
		fd := &descriptorpb.FieldDescriptorProto{
			Name: proto.String(x.Name), Number: proto.Int32(num), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(),
			Type: kinds[x.Kind].Enum(), JsonName: proto.String(x.Name), Options: &descriptorpb.FieldOptions{},
		}
		if kinds[x.Kind] == 0 {
			panic("unknown kind " + x.Kind)
		}
		if x.Type != "" {
			fd.TypeName = proto.String(x.Type)
		}
		if oo >= 0 {
			fd.OneofIndex = proto.Int32(oo)
		}
		if x.Optional {
			fd.Proto3Optional = proto.Bool(true)
			fd.OneofIndex = proto.Int32(int32(len(m.Oneofs) + len(syn)))
			syn = append(syn, &descriptorpb.OneofDescriptorProto{Name: proto.String("_" + x.Name)})
		}
		if x.MapKey != "" {
			en := upperCamel(x.Name) + "Entry"
			v := &descriptorpb.FieldDescriptorProto{Name: proto.String("value"), Number: proto.Int32(2), Label: fd.Label, Type: fd.Type, TypeName: fd.TypeName, JsonName: proto.String("value")}
			k := &descriptorpb.FieldDescriptorProto{Name: proto.String("key"), Number: proto.Int32(1), Label: fd.Label, Type: kinds[x.MapKey].Enum(), JsonName: proto.String("key")}
			d.NestedType = append(d.NestedType, &descriptorpb.DescriptorProto{Name: proto.String(en), Field: []*descriptorpb.FieldDescriptorProto{k, v}, Options: &descriptorpb.MessageOptions{MapEntry: proto.Bool(true)}})
			fd.Type = kinds["message"].Enum()
			fd.TypeName = proto.String(fq + "." + en)
			fd.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
		} else if x.Repeated {
			fd.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
		}
		d.Field = append(d.Field, fd)
	}
	for _, x := range m.Fields {
		add(x, -1)
	}
	for i, o := range m.Oneofs {
		d.OneofDecl = append(d.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: proto.String(o.Name), Options: &descriptorpb.OneofOptions{}})
		b.Oneofs[fq+"."+o.Name] = o
		for _, x := range o.Fields {
			add(x, int32(i))
		}
	}
	d.OneofDecl = append(d.OneofDecl, syn...)
	for _, n := range m.Nested {
		d.NestedType = append(d.NestedType, n.md(fq, f, b))
	}
	for _, e := range m.Enums {
		d.EnumType = append(d.EnumType, e.ed())
	}
	return d
}

// Build makes descriptor entities of f.
func Build(f *File) (b *Built, err error) {
	b = &Built{File: f, Fields: map[string]*Field{}, Msgs: map[string]*Msg{}, Oneofs: map[string]*Oneof{}, Decl: map[string]*File{}}
	fds := &descriptorpb.FileDescriptorSet{}
	dp := descriptorpb.File_google_protobuf_descriptor_proto
	fds.File = append(fds.File, protodesc.ToFileDescriptorProto(dp),
		protodesc.ToFileDescriptorProto(wrapperspb.File_google_protobuf_wrappers_proto),
		protodesc.ToFileDescriptorProto(anypb.File_google_protobuf_any_proto),
		protodesc.ToFileDescriptorProto(durationpb.File_google_protobuf_duration_proto),
		protodesc.ToFileDescriptorProto(timestamppb.File_google_protobuf_timestamp_proto))
	seen := map[string]bool{}
	var addf func(x *File)
	addf = func(x *File) {
		if seen[x.Name] {
			return
		}
		seen[x.Name] = true
		for _, d := range x.Deps {
			addf(d)
		}
		for _, n := range x.Imports {
			if !seen[n] {
				seen[n] = true
				fds.File = append(fds.File, &descriptorpb.FileDescriptorProto{Name: proto.String(n), Package: proto.String("validate"), Syntax: proto.String("proto2"),
					Options: &descriptorpb.FileOptions{GoPackage: proto.String("github.com/envoyproxy/protoc-gen-validate/validate"), JavaPackage: proto.String("io.envoyproxy.pgv.validate")}})
			}
		}
		fds.File = append(fds.File, x.fd(b))
	}
	addf(f)
	b.FDS = fds
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("schema %s rejected by the descriptor library: %v", f.Name, r)
		}
	}()
	dbg := pgs.InitMockDebugger()
	b.AST = pgs.ProcessFileDescriptorSet(dbg, fds)
	if dbg.Failed() {
		return nil, fmt.Errorf("schema %s rejected by the descriptor library", f.Name)
	}
	e, ok := b.AST.Lookup(f.Name)
	if !ok {
		return nil, fmt.Errorf("file %s missing", f.Name)
	}
	b.PFile = e.(pgs.File)
	return b, nil
}

// PFileOf finds an entity for a dependency file.
func (b *Built) PFileOf(name string) pgs.File {
	e, ok := b.AST.Lookup(name)
	if !ok {
		return nil
	}
	return e.(pgs.File)
}
