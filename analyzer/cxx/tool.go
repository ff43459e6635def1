// Package cxx analyses the C++ code the plugin emits: clang parses and
// type-checks it next to the message classes protoc writes for the schema and
// the runtime header of the tree, and the typed syntax trees of its validation
// functions are abstractly evaluated.  No C++ code is run.
package cxx

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync/atomic"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
)

// preamble are the library headers generated code includes.
const preamble = `
#include <google/protobuf/message.h>
#include <google/protobuf/util/time_util.h>
#include <google/protobuf/wrappers.pb.h>
#include <google/protobuf/any.pb.h>
#include <google/protobuf/duration.pb.h>
#include <google/protobuf/timestamp.pb.h>
#include <google/protobuf/descriptor.pb.h>
#include <google/protobuf/generated_enum_reflection.h>
#include <google/protobuf/map.h>
#include <google/protobuf/map_entry.h>
#include <google/protobuf/map_field_inl.h>
#include <google/protobuf/unknown_field_set.h>
#include <google/protobuf/stubs/strutil.h>
#include "re2/re2.h"
#include <algorithm>
#include <functional>
#include <regex>
#include <stdexcept>
#include <string>
#include <sstream>
#include <typeinfo>
#include <typeindex>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <set>
#include <arpa/inet.h>
`

// Tool holds the precompiled library headers.
type Tool struct {
	dir, repo string
	n         int32
}

// Start precompiles the library headers.
func Start(repo string) (*Tool, error) {
	dir, err := os.MkdirTemp("", "verif-cxx")
	if err != nil {
		return nil, err
	}
	t := &Tool{dir: dir, repo: repo}
	os.MkdirAll(dir+"/base", 0o755)
	os.WriteFile(dir+"/base/pre.h", []byte(preamble), 0o644)
	if out, err := t.run("", "protoc", "-I", repo, "--cpp_out="+dir+"/base", "validate/validate.proto"); err != nil {
		return nil, fmt.Errorf("validate.proto: %s", out)
	}
	if out, err := t.clang("", "-fpch-instantiate-templates", "-x", "c++-header", dir+"/base/pre.h", "-o", dir+"/pre.pch"); err != nil {
		return nil, fmt.Errorf("the library headers do not compile: %s", out)
	}
	return t, nil
}

// Stop removes the scratch directory.
func (t *Tool) Stop() {
	if strings.Contains(t.dir, "verif-cxx") {
		os.RemoveAll(t.dir)
	}
}

func (t *Tool) run(dir, name string, args ...string) (string, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.String(), err
}

func (t *Tool) args(extra ...string) []string {
	return append([]string{"-std=c++14", "-w", "-fno-color-diagnostics", "-fno-caret-diagnostics", "-I", t.dir + "/base"}, extra...)
}

func (t *Tool) clang(dir string, extra ...string) (string, error) {
	return t.run(dir, "clang++", t.args(extra...)...)
}

// Source is a generated file.
type Source struct{ Name, Text string }

// Unit is an analysed translation unit.
type Unit struct {
	Root   *Node
	Errors []string
}

// Prepared is a scratch directory with the message classes of a schema.
type Prepared struct {
	t    *Tool
	dir  string
	pch  string
	Fail string // protoc's or clang's objection to the schema itself
}

// Prepare has protoc write the message classes of the files of a schema.
func (t *Tool) Prepare(fds *descriptorpb.FileDescriptorSet) *Prepared {
	p := &Prepared{t: t, dir: fmt.Sprintf("%s/u%d", t.dir, atomic.AddInt32(&t.n, 1))}
	os.MkdirAll(p.dir, 0o755)
	set := proto.Clone(fds).(*descriptorpb.FileDescriptorSet)
	for _, f := range set.File {
		aliases(f.EnumType)
		for _, m := range f.MessageType {
			adapt(m)
		}
	}
	raw, err := proto.Marshal(set)
	if err != nil {
		p.Fail = err.Error()
		return p
	}
	os.WriteFile(p.dir+"/fds.bin", raw, 0o644)
	args := []string{"--descriptor_set_in=" + p.dir + "/fds.bin", "--cpp_out=" + p.dir}
	inc := ""
	for _, f := range fds.File {
		if n := f.GetName(); !strings.HasPrefix(n, "google/protobuf/") && !strings.HasPrefix(n, "validate/") {
			args = append(args, n)
			inc += "#include \"" + strings.TrimSuffix(n, ".proto") + ".pb.h\"\n"
		}
	}
	if out, err := t.run(p.dir, "protoc", args...); err != nil {
		p.Fail = "protoc: " + out
		return p
	}
	os.WriteFile(p.dir+"/messages.h", []byte(inc), 0o644)
	p.pch = p.dir + "/messages.pch"
	if out, err := t.clang(p.dir, "-I", p.dir, "-include-pch", t.dir+"/pre.pch", "-x", "c++-header", "messages.h", "-o", p.pch); err != nil {
		p.Fail = "clang: " + out
	}
	return p
}

// adapt leaves out the JSON names, which protoc derives, and allows aliases.
func adapt(m *descriptorpb.DescriptorProto) {
	for _, f := range m.Field {
		f.JsonName = nil
	}
	aliases(m.EnumType)
	for _, n := range m.NestedType {
		adapt(n)
	}
}

func aliases(es []*descriptorpb.EnumDescriptorProto) {
	for _, e := range es {
		seen := map[int32]bool{}
		for _, v := range e.Value {
			if seen[v.GetNumber()] {
				e.Options = &descriptorpb.EnumOptions{AllowAlias: proto.Bool(true)}
			}
			seen[v.GetNumber()] = true
		}
	}
}

// Done removes the scratch directory.
func (p *Prepared) Done() {
	if strings.Contains(p.dir, "verif-cxx") {
		os.RemoveAll(p.dir)
	}
}

// Compile analyses every translation unit among the sources.
func (p *Prepared) Compile(srcs []Source, tree bool) ([]*Unit, []string) {
	var errs []string
	for _, s := range srcs {
		if filepath.IsAbs(s.Name) || strings.Contains(s.Name, "..") {
			return nil, []string{"an artifact named " + s.Name}
		}
		f := filepath.Join(p.dir, s.Name)
		os.MkdirAll(filepath.Dir(f), 0o755)
		os.WriteFile(f, []byte(s.Text), 0o644)
	}
	var units []*Unit
	for _, s := range srcs {
		if !strings.HasSuffix(s.Name, ".cc") {
			continue
		}
		args := []string{"-I", p.dir, "-I", p.t.repo, "-include-pch", p.pch, "-fsyntax-only"}
		if tree {
			args = append(args, "-Xclang", "-ast-dump=json")
		}
		c := exec.Command("clang++", p.t.args(append(args, s.Name)...)...)
		c.Dir = p.dir
		var out, diag bytes.Buffer
		c.Stdout, c.Stderr = &out, &diag
		if err := c.Run(); err != nil {
			n := 0
			for _, l := range strings.Split(diag.String(), "\n") {
				if strings.Contains(l, "error:") && n < 3 {
					n++
					errs = append(errs, strings.TrimPrefix(l, p.dir+"/"))
				}
			}
			if n == 0 {
				errs = append(errs, "clang: "+err.Error()+" "+diag.String())
			}
			continue
		}
		u := &Unit{}
		if tree {
			u.Root = &Node{}
			if err := json.Unmarshal(out.Bytes(), u.Root); err != nil {
				errs = append(errs, "syntax tree: "+err.Error())
				continue
			}
		}
		units = append(units, u)
	}
	return units, errs
}

// Node is a clang syntax tree node.
type Node struct {
	ID       string  `json:"id"`
	Kind     string  `json:"kind"`
	Name     string  `json:"name"`
	Inner    []*Node `json:"inner"`
	Type     *Type   `json:"type"`
	Value    Val     `json:"value"`
	Opcode   string  `json:"opcode"`
	Cast     string  `json:"castKind"`
	Ref      *Node   `json:"referencedDecl"`
	Found    *Node   `json:"foundReferencedDecl"`
	Member   string  `json:"referencedMemberDecl"`
	Arrow    bool    `json:"isArrow"`
	Postfix  bool    `json:"isPostfix"`
	HasElse  bool    `json:"hasElse"`
	HasVar   bool    `json:"hasVar"`
	HasInit  bool    `json:"hasInit"`
	Init     string  `json:"init"`
	ArgType  *Type   `json:"argType"`
	TypeArg  *Type   `json:"typeArg"`
	Storage  string  `json:"storageClass"`
	TLS      string  `json:"tls"`
	Previous string  `json:"previousDecl"`
	Parent   string  `json:"parentDeclContextId"`
	TraitN   string  `json:"traitName"`
	Prop     string  `json:"valueCategory"`
	Ctor     *Type   `json:"ctorType"`
	Elidable bool    `json:"elidable"`
	List     bool    `json:"list"`
	StdInit  bool    `json:"initializer_list"`
	Dtor     string  `json:"destroyedDecl"`
	Mangled  string  `json:"mangledName"`
	AnyInit  *Node   `json:"anyInit"`
	TagUsed  string  `json:"tagUsed"`
}

// Val is a literal's value: clang writes strings, numbers and booleans.
type Val struct {
	S   string
	Set bool
}

func (v *Val) UnmarshalJSON(b []byte) error {
	v.Set = true
	if len(b) > 0 && b[0] == '"' {
		return json.Unmarshal(b, &v.S)
	}
	v.S = string(b)
	return nil
}

type Type struct {
	Qual    string `json:"qualType"`
	Desug   string `json:"desugaredQualType"`
	AliasID string `json:"typeAliasDeclId"`
}

// T is the canonical spelling of a node's type.
func (n *Node) T() string {
	if n.Type == nil {
		return ""
	}
	if n.Type.Desug != "" {
		return n.Type.Desug
	}
	return n.Type.Qual
}
