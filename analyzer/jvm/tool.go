// Package jvm analyses the Java code the plugin emits together with the Java
// runtime library: javac parses and attributes the sources, and their syntax
// trees are abstractly evaluated.  No Java code of the project is run.
package jvm

import (
	"bufio"
	"embed"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"verif/analyzer/scen"
)

//go:embed src/Dump.java
var dumper []byte

//go:embed all:lib
var libFS embed.FS

// Node is a syntax tree node with resolved symbols.
type Node struct {
	K string   `json:"k"`
	S string   `json:"s"`
	T string   `json:"t"`
	O string   `json:"o"`
	F string   `json:"f"`
	L int      `json:"l"`
	P []string `json:"p"`
	C []*Node  `json:"c"`
}

func (n *Node) has(f string) bool {
	for _, x := range strings.Fields(n.F) {
		if x == f {
			return true
		}
	}
	return false
}

// Diag is a javac error.
type Diag struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Msg  string `json:"msg"`
	Src  string `json:"src"`
}

// Unit is the answer for a set of sources.
type Unit struct {
	Errors  []Diag  `json:"errors"`
	Classes []*Node `json:"classes"`
	Fail    string  `json:"fail"`
}

type Source struct {
	Name, Text string
	Dump       bool
}

// Tool is a running javac.
type Tool struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	dir  string
	mu   sync.Mutex
	next int32
	wait map[int32]chan *Unit
	Base *Unit
	// Runtime are the runtime library's sources.
	Runtime []string
}

func walk(dir string, use func(path, text string)) error {
	return filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !i.IsDir() && strings.HasSuffix(p, ".java") {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			use(p, string(b))
		}
		return nil
	})
}

// Start analyses the runtime of the tree in repo against the library
// declarations.
func Start(repo string) (*Tool, error) {
	dir, err := os.MkdirTemp("", "verif-jvm")
	if err != nil {
		return nil, err
	}
	t := &Tool{dir: dir, wait: map[int32]chan *Unit{}}
	src := filepath.Join(dir, "Dump.java")
	base := filepath.Join(dir, "base")
	if err := os.MkdirAll(base, 0o755); err != nil {
		return nil, err
	}
	if err := os.WriteFile(src, dumper, 0o644); err != nil {
		return nil, err
	}
	t.cmd = exec.Command("java", "-Xss64m", "-Xmx3g", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", src, base)
	t.cmd.Stderr = os.Stderr
	t.in, err = t.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := t.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := t.cmd.Start(); err != nil {
		return nil, err
	}
	go t.read(bufio.NewReaderSize(out, 1<<20))
	var srcs []Source
	err = fs.WalkDir(libFS, "lib", func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() && strings.HasSuffix(p, ".java") {
			b, _ := libFS.ReadFile(p)
			srcs = append(srcs, Source{strings.TrimPrefix(p, "lib/"), string(b), true})
		}
		return err
	})
	if err != nil {
		return nil, err
	}
	for _, m := range []string{"java/pgv-java-stub/src/main/java", "java/pgv-java-grpc/src/main/java"} {
		root := filepath.Join(repo, m)
		err := walk(root, func(p, text string) {
			t.Runtime = append(t.Runtime, strings.TrimPrefix(p, repo+"/"))
			srcs = append(srcs, Source{strings.TrimPrefix(p, root+"/"), text, true})
		})
		if err != nil {
			return nil, err
		}
	}
	t.Base, err = t.ask(srcs, true)
	if err != nil {
		return nil, err
	}
	if len(t.Base.Errors) > 0 {
		e := t.Base.Errors[0]
		return nil, fmt.Errorf("the Java runtime library does not compile: %s:%d: %s", e.File, e.Line, e.Msg)
	}
	return t, nil
}

func (t *Tool) read(r *bufio.Reader) {
	for {
		var id, n int32
		if binary.Read(r, binary.BigEndian, &id) != nil || binary.Read(r, binary.BigEndian, &n) != nil {
			break
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(r, b); err != nil {
			break
		}
		t.mu.Lock()
		ch := t.wait[id]
		delete(t.wait, id)
		t.mu.Unlock()
		go func() {
			u := &Unit{}
			if err := json.Unmarshal(b, u); err != nil {
				u.Fail = err.Error()
			}
			ch <- u
		}()
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	for id, ch := range t.wait {
		delete(t.wait, id)
		ch <- &Unit{Fail: "javac ended unexpectedly"}
	}
}

func (t *Tool) ask(srcs []Source, emit bool) (*Unit, error) {
	ch := make(chan *Unit, 1)
	t.mu.Lock()
	t.next++
	id := t.next
	t.wait[id] = ch
	var b []byte
	put := func(x int) { b = binary.BigEndian.AppendUint32(b, uint32(x)) }
	flag := func(x bool) {
		if x {
			b = append(b, 1)
		} else {
			b = append(b, 0)
		}
	}
	put(int(id))
	flag(emit)
	put(len(srcs))
	for _, s := range srcs {
		put(len(s.Name))
		b = append(b, s.Name...)
		flag(s.Dump)
		put(len(s.Text))
		b = append(b, s.Text...)
	}
	_, err := t.in.Write(b)
	t.mu.Unlock()
	if err != nil {
		return nil, err
	}
	u := <-ch
	if u.Fail != "" {
		return nil, fmt.Errorf("javac: %s", u.Fail)
	}
	return u, nil
}

// Compile attributes sources on top of the runtime library.
func (t *Tool) Compile(srcs []Source) (*Unit, error) { return t.ask(srcs, false) }

// Expressible tells whether the message classes protoc itself writes for a
// file are Java (a message named like its parent or like a keyword is not).
func (t *Tool) Expressible(f *scen.File) bool {
	u, err := t.Compile(MakeStubs(f).Sources)
	return err == nil && len(u.Errors) == 0
}

// Stop ends javac.
func (t *Tool) Stop() {
	t.in.Close()
	t.cmd.Wait()
	if strings.Contains(t.dir, "verif-jvm") {
		os.RemoveAll(t.dir)
	}
}
