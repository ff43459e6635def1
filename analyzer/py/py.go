// Package py runs the interpreter of Python code, which is written in Python
// to share the host's parser.
package py

import (
	"bufio"
	"embed"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
)

//go:embed *.py
var files embed.FS

// Tool is a set of interpreters of one module.
type Tool struct {
	Functions []string
	dir       string
	free      chan *worker
}

type worker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

// Start loads a module into n interpreters; fail says why it does not load.
func Start(n int, source string, rules interface{}) (t *Tool, fail string, err error) {
	t = &Tool{free: make(chan *worker, n)}
	if t.dir, err = os.MkdirTemp("", "pyint"); err != nil {
		return nil, "", err
	}
	es, _ := files.ReadDir(".")
	for _, e := range es {
		b, _ := files.ReadFile(e.Name())
		if err := os.WriteFile(filepath.Join(t.dir, e.Name()), b, 0o644); err != nil {
			return nil, "", err
		}
	}
	exe := "/usr/bin/python3"
	if _, err := os.Stat(exe); err != nil {
		exe = "python3"
	}
	for i := 0; i < n; i++ {
		cmd := exec.Command(exe, "-B", "-W", "ignore", filepath.Join(t.dir, "main.py"))
		cmd.Env = append(os.Environ(), "PYTHONHASHSEED=0", "PYTHONDONTWRITEBYTECODE=1")
		cmd.Stderr = os.Stderr
		w := &worker{cmd: cmd}
		if w.in, err = cmd.StdinPipe(); err != nil {
			return nil, "", err
		}
		o, err := cmd.StdoutPipe()
		if err != nil {
			return nil, "", err
		}
		w.out = bufio.NewReaderSize(o, 1<<20)
		if err := cmd.Start(); err != nil {
			return nil, "", err
		}
		var r struct {
			Fail      string
			Functions []string
		}
		if err := w.ask(map[string]interface{}{"source": source, "rules": rules}, &r); err != nil {
			return nil, "", err
		}
		if r.Fail != "" {
			return nil, r.Fail, nil
		}
		t.Functions = r.Functions
		t.free <- w
	}
	return t, "", nil
}

func (w *worker) ask(q, a interface{}) error {
	b, err := json.Marshal(q)
	if err != nil {
		return err
	}
	if _, err := w.in.Write(append(b, '\n')); err != nil {
		return fmt.Errorf("python interpreter: %v", err)
	}
	l, err := w.out.ReadBytes('\n')
	if err != nil {
		return fmt.Errorf("python interpreter: %v", err)
	}
	return json.Unmarshal(l, a)
}

// Outcome is the end of one abstract run.
type Outcome struct {
	OK     bool
	Undec  string
	Raised string
	Text   string
	Failed bool // it raised the module's validation failure
}

// Reply is what a case ended in.
type Reply struct {
	Results []Outcome
	Seen    []string
	Text    string
}

// Run interprets a case.
func (t *Tool) Run(q interface{}) (*Reply, error) {
	w := <-t.free
	defer func() { t.free <- w }()
	r := &Reply{}
	return r, w.ask(q, r)
}

// Stop ends the interpreters.
func (t *Tool) Stop() {
	for n := cap(t.free); n > 0; n-- {
		w := <-t.free
		w.in.Close()
		w.cmd.Wait()
	}
	os.RemoveAll(t.dir)
}
