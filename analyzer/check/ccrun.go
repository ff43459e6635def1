package check

import (
	"os"
	"strings"
	"sync"

	"verif/analyzer/absint"
	"verif/analyzer/cxx"
	"verif/analyzer/fam"
	"verif/analyzer/golang"
)

var ccTool struct {
	once sync.Once
	t    *cxx.Tool
	err  error
}

// CC prepares clang and the library headers; a rule schema protoc refuses is a
// violation.
func (c *Ctx) CC() *cxx.Tool {
	ccTool.once.Do(func() { ccTool.t, ccTool.err = cxx.Start(c.W.Repo) })
	if ccTool.err != nil {
		c.Violate("cc/runtime", "validate/", "%v", ccTool.err)
		return nil
	}
	return ccTool.t
}

// CCUnit is the analysed C++ output for a set of cases.
type CCUnit struct {
	Units []*cxx.Unit
	Lits  *golang.Lits
	P     *cxx.Prog
	once  sync.Once
}

// CCCases analyses the emitted C++ code of the cases.
func (c *Ctx) CCCases(o *FileOpt, tree bool, cases []*fam.Case, each func(e *Emission, u *CCUnit, k *fam.Case)) {
	tool := c.CC()
	if tool == nil {
		return
	}
	o.Lang = "cc"
	if o.Batch == 0 {
		o.Batch = 40
	}
	var groups [][]*fam.Case
	for i := 0; i < len(cases); i += o.Batch {
		j := i + o.Batch
		if j > len(cases) {
			j = len(cases)
		}
		groups = append(groups, cases[i:j])
	}
	parallel(len(groups), func(i int) {
		c.emit(o, groups[i], func(e *Emission) bool {
			single := len(e.Cases) == 1
			desc := e.Cases[0].Desc
			if s := e.Out.String(); s != "accepted" {
				if single {
					c.Violate("cc-emit/"+desc, c.where(e.Run.In)+" "+e.Out.Pos.String(), "a well-formed schema (%s) is not turned into C++ code: %s", desc, s)
				}
				return false
			}
			u, fail, errs := c.ccUnit(tool, e, tree)
			if fail != "" {
				panic("the message classes of " + desc + ": " + fail)
			}
			if len(errs) > 0 {
				if single {
					c.Violate("cc-compile/"+desc, c.where(e.Run.In), "the C++ code emitted for %s does not compile: %s", desc, strings.Join(errs, "; "))
				}
				return false
			}
			c.Count("schemas analysed", len(e.Cases))
			for _, k := range e.Cases {
				each(e, u, k)
			}
			return true
		})
	})
}

// ccUnit compiles emitted C++ code; fail is an objection to the schema itself.
func (c *Ctx) ccUnit(tool *cxx.Tool, e *Emission, tree bool) (u *CCUnit, fail string, errs []string) {
	p := tool.Prepare(e.B.FDS)
	defer p.Done()
	if p.Fail != "" {
		return nil, p.Fail, nil
	}
	lits := golang.NewLits()
	var srcs []cxx.Source
	for _, a := range e.Out.Arts {
		t := golang.Finalize(a.Text, lits)
		if absint.HasHole(a.Name) {
			return nil, "", []string{"an artifact named " + absint.Show(a.Name)}
		}
		src, flaws := cxx.CheckRaw(t.Src)
		errs = append(errs, flaws...)
		srcs = append(srcs, cxx.Source{Name: a.Name, Text: src})
	}
	if len(errs) > 0 {
		return nil, "", errs
	}
	us, errs := p.Compile(srcs, tree)
	if d := os.Getenv("CCDUMP"); d != "" {
		for _, s := range srcs {
			os.WriteFile(d+"/"+strings.ReplaceAll(s.Name, "/", "_"), []byte(s.Text), 0o644)
		}
		for _, u := range us {
			os.WriteFile(d+"/ast.txt", []byte(u.Root.Dump()), 0o644)
		}
	}
	if len(errs) > 0 {
		return nil, "", errs
	}
	return &CCUnit{Units: us, Lits: lits}, "", nil
}
