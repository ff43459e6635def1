package golang

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/absint"
	"verif/analyzer/scen"
	"verif/analyzer/world"
)

// Unit is a type-checked abstract emission.
type Unit struct {
	W      *world.Loaded
	B      *scen.Built
	Lits   *Lits
	Errors []string
	Flaws  []string
	Prog   *ssa.Program
	Pkg    *ssa.Package
	TPkg   *types.Package
	Src    map[string]string
	Fset   *token.FileSet
	Texts  bool // error texts matter
}

type importer struct {
	w     *world.Loaded
	local map[string]*types.Package
}

func (im importer) Import(path string) (*types.Package, error) {
	if p, ok := im.local[path]; ok {
		return p, nil
	}
	if p, ok := im.w.Pkgs[path]; ok {
		return p.Pkg, nil
	}
	return nil, fmt.Errorf("package %s is not known to the analysis", path)
}

// checkPkg parses and type-checks one package.
func checkPkg(w *world.Loaded, fs *token.FileSet, path string, srcs map[string]string, local map[string]*types.Package) (*types.Package, []*ast.File, *types.Info, []string) {
	var errs []string
	var files []*ast.File
	for n, s := range srcs {
		f, err := parser.ParseFile(fs, n, s, parser.SkipObjectResolution)
		if err != nil {
			errs = append(errs, "syntax: "+first(err.Error()))
			return nil, nil, nil, errs
		}
		files = append(files, f)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}}
	cfg := types.Config{Importer: importer{w, local}, Error: func(err error) {
		if te, ok := err.(types.Error); ok {
			p := fs.Position(te.Pos)
			line := sourceLine(srcs[p.Filename], p.Line)
			errs = append(errs, fmt.Sprintf("%s [%s]", te.Msg, absint.Show(strings.TrimSpace(line))))
			return
		}
		errs = append(errs, err.Error())
	}}
	p, _ := cfg.Check(path, fs, files, info)
	return p, files, info, errs
}

func sourceLine(src string, n int) string {
	ls := strings.Split(src, "\n")
	if n-1 < len(ls) && n > 0 {
		return ls[n-1]
	}
	return ""
}

func first(s string) string {
	if i := strings.Index(s, "\n"); i >= 0 {
		return s[:i]
	}
	return s
}

// Compile type-checks the emission of one or more artifacts together with
// the message declarations they extend.
func Compile(w *world.Loaded, b *scen.Built, arts []scen.Artifact, build bool, generated ...string) *Unit {
	u := &Unit{W: w, B: b, Lits: NewLits(), Src: map[string]string{}, Fset: token.NewFileSet()}
	local := map[string]*types.Package{}
	var deps func(f *scen.File)
	ipath, _ := GoPkg(b.File)
	deps = func(f *scen.File) {
		for _, d := range f.Deps {
			deps(d)
			p, _ := GoPkg(d)
			if p == ipath || local[p] != nil {
				continue
			}
			tp, _, _, errs := checkPkg(w, u.Fset, p, map[string]string{d.Name + ".pb.go": Stub(d, true)}, local)
			if len(errs) > 0 {
				panic("stub: " + strings.Join(errs, "; ") + "\n" + Stub(d, true))
			}
			local[p] = tp
		}
	}
	deps(b.File)
	srcs := map[string]string{}
	stub := Stub(b.File, false)
	srcs["stub.pb.go"] = stub
	for _, d := range b.File.Deps {
		if p, _ := GoPkg(d); p == ipath {
			own := false
			for _, g := range generated {
				own = own || g == d.Name
			}
			srcs["stub"+d.Name+".go"] = Stub(d, !own)
		}
	}
	for _, a := range arts {
		t := Finalize(a.Text, u.Lits)
		clean, fl := CheckRaw(t.Src)
		u.Flaws = append(u.Flaws, fl...)
		srcs[a.Name] = clean
		u.Src[a.Name] = clean
	}
	tp, files, info, errs := checkPkg(w, u.Fset, ipath, srcs, local)
	u.Errors = errs
	u.TPkg = tp
	if len(errs) > 0 || !build {
		return u
	}
	u.Prog = ssa.NewProgram(u.Fset, ssa.InstantiateGenerics)
	created := map[*types.Package]bool{}
	var mk func(ps []*types.Package)
	mk = func(ps []*types.Package) {
		for _, p := range ps {
			if !created[p] {
				created[p] = true
				u.Prog.CreatePackage(p, nil, nil, true)
				mk(p.Imports())
			}
		}
	}
	mk(tp.Imports())
	u.Pkg = u.Prog.CreatePackage(tp, files, info, false)
	u.Pkg.Build()
	return u
}
