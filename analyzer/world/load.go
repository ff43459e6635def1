// Package world loads /repo (type-checked, SSA) for the analyses.
package world

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/analyzer/absint"
)

const Mod = "github.com/envoyproxy/protoc-gen-validate"

type Loaded struct {
	*absint.World
	Repo     string
	Roots    []*packages.Package
	RepoPkgs []string

	constOnce sync.Once
	constPos  map[string]token.Position
}

// Load type-checks the packages of the plugin from dir.
func Load(dir string) (*Loaded, error) {
	debug.SetGCPercent(400)
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "CGO_ENABLED=0", "GOWORK=off")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env}
	pkgs, err := packages.Load(cfg, ".", "./module/...", "./templates/...", "./validate/...",
		"net", "net/mail", "net/url", "unicode/utf8", "regexp", "bytes", "errors", "slices", "maps", "cmp", "iter", "sync", "sync/atomic", "strconv", "unicode", "net/netip", "container/list", "google.golang.org/protobuf/proto",
		"google.golang.org/protobuf/types/known/anypb", "google.golang.org/protobuf/types/known/durationpb",
		"google.golang.org/protobuf/types/known/timestamppb", "google.golang.org/protobuf/types/known/wrapperspb",
		"google.golang.org/protobuf/types/descriptorpb")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	l := &Loaded{Repo: dir, Roots: pkgs}
	w := &absint.World{Prog: prog, Pkgs: map[string]*ssa.Package{}, Funcs: map[string]*ssa.Function{}}
	for _, p := range prog.AllPackages() {
		w.Pkgs[p.Pkg.Path()] = p
		if strings.HasPrefix(p.Pkg.Path(), Mod) {
			l.RepoPkgs = append(l.RepoPkgs, p.Pkg.Path())
		}
	}
	sort.Strings(l.RepoPkgs)
	w.Interpretable = Interpretable
	for path, p := range w.Pkgs {
		if Interpretable(path) {
			p.Build()
		}
	}
	for _, p := range prog.AllPackages() {
		for _, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok {
				w.Funcs[f.String()] = f
			}
			if t, ok := m.(*ssa.Type); ok {
				if n, ok := t.Type().(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						if f := prog.FuncValue(n.Method(i)); f != nil {
							w.Funcs[f.String()] = f
						}
					}
				}
			}
		}
	}
	w.HostType = l.hostType
	l.World = w
	return l, nil
}

var interp = map[string]bool{
	"github.com/lyft/protoc-gen-star":                    true,
	"github.com/lyft/protoc-gen-star/lang/go":            true,
	"github.com/iancoleman/strcase":                      true,
	"google.golang.org/protobuf/types/known/anypb":       true,
	"google.golang.org/protobuf/types/known/durationpb":  true,
	"google.golang.org/protobuf/types/known/timestamppb": true,
	"google.golang.org/protobuf/types/known/wrapperspb":  true,
	"google.golang.org/protobuf/types/descriptorpb":      true,
	"google.golang.org/protobuf/proto":                   false,
}

// Interpretable tells which packages are analysed from source; every other
// package is a library boundary.
func Interpretable(p string) bool {
	if p == Mod || strings.HasPrefix(p, Mod+"/") {
		return true
	}
	return interp[p]
}

func (l *Loaded) hostType(rt reflect.Type) types.Type {
	if rt.Name() != "" && rt.PkgPath() != "" {
		p := l.Pkgs[rt.PkgPath()]
		if p == nil {
			return nil
		}
		o := p.Pkg.Scope().Lookup(rt.Name())
		if o == nil {
			return nil
		}
		return o.Type()
	}
	switch rt.Kind() {
	case reflect.Ptr:
		e := l.hostType(rt.Elem())
		if e == nil {
			return nil
		}
		return types.NewPointer(e)
	case reflect.Slice:
		e := l.hostType(rt.Elem())
		if e == nil {
			return nil
		}
		return types.NewSlice(e)
	case reflect.Map:
		k, e := l.hostType(rt.Key()), l.hostType(rt.Elem())
		if e == nil || k == nil {
			return nil
		}
		return types.NewMap(k, e)
	case reflect.Interface:
		if rt.NumMethod() == 0 {
			return types.NewInterfaceType(nil, nil)
		}
		if rt.Name() == "error" {
			return types.Universe.Lookup("error").Type()
		}
		return nil
	}
	if b, ok := basics[rt.Kind()]; ok {
		return types.Typ[b]
	}
	return nil
}

var basics = map[reflect.Kind]types.BasicKind{
	reflect.Bool: types.Bool, reflect.Int: types.Int, reflect.Int8: types.Int8, reflect.Int16: types.Int16,
	reflect.Int32: types.Int32, reflect.Int64: types.Int64, reflect.Uint: types.Uint, reflect.Uint8: types.Uint8,
	reflect.Uint16: types.Uint16, reflect.Uint32: types.Uint32, reflect.Uint64: types.Uint64,
	reflect.Float32: types.Float32, reflect.Float64: types.Float64, reflect.String: types.String,
}

// Type looks a named type up.
func (l *Loaded) Type(pkg, name string) *types.Named {
	p := l.Pkgs[pkg]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// ConstPos finds the package-level constant or literal holding a text.
func (l *Loaded) ConstPos(text string) token.Position {
	l.constOnce.Do(func() {
		l.constPos = map[string]token.Position{}
		for path, p := range l.Pkgs {
			if !strings.HasPrefix(path, Mod) {
				continue
			}
			for _, n := range p.Pkg.Scope().Names() {
				c, ok := p.Pkg.Scope().Lookup(n).(*types.Const)
				if ok && c.Val().Kind() == constant.String {
					l.constPos[constant.StringVal(c.Val())] = l.Prog.Fset.Position(c.Pos())
				}
			}
		}
	})
	return l.constPos[text]
}
