// Package check holds the property deciders.
package check

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"verif/analyzer/absint"
	"verif/analyzer/fam"
	"verif/analyzer/golang"
	"verif/analyzer/scen"
	"verif/analyzer/spec"
	"verif/analyzer/world"
)

// Violation is one refuted obligation.
type Violation struct {
	Key    string // stable identity
	Where  string // construct in the source
	Detail string
}

// Ctx is one run of a property check.
type Ctx struct {
	W    *world.Loaded
	Tier string
	Seed int

	mu    sync.Mutex
	viols []Violation
	// measured counts
	Counts     map[string]*int64
	Samples    []string
	Covered    map[string]bool
	Repo, Home string
	Constructs []string
	Tpls       map[string]string
}

func NewCtx(w *world.Loaded, tier string, seed int) *Ctx {
	return &Ctx{W: w, Tier: tier, Seed: seed, Counts: map[string]*int64{}, Covered: map[string]bool{}, Tpls: map[string]string{}}
}

func (c *Ctx) Full() bool { return c.Tier == "thorough" }

func (c *Ctx) Count(k string, n int) {
	c.mu.Lock()
	p := c.Counts[k]
	if p == nil {
		p = new(int64)
		c.Counts[k] = p
	}
	c.mu.Unlock()
	atomic.AddInt64(p, int64(n))
}

func (c *Ctx) Sample(f string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.Samples) < 12 {
		c.Samples = append(c.Samples, fmt.Sprintf(f, a...))
	}
}

func (c *Ctx) Violate(key, where, detail string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(a) > 0 {
		detail = fmt.Sprintf(detail, a...)
	}
	c.viols = append(c.viols, Violation{key, where, detail})
}

// Violations in a stable order, one per key.
func (c *Ctx) Violations() []Violation {
	sort.SliceStable(c.viols, func(i, j int) bool { return c.viols[i].Key < c.viols[j].Key })
	var out []Violation
	seen := map[string]bool{}
	for _, v := range c.viols {
		if !seen[v.Key] {
			seen[v.Key] = true
			out = append(out, v)
		}
	}
	return out
}

func (c *Ctx) cover(in *absint.Interp) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for f := range in.Covered {
		c.Covered[f.String()] = true
	}
	for n, t := range in.TplUsed {
		c.Tpls[n] = t
	}
}

// where names the templates that produced an emission.
func (c *Ctx) where(in *absint.Interp) string {
	if in == nil {
		return ""
	}
	var out []string
	for n, t := range in.TplUsed {
		p := c.W.ConstPos(t)
		if p.IsValid() {
			out = append(out, fmt.Sprintf("%s:%d (template %q)", strings.TrimPrefix(p.Filename, c.W.Repo+"/"), p.Line, n))
		}
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

// parallel runs f over n items on the available cores.
func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	var failed interface{}
	ch := make(chan int)
	one := func(i int) {
		defer func() {
			if r := recover(); r != nil {
				mu.Lock()
				failed = fmt.Sprintf("%v at %s", r, debug.Stack())
				mu.Unlock()
			}
		}()
		f(i)
	}
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				one(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
	if failed != nil {
		panic(failed)
	}
}

// Emission is the analysed output of the plugin for a set of cases.
type Emission struct {
	Cases []*fam.Case
	B     *scen.Built
	Run   *scen.Run
	Out   scen.Outcome
	Path  string // choices of the abstract path
}

// FileOpt adjusts the schema file cases are put in.
type FileOpt struct {
	Lang     string
	Params   map[string]string
	Edit     func(f *scen.File)
	Deps     []*scen.File
	Enums    []*scen.Enum
	Extra    []*scen.Msg // messages that are always present
	Batch    int
	NoRender bool // stop before the templates run
	Lenient  bool // code that does not compile is another property's business
	Order    map[string]float64
}

func (o *FileOpt) file(cases []*fam.Case) *scen.File {
	f := &scen.File{Name: "dir/foo.proto", Package: "t", GoPackage: "example.com/t;t", Deps: o.Deps, Enums: o.Enums}
	f.Msgs = append(f.Msgs, o.Extra...)
	for _, c := range cases {
		f.Msgs = append(f.Msgs, c.Msg)
	}
	if o.Lang == "java" {
		f.Imports = append(f.Imports, "validate/validate.proto")
	}
	if o.Edit != nil {
		o.Edit(f)
	}
	return f
}

// emit analyses the plugin on the cases and calls use for every abstract
// path.  A path that fails as a whole is re-analysed case by case.
func (c *Ctx) emit(o *FileOpt, cases []*fam.Case, use func(e *Emission) bool) {
	b, err := scen.Build(o.file(cases))
	if err != nil {
		panic(err)
	}
	params := map[string]string{"lang": o.Lang}
	for k, v := range o.Params {
		params[k] = v
	}
	var script []int
	for n := 0; ; n++ {
		or := &absint.Oracle{Script: script}
		order := map[string]float64{}
		for k, v := range fam.Base {
			order[k] = v
			order["sec:"+k], order["nanos:"+k] = v, 0
		}
		for k, v := range spec.Classes() {
			order[absint.KeyOf(k)] = v
		}
		for k, v := range o.Order {
			order[k] = v
		}
		r := &scen.Run{W: c.W, B: b, Params: params, Order: order, NoRender: o.NoRender}
		out := r.Execute(or)
		c.Count("abstract plugin runs", 1)
		c.cover(r.In)
		e := &Emission{Cases: cases, B: b, Run: r, Out: out, Path: or.AtomString()}
		whole := len(or.Taken) == 0
		if !whole && len(cases) > 1 || !use(e) && len(cases) > 1 {
			// split to localise
			h := len(cases) / 2
			c.emit(o, cases[:h], use)
			c.emit(o, cases[h:], use)
			return
		}
		if script = or.Next(); script == nil {
			return
		}
		if n > 512 {
			c.Violate("paths/"+cases[0].Desc, c.where(r.In), "the generator has too many abstract paths for %s", cases[0].Desc)
			return
		}
	}
}

// GoCases analyses the emitted Go code of the cases.
func (c *Ctx) GoCases(o *FileOpt, cases []*fam.Case, each func(e *Emission, u *golang.Unit, k *fam.Case)) {
	o.Lang = "go"
	if o.Batch == 0 {
		o.Batch = 40
	}
	var groups [][]*fam.Case
	for i := 0; i < len(cases); i += o.Batch {
		j := i + o.Batch
		if j > len(cases) {
			j = len(cases)
		}
		groups = append(groups, cases[i:j])
	}
	parallel(len(groups), func(i int) {
		c.emit(o, groups[i], func(e *Emission) bool {
			single := len(e.Cases) == 1
			desc := e.Cases[0].Desc
			if s := e.Out.String(); s != "accepted" {
				if single {
					c.Violate("emit/"+desc, c.where(e.Run.In)+" "+e.Out.Pos.String(), "a well-formed schema (%s) is not turned into code: %s", desc, s)
				}
				return false
			}
			u := golang.Compile(c.W, e.B, e.Out.Arts, true)
			if len(u.Errors) > 0 || len(u.Flaws) > 0 {
				if single && !o.Lenient {
					c.Violate("compile/"+desc, c.where(e.Run.In), "the code emitted for %s is not valid Go: %s", desc, strings.Join(append(u.Errors, u.Flaws...), "; "))
				}
				return false
			}
			c.Count("schemas analysed", len(e.Cases))
			for _, k := range e.Cases {
				each(e, u, k)
			}
			return true
		})
	})
}

// goChecker is the reference semantics with Go error naming.
func goChecker(b *scen.Built, env *spec.Env) *spec.Checker {
	en := map[string]*scen.Enum{}
	var files func(f *scen.File)
	files = func(f *scen.File) {
		for _, e := range f.Enums {
			en["."+f.Package+"."+e.Name] = e
		}
		for _, d := range f.Deps {
			files(d)
		}
	}
	files(b.File)
	for fq, m := range b.Msgs {
		for _, e := range m.Enums {
			en[fq+"."+e.Name] = e
		}
	}
	return &spec.Checker{B: b, Env: env, Name: golang.CamelCase, Enums: en,
		KeyText: func(v *spec.Val) string {
			if v.Sym != "" {
				return v.Sym
			}
			return fmt.Sprint(v.Conc)
		},
		Validates: func(fq string) bool {
			if m := b.Msgs[fq]; m != nil {
				if x, _ := m.Ignored.(bool); x {
					return false
				}
				return m.GoMethods != "none"
			}
			return false
		}}
}

// goResults evaluates the method over every abstract path.
func goResults(u *golang.Unit, env *spec.Env, fq string, v *spec.Val, all bool, use func(r *golang.Result, e *golang.Evaluator, path string)) {
	var script []int
	for n := 0; n < 256; n++ {
		or := &absint.Oracle{Script: script, MaxDeep: 24}
		ev := u.NewEval(env, or)
		ev.Texts = u.Texts
		r := ev.Validate(fq, v, all)
		use(r, ev, or.AtomString())
		if script = or.Next(); script == nil {
			return
		}
	}
	use(&golang.Result{Undec: "too many abstract paths"}, nil, "")
}

// CompareGo checks the emitted methods of one case against the reference.
func (c *Ctx) CompareGo(e *Emission, u *golang.Unit, k *fam.Case) {
	fq := "." + e.B.File.Package + "." + k.Name
	for _, cv := range k.Vals {
		want, err := goChecker(e.B, cv.Env).Violations(fq, cv.Val)
		if err != nil {
			panic(fmt.Sprintf("%s %s: %v", k.Desc, cv.Val, err))
		}
		c.Count("abstract values", 1)
		bad := func(f string, a ...interface{}) {
			c.Violate("go/"+k.Desc, c.where(e.Run.In), "%s, value %s with %s: %s", k.Desc, cv.Val, relevant(cv.Env), fmt.Sprintf(f, a...))
		}
		for _, all := range []bool{false, true} {
			name := "Validate"
			if all {
				name = "ValidateAll"
			}
			goResults(u, cv.Env, fq, cv.Val, all, func(r *golang.Result, ev *golang.Evaluator, path string) {
				c.Count("obligations", 1)
				if b := r.Bad(); b != "" {
					bad("%s %s", name, b)
					return
				}
				if path != "" && len(want) == 0 != (len(r.Errs) == 0) {
					bad("%s depends on %s", name, absint.Show(path))
					return
				}
				if len(want) == 0 {
					if len(r.Errs) > 0 || r.Type != "" {
						bad("%s reports %v although every constraint holds", name, r.Errs)
					}
					return
				}
				if len(r.Errs) == 0 {
					bad("%s accepts the value although %v is violated", name, want)
					return
				}
				gw := map[string]int{}
				for _, w := range want {
					gw[w.Path]++
				}
				if !all {
					if len(r.Errs) != 1 || r.Wrapped {
						bad("Validate does not return a single violation: %v", r.Errs)
					} else if gw[pathText(r.Errs[0].Field)] == 0 {
						bad("Validate reports %v, violated are %v", r.Errs[0], want)
					}
					return
				}
				if !r.Wrapped {
					bad("ValidateAll does not return a list: %v", r.Errs)
				}
				gg := map[string]int{}
				for _, x := range r.Errs {
					gg[pathText(x.Field)]++
				}
				if fmt.Sprint(gw) != fmt.Sprint(gg) {
					bad("ValidateAll reports %v, violated are %v", r.Errs, want)
				}
			})
		}
	}
}

// relevant shows the part of an environment that is not the shared baseline.
func relevant(e *spec.Env) string {
	n := spec.NewEnv()
	for k, v := range e.Rank {
		if b, ok := fam.Base[k]; !ok || b != v {
			n.Rank[k] = v
		}
	}
	n.Fact = e.Fact
	return n.String()
}

// pathText renders a reported path with formatted symbols by name.
func pathText(s string) string {
	if !absint.HasHole(s) {
		return s
	}
	var sb strings.Builder
	for _, g := range absint.Segs(s) {
		switch {
		case g.Hole == nil:
			sb.WriteString(g.Lit)
		case strings.HasPrefix(g.Hole.Op, "fmt:") && len(g.Hole.Args) == 1:
			sb.WriteString(absint.KeyOf(g.Hole.Args[0]))
		default:
			sb.WriteString(g.Hole.Key())
		}
	}
	return sb.String()
}
