package scen

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	pgs "github.com/lyft/protoc-gen-star"

	"verif/analyzer/absint"
	"verif/analyzer/world"
)

// Outcome of analysing one run of the plugin over an abstract schema.
type Outcome struct {
	Rejected bool   // the plugin refused the schema with a diagnostic
	Reason   string // the diagnostic
	Panic    string // the plugin crashed
	Undec    string // the analysis could not decide
	TplErr   string // template execution failed (also a diagnostic-free crash)
	Pos      token.Position
	Arts     []Artifact
}

type Artifact struct {
	Name string
	Text string
	Tpl  string
}

func (o *Outcome) String() string {
	switch {
	case o.Rejected:
		return "rejected: " + absint.Show(o.Reason)
	case o.Panic != "":
		return "panic: " + o.Panic
	case o.Undec != "":
		return "undecided: " + o.Undec
	case o.TplErr != "":
		return "template error: " + o.TplErr
	}
	return "accepted"
}

// Run is a configured plugin analysis.
type Run struct {
	W      *world.Loaded
	B      *Built
	Params map[string]string
	Order  map[string]float64
	Facts  map[string]int
	// Targets defaults to the schema's main file.
	Targets  []pgs.File
	MapOrder int // the order in which maps are ranged over
	// NoRender stops after Execute.
	NoRender bool
	In       *absint.Interp
	// extension values, shared between reads as the descriptor library does
	ext map[string]absint.Value
	// ExtReads counts extension reads per extension name.
	ExtReads map[string]int
	Debugged []string
}

const base = "github.com/lyft/protoc-gen-star"

func extName(v absint.Value) string {
	p, ok := v.(absint.Ptr)
	if !ok || p == nil {
		return ""
	}
	s, ok := (*p).(absint.Struct)
	if !ok {
		return ""
	}
	for _, x := range s {
		if n, ok := x.(string); ok && strings.HasPrefix(n, "validate.") {
			return n
		}
	}
	return ""
}

// hook answers reads of validation options from the scenario.
func (r *Run) hook(in *absint.Interp, recv absint.Value, name string, args []absint.Value, pos token.Position) (absint.Value, bool) {
	if name != "Extension" {
		return nil, false
	}
	i, ok := recv.(absint.Iface)
	var h absint.Host
	if ok {
		h, ok = i.V.(absint.Host)
	} else {
		h, ok = recv.(absint.Host)
	}
	if !ok {
		return nil, false
	}
	en := extName(args[0])
	if en == "" {
		in.Undecided("read of an unidentified option on %T", h.RV.Interface())
	}
	r.ExtReads[en]++
	out := args[1]
	if oi, ok := out.(absint.Iface); ok {
		out = oi.V
	}
	dst, ok := out.(absint.Ptr)
	if !ok || dst == nil {
		in.Undecided("option %s read into %T", en, out)
	}
	ent, ok := h.RV.Interface().(pgs.Entity)
	if !ok {
		in.Undecided("option read on %T", h.RV.Interface())
	}
	fq := ent.FullyQualifiedName()
	var v absint.Value
	set := false
	switch en {
	case "validate.rules":
		f, isF := ent.(pgs.Field)
		if !isF {
			in.Undecided("validate.rules read on %T", ent)
		}
		fd := r.B.Fields[f.FullyQualifiedName()]
		if fd != nil && fd.Rules != nil {
			k := en + "|" + fq
			if r.ext[k] == nil {
				r.ext[k] = RuleMsg(r.W, r.W.Type(world.Mod+"/validate", "FieldRules"), fd.Rules)
			}
			v = *(r.ext[k].(absint.Ptr))
			set = true
		}
	case "validate.disabled", "validate.ignored":
		if m := r.B.Msgs[fq]; m != nil {
			if _, isM := ent.(pgs.Message); !isM {
				in.Undecided("%s read on %T", en, ent)
			}
			x := m.Disabled
			if en == "validate.ignored" {
				x = m.Ignored
			}
			if x != nil {
				v, set = x, true
			}
		}
	case "validate.required":
		if _, isO := ent.(pgs.OneOf); !isO {
			in.Undecided("%s read on %T", en, ent)
		}
		if o := r.B.Oneofs[fq]; o != nil && o.Required != nil {
			v, set = o.Required, true
		}
	default:
		in.Undecided("read of unknown option %s", en)
	}
	if set {
		// the descriptor library copies the option message into *dst; inner
		// messages stay shared
		*dst = absint.Copy(v)
	}
	return absint.Tuple{set, absint.Iface{}}, true
}

func sprint(in *absint.Interp, args []absint.Value) string {
	return in.Sprint(argList(args), false)
}
func argList(args []absint.Value) []absint.Value {
	if len(args) == 1 {
		if s, ok := args[0].(*absint.Slice); ok {
			if s == nil {
				return nil
			}
			var o []absint.Value
			for i := 0; i < s.Len; i++ {
				o = append(o, s.At(i))
			}
			return o
		}
	}
	return args
}

// Reject is the label of aborts raised by failing diagnostics.
const Reject = "reject"

func (r *Run) buildContext(params absint.Value) absint.Iface {
	bc := &absint.Obj{Kind: "buildcontext"}
	bt := r.W.Type(base, "rootContext")
	self := absint.Iface{T: bt, V: bc}
	nop := func(in *absint.Interp, a []absint.Value) absint.Value { return nil }
	me := func(in *absint.Interp, a []absint.Value) absint.Value { return self }
	fail := func(in *absint.Interp, msg string) {
		panic(absint.Abort{Label: Reject, Msg: msg, Pos: in.Pos()})
	}
	bc.Meth = map[string]func(*absint.Interp, []absint.Value) absint.Value{
		"Log": nop, "Logf": nop,
		"Debug":  func(in *absint.Interp, a []absint.Value) absint.Value { return nil },
		"Debugf": nop,
		"Push":   me, "Pop": me, "PushDir": me, "PopDir": me,
		"Parameters": func(in *absint.Interp, a []absint.Value) absint.Value { return params },
		"OutputPath": func(in *absint.Interp, a []absint.Value) absint.Value { return "." },
		"JoinPath": func(in *absint.Interp, a []absint.Value) absint.Value {
			var p []string
			for _, x := range argList(a) {
				p = append(p, x.(string))
			}
			return strings.Join(p, "/")
		},
		"Assert": func(in *absint.Interp, a []absint.Value) absint.Value {
			if !in.Truth(a[0]) {
				fail(in, sprint(in, a[1:]))
			}
			return nil
		},
		"CheckErr": func(in *absint.Interp, a []absint.Value) absint.Value {
			e := a[0]
			bad := false
			switch e := e.(type) {
			case absint.Iface:
				bad = e.T != nil
			case *absint.Term:
				bad = !in.IsNilTerm(e)
			}
			if bad {
				fail(in, sprint(in, a[1:]))
			}
			return nil
		},
		"Fail": func(in *absint.Interp, a []absint.Value) absint.Value {
			fail(in, sprint(in, a))
			return nil
		},
		"Failf": func(in *absint.Interp, a []absint.Value) absint.Value {
			f, _ := a[0].(string)
			fail(in, in.Sprintf(f, argList(a[1:])))
			return nil
		},
		"Exit": func(in *absint.Interp, a []absint.Value) absint.Value {
			panic(absint.Abort{Label: "exit", Pos: in.Pos()})
		},
	}
	return self
}

// NewInterp makes the interpreter of this run.
func (r *Run) NewInterp(o *absint.Oracle) *absint.Interp {
	in := absint.New(r.W.World, o)
	r.In = in
	r.ext = map[string]absint.Value{}
	r.ExtReads = map[string]int{}
	for k, v := range r.Order {
		in.Order[k] = v
	}
	in.Small = SmallSyms
	in.MapOrder = r.MapOrder
	for k, v := range r.Facts {
		in.Facts[k] = v
	}
	in.InvokeHook = r.hook
	in.FactFn = func(k string) (bool, bool) {
		// symbolic durations and timestamps of rules are well formed unless
		// the scenario says otherwise
		if strings.HasPrefix(k, "valid(") {
			return true, true
		}
		return false, false
	}
	in.Intercept = func(in *absint.Interp, fn *ssaFunction, args []absint.Value, pos token.Position) (absint.Value, bool) {
		if strings.HasPrefix(fn.Name(), "init#") || (fn.Name() == "init" && fn.Synthetic == "package initializer" && fn.Pkg != nil && !in.W.Interpretable(fn.Pkg.Pkg.Path())) {
			return nil, true
		}
		return nil, false
	}
	return in
}

func (r *Run) params() absint.Value {
	pt := r.W.Type(base, "Parameters")
	mt := pt.Underlying().(*types.Map)
	m := absint.NewMap(mt.Key(), mt.Elem())
	for k, v := range r.Params {
		m.Set(k, v)
	}
	return m
}

// Guard runs f, turning aborts into an outcome.
func Guard(out *Outcome, f func()) {
	defer func() {
		switch p := recover().(type) {
		case nil:
		case absint.Abort:
			out.Rejected, out.Reason, out.Pos = true, p.Msg, p.Pos
		case absint.GoPanic:
			out.Panic, out.Pos = p.Msg, p.Pos
		case absint.Undecided:
			out.Undec, out.Pos = p.Msg+" at "+p.Pos.String(), p.Pos
		case absint.TplError:
			out.TplErr = p.Error()
		default:
			panic(p)
		}
	}()
	f()
}

// Module instantiates the plugin module with a build context.
func (r *Run) Module(in *absint.Interp) absint.Iface {
	ctor := r.W.Funcs[world.Mod+"/module.Validator"]
	if ctor == nil {
		in.Undecided("constructor module.Validator not found")
	}
	mod := in.CallStatic(ctor, nil, nil).(absint.Iface)
	ic := in.FindMethod(mod.T, "InitContext", nil)
	if ic == nil {
		in.Undecided("module has no InitContext")
	}
	in.CallStatic(ic, []absint.Value{mod.V, r.buildContext(r.params())}, nil)
	return mod
}

// Execute analyses one run of the module's entry point.
func (r *Run) Execute(o *absint.Oracle) (out Outcome) {
	in := r.NewInterp(o)
	Guard(&out, func() {
		mod := r.Module(in)
		ex := in.FindMethod(mod.T, "Execute", nil)
		if ex == nil {
			in.Undecided("module has no Execute")
		}
		sig := ex.Signature
		tm := sig.Params().At(0).Type().Underlying().(*types.Map)
		targets := absint.NewMap(tm.Key(), tm.Elem())
		ts := r.Targets
		if ts == nil {
			ts = []pgs.File{r.B.PFile}
		}
		for _, t := range ts {
			targets.Set(t.Name().String(), in.HostIface(t))
		}
		pm := sig.Params().At(1).Type().Underlying().(*types.Map)
		pkgs := absint.NewMap(pm.Key(), pm.Elem())
		res := in.CallStatic(ex, []absint.Value{mod.V, targets, pkgs}, nil)
		sl, _ := res.(*absint.Slice)
		if sl == nil {
			return
		}
		for i := 0; i < sl.Len; i++ {
			out.Arts = append(out.Arts, r.artifact(in, sl.At(i)))
		}
	})
	return
}

func (r *Run) artifact(in *absint.Interp, v absint.Value) Artifact {
	i, ok := v.(absint.Iface)
	if !ok {
		in.Undecided("artifact %T", v)
	}
	n, _ := i.T.(*types.Named)
	if n == nil {
		in.Undecided("artifact of type %s", i.T)
	}
	s := i.V.(absint.Struct)
	st := n.Underlying().(*types.Struct)
	var a Artifact
	var data absint.Iface
	var tv absint.Value
	for k := 0; k < st.NumFields(); k++ {
		switch st.Field(k).Name() {
		case "Name", "FileName":
			a.Name = s[k].(string)
		case "Contents":
			a.Text = s[k].(string)
		case "TemplateArtifact":
			ts := s[k].(absint.Struct)
			tst := st.Field(k).Type().Underlying().(*types.Struct)
			for q := 0; q < tst.NumFields(); q++ {
				switch tst.Field(q).Name() {
				case "Template":
					tv = ts[q]
				case "Data":
					data, _ = ts[q].(absint.Iface)
				}
			}
		}
	}
	if tv != nil && !r.NoRender {
		tp := absint.TplOf(in, tv)
		a.Tpl = tp.Name
		txt, err := in.ExecTpl(tp.Set, tp.Name, data)
		if err != nil {
			panic(absint.TplError{Tpl: tp.Name, Msg: err.Error()})
		}
		a.Text = txt
	}
	return a
}

// Sig describes a schema for reports.
func (f *Field) Sig() string {
	t := f.Kind
	if f.Type != "" {
		t = strings.TrimPrefix(f.Type, ".")
	}
	if f.MapKey != "" {
		t = fmt.Sprintf("map<%s,%s>", f.MapKey, t)
	} else if f.Repeated {
		t = "repeated " + t
	}
	return t + " " + f.Rules.String()
}
