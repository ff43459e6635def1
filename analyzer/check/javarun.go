package check

import (
	"fmt"
	"sort"
	"strings"
	"sync"

	"verif/analyzer/absint"
	"verif/analyzer/fam"
	"verif/analyzer/golang"
	"verif/analyzer/jvm"
	"verif/analyzer/scen"
	"verif/analyzer/spec"
)

var javaTool struct {
	once sync.Once
	t    *jvm.Tool
	err  error
}

// Java starts javac on the runtime library of the tree; a library that does
// not compile is a violation.
func (c *Ctx) Java() *jvm.Tool {
	javaTool.once.Do(func() {
		javaTool.t, javaTool.err = jvm.Start(c.W.Repo)
	})
	if javaTool.err != nil {
		c.Violate("java/runtime", "java/", "%v", javaTool.err)
		return nil
	}
	for _, f := range javaTool.t.Runtime {
		c.mu.Lock()
		c.Covered[f] = true
		c.mu.Unlock()
	}
	return javaTool.t
}

// StopTools ends helper processes.
func StopTools() {
	StopPy()
	if javaTool.t != nil {
		javaTool.t.Stop()
	}
	if ccTool.t != nil {
		ccTool.t.Stop()
	}
}

// JavaUnit is the analysed Java output for a set of cases.
type JavaUnit struct {
	P  *jvm.Prog
	St *jvm.Stubs
	B  *scen.Built
	// Outer is the class that holds the validators of the file.
	Outer string
}

// JavaCases analyses the emitted Java code of the cases.
func (c *Ctx) JavaCases(o *FileOpt, cases []*fam.Case, each func(e *Emission, u *JavaUnit, k *fam.Case)) {
	tool := c.Java()
	if tool == nil {
		return
	}
	o.Lang = "java"
	if o.Batch == 0 {
		o.Batch = 25
	}
	var groups [][]*fam.Case
	for i := 0; i < len(cases); i += o.Batch {
		j := i + o.Batch
		if j > len(cases) {
			j = len(cases)
		}
		groups = append(groups, cases[i:j])
	}
	parallel(len(groups), func(i int) {
		c.emit(o, groups[i], func(e *Emission) bool {
			single := len(e.Cases) == 1
			desc := e.Cases[0].Desc
			if s := e.Out.String(); s != "accepted" {
				if single {
					c.Violate("java-emit/"+desc, c.where(e.Run.In)+" "+e.Out.Pos.String(), "a well-formed schema (%s) is not turned into Java code: %s", desc, s)
				}
				return false
			}
			u, errs := c.javaUnit(tool, e)
			if len(errs) > 0 {
				if single {
					c.Violate("java-compile/"+desc, c.where(e.Run.In), "the Java code emitted for %s does not compile: %s", desc, strings.Join(errs, "; "))
				}
				return false
			}
			c.Count("schemas analysed", len(e.Cases))
			for _, k := range e.Cases {
				each(e, u, k)
			}
			return true
		})
	})
}

func (c *Ctx) javaUnit(tool *jvm.Tool, e *Emission, extra ...jvm.Source) (*JavaUnit, []string) {
	st := jvm.MakeStubs(e.B.File)
	lits := golang.NewLits()
	srcs := append([]jvm.Source{}, st.Sources...)
	outer := ""
	for _, a := range e.Out.Arts {
		t := golang.Finalize(a.Text, lits)
		if !strings.HasSuffix(a.Name, ".java") {
			return nil, []string{"an artifact named " + absint.Show(a.Name)}
		}
		srcs = append(srcs, jvm.Source{Name: a.Name, Text: t.Src, Dump: true})
		if outer == "" {
			outer = strings.ReplaceAll(strings.TrimSuffix(a.Name, ".java"), "/", ".")
		}
	}
	u, err := tool.Compile(append(srcs, extra...))
	if err != nil {
		return nil, []string{err.Error()}
	}
	var errs []string
	for _, d := range u.Errors {
		errs = append(errs, fmt.Sprintf("%s in `%s`", d.Msg, strings.TrimSpace(d.Src)))
		if len(errs) == 3 {
			break
		}
	}
	if len(errs) > 0 {
		return nil, errs
	}
	return &JavaUnit{P: tool.NewProg(u, st, lits), St: st, B: e.B, Outer: outer}, nil
}

// javaSkip names the reason a value is outside what the Java validators are
// given or document.
func javaSkip(k *fam.Case, v fam.CV) string {
	for f, ok := range v.Env.Fact {
		if !ok && strings.HasPrefix(f, "valid:") {
			return "a malformed time"
		}
	}
	why := ""
	var walk func(x *spec.Val, elem bool)
	walk = func(x *spec.Val, elem bool) {
		if x == nil {
			return
		}
		if x.Nil && elem {
			why = "null elements do not exist in Java"
		}
		if d, ok := x.Conc.(scen.DC); ok && (!d.Valid("duration") && !d.Valid("timestamp") || caseHas(k, "timestamp") && !d.Valid("timestamp")) {
			why = "a malformed time"
		}
		for _, y := range x.List {
			walk(y, true)
		}
		for _, y := range x.Keys {
			walk(y, true)
		}
		for _, y := range x.Fields {
			walk(y, false)
		}
		if x.Inner != nil {
			walk(x.Inner, true)
		}
	}
	if v.Val == nil || v.Val.Nil {
		return "null messages are not validated in Java"
	}
	walk(v.Val, false)
	if why != "" {
		return why
	}
	if _, ok := v.Env.Rank["now"]; ok && strings.Contains(k.Desc, "within") {
		for s, r := range v.Env.Rank {
			if s != "now-W" && s != "now+W" && (r == v.Env.Rank["now-W"] || r == v.Env.Rank["now+W"]) && strings.HasPrefix(s, fam.X) {
				return "the limit of within"
			}
		}
	}
	return ""
}

func hasRule(r scen.R, name string) bool {
	for k, x := range r {
		if k == name {
			return true
		}
		if s, ok := x.(scen.R); ok && hasRule(s, name) {
			return true
		}
	}
	return false
}

func caseHas(k *fam.Case, name string) bool {
	fs := append([]*scen.Field{}, k.Msg.Fields...)
	for _, o := range k.Msg.Oneofs {
		fs = append(fs, o.Fields...)
	}
	for _, f := range fs {
		if hasRule(f.Rules, name) {
			return true
		}
	}
	return false
}

// javaEnv completes an environment with what Java code may ask.
func javaEnv(env *spec.Env, bytes bool) []*spec.Env {
	e := env.Clone()
	if _, ok := e.Rank["now"]; ok {
		e.R("W", e.Rank["now+W"]-e.Rank["now"])
	}
	for k, v := range env.Rank {
		if _, ok := e.Rank["sec:"+k]; !ok && !strings.Contains(k, ":") {
			e.R("sec:"+k, v)
		}
	}
	// the bytes of an address are four or sixteen
	for k, v := range env.Fact {
		if strings.HasPrefix(k, "ip:") && v && bytes {
			n := 16.0
			if env.Fact["v4:"+k[3:]] {
				n = 4
			}
			e.R("bytes:"+k[3:], n)
		}
	}
	out := []*spec.Env{e}
	for k, v := range env.Fact {
		if strings.HasPrefix(k, "ip:") && !v && bytes {
			for _, n := range []float64{0, 1, 5, 12, 15, 17} {
				e := e.Clone()
				e.R("bytes:"+k[3:], n)
				out = append(out, e)
			}
		}
	}
	// a hostname is a domain name in ASCII; an address is one or an IP
	split := func(f string, alts func(x string, v bool) [][]bool, names ...string) {
		for k, v := range env.Fact {
			if !strings.HasPrefix(k, f+":") {
				continue
			}
			x := k[len(f)+1:]
			var next []*spec.Env
			for _, e := range out {
				for _, a := range alts(x, v) {
					n := e.Clone()
					ok := true
					for i, b := range a {
						name := names[i] + ":" + x
						if old, set := n.Fact[name]; set && old != b {
							ok = false
						}
						n.F(name, b)
					}
					if ok {
						next = append(next, n)
					}
				}
			}
			out = next
		}
	}
	table := func(pred func(a []bool) bool, n int) func(x string, v bool) [][]bool {
		return func(x string, v bool) [][]bool {
			var out [][]bool
			for i := 0; i < 1<<n; i++ {
				a := make([]bool, n)
				for j := range a {
					a[j] = i>>j&1 == 1
				}
				if pred(a) == v {
					out = append(out, a)
				}
			}
			return out
		}
	}
	split("hostname", table(func(a []bool) bool { return a[0] && a[1] }, 2), "ascii", "domain")
	split("address", table(func(a []bool) bool { return a[0] && a[1] || a[2] }, 3), "ascii", "domain", "ip")
	return out
}

// nested is the tag of an exception thrown for an invalid embedded message.
const nestedTag = "$nested"

// javaValidate evaluates the validator of message fq on v.
func (u *JavaUnit) javaValidate(env *spec.Env, fq string, v *spec.Val, validates func(string) bool) (jvm.Outcome, *jvm.Eval) {
	ev := u.P.NewEval(env)
	o := ev.Catch(func() {
		cls := u.validatorClass(fq)
		val := ev.Construct(cls)
		msg := ev.Build("message", fq, v)
		ev.Watch(val, msg)
		ev.Assert(val, msg, ev.Index(func(m *jvm.Obj) bool {
			if m.Opaque == "" || !validates(m.Type) {
				return false
			}
			bad, ok := env.Fact["invalid:"+m.Opaque]
			return ok && bad
		}))
	})
	return o, ev
}

// validatorClass is the class the message's validator is emitted as.
func (u *JavaUnit) validatorClass(fq string) string {
	name := fq[strings.LastIndex(fq, ".")+1:]
	return u.Outer + "$" + name + "Validator"
}

// CompareJava decides the verdicts of the emitted Java validator.
func (c *Ctx) CompareJava(e *Emission, u *JavaUnit, k *fam.Case) {
	fq := "." + e.B.File.Package + "." + k.Name
	if caseHas(k, "no_sparse") {
		c.Count("cases of rules Java does not offer", 1)
		return
	}
	for _, cv := range k.Vals {
		if javaSkip(k, cv) != "" {
			c.Count("values outside Java", 1)
			continue
		}
		ck := goChecker(e.B, cv.Env)
		ck.Name = func(s string) string { return fq + "." + s }
		want, err := ck.Violations(fq, cv.Val)
		if err != nil {
			panic(fmt.Sprintf("%s %s: %v", k.Desc, cv.Val, err))
		}
		c.Count("abstract values", 1)
		bad := func(f string, a ...interface{}) {
			c.Violate("java/"+k.Desc, c.where(e.Run.In), "%s, value %s with %s: Java: %s", k.Desc, cv.Val, relevant(cv.Env), fmt.Sprintf(f, a...))
		}
		var envs []*spec.Env
		for _, e := range upper(k, cv.Env) {
			envs = append(envs, javaEnv(e, caseHas(k, "bytes") && (caseHas(k, "ip") || caseHas(k, "ipv4") || caseHas(k, "ipv6")) && !caseHas(k, "len") && !caseHas(k, "min_len") && !caseHas(k, "max_len"))...)
		}
		for _, env := range envs {
			o, ev := u.javaValidate(env, fq, cv.Val, ck.Validates)
			c.Count("obligations", 1)
			for f := range ev.Used {
				if strings.HasPrefix(f, "io.envoyproxy.pgv.") {
					c.mu.Lock()
					c.Covered["class "+f] = true
					c.mu.Unlock()
				}
			}
			switch {
			case o.Undec != "":
				bad("the outcome is not determined: %s", o.Undec)
			case o.Thrown == nil:
				if len(want) > 0 {
					bad("the value is accepted although %v is violated", want)
				}
			case len(want) == 0:
				bad("%s is thrown although every constraint holds", ev.Describe(o.Thrown))
			default:
				if ev.Tag(o.Thrown) != "" {
					ok := false
					for _, w := range want {
						ok = ok || w.Nested == ev.Tag(o.Thrown)
					}
					if !ok {
						bad("the violation of %s is reported, violated are %v", ev.Tag(o.Thrown), want)
					}
					break
				}
				field, ok := ev.ViolatedField(o.Thrown)
				if !ok {
					bad("%s is thrown instead of a validation exception", ev.Describe(o.Thrown))
					break
				}
				ok = false
				for _, w := range want {
					p := w.Path
					if i := strings.Index(p, "["); i >= 0 {
						p = p[:i]
					}
					ok = ok || p == field && w.Nested == ""
				}
				if !ok {
					bad("the field %q is reported, violated are %v", field, want)
				}
			}
		}
	}
}

// upper adds environments in which some or all of the symbolic unsigned
// numbers have their top bit set.
func upper(k *fam.Case, env *spec.Env) []*spec.Env {
	out := []*spec.Env{env}
	half, step := 0.0, 1.0
	switch {
	case caseHas(k, "uint32") || caseHas(k, "fixed32"):
		half = 1 << 31
	case caseHas(k, "uint64") || caseHas(k, "fixed64"):
		half, step = 1<<63, 65536 // stay apart in a float64
	default:
		return out
	}
	var ranks []float64
	for _, r := range env.Rank {
		ranks = append(ranks, r)
	}
	sort.Float64s(ranks)
	for i, r := range ranks {
		if r <= 0 || i > 0 && ranks[i-1] == r {
			continue
		}
		e := env.Clone()
		for s, x := range env.Rank {
			if x >= r {
				e.R(s, half+x*step)
			}
		}
		out = append(out, e)
	}
	return out
}
