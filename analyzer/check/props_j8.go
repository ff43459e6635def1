package check

import (
	_ "embed"
	"fmt"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"

	"verif/analyzer/absint"
	"verif/analyzer/fam"
	"verif/analyzer/jvm"
	"verif/analyzer/scen"
	"verif/analyzer/spec"
)

//go:embed Probe.java.txt
var probeSrc string

const explainJavaIndex = "The Java validators emitted for a set of messages that embed each other, and the runtime library's validator indexes and gRPC interceptors, are type-checked by javac; uses of them (a lookup by class or by instance, a repeated lookup, a fallback index, registration before and after a lookup, sequences of sent and received messages) are abstractly evaluated at every order position of the field values. Rule: the index applies exactly the rules of the generated validator of the class, recursively, and its fallback otherwise; the interceptors let a message pass exactly if it is valid and otherwise fail the call with INVALID_ARGUMENT and the violated field."

// probeUse is one abstract use of the runtime.
type probeUse struct {
	desc string
	sig  string
	args func(ev *jvm.Eval) []jvm.Value
}

func init() {
	register(&Property{ID: "J08", Explain: explainJavaIndex, Assume: assumeJava, Min: map[string]int{"obligations": 500, "programs compiled": 4}, Run: runJavaIndex})
}

// indexUnits compiles a set of messages that embed each other, with each
// layout of Java files, together with the uses of the runtime library.
func (c *Ctx) indexUnits(use func(name string, tool *jvm.Tool, u *JavaUnit)) {
	tool := c.Java()
	if tool == nil {
		return
	}
	R := func(m scen.R) scen.R { return m }
	in := func(n, t string) *scen.Field { return &scen.Field{Name: n, Kind: "message", Type: t} }
	gt := func(n string) *scen.Field {
		return &scen.Field{Name: n, Kind: "int32", Rules: R(scen.R{"int32": scen.R{"gt": scen.L("lo")}})}
	}
	opts := []struct {
		d string
		o func(o *descriptorpb.FileOptions)
	}{
		{"one class", nil},
		{"multiple files", func(o *descriptorpb.FileOptions) { o.JavaMultipleFiles = proto.Bool(true) }},
		{"java_package", func(o *descriptorpb.FileOptions) { o.JavaPackage = proto.String("com.example.x") }},
		{"java_outer_classname", func(o *descriptorpb.FileOptions) { o.JavaOuterClassname = proto.String("Custom_Outer") }},
	}
	parallel(len(opts), func(oi int) {
		opt := opts[oi]
		dep := &scen.File{Name: "d/d.proto", Package: "d", GoPackage: "example.com/d;d", Msgs: []*scen.Msg{{Name: "D", Fields: []*scen.Field{{Name: "x", Kind: "int32"}}}}}
		f := &scen.File{Name: "dir/foo.proto", Package: "t", GoPackage: "example.com/t;t", Options: opt.o, Deps: []*scen.File{dep}, Imports: []string{"validate/validate.proto"}, Msgs: []*scen.Msg{
			{Name: "In", Fields: []*scen.Field{gt("x")}},
			{Name: "Out", Nested: []*scen.Msg{{Name: "Deep", Fields: []*scen.Field{gt("y")}, Nested: []*scen.Msg{{Name: "Er", Fields: []*scen.Field{gt("z")}}}}, {Name: "In", Fields: []*scen.Field{gt("w")}}},
				Fields: []*scen.Field{in("in", ".t.In"), {Name: "list", Kind: "message", Type: ".t.In", Repeated: true}, {Name: "table", Kind: "message", Type: ".t.In", MapKey: "string"}, in("deep", ".t.Out.Deep"), in("er", ".t.Out.Deep.Er"), in("own", ".t.Out.In"), in("gone", ".t.Gone"), in("off", ".t.Off"), in("d", ".d.D")},
				Oneofs: []*scen.Oneof{{Name: "choice", Fields: []*scen.Field{in("pick", ".t.In")}}}},
			{Name: "Gone", Ignored: true, Fields: []*scen.Field{gt("x")}},
			{Name: "Off", Disabled: true, Fields: []*scen.Field{gt("x")}},
		}}
		b, err := scen.Build(f)
		if err != nil {
			panic(err)
		}
		order := map[string]float64{}
		for k, v := range fam.Base {
			order[k] = v
		}
		r := &scen.Run{W: c.W, B: b, Params: map[string]string{"lang": "java"}, Order: order}
		out := r.Execute(&absint.Oracle{})
		c.Count("abstract plugin runs", 1)
		c.cover(r.In)
		if s := out.String(); s != "accepted" {
			c.Violate("java-index/"+opt.d, c.where(r.In)+" "+out.Pos.String(), "well-formed messages (%s) are not turned into Java code: %s", opt.d, s)
			return
		}
		u, errs := c.javaUnit(tool, &Emission{B: b, Out: out, Run: r}, jvm.Source{Name: "verif/Probe.java", Text: probeSrc, Dump: true})
		if len(errs) > 0 {
			c.Violate("java-index/"+opt.d, c.where(r.In), "%s: the emitted code and the runtime library cannot be used together: %s", opt.d, strings.Join(errs, "; "))
			return
		}
		c.Count("programs compiled", 1)
		use(opt.d, tool, u)
	})
}

func runJavaIndex(c *Ctx) {
	c.indexUnits(func(layout string, tool *jvm.Tool, u *JavaUnit) {
		type mv struct {
			fq    string
			v     *spec.Val
			x     string // the number that decides, if any
			field string
			// what a message without a validator does: "" decided by x
			none bool
		}
		m := func(f string, v *spec.Val) *spec.Val { return spec.Msg(map[string]*spec.Val{f: v}) }
		x := func(f string) *spec.Val { return m(f, spec.Sym("x")) }
		empty := spec.Msg(map[string]*spec.Val{})
		ok := m("x", spec.Sym("hi"))
		vals := []mv{
			{".t.In", x("x"), "x", ".t.In.x", false},
			{".t.Out.Deep", x("y"), "x", ".t.Out.Deep.y", false},
			{".t.Out.Deep.Er", x("z"), "x", ".t.Out.Deep.Er.z", false},
			{".t.Out.In", x("w"), "x", ".t.Out.In.w", false},
			{".t.Out", empty, "", "", false},
			{".t.Out", m("in", x("x")), "x", ".t.In.x", false},
			{".t.Out", m("list", spec.List(ok, x("x"))), "x", ".t.In.x", false},
			{".t.Out", m("table", spec.Map(spec.Conc("k"), ok, spec.Conc("l"), x("x"))), "x", ".t.In.x", false},
			{".t.Out", m("deep", x("y")), "x", ".t.Out.Deep.y", false},
			{".t.Out", m("er", x("z")), "x", ".t.Out.Deep.Er.z", false},
			{".t.Out", m("own", x("w")), "x", ".t.Out.In.w", false},
			{".t.Out", m("pick", x("x")), "x", ".t.In.x", false},
			{".t.Out", m("off", x("x")), "", "", false},
			{".t.Off", x("x"), "", "", false},
			{".t.Gone", x("x"), "", "", true},
			{".d.D", x("x"), "", "", true},
			{".t.Out", m("gone", x("x")), "", "", true},
			{".t.Out", m("d", x("x")), "", "", true},
		}
		var envs []*spec.Env
		for _, rank := range []float64{-1e9, fam.Base["lo"] - 1, fam.Base["lo"], fam.Base["lo"] + 1, 1e9} {
			e := &spec.Env{Rank: map[string]float64{}, Fact: map[string]bool{}}
			for k, v := range fam.Base {
				e.R(k, v)
			}
			e.R("x", rank)
			envs = append(envs, e)
		}
		text := func(s string) jvm.Value { return jvm.Text{S: s} }
		use := func(desc, method string, env *spec.Env, args func(ev *jvm.Eval) []jvm.Value) {
			c.Count("obligations", 1)
			ev := u.P.NewEval(env)
			var got jvm.Value
			o := ev.Catch(func() { got = ev.CallStatic("verif.Probe", method, args(ev)) })
			for f := range ev.Used {
				if strings.HasPrefix(f, "io.envoyproxy.pgv.") {
					c.mu.Lock()
					c.Covered["class "+f] = true
					c.mu.Unlock()
				}
			}
			bad := ""
			switch t, is := got.(jvm.Text); {
			case o.Undec != "":
				bad = "the outcome is not determined: " + o.Undec
			case o.Thrown != nil:
				bad = ev.Describe(o.Thrown) + " is thrown"
			case !is || t.Free:
				bad = "the outcome is not determined"
			default:
				bad = t.S
			}
			if bad != "" {
				c.Violate("java-index/"+desc, strings.Join(tool.Runtime, ", "), "%s, %s with %s: %s", layout, desc, relevant(env), bad)
			}
		}
		const invalid = "UNKNOWN"
		for _, v := range vals {
			for _, env := range envs {
				if v.x == "" && env != envs[0] {
					continue
				}
				isBad := v.x != "" && env.Rank["x"] <= env.Rank["lo"]
				arg := func(bad bool, field string) func(ev *jvm.Eval) []jvm.Value {
					return func(ev *jvm.Eval) []jvm.Value {
						if !bad {
							field = ""
						}
						return []jvm.Value{ev.Build("message", v.fq, v.v), bad, text(field)}
					}
				}
				d := fmt.Sprintf("%s %s", v.fq, v.v)
				// after messages of every other class
				var others []mv
				seen := map[string]bool{v.fq: true}
				for _, o := range vals {
					if !seen[o.fq] {
						seen[o.fq] = true
						others = append(others, o)
					}
				}
				after := func(how string, env *spec.Env, isBad bool, field string) {
					use(how+" "+d, how, env, func(ev *jvm.Eval) []jvm.Value {
						ms, cs, is := &jvm.Arr{}, &jvm.Arr{}, &jvm.Arr{}
						for _, o := range append(others[:len(others):len(others)], v) {
							if how == "explicitAfter" {
								if o.none {
									continue
								}
								cls := jvm.Class{Name: u.St.Class[o.fq]}
								cs.E = append(cs.E, cls)
								is.E = append(is.E, ev.CallStatic(u.holder(cls.Name, o.fq), "validatorFor", []jvm.Value{cls}))
							}
							ms.E = append(ms.E, ev.Build("message", o.fq, o.v))
						}
						a := arg(isBad, field)(ev)
						if how == "explicitAfter" {
							return append([]jvm.Value{cs, is, ms}, a...)
						}
						return append([]jvm.Value{ms}, a...)
					})
				}
				after("reflectiveAfter", env, isBad, v.field)
				if !v.none && v.fq != ".t.Out" {
					after("explicitAfter", env, isBad, v.field)
				}
				for _, how := range []string{"reflective", "reflectiveOfInstance", "reflectiveAgain", "reflectiveTwo", "explicitElseReflective"} {
					use(how+" "+d, how, env, arg(isBad, v.field))
				}
				for _, how := range []string{"reflectiveElse", "reflectiveElseTwo", "reflectiveElseExplicit"} {
					b, f := isBad, v.field
					if v.none {
						b, f = true, invalid
					}
					use(how+" "+d, how, env, arg(b, f))
				}
				// registered: the validator of the message alone
				if v.none && v.fq != ".t.Out" {
					continue
				}
				for _, how := range []string{"explicit", "explicitElse", "explicitElseTwo", "explicitLate"} {
					top := v.fq != ".t.Out" || v.v == empty
					b, f := isBad && top, v.field
					if !top && how != "explicit" {
						b, f = true, invalid // what is embedded has no validator
					}
					use(how+" "+d, how, env, func(ev *jvm.Eval) []jvm.Value {
						cls := jvm.Class{Name: u.St.Class[v.fq]}
						holder := u.holder(cls.Name, v.fq)
						impl := ev.CallStatic(holder, "validatorFor", []jvm.Value{cls})
						if !b {
							f = ""
						}
						return []jvm.Value{cls, impl, ev.Build("message", v.fq, v.v), b, text(f)}
					})
				}
				if f := v.v.Fields; v.fq == ".t.Out" && (f["in"] != nil || f["list"] != nil || f["table"] != nil || f["pick"] != nil) {
					use("explicitBoth "+d, "explicitBoth", env, func(ev *jvm.Eval) []jvm.Value {
						var out []jvm.Value
						for _, fq := range []string{".t.Out", ".t.In"} {
							cls := jvm.Class{Name: u.St.Class[fq]}
							out = append(out, cls, ev.CallStatic(u.holder(cls.Name, fq), "validatorFor", []jvm.Value{cls}))
						}
						return append(out, arg(isBad, v.field)(ev)...)
					})
				}
				if env == envs[0] && v.x != "" {
					// not registered
					use("explicitElse unregistered "+d, "explicitElse", env, func(ev *jvm.Eval) []jvm.Value {
						return []jvm.Value{jvm.Class{Name: "java.lang.String"}, ev.Static("io.envoyproxy.pgv.ValidatorImpl", "ALWAYS_VALID"), ev.Build("message", v.fq, v.v), true, text(invalid)}
					})
				}
			}
		}
		// sequences of messages
		max := 3
		if c.Full() {
			max = 5
		}
		for n := 0; n <= max; n++ {
			for bits := 0; bits < 1<<n; bits++ {
				for _, how := range []string{"client", "server", "clientShared", "serverShared"} {
					desc := fmt.Sprintf("%s sequence of %d, invalid %0*b", how, n, n, bits)
					use(desc, how, envs[0], func(ev *jvm.Eval) []jvm.Value {
						ms, bs := &jvm.Arr{}, &jvm.Arr{}
						for i := 0; i < n; i++ {
							bad := bits>>i&1 == 1
							sym := "hi"
							if bad {
								sym = "lo"
							}
							// messages of two classes that share a simple name
							if i%2 == 0 {
								ms.E = append(ms.E, ev.Build("message", ".t.In", m("x", spec.Sym(sym))))
							} else {
								ms.E = append(ms.E, ev.Build("message", ".t.Out.In", m("w", spec.Sym(sym))))
							}
							bs.E = append(bs.E, bad)
						}
						return []jvm.Value{ms, bs}
					})
				}
			}
		}
	})
}

// holder is the class whose validatorFor knows the validator of a message.
func (u *JavaUnit) holder(cls, fq string) string {
	if i := strings.Index(cls, "$"); i >= 0 {
		cls = cls[:i]
	}
	return cls + "Validator"
}
