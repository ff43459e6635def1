package check

import (
	"fmt"
	"strings"

	"verif/analyzer/absint"
	"verif/analyzer/fam"
	"verif/analyzer/jvm"
	"verif/analyzer/scen"
	"verif/analyzer/spec"
)

const explainJava = "The plugin's Go source (templates included) is abstractly interpreted with lang=java over every schema shape of the family with symbolic bounds; javac parses and attributes the emitted classes together with the runtime library of the tree, and their typed syntax trees (assertValid and everything it reaches in the runtime) are abstractly evaluated at every order/presence/predicate position of the value. Rule: the validator returns normally exactly if every constraint holds, and otherwise throws a validation exception that names a violated field."

var assumeJava = []string{
	"text/template and protoc-gen-star behave as documented (they are modelled, or interpreted from source where pure)",
	"the JDK, protobuf-java, re2j and commons-validator behave as documented (modelled); message classes are the stubs the analyser derives from protoc's naming rules",
}

func (c *Ctx) javaCompare(o *FileOpt, cases []*fam.Case) {
	c.JavaCases(o, cases, func(e *Emission, u *JavaUnit, k *fam.Case) { c.CompareJava(e, u, k) })
}

func init() {
	enums := []*scen.Enum{fam.EnumE}
	sub := []*scen.Msg{fam.Sub}
	reg := func(id string, schemas, obligations int, run func(c *Ctx)) {
		register(&Property{ID: id, Explain: explainJava, Assume: assumeJava, Min: map[string]int{"schemas analysed": schemas, "obligations": obligations}, Run: run})
	}
	reg("J01", 700, 10000, func(c *Ctx) { c.javaCompare(&FileOpt{}, fam.NumRanges(c.Full())) })
	reg("J02", 400, 3000, func(c *Ctx) { c.javaCompare(&FileOpt{Enums: enums}, fam.Membership(c.Full())) })
	reg("J03", 700, 4000, func(c *Ctx) {
		c.javaCompare(&FileOpt{}, fam.Lengths(c.Full()))
		c.javaCompare(&FileOpt{}, fam.Affixes(c.Full()))
		c.javaCompare(&FileOpt{}, fam.Formats(c.Full()))
		c.javaCompare(&FileOpt{}, fam.Texts(c.Full()))
		c.javaCompare(&FileOpt{}, fam.JavaHelpers(c.Full()))
	})
	reg("J04", 100, 1500, func(c *Ctx) { c.javaCompare(&FileOpt{}, fam.Times(c.Full())) })
	reg("J05", 100, 1500, func(c *Ctx) { c.javaCompare(&FileOpt{Enums: enums, Extra: sub}, fam.Collections(c.Full())) })
	reg("J06", 150, 1000, func(c *Ctx) {
		c.javaCompare(&FileOpt{Extra: fam.EmbedExtra, Deps: []*scen.File{fam.Dep, fam.Near, fam.Google}}, fam.Embedded(c.Full()))
		c.javaCompare(&FileOpt{Enums: enums, Extra: sub}, fam.Oneofs(c.Full()))
	})
	reg("J07", 400, 3000, func(c *Ctx) { c.javaCompare(&FileOpt{}, fam.IgnoreEmpty(c.Full())) })
}

const explainJavaCompile = "The plugin's Go source (templates included) is abstractly interpreted with lang=java over a catalogue of every rule of every kind in every context, mixtures of rules in one message, and programs over naming shapes of files, packages, messages, fields and enums. Rule: on every abstract path code is emitted without error and the emitted classes, holes replaced by typed constants, are accepted by javac's parser and attribution next to the message classes of protoc and the runtime library of the tree."

// runProgram emits the code of one set of files generated together.
func (c *Ctx) runProgram(p *fam.Program, lang, what string, compile func(e *Emission) (bad []string, expressible bool)) {
	names := p.Targets
	if len(names) == 0 {
		names = []string{p.Root.Name}
	}
	in := map[string]bool{}
	for _, n := range names {
		in[n] = true
	}
	var mark func(f *scen.File)
	mark = func(f *scen.File) {
		if in[f.Name] {
			in[f.Name] = false
			f.Imports = append(f.Imports, "validate/validate.proto")
		}
		for _, d := range f.Deps {
			mark(d)
		}
	}
	mark(p.Root)
	b, err := scen.Build(p.Root)
	if err != nil {
		panic(p.Desc + ": " + err.Error())
	}
	var script []int
	for n := 0; n < 64; n++ {
		or := &absint.Oracle{Script: script}
		order := map[string]float64{}
		for k, v := range fam.Base {
			order[k] = v
			order["sec:"+k], order["nanos:"+k] = v, 0
		}
		for k, v := range spec.Classes() {
			order[absint.KeyOf(k)] = v
		}
		r := &scen.Run{W: c.W, B: b, Params: map[string]string{"lang": lang}, Order: order}
		for _, t := range p.Targets {
			r.Targets = append(r.Targets, b.PFileOf(t))
		}
		out := r.Execute(or)
		c.Count("abstract plugin runs", 1)
		c.Count("obligations", 1)
		c.cover(r.In)
		if s := out.String(); s != "accepted" {
			c.Violate(lang+"-emit/"+p.Desc, c.where(r.In)+" "+out.Pos.String(), "a well-formed program (%s) is not turned into %s code: %s", p.Desc, what, s)
		} else {
			errs, ok := compile(&Emission{B: b, Out: out, Run: r})
			if len(errs) > 0 && !ok {
				c.Count("programs whose message classes are not "+what, 1)
			} else if len(errs) > 0 {
				c.Violate(lang+"-compile/"+p.Desc, c.where(r.In), "the code emitted for %s is not valid %s: %s", p.Desc, what, strings.Join(errs, "; "))
			}
			c.Count("programs compiled", 1)
		}
		if script = or.Next(); script == nil {
			break
		}
	}
}

func init() {
	register(&Property{ID: "J09", Explain: explainJavaCompile, Assume: assumeJava, Min: map[string]int{"schemas analysed": 1500, "programs compiled": 150},
		Run: func(c *Ctx) {
			o := mixedOpt()
			o.Enums = []*scen.Enum{fam.EnumE}
			o.Extra = append(append([]*scen.Msg{}, o.Extra...), fam.CompileEnum)
			var cat []*fam.Case
			for _, k := range fam.Catalogue(c.Full()) {
				if !caseHas(k, "no_sparse") {
					cat = append(cat, k)
				}
			}
			c.JavaCases(o, cat, func(e *Emission, u *JavaUnit, k *fam.Case) { c.Count("obligations", 1) })
			tool := c.Java()
			if tool == nil {
				return
			}
			ps := append(fam.Programs(c.Full()), fam.JavaPrograms(c.Full())...)
			parallel(len(ps), func(i int) {
				c.runProgram(ps[i], "java", "Java", func(e *Emission) ([]string, bool) {
					_, errs := c.javaUnit(tool, e)
					return errs, len(errs) == 0 || tool.Expressible(e.B.File)
				})
			})
		}})
}

const explainJavaEffects = "The plugin's Java source is obtained by abstract interpretation of the generator over the families of rules of every kind; the emitted validators and the runtime of the tree are parsed and attributed by javac and evaluated abstractly on values of every shape. Rule: evaluating assertValid writes no static field after class initialisation, no field, element or entry of an object that existed before the call (the validator, what its class shares, what other calls can reach), unless the object is made for several threads or a lock is held."

func init() {
	register(&Property{ID: "J10", Explain: explainJavaEffects, Assume: assumeJava, Min: map[string]int{"schemas analysed": 600, "obligations": 6000},
		Run: func(c *Ctx) {
			enums := []*scen.Enum{fam.EnumE}
			sub := []*scen.Msg{fam.Sub}
			run := func(o *FileOpt, cases []*fam.Case) {
				c.JavaCases(o, cases, func(e *Emission, u *JavaUnit, k *fam.Case) { c.javaEffects(e, u, k) })
			}
			run(&FileOpt{Enums: enums}, some(c, fam.Membership(c.Full())))
			run(&FileOpt{}, some(c, fam.Texts(c.Full())))
			run(&FileOpt{}, some(c, fam.Times(c.Full())))
			run(&FileOpt{Enums: enums, Extra: sub}, fam.Collections(c.Full()))
			run(&FileOpt{Extra: fam.EmbedExtra, Deps: []*scen.File{fam.Dep, fam.Near, fam.Google}}, some(c, fam.Embedded(c.Full())))
			run(&FileOpt{Enums: enums, Extra: sub}, some(c, fam.Oneofs(c.Full())))
			c.indexUnits(func(layout string, tool *jvm.Tool, u *JavaUnit) { c.indexEffects(layout, tool, u) })
		}})
}

// indexEffects reports what looking up a validator or intercepting a call
// writes into the index or interceptor that all threads share.
func (c *Ctx) indexEffects(layout string, tool *jvm.Tool, u *JavaUnit) {
	env := &spec.Env{Rank: map[string]float64{}, Fact: map[string]bool{}}
	for k, v := range fam.Base {
		env.R(k, v)
	}
	x := func(sym string) *spec.Val { return spec.Msg(map[string]*spec.Val{"x": spec.Sym(sym)}) }
	in := func(f string, v *spec.Val) *spec.Val { return spec.Msg(map[string]*spec.Val{f: v}) }
	for _, v := range []struct {
		fq string
		v  *spec.Val
	}{{".t.In", x("hi")}, {".t.In", x("lo")}, {".t.Out", in("in", x("hi"))}, {".t.Out", in("list", spec.List(x("hi"), x("lo")))}, {".t.Off", x("lo")}, {".t.Gone", x("lo")}, {".t.Out", in("d", x("lo"))}} {
		for _, kind := range []string{"Reflective", "Explicit", "Client", "Server"} {
			ev := u.P.NewEval(env)
			o := ev.Catch(func() {
				var args []jvm.Value
				how, index := "sharedReflective", jvm.Value(nil)
				if kind == "Explicit" {
					cls := jvm.Class{Name: u.St.Class[".t.In"]}
					how, args = "sharedExplicit", []jvm.Value{cls, ev.CallStatic(u.holder(cls.Name, ".t.In"), "validatorFor", []jvm.Value{cls})}
				}
				index = ev.CallStatic("verif.Probe", how, args)
				use := "useIndex"
				if kind == "Client" || kind == "Server" {
					index = ev.CallStatic("verif.Probe", "shared"+kind, []jvm.Value{index})
					use = "use" + kind
				}
				msg := ev.Build("message", v.fq, v.v)
				ev.Watch(index, msg)
				ev.CallStatic("verif.Probe", use, []jvm.Value{index, msg})
				ev.CallStatic("verif.Probe", use, []jvm.Value{index, msg})
			})
			c.Count("obligations", 1)
			d := fmt.Sprintf("%s, %s for %s %s", layout, strings.ToLower(kind), v.fq, v.v)
			if o.Undec != "" {
				c.Violate("java-effect/"+d, strings.Join(tool.Runtime, ", "), "%s: the effects are not determined: %s", d, o.Undec)
			}
			for _, x := range ev.Effects() {
				c.Violate("java-effect/"+d+"/"+x, strings.Join(tool.Runtime, ", "), "%s: Java: %s", d, x)
			}
		}
	}
}

// some is every case in the thorough tier and every third one otherwise.
func some(c *Ctx, ks []*fam.Case) []*fam.Case {
	if c.Full() {
		return ks
	}
	var out []*fam.Case
	for i, k := range ks {
		if i%3 == 0 {
			out = append(out, k)
		}
	}
	return out
}

// javaEffects reports what a validation writes and others can see.
func (c *Ctx) javaEffects(e *Emission, u *JavaUnit, k *fam.Case) {
	fq := "." + e.B.File.Package + "." + k.Name
	if caseHas(k, "no_sparse") {
		return
	}
	for _, cv := range k.Vals {
		if javaSkip(k, cv) != "" {
			continue
		}
		ck := goChecker(e.B, cv.Env)
		c.Count("abstract values", 1)
		for _, env := range javaEnv(cv.Env, false) {
			_, ev := u.javaValidate(env, fq, cv.Val, ck.Validates)
			c.Count("obligations", 1)
			for _, x := range ev.Effects() {
				c.Violate("java-effect/"+k.Desc+"/"+x, c.where(e.Run.In), "%s, value %s with %s: Java: %s", k.Desc, cv.Val, relevant(env), x)
			}
		}
	}
}
