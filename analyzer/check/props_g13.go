package check

import (
	"strings"

	"verif/analyzer/absint"
	"verif/analyzer/fam"
	"verif/analyzer/golang"
	"verif/analyzer/scen"
	"verif/analyzer/spec"
)

const explainCompile = "The plugin's Go source (templates included) is abstractly interpreted over a catalogue of every rule of every kind in every context, mixtures of rules in one message, and programs of one or two files over naming shapes of files, packages, messages, fields and foreign enums. Rule: on every abstract path code is emitted without error and the emitted package, holes replaced by typed constants, passes the Go type checker together with the declarations of protoc-gen-go."

// program analyses one set of files generated together.
func (c *Ctx) program(p *fam.Program) {
	b, err := scen.Build(p.Root)
	if err != nil {
		panic(p.Desc + ": " + err.Error())
	}
	var script []int
	for n := 0; n < 64; n++ {
		or := &absint.Oracle{Script: script}
		order := map[string]float64{}
		for k, v := range fam.Base {
			order[k] = v
			order["sec:"+k], order["nanos:"+k] = v, 0
		}
		for k, v := range spec.Classes() {
			order[absint.KeyOf(k)] = v
		}
		r := &scen.Run{W: c.W, B: b, Params: map[string]string{"lang": "go"}, Order: order}
		for _, t := range p.Targets {
			r.Targets = append(r.Targets, b.PFileOf(t))
		}
		out := r.Execute(or)
		c.Count("abstract plugin runs", 1)
		c.Count("obligations", 1)
		c.cover(r.In)
		if s := out.String(); s != "accepted" {
			c.Violate("emit/"+p.Desc, c.where(r.In)+" "+out.Pos.String(), "a well-formed program (%s) is not turned into code: %s", p.Desc, s)
		} else {
			u := golang.Compile(c.W, b, out.Arts, false, p.Targets...)
			if len(u.Errors) > 0 || len(u.Flaws) > 0 {
				c.Violate("compile/"+p.Desc, c.where(r.In), "the code emitted for %s is not valid Go: %s", p.Desc, strings.Join(append(u.Errors, u.Flaws...), "; "))
			}
			c.Count("programs type-checked", 1)
		}
		if script = or.Next(); script == nil {
			break
		}
	}
}

func init() {
	register(&Property{ID: "G13", Explain: explainCompile, Assume: assumeGo, Min: map[string]int{"schemas analysed": 1800, "programs type-checked": 200},
		Run: func(c *Ctx) {
			o := mixedOpt()
			o.Enums = []*scen.Enum{fam.EnumE}
			o.Extra = append(append([]*scen.Msg{}, o.Extra...), fam.CompileEnum)
			o.Batch = 20
			cat := fam.Catalogue(c.Full())
			c.GoCases(o, cat, func(e *Emission, u *golang.Unit, k *fam.Case) { c.Count("obligations", 1) })
			p := *o
			p.Edit = func(f *scen.File) { f.Proto2 = true }
			c.GoCases(&p, proto2(cat), func(e *Emission, u *golang.Unit, k *fam.Case) { c.Count("obligations", 1) })
			ps := fam.Programs(c.Full())
			parallel(len(ps), func(i int) { c.program(ps[i]) })
			for i, s := range []int{7, 101} {
				m := mixedOpt()
				m.Batch = 10
				if i == 1 && !c.Full() {
					continue
				}
				c.GoCases(m, mixed(c, m, s), func(e *Emission, u *golang.Unit, k *fam.Case) { c.Count("obligations", 1) })
			}
		}})
}

const explainEffects = "The plugin's Go source (templates included) is abstractly interpreted over the catalogue of every rule of every kind in every context and mixtures of rules in one message; the emitted package is brought into SSA form and a flow-insensitive, interprocedural points-to analysis finds, for every store, map update, send, append, copy, delete, clear and call of a writing library function, whether the written object is the function's own, reachable from the message (or error) the method belongs to, or package-level state. Rule: outside package initialisation nothing is written that is not the function's own."

func init() {
	register(&Property{ID: "G15", Explain: explainEffects, Assume: assumeGo, Min: map[string]int{"schemas analysed": 1800, "functions analysed": 15000},
		Run: func(c *Ctx) {
			o := mixedOpt()
			o.Enums = []*scen.Enum{fam.EnumE}
			o.Extra = append(append([]*scen.Msg{}, o.Extra...), fam.CompileEnum)
			o.Batch, o.Lenient = 20, true
			c.GoCases(o, fam.Catalogue(c.Full()), c.effects)
			for i, s := range []int{7, 101} {
				m := mixedOpt()
				m.Batch, m.Lenient = 10, true
				if i == 1 && !c.Full() {
					continue
				}
				c.GoCases(m, mixed(c, m, s), c.effects)
			}
		}})
}

// effects reports lasting writes, once per emitted package.
func (c *Ctx) effects(e *Emission, u *golang.Unit, k *fam.Case) {
	if k != e.Cases[0] {
		return
	}
	es, n := u.Effects()
	c.Count("functions analysed", n)
	c.Count("obligations", n)
	for _, x := range es {
		desc := x.Fn
		for _, k := range e.Cases {
			if strings.Contains(x.Fn, "."+k.Name+")") || strings.HasSuffix(x.Fn, "."+k.Name) {
				desc = k.Desc + ", " + x.Fn
			}
		}
		c.Violate("effect/"+x.Fn+"/"+x.What, c.where(e.Run.In)+" "+x.Where, "%s: %s writes %s (%s)", desc, x.Fn, x.What, x.How)
	}
}
