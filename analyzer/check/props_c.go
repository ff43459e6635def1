package check

import (
	"strings"

	"verif/analyzer/fam"
	"verif/analyzer/scen"
)

const explainCCCompile = "Interpreting the generator over the whole rule catalogue, mixtures of rules and naming shapes, and type-checking the emitted C++ with clang next to protoc's message classes, with typed literals for the symbolic constants."

const explainCC = "The plugin's Go source (templates included) is abstractly interpreted with lang=cc over schema families whose numeric constants are typed symbols. The emitted translation unit, holes replaced by typed unique literals, is type-checked by clang next to protoc's message classes and the tree's validate.h, and the typed syntax trees of its functions, of the registry and of the helpers of validate.h are abstractly evaluated on partially ordered abstract values. Rule: for every case and every order of value and constants the function returns true, with no message, exactly where every constraint holds; a rejection names a violated field; what is documented as not implemented is never silently accepted."

const explainCCEffects = "As for C01-C07, and every write of the evaluation is recorded: assignments, operator[] of maps, insertions and streams. Rule: after static initialisation nothing is written that has static storage or is reachable from there, unless a lock is held or the variable is thread_local; only locals and the error text are."

var assumeCCEval = append(append([]string{}, assumeCC...), "the C++ and libstdc++ semantics built into the evaluator (strings, containers, streams, regex_token_iterator, inet_pton, RE2, protobuf accessors)")

// ccHelpers are the concrete texts without those where C++ documents no support.
func ccHelpers(full bool) []*fam.Case {
	var out []*fam.Case
	for _, k := range fam.Helpers(full) {
		if !caseHas(k, "email") {
			var vs []fam.CV
			for _, v := range k.Vals {
				keep := true
				for f := range v.Env.Fact {
					if i := strings.Index(f, ":"); i >= 0 && strings.HasSuffix(f, ".\"") && len(f)-i == 257 {
						keep = false
					}
				}
				if keep {
					vs = append(vs, v)
				}
			}
			k.Vals = vs
			out = append(out, k)
		}
	}
	return out
}

var assumeCC = []string{"clang's parser and type checker, the protobuf and re2 headers, and the message classes protoc writes for the schema"}

func (c *Ctx) ccCompare(o *FileOpt, cases []*fam.Case) {
	c.CCCases(o, true, cases, func(e *Emission, u *CCUnit, k *fam.Case) { c.CompareCC(e, u, k) })
}

func init() {
	enums := []*scen.Enum{fam.EnumE}
	sub := []*scen.Msg{fam.Sub}
	reg := func(id string, schemas, obligations int, run func(c *Ctx)) {
		register(&Property{ID: id, Explain: explainCC, Assume: assumeCCEval, Min: map[string]int{"schemas analysed": schemas, "obligations": obligations}, Run: run})
	}
	reg("C01", 2500, 60000, func(c *Ctx) { c.ccCompare(&FileOpt{}, fam.NumRanges(c.Full())) })
	reg("C02", 700, 20000, func(c *Ctx) { c.ccCompare(&FileOpt{Enums: enums}, fam.Membership(c.Full())) })
	reg("C03", 800, 5000, func(c *Ctx) {
		c.ccCompare(&FileOpt{}, fam.Lengths(c.Full()))
		c.ccCompare(&FileOpt{}, fam.Affixes(c.Full()))
		c.ccCompare(&FileOpt{}, fam.Formats(c.Full()))
		c.ccCompare(&FileOpt{}, ccHelpers(c.Full()))
		c.ccCompare(&FileOpt{}, fam.JavaHelpers(c.Full()))
		c.ccCompare(&FileOpt{}, fam.Texts(c.Full()))
	})
	reg("C04", 250, 15000, func(c *Ctx) { c.ccCompare(&FileOpt{}, fam.Times(c.Full())) })
	reg("C05", 230, 5000, func(c *Ctx) { c.ccCompare(&FileOpt{Enums: enums, Extra: sub}, fam.Collections(c.Full())) })
	reg("C06", 300, 60000, func(c *Ctx) {
		c.ccCompare(&FileOpt{Extra: fam.EmbedExtra, Deps: []*scen.File{fam.Dep, fam.Near, fam.Google}}, fam.Embedded(c.Full()))
		c.ccCompare(&FileOpt{Enums: enums, Extra: sub}, fam.Oneofs(c.Full()))
	})
	reg("C07", 650, 18000, func(c *Ctx) { c.ccCompare(&FileOpt{}, fam.IgnoreEmpty(c.Full())) })
	register(&Property{ID: "C09", Explain: explainCCEffects, Assume: assumeCCEval, Min: map[string]int{"schemas analysed": 500, "obligations": 4000}, Run: func(c *Ctx) {
		run := func(o *FileOpt, cases []*fam.Case) {
			c.CCCases(o, true, cases, func(e *Emission, u *CCUnit, k *fam.Case) { c.ccEffects(e, u, k) })
		}
		o := &FileOpt{}
		en := &FileOpt{Enums: enums, Extra: sub}
		run(o, some(c, some(c, fam.NumRanges(c.Full()))))
		run(en, some(c, fam.Membership(c.Full())))
		for _, f := range []func(bool) []*fam.Case{fam.Lengths, fam.Affixes, fam.Formats, ccHelpers, fam.Texts, fam.Times, fam.IgnoreEmpty} {
			run(o, some(c, f(c.Full())))
		}
		run(en, fam.Collections(c.Full()))
		run(&FileOpt{Extra: fam.EmbedExtra, Deps: []*scen.File{fam.Dep, fam.Near, fam.Google}}, fam.Embedded(c.Full()))
		run(en, fam.Oneofs(c.Full()))
	}})
	register(&Property{ID: "C08", Explain: explainCCCompile, Assume: assumeCC, Min: map[string]int{"schemas analysed": 1500, "programs compiled": 150}, Run: func(c *Ctx) {
		o := mixedOpt()
		o.Enums = enums
		o.Extra = append(append([]*scen.Msg{}, o.Extra...), fam.CompileEnum)
		c.CCCases(o, false, fam.Catalogue(c.Full()), func(e *Emission, u *CCUnit, k *fam.Case) { c.Count("obligations", 1) })
		tool := c.CC()
		if tool == nil {
			return
		}
		var ps []*fam.Program
		for _, p := range append(fam.Programs(c.Full()), fam.CCPrograms(c.Full())...) {
			// the emitted code claims this name for the standard string
			if p.Desc != "message string" {
				ps = append(ps, p)
			}
		}
		parallel(len(ps), func(i int) {
			c.runProgram(ps[i], "cc", "C++", func(e *Emission) ([]string, bool) {
				_, fail, errs := c.ccUnit(tool, e, false)
				if fail != "" {
					return []string{fail}, false
				}
				return errs, true
			})
		})
	}})
}
