package check

import (
	"verif/analyzer/fam"
	"verif/analyzer/golang"
	"verif/analyzer/scen"
)

const explainGo = "The plugin's Go source (templates included) is abstractly interpreted over every schema shape of the family with symbolic bounds; the emitted code, holes kept symbolic, is type-checked, lowered to SSA and its Validate and ValidateAll methods are abstractly interpreted at every order/presence/predicate position of the value. Rule: the verdict and the reported fields equal those of the documented semantics at every position."

var assumeGo = []string{
	"text/template, protoc-gen-star's Go naming and the standard library behave as documented (they are modelled, or interpreted from source where pure)",
	"the message types declared by protoc-gen-go are the stub types synthesised by the analyser",
}

func (c *Ctx) goCompare(o *FileOpt, cases []*fam.Case) {
	use := func(e *Emission, u *golang.Unit, k *fam.Case) { c.CompareGo(e, u, k) }
	c.GoCases(o, cases, use)
	p := *o
	p.Edit = func(f *scen.File) {
		if o.Edit != nil {
			o.Edit(f)
		}
		f.Proto2 = true
	}
	if old := proto2(cases); len(old) > 0 {
		c.GoCases(&p, old, use)
	}
}

// proto2 selects the cases that read a proto2 field with presence, and of
// their values those in which it is set.
func proto2(cases []*fam.Case) []*fam.Case {
	var out []*fam.Case
	for _, k := range cases {
		if len(k.Msg.Fields) != 1 || len(k.Msg.Oneofs) > 0 {
			continue
		}
		f := k.Msg.Fields[0]
		if f.Repeated || f.MapKey != "" || f.Kind == "message" {
			continue
		}
		q := *k
		q.Desc, q.Vals = "proto2 "+k.Desc, nil
		for _, v := range k.Vals {
			if v.Val == nil || v.Val.Nil || v.Val.Fields[f.Name] != nil {
				q.Vals = append(q.Vals, v)
			}
		}
		if len(q.Vals) > 0 {
			out = append(out, &q)
		}
	}
	return out
}

func init() {
	register(&Property{ID: "G01", Explain: explainGo, Assume: assumeGo, Min: map[string]int{"schemas analysed": 700, "obligations": 10000},
		Run: func(c *Ctx) { c.goCompare(&FileOpt{}, fam.NumRanges(c.Full())) }})
	register(&Property{ID: "G02", Explain: explainGo, Assume: assumeGo, Min: map[string]int{"schemas analysed": 400, "obligations": 6000},
		Run: func(c *Ctx) { c.goCompare(&FileOpt{Enums: []*scen.Enum{fam.EnumE}}, fam.Membership(c.Full())) }})
	register(&Property{ID: "G03", Explain: explainGo, Assume: assumeGo, Min: map[string]int{"schemas analysed": 200, "obligations": 4000},
		Run: func(c *Ctx) { c.goCompare(&FileOpt{}, fam.Lengths(c.Full())) }})
	register(&Property{ID: "G05", Explain: explainGo, Assume: assumeGo, Min: map[string]int{"schemas analysed": 120, "obligations": 2600},
		Run: func(c *Ctx) { c.goCompare(&FileOpt{}, fam.Times(c.Full())) }})
	register(&Property{ID: "G06", Explain: explainGo, Assume: assumeGo, Min: map[string]int{"schemas analysed": 180, "obligations": 6000},
		Run: func(c *Ctx) {
			c.goCompare(&FileOpt{Enums: []*scen.Enum{fam.EnumE}, Extra: []*scen.Msg{fam.Sub}}, fam.Collections(c.Full()))
		}})
	register(&Property{ID: "G07", Explain: explainGo, Assume: assumeGo, Min: map[string]int{"schemas analysed": 200, "obligations": 2400},
		Run: func(c *Ctx) {
			c.goCompare(&FileOpt{Extra: fam.EmbedExtra, Deps: []*scen.File{fam.Dep, fam.Near, fam.Google}}, fam.Embedded(c.Full()))
		}})
	register(&Property{ID: "G08", Explain: explainGo, Assume: assumeGo, Min: map[string]int{"schemas analysed": 50, "obligations": 2200},
		Run: func(c *Ctx) {
			c.goCompare(&FileOpt{Enums: []*scen.Enum{fam.EnumE}, Extra: []*scen.Msg{fam.Sub}}, fam.Oneofs(c.Full()))
		}})
	register(&Property{ID: "G09", Explain: explainGo, Assume: assumeGo, Min: map[string]int{"schemas analysed": 500, "obligations": 8000},
		Run: func(c *Ctx) { c.goCompare(&FileOpt{}, fam.IgnoreEmpty(c.Full())) }})
	register(&Property{ID: "G04", Explain: explainGo, Assume: assumeGo, Min: map[string]int{"schemas analysed": 500, "obligations": 2400},
		Run: func(c *Ctx) {
			c.goCompare(&FileOpt{}, append(append(fam.Affixes(c.Full()), fam.Formats(c.Full())...), append(fam.Helpers(c.Full()), fam.Texts(c.Full())...)...))
		}})
}

func init() {
	register(&Property{ID: "G14", Explain: explainGo, Assume: assumeGo, Min: map[string]int{"schemas analysed": 30, "obligations": 2400},
		Run: func(c *Ctx) { c.goCompare(&FileOpt{}, fam.Helpers(c.Full())) }})
}
