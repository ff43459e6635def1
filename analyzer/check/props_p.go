package check

import (
	"verif/analyzer/fam"
	"verif/analyzer/scen"
)

const explainReject = "The plugin's entry point is abstractly interpreted over each schema of the family, with symbolic bounds where only their order or equality matters. Rule: on every abstract path a contradictory schema reaches a failing diagnostic (not a crash), and a consistent one reaches none."

// Verdicts analyses whether the generator refuses each schema.
func (c *Ctx) Verdicts(o *FileOpt, ss []*fam.Schema) {
	o.NoRender = true
	langs := []string{"go", "cc", "java"}
	var groups [][]*fam.Schema
	var good []*fam.Schema
	for _, s := range ss {
		if s.Reject {
			groups = append(groups, []*fam.Schema{s})
			continue
		}
		good = append(good, s)
		if len(good) == 40 {
			groups = append(groups, good)
			good = nil
		}
	}
	if len(good) > 0 {
		groups = append(groups, good)
	}
	parallel(len(groups), func(i int) {
		var cs []*fam.Case
		rej := map[string]bool{}
		for _, s := range groups[i] {
			cs = append(cs, &fam.Case{Name: s.Msg.Name, Desc: s.Desc, Msg: s.Msg})
			rej[s.Desc] = s.Reject
		}
		oo := *o
		oo.Lang = langs[i%len(langs)]
		c.emit(&oo, cs, func(e *Emission) bool {
			d := e.Cases[0].Desc
			c.Count("obligations", 1)
			if rej[d] {
				c.Count("contradictory schemas", 1)
				if !e.Out.Rejected {
					c.Violate("accepted/"+d, c.where(e.Run.In)+" "+e.Out.Pos.String(), "a schema that must be refused (%s) is not: %s %s", d, e.Out.String(), e.Path)
				}
				return true
			}
			if e.Out.String() != "accepted" {
				if len(e.Cases) == 1 {
					c.Violate("refused/"+d, c.where(e.Run.In)+" "+e.Out.Pos.String(), "a well-formed schema (%s) is not turned into code: %s %s", d, e.Out.String(), e.Path)
				}
				return false
			}
			c.Count("consistent schemas", len(e.Cases))
			return true
		})
	})
}

func init() {
	opt := func() *FileOpt {
		return &FileOpt{Enums: []*scen.Enum{fam.RejectEnum}, Extra: fam.RejectExtra, Deps: []*scen.File{fam.RejectDep}}
	}
	register(&Property{ID: "P01", Explain: explainReject, Assume: assumeGo[:1], Min: map[string]int{"contradictory schemas": 1000, "consistent schemas": 300},
		Run: func(c *Ctx) { c.Verdicts(opt(), fam.Contradictions(c.Full())) }})
	register(&Property{ID: "P02", Explain: explainReject, Assume: assumeGo[:1], Min: map[string]int{"contradictory schemas": 1000, "consistent schemas": 150},
		Run: func(c *Ctx) { c.Verdicts(opt(), fam.Mismatches(c.Full())) }})
}
