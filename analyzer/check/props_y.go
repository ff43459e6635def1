package check

import (
	"verif/analyzer/fam"
	"verif/analyzer/scen"
)

const explainPy = "The syntax tree of the Python runtime module is abstractly interpreted: its templates by an interpreter of the template language, the text they yield parsed and interpreted in turn, on partially ordered abstract values, with rule constants that are symbols. Rule: for every case and every order of value and constants validate returns where every constraint holds, and raises the module's validation failure, and nothing else, where one is violated."

var assumePy = []string{
	"Python, its standard library, jinja2, validate_email and the protobuf library behave as documented (they are modelled, or the host's own where pure)",
	"message types are modelled from their descriptors",
}

func init() {
	enums := []*scen.Enum{fam.EnumE}
	sub := []*scen.Msg{fam.Sub}
	reg := func(id string, schemas, obligations int, run func(c *Ctx)) {
		register(&Property{ID: id, Explain: explainPy, Assume: assumePy, Min: map[string]int{"schemas analysed": schemas, "obligations": obligations}, Run: run})
	}
	reg("Y01", 2700, 70000, func(c *Ctx) {
		c.PyCases(&FileOpt{}, fam.NumRanges(c.Full()))
		c.PyCases(&FileOpt{}, fam.Infinite(c.Full()))
	})
	reg("Y02", 700, 25000, func(c *Ctx) {
		c.PyCases(&FileOpt{Enums: enums}, fam.Membership(c.Full()))
	})
	reg("Y03", 900, 7500, func(c *Ctx) {
		c.PyCases(&FileOpt{}, fam.Lengths(c.Full()))
		c.PyCases(&FileOpt{}, fam.Affixes(c.Full()))
		c.PyCases(&FileOpt{}, fam.Formats(c.Full()))
		c.PyCases(&FileOpt{}, fam.Helpers(c.Full()))
		c.PyCases(&FileOpt{}, fam.Texts(c.Full()))
		c.PyCases(&FileOpt{}, fam.Uris(c.Full()))
		c.PyCases(&FileOpt{}, fam.Patterns(c.Full()))
		c.PyCases(&FileOpt{}, fam.Headers(c.Full()))
		c.PyCases(&FileOpt{}, fam.RE2Only())
	})
	reg("Y04", 260, 3300, func(c *Ctx) { c.PyCases(&FileOpt{}, fam.Times(c.Full())) })
	reg("Y05", 220, 5300, func(c *Ctx) { c.PyCases(&FileOpt{Enums: enums, Extra: sub}, fam.Collections(c.Full())) })
	reg("Y06", 300, 15000, func(c *Ctx) {
		c.PyCases(&FileOpt{Extra: fam.EmbedExtra, Deps: []*scen.File{fam.Dep, fam.Near, fam.Google}}, fam.Embedded(c.Full()))
		c.PyCases(&FileOpt{Enums: enums, Extra: sub}, fam.Oneofs(c.Full()))
		c.PyHistories(1)
	})
	reg("Y08", 600, 16000, func(c *Ctx) {
		o := mixedOpt()
		c.PyCases(o, pyMixed(c, o, 1))
		c.PyCases(o, pyNamed(c))
		c.PyHistories(3)
	})
	reg("Y07", 640, 17000, func(c *Ctx) { c.PyCases(&FileOpt{}, fam.IgnoreEmpty(c.Full())) })
}
