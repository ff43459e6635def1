package check

import (
	"fmt"
	"sort"
	"strings"

	pgs "github.com/lyft/protoc-gen-star"

	"verif/analyzer/absint"
	"verif/analyzer/fam"
	"verif/analyzer/scen"
	"verif/analyzer/spec"
)

const explainStable = "The plugin's entry point and templates are abstractly interpreted on the same request under three orders of visiting maps: as inserted, reversed and rotated (ranges over maps in the plugin and the schema library's queries that collect entities in maps; text/template visits maps sorted). Rule: on every abstract path the set of files and each file's text are the same under all orders, the outcome is the same, and nothing outside the request (clock, environment, random numbers, addresses) is read."

// stable decides whether what is generated depends on the order in which
// maps are visited.
func (c *Ctx) stable(key, desc string, b *scen.Built, params map[string]string, targets func() []pgs.File) {
	render := func(mo int) map[string]string {
		texts := map[string]string{}
		var script []int
		for n := 0; n < 64; n++ {
			or := &absint.Oracle{Script: script}
			order := map[string]float64{}
			for k, v := range fam.Base {
				order[k] = v
				order["sec:"+k], order["nanos:"+k] = v, 0
			}
			for k, v := range spec.Classes() {
				order[absint.KeyOf(k)] = v
			}
			r := &scen.Run{W: c.W, B: b, Params: params, Order: order, MapOrder: mo, Targets: targets()}
			out := r.Execute(or)
			c.Count("abstract plugin runs", 1)
			c.Count("entries visited in any order", r.In.Unordered)
			c.cover(r.In)
			s := out.String()
			if s != "accepted" {
				c.Violate("undetermined/"+key, out.Pos.String(), "%s: %s", desc, s)
			}
			// the paths are compared as a set
			at := strings.Split(or.AtomString(), "\n")
			sort.Strings(at)
			k := strings.Join(at, "\n")
			texts[k+"|outcome"] = s
			var arts []string
			for _, a := range out.Arts {
				arts = append(arts, a.Name+" from "+a.Tpl+"\n"+a.Text)
			}
			sort.Strings(arts)
			for i, a := range arts {
				texts[fmt.Sprintf("%s|%d", k, i)] = a
			}
			if script = or.Next(); script == nil {
				break
			}
		}
		return texts
	}
	base := render(0)
	for mo := 1; mo <= 2; mo++ {
		other := render(mo)
		var ks []string
		for k := range base {
			ks = append(ks, k)
		}
		for k := range other {
			if _, ok := base[k]; !ok {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			c.Count("obligations", 1)
			if x, y := base[k], other[k]; x != y {
				name := strings.SplitN(x+y, "\n", 2)[0]
				c.Violate("order/"+key, name, "%s: %s depends on the order in which a map is visited: %s", desc, name, firstDiff(x, y))
				break
			}
		}
	}
}

// crowded is a request with several of everything whose order could matter:
// requested files, packages, messages, external enums, transitive imports.
func crowded() []*scen.File {
	en := func(ns ...string) []*scen.Enum {
		var out []*scen.Enum
		for _, n := range ns {
			out = append(out, &scen.Enum{Name: n, Values: []scen.EnumVal{{Name: n + "_ZERO", Num: 0}, {Name: n + "_TWO", Num: 2}, {Name: n + "_ONE", Num: 1}}})
		}
		return out
	}
	file := func(i int, deps ...*scen.File) *scen.File {
		p := fmt.Sprintf("x%d", i)
		f := &scen.File{Name: p + "/f.proto", Package: p, GoPackage: "example.com/" + p + ";" + p, Deps: deps, Imports: []string{"validate/validate.proto"},
			Enums: en("E1", "E2"), Msgs: []*scen.Msg{{Name: "P", Enums: en("In")}}}
		for j, d := range deps {
			if len(d.Enums) < 2 {
				continue // a neighbour
			}
			m := &scen.Msg{Name: fmt.Sprintf("M%d", j), Nested: []*scen.Msg{{Name: "Deep"}}}
			add := func(fl *scen.Field) {
				fl.Name = fmt.Sprintf("f%d", len(m.Fields))
				m.Fields = append(m.Fields, fl)
			}
			for _, e := range []string{"E1", "E2", "P.In"} {
				t := "." + d.Package + "." + e
				add(&scen.Field{Kind: "enum", Type: t, Rules: scen.R{"enum": scen.R{"in": fam.I{2, 1, 0}}}})
				add(&scen.Field{Kind: "enum", Type: t, Repeated: true, Rules: scen.R{"repeated": scen.R{"unique": true, "items": scen.R{"enum": scen.R{"defined_only": true}}}}})
				add(&scen.Field{Kind: "enum", Type: t, MapKey: "string", Rules: scen.R{"map": scen.R{"values": scen.R{"enum": scen.R{"not_in": fam.I{1, 2}}}}}})
			}
			add(&scen.Field{Kind: "message", Type: "." + d.Package + ".P"})
			add(&scen.Field{Kind: "string", Rules: scen.R{"string": scen.R{"in": fam.I{"b", "a", "c"}}}})
			add(&scen.Field{Kind: "string", Rules: scen.R{"string": scen.R{"pattern": "^x"}}})
			add(&scen.Field{Kind: "string", Rules: scen.R{"string": scen.R{"not_in": fam.I{"b", "a", "c"}}}})
			add(&scen.Field{Kind: "string", Rules: scen.R{"string": scen.R{"uuid": true}}})
			m.Oneofs = []*scen.Oneof{{Name: "o2", Required: true, Fields: []*scen.Field{{Name: "oz", Kind: "string", Rules: scen.R{"string": scen.R{"email": true}}}, {Name: "oa", Kind: "bool"}}},
				{Name: "o1", Fields: []*scen.Field{{Name: "p", Kind: "message", Type: "." + d.Package + ".P"}, {Name: "q", Kind: "enum", Type: "." + d.Package + ".E2"}}}}
			f.Msgs = append(f.Msgs, m)
		}
		return f
	}
	x9, x8 := file(9), file(8)
	x7 := file(7, x9)
	x6 := file(6, x8, x7)
	x5 := file(5, x9, x6)
	// neighbours: files of a package that have no rules, no messages, nothing
	bare := &scen.File{Name: "x5/bare.proto", Package: "x5", GoPackage: x5.GoPackage, Msgs: []*scen.Msg{{Name: "Bare", Fields: []*scen.Field{{Name: "b", Kind: "int32"}}}}}
	enums := &scen.File{Name: "x5/a_enums.proto", Package: "x5", GoPackage: x5.GoPackage, Enums: en("Alone"), Imports: []string{"validate/validate.proto"}}
	empty := &scen.File{Name: "x5/z_empty.proto", Package: "x5", GoPackage: x5.GoPackage}
	return []*scen.File{file(1, x5, x8, x7, x9, x6, bare, enums, empty), x5, x6, x7, x8, x9, bare, enums, empty}
}

func (c *Ctx) stableAll() {
	var jobs []func()
	for _, lang := range []string{"go", "cc", "java"} {
		lang := lang
		for _, extra := range []map[string]string{nil, {"paths": "source_relative"}, {"module": "example.com/x5"}} {
			params := map[string]string{"lang": lang}
			for k, v := range extra {
				params[k] = v
			}
			for _, all := range []bool{false, true} {
				all := all
				jobs = append(jobs, func() {
					fs := crowded()
					b, err := scen.Build(fs[0])
					if err != nil {
						panic(err)
					}
					c.stable(fmt.Sprintf("crowded/%s", lang), fmt.Sprintf("files with several imported packages, %v, all requested=%v", params, all), b, params, func() []pgs.File {
						out := []pgs.File{b.PFile}
						if all {
							for _, f := range fs[1:] {
								out = append(out, b.PFileOf(f.Name))
							}
						}
						return out
					})
				})
			}
		}
		var ps []*fam.Program
		ps = append(ps, fam.Programs(c.Full())...)
		if lang == "cc" {
			ps = append(ps, fam.CCPrograms(c.Full())...)
		}
		if lang == "java" {
			ps = append(ps, fam.JavaPrograms(c.Full())...)
		}
		for i, p := range ps {
			if p := p; c.Full() || i%4 == c.Seed%4 {
				jobs = append(jobs, func() {
					if lang == "java" {
						p.Root.Imports = append(p.Root.Imports, "validate/validate.proto")
					}
					b, err := scen.Build(p.Root)
					if err != nil {
						panic(err)
					}
					c.stable("program/"+lang+"/"+p.Desc, p.Desc, b, map[string]string{"lang": lang}, func() []pgs.File {
						var out []pgs.File
						for _, t := range p.Targets {
							out = append(out, b.PFileOf(t))
						}
						return out
					})
				})
			}
		}
		cat := fam.Catalogue(c.Full())
		for n := 0; n < len(cat); n += 24 {
			part := cat[n:min(n+24, len(cat))]
			jobs = append(jobs, func() {
				o := mixedOpt()
				o.Lang = lang
				o.Extra = append(append([]*scen.Msg{}, o.Extra...), fam.CompileEnum)
				b, err := scen.Build(o.file(part))
				if err != nil {
					panic(err)
				}
				c.stable("rules/"+lang+"/"+part[0].Desc, fmt.Sprintf("%d schemas from %s to %s", len(part), part[0].Desc, part[len(part)-1].Desc), b, map[string]string{"lang": lang}, func() []pgs.File { return nil })
			})
		}
	}
	parallel(len(jobs), func(i int) { jobs[i]() })
}

func init() {
	register(&Property{ID: "P04", Explain: explainStable, Assume: assumeGo[:1], Min: map[string]int{"abstract plugin runs": 300, "obligations": 500},
		Run: func(c *Ctx) { c.stableAll() }})
}
