package check

import (
	"fmt"
	"path"
	"sort"
	"strings"

	pgs "github.com/lyft/protoc-gen-star"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"

	"verif/analyzer/absint"
	"verif/analyzer/fam"
	"verif/analyzer/scen"
)

const explainFiles = "The plugin's entry point is abstractly interpreted over plugin invocations: parameter sets crossed with sets of requested files of different naming shapes. Rule: the artifacts appended on every abstract path are exactly those the documented conventions name, and the text of a file's artifacts does not depend on the other requested files or on their order."

// javaCamel is protoc's naming of a Java outer class from a file name.
func javaCamel(s string) string {
	var sb strings.Builder
	cap := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= 'a' && c <= 'z':
			if cap {
				c -= 'a' - 'A'
			}
			sb.WriteByte(c)
			cap = false
		case c >= 'A' && c <= 'Z':
			sb.WriteByte(c)
			cap = false
		case c >= '0' && c <= '9':
			sb.WriteByte(c)
			cap = true
		default:
			cap = true
		}
	}
	return sb.String()
}

// pfile is a requested file and what is expected of it.
type pfile struct {
	f          *scen.File
	javaPkg    string // java_package option
	outer      string // java_outer_classname option
	multi      interface{}
	pgv        string // the file it imports rules from
	clash      bool
	goDir, pkg string
}

func (p *pfile) options() {
	p.f.Options = func(o *descriptorpb.FileOptions) {
		if p.javaPkg != "" {
			o.JavaPackage = proto.String(p.javaPkg)
		}
		if p.outer != "" {
			o.JavaOuterClassname = proto.String(p.outer)
		}
		if p.multi != nil {
			o.JavaMultipleFiles = proto.Bool(p.multi.(bool))
		}
	}
	if p.pgv != "" {
		p.f.Imports = append(p.f.Imports, p.pgv)
	}
}

func stripModule(p, module string) string {
	if module != "" && strings.HasPrefix(p, strings.TrimRight(module, "/")+"/") {
		p = p[len(strings.TrimRight(module, "/"))+1:]
	}
	return strings.TrimLeft(p, "/")
}

// want lists the artifacts of the file.
func (p *pfile) want(lang, module, paths string) []string {
	base := strings.TrimSuffix(p.f.Name, path.Ext(p.f.Name))
	switch lang {
	case "cc":
		return []string{stripModule(base+".pb.validate.h", module), stripModule(base+".pb.validate.cc", module)}
	case "go":
		o := base + ".pb.validate.go"
		if paths != "source_relative" {
			o = path.Join(p.goDir, path.Base(o))
		}
		return []string{stripModule(o, module)}
	}
	if p.pgv == "" {
		return nil
	}
	jp := p.f.Package
	if p.javaPkg != "" {
		jp = p.javaPkg
	}
	dir := strings.ReplaceAll(jp, ".", "/")
	if m, _ := p.multi.(bool); m {
		var out []string
		for _, x := range p.f.Msgs {
			out = append(out, path.Join(dir, x.Name+"Validator.java"))
		}
		return out
	}
	cls := p.outer
	if cls == "" {
		cls = javaCamel(path.Base(base))
		if p.clash {
			cls += "OuterClass"
		}
	}
	return []string{stripModule(path.Join(dir, cls+"Validator.java"), module)}
}

func (c *Ctx) fileSet() []*pfile {
	r := scen.R{"int32": scen.R{"gt": fam.L("lo")}}
	msgs := func(names ...string) []*scen.Msg {
		var out []*scen.Msg
		for _, n := range names {
			out = append(out, &scen.Msg{Name: n, Fields: []*scen.Field{{Name: "f", Kind: "int32", Rules: r}, {Name: "id", Kind: "string", Rules: scen.R{"string": scen.R{"uuid": true}}}}})
		}
		return out
	}
	nested := msgs("Top")
	nested[0].Nested = msgs("NestClash")
	nenum := msgs("Top")
	nenum[0].Enums = []*scen.Enum{{Name: "EnumClash", Values: []scen.EnumVal{{Name: "ZERO", Num: 0}}}}
	n := 0
	mk := func(name, pkg string, ms []*scen.Msg) *pfile {
		n++
		p := &pfile{f: &scen.File{Name: name, Package: pkg, GoPackage: fmt.Sprintf("example.com/g%d;g%d", n, n), Msgs: ms}, pgv: "validate/validate.proto", goDir: fmt.Sprintf("example.com/g%d", n)}
		return p
	}
	var out []*pfile
	add := func(p *pfile, ed ...func(p *pfile)) {
		for _, e := range ed {
			e(p)
		}
		p.options()
		out = append(out, p)
	}
	for i, b := range []string{"plain", "snake_case_name", "camelCase", "SHOUT", "FOO_Bar", "http2server", "v1_2b", "with-dash", "dotted.name", "a__b", "aB1c2D", "x"} {
		add(mk([]string{"", "dir/", "deep/er/dir/"}[i%3]+b+".proto", fmt.Sprintf("p%d.sub", i), msgs("M1", "M2")))
	}
	add(mk("nopgv.proto", "np", msgs("M")), func(p *pfile) { p.pgv = "" })
	add(mk("nopgv_multi.proto", "npm", msgs("M")), func(p *pfile) { p.pgv, p.multi = "", true })
	add(mk("otherroot.proto", "orp", msgs("M")), func(p *pfile) { p.pgv = "third_party/pgv/validate/validate.proto" })
	add(mk("jpkg.proto", "jp", msgs("M")), func(p *pfile) { p.javaPkg = "com.acme.gen" })
	add(mk("outer.proto", "op", msgs("M")), func(p *pfile) { p.outer = "MyOuter1x" })
	add(mk("outer_single.proto", "op2", msgs("M")), func(p *pfile) { p.outer, p.multi = "Chosen", false })
	add(mk("multi.proto", "mp", msgs("Alpha", "Beta_Gamma", "HTTPReq", "V1beta1", "lower")), func(p *pfile) { p.multi, p.javaPkg = true, "com.multi" })
	add(mk("multi_nested.proto", "mn", nested), func(p *pfile) { p.multi = true })
	add(mk("top_clash.proto", "tc", msgs("TopClash", "M")), func(p *pfile) { p.clash = true })
	add(mk("nest_clash.proto", "nc", nested), func(p *pfile) { p.clash = true })
	add(mk("enum_clash.proto", "ec", nenum), func(p *pfile) { p.clash = true })
	fe := mk("file_enum.proto", "fe", msgs("M"))
	fe.f.Enums = []*scen.Enum{{Name: "FileEnum", Values: []scen.EnumVal{{Name: "FE_ZERO", Num: 0}}}}
	add(fe, func(p *pfile) { p.clash = true })
	add(mk("near_clash.proto", "nr", msgs("Nearclash", "NearClashes")))
	add(mk("module/inner.proto", "md", msgs("M")), func(p *pfile) {
		p.f.GoPackage, p.goDir = "example.com/g1/example.com/g1;gx", "example.com/g1/example.com/g1"
	})
	add(mk("module/longer.proto", "ml", msgs("M")), func(p *pfile) { p.f.GoPackage, p.goDir = "example.com/g12345;gl", "example.com/g12345" })
	// two files of one package; one declares what would clash with the other's class
	add(mk("same_a.proto", "same", msgs("SameB", "A1")))
	add(mk("same_b.proto", "same", msgs("B1")))
	out[len(out)-1].f.GoPackage, out[len(out)-1].goDir = out[len(out)-2].f.GoPackage, out[len(out)-2].goDir
	add(mk("same_nopgv.proto", "same", msgs("N1")), func(p *pfile) { p.pgv = "" })
	out[len(out)-1].f.GoPackage, out[len(out)-1].goDir = out[len(out)-2].f.GoPackage, out[len(out)-2].goDir
	add(mk("same_late.proto", "same", nil))
	out[len(out)-1].f.GoPackage, out[len(out)-1].goDir = out[len(out)-2].f.GoPackage, out[len(out)-2].goDir
	add(mk("empty.proto", "em", nil))
	return out
}

func (c *Ctx) outputFiles() {
	type inv struct {
		lang, module, paths string
		set                 []int
		extra               map[string]string
	}
	files := c.fileSet()
	all := make([]int, len(files))
	rev := make([]int, len(files))
	for i := range files {
		all[i], rev[len(files)-1-i] = i, i
	}
	var invs []inv
	for _, l := range []string{"go", "cc", "java"} {
		for _, m := range []string{"", "example.com/g1", "example.com/g1/", "module", "p", "e", "dir"} {
			for _, ps := range []string{"", "source_relative"} {
				invs = append(invs, inv{lang: l, module: m, paths: ps, set: all})
			}
		}
		invs = append(invs, inv{lang: l, set: rev}, inv{lang: l, set: nil})
		for i := range files {
			invs = append(invs, inv{lang: l, set: []int{i}})
		}
	}
	refuse := []inv{{set: all[:2]}, {lang: "", set: all[:2]}}
	for _, l := range []string{"rust", "Go", "c++", "h", "gogo", "python", "java ", "cc/h"} {
		refuse = append(refuse, inv{lang: l, set: all[:2]})
	}
	texts := map[string]map[string]string{} // lang|artifact -> invocation -> text
	type one struct{ inv, key, text string }
	results := make([][]one, len(invs)+len(refuse))
	parallel(len(invs)+len(refuse), func(i int) {
		must := i >= len(invs)
		var v inv
		if must {
			v = refuse[i-len(invs)]
		} else {
			v = invs[i]
		}
		// every file is known to the run; only some are requested
		root := &scen.File{Name: "root/root.proto", Package: "rootpkg", GoPackage: "example.com/root;root"}
		for _, p := range files {
			root.Deps = append(root.Deps, p.f)
		}
		b, err := scen.Build(root)
		if err != nil {
			panic(err)
		}
		params := map[string]string{}
		if v.lang != "" {
			params["lang"] = v.lang
		} else if i%2 == 0 {
			params["lang"] = ""
		}
		if v.module != "" {
			params["module"] = v.module
		}
		if v.paths != "" {
			params["paths"] = v.paths
		}
		desc := fmt.Sprintf("lang=%q module=%q paths=%q with %d files", v.lang, v.module, v.paths, len(v.set))
		if len(v.set) == 1 {
			desc += " (" + files[v.set[0]].f.Name + ")"
		} else if len(v.set) > 1 && v.set[0] != 0 {
			desc += " in reverse"
		}
		var script []int
		for n := 0; n < 64; n++ {
			or := &absint.Oracle{Script: script}
			order := map[string]float64{}
			for k, v := range fam.Base {
				order[k] = v
			}
			targets := []pgs.File{}
			var want []string
			for _, x := range v.set {
				targets = append(targets, b.PFileOf(files[x].f.Name))
				want = append(want, files[x].want(v.lang, v.module, v.paths)...)
			}
			r := &scen.Run{W: c.W, B: b, Params: params, Order: order, Targets: targets, NoRender: v.module != "" || must}
			out := r.Execute(or)
			c.Count("abstract plugin runs", 1)
			c.Count("obligations", 1+len(want))
			c.cover(r.In)
			if must {
				if !out.Rejected {
					c.Violate("lang/"+fmt.Sprintf("%q", v.lang), out.Pos.String(), "the invocation %s must be refused, but: %s", desc, out.String())
				}
			} else if s := out.String(); s != "accepted" {
				c.Violate("files/"+desc, out.Pos.String(), "%s: %s", desc, s)
			} else {
				var got []string
				for _, a := range out.Arts {
					got = append(got, a.Name)
					if !r.NoRender {
						results[i] = append(results[i], one{desc + or.AtomString(), v.lang + "|" + a.Name, a.Text})
					}
				}
				sort.Strings(got)
				sort.Strings(want)
				c.Count("artifacts", len(got))
				if d := diffLists(got, want); d != "" {
					c.Violate("files/"+desc, c.where(r.In), "%s: %s", desc, d)
				}
			}
			if script = or.Next(); script == nil {
				break
			}
		}
	})
	for _, rs := range results {
		for _, o := range rs {
			if texts[o.key] == nil {
				texts[o.key] = map[string]string{}
			}
			for inv, t := range texts[o.key] {
				if t != o.text {
					c.Violate("text/"+o.key, "", "the text of %s differs between the invocations %s and %s: %s", o.key, inv, o.inv, firstDiff(t, o.text))
				}
			}
			texts[o.key][o.inv] = o.text
			c.Count("texts compared", 1)
		}
	}
}

func diffLists(got, want []string) string {
	g, w := map[string]int{}, map[string]int{}
	for _, x := range got {
		g[x]++
	}
	for _, x := range want {
		w[x]++
	}
	var p []string
	for _, x := range want {
		if g[x] < w[x] {
			p = append(p, "missing "+x)
		}
	}
	for _, x := range got {
		if w[x] < g[x] {
			p = append(p, "unexpected "+x)
		}
	}
	if len(p) > 6 {
		p = p[:6]
	}
	return strings.Join(p, ", ")
}

func init() {
	register(&Property{ID: "P03", Explain: explainFiles, Assume: assumeGo[:1], Min: map[string]int{"artifacts": 500, "texts compared": 200, "obligations": 800},
		Run: func(c *Ctx) { c.outputFiles() }})
}

// firstDiff shows the first differing line of two texts.
func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			z := ""
			if i < len(y) {
				z = y[i]
			}
			return fmt.Sprintf("line %d is %q or %q", i+1, absint.Show(x[i]), absint.Show(z))
		}
	}
	return "one is longer"
}
