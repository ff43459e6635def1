package fam

import (
	"fmt"
	"strings"

	"verif/analyzer/scen"
	"verif/analyzer/spec"
)

// All collects the families of the single rules.
func All(full bool) []*Case {
	var out []*Case
	for _, f := range []func(bool) []*Case{NumRanges, Membership, Lengths, Affixes, Formats, Times, Collections, Embedded, Oneofs, IgnoreEmpty} {
		out = append(out, f(full)...)
	}
	return out
}

// shared environment names, which are not renamed when fields are combined
func bound(s string) bool {
	_, ok := Base[s]
	return ok || s == "now" || s == "now-W" || s == "now+W"
}

func symsOf(v *spec.Val, out map[string]bool) {
	if v == nil {
		return
	}
	if v.Sym != "" {
		out[v.Sym] = true
	}
	symsOf(v.Inner, out)
	for _, x := range v.List {
		symsOf(x, out)
	}
	for _, x := range v.Keys {
		symsOf(x, out)
	}
	for _, x := range v.Fields {
		symsOf(x, out)
	}
}

func renameVal(v *spec.Val, suf string) *spec.Val {
	if v == nil {
		return nil
	}
	w := *v
	if w.Sym != "" {
		w.Sym += suf
	}
	w.Inner = renameVal(v.Inner, suf)
	if v.List != nil {
		w.List = nil
		for _, x := range v.List {
			w.List = append(w.List, renameVal(x, suf))
		}
	}
	if v.Keys != nil {
		w.Keys = []*spec.Val{}
		for _, x := range v.Keys {
			w.Keys = append(w.Keys, renameVal(x, suf))
		}
	}
	if v.Fields != nil {
		w.Fields = map[string]*spec.Val{}
		for k, x := range v.Fields {
			w.Fields[k+suf] = renameVal(x, suf)
		}
	}
	return &w
}

func renameKey(k, suf string, syms map[string]bool) string {
	if syms[k] {
		return k + suf
	}
	i := strings.Index(k, ":")
	if i < 0 {
		return k
	}
	op, rest := k[:i], k[i+1:]
	if syms[rest] {
		return op + ":" + rest + suf
	}
	if j := strings.Index(rest, ":"); j >= 0 && syms[rest[:j]] {
		return op + ":" + rest[:j] + suf + rest[j:]
	}
	return k
}

// mergeEnv adds the renamed facts of e to dst; false when they disagree.
func mergeEnv(dst, e *spec.Env, suf string, syms map[string]bool) bool {
	for k, v := range e.Rank {
		n := renameKey(k, suf, syms)
		if o, ok := dst.Rank[n]; ok && o != v {
			return false
		}
		dst.Rank[n] = v
	}
	for k, v := range e.Fact {
		n := renameKey(k, suf, syms)
		if o, ok := dst.Fact[n]; ok && o != v {
			return false
		}
		dst.Fact[n] = v
	}
	return true
}

func renameFields(fs []*scen.Field, suf string) []*scen.Field {
	var out []*scen.Field
	for _, f := range fs {
		g := *f
		g.Name += suf
		out = append(out, &g)
	}
	return out
}

// Mixed puts several cases into one message: width fields each, values picked
// by violated (does a value of a single case break a rule).
func Mixed(cases []*Case, width, stride int, violated func(c *Case, v CV) bool) []*Case {
	b := &builder{pre: "MX"}
	n := len(cases)
	for i := 0; i*width < n; i++ {
		var pick []*Case
		for j := 0; j < width; j++ {
			pick = append(pick, cases[(i+j*stride)%n])
		}
		m := &scen.Msg{}
		var ds []string
		type opt struct{ good, bad []CV }
		var opts []opt
		for j, c := range pick {
			suf := fmt.Sprintf("_%d", j)
			m.Fields = append(m.Fields, renameFields(c.Msg.Fields, suf)...)
			for _, o := range c.Msg.Oneofs {
				m.Oneofs = append(m.Oneofs, &scen.Oneof{Name: o.Name + suf, Required: o.Required, Fields: renameFields(o.Fields, suf)})
			}
			ds = append(ds, c.Desc)
			var o opt
			for _, v := range c.Vals {
				if v.Val.Nil || hasNow(v.Env) && j > 0 {
					continue
				}
				if violated(c, v) {
					o.bad = append(o.bad, v)
				} else {
					o.good = append(o.good, v)
				}
			}
			opts = append(opts, o)
		}
		var vals []CV
		for s := 0; s < 1<<width; s++ {
			e := Env()
			fs := map[string]*spec.Val{}
			ok := true
			for j := range pick {
				set := opts[j].good
				if s>>j&1 == 1 {
					set = opts[j].bad
				}
				if len(set) == 0 {
					ok = false
					break
				}
				v := set[(i+s)%len(set)]
				sy := map[string]bool{}
				symsOf(v.Val, sy)
				suf := fmt.Sprintf("_%d", j)
				if !mergeEnv(e, v.Env, suf, sy) {
					ok = false
					break
				}
				for k, x := range renameVal(v.Val, suf).Fields {
					fs[k] = x
				}
			}
			if ok {
				vals = append(vals, CV{e, spec.Msg(fs)})
			}
		}
		b.add(strings.Join(ds, " + "), m, vals)
	}
	return b.cases
}

func hasNow(e *spec.Env) bool {
	_, ok := e.Rank["now"]
	return ok
}
