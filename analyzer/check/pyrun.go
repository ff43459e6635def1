package check

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"net/mail"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"

	"verif/analyzer/fam"
	"verif/analyzer/py"
	"verif/analyzer/scen"
	"verif/analyzer/spec"
)

const pyModule = "python/protoc_gen_validate/validator.py"

var pyTool struct {
	once sync.Once
	t    *py.Tool
	fail string
	err  error
}

// StopPy ends the interpreters.
func StopPy() {
	if pyTool.t != nil {
		pyTool.t.Stop()
	}
}

// Py loads the Python runtime; a module that does not load is a violation.
func (c *Ctx) Py() *py.Tool {
	pyTool.once.Do(func() {
		src, err := os.ReadFile(filepath.Join(c.W.Repo, pyModule))
		if err != nil {
			pyTool.fail = err.Error()
			return
		}
		rules, err := ruleSchema(c.W.Repo)
		if err != nil {
			pyTool.fail = err.Error()
			return
		}
		pyTool.t, pyTool.fail, pyTool.err = py.Start(8, string(src), rules)
	})
	if pyTool.err != nil {
		panic(pyTool.err)
	}
	if pyTool.fail != "" {
		c.Violate("py/module", pyModule, "%s", pyTool.fail)
		return nil
	}
	return pyTool.t
}

type obj = map[string]interface{}

// ruleSchema describes the rule messages.
func ruleSchema(repo string) (obj, error) {
	dir, err := os.MkdirTemp("", "rules")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	if out, err := exec.Command("protoc", "-I", repo, "--include_imports", "--descriptor_set_out="+dir+"/r.bin", "validate/validate.proto").CombinedOutput(); err != nil {
		return nil, fmt.Errorf("the rule schema: %s", out)
	}
	b, err := os.ReadFile(dir + "/r.bin")
	if err != nil {
		return nil, err
	}
	fds := &descriptorpb.FileDescriptorSet{}
	if err := proto.Unmarshal(b, fds); err != nil {
		return nil, err
	}
	msgs, enums := obj{}, obj{}
	name := func(s string) string { return strings.TrimPrefix(s, ".") }
	for _, f := range fds.File {
		if p := f.GetPackage(); p != "validate" && !strings.HasSuffix(f.GetName(), "/duration.proto") && !strings.HasSuffix(f.GetName(), "/timestamp.proto") {
			continue
		}
		for _, e := range f.EnumType {
			enums[f.GetPackage()+"."+e.GetName()] = enumJSON(e)
		}
		for _, m := range f.MessageType {
			fs, oneofs := []obj{}, []string{}
			for _, x := range m.Field {
				oo := -1
				if x.OneofIndex != nil {
					oo = int(*x.OneofIndex)
				}
				o := obj{"name": x.GetName(), "number": x.GetNumber(), "label": int(x.GetLabel()), "type": int(x.GetType()), "type_name": name(x.GetTypeName()), "oneof": oo}
				if x.DefaultValue != nil {
					switch d := x.GetDefaultValue(); x.GetType() {
					case descriptorpb.FieldDescriptorProto_TYPE_BOOL:
						o["default"] = d == "true"
					case descriptorpb.FieldDescriptorProto_TYPE_STRING:
						o["default"] = d
					default:
						o["default"] = json.Number(d)
					}
				}
				fs = append(fs, o)
			}
			for _, x := range m.OneofDecl {
				oneofs = append(oneofs, x.GetName())
			}
			msgs[f.GetPackage()+"."+m.GetName()] = obj{"fields": fs, "oneofs": oneofs}
		}
	}
	return obj{"messages": msgs, "enums": enums}, nil
}

func enumJSON(e *descriptorpb.EnumDescriptorProto) obj {
	vals := [][]interface{}{}
	for _, v := range e.Value {
		vals = append(vals, []interface{}{v.GetName(), v.GetNumber()})
	}
	return obj{"name": e.GetName(), "values": vals}
}

// pySchema describes the message types of a schema.
func pySchema(b *scen.Built) obj {
	msgs, enums := obj{}, obj{}
	var add func(pre string, m *descriptorpb.DescriptorProto)
	add = func(pre string, m *descriptorpb.DescriptorProto) {
		fq := pre + "." + m.GetName()
		fs, oneofs := []obj{}, []obj{}
		for _, x := range m.Field {
			oo := -1
			if x.OneofIndex != nil {
				oo = int(*x.OneofIndex)
			}
			o := obj{"name": x.GetName(), "number": x.GetNumber(), "label": int(x.GetLabel()), "type": int(x.GetType()), "type_name": x.GetTypeName(), "oneof": oo}
			if f := b.Fields[fq+"."+x.GetName()]; f != nil && f.Rules != nil {
				o["rules"] = pyRule(f.Rules)
			}
			fs = append(fs, o)
		}
		for _, x := range m.OneofDecl {
			o := obj{"name": x.GetName()}
			if s := b.Oneofs[fq+"."+x.GetName()]; s != nil && s.Required != nil {
				o["required"] = s.Required
			}
			oneofs = append(oneofs, o)
		}
		j := obj{"name": m.GetName(), "fields": fs, "oneofs": oneofs, "map_entry": m.GetOptions().GetMapEntry()}
		if s := b.Msgs[fq]; s != nil {
			if s.Disabled != nil {
				j["disabled"] = s.Disabled
			}
			if s.Ignored != nil {
				j["ignored"] = s.Ignored
			}
		}
		msgs[fq] = j
		for _, n := range m.NestedType {
			add(fq, n)
		}
		for _, e := range m.EnumType {
			enums[fq+"."+e.GetName()] = enumJSON(e)
		}
	}
	for _, f := range b.FDS.File {
		if f.GetName() == "google/protobuf/descriptor.proto" {
			continue
		}
		pre := ""
		if f.GetPackage() != "" {
			pre = "." + f.GetPackage()
		}
		for _, m := range f.MessageType {
			add(pre, m)
		}
		for _, e := range f.EnumType {
			enums[pre+"."+e.GetName()] = enumJSON(e)
		}
	}
	return obj{"messages": msgs, "enums": enums}
}

func hexed(s string) obj { return obj{"t": hex.EncodeToString([]byte(s))} }

func pyNumber(x float64) interface{} {
	switch {
	case math.IsInf(x, 1):
		return obj{"f": "inf"}
	case math.IsInf(x, -1):
		return obj{"f": "-inf"}
	case math.IsNaN(x):
		return obj{"f": "nan"}
	}
	if x == math.Trunc(x) && math.Abs(x) < 1e15 {
		return json.Number(strconv.FormatFloat(x, 'f', 0, 64))
	}
	return json.Number(strconv.FormatFloat(x, 'g', -1, 64))
}

// pyRule is a rule value.
func pyRule(v interface{}) interface{} {
	switch v := v.(type) {
	case scen.R:
		o := obj{}
		for k, x := range v {
			if x != nil {
				o[k] = pyRule(x)
			}
		}
		return o
	case []interface{}:
		out := []interface{}{}
		for _, x := range v {
			out = append(out, pyRule(x))
		}
		return out
	case scen.L:
		return obj{"sym": string(v)}
	case scen.LN:
		return obj{"sym": string(v)}
	case scen.D:
		return obj{"dsym": string(v)}
	case scen.DC:
		return obj{"dc": []int64{v.Sec, v.Nanos}}
	case string:
		return hexed(v)
	case []byte:
		return hexed(string(v))
	case float64:
		return pyNumber(v)
	case float32:
		return pyNumber(float64(v))
	case bool, int, int32, int64, uint32, uint64:
		return v
	}
	panic(fmt.Sprintf("rule value %T", v))
}

// pyVal is a field or message value.
func pyVal(v *spec.Val) interface{} {
	switch {
	case v == nil:
		return nil
	case v.Nil:
		return obj{"nil": true}
	case v.IsMsg:
		o := obj{}
		for k, x := range v.Fields {
			if x != nil {
				o[k] = pyVal(x)
			}
		}
		return obj{"fields": o}
	case v.Coll:
		l := []interface{}{}
		for i, x := range v.List {
			if v.Keys != nil {
				l = append(l, []interface{}{pyVal(v.Keys[i]), pyVal(x)})
			} else {
				l = append(l, pyVal(x))
			}
		}
		if v.Keys != nil {
			return obj{"map": l}
		}
		return obj{"list": l, "map": []interface{}{}}
	case v.Inner != nil:
		return obj{"wrap": pyVal(v.Inner)}
	case v.Sym != "":
		return obj{"sym": v.Sym}
	}
	if d, ok := v.Conc.(scen.DC); ok {
		return obj{"dc": []int64{d.Sec, d.Nanos}}
	}
	return obj{"conc": pyRule(v.Conc)}
}

// pyFacts are the known predicates.
func pyFacts(env *spec.Env) []interface{} {
	out := []interface{}{}
	for k, v := range env.Fact {
		i := strings.Index(k, ":")
		op, rest := k[:i], k[i+1:]
		var args []interface{}
		for rest != "" {
			if rest[0] == '"' || rest[0] == '`' {
				q, err := strconv.QuotedPrefix(rest)
				if err != nil {
					panic(k)
				}
				s, _ := strconv.Unquote(q)
				args = append(args, hexed(s))
				rest = rest[len(q):]
			} else {
				j := strings.Index(rest, ":")
				if j < 0 {
					j = len(rest)
				}
				args = append(args, obj{"s": rest[:j]})
				rest = rest[j:]
			}
			rest = strings.TrimPrefix(rest, ":")
		}
		out = append(out, []interface{}{op, args, v})
		if op == "email" && len(args) == 1 {
			if t, ok := args[0].(obj)["t"].(string); ok {
				b, _ := hex.DecodeString(t)
				out = append(out, pyMail(string(b))...)
			}
		}
	}
	return out
}

// pyMail are the answers of the mail address library.
func pyMail(s string) []interface{} {
	var out []interface{}
	seen := map[string]bool{}
	add := func(t string) {
		if seen[t] {
			return
		}
		seen[t] = true
		a, err := mail.ParseAddress(t)
		out = append(out, []interface{}{"rfc", []interface{}{hexed(t)}, err == nil && a.Address == t})
	}
	add(s)
	for i := range s {
		for j := i; j <= len(s); j++ {
			if (i == 0 || s[i-1] == '<') && (j == len(s) || s[j] == '>') {
				add(s[i:j])
			}
		}
	}
	return out
}

// PyCases gives the cases to the Python runtime.
func (c *Ctx) PyCases(o *FileOpt, cases []*fam.Case) {
	t := c.Py()
	if t == nil {
		return
	}
	classes := obj{}
	for k, v := range spec.Classes() {
		classes[hex.EncodeToString([]byte(k))] = v
	}
	o.Lang = "python"
	parallel(len(cases), func(i int) { c.ComparePy(t, o, cases[i], classes) })
}

// pySkip says why a value has no counterpart in Python.
func pySkip(b *scen.Built, k *fam.Case, v fam.CV) string {
	if v.Val == nil || v.Val.Nil {
		return "there is no null message"
	}
	if w := ccSkip(b, k.Msg, v); w != "" && w != "messages of a disabled type are valid" {
		return w
	}
	why := ""
	var walk func(x *spec.Val)
	uri := caseHas(k, "uri") || caseHas(k, "uri_ref")
	walk = func(x *spec.Val) {
		if x == nil {
			return
		}
		if uri && x.Sym != "" {
			why = "URIs are given by their text"
		}
		if ok, known := v.Env.Fact["valid:"+x.Sym]; known && !ok {
			why = "malformed times are not told apart"
		}
		if d, ok := x.Conc.(scen.DC); ok {
			kind := "duration"
			if caseHas(k, "timestamp") {
				kind = "timestamp"
			}
			if !d.Valid(kind) {
				why = "malformed times are not told apart"
			}
		}
		if r, ok := v.Env.Rank[x.Sym]; ok && x.Sym != "" && caseHas(k, "within") && (r == v.Env.Rank["now-W"] || r == v.Env.Rank["now+W"]) {
			why = "the limit itself"
		}
		for _, y := range x.List {
			walk(y)
		}
		for _, y := range x.Keys {
			walk(y)
		}
		for _, y := range x.Fields {
			walk(y)
		}
		walk(x.Inner)
	}
	walk(v.Val)
	return why
}

func pyCaseSkip(k *fam.Case) string {
	if caseHas(k, "no_sparse") {
		return "no_sparse"
	}
	if strings.HasPrefix(k.Desc, "syntax of RE2 alone ") {
		return ""
	}
	if strings.Contains(k.Desc, `\p{`) || strings.Contains(k.Desc, `\\p{`) {
		return "pattern syntax of RE2"
	}
	return ""
}

// pyChecker is the reference semantics as the Python runtime sees messages:
// every type but the switched off ones is validated.
func pyChecker(b *scen.Built, env *spec.Env) *spec.Checker {
	ck := goChecker(b, env)
	ck.Validates = func(fq string) bool {
		m := b.Msgs[fq]
		if m == nil {
			return false
		}
		d, _ := m.Disabled.(bool)
		i, _ := m.Ignored.(bool)
		return !d && !i
	}
	return ck
}

// ComparePy decides the verdicts of the Python runtime on a case.
func (c *Ctx) ComparePy(t *py.Tool, o *FileOpt, k *fam.Case, classes obj) {
	if w := pyCaseSkip(k); w != "" {
		c.Count("cases outside Python ("+w+")", 1)
		return
	}
	b, err := scen.Build(o.file([]*fam.Case{k}))
	if err != nil {
		panic(err)
	}
	fq := "." + b.File.Package + "." + k.Name
	c.Count("schemas analysed", 1)
	type job struct {
		cv   fam.CV
		env  *spec.Env
		want []spec.Viol
	}
	var jobs []job
	vals := []interface{}{}
	for _, cv := range k.Vals {
		if pySkip(b, k, cv) != "" {
			c.Count("values outside Python", 1)
			continue
		}
		want, err := pyChecker(b, cv.Env).Violations(fq, cv.Val)
		if err != nil {
			panic(fmt.Sprintf("%s %s: %v", k.Desc, cv.Val, err))
		}
		c.Count("abstract values", 1)
		envs := []*spec.Env{cv.Env}
		if !strings.Contains(k.Desc, " + ") {
			envs = upper(k, cv.Env)
		}
		for _, env := range envs {
			jobs = append(jobs, job{cv, env, want})
			vals = append(vals, obj{"rank": env.Rank, "fact": pyFacts(env), "msgs": []obj{{"type": fq, "val": pyVal(cv.Val)}}})
		}
	}
	if len(jobs) == 0 {
		return
	}
	r, err := t.Run(obj{"schema": pySchema(b), "classes": classes, "base": fam.Base, "vals": vals, "dump": os.Getenv("PYDUMP") == k.Desc})
	if err != nil {
		panic(k.Desc + ": " + err.Error())
	}
	if os.Getenv("PYDUMP") == k.Desc {
		fmt.Println(r.Text)
	}
	for i, j := range jobs {
		c.Count("obligations", 1)
		x := r.Results[i]
		bad := func(f string, a ...interface{}) {
			c.Violate("py/"+k.Desc, pyModule, "%s, value %s with %s: Python: %s", k.Desc, j.cv.Val, relevant(j.env), fmt.Sprintf(f, a...))
		}
		switch {
		case x.Undec != "":
			bad("the outcome is not determined: %s", x.Undec)
		case x.OK && len(j.want) > 0:
			bad("the value is accepted although %v is violated", j.want)
		case x.Raised != "" && !x.Failed:
			bad("%s is raised: %s", x.Raised, x.Text)
		case x.Failed && len(j.want) == 0:
			bad("the value is rejected with %q although every constraint holds", x.Text)
		}
	}
	c.mu.Lock()
	for _, f := range r.Seen {
		c.Covered["function "+f] = true
	}
	c.mu.Unlock()
}

// PyHistories gives sequences of validations to the Python runtime and
// decides the verdict of the last; those of at most max steps.
func (c *Ctx) PyHistories(max int) {
	t := c.Py()
	if t == nil {
		return
	}
	f, all := fam.Histories(c.Full())
	var hs [][]fam.Step
	for _, h := range all {
		if len(h) <= max {
			hs = append(hs, h)
		}
	}
	b, err := scen.Build(f)
	if err != nil {
		panic(err)
	}
	schema := pySchema(b)
	const n = 200
	parallel((len(hs)+n-1)/n, func(part int) {
		hs := hs[part*n:]
		if len(hs) > n {
			hs = hs[:n]
		}
		vals := []interface{}{}
		for _, h := range hs {
			ms := []obj{}
			for _, s := range h {
				ms = append(ms, obj{"type": s.Type, "val": pyVal(s.Val)})
			}
			vals = append(vals, obj{"rank": fam.Base, "fact": []interface{}{}, "msgs": ms, "fresh": true})
		}
		r, err := t.Run(obj{"schema": schema, "classes": obj{}, "base": fam.Base, "vals": vals})
		if err != nil {
			panic("histories: " + err.Error())
		}
		for i, h := range hs {
			c.Count("histories", 1)
			c.Count("obligations", 1)
			last := h[len(h)-1]
			want, err := pyChecker(b, fam.Env()).Violations(last.Type, last.Val)
			if err != nil {
				panic(err)
			}
			x := r.Results[i]
			var ds []string
			for _, s := range h {
				ds = append(ds, s.Type+" "+s.Val.String())
			}
			bad := func(f string, a ...interface{}) {
				c.Violate("py/history/"+last.Type, pyModule, "after validating, in order, %s: %s", strings.Join(ds, ", "), fmt.Sprintf(f, a...))
			}
			switch {
			case x.Undec != "":
				bad("the outcome of the last is not determined: %s", x.Undec)
			case x.OK && len(want) > 0:
				bad("the last is accepted although %v is violated", want)
			case x.Raised != "" && !x.Failed:
				bad("%s is raised: %s", x.Raised, x.Text)
			case x.Failed && len(want) == 0:
				bad("the last is rejected with %q although every constraint holds", x.Text)
			}
		}
		c.mu.Lock()
		for _, f := range r.Seen {
			c.Covered["function "+f] = true
		}
		c.mu.Unlock()
	})
}

// pyNames are field names that mean something to Python, to the templates or
// to the code they yield.
var pyNames = []string{"in", "class", "from", "None", "True", "lambda", "async", "is", "p", "present", "item", "key", "seen", "dur", "now", "url", "value", "name", "o", "embedded", "DESCRIPTOR_", "print", "len", "text"}

// pyMixed are messages of several fields.
func pyMixed(c *Ctx, o *FileOpt, stride int) []*fam.Case {
	var all, pick []*fam.Case
	for _, k := range fam.All(false) {
		if pyCaseSkip(k) == "" && !caseHas(k, "uri") && !caseHas(k, "uri_ref") {
			all = append(all, k)
		}
	}
	step := 5
	if c.Full() {
		step = 1
	}
	for i := c.Seed % step; i < len(all); i += step {
		pick = append(pick, all[i])
	}
	return fam.Mixed(pick, 4, len(pick)/4+stride, violated(o))
}

// pyNamed are fields of every name.
func pyNamed(c *Ctx) []*fam.Case {
	var pick []*fam.Case
	step := 13
	if c.Full() {
		step = 3
	}
	all := append(fam.Uris(false), fam.All(false)...)
	for i := c.Seed % step; i < len(all); i += step {
		pick = append(pick, all[i])
	}
	return fam.Named(pick, pyNames)
}
