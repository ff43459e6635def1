// Command analyzer decides one property of the plugin from its source.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/analyzer/check"
	"verif/analyzer/world"
)

type known struct{ prop, key, text string }

// readKnown reads the committed list of findings.
func readKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property=")
		p := strings.SplitN(l, " key=", 2)
		if len(p) != 2 {
			continue
		}
		q := strings.SplitN(p[1], " :: ", 2)
		k := known{prop: p[0], key: q[0]}
		if len(q) == 2 {
			k.text = q[1]
		}
		out = append(out, k)
	}
	return out
}

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "tree to analyse")
	home := flag.String("home", "/verif", "framework directory")
	verbose := flag.Bool("v", false, "print every violation")
	flag.Parse()
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	p := check.Lookup(*prop)
	if p == nil {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	ctx := check.NewCtx(nil, *tier, seed)
	ctx.Repo, ctx.Home = *repo, *home
	func() {
		defer func() {
			if r := recover(); r != nil {
				ctx.Violate("analysis/internal", "", "the analysis could not be completed: %v", r)
				if *verbose {
					debug.PrintStack()
				}
			}
		}()
		defer check.StopTools()
		if !p.NoGo {
			l, err := world.Load(*repo)
			if err != nil {
				ctx.Violate("load", "", "the tree cannot be analysed: %v", err)
				return
			}
			ctx.W = l
		}
		p.Run(ctx)
		for k, min := range p.Min {
			if n := ctx.Get(k); n < min {
				ctx.Violate("vacuous/"+k, "", "only %d %s were analysed, expected at least %d", n, k, min)
			}
		}
	}()
	kn := map[string]known{}
	for _, k := range readKnown(filepath.Join(*home, "known_findings.txt")) {
		if k.prop == *prop {
			kn[k.key] = k
		}
	}
	var fresh []check.Violation
	var found []string
	for _, v := range ctx.Violations() {
		if k, ok := kn[v.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", *prop, k.text, v.Key)
			found = append(found, v.Key)
			continue
		}
		fresh = append(fresh, v)
	}
	writeEvidence(ctx, p, *prop, *tier, seed, fresh, found, time.Since(t0))
	if len(fresh) == 0 {
		fmt.Printf("OK property=%s %s wall=%.1fs\n", *prop, ctx.Summary(), time.Since(t0).Seconds())
		return
	}
	path := filepath.Join(*home, "evidence", *prop+".violations.txt")
	var sb strings.Builder
	for _, v := range fresh {
		fmt.Fprintf(&sb, "%s\n  where: %s\n  %s\n", v.Key, v.Where, v.Detail)
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	os.WriteFile(path, []byte(sb.String()), 0o644)
	for i, v := range fresh {
		if i >= 5 && !*verbose {
			fmt.Printf("  ... and %d more\n", len(fresh)-i)
			break
		}
		fmt.Printf("  %s\n    at %s\n    %s\n", v.Key, v.Where, v.Detail)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
	os.Exit(1)
}

func writeEvidence(ctx *check.Ctx, p *check.Property, id, tier string, seed int, fresh []check.Violation, found []string, wall time.Duration) {
	cov := map[string]interface{}{"explanation": p.Explain}
	for k, v := range ctx.Counts {
		cov[strings.ReplaceAll(k, " ", "_")] = *v
	}
	if len(ctx.Samples) > 0 {
		cov["samples"] = ctx.Samples
	}
	var fns []string
	for f := range ctx.Covered {
		if strings.Contains(f, world.Mod) {
			fns = append(fns, strings.ReplaceAll(f, world.Mod+"/", ""))
		}
	}
	sort.Strings(fns)
	if len(fns) > 0 {
		cov["functions_analysed"] = fns
	}
	var tpls []string
	for n, t := range ctx.Tpls {
		pos := ""
		if ctx.W != nil {
			if q := ctx.W.ConstPos(t); q.IsValid() {
				pos = fmt.Sprintf(" (%s:%d)", strings.TrimPrefix(q.Filename, ctx.Repo+"/"), q.Line)
			}
		}
		tpls = append(tpls, n+pos)
	}
	sort.Strings(tpls)
	if len(tpls) > 0 {
		cov["templates_analysed"] = tpls
	}
	if len(ctx.Constructs) > 0 {
		cov["constructs_analysed"] = ctx.Constructs
	}
	if len(found) > 0 {
		cov["known_findings_seen"] = found
	}
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov, "assumptions": p.Assume,
		"wall_s": wall.Seconds(), "violations": len(fresh)}
	if p.Assume == nil {
		delete(ev, "assumptions")
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(ctx.Home, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644)
}
