package fam

import (
	"verif/analyzer/scen"
	"verif/analyzer/spec"
)

const (
	durT = ".google.protobuf.Duration"
	tsT  = ".google.protobuf.Timestamp"
	anyT = ".google.protobuf.Any"
)

// timeContexts in which duration and timestamp rules are written.
var timeContexts = []string{"plain", "oneof", "items", "values"}

func nowEnv() *spec.Env { return Env().R("now", 100).R("now-W", 80).R("now+W", 120) }

// Times: duration and timestamp constraints.
func Times(full bool) []*Case {
	b := &builder{pre: "TM"}
	for _, kt := range [][2]string{{"duration", durT}, {"timestamp", tsT}} {
		kind, typ := kt[0], kt[1]
		rules := Ranges(func(s string) interface{} { return scen.D(s) }, nil, false)
		rules = append(rules, R{"const": scen.D("K")}, R{"required": true}, R{"required": false}, R{"required": true, "gt": scen.D("lo")}, R{})
		if kind == "duration" {
			rules = append(rules, R{"in": I{scen.D("I1")}}, R{"in": I{scen.D("I1"), scen.D("I2")}}, R{"not_in": I{scen.D("I1")}}, R{"not_in": I{scen.D("I1"), scen.D("I2")}},
				R{"gt": scen.D("lo"), "not_in": I{scen.D("mid")}}, R{"required": true, "in": I{scen.D("I1")}})
		} else {
			rules = append(rules, R{"lt_now": true}, R{"gt_now": true}, R{"within": scen.D("W")}, R{"lt_now": true, "within": scen.D("W")}, R{"gt_now": true, "within": scen.D("W")},
				R{"lt_now": true, "required": true}, R{"within": scen.D("W"), "required": true})
		}
		for _, r := range rules {
			for _, ctx := range timeContexts {
				m := InContext("", ctx, Shape{Kind: "message", Type: typ}, R{kind: r})
				marks := Marks(r)
				now := r["lt_now"] != nil || r["gt_now"] != nil || r["within"] != nil
				if now {
					marks = append(marks, 80, 100, 120)
				}
				if len(marks) == 0 {
					marks = []float64{10}
				}
				var vals []CV
				for _, p := range Positions(marks...) {
					vals = append(vals, CV{nowEnv().R(X, p).F("valid:"+X, true), ValueIn(ctx, spec.Sym(X))})
				}
				// an ill-formed value has a position too: the reading of its fields
				for _, p := range Positions(marks...) {
					vals = append(vals, CV{nowEnv().R(X, p).F("valid:"+X, false), ValueIn(ctx, spec.Sym(X))})
				}
				vals = append(vals, CV{nowEnv(), ValueIn(ctx, spec.Nil())})
				if ctx == "plain" || ctx == "oneof" {
					vals = append(vals, CV{nowEnv(), spec.Msg(nil)})
				}
				b.add(ctx+" "+kind+" "+r.String(), m, vals)
			}
		}
	}
	// bounds and values that differ in their nanoseconds only
	type DC = scen.DC
	for _, kt := range [][2]string{{"duration", durT}, {"timestamp", tsT}} {
		kind, typ := kt[0], kt[1]
		rules := []R{{"gt": DC{10, 5}, "lt": DC{10, 9}}, {"gte": DC{10, 5}, "lte": DC{10, 9}}, {"gt": DC{10, 9}, "lt": DC{10, 5}}, {"gte": DC{10, 9}, "lte": DC{10, 5}},
			{"gt": DC{10, 9}, "lte": DC{10, 5}}, {"gte": DC{10, 9}, "lt": DC{10, 5}}, {"gte": DC{10, 5}, "lt": DC{10, 9}}, {"gt": DC{10, 5}, "lte": DC{10, 9}},
			{"const": DC{10, 7}}, {"lt": DC{0, 0}}, {"gte": DC{0, 0}}, {"gt": DC{9, 9}, "lt": DC{10, 5}}, {"lt": DC{9, 9}, "gt": DC{10, 5}}, {"lt": DC{-10, 0}}, {"const": DC{0, 0}}}
		vals := []DC{{10, 4}, {10, 5}, {10, 6}, {10, 7}, {10, 8}, {10, 9}, {10, 10}, {9, 9}, {9, 999999999}, {9, 8}, {11, 0}, {0, 0}, {0, 1}, {-10, 0}, {-11, 0}, {10, 1000000000}, {1, -1}, {-62135596800, 0}, {-62135596801, 0}}
		if kind == "duration" {
			rules = append(rules, R{"gt": DC{-1, -5}}, R{"in": I{DC{10, 5}, DC{0, 9}}}, R{"not_in": I{DC{10, 5}}}, R{"lt": DC{0, -5}, "gte": DC{0, -9}}, R{"in": I{DC{0, 0}, DC{-1, -5}}})
			vals = append(vals, DC{-1, -4}, DC{-1, -5}, DC{-1, -6}, DC{0, -5}, DC{0, -6}, DC{0, -9}, DC{0, -10}, DC{0, 9})
		} else {
			rules = append(rules, R{"gt": DC{-11, 500}})
			vals = append(vals, DC{-11, 499}, DC{-11, 500}, DC{-11, 501})
		}
		for _, r := range rules {
			for _, ctx := range timeContexts {
				var cvs []CV
				for _, v := range vals {
					cvs = append(cvs, CV{nowEnv(), ValueIn(ctx, spec.Conc(v))})
				}
				b.add(ctx+" "+kind+" "+r.String(), InContext("", ctx, Shape{Kind: "message", Type: typ}, R{kind: r}), cvs)
			}
		}
	}
	return b.cases
}
