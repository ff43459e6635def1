package check

import (
	"fmt"
	"sort"
	"strings"
)

// Property is a decided property.
type Property struct {
	ID      string
	Level   string
	Explain string
	Assume  []string
	Min     map[string]int // least counts for a non-vacuous run
	NoGo    bool           // does not need the Go program
	Run     func(c *Ctx)
}

var registry = map[string]*Property{}

func register(p *Property) {
	if p.Level == "" {
		p.Level = "other"
	}
	if registry[p.ID] != nil {
		panic("duplicate property " + p.ID)
	}
	registry[p.ID] = p
}

func Lookup(id string) *Property { return registry[id] }

func IDs() []string {
	var out []string
	for k := range registry {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (c *Ctx) Get(k string) int {
	if p := c.Counts[k]; p != nil {
		return int(*p)
	}
	return 0
}

func (c *Ctx) Construct(f string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Constructs = append(c.Constructs, fmt.Sprintf(f, a...))
}

// Summary of the counts.
func (c *Ctx) Summary() string {
	var ks, p []string
	for k := range c.Counts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		p = append(p, fmt.Sprintf("%s=%d", strings.ReplaceAll(k, " ", "_"), *c.Counts[k]))
	}
	return strings.Join(p, " ")
}
