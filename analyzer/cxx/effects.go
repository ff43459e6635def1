package cxx

import "fmt"

// share marks what is reachable from a variable of static storage.
func (p *Prog) share(v Value) {
	switch v := v.(type) {
	case *Cell:
		if v != nil && !p.old[v] {
			p.old[v] = true
			p.share(v.V)
		}
	case *Coll:
		if v != nil {
			p.old[v] = true
			for _, x := range v.E {
				p.share(x)
			}
			for _, x := range v.V {
				p.share(x)
			}
			for _, x := range v.Vals {
				p.share(x)
			}
		}
	case *Obj:
		if v != nil && !p.old[v] {
			p.old[v] = true
			for _, x := range v.F {
				p.share(x)
			}
		}
	case *Pair:
		p.share(v.A)
		p.share(v.B)
	case *Stream:
		p.old[v] = true
	case *Lam:
		for f := v.Fr; f != nil && !p.old[f]; f = f.up {
			p.old[f] = true
			for _, x := range f.vars {
				p.share(x)
			}
		}
	}
}

// touch records a write to an object all threads see.
func (e *Eval) touch(o interface{}, f string, a ...interface{}) {
	if e.init > 0 || e.locks > 0 || !e.P.old[o] {
		return
	}
	at := ""
	if n := len(e.where); n > 0 {
		at = e.where[n-1] + " "
	}
	s := at + fmt.Sprintf(f, a...)
	for _, x := range e.Effects {
		if x == s {
			return
		}
	}
	e.Effects = append(e.Effects, s)
}

// set assigns to a variable.
func (e *Eval) set(c *Cell, v Value) {
	e.touch(c, "writes a shared variable")
	c.V = v
	if e.P.old[c] {
		e.P.share(v)
	}
}
