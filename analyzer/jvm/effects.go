package jvm

import (
	"fmt"
	"strings"
)

// watch is what a call shares with other calls: everything that exists when
// it starts, and what class initialisation makes on the way.
type watch struct {
	old     map[interface{}]bool
	sync    int // depth of synchronized code
	init    int // depth of class initialisation
	where   []string
	Effects []string
	seen    map[string]bool
}

// Watch starts recording writes to what exists already.
func (e *Eval) Watch(shared ...Value) {
	e.w = &watch{old: map[interface{}]bool{}, seen: map[string]bool{}}
	for _, v := range shared {
		e.share(v)
	}
	for _, c := range e.cls {
		if c == nil {
			continue
		}
		for _, v := range c.Static {
			e.share(v)
		}
	}
}

// Effects are the recorded writes.
func (e *Eval) Effects() []string {
	if e.w == nil {
		return nil
	}
	return e.w.Effects
}

// share marks what is reachable from v as existing.
func (e *Eval) share(v Value) {
	w := e.w
	if w == nil {
		return
	}
	switch v := v.(type) {
	case *Obj:
		if v == nil || w.old[v] || strings.HasPrefix(v.Cls, "java.util.concurrent.atomic.") || v.Cls == "java.lang.ThreadLocal" {
			return
		}
		w.old[v] = true
		for _, x := range v.F {
			e.share(x)
		}
		if c, ok := v.Out.(*ctx); ok {
			e.shareCtx(c)
		}
	case *Arr:
		if v == nil || w.old[v] {
			return
		}
		w.old[v] = true
		for _, x := range v.E {
			e.share(x)
		}
	case *Coll:
		if v == nil || w.old[v] {
			return
		}
		w.old[v] = true
		for _, x := range v.E {
			e.share(x)
		}
		for _, x := range v.V {
			e.share(x)
		}
	case *Lam:
		if v == nil || w.old[v] {
			return
		}
		w.old[v] = true
		e.share(v.This)
		e.shareFrame(v.Fr)
	}
}

func (e *Eval) shareCtx(c *ctx) {
	if c == nil || e.w.old[c] {
		return
	}
	e.w.old[c] = true
	e.share(c.this)
	e.shareFrame(c.fr)
}

func (e *Eval) shareFrame(f *frame) {
	for ; f != nil && !e.w.old[f]; f = f.parent {
		e.w.old[f] = true
		for _, x := range f.vars {
			e.share(x)
		}
	}
}

// touch records a write to an object; an object of nil stands for a static
// field.
func (e *Eval) touch(o interface{}, f string, a ...interface{}) {
	w := e.w
	if w == nil || w.sync > 0 || w.init > 0 || o != nil && !w.old[o] {
		return
	}
	if c, ok := o.(*Coll); ok && c.Safe {
		return
	}
	at := ""
	if n := len(w.where); n > 0 {
		at = w.where[n-1] + " "
	}
	s := at + fmt.Sprintf(f, a...)
	if !w.seen[s] {
		w.seen[s] = true
		w.Effects = append(w.Effects, s)
	}
}
