package jvm

import (
	"fmt"
	"strings"
)

const validationException = "io.envoyproxy.pgv.ValidationException"

// Construct makes an instance of a class with its default constructor.
func (e *Eval) Construct(cls string) Value {
	if e.class(cls) == nil {
		e.undec("there is no class %s", cls)
	}
	return e.construct(cls, "<init>()", nil, nil)
}

// Index is a validator index whose validators reject the messages bad says.
func (e *Eval) Index(bad func(m *Obj) bool) Value {
	return &Nat{"index", func(a []Value) Value {
		cl, ok := a[0].(Class)
		if !ok {
			e.undec("a validator index asked for %T", a[0])
		}
		return &Nat{"validator", func(b []Value) Value {
			m, ok := b[0].(*Obj)
			if !ok {
				e.npe("message")
			}
			if m.Cls != cl.Name {
				e.throw("java.lang.ClassCastException", m.Cls+" given to the validator of "+cl.Name)
			}
			if m.Type != "" && m.Msg == nil {
				e.throw("java.lang.IllegalStateException", "an unset message is validated")
			}
			if bad(m) {
				x := e.construct(validationException, "<init>(java.lang.String,java.lang.Object,java.lang.String)", []Value{Text{S: "nested"}, m, Text{S: "nested"}}, nil).(*Obj)
				x.F["$tag"] = Text{S: m.Opaque}
				panic(Thrown{x})
			}
			return nil
		}}
	}}
}

// Assert calls assertValid on a validator.
func (e *Eval) Assert(validator, msg, index Value) {
	o, ok := validator.(*Obj)
	if !ok {
		e.undec("a validator %T", validator)
	}
	sig := "assertValid(java.lang.Object,io.envoyproxy.pgv.ValidatorIndex)"
	m, c := e.find(o.Cls, sig)
	if m == nil || m.C[0] == nil {
		e.undec("%s has no assertValid method", o.Cls)
	}
	e.invoke(c, m, o, []Value{msg, index})
}

// Tag is the embedded message an exception was thrown for.
func (e *Eval) Tag(x *Obj) string {
	if t, ok := x.F["$tag"].(Text); ok {
		return t.S
	}
	return ""
}

// Describe tells an exception.
func (e *Eval) Describe(x *Obj) string {
	s := x.Cls
	if f, ok := e.ViolatedField(x); ok {
		return s + " for " + f
	}
	if t, ok := x.F["$msg"].(Text); ok && !t.Free {
		s += fmt.Sprintf(" (%s)", t.S)
	}
	return s
}

// ViolatedField is what getField() of a validation exception returns.
func (e *Eval) ViolatedField(x *Obj) (field string, ok bool) {
	if !e.instance(x.Cls, validationException) {
		return "", false
	}
	o := e.Catch(func() {
		m, c := e.find(x.Cls, "getField()")
		if m == nil {
			e.undec("no getField")
		}
		t, is := e.invoke(c, m, x, nil).(Text)
		if is && !t.Free {
			field, ok = t.S, true
		} else {
			field, ok = "?", true
		}
	})
	return field, ok && o.Undec == "" && o.Thrown == nil
}

// CallStatic calls the only static method of that name.
func (e *Eval) CallStatic(cls, name string, args []Value) Value {
	c := e.class(cls)
	if c == nil {
		e.undec("there is no class %s", cls)
	}
	for sig, m := range c.Methods {
		if strings.HasPrefix(sig, name+"(") {
			e.initStatic(c)
			return e.invoke(c, m, nil, args)
		}
	}
	e.undec("%s has no method %s", cls, name)
	return nil
}

// Static reads a static field.
func (e *Eval) Static(cls, name string) Value { return e.statics(cls, name) }
