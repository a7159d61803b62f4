package main

import (
	"go/types"
	"sync"
)

// Unexported fields may be called anything: they are found by their type, or
// by what an accessor returns.

// fieldLike: the name of the field called want, or else of the only field of
// a type is holds of.
func fieldLike(t types.Type, want string, is func(types.Type) bool) string {
	s := structOf(t)
	if s == nil {
		return want
	}
	found := ""
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Name() == want {
			return want
		}
		if is(f.Type()) {
			if found != "" {
				return want
			}
			found = f.Name()
		}
	}
	if found == "" {
		return want
	}
	return found
}

// traceField is the field a message keeps its trace id in.
func traceField() string {
	t := theWorld.Type("jlib", "BaseMessage")
	if t == nil {
		return "traceId"
	}
	return fieldLike(t, "traceId", func(t types.Type) bool { return types.Identical(t, types.Typ[types.String]) })
}

// pathsName is the field of a validator or an error that holds its path.
func (c *Ctx) pathsName(base *Term) string {
	return fieldLike(deref(base.typ), "paths", func(t types.Type) bool {
		return types.Identical(t, types.NewSlice(types.Typ[types.String]))
	})
}

func isAuthCfgT(t types.Type) bool { return isPtrTo(t, "jlibhttp", "AuthConfig") }

var mixinNames sync.Map

// mixinName is the field a schema keeps its name or description in: the one
// GetName or GetDescription returns.
func (c *Ctx) mixinName(what string) string {
	if n, ok := mixinNames.Load(what); ok {
		return n.(string)
	}
	n := what
	get := map[string]string{"name": "GetName", "description": "GetDescription"}[what]
	if mt := c.w.Type("jlibschema", "SchemaMixin"); mt != nil && get != "" {
		if fn := c.methOf(types.NewPointer(mt), get); fn != nil {
			outs, _ := newAnalysis(c.w).Run(fn)
			for _, o := range outs {
				if o.kind != OutReturn {
					continue
				}
				switch r := o.rets[0]; {
				case r.op == OField:
					n = r.str
				case r.op == ODeref && r.args[0].op == OFieldAddr:
					n = r.args[0].str
				}
			}
		}
	}
	mixinNames.Store(what, n)
	return n
}

// mixinAccessors: what SetName and SetDescription store is what GetName and
// GetDescription return.
func (c *Ctx) mixinAccessors() {
	mt := c.w.Type("jlibschema", "SchemaMixin")
	S := types.Typ[types.String]
	x := tSym("x", S)
	for _, m := range []string{"Name", "Description"} {
		a := newAnalysis(c.w)
		self := tSym("self", types.NewPointer(mt))
		n := 0
		for _, o := range c.run(a, c.methOf(types.NewPointer(mt), "Set"+m), self, x) {
			if !c.ob(o.kind == OutReturn, "S07:Set"+m, o.pos, "Set%s may end in a %s", m, kindName(o.kind)) {
				continue
			}
			n++
			for _, g := range []string{"Name", "Description"} {
				_, outs := c.after(o, c.methOf(types.NewPointer(mt), "Get"+g), self)
				want := x
				if g != m {
					before := c.run(c.newMsgAnalysis(), c.methOf(types.NewPointer(mt), "Get"+g), self)
					want = nil
					if len(before) == 1 && before[0].kind == OutReturn {
						want = before[0].rets[0]
					}
				}
				for _, y := range outs {
					c.ob(y.kind == OutReturn && want != nil && y.rets[0] == want, "S07:Set"+m+":Get"+g, o.pos, "after Set%s(x) Get%s returns %s", m, g, y.rets[0])
				}
			}
		}
		c.ob(n > 0, "S07:Set"+m, c.methOf(types.NewPointer(mt), "Set"+m).Pos(), "Set%s does not return", m)
	}
}

// nextField is the field of the guarded handler.
func nextField(t types.Type) string {
	return fieldLike(t, "next", func(t types.Type) bool { return isNamed(t, "http", "Handler") })
}
