package main

import "go/types"

// M15: helpers that give back the JSON text of a value.

func init() {
	register("M15", "every path of MarshalJson and SchemaToString is examined: each makes one encoding/json encoding of its argument, or of the description the schema gives of itself; where that encoding succeeded the whole text it gave is returned, with no error; where it failed MarshalJson returns that failure, or one wrapped around it, and SchemaToString panics; nothing else ends in either", checkM15)
}

func checkM15(c *Ctx) {
	data := tSym("data", types.NewInterfaceType(nil, nil))
	c.jsonText("MarshalJson", "jlib", data, func(t *Term) bool { return unIface(t) == data })
	schema := tSym("schema", c.typ("jlibschema", "Schema"))
	c.jsonText("SchemaToString", "jlibschema", schema, func(t *Term) bool {
		t = unIface(t)
		return callTerm(t, "(jlibschema.Schema).Map") && t.args[0] == schema
	})
}

// jsonText: the function gives back the encoding of what is given.
func (c *Ctx) jsonText(name, pkg string, p *Term, is func(t *Term) bool) {
	fn := c.fn(pkg, name)
	c.site(fn.Pos(), name)
	a := newAnalysis(c.w)
	outs := c.run(a, fn, p)
	key := "M15:" + name
	good, bad := 0, 0
	for _, o := range outs {
		var res *Term
		n := 0
		for _, e := range o.evs {
			if e.kind == EvCall && e.name == "json.Marshal" {
				n++
				if c.ob(is(e.args[0]), key+":what", e.pos, "%s encodes %s", name, e.args[0]) {
					res = e.res
				}
			}
		}
		if !c.ob(n == 1 && res != nil, key+":encode", o.pos, "%s may end without having encoded its argument once", name) {
			continue
		}
		failed := isNil(o.facts, resAt(res, 1))
		switch {
		case o.kind == OutReturn && failed == 1:
			good++
			v := unConv(o.rets[0])
			c.ob(v == resAt(res, 0), key+":text", o.pos, "%s returns %s, not the text of the encoding", name, o.rets[0])
			if len(o.rets) > 1 {
				c.ob(isNil(o.facts, o.rets[1]) == 1, key+":error", o.pos, "%s reports an error although the encoding succeeded", name)
			}
		case o.kind == OutReturn && failed == 0 && len(o.rets) > 1:
			bad++
			c.ob(isNil(o.facts, o.rets[1]) == 0, key+":silent", o.pos, "%s hides that the encoding failed", name)
		case o.kind == OutReturn && failed == -1 && len(o.rets) > 1 && unConv(o.rets[0]) == resAt(res, 0) && sameValue(o.facts, o.rets[1], resAt(res, 1)):
			// both are passed on as they are
			good++
			bad++
		case o.kind == OutPanic && failed == 0 && len(o.rets) <= 1:
			bad++
		default:
			c.ob(false, key+":ends", o.pos, "%s may end in a %s whatever the encoding gave", name, kindName(o.kind))
		}
	}
	c.ob(good > 0 && bad > 0, key+":both", fn.Pos(), "%s has no path for an encoding that succeeded or failed", name)
}
