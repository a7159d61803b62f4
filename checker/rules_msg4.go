package main

import (
	"go/constant"
	"go/token"
	"go/types"
)

// M13: what constructors make. M14: the codes of errors.

func init() {
	register("M13", "on every path of NewRequestMessage and NewNotifyMessage: a panic only on a path where the id is nil or the method empty, a message only where neither is; the id, method, params and trace id read from the new message, and the params of its wire form evaluated on the final heap, are those given (absent params an empty list, one value that is no list that value alone)", checkM13)
	register("M14", "the package initialiser is interpreted: the codes of the predefined errors, and that of the error ParamsError makes on every path, are those JSON-RPC 2.0 assigns to the kind of failure they are named for", checkM14)
}

func checkM13(c *Ctx) {
	E := types.NewInterfaceType(nil, nil)
	L := types.NewSlice(types.Universe.Lookup("any").Type())
	for _, n := range []string{"Request", "Notify"} {
		name := "New" + n + "Message"
		fn := c.fn("jlib", name)
		key := "M13:" + name
		id, method, params := tSym("id", E), tSym("method", types.Typ[types.String]), tSym("params", E)
		ps := []*Term{method, params}
		if n == "Request" {
			ps = []*Term{id, method, params}
		}
		a := c.newMsgAnalysis()
		made, empty, list, single := 0, 0, 0, 0
		noMethod := lit(tEq(method, tStr("")), true)
		noId := lit(tEq(id, tNil), true)
		isList := tTypeIs(params, L)
		for _, o := range c.run(a, fn, ps...) {
			f := o.facts
			switch o.kind {
			case OutLoop:
				continue
			case OutPanic:
				c.ob(f.Implies(noMethod) || n == "Request" && f.Implies(noId), key+":panic", o.pos, "%s panics although it was given an id and a method", name)
				continue
			case OutReturn:
			default:
				c.ob(false, key, o.pos, "%s may end in a %s", name, kindName(o.kind))
				continue
			}
			c.ob(f.Val(noMethod.t) == 0, key+":method:empty", o.pos, "%s makes a message with an empty method", name)
			c.ob(n != "Request" || isNil(f, id) == 0, key+":id:nil", o.pos, "%s makes a request without an id", name)
			m := unIface(o.rets[0])
			if !c.ob(m.op == OAlloc && msgTypeName(m.typ) == n+"Message", key+":kind", o.pos, "%s gives back %s", name, o.rets[0]) {
				continue
			}
			made++
			if n == "Request" {
				x := c.acc(o, m, "MustId")
				c.ob(x != nil && sameValue(f, x, id), key+":id", o.pos, "the id of the new request is %s", x)
			}
			x := c.acc(o, m, "MustMethod")
			c.ob(x != nil && sameValue(f, x, method), key+":method", o.pos, "the method of the new message is %s", x)
			x = c.acc(o, m, "TraceId")
			c.ob(x != nil && f.Implies(lit(tEq(x, tStr("")), true)), key+":traceid", o.pos, "the new message has trace id %s", x)
			got := c.acc(o, m, "MustParams")
			na, outs := c.after(o, c.methOf(m.typ, "Interface"), m)
			var wire *Term
			for _, y := range outs {
				if y.kind != OutReturn {
					continue
				}
				w, p := c.wireForm(na.memOf(y.heap, y.vers), y.rets[0])
				if e, ok := w["params"]; c.ob(p == "" && ok, key+":wire", o.pos, "the encoded form of the new message is not understood: %s", p) {
					c.ob(wire == nil || wire == e.val, key+":wire", o.pos, "the encoded form of the new message varies")
					wire = e.val
				}
			}
			if !c.ob(got != nil && wire != nil, key+":params", o.pos, "the params of the new message are not known") {
				continue
			}
			isEmpty := func(t *Term) bool {
				t = unIface(t)
				for t.op == OAppend && len(t.args) == 1 || t.op == OAppend && t.str == "..." && isSliceT(t.args[1]) && f.Implies(lit(tLe(tLen(t.args[1]), tInt(0)), true)) {
					t = t.args[0]
				}
				return isSliceT(t) && isNil(f, t) == 0 && f.Implies(lit(tLe(tLen(t), tInt(0)), true))
			}
			given := tAssert(params, L)
			for _, l := range f.lits {
				if x := l.t; x.op == OTypeIs && x.args[0] == params {
					isList = x
				}
				subterms(l.t, func(x *Term) bool {
					if x.op == OAssert && x.args[0] == params {
						given = x
					}
					return true
				})
			}
			subterms(got, func(x *Term) bool {
				if x.op == OAssert && x.args[0] == params {
					given = x
				}
				return true
			})
			switch {
			case isNil(f, params) == 1:
				empty++
				c.ob(isEmpty(got) && isEmpty(wire), key+":params:none", o.pos, "without params the message has %s, encoded %s, not an empty list", got, wire)
			case isNil(f, params) == 0 && f.Val(isList) == 1:
				list++
				wire, got = wholeOf(unIface(wire)), wholeOf(got)
				if wire == params {
					wire = given
				}
				ok := sameValue(f, got, given) && sameValue(f, wire, given) || isNil(f, given) == 1 && isEmpty(got) && isEmpty(wire) || c.listCopy([]*Outcome{o}, o, got, given) && sameValue(f, wire, got)
				// a nil list is encoded as null
				ok = ok && (isNil(f, given) == 0 || isEmpty(wire))
				c.ob(ok, key+":params:list", o.pos, "given a list of params the message has %s, encoded %s", got, wire)
			case isNil(f, params) == 0 && f.Val(isList) == 0:
				single++
				ok := isSliceT(got) && f.Implies(lit(tEq(tLen(got), tInt(1)), true))
				e := o.get(a, mkElemAddr(got), E)
				c.ob(ok && (sameValue(f, e, params) || sameValue(f, elem(got, tInt(0)), params)), key+":params:single", o.pos, "given one value for params the message has %s", got)
				c.ob(sameValue(f, wire, params) || sameValue(f, wire, elem(got, tInt(0))) || wire == e, key+":params:single", o.pos, "given one value for params the message is encoded with %s", wire)
			default:
				c.ob(false, key+":params", o.pos, "a path of %s does not depend on what the params are", name)
			}
		}
		c.ob(made > 0 && empty > 0 && list > 0 && single > 0, key+":cases", fn.Pos(), "%s has no path for absent params, a list or a single value", name)
		c.count("messages", made)
	}
}

// wholeOf: t, or the list t is a slice of from end to end.
func wholeOf(t *Term) *Term {
	if t.op == OSlice && isSliceT(t.args[0]) && (t.args[1] == nil || t.args[1] == tInt(0)) && (t.args[2] == nil || t.args[2] == tLen(t.args[0])) {
		return wholeOf(t.args[0])
	}
	return t
}

func mkElemAddr(s *Term) *Term {
	return tIndexAddr(s, tInt(0), types.NewPointer(s.typ.Underlying().(*types.Slice).Elem()))
}

func checkM14(c *Ctx) {
	n := 0
	codes := c.errCodes()
	for name, w := range map[string]int64{"ErrParseMessage": -32700, "ErrInvalidRequest": -32600, "ErrMethodNotFound": -32601, "ErrInternalError": -32603} {
		g := c.w.Var("jlib", name)
		if !c.ob(g != nil, "M14:"+name, token.NoPos, "there is no %s", name) {
			continue
		}
		n++
		v, ok := codes[name]
		c.ob(ok && v == w, "M14:"+name, g.Pos(), "%s has code %d, JSON-RPC assigns %d", name, v, w)
	}
	pe := c.fn("jlib", "ParamsError")
	msg := tSym("message", types.Typ[types.String])
	b := newAnalysis(c.w)
	for _, o := range c.run(b, pe, msg) {
		if o.kind == OutLoop {
			continue
		}
		if !c.ob(o.kind == OutReturn && o.rets[0].op == OAlloc, "M14:ParamsError", o.pos, "ParamsError does not make an error") {
			continue
		}
		n++
		k := c.fget(b, o, o.rets[0], "Code")
		v, ok := int64(0), k.op == OConst && k.val != nil
		if ok {
			v, ok = constant.Int64Val(k.val)
		}
		c.ob(ok && v == -32602, "M14:ParamsError", o.pos, "ParamsError makes an error with code %s, JSON-RPC assigns -32602", k)
		c.ob(c.fget(b, o, o.rets[0], "Message") == msg, "M14:ParamsError:message", o.pos, "ParamsError does not keep its message")
	}
	c.count("errors", n)
}
