package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- A19: sessions are told apart; requests give back what they carry

func init() {
	register("A19", "SessionID of the WebSocket and HTTP/2 sessions is interpreted on the session as it is on every path of ServeHTTP when its first goroutine starts: it gives the whole of a UUID made on that path, and on any session only what a field of that session holds, without effects; that field is set only in a session being made. Msg, Session, HttpRequest and Context of an RPCRequest are interpreted on any request: each gives the field it is named after and has no effect; NewRPCRequest fills those fields from its own arguments and leaves the session empty", checkA19)
}

func checkA19(c *Ctx) {
	for _, t := range []string{"WS", "H2"} {
		v := &sessView{c: c, id: "A19", typ: t}
		v.load()
		v.ownId()
		v.reader() // what is stored to a session that runs
	}
	c.accessors()
	c.newUuid()
}

// quietEvs: nothing is changed or called that another one could see.
func quietEvs(evs []*Event) bool {
	for _, e := range effects(evs) {
		if e.kind == EvStore && rootOf(e.args[0]).op == OAlloc {
			continue
		}
		if e.kind == EvCall && (isPure(e.name) || strings.HasPrefix(e.name, "logrus.") || strings.HasPrefix(e.name, "(*logrus.")) {
			continue
		}
		return false
	}
	return true
}

func (v *sessView) ownId() {
	c := v.c
	fn := c.method("jlibhttp", v.typ+"Session", "SessionID")
	c.site(fn.Pos(), v.typ+"Session.SessionID")
	// what it reads
	self := tSym("session", types.NewPointer(v.st))
	a := newAnalysis(c.w)
	fields := map[string]bool{}
	n := 0
	for _, o := range c.run(a, fn, self) {
		if o.kind == OutLoop {
			continue
		}
		n++
		if !v.ob("A19", o.kind == OutReturn, "ends", o.pos, "SessionID ends with a %s", kindName(o.kind)) {
			continue
		}
		v.ob("A19", quietEvs(o.evs), "pure", o.pos, "SessionID does more than give the id")
		own := 0
		subterms(o.rets[0], func(x *Term) bool {
			if (x.op == ODeref || x.op == OField) && rootOf(x) != nil {
				ad := x
				if x.op == ODeref {
					ad = x.args[0]
				}
				if ad.op == OFieldAddr && ad.args[0] == self || x.op == OField && x.args[0].op == ODeref && x.args[0].args[0] == self {
					fields[ad.str] = true
					own++
				}
			}
			if x.op == OCall && !isPure(x.str2()) || x.op == OGlobal {
				own = -1 << 20
			}
			return true
		})
		v.ob("A19", own > 0, "kept", o.pos, "SessionID gives %s, not an id the session keeps", o.rets[0])
	}
	v.ob("A19", n > 0, "vacuous", fn.Pos(), "SessionID never returns")
	// what it is when the session starts
	n = 0
	for _, o := range v.outs {
		var first *Event
		for _, e := range o.evs {
			if e.kind == EvGo {
				first = e
				break
			}
		}
		if first == nil {
			continue
		}
		b := newAnalysis(c.w)
		b.heap0, b.facts0 = first.heap, first.facts.lits
		for _, p := range c.run(b, fn, v.sess) {
			if p.kind == OutLoop {
				continue
			}
			n++
			v.ob("A19", p.kind == OutReturn && wholeUuid(p.rets[0]), "fresh", first.pos, "the id of a session is no UUID made for it")
		}
	}
	v.ob("A19", n > 0, "vacuous", fn.Pos(), "no session starts")
	// it stays what it is
	fr := c.newFreshness()
	for _, f := range c.w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !types.Identical(deref(fa.X.Type()), v.st) || !fields[structOf(v.st).Field(fa.Field).Name()] {
					continue
				}
				for _, r := range *fa.Referrers() {
					switch x := r.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						c.count("id_stores", 1)
						v.ob("A19", x.Addr == fa && fr.fresh(fa.X, map[ssa.Value]bool{}), "stores", x.Pos(), "%s changes the id of a session it did not make", shortFn(f))
					default:
						v.ob("A19", false, "stores", fa.Pos(), "%s hands out the address of the id of a session", shortFn(f))
					}
				}
			}
		}
	}
}

// newUuid: what NewUuid gives is new, where a rule relies on its name.
func (c *Ctx) newUuid() {
	fn := c.fn("jlib", "NewUuid")
	c.site(fn.Pos(), "NewUuid")
	n := 0
	for _, o := range c.run(newAnalysis(c.w), fn) {
		if o.kind == OutLoop {
			continue
		}
		n++
		c.ob(o.kind == OutReturn && wholeUuid(o.rets[0]), c.id+":uuid", o.pos, "NewUuid does not give the whole of a new UUID")
	}
	c.ob(n > 0, c.id+":uuid", fn.Pos(), "NewUuid never returns")
}

func (c *Ctx) accessors() {
	f := c.actorFields()
	rt := c.typ("jlibhttp", "RPCRequest")
	self := tSym("request", types.NewPointer(rt))
	for _, m := range []struct{ name, field string }{{"Msg", f.msg}, {"Session", f.session}, {"HttpRequest", f.httpReq}, {"Context", f.ctx}} {
		fn := c.method("jlibhttp", "RPCRequest", m.name)
		c.site(fn.Pos(), "RPCRequest."+m.name)
		a := newAnalysis(c.w)
		want := c.fieldOf(self, m.field)
		n := 0
		for _, o := range c.run(a, fn, self) {
			if o.kind == OutPanic {
				c.ob(isNil(o.facts, want) == 1, "A19:"+m.name, o.pos, "%s panics although the request carries what it is asked for", m.name)
				continue
			}
			if o.kind == OutLoop {
				continue
			}
			n++
			c.ob(o.kind == OutReturn && sameValue(o.facts, o.rets[0], want), "A19:"+m.name, o.pos, "%s does not give what the request carries", m.name)
			c.ob(quietEvs(o.evs), "A19:"+m.name+":pure", o.pos, "%s does more than give what the request carries", m.name)
		}
		c.ob(n > 0, "A19:vacuous", fn.Pos(), "%s never returns", m.name)
	}
	fn := c.fn("jlibhttp", "NewRPCRequest")
	c.site(fn.Pos(), "NewRPCRequest")
	a := newAnalysis(c.w)
	n := 0
	for _, o := range c.run(a, fn) {
		if o.kind == OutLoop {
			continue
		}
		if !c.ob(o.kind == OutReturn, "A19:new:ends", o.pos, "NewRPCRequest ends with a %s", kindName(o.kind)) {
			continue
		}
		n++
		for i, p := range fn.Params {
			fld := ""
			switch {
			case isMsgIface(p.Type()):
				fld = f.msg
			case isPtrTo(p.Type(), "http", "Request"):
				fld = f.httpReq
			case isCtxT(p.Type()):
				fld = f.ctx
			default:
				continue
			}
			c.ob(sameValue(o.facts, c.fget(a, o, o.rets[0], fld), a.Params[i]), "A19:new:"+fld, o.pos, "the request made by NewRPCRequest does not carry the %s it was given", fld)
		}
		c.ob(isNil(o.facts, c.fget(a, o, o.rets[0], f.session)) == 1, "A19:new:session", o.pos, "the request made by NewRPCRequest carries a session")
	}
	c.ob(n > 0, "A19:vacuous", fn.Pos(), "NewRPCRequest never returns")
}
