package main

// A07: registration and lookup of methods.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("A07", "the registration and lookup functions of Actor are interpreted path by path: a taken name, missing or close handler is refused with nothing changed, a free one is stored once with the given callback and every setter applied; Has, GetSchema and MethodList are decided by the actor's own table and the same question to every child; nothing else in the module changes the table, the children or a stored handler", checkA07)
}

type regView struct {
	c    *Ctx
	f    actorFields
	fn   *ssa.Function
	name string
	a    *Analysis
	outs []*Outcome
	self *Term
	ps   []*Term // parameters after the receiver
	kids *Term
	tab  *Term
	own  *Term
	have *Term // the table has the method (first parameter)
}

func (c *Ctx) regView(f actorFields, name string, prep func(a *Analysis)) *regView {
	v := &regView{c: c, f: f, name: name}
	fn := c.method("jlibhttp", "Actor", name)
	v.fn = fn
	v.a = newAnalysis(c.w)
	if prep != nil {
		prep(v.a)
	}
	v.self = tSym("self", types.NewPointer(c.typ("jlibhttp", "Actor")))
	v.a.facts0 = append(v.a.facts0, lit(tEq(v.self, tNil), false))
	args := []*Term{v.self}
	for _, p := range fn.Params[1:] {
		t := tSym(p.Name(), p.Type())
		v.ps = append(v.ps, t)
		args = append(args, t)
	}
	v.kids, v.tab = c.fieldOf(v.self, f.children), c.fieldOf(v.self, f.handlers)
	if len(v.ps) > 0 && types.Identical(v.ps[0].typ, types.Typ[types.String]) {
		ht := types.NewPointer(c.typ("jlibhttp", "MethodHandler"))
		v.own = mk(OLookup, ht, "", 0, v.tab, v.ps[0])
		v.have = mk(OLookupOk, types.Typ[types.Bool], "", 0, v.tab, v.ps[0])
		v.a.facts0 = append(v.a.facts0, lit(tEq(v.own, tNil), false))
	}
	v.outs = c.run(v.a, fn, args...)
	return v
}

func (v *regView) ob(ok bool, key string, o *Outcome, f string, args ...interface{}) bool {
	return v.c.ob(ok, "A07:"+v.name+":"+key, o.pos, v.name+": "+f, args...)
}

// taken: 1 the method is in the actor's table on the path, 0 not, -1 unknown.
// A stored handler is never nil.
func (v *regView) taken(f *Facts) int {
	if x := f.Val(v.have); x >= 0 {
		return x
	}
	// a name without a handler has the zero handler, and none is stored as nil
	if x := isNil(f, v.own); x >= 0 {
		return 1 - x
	}
	return -1
}

// asked: the answer of a child to the same question, 1/0/-1.
func (v *regView) asked(f *Facts, kid *Term, n int) int {
	for _, l := range f.lits {
		t := l.t
		if n >= 0 {
			if t.op != OExtract || t.n != n {
				continue
			}
			t = t.args[0]
		}
		if v.isAsk(t, kid) {
			return map[bool]int{true: 1, false: 0}[l.val]
		}
	}
	return -1
}

func (v *regView) isAsk(t, kid *Term) bool {
	if t.op != OCall || !strings.HasSuffix(t.str2(), "Actor)."+v.name) || len(t.args) != 1+len(v.ps) {
		return false
	}
	for i, p := range v.ps {
		if t.args[1+i] != p {
			return false
		}
	}
	x := t.args[0]
	return x == kid || x.op == ODeref && x.args[0] == kid
}

func (v *regView) noChild(o *Outcome, n int) bool {
	return o.facts.Implies(lit(tEq(tLen(v.kids), tInt(0)), true)) ||
		forAll(v.outs, o, tLen(v.kids), func(b *Outcome, i *Term) bool { return v.asked(b.facts, elem(v.kids, i), n) == 0 })
}

func (v *regView) someChild(o *Outcome, n int) bool {
	return existsIn(v.outs, o, v.kids, func(b *Outcome, i *Term) bool { return v.asked(b.facts, elem(v.kids, i), n) == 1 })
}

// changes: what the path does to the actor.
func (v *regView) changes(o *Outcome) (ups, dels, other []*Event) {
	for _, e := range o.evs {
		switch e.kind {
		case EvMapUpdate:
			ups = append(ups, e)
		case EvMapDelete:
			dels = append(dels, e)
		case EvStore:
			if rootOf(e.args[0]) == v.self {
				other = append(other, e)
			}
		}
	}
	return
}

func checkA07(c *Ctx) {
	f := c.actorFields()
	for _, n := range []string{"OnRequest", "On", "OnContext", "OnTyped", "OnTypedRequest", "OnTypedContext"} {
		c.registers(f, n)
	}
	c.onlyOne(f, "OnMissing", f.missing)
	c.onlyOne(f, "OnClose", f.close)
	c.checkOff(f)
	c.checkHas(f)
	c.checkGetSchema(f)
	c.checkMethodList(f)
	c.checkAddChild(f)
	c.checkNewActor(f)
	c.checkSetters(f)
	c.tableScan(f)
}

// registers: a free name is stored once, a taken one is refused.
func (c *Ctx) registers(f actorFields, name string) {
	v := c.regView(f, name, nil)
	errs := v.fn.Signature.Results().Len() == 1
	n := 0
	for _, o := range v.outs {
		ups, dels, other := v.changes(o)
		v.ob(len(other) == 0, "self", o, "changes something else of the actor")
		if o.kind == OutLoop {
			for i, e := range o.evs {
				if e.kind == EvLoopEnter && e.loop == o.loop {
					ups, dels, _ = v.changes(&Outcome{evs: o.evs[i:]})
				}
			}
			v.ob(len(ups)+len(dels) == 0, "loop", o, "changes the table in a loop")
			continue
		}
		done := o.kind == OutReturn
		if done && errs {
			switch isNil(o.facts, o.rets[0]) {
			case 1:
			case 0:
				done = false
			default:
				v.ob(false, "unclear", o, "the outcome of a registration does not follow from its path: %s", o.rets[0])
				continue
			}
		}
		v.ob(len(dels) == 0, "delete", o, "removes a handler")
		if !done {
			v.ob(len(ups) == 0, "kept", o, "a refused registration changes the table")
			if name == "OnRequest" {
				v.ob(o.kind == OutReturn && v.taken(o.facts) == 1, "refused", o, "a free name is refused or the function ends in a %s", kindName(o.kind))
			}
			continue
		}
		v.ob(v.taken(o.facts) == 0, "taken", o, "a name that is taken may be registered again")
		if !v.ob(len(ups) == 1 && ups[0].args[0] == v.tab && ups[0].args[1] == v.ps[0], "stored", o, "a registration stores %d handlers, or not under the name", len(ups)) {
			continue
		}
		n++
		h := ups[0].args[2]
		if !v.ob(h.op == OAlloc, "fresh", o, "what is stored is not a new handler: %s", h) {
			continue
		}
		cb := c.fget(v.a, o, h, f.callback)
		if name == "OnRequest" {
			v.ob(unConv(cb) == v.ps[1], "callback", o, "the handler stored calls %s", cb)
		} else {
			v.ob(cb.op != ONil && cb.op != OZero, "callback", o, "the handler stored calls %s", cb)
		}
		setters := v.ps[len(v.ps)-1]
		ok := forAll(v.outs, o, tLen(setters), func(b *Outcome, i *Term) bool {
			k := 0
			for _, e := range b.evs {
				if e.kind == EvCall && e.dyn && e.callee == elem(setters, i) {
					if len(e.args) != 1 || e.args[0] != h {
						return false
					}
					k++
				}
			}
			return k == 1
		})
		v.ob(ok, "setters", o, "not every setter is applied to the handler stored")
	}
	c.ob(n > 0, "A07:"+name+":vacuous", v.fn.Pos(), "%s registers nothing", name)
}

// onlyOne: the field is set when it is nil and kept otherwise.
func (c *Ctx) onlyOne(f actorFields, name, field string) {
	v := c.regView(f, name, nil)
	old := c.fieldOf(v.self, field)
	n := 0
	for _, o := range v.outs {
		if !v.ob(o.kind == OutReturn, "ends", o, "ends in a %s", kindName(o.kind)) || o.kind != OutReturn {
			continue
		}
		ups, dels, _ := v.changes(o)
		v.ob(len(ups)+len(dels) == 0, "table", o, "changes the table")
		now := c.fget(v.a, o, v.self, field)
		for _, g := range []string{f.missing, f.close, f.children, f.handlers} {
			if g != field {
				v.ob(c.fget(v.a, o, v.self, g) == c.fieldOf(v.self, g), "other", o, "changes %s", g)
			}
		}
		switch isNil(o.facts, o.rets[0]) {
		case 1:
			n++
			v.ob(isNil(o.facts, old) == 1, "taken", o, "a second handler may replace the first")
			v.ob(now == v.ps[0], "stored", o, "the handler stored is %s", now)
		case 0:
			v.ob(isNil(o.facts, old) == 0, "refused", o, "a first handler may be refused")
			v.ob(now == old, "kept", o, "a refused handler replaces the first")
		default:
			v.ob(false, "unclear", o, "the outcome does not follow from the path")
		}
	}
	c.ob(n > 0, "A07:"+name+":vacuous", v.fn.Pos(), "%s stores nothing", name)
}

func (c *Ctx) checkOff(f actorFields) {
	v := c.regView(f, "Off", nil)
	for _, o := range v.outs {
		if !v.ob(o.kind == OutReturn, "ends", o, "ends in a %s", kindName(o.kind)) {
			continue
		}
		ups, dels, other := v.changes(o)
		v.ob(len(ups)+len(other) == 0, "other", o, "changes something else")
		switch len(dels) {
		case 0:
			v.ob(v.taken(o.facts) == 0, "removed", o, "a registered method may stay")
		case 1:
			v.ob(dels[0].args[0] == v.tab && dels[0].args[1] == v.ps[0], "only", o, "removes %s", dels[0])
		default:
			v.ob(false, "only", o, "removes several methods")
		}
		v.ob(len(callsOf(o, "Off")) == 0, "children", o, "changes other actors")
	}
}

// callsOf: calls of the named method of Actor.
func callsOf(o *Outcome, name string) []*Event {
	var r []*Event
	for _, e := range o.evs {
		if e.kind == EvCall && isMeth(e.fn, "Actor", name) {
			r = append(r, e)
		}
	}
	return r
}

func (v *regView) pureOb(o *Outcome) bool {
	ups, dels, other := v.changes(o)
	return v.ob(len(ups)+len(dels)+len(other) == 0, "pure", o, "changes the actor")
}

func (c *Ctx) checkHas(f actorFields) {
	v := c.regView(f, "Has", nil)
	n := 0
	for _, o := range v.outs {
		if o.kind == OutLoop {
			v.pureOb(o)
			continue
		}
		if !v.ob(o.kind == OutReturn, "ends", o, "ends in a %s", kindName(o.kind)) || !v.pureOb(o) {
			continue
		}
		r := o.rets[0]
		for _, val := range []bool{true, false} {
			for _, own := range []bool{true, false} {
				g := o.facts.assume(lit(r, val), lit(v.have, own))
				if !g.Consistent() {
					continue
				}
				p := *o
				p.facts = g
				if stuckAway(v.outs, &p) {
					continue
				}
				n++
				if val {
					v.ob(v.taken(g) == 1 || v.someChild(&p, -1), "yes", o, "a method may be reported that no handler of the actor or its children has")
				} else {
					v.ob(v.taken(g) == 0, "own", o, "a method of the actor itself may be denied")
					v.ob(v.noChild(&p, -1), "child", o, "a method of a child may be denied")
				}
			}
		}
	}
	c.ob(n > 1, "A07:Has:vacuous", v.fn.Pos(), "Has has one answer only")
}

func (c *Ctx) checkGetSchema(f actorFields) {
	v := c.regView(f, "GetSchema", nil)
	schema := c.fieldOf(v.own, f.schema)
	n := 0
	for _, o := range v.outs {
		if o.kind == OutLoop {
			v.pureOb(o)
			continue
		}
		if !v.ob(o.kind == OutReturn, "ends", o, "ends in a %s", kindName(o.kind)) || !v.pureOb(o) {
			continue
		}
		for _, val := range []bool{true, false} {
			g := o.facts.assume(lit(o.rets[1], val))
			if !g.Consistent() {
				continue
			}
			p := *o
			p.facts = g
			mine := v.taken(g) == 1 && isNil(g, schema) == 0
			none := v.taken(g) == 0 || isNil(g, schema) == 1
			if !val {
				v.ob(none, "own", o, "the schema of the actor's own handler may be denied")
				v.ob(v.noChild(&p, 1) || v.taken(g) == 1, "child", o, "the schema a child has for a method may be denied")
				v.ob(isNil(g, o.rets[0]) == 1, "nothing", o, "a schema is returned as missing")
				continue
			}
			n++
			s := o.rets[0]
			if s == schema {
				v.ob(mine, "mine", o, "a handler's schema is reported although there may be none")
				continue
			}
			ok := s.op == OExtract && s.n == 0
			if ok {
				k := s.args[0]
				ok = false
				if len(k.args) > 0 {
					kid := k.args[0]
					if kid.op == ODeref {
						kid = kid.args[0]
					}
					ok = kid.op == OIndex && kid.args[0] == v.kids && v.isAsk(k, kid) && g.Val(tExtract(k, 1, types.Typ[types.Bool])) == 1
				}
			}
			v.ob(ok, "childs", o, "the schema reported is %s", s)
			v.ob(none, "first", o, "a child's schema may be reported although the actor has its own")
		}
	}
	c.ob(n > 1, "A07:GetSchema:vacuous", v.fn.Pos(), "GetSchema does not report own and children's schemas")
}

// seg: part of a list: one element, a whole list, or what the iterations of a
// loop append.
type seg struct {
	elem, all *Term
	loop      *LoopInfo
	lv        *Term
}

// segs: how the list t was put together on the path.
func segs(outs []*Outcome, o *Outcome, t *Term, base *Term) ([]seg, bool) {
	if t == base {
		return nil, true
	}
	switch {
	case t.op == ONil || t.op == OZero || isEmptyMake(t):
		return nil, base == nil
	case t.op == OSliceLit && base == nil:
		var r []seg
		for _, x := range t.args {
			r = append(r, seg{elem: x})
		}
		return r, true
	case t.op == OConv:
		return segs(outs, o, t.args[0], base)
	case t.op == OAppend:
		r, ok := segs(outs, o, t.args[0], base)
		if !ok {
			return nil, false
		}
		if t.str == "" {
			for _, x := range t.args[1:] {
				r = append(r, seg{elem: x})
			}
			return r, true
		}
		if len(t.args) != 2 {
			return nil, false
		}
		if q, ok := segs(outs, o, t.args[1], nil); ok {
			return append(r, q...), true
		}
		return append(r, seg{all: t.args[1]}), true
	case t.op == OLoopVar:
		for _, l := range loopsIn(o) {
			if init, ok := l.init[t]; ok {
				r, ok := segs(outs, o, init, base)
				return append(r, loopSeg(outs, o, l, t)), ok
			}
		}
	}
	return nil, false
}

// loopSeg: what loop l appends to lv; a loop that appends every element of a
// list appends the list.
func loopSeg(outs []*Outcome, o *Outcome, l *LoopInfo, lv *Term) seg {
	r := seg{loop: l, lv: lv}
	bs := rawBacks(outs, o, l)
	var src *Term
	for _, b := range bs {
		n := b.next[lv]
		if n == nil || n.op != OAppend || n.str != "" || len(n.args) != 2 || n.args[0] != lv || n.args[1].op != OIndex {
			return r
		}
		s := n.args[1].args[0]
		if src != nil && src != s {
			return r
		}
		src = s
	}
	if src == nil {
		return r
	}
	ok := forAll(outs, o, tLen(src), func(b *Outcome, i *Term) bool {
		return b.loop.key == l.key && b.next[lv].args[1] == elem(src, i)
	})
	if ok {
		return seg{all: src}
	}
	return r
}

func (c *Ctx) checkMethodList(f actorFields) {
	v := c.regView(f, "MethodList", nil)
	n := 0
	for _, o := range v.outs {
		if o.kind == OutLoop {
			v.pureOb(o)
			continue
		}
		if !v.ob(o.kind == OutReturn, "ends", o, "ends in a %s", kindName(o.kind)) || !v.pureOb(o) {
			continue
		}
		n++
		ss, ok := segs(v.outs, o, o.rets[0], nil)
		if !v.ob(ok, "list", o, "cannot tell what the list %s holds", o.rets[0]) {
			continue
		}
		var own, kids int
		for _, s := range ss {
			if !v.ob(s.loop != nil, "extra", o, "the list holds something besides the actor's and its children's methods") {
				continue
			}
			bs := rawBacks(v.outs, o, s.loop)
			isOwn, isKid := len(bs) > 0, len(bs) > 0
			mp := mapPasses(v.outs, o, func(m *Term) bool { return m == v.tab })
			var key *Term
			for _, p := range mp {
				if p.loop == s.loop {
					key = p.k
				}
			}
			idx, _ := seqIndexes(s.loop, bs, tLen(v.kids))
			for _, b := range bs {
				q, ok := segs(v.outs, b, b.next[s.lv], s.lv)
				isOwn = isOwn && ok && key != nil && len(q) == 1 && q[0].elem == key
				k := false
				if ok && len(q) == 1 && q[0].all != nil {
					for _, i := range idx {
						k = k || v.isAsk(q[0].all, elem(v.kids, i))
					}
				}
				isKid = isKid && k
			}
			if isKid {
				// the loop runs over every child
				isKid = forAll(v.outs, o, tLen(v.kids), func(b *Outcome, i *Term) bool {
					return b.loop == s.loop || b.loop.key == s.loop.key
				})
			}
			v.ob(isOwn || isKid, "part", o, "a part of the list is neither every own method nor every method of every child")
			if isOwn {
				own++
				v.ob(kids == 0, "order", o, "the children's methods come before the actor's own")
			}
			if isKid {
				kids++
			}
		}
		none := o.facts.Implies(lit(tEq(tLen(v.kids), tInt(0)), true))
		v.ob(own == 1, "own", o, "the actor's own methods are in the list %d times", own)
		v.ob(kids == 1 || kids == 0 && none, "children", o, "the children's methods are in the list %d times", kids)
	}
	c.ob(n > 0, "A07:MethodList:vacuous", v.fn.Pos(), "MethodList does not return")
}

func (c *Ctx) checkAddChild(f actorFields) {
	v := c.regView(f, "AddChild", nil)
	for _, o := range v.outs {
		if !v.ob(o.kind == OutReturn, "ends", o, "ends in a %s", kindName(o.kind)) {
			continue
		}
		now := c.fget(v.a, o, v.self, f.children)
		v.ob(now == mkAppend(v.kids.typ, "", []*Term{v.kids, v.ps[0]}), "appended", o, "the children become %s", now)
	}
}

func (c *Ctx) checkNewActor(f actorFields) {
	fn := c.fn("jlibhttp", "NewActor")
	a := newAnalysis(c.w)
	for _, o := range c.run(a, fn) {
		if !c.ob(o.kind == OutReturn && o.rets[0].op == OAlloc, "A07:NewActor", o.pos, "NewActor does not return a new actor") {
			continue
		}
		t := c.fget(a, o, o.rets[0], f.handlers)
		c.ob(t.op == OMake, "A07:NewActor:table", o.pos, "the table of a new actor is %s", t)
		for _, n := range []string{f.missing, f.close} {
			x := c.fget(a, o, o.rets[0], n)
			c.ob(isNil(o.facts, x) == 1, "A07:NewActor:"+n, o.pos, "the %s of a new actor is %s", n, x)
		}
		k := c.fget(a, o, o.rets[0], f.children)
		c.ob(isNil(o.facts, k) == 1 || isEmptyMake(k), "A07:NewActor:children", o.pos, "the children of a new actor are %s", k)
		for _, n := range []string{"RecoverFromPanic", "ValidateSchema"} {
			x := c.fget(a, o, o.rets[0], n)
			c.ob(o.facts.Val(x) == 1, "A07:NewActor:"+n, o.pos, "%s of a new actor is %s", n, x)
		}
	}
}

// checkSetters: WithSchema and its text forms set the schema given.
func (c *Ctx) checkSetters(f actorFields) {
	for _, s := range []struct{ name, build string }{{"WithSchema", ""}, {"WithSchemaYaml", "BuildYamlBytes"}, {"WithSchemaJson", "BuildBytes"}} {
		fn := c.fn("jlibhttp", s.name)
		a := newAnalysis(c.w)
		a.opaqueF = func(g *ssa.Function) bool { return g.Name() == s.build && isMeth(g, "SchemaBuilder", s.build) }
		p := tSym("schema", fn.Params[0].Type())
		n := 0
		for _, o := range c.run(a, fn, p) {
			var want *Term
			if s.build == "" {
				want = p
			}
			bad := false
			for _, e := range o.evs {
				if e.kind != EvCall || s.build == "" || !isMeth(e.fn, "SchemaBuilder", s.build) {
					continue
				}
				want = extractOf(e, 0, e.fn)
				bad = isNil(o.facts, extractErr(e.res, 1)) != 1
				c.ob(sameText(e.args[1], p), "A07:"+s.name+":text", e.pos, "%s builds a schema from %s", s.name, e.args[1])
			}
			if o.kind == OutPanic {
				c.ob(bad, "A07:"+s.name+":panic", o.pos, "%s panics on a good schema", s.name)
				continue
			}
			if !c.ob(o.kind == OutReturn && !bad, "A07:"+s.name+":ends", o.pos, "%s accepts a schema that could not be built, or ends in a %s", s.name, kindName(o.kind)) || o.kind != OutReturn {
				continue
			}
			g := o.rets[0]
			for g.op == OConv {
				g = g.args[0]
			}
			if !c.ob(g.op == OClosure && g.fn != nil && want != nil, "A07:"+s.name+":setter", o.pos, "%s returns %s", s.name, g) || g.op != OClosure {
				continue
			}
			b := newAnalysis(c.w)
			b.binds, b.heap0, b.facts0 = g.args, o.heap, o.facts.lits
			h := tSym("h", types.NewPointer(c.typ("jlibhttp", "MethodHandler")))
			b.facts0 = append(append([]Lit{}, b.facts0...), lit(tEq(h, tNil), false))
			for _, q := range c.run(b, g.fn, h) {
				n++
				if !c.ob(q.kind == OutReturn, "A07:"+s.name+":set", q.pos, "the setter ends in a %s", kindName(q.kind)) {
					continue
				}
				x := c.fget(b, q, h, f.schema)
				c.ob(x == want, "A07:"+s.name+":set", q.pos, "the setter of %s sets the schema to %s", s.name, x)
				cb := c.fget(b, q, h, f.callback)
				c.ob(cb == c.fieldOf(h, f.callback), "A07:"+s.name+":callback", q.pos, "the setter of %s changes the callback", s.name)
			}
		}
		c.ob(n > 0, "A07:"+s.name+":vacuous", fn.Pos(), "%s sets nothing", s.name)
	}
}

func extractOf(e *Event, n int, fn *ssa.Function) *Term {
	return tExtract(e.res, n, fn.Signature.Results().At(n).Type())
}

// tableScan: nothing but the functions above changes a table of handlers, the
// children of an actor, or a handler already stored.
func (c *Ctx) tableScan(f actorFields) {
	fr := c.newFreshness()
	at, ht := c.typ("jlibhttp", "Actor"), c.typ("jlibhttp", "MethodHandler")
	entries := map[string]string{}
	for _, n := range []string{"On", "OnContext", "OnRequest", "OnTyped", "OnTypedRequest", "OnTypedContext"} {
		entries[n] = "up"
	}
	entries["Off"] = "del"
	entries["AddChild"], entries["OnMissing"], entries["OnClose"] = f.children, f.missing, f.close
	// underEntry: every way to f leads through a function that may do kind.
	var underEntry func(g *ssa.Function, kind string, seen map[*ssa.Function]bool) bool
	underEntry = func(g *ssa.Function, kind string, seen map[*ssa.Function]bool) bool {
		if seen[g] {
			return true
		}
		seen[g] = true
		if g.Signature.Recv() != nil && isMeth(g, "Actor", g.Name()) && entries[g.Name()] == kind {
			return true
		}
		if g.Parent() != nil && !fr.asValue[g] {
			return underEntry(g.Parent(), kind, seen)
		}
		if len(fr.callers[g]) == 0 || fr.asValue[g] || token.IsExported(g.Name()) {
			return false
		}
		for _, ci := range fr.callers[g] {
			if !underEntry(ci.Parent(), kind, seen) {
				return false
			}
		}
		return true
	}
	isTab := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && isPtrTo(m.Elem(), "jlibhttp", "MethodHandler")
	}
	n := 0
	for _, g := range c.w.funcs {
		if g.Synthetic != "" {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				kind := ""
				switch x := in.(type) {
				case *ssa.MapUpdate:
					if isTab(x.Map.Type()) {
						kind = "up"
					}
				case ssa.CallInstruction:
					com := x.Common()
					if bi, ok := com.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") && isTab(com.Args[0].Type()) {
						kind = "del"
					}
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					st := deref(fa.X.Type())
					fn := structOf(st).Field(fa.Field).Name()
					switch {
					case types.Identical(st, at) && (fn == f.handlers || fn == f.children || fn == f.missing || fn == f.close):
						if !fr.fresh(fa.X, map[ssa.Value]bool{}) {
							kind = fn
						}
					case types.Identical(st, ht):
						// a setter changes the handler it is given
						if len(g.Params) == 1 && types.Identical(g.Params[0].Type(), types.NewPointer(ht)) && fa.X == g.Params[0] {
							continue
						}
						if !fr.fresh(fa.X, map[ssa.Value]bool{}) {
							kind = "handler"
						}
					}
				}
				if kind != "" {
					n++
					c.ob(underEntry(g, kind, map[*ssa.Function]bool{}), "A07:scan:"+shortFn(g)+":"+kind, in.Pos(), "%s changes what is registered (%s)", shortFn(g), kind)
				}
			}
		}
	}
	c.ob(n >= 4, "A07:scan:vacuous", token.NoPos, "only %d sites change what is registered", n)
}
