package main

// A01–A06: what an actor does with a message fed to it.

import (
	"go/constant"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func init() {
	const sem = "Actor.Feed is interpreted path by path (handler, missing handler and the recovery of their panics included); "
	register("A01", sem+"for a request exactly one of reply and error is returned, for a notify, result or error no reply, a result or error calls no method handler, and at most one handler, missing handler or child is called on any path", func(c *Ctx) { c.checkActor("A01") })
	register("A02", sem+"every message the actor builds has the id and trace id of the fed request, a plain value becomes the result unchanged and a message is passed on unchanged; the wrappers stored by On and OnContext pass params and results through", func(c *Ctx) { c.checkActor("A02"); c.checkWrappers() })
	register("A03", sem+"a handler with a schema is called, validation on, only after a validation of the encoded form of the fed message against that handler's schema found nothing; a failed one ends in an error reply of code -32633 or an error, with no handler called", func(c *Ctx) { c.checkActor("A03") })
	register("A04", sem+"which of own handler, first child that has the method, missing handler, method-not-found takes the message is decided by the path's facts and is the one the order demands", func(c *Ctx) { c.checkActor("A04") })
	register("A05", sem+"with recovery on, a panic of a handler or the missing handler serving a request or notify with an error value ends in the outcome of that error, any other panic leaves Feed unchanged; a new actor has recovery on", func(c *Ctx) { c.checkActor("A05") })
	register("A06", sem+"the reply or error returned for an error of a handler is that of its class: the RPC error it is or wraps, the wrapped response it is or wraps, otherwise -32603 with nothing of it; a notify gives back the error itself", func(c *Ctx) { c.checkActor("A06") })
}

// fieldByType: the name of the only field of a struct type that satisfies pred.
func (c *Ctx) fieldByType(t types.Type, what string, pred func(types.Type) bool) string {
	st := structOf(deref(t))
	name := ""
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if pred(st.Field(i).Type()) {
			if name != "" {
				c.fatal("anchor:"+what, "%s has several fields that could be %s", tstr(t), what)
			}
			name = st.Field(i).Name()
		}
	}
	if name == "" {
		c.fatal("anchor:"+what, "%s has no field that is %s", tstr(t), what)
	}
	return name
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == pkg
}

func isPtrTo(t types.Type, pkg, name string) bool {
	p, ok := types.Unalias(t).(*types.Pointer)
	return ok && isNamed(p.Elem(), pkg, name)
}

// actorFields are the names of the fields of Actor and MethodHandler by role.
type actorFields struct{ handlers, missing, close, children, callback, schema, msg, httpReq, session, ctx string }

func (c *Ctx) actorFields() actorFields {
	at, ht, rt := c.typ("jlibhttp", "Actor"), c.typ("jlibhttp", "MethodHandler"), c.typ("jlibhttp", "RPCRequest")
	isMap := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && isPtrTo(m.Elem(), "jlibhttp", "MethodHandler")
	}
	isKids := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && isPtrTo(s.Elem(), "jlibhttp", "Actor")
	}
	named := func(pkg, n string) func(types.Type) bool {
		return func(t types.Type) bool { return isNamed(t, pkg, n) }
	}
	return actorFields{
		handlers: c.fieldByType(at, "the method handlers", isMap),
		missing:  c.fieldByType(at, "the missing handler", named("jlibhttp", "MissingCallback")),
		close:    c.fieldByType(at, "the close handler", named("jlibhttp", "CloseCallback")),
		children: c.fieldByType(at, "the children", isKids),
		callback: c.fieldByType(ht, "the callback", named("jlibhttp", "RequestCallback")),
		schema:   c.fieldByType(ht, "the schema", named("jlibschema", "Schema")),
		msg:      c.fieldByType(rt, "the message", func(t types.Type) bool { return isMsgIface(t) }),
		httpReq:  c.fieldByType(rt, "the HTTP request", func(t types.Type) bool { return isPtrTo(t, "http", "Request") }),
		session:  c.fieldByType(rt, "the session", named("jlibhttp", "RPCSession")),
		ctx:      c.fieldByType(rt, "the context", named("context", "Context")),
	}
}

func (c *Ctx) typ(pkg, name string) *types.Named {
	t := c.w.Type(pkg, name)
	if t == nil {
		c.fatal("anchor:type:"+name, "type %s.%s not found", pkg, name)
	}
	return t
}

// actorView is Feed, interpreted.
type actorView struct {
	c                                 *Ctx
	f                                 actorFields
	a                                 *Analysis
	outs                              []*Outcome
	self, req, msg                    *Term
	handlers, missing, kids           *Term
	method, params, id, trace         *Term
	own, ownOk                        *Term // handlers[method]
	callback, schema                  *Term
	recoverOn, validate               *Term
	codes                             map[string]int64
	nown, nchild, nmiss, nfound, nerr int
}

func isMeth(fn *ssa.Function, typ, name string) bool {
	if fn == nil || fn.Name() != name || fn.Signature.Recv() == nil {
		return false
	}
	n, ok := types.Unalias(deref(fn.Signature.Recv().Type())).(*types.Named)
	return ok && n.Obj().Name() == typ
}

func msgField(m *Term, f string) *Term {
	ad := msgFieldAddr(m, f)
	return mk(ODeref, deref(ad.typ), "", 0, ad)
}

func msgTrace(m *Term) *Term {
	return mk(ODeref, types.Typ[types.String], "", 0, traceAddr(stripMsg(m)))
}

func (c *Ctx) actorView() *actorView {
	v := &actorView{c: c, f: c.actorFields()}
	fn := c.method("jlibhttp", "Actor", "Feed")
	a := newAnalysis(c.w, "jlib.MessageMap", "jlib.DecodeInterface")
	v.a = a
	a.derefs = true
	// a child answers by itself; Has is decided by A07
	a.opaqueF = func(f *ssa.Function) bool { return isMeth(f, "Actor", "Has") }
	a.panics = func(e *Event) bool { return v.isHandlerCall(e) }
	v.self = tSym("self", types.NewPointer(c.typ("jlibhttp", "Actor")))
	v.req = tSym("req", types.NewPointer(c.typ("jlibhttp", "RPCRequest")))
	a.facts0 = append(a.facts0, lit(tEq(v.self, tNil), false), lit(tEq(v.req, tNil), false))
	v.msg = c.fieldOf(v.req, v.f.msg)
	a.facts0 = append(a.facts0, lit(tEq(v.msg, tNil), false))
	v.handlers, v.missing, v.kids = c.fieldOf(v.self, v.f.handlers), c.fieldOf(v.self, v.f.missing), c.fieldOf(v.self, v.f.children)
	v.method, v.params, v.id, v.trace = msgField(v.msg, "Method"), msgField(v.msg, "Params"), msgField(v.msg, "Id"), msgTrace(v.msg)
	ht := types.NewPointer(c.typ("jlibhttp", "MethodHandler"))
	v.own, v.ownOk = mk(OLookup, ht, "", 0, v.handlers, v.method), mk(OLookupOk, types.Typ[types.Bool], "", 0, v.handlers, v.method)
	// handlers in the table are not nil (OnRequest, A07)
	a.facts0 = append(a.facts0, lit(tEq(v.own, tNil), false))
	v.callback, v.schema = c.fieldOf(v.own, v.f.callback), c.fieldOf(v.own, v.f.schema)
	v.recoverOn, v.validate = c.fieldOf(v.self, "RecoverFromPanic"), c.fieldOf(v.self, "ValidateSchema")
	v.outs = c.run(a, fn, v.self, v.req)
	return v
}

// isHandlerCall: a call of a method handler or missing handler.
func (v *actorView) isHandlerCall(e *Event) bool {
	if e.kind != EvCall || !e.dyn || e.callee == nil || e.callee.typ == nil {
		return false
	}
	return isNamed(e.callee.typ, "jlibhttp", "RequestCallback") || isNamed(e.callee.typ, "jlibhttp", "MissingCallback")
}

// codeOf: the number a Code field holds, from a constant or a predefined error.
func (c *Ctx) codeOf(t *Term) (int64, bool) {
	if t == nil {
		return 0, false
	}
	if t.op == OConst {
		return constant.Int64Val(t.val)
	}
	if g := errGlobal(t, "Code"); g != "" {
		return c.errInit(g)
	}
	return 0, false
}

// errGlobal: t is field f of the predefined error of that name.
func errGlobal(t *Term, f string) string {
	var b *Term
	switch {
	case t.op == ODeref && t.args[0].op == OFieldAddr && t.args[0].str == f:
		b = t.args[0].args[0]
	case t.op == OField && t.str == f:
		b = t.args[0]
		if b.op == ODeref {
			b = b.args[0]
		}
	default:
		return ""
	}
	if b.op == ODeref && b.args[0].op == OGlobal {
		s := b.args[0].str
		return s[strings.LastIndex(s, ".")+1:]
	}
	return ""
}

// errInit: the code a predefined error is initialised with (M07: and keeps).
func (c *Ctx) errInit(name string) (int64, bool) {
	n, ok := c.errCodes()[name]
	return n, ok
}

var errCodesOnce sync.Once
var errCodesMap map[string]int64

// errCodes interprets the package initialiser: what codes the predefined
// errors get.
func (c *Ctx) errCodes() map[string]int64 {
	errCodesOnce.Do(func() {
		errCodesMap = map[string]int64{}
		pkg := c.w.pkgs["jlib"]
		a := newAnalysis(c.w)
		bad := map[string]bool{}
		for _, o := range c.run(a, pkg.Func("init")) {
			if o.kind != OutReturn {
				continue
			}
			for name, m := range pkg.Members {
				g, ok := m.(*ssa.Global)
				if !ok || !isPtrTo(deref(g.Type()), "jlib", "RPCError") {
					continue
				}
				e := o.get(a, mk(OGlobal, g.Type(), g.RelString(nil), 0), deref(g.Type()))
				if e == nil || e.op != OAlloc {
					continue
				}
				if k := c.fget(a, o, e, "Code"); k != nil && k.op == OConst && k.val != nil {
					if n, ok := constant.Int64Val(k.val); ok {
						if x, had := errCodesMap[name]; had && x != n {
							bad[name] = true
						}
						errCodesMap[name] = n
						continue
					}
				}
				bad[name] = true
			}
		}
		for n := range bad {
			delete(errCodesMap, n)
		}
	})
	return errCodesMap
}

// rpcBody reads the fields of the error a message carries.
func (v *actorView) rpcBody(o *Outcome, m *Term) (code, text, data *Term) {
	e := v.c.acc(o, m, "MustError")
	if e == nil {
		return
	}
	return v.c.bodyOf(v.a, o, e)
}

func (c *Ctx) bodyOf(a *Analysis, o *Outcome, e *Term) (code, text, data *Term) {
	mem := a.memOf(o.heap, o.vers)
	return mem.get(c.msgFieldAddrOf(e, "Code")), mem.get(c.msgFieldAddrOf(e, "Message")), mem.get(c.msgFieldAddrOf(e, "Data"))
}

func (v *actorView) isKind(f *Facts, mask int) bool { return f.Implies(lit(tKind(v.msg, mask), true)) }

// callRes: the n-th result of a call event.
func callRes(e *Event, n int, t types.Type) *Term { return tExtract(e.res, n, t) }

var errType = types.Universe.Lookup("error").Type()

// asErr: whether err is or wraps an error of the pointer type pointing to
// name, and the value found.
func asErr(o *Outcome, err *Term, pkg, name string) (st int, found []*Term) {
	st = -1
	f := o.facts
	for _, e := range callsNamed(o.evs, "errors.As") {
		if e.args[0] != err {
			continue
		}
		cell := unIface(e.args[1])
		if !isPtrTo(deref(cell.typ), pkg, name) {
			continue
		}
		switch f.Val(e.res) {
		case 1:
			st = 1
			found = append(found, mk(OOut, deref(cell.typ), "", 0, e.res, cell))
		case 0:
			if st < 0 {
				st = 0
			}
		}
	}
	for _, l := range f.lits {
		if l.t.op == OTypeIs && l.t.args[0] == err && isPtrTo(l.t.typ, pkg, name) && l.val {
			st = 1
			found = append(found, tAssert(err, l.t.typ))
		}
	}
	return
}

func (v *actorView) ob(want, id string, ok bool, key string, o *Outcome, f string, args ...interface{}) bool {
	if want != id {
		return true
	}
	return v.c.ob(ok, id+":"+key, o.pos, f, args...)
}

// wrapped checks how the path answers a value and error of a handler.
func (v *actorView) wrapped(id string, o *Outcome, res, err *Term) {
	f := o.facts
	if !v.ob("A05", id, o.kind == OutReturn, "outcome", o, "a path that should answer ends in a %s", kindName(o.kind)) || o.kind != OutReturn {
		return
	}
	r0, r1 := o.rets[0], o.rets[1]
	e := isNil(f, err)
	if !v.isKind(f, kReq) {
		if !v.ob("A01", id, f.Implies(lit(tKind(v.msg, kReq), false)), "kind", o, "whether the message served is a request is not decided") {
			return
		}
		v.ob("A01", id, isNil(f, r0) == 1, "noreply", o, "a reply is given to a message that is not a request")
		v.ob("A06", id, sameValue(f, r1, err) || e == 1 && isNil(f, r1) == 1, "notify", o, "the error given back for a notify is %s, not that of its handler", r1)
		return
	}
	switch e {
	case 0:
		v.nerr++
		rpc, rpcs := asErr(o, err, "jlib", "RPCError")
		wr, wrs := asErr(o, err, "jlibhttp", "WrappedResponse")
		if isNil(f, r1) != 1 {
			ok := wr == 1 && (rpc == 0)
			found := false
			for _, w := range wrs {
				found = found || unIface(r1) == w
			}
			v.ob("A01", id, isNil(f, r1) == 0 && isNil(f, r0) == 1, "one", o, "neither or both of a reply and an error are given for a request")
			v.ob("A06", id, ok && (found || r1 == err), "response", o, "the error given back for a request is %s, which is not the wrapped response of its handler's error", r1)
			return
		}
		v.ob("A01", id, isNil(f, r0) == 0, "one", o, "nothing is given for a request whose handler failed")
		m := unIface(r0)
		if !v.ob("A06", id, msgTypeName(m.typ) == "ErrorMessage" && m.op == OAlloc, "errormsg", o, "the reply to a request whose handler failed is %s, not a new error", r0) || m.op != OAlloc {
			return
		}
		v.answers(id, o, m)
		code, text, data := v.rpcBody(o, m)
		eb := v.c.acc(o, m, "MustError")
		if rpc == 1 {
			ok := false
			for _, w := range rpcs {
				c2, t2, d2 := v.c.bodyOf(v.a, o, w)
				ok = ok || eb == w || code == c2 && text == t2 && data == d2
			}
			v.ob("A06", id, ok, "rpcerror", o, "the error of the reply is not the code, message and data of the RPC error")
			return
		}
		n, known := v.c.codeOf(code)
		v.ob("A06", id, rpc == 0 && wr == 0 && known && n == -32603, "internal", o, "an error that is neither an RPC error nor a wrapped response may not be answered with -32603, or another may")
		secret := false
		for _, t := range []*Term{text, data} {
			secret = secret || t == nil || derivesFrom(t, err)
		}
		v.ob("A06", id, !secret, "details", o, "the reply to an internal error holds details of it")
	case 1:
		v.ob("A01", id, isNil(f, r1) == 1 && isNil(f, r0) == 0, "one", o, "a request that was served is not answered with one reply")
		mi := v.c.typ("jlib", "Message")
		is := f.Val(tTypeIs(res, mi))
		m := unIface(r0)
		if is == 1 || is < 0 && stripMsg(r0) == stripMsg(res) {
			v.ob("A02", id, is == 1 && stripMsg(r0) == stripMsg(res), "message", o, "the message a handler returned is not passed on: %s", r0)
			return
		}
		if !v.ob("A02", id, is == 0 && m.op == OAlloc && msgTypeName(m.typ) == "ResultMessage", "result", o, "the value a handler returned becomes %s, not a result", r0) || m.op != OAlloc || msgTypeName(m.typ) != "ResultMessage" {
			return
		}
		v.answers(id, o, m)
		r := v.c.acc(o, m, "MustResult")
		v.ob("A02", id, r != nil && sameValue(f, r, res), "value", o, "the result is %s, not the value the handler returned", r)
	default:
		v.ob("A01", id, false, "error", o, "whether the handler failed is not decided")
	}
}

// answers: a message built here carries the id and trace id of the request.
func (v *actorView) answers(id string, o *Outcome, m *Term) {
	if id != "A02" {
		return
	}
	i, t := v.c.acc(o, m, "MustId"), v.c.acc(o, m, "TraceId")
	v.ob("A02", id, i != nil && sameValue(o.facts, i, v.id), "id", o, "the id of the reply is %s, not that of the request", i)
	v.ob("A02", id, t != nil && sameValue(o.facts, t, v.trace), "traceid", o, "the trace id of the reply is %s, not that of the request", t)
}

func (v *actorView) hasCall(t *Term, kid *Term) bool {
	if t.op != OCall || !strings.HasSuffix(t.str2(), "Actor).Has") || len(t.args) != 2 || t.args[1] != v.method {
		return false
	}
	x := t.args[0]
	return x == kid || x.op == ODeref && x.args[0] == kid
}

func (v *actorView) has(f *Facts, kid *Term) int {
	for _, l := range f.lits {
		if v.hasCall(l.t, kid) {
			return map[bool]int{true: 1, false: 0}[l.val]
		}
	}
	return -1
}

// noneBefore: the iterations of the loops over the children before this point
// all found a child without the method.
func (v *actorView) firstChild(o *Outcome, kid *Term) bool {
	if kid.op != OIndex || kid.args[0] != v.kids {
		return false
	}
	for _, l := range loopsIn(o) {
		bs := backsOf(v.outs, o, l)
		idx, asc := seqIndexes(l, bs, tLen(v.kids))
		for i, x := range idx {
			if !asc[i] || x != kid.args[1] {
				continue
			}
			ok := true
			for _, b := range bs {
				ok = ok && v.has(b.facts, elem(v.kids, x)) == 0
			}
			if ok {
				return true
			}
		}
	}
	return false
}

func (v *actorView) noChild(o *Outcome) bool {
	return o.facts.Implies(lit(tEq(tLen(v.kids), tInt(0)), true)) ||
		forAll(v.outs, o, tLen(v.kids), func(b *Outcome, i *Term) bool { return v.has(b.facts, elem(v.kids, i)) == 0 })
}

func (c *Ctx) checkActor(id string) {
	v := c.actorView()
	for _, o := range v.outs {
		if o.kind == OutLoop {
			for _, e := range o.evs {
				if e.kind == EvCall && (v.isHandlerCall(e) || isMeth(e.fn, "Actor", "Feed")) {
					v.ob("A01", id, e.loop != nil || true, "loop", o, "")
				}
			}
			// a handler called inside a loop that goes on may be called again
			start := 0
			for i, e := range o.evs {
				if e.kind == EvLoopEnter && e.loop == o.loop {
					start = i
				}
			}
			for _, e := range o.evs[start:] {
				if e.kind == EvCall && (v.isHandlerCall(e) || isMeth(e.fn, "Actor", "Feed")) {
					v.ob("A01", id, false, "again", o, "a message may be served more than once")
				}
			}
			continue
		}
		v.path(id, o)
	}
	switch id {
	case "A01", "A02", "A03", "A04", "A06":
		c.ob(v.nown > 0 && v.nchild > 0 && v.nmiss > 0 && v.nfound > 0, id+":vacuous", v.a.root.Pos(), "not every way to serve a message was found (own %d, child %d, missing %d, not found %d)", v.nown, v.nchild, v.nmiss, v.nfound)
	}
	if id == "A05" {
		c.newActorDefaults(v)
	}
	if id == "A06" {
		c.ob(v.nerr > 0, "A06:vacuous", v.a.root.Pos(), "no path serves a failing handler")
	}
}

// newActorDefaults: recovery and validation are on in a new actor.
func (c *Ctx) newActorDefaults(v *actorView) {
	fn := c.fn("jlibhttp", "NewActor")
	a := newAnalysis(c.w)
	for _, o := range c.run(a, fn) {
		if !c.ob(o.kind == OutReturn, "A05:new", o.pos, "NewActor may end in a %s", kindName(o.kind)) {
			continue
		}
		for _, n := range []string{"RecoverFromPanic", "ValidateSchema"} {
			c.ob(c.fget(a, o, o.rets[0], n) == tTrue, "A05:new:"+n, o.pos, "%s is off in a new actor", n)
		}
	}
}

// path checks one way through Feed.
func (v *actorView) path(id string, o *Outcome) {
	f := o.facts
	var hs, ms, cs []*Event
	var pan *Event
	for _, e := range o.evs {
		switch {
		case v.isHandlerCall(e) && isNamed(e.callee.typ, "jlibhttp", "RequestCallback"):
			hs = append(hs, e)
		case v.isHandlerCall(e):
			ms = append(ms, e)
		case e.kind == EvCall && isMeth(e.fn, "Actor", "Feed"):
			cs = append(cs, e)
		case e.kind == EvPanic && strings.HasPrefix(e.name, "in "):
			pan = e
		}
	}
	// the call that panicked is an event too
	n := len(hs) + len(ms) + len(cs)
	if !v.ob("A01", id, n <= 1, "once", o, "%d handlers are called for one message", n) || n > 1 {
		return
	}
	call := v.isKind(f, kReq|kNtf)
	reply := v.isKind(f, kRes|kErr)
	if !call && !reply {
		// nothing may depend on the kind then
		v.ob("A04", id, false, "kind", o, "a path does not depend on the kind of the message")
		return
	}
	own := f.Val(v.ownOk)
	miss := isNil(f, v.missing) // 1: there is none
	switch {
	case len(hs) == 1:
		v.nown++
		e := hs[0]
		v.ob("A01", id, call, "reply", o, "a method handler is called for a result or error")
		v.ob("A04", id, call && own == 1 && e.callee == v.callback, "own", o, "the handler called is %s, not that of the method of the message", e.callee)
		v.ob("A02", id, len(e.args) == 2 && e.args[0] == v.req && e.args[1] == v.params, "args", o, "the handler is called with %s and %s, not with the request and its params", e.args[0], e.args[1])
		if id == "A03" {
			v.validated(o, e)
		}
	case len(ms) == 1:
		v.nmiss++
		e := ms[0]
		v.ob("A04", id, e.callee == v.missing && len(e.args) == 1 && e.args[0] == v.req && (reply || own == 0 && v.noChild(o)), "missing", o, "the missing handler is called although the method may have a handler, or with another request")
		v.ob("A04", id, e.callee != v.missing || miss == 0, "missingnil", o, "the missing handler is called although there may be none")
	case len(cs) == 1:
		v.nchild++
		e := cs[0]
		v.ob("A01", id, call, "reply", o, "a result or error is given to a child")
		v.ob("A04", id, call && own == 0 && v.has(f, e.args[0]) == 1 && v.firstChild(o, e.args[0]) && e.args[1] == v.req, "child", o, "the message is not given to the first child that has its method")
		v.ob("A04", id, o.kind == OutReturn && o.rets[0] == callRes(e, 0, o.rets[0].typ) && o.rets[1] == callRes(e, 1, o.rets[1].typ), "childoutcome", o, "the outcome of the child is not given back as it is")
		return
	default:
		v.nobody(id, o, call, own, miss)
		return
	}
	if id == "A01" {
		v.c.safeEvents("A01:safe", []*Outcome{o}, EvAssert)
	}
	// a handler was called: what became of it
	var e *Event
	if len(hs) == 1 {
		e = hs[0]
	} else {
		e = ms[0]
	}
	if pan == nil {
		if o.kind != OutReturn {
			v.ob("A05", id, false, "panic", o, "Feed panics although the handler returned")
			v.ob("A01", id, false, "panic", o, "Feed panics although the handler returned")
			return
		}
		if reply {
			v.ob("A01", id, isNil(f, o.rets[0]) == 1, "noreply", o, "a reply is given to a result or error")
			return
		}
		v.wrapped(id, o, callRes(e, 0, types.NewInterfaceType(nil, nil)), callRes(e, 1, errType))
		return
	}
	pv := pan.args[0]
	isErr := f.Val(tTypeIs(pv, errType))
	on := f.Val(v.recoverOn)
	if o.kind == OutPanic {
		v.ob("A05", id, reply || on == 0 || isErr == 0, "escapes", o, "a panic with an error escapes although recovery is on")
		v.ob("A05", id, o.pval == pv, "value", o, "another value is panicked with than the handler's")
		return
	}
	if reply {
		return
	}
	if !v.ob("A05", id, o.kind == OutReturn && on == 1 && isErr == 1, "swallowed", o, "a panic is recovered although recovery is off or its value is not an error") || on != 1 || isErr != 1 {
		return
	}
	v.wrapped2(id, o, pv)
}

// wrapped2: a recovered error is answered as a returned one.
func (v *actorView) wrapped2(id string, o *Outcome, pv *Term) {
	if id == "A05" {
		// the outcome of the error: decided by the rules of A06 and A02
		n := len(v.c.viols)
		for _, k := range []string{"A01", "A06", "A02"} {
			v.wrapped(k, o, tNil, pv)
		}
		for i := n; i < len(v.c.viols); i++ {
			v.c.viols[i].Key = "A05:" + v.c.viols[i].Key
		}
	}
	f := o.facts
	// the error may be known by the type assertion only
	if isNil(f, pv) != 0 {
		o2 := *o
		o2.facts = f.with(lit(tEq(pv, tNil), false))
		o = &o2
	}
	if id != "A05" {
		v.wrapped(id, o, tNil, pv)
	}
}

// validated: the handler called has no schema, or validation is off, or the
// message has been validated against it.
func (v *actorView) validated(o *Outcome, e *Event) {
	f := e.facts
	ok := isNil(f, v.schema) == 1 || f.Val(v.validate) == 0
	if !ok {
		for _, s := range v.scans(f) {
			ok = ok || isNil(f, s) == 1 && !v.touched(o, s.args[2])
		}
	}
	v.c.ob(ok, "A03:handler", e.pos, "the handler may be called although its schema was not checked or not met")
}

// scans: terms of validations of this message against the handler's schema.
func (v *actorView) scans(f *Facts) []*Term {
	m := map[*Term]bool{}
	for _, l := range f.lits {
		subterms(l.t, func(x *Term) bool {
			if x.op == OCall && (strings.HasSuffix(x.str2(), "Schema).Scan") && len(x.args) == 3 && x.args[0] == v.schema && v.encoded(f, x.args[2])) {
				m[x] = true
			}
			return true
		})
	}
	return sortedTerms(m)
}

// touched: something in the encoded form is changed on the path.
func (v *actorView) touched(o *Outcome, t *Term) bool {
	t = unIface(t)
	for _, e := range o.evs {
		switch e.kind {
		case EvMapUpdate, EvMapDelete, EvStore:
			if derivesFrom(e.args[0], t) {
				return true
			}
		}
	}
	return false
}

// encoded: t is the encoded form of the message, untouched.
func (v *actorView) encoded(f *Facts, t *Term) bool {
	t = unIface(t)
	for _, n := range []string{"jlib.MessageMap"} {
		if t.op == OExtract && callTerm(t.args[0], n) && stripMsg(t.args[0].args[0]) == stripMsg(v.msg) {
			return isNil(f, extractErr(t.args[0], 1)) == 1
		}
	}
	if t.op == OOut && t.args[0].op == OCall {
		d := t.args[0]
		if callTerm(d, "jlib.DecodeInterface") && v.isEncoding(d.args[0]) {
			return isNil(f, d) == 1
		}
	}
	return v.isEncoding(t)
}

func (v *actorView) isEncoding(t *Term) bool {
	t = unIface(t)
	return callTerm(t, "(jlib.Message).Interface") && stripMsg(t.args[0]) == stripMsg(v.msg)
}

// nobody: paths on which no handler is called.
func (v *actorView) nobody(id string, o *Outcome, call bool, own, miss int) {
	f := o.facts
	if !v.ob("A05", id, o.kind == OutReturn, "nobody", o, "Feed may end in a %s without a handler being called", kindName(o.kind)) || o.kind != OutReturn {
		return
	}
	r0, r1 := o.rets[0], o.rets[1]
	if id == "A01" {
		v.c.safeEvents("A01:safe", []*Outcome{o}, EvAssert)
	}
	if !call {
		v.ob("A04", id, miss == 1, "missing", o, "a result or error is not given to the missing handler")
		v.ob("A01", id, isNil(f, r0) == 1, "noreply", o, "a reply is given to a result or error")
		return
	}
	isReq := v.isKind(f, kReq)
	isNtf := v.isKind(f, kNtf)
	if own != 0 {
		// stopped by validation, or its message could not be encoded
		failed, enc := false, false
		for _, s := range v.scans(f) {
			failed = failed || isNil(f, s) == 0 && !v.touched(o, s.args[2])
		}
		for _, e := range callsNamed(o.evs, "jlib.MessageMap") {
			enc = enc || isNil(f, extractErr(e.res, 1)) == 0
		}
		for _, e := range callsNamed(o.evs, "jlib.DecodeInterface") {
			enc = enc || isNil(f, e.res) == 0
		}
		v.ob("A04", id, own == 1 && (failed || enc), "own", o, "a method with a handler is not served by it")
		v.ob("A03", id, f.Val(v.validate) == 1 && isNil(f, v.schema) == 0 && (failed || enc), "off", o, "a handler is not called although there is nothing to validate")
		switch {
		case enc && !failed:
			v.ob("A01", id, isNil(f, r0) == 1 && isNil(f, r1) == 0, "one", o, "a message that cannot be encoded gives no error")
		case isReq:
			m := unIface(r0)
			v.ob("A01", id, isNil(f, r0) == 0 && isNil(f, r1) == 1, "one", o, "a request that is not valid is not answered with one reply")
			if !v.ob("A03", id, m.op == OAlloc && msgTypeName(m.typ) == "ErrorMessage", "reply", o, "a request that is not valid is answered with %s", r0) || m.op != OAlloc || msgTypeName(m.typ) != "ErrorMessage" {
				return
			}
			v.answers(id, o, m)
			code, _, _ := v.rpcBody(o, m)
			n, known := v.c.codeOf(code)
			v.ob("A03", id, known && n == -32633, "code", o, "a request that is not valid is answered with code %s", code)
		case isNtf:
			v.ob("A01", id, isNil(f, r0) == 1, "noreply", o, "a notify is answered")
			v.ob("A03", id, isNil(f, r1) == 0, "notify", o, "a notify that is not valid is not reported")
		default:
			v.ob("A03", id, false, "kind", o, "what happens to a message that is not valid does not depend on its kind")
		}
		return
	}
	v.ob("A04", id, v.noChild(o), "children", o, "a message may be dropped although a child has its method")
	v.ob("A04", id, miss == 1, "missing", o, "a message is not given to the missing handler")
	switch {
	case isReq:
		v.nfound++
		m := unIface(r0)
		v.ob("A01", id, isNil(f, r0) == 0 && isNil(f, r1) == 1, "one", o, "a request for an unknown method is not answered with one reply")
		if !v.ob("A04", id, m.op == OAlloc && msgTypeName(m.typ) == "ErrorMessage", "notfound", o, "a request for an unknown method is answered with %s", r0) || m.op != OAlloc || msgTypeName(m.typ) != "ErrorMessage" {
			return
		}
		v.answers(id, o, m)
		i := v.c.acc(o, m, "MustId")
		v.ob("A04", id, i != nil && sameValue(f, i, v.id), "id", o, "the answer to a request for an unknown method has id %s", i)
		code, _, _ := v.rpcBody(o, m)
		n, known := v.c.codeOf(code)
		v.ob("A04", id, known && n == -32601, "code", o, "a request for an unknown method is answered with code %s", code)
	case isNtf:
		v.ob("A01", id, isNil(f, r0) == 1, "noreply", o, "a notify is answered")
		v.ob("A04", id, isNil(f, r1) == 1, "drop", o, "a notify nobody takes gives an error")
	default:
		v.ob("A04", id, false, "kind", o, "what happens to a message nobody takes does not depend on its kind")
	}
}

// checkWrappers: On and OnContext store a callback that passes everything on.
func (c *Ctx) checkWrappers() {
	f := c.actorFields()
	for _, name := range []string{"On", "OnContext"} {
		fn := c.method("jlibhttp", "Actor", name)
		a := newAnalysis(c.w)
		self := tSym("self", types.NewPointer(c.typ("jlibhttp", "Actor")))
		a.facts0 = []Lit{lit(tEq(self, tNil), false)}
		cb := tSym("callback", fn.Params[2].Type())
		outs := c.run(a, fn, self, nil, cb)
		n := 0
		for _, o := range outs {
			for _, e := range o.evs {
				if e.kind != EvMapUpdate || o.kind == OutLoop {
					continue
				}
				n++
				h := e.args[2]
				g := a.at(e, tFieldAddr(h, f.callback, types.NewPointer(c.typ("jlibhttp", "RequestCallback"))), c.typ("jlibhttp", "RequestCallback"))
				for g.op == OConv {
					g = g.args[0]
				}
				if !c.ob(g.op == OClosure && g.fn != nil, "A02:"+name, e.pos, "what %s registers is %s", name, g) {
					continue
				}
				c.passesOn(name, g, e.heap, cb, f)
			}
		}
		c.ob(n > 0, "A02:"+name+":vacuous", fn.Pos(), "%s registers nothing", name)
	}
}

func (c *Ctx) passesOn(name string, g *Term, heap *Heap, cb *Term, f actorFields) {
	a := newAnalysis(c.w)
	a.binds, a.heap0 = g.args, heap
	req := tSym("req", types.NewPointer(c.typ("jlibhttp", "RPCRequest")))
	a.facts0 = []Lit{lit(tEq(req, tNil), false)}
	for _, o := range c.run(a, g.fn, req) {
		if o.kind == OutLoop {
			continue
		}
		if !c.ob(o.kind == OutReturn, "A02:"+name+":ends", o.pos, "the callback of %s may end in a %s", name, kindName(o.kind)) {
			continue
		}
		var calls []*Event
		for _, e := range o.evs {
			if e.kind == EvCall && e.dyn {
				calls = append(calls, e)
			}
		}
		if !c.ob(len(calls) == 1, "A02:"+name+":once", o.pos, "the callback of %s calls %d functions", name, len(calls)) {
			continue
		}
		e := calls[0]
		want := []*Term{a.Params[1]}
		if name == "OnContext" {
			want = []*Term{c.fieldOf(req, f.ctx), a.Params[1]}
		}
		ok := len(e.args) == len(want)
		for i := range want {
			ok = ok && e.args[i] == want[i]
		}
		c.ob(ok && o.rets[0] == callRes(e, 0, o.rets[0].typ) && o.rets[1] == callRes(e, 1, o.rets[1].typ), "A02:"+name+":through", o.pos, "the callback of %s does not pass params and results through", name)
	}
}
