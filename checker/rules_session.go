package main

// A09, A11, A12, A13, A16: WebSocket and HTTP/2 server sessions.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	const sem = "ServeHTTP of the WebSocket and HTTP/2 handlers is interpreted path by path, and so is every goroutine it starts, each on the memory at its go statement; "
	register("A09", sem+"on every path that starts a session, panicking ones included, HandleClose of the handler's actor is called once, with the request and session, after the wait ended, on no other path and nowhere else; HandleClose calls every child's and its own handler once", func(c *Ctx) { c.checkSessions("A09"); c.handleClose() })
	register("A11", sem+"the goroutine that reads hands every message read to one feed of the handler's actor with that session and request, queues the reply on that session, reports read, parse and actor errors to the waiting handler, which returns then; no field of a session is stored to once its goroutines run", func(c *Ctx) { c.checkSessions("A11") })
	register("A12", sem+"one goroutine, started once, reads the connection and one writes it, all other code (goroutines, handler, methods of the session) does neither; the HTTP/2 handler returns only after its writer has ended; the same for the goroutines of the streaming clients", func(c *Ctx) { c.checkSessions("A12"); c.clientLoops() })
	register("A13", sem+"the goroutine that writes takes one message at a time from the queue and writes its encoding, as one text frame or line, or that of an internal error with its id when it has none, and goes on; Send gives up when the session has ended", func(c *Ctx) { c.checkSessions("A13") })
	register("A16", sem+"every blocking operation of these goroutines has an alternative that is ready once the session has ended (the Done of a context cancelled on every way out of the handler), or reads a connection closed on every way out; a chosen Done ends the goroutine", func(c *Ctx) { c.checkSessions("A16") })
}

// gor is a goroutine a session starts, or another entry into its code.
type gor struct {
	name    string
	start   *Event // its go statement, nil for a method called from outside
	fn      *ssa.Function
	a       *Analysis
	outs    []*Outcome
	parent  *gor
	reads   bool
	writes  bool
	instrs  map[ssa.Instruction]bool
	perPath bool // started once on every established path of the handler
}

type sessView struct {
	c          *Ctx
	id, typ    string // WS or H2
	f          actorFields
	a          *Analysis
	outs       []*Outcome
	self, w, r *Term
	sess       *Term
	st         *types.Named
	gors       []*gor
	first      *Event // first go statement of some established path
	conn       *Term
	queue      *Term
	done       *Term
	wait       map[*Term]bool // what the handler waits for
}

func (v *sessView) ob(id string, ok bool, key string, pos token.Pos, f string, args ...interface{}) bool {
	if v.id == "A19" && key == "cleared" {
		id = v.id
	}
	if v.id != id {
		return ok
	}
	return v.c.ob(ok, id+":"+v.typ+":"+key, pos, f, args...)
}

var sessOpaque = []string{"(*jlibhttp.Actor).Feed", "(*jlibhttp.Actor).HandleClose", "(*jlibhttp.H1Handler).ServeHTTP", "jlib.ParseBytes", "jlib.MessageBytes", "jlib.DecodeMessage"}

func (c *Ctx) checkSessions(id string) {
	for _, t := range []string{"WS", "H2"} {
		c.session(id, t)
	}
}

func (v *sessView) established(o *Outcome) bool {
	for _, e := range o.evs {
		if e.kind == EvGo {
			return true
		}
	}
	return false
}

func (c *Ctx) session(id, typ string) {
	v := &sessView{c: c, id: id, typ: typ}
	v.load()
	switch id {
	case "A09":
		v.closes()
	case "A11":
		v.reader()
	case "A12":
		v.owners()
	case "A13":
		v.writer()
	case "A16":
		v.ends()
	}
	c.count("goroutines", len(v.gors))
}

func (v *sessView) load() {
	c, id, typ := v.c, v.id, v.typ
	v.f, v.wait = c.actorFields(), map[*Term]bool{}
	v.st = c.typ("jlibhttp", typ+"Session")
	fn := c.method("jlibhttp", typ+"Handler", "ServeHTTP")
	v.a = newAnalysis(c.w, sessOpaque...)
	v.a.panics = func(e *Event) bool {
		return strings.HasPrefix(e.name, "logrus.") || e.name == "(context.Context).Done" || e.name == "context.WithCancel"
	}
	v.self = tSym("self", types.NewPointer(c.typ("jlibhttp", typ+"Handler")))
	v.w, v.r = tSym("w", fn.Params[1].Type()), tSym("r", fn.Params[2].Type())
	v.outs = c.run(v.a, fn, v.self, v.w, v.r)
	c.site(fn.Pos(), typ+"Handler.ServeHTTP")
	// the session
	for _, o := range v.outs {
		for _, e := range o.evs {
			if e.kind != EvGo {
				continue
			}
			if v.first == nil {
				v.first = e
			}
			break
		}
		for _, e := range o.evs {
			x := (*Term)(nil)
			if e.kind == EvStore && e.args[0].op == OFieldAddr {
				x = e.args[0].args[0]
			} else if e.kind == EvStore {
				x = e.args[0]
			}
			if x != nil && x.op == OAlloc && types.Identical(deref(x.typ), v.st) {
				if copied(o, e, x) {
					continue
				}
				if v.sess != nil && v.sess != x {
					c.fatal(id+":"+typ+":session", "%s.ServeHTTP makes several sessions", typ)
				}
				v.sess = x
			}
		}
	}
	if v.first == nil || v.sess == nil {
		c.fatal(id+":"+typ+":session", "no path of %sHandler.ServeHTTP makes a session and starts a goroutine", typ)
	}
	v.queue = v.fieldNow("the queue", func(t types.Type) bool {
		ch, ok := t.Underlying().(*types.Chan)
		return ok && isMsgIface(ch.Elem())
	})
	v.done = v.fieldNow("the done channel", func(t types.Type) bool {
		ch, ok := t.Underlying().(*types.Chan)
		return ok && types.Identical(ch.Elem(), errType)
	})
	if typ == "WS" {
		v.conn = v.fieldNow("the connection", func(t types.Type) bool { return isPtrTo(t, "websocket", "Conn") })
	} else {
		v.conn = v.fieldNow("the decoder", func(t types.Type) bool { return isPtrTo(t, "json", "Decoder") })
	}
	v.goroutines()
}

// copied: x is a temporary, only made to be copied as a whole.
func copied(o *Outcome, e *Event, x *Term) bool {
	for _, y := range o.evs {
		switch y.kind {
		case EvStore:
			if y.args[0] == x || y.args[0].op == OFieldAddr && y.args[0].args[0] == x {
				continue
			}
		case EvEnter, EvLeave, EvCall, EvGo:
		default:
			continue
		}
		for _, a := range append(append([]*Term{}, y.args...), y.callee) {
			if a != nil && mentions(a, x) {
				return false
			}
		}
	}
	return true
}

func (v *sessView) fieldNow(what string, pred func(types.Type) bool) *Term {
	return v.c.nowField(v.a, v.first, v.sess, v.c.fieldByType(v.st, what+" of "+v.typ+"Session", pred))
}

// snapshot of the session at an event, for telling starts of goroutines apart
func (v *sessView) snapshot(a *Analysis, e *Event) string {
	s := ""
	st := v.st.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		s += a.now(e, tFieldAddr(v.sess, f.Name(), types.NewPointer(f.Type())), f.Type()).String() + ";"
	}
	return s
}

// goroutines runs every goroutine that can be started, and the methods of
// the session that handlers call.
func (v *sessView) goroutines() {
	seen := map[string]bool{}
	var add func(outs []*Outcome, a *Analysis, parent *gor)
	start := func(g *gor, heap *Heap, facts []Lit, binds []*Term, params []*Term) {
		g.a = newAnalysis(v.c.w, sessOpaque...)
		g.a.heap0, g.a.facts0, g.a.binds = heap, facts, binds
		g.outs = v.c.run(g.a, g.fn, params...)
		g.instrs = map[ssa.Instruction]bool{}
		for _, o := range g.outs {
			for _, e := range o.evs {
				g.reads = g.reads || v.isRead(e)
				g.writes = g.writes || v.isWrite(e)
				if e.instr != nil {
					g.instrs[e.instr] = true
				}
			}
		}
		v.gors = append(v.gors, g)
		add(g.outs, g.a, g)
	}
	add = func(outs []*Outcome, a *Analysis, parent *gor) {
		for _, o := range outs {
			for _, e := range o.evs {
				if e.kind != EvGo {
					continue
				}
				fn := e.fn
				if fn == nil && e.callee != nil {
					fn = e.callee.fn
				}
				if fn == nil || fn.Blocks == nil {
					v.c.fatal(v.id+":"+v.typ+":go", "%s: which function a session goroutine runs is not known", v.c.w.Pos(e.pos))
				}
				key := fmt.Sprint(v.c.w.Pos(e.instr.Pos()), e.callee, e.args, v.snapshot(a, e))
				if parent != nil {
					key = parent.name + key
				}
				if seen[key] {
					continue
				}
				seen[key] = true
				if len(v.gors) > 40 {
					v.c.fatal(v.id+":"+v.typ+":go", "session goroutines start goroutines without bound")
				}
				var binds []*Term
				if e.callee != nil && e.callee.op == OClosure {
					binds = e.callee.args
				}
				start(&gor{name: shortFn(fn) + "@" + v.c.w.Pos(e.pos), start: e, fn: fn, parent: parent}, e.heap, e.facts.lits, binds, e.args)
			}
		}
	}
	add(v.outs, v.a, nil)
	// methods of RPCSession run in any goroutine
	it, ok := v.c.typ("jlibhttp", "RPCSession").Underlying().(*types.Interface)
	if !ok {
		v.c.fatal(v.id+":"+v.typ+":iface", "RPCSession is no interface")
	}
	for i := 0; i < it.NumMethods(); i++ {
		m := v.c.methOf(v.sess.typ, it.Method(i).Name())
		start(&gor{name: "method " + m.Name(), fn: m}, v.first.heap, v.first.facts.lits, nil, []*Term{v.sess})
	}
}

func (v *sessView) isRead(e *Event) bool {
	if e.kind != EvCall {
		return false
	}
	switch e.name {
	case "(*websocket.Conn).ReadMessage", "(*websocket.Conn).NextReader", "(*websocket.Conn).ReadJSON",
		"jlib.DecodeMessage", "(*json.Decoder).Decode", "(*json.Decoder).Token":
		return len(e.args) > 0 && (e.args[0] == v.conn || e.args[0].op != OCall || e.name[0] == '(' && strings.Contains(e.name, "websocket"))
	case "(io.Reader).Read", "(io.ReadCloser).Read":
		return true
	}
	return false
}

func (v *sessView) isWrite(e *Event) bool {
	if e.kind != EvCall {
		return false
	}
	switch e.name {
	case "(*websocket.Conn).WriteMessage", "(*websocket.Conn).NextWriter", "(*websocket.Conn).WriteJSON", "(*websocket.Conn).WritePreparedMessage",
		"(io.Writer).Write", "(http.ResponseWriter).Write", "(http.ResponseWriter).WriteHeader", "(http.Flusher).Flush":
		return true
	}
	return len(wops([]*Event{e}, v.w)) > 0
}

// isUpgrade: the call that answers the HTTP request of a WebSocket connection.
func isUpgrade(e *Event) bool { return e.name == "(*websocket.Upgrader).Upgrade" }

// goPos: index of the first go statement of the path.
func goPos(o *Outcome) int {
	for i, e := range o.evs {
		if e.kind == EvGo {
			return i
		}
	}
	return -1
}

// ---- A09

func (v *sessView) isClose(e *Event) bool {
	return e.kind == EvCall && isMeth(e.fn, "Actor", "HandleClose")
}

func (v *sessView) closes() {
	n, np, refused := 0, 0, 0
	for _, o := range v.outs {
		if stuckAway(v.outs, o) {
			continue
		}
		est := v.established(o)
		if o.kind == OutLoop {
			for _, e := range o.evs[o.loop.nev:] {
				v.ob("A09", !v.isClose(e), "loop", e.pos, "HandleClose is called in a loop")
			}
			continue
		}
		var cl []*Event
		for i, e := range o.evs {
			if v.isClose(e) {
				cl = append(cl, e)
				_ = i
			}
		}
		if !est {
			if o.kind == OutPanic {
				continue // not begun yet
			}
			refused++
			v.ob("A09", len(cl) == 0, "refused", o.pos, "the close handlers are called for a connection that had no session")
			ok := false
			for _, e := range o.evs {
				if isUpgrade(e) && isNil(o.facts, extractErr(e.res, 1)) == 0 {
					ok = true
				}
				if v.typ == "H2" && (isMeth(e.fn, "H1Handler", "ServeHTTP") || e.kind == EvCall && e.name == "(http.ResponseWriter).WriteHeader") {
					ok = true
				}
			}
			v.ob("A09", ok, "nosession", o.pos, "a connection is neither refused nor given a session")
			continue
		}
		if o.kind == OutPanic {
			np++
		} else {
			n++
		}
		if !v.ob("A09", len(cl) == 1, "once", o.pos, "the close handlers are called %d times when a session ends with a %s", len(cl), kindName(o.kind)) {
			continue
		}
		e := cl[0]
		v.ob("A09", e.args[0] == v.c.fieldOf(v.self, "Actor"), "actor", e.pos, "HandleClose is called on %s, not on the actor of the handler", e.args[0])
		v.ob("A09", e.args[1] == v.r && unIface(e.args[2]) == v.sess, "args", e.pos, "HandleClose is not called with the request and session of the connection")
		last := -1
		for i, x := range o.evs {
			if x.kind == EvSelect || x.kind == EvRecv || x.kind == EvGo {
				last = i
			}
		}
		v.ob("A09", last < 0 || before(o, o.evs[last], e), "after", e.pos, "HandleClose is called before the session loop ended")
	}
	v.ob("A09", n > 0 && np > 0 && refused > 0, "cases", v.first.pos, "not every way a session can end was seen")
	for _, g := range v.gors {
		for _, o := range g.outs {
			for _, e := range o.evs {
				v.ob("A09", !v.isClose(e), "elsewhere", e.pos, "HandleClose is called by a session goroutine")
			}
		}
	}
	v.waits("A09")
	v.c.count("session_paths", n+np)
}

// waits: what the handler waits for before it returns.
func (v *sessView) waits(id string) {
	for _, o := range v.outs {
		if !v.established(o) || stuckAway(v.outs, o) {
			continue
		}
		gp := goPos(o)
		var sel []*Event
		for _, e := range o.evs[gp:] {
			if e.kind == EvSelect {
				sel = append(sel, e)
			}
			if e.kind == EvRecv && e.args[0] == v.done {
				sel = append(sel, e)
			}
		}
		if o.kind == OutReturn {
			if !v.ob(id, len(sel) > 0, "waits", o.pos, "the handler returns without waiting for the session to end") {
				continue
			}
		}
		for _, e := range sel {
			if e.kind == EvRecv {
				v.ob(id, false, "waitall", e.pos, "the handler waits for its goroutines only, not for the server to stop")
				continue
			}
			dn, conn, srv := false, false, false
			for _, cs := range e.cases {
				if cs.send {
					continue
				}
				if cs.ch == v.done {
					dn = true
				}
				if cs.ch.op == OCall && cs.ch.str2() == "(context.Context).Done" {
					x := cs.ch.args[0]
					if v.ctxFrom(x, func(t *Term) bool { return isReqCtx(t, v.r) }) {
						conn = true
					}
					if v.ctxFrom(x, func(t *Term) bool { return isFieldRead(t, v.self, "serverCtx") || isCtxField(t, v.self) }) {
						srv = true
					}
				}
			}
			v.ob(id, dn, "waitdone", e.pos, "the handler does not wait for the end its session goroutines report")
			v.ob(id, conn, "waitconn", e.pos, "the handler does not wait for the end of the connection's context")
			v.ob(id, srv, "waitserver", e.pos, "the handler does not wait for the server's context")
			v.ob(id, e.chosen >= 0, "waitpoll", e.pos, "the handler polls instead of waiting")
			if o.kind == OutLoop && e.chosen >= 0 {
				v.ob(id, false, "waitagain", e.pos, "the handler goes on waiting after the session ended")
			}
		}
		if o.kind == OutLoop && len(sel) == 0 {
			v.ob(id, true, "waits", o.pos, "")
		}
	}
}

// early: the handler returns only because a session, its connection or the
// server ended.
func (v *sessView) early(id string) {
	n := 0
	for _, o := range v.outs {
		if !v.established(o) || stuckAway(v.outs, o) || o.kind != OutReturn {
			continue
		}
		var last *Event
		for _, e := range o.evs[goPos(o):] {
			if e.kind == EvSelect && e.chosen >= 0 {
				last = e
			}
		}
		if last == nil || last.chosen >= len(last.cases) {
			continue
		}
		n++
		cs := last.cases[last.chosen]
		ok := cs.ch == v.done
		if cs.ch.op == OCall && cs.ch.str2() == "(context.Context).Done" {
			x := cs.ch.args[0]
			ok = ok || v.ctxFrom(x, func(t *Term) bool {
				return isReqCtx(t, v.r) || isFieldRead(t, v.self, "serverCtx") || isCtxField(t, v.self)
			})
		}
		v.ob(id, ok && !cs.send, "early", last.pos, "the handler ends a session for another reason than its end, that of its connection or that of the server")
	}
	v.ob(id, n > 0, "early", v.first.pos, "the handler never returns because of what it waited for")
}

func isReqCtx(t, r *Term) bool {
	return t.op == OCall && t.str2() == "(*http.Request).Context" && t.args[0] == r
}

func isFieldRead(t, base *Term, name string) bool {
	return t.op == ODeref && t.args[0].op == OFieldAddr && t.args[0].args[0] == base && t.args[0].str == name
}

// isCtxField: t is a field of base of type context.Context.
func isCtxField(t, base *Term) bool {
	return t.op == ODeref && t.args[0].op == OFieldAddr && t.args[0].args[0] == base && t.typ != nil && isNamed(t.typ, "context", "Context")
}

// parentCtx: the context t was derived from, and the cancel function's term.
func parentCtx(t *Term) (par, cancel *Term) {
	if t.op != OExtract || t.n != 0 || t.args[0].op != OCall {
		return nil, nil
	}
	switch t.args[0].str2() {
	case "context.WithCancel", "context.WithTimeout", "context.WithDeadline", "context.WithCancelCause":
		return t.args[0].args[0], t.args[0]
	}
	return nil, nil
}

func (v *sessView) ctxFrom(t *Term, is func(*Term) bool) bool {
	for t != nil {
		if is(t) {
			return true
		}
		if t.op == OCall && t.str2() == "context.WithValue" {
			t = t.args[0]
			continue
		}
		t, _ = parentCtx(t)
	}
	return false
}

func (c *Ctx) handleClose() {
	f := c.actorFields()
	fn := c.method("jlibhttp", "Actor", "HandleClose")
	a := newAnalysis(c.w)
	self := tSym("self", types.NewPointer(c.typ("jlibhttp", "Actor")))
	r, s := tSym("r", fn.Params[1].Type()), tSym("session", fn.Params[2].Type())
	outs := c.run(a, fn, self, r, s)
	kids, own := c.fieldOf(self, f.children), c.fieldOf(self, f.close)
	isKid := func(e *Event) bool { return e.kind == EvCall && isMeth(e.fn, "Actor", "HandleClose") }
	isOwn := func(e *Event) bool { return e.kind == EvCall && e.dyn && e.callee == own }
	pure := func(o *Outcome, evs []*Event) {
		for _, e := range effects(evs) {
			if isKid(e) || isOwn(e) || e.kind == EvStore && e.args[0].op == OAlloc {
				continue
			}
			if e.kind == EvCall && !e.dyn && !e.defr && (strings.HasPrefix(e.name, "logrus.") || strings.HasPrefix(e.name, "(*logrus.") || isPure(e.name)) {
				continue
			}
			c.ob(false, "A09:HandleClose:other", e.pos, "HandleClose does something else: %s", e)
		}
	}
	n := 0
	for _, o := range outs {
		pure(o, o.evs)
		if o.kind == OutLoop {
			for _, e := range o.evs[o.loop.nev:] {
				c.ob(!isOwn(e), "A09:HandleClose:loop", e.pos, "the close handler is called in a loop")
			}
			continue
		}
		n++
		if !c.ob(o.kind == OutReturn, "A09:HandleClose:kind", o.pos, "HandleClose ends in a %s", kindName(o.kind)) {
			continue
		}
		mine := 0
		for _, e := range o.evs {
			if isOwn(e) {
				mine++
				c.ob(len(e.args) == 2 && e.args[0] == r && e.args[1] == s, "A09:HandleClose:own", e.pos, "the close handler is called with other arguments")
			}
			if isKid(e) {
				c.ob(false, "A09:HandleClose:kid", e.pos, "a child's close handlers are called outside the loop over the children")
			}
		}
		switch isNil(o.facts, own) {
		case 0:
			c.ob(mine == 1, "A09:HandleClose:once", o.pos, "the close handler is called %d times", mine)
		case 1:
			c.ob(mine == 0, "A09:HandleClose:once", o.pos, "a missing close handler is called")
		default:
			c.ob(false, "A09:HandleClose:once", o.pos, "a path does not depend on whether there is a close handler")
		}
		np := len(passes(outs, o, tLen(kids)))
		all := forAll(outs, o, tLen(kids), func(b *Outcome, idx *Term) bool {
			k := 0
			for _, e := range b.evs[b.loop.nev:] {
				if isKid(e) {
					if e.args[0] != elem(kids, idx) || e.args[1] != r || e.args[2] != s {
						return false
					}
					k++
				}
			}
			return k == 1
		})
		c.ob(all || o.facts.Val(tEq(tLen(kids), tInt(0))) == 1, "A09:HandleClose:children", o.pos, "not every child's close handlers are called once")
		c.ob(np <= 1, "A09:HandleClose:twice", o.pos, "the children are gone through %d times", np)
	}
	c.ob(n > 0, "A09:HandleClose:none", fn.Pos(), "HandleClose never returns")
	// nobody else calls it
	ok := map[*ssa.Function]bool{}
	for fnn := range a.nfuncs {
		ok[fnn] = true
	}
	for _, t := range []string{"WS", "H2"} {
		b := newAnalysis(c.w, sessOpaque...)
		c.run(b, c.method("jlibhttp", t+"Handler", "ServeHTTP"))
		for fnn := range b.nfuncs {
			ok[fnn] = true
		}
	}
	for _, g := range c.w.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, y := in.(ssa.CallInstruction)
				if !y {
					continue
				}
				if cal := ci.Common().StaticCallee(); cal != nil && isMeth(cal, "Actor", "HandleClose") {
					c.ob(ok[g], "A09:callers", in.Pos(), "%s calls HandleClose, not the end of a session", shortFn(g))
				}
			}
		}
	}
}

// ---- A12

func (v *sessView) owners() {
	var rd, wr []*gor
	for _, g := range v.gors {
		if g.reads {
			rd = append(rd, g)
		}
		if g.writes {
			wr = append(wr, g)
		}
	}
	v.sole("reads", rd)
	v.sole("writes", wr)
	for _, o := range v.outs {
		gp := goPos(o)
		for i, e := range o.evs {
			v.ob("A12", !v.isRead(e), "handlerreads", e.pos, "the handler itself reads the connection")
			if gp >= 0 && i > gp {
				v.ob("A12", !v.isWrite(e), "handlerwrites", e.pos, "the handler itself writes to the connection while its writer runs")
			}
		}
	}
	if v.typ == "H2" && len(wr) == 1 {
		v.joined(wr[0])
	}
}

func (v *sessView) sole(what string, gs []*gor) {
	if len(gs) == 0 {
		v.ob("A12", false, what, v.first.pos, "no goroutine %s the connection", what)
		return
	}
	// a goroutine is known by where it starts and what it runs
	type src struct {
		in     ssa.Instruction
		fn     *ssa.Function
		callee *Term
	}
	of := func(e *Event) src { return src{e.instr, e.fn, e.callee} }
	inst := map[src]bool{}
	for _, g := range gs {
		if g.start == nil {
			v.ob("A12", false, what, g.fn.Pos(), "%s, which any goroutine may call, %s the connection", g.name, what)
			return
		}
		if g.parent != nil {
			v.ob("A12", false, what, g.start.pos, "a goroutine started by another session goroutine %s the connection", what)
			return
		}
		inst[of(g.start)] = true
	}
	if !v.ob("A12", len(inst) == 1, what, gs[0].start.pos, "%d goroutines of a session %s the connection", len(inst), strings.TrimSuffix(what, "s")) {
		return
	}
	for _, o := range v.outs {
		n := 0
		for _, e := range o.evs {
			if e.kind == EvGo && inst[of(e)] {
				n++
			}
		}
		if o.kind == OutLoop {
			m := 0
			for _, e := range o.evs[o.loop.nev:] {
				if e.kind == EvGo && inst[of(e)] {
					m++
				}
			}
			v.ob("A12", m == 0, what+"loop", o.pos, "the goroutine that %s the connection is started in a loop", what)
			continue
		}
		if v.established(o) && o.kind == OutReturn {
			v.ob("A12", n == 1, what+"once", o.pos, "the goroutine that %s the connection is started %d times", what, n)
		}
	}
}

// joined: the handler returns only after the writer has ended.
func (v *sessView) joined(g *gor) {
	signals := func(o *Outcome) (r []*Term) {
		last := -1
		for i, e := range o.evs {
			if v.isWrite(e) {
				last = i
			}
		}
		for i, e := range o.evs {
			if i < last {
				continue
			}
			switch {
			case e.kind == EvClose, e.kind == EvSend:
				r = append(r, e.args[0])
			case e.kind == EvCall && e.name == "(*sync.WaitGroup).Done":
				r = append(r, e.args[0])
			}
		}
		return
	}
	var common map[*Term]bool
	for _, o := range g.outs {
		if o.kind == OutLoop {
			continue
		}
		m := map[*Term]bool{}
		for _, t := range signals(o) {
			if common == nil || common[t] {
				m[t] = true
			}
		}
		common = m
	}
	if !v.ob("A12", len(common) > 0, "join", g.start.pos, "the writer does not tell on every path that it has ended") {
		return
	}
	for _, o := range v.outs {
		if o.kind == OutLoop || goPos(o) < 0 {
			continue
		}
		started, waited, cancelled := false, false, false
		for _, e := range o.evs {
			switch {
			case e.kind == EvGo && e.instr == g.start.instr:
				started = true
			case e.kind == EvRecv && common[e.args[0]], e.kind == EvCall && e.name == "(*sync.WaitGroup).Wait" && common[e.args[0]]:
				waited = true
				v.ob("A12", cancelled, "joincancel", e.pos, "the handler waits for the writer without having ended it")
			case e.kind == EvCall && e.dyn && v.endsWriter(g, e.callee):
				cancelled = true
			}
		}
		if started {
			v.ob("A12", waited, "joined", o.pos, "the handler can return (%s) while the writer still runs", kindName(o.kind))
		}
	}
}

// endsWriter: calling the cancel function ends the context the goroutine waits for.
func (v *sessView) endsWriter(g *gor, cancel *Term) bool {
	if cancel.op != OExtract || cancel.n != 1 {
		return false
	}
	for _, o := range g.outs {
		for _, e := range o.evs {
			if e.kind != EvSelect {
				continue
			}
			ok := false
			for _, cs := range e.cases {
				if !cs.send && cs.ch.op == OCall && cs.ch.str2() == "(context.Context).Done" && v.ctxFrom(cs.ch.args[0], func(t *Term) bool {
					_, cc := parentCtx(t)
					return cc == cancel.args[0]
				}) {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
	}
	return true
}

// ---- ended contexts (A13, A16)

// ended: the context is done once the handler has returned.
func (v *sessView) ended(t *Term) bool {
	return v.ctxFrom(t, func(x *Term) bool {
		if isReqCtx(x, v.r) {
			return true
		}
		_, call := parentCtx(x)
		if call == nil {
			return false
		}
		n := 0
		for _, o := range v.outs {
			if o.kind == OutLoop || goPos(o) < 0 {
				continue
			}
			made, ok := false, false
			for _, e := range o.evs {
				if e.kind == EvCall && e.res != nil && e.name == call.str2() && (e.res == call || e.res.op == OTuple && len(e.res.args) > 0 && e.res.args[0].op == OExtract && e.res.args[0].args[0] == call) {
					made = true
				}
				if e.kind == EvCall && e.dyn && e.callee.op == OExtract && e.callee.n == 1 && e.callee.args[0] == call {
					ok = true
				}
			}
			if made && !ok {
				return false
			}
			if made {
				n++
			}
		}
		return n > 0
	})
}

func (v *sessView) isEndedDone(ch *Term) bool {
	return ch.op == OCall && ch.str2() == "(context.Context).Done" && v.ended(ch.args[0])
}

// chosenEnd: the select chose a Done of an ended context.
func (v *sessView) chosenEnd(e *Event) bool {
	return e.kind == EvSelect && e.chosen >= 0 && !e.cases[e.chosen].send && v.isEndedDone(e.cases[e.chosen].ch)
}

func (v *sessView) ends() {
	for _, g := range v.gors {
		for _, o := range g.outs {
			if stuckAway(g.outs, o) {
				continue
			}
			for _, e := range o.evs {
				switch e.kind {
				case EvSend:
					v.ob("A16", false, "send", e.pos, "%s blocks for ever when nobody takes what it sends after the session ended", g.name)
				case EvRecv:
					v.ob("A16", v.isEndedDone(e.args[0]), "recv", e.pos, "%s may wait for ever for a value after the session ended", g.name)
				case EvSelect:
					ok := e.chosen < 0
					for _, cs := range e.cases {
						if !cs.send && v.isEndedDone(cs.ch) {
							ok = true
						}
					}
					if poll(e) {
						ok = true
					}
					v.ob("A16", ok, "select", e.pos, "%s may wait for ever in a select without a case for the end of the session", g.name)
				case EvCall:
					switch e.name {
					case "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait":
						v.ob("A16", false, "wait", e.pos, "%s may wait for ever in %s", g.name, e.name)
					}
				}
			}
			if o.kind == OutLoop {
				ended := false
				for _, e := range o.evs[o.loop.nev:] {
					if v.chosenEnd(e) {
						ended = true
					}
				}
				// a Done chosen inside a callee (Send, finish) does not end the loop; the next read or select does
				if ended && !v.otherStop(g, o) {
					v.ob("A16", false, "again", o.pos, "%s goes on after the session ended", g.name)
				}
			}
			v.ob("A16", o.kind != OutBlock, "block", o.pos, "%s blocks for ever", g.name)
		}
	}
	// the connection is closed on every way out
	for _, o := range v.outs {
		if o.kind == OutLoop || goPos(o) < 0 {
			continue
		}
		closed := false
		for _, e := range o.evs {
			if e.kind != EvCall {
				continue
			}
			if v.typ == "WS" && e.name == "(*websocket.Conn).Close" && e.args[0] == v.conn {
				closed = true
			}
			if v.typ == "H2" && strings.HasSuffix(e.name, ".Close") && len(e.args) > 0 && unIface(e.args[0]) == v.c.fieldOf(v.r, "Body") {
				closed = true
			}
		}
		v.ob("A16", closed, "closed", o.pos, "the handler can return (%s) with the connection open", kindName(o.kind))
	}
	// the session's own context ends too: it is what Send and the feeds watch
	ctx := v.fieldNow("the context", func(t types.Type) bool { return isNamed(t, "context", "Context") })
	v.ob("A16", v.ended(ctx), "context", v.first.pos, "the context of the session is not known to end with it")
}

func poll(e *Event) bool {
	s, ok := e.instr.(*ssa.Select)
	return ok && !s.Blocking
}

// otherStop: the iteration blocks on something else too, which ends it (the read).
func (v *sessView) otherStop(g *gor, o *Outcome) bool {
	for _, e := range o.evs[o.loop.nev:] {
		if v.isRead(e) {
			return true
		}
	}
	return false
}
