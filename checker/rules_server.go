package main

// A14: the gateway. A15: ListenAndServe.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("A14", "the gateway's constructor is interpreted and the actor of every handler it stores is compared with the gateway's own; its ServeHTTP is interpreted from the constructed gateway and on every path the one handler called must be the one demanded by every combination of protocol and Upgrade value the path's facts allow; the HTTP/2 handler's fallback and the constructors' treatment of a nil actor are decided the same way", checkA14)
	register("A15", "ListenAndServe is interpreted: one listen on the address, its error returned, one serve of the given handler over that listener, with TLS iff some configuration is non-nil (by induction over the loop over them), a watcher whose every path waits for a context derived from the caller's before it closes the listener, and whose context is cancelled on every way out", checkA15)
}

var serveHTTPs = []string{"(*jlibhttp.H1Handler).ServeHTTP", "(*jlibhttp.WSHandler).ServeHTTP", "(*jlibhttp.H2Handler).ServeHTTP"}

// handlerOf: the concrete handler behind an http.Handler value, and whether
// it is reached through the h2c wrapper.
func handlerOf(t *Term) (h *Term, typ string, h2c bool) {
	t = unIface(t)
	if t.op == OCall && t.str2() == "h2c.NewHandler" {
		h, typ, _ = handlerOf(t.args[0])
		return h, typ, true
	}
	for _, n := range []string{"H1Handler", "WSHandler", "H2Handler"} {
		if isPtrTo(t.typ, "jlibhttp", n) {
			return t, n, false
		}
	}
	return nil, "", false
}

func (c *Ctx) actorIn(typ string) string {
	return c.fieldByType(c.typ("jlibhttp", typ), "the actor", func(t types.Type) bool { return isPtrTo(t, "jlibhttp", "Actor") })
}

// freshActor: t is an actor made on this path as NewActor makes them.
func (c *Ctx) freshActor(a *Analysis, o *Outcome, t *Term) bool {
	if t.op != OAlloc {
		return false
	}
	fn := c.fn("jlibhttp", "NewActor")
	ra := newAnalysis(c.w)
	st := structOf(deref(t.typ))
	outs := c.run(ra, fn)
	if len(outs) == 0 {
		return false
	}
	for _, r := range outs {
		if r.kind != OutReturn || r.rets[0].op != OAlloc {
			return false
		}
		for i := 0; i < st.NumFields(); i++ {
			n := st.Field(i).Name()
			x, y := c.fget(a, o, t, n), c.fget(ra, r, r.rets[0], n)
			if x.op != y.op || (x.op == OConst && x != y) {
				return false
			}
		}
	}
	return true
}

// servesActor: the handler's actor is actor, or a fresh one if actor is nil.
func (c *Ctx) servesActor(a *Analysis, o *Outcome, got, actor *Term) bool {
	switch isNil(o.facts, actor) {
	case 1:
		return c.freshActor(a, o, got)
	case 0:
		return got == actor
	}
	return false
}

func checkA14(c *Ctx) {
	gt := c.typ("jlibhttp", "GatewayHandler")
	fAct := c.actorIn("GatewayHandler")
	ctor := c.fn("jlibhttp", "NewGatewayHandler")
	var ctx, actor, insecure *Term
	var ps []*Term
	for _, p := range ctor.Params {
		t := tSym(p.Name(), p.Type())
		ps = append(ps, t)
		switch {
		case isPtrTo(p.Type(), "jlibhttp", "Actor"):
			actor = t
		case isNamed(p.Type(), "context", "Context"):
			ctx = t
		case types.Identical(p.Type(), types.Typ[types.Bool]):
			insecure = t
		}
	}
	if ctx == nil || actor == nil || insecure == nil {
		c.fatal("A14:anchor", "NewGatewayHandler does not take a context, an actor and a flag")
	}
	c.site(ctor.Pos(), "NewGatewayHandler")
	a := newAnalysis(c.w)
	serve := c.method("jlibhttp", "GatewayHandler", "ServeHTTP")
	c.site(serve.Pos(), "GatewayHandler.ServeHTTP")
	routed := map[string]int{}
	for _, o := range c.run(a, ctor, ps...) {
		if stuckAway(nil, o) {
			continue
		}
		if !c.ob(o.kind == OutReturn && isPtrTo(o.rets[0].typ, "jlibhttp", "GatewayHandler") && o.rets[0].op == OAlloc, "A14:new", o.pos, "NewGatewayHandler does not return a new gateway") {
			continue
		}
		gw := o.rets[0]
		own := c.fget(a, o, gw, fAct)
		c.ob(c.servesActor(a, o, own, actor), "A14:actor", o.pos, "the gateway exposes %s rather than the actor it is given, or a new one if that is nil", own)
		// the handlers it holds
		st := structOf(gt)
		for i := 0; i < st.NumFields(); i++ {
			x := c.fget(a, o, gw, st.Field(i).Name())
			h, typ, _ := handlerOf(x)
			if h == nil {
				continue
			}
			c.count("handlers", 1)
			c.handler(a, o, h, typ, own, ctx)
		}
		c.routes(a, o, serve, gw, own, insecure, routed)
	}
	for _, k := range []string{"websocket", "h2c", "http2", "other"} {
		c.count("routes_"+k, routed[k])
		c.ob(routed[k] > 0, "A14:none", serve.Pos(), "no path handles requests of the class %q", k)
	}
	c.gatewayStores(gt, serve)
	c.fallback()
	for _, n := range []string{"H1Handler", "WSHandler", "H2Handler"} {
		c.nilActor(n)
	}
}

func (c *Ctx) handler(a *Analysis, o *Outcome, h *Term, typ string, own, ctx *Term) {
	x := c.fget(a, o, h, c.actorIn(typ))
	c.ob(x == own, "A14:shared:"+typ, o.pos, "the gateway's %s serves %s, not the gateway's actor", typ, x)
	st := structOf(deref(h.typ))
	for i := 0; i < st.NumFields(); i++ {
		if isNamed(st.Field(i).Type(), "context", "Context") {
			y := c.fget(a, o, h, st.Field(i).Name())
			c.ob(ctxChain(y, ctx), "A14:context:"+typ, o.pos, "the gateway's %s does not get the server's context but %s", typ, y)
		}
	}
}

// protoTerm: the conditions by which the path could have told HTTP/2.
func http2Of(c *Ctx, evs []*Event, f *Facts, r *Term) *Term {
	for _, e := range evs {
		if e.kind == EvCall && e.name == "(*http.Request).ProtoAtLeast" && e.args[0] == r && constIs(e.args[1], 2) && constIs(e.args[2], 0) {
			return e.res
		}
	}
	mj := c.fieldOf(r, "ProtoMajor")
	for _, x := range []*Term{tLe(tInt(2), mj), tEq(mj, tInt(2)), tEq(c.fieldOf(r, "Proto"), tStr("HTTP/2.0"))} {
		if f.Val(x) >= 0 {
			return x
		}
	}
	return nil
}

func (c *Ctx) routes(a *Analysis, co *Outcome, serve *ssa.Function, gw, own, insecure *Term, routed map[string]int) {
	sa := newAnalysis(c.w, serveHTTPs...)
	sa.heap0 = co.heap
	sa.facts0 = co.facts.lits
	w, r := tSym("w", serve.Params[1].Type()), tSym("r", serve.Params[2].Type())
	hdr := c.fieldOf(r, "Header")
	for _, o := range c.run(sa, serve, gw, w, r) {
		if stuckAway(nil, o) {
			continue
		}
		if !c.ob(o.kind == OutReturn, "A14:ends", o.pos, "the gateway ends a request with a %s", kindName(o.kind)) {
			continue
		}
		var calls []*Event
		var up *Term
		for _, e := range o.evs {
			switch {
			case (e.kind == EvCall || e.kind == EvGo) && strings.HasSuffix(e.name, ".ServeHTTP"):
				calls = append(calls, e)
				continue
			case e.kind == EvCall && e.name == "(http.Header).Get" && e.args[0] == hdr && constKey(e.args[1]) == "Upgrade":
				up = e.res
			case e.kind == EvStore && rootOf(e.args[0]) == r,
				(e.kind == EvMapUpdate || e.kind == EvMapDelete) && e.args[0] == hdr,
				e.kind == EvCall && len(e.args) > 0 && e.args[0] == hdr && (e.name == "(http.Header).Set" || e.name == "(http.Header).Add" || e.name == "(http.Header).Del"):
				c.ob(false, "A14:changes", e.pos, "the gateway changes the request it passes on")
			}
		}
		for _, x := range wops(o.evs, w) {
			if !strings.HasSuffix(x.ev.name, ".ServeHTTP") {
				c.ob(false, "A14:answers", x.ev.pos, "the gateway uses the response writer itself (%s)", x.ev.name)
			}
		}
		if !c.ob(len(calls) == 1 && calls[0].kind == EvCall, "A14:once", o.pos, "a request is given to %d handlers", len(calls)) {
			continue
		}
		e := calls[0]
		n := len(e.args)
		c.ob(n >= 2 && e.args[n-2] == w && e.args[n-1] == r, "A14:args", e.pos, "the handler does not get the gateway's own writer and request")
		recv := e.args[0]
		if n == 2 && e.callee != nil {
			recv = e.callee
		}
		h, typ, wrapped := handlerOf(recv)
		if !c.ob(h != nil, "A14:known", e.pos, "requests are given to %s, which is none of the gateway's handlers", recv) {
			continue
		}
		c.ob(c.fget(sa, o, h, c.actorIn(typ)) == own, "A14:shared:"+typ, e.pos, "the %s serves another actor than the gateway's", typ)
		if typ == "H2Handler" {
			ins := o.facts.Val(insecure)
			if ins < 0 {
				ins = co.facts.Val(insecure)
			}
			c.ob(ins >= 0 && wrapped == (ins == 1), "A14:insecure", e.pos, "the HTTP/2 handler speaks cleartext HTTP/2 other than exactly when the gateway is insecure")
		}
		proto := http2Of(c, o.evs, o.facts, r)
		for _, k := range []string{"http2", "websocket", "h2c", "other"} {
			f := o.facts
			if proto != nil {
				f = f.with(lit(proto, k == "http2"))
			}
			if up != nil && k != "http2" {
				for _, s := range []string{"websocket", "h2c"} {
					f = f.with(lit(tEq(up, tStr(s)), k == s))
				}
			}
			if !f.Consistent() {
				continue
			}
			routed[k]++
			want := map[string]string{"http2": "H2Handler", "h2c": "H2Handler", "websocket": "WSHandler", "other": "H1Handler"}[k]
			c.ob(typ == want, "A14:route:"+k, e.pos, "a request of the class %q may be given to the %s", k, typ)
		}
	}
}

// gatewayStores: nothing replaces a gateway's handlers later.
func (c *Ctx) gatewayStores(gt types.Type, serve *ssa.Function) {
	st := structOf(gt)
	hf := map[int]bool{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if _, ok := f.Type().Underlying().(*types.Interface); ok || strings.HasSuffix(f.Type().String(), "Handler") {
			hf[i] = true
		}
	}
	fr := c.newFreshness()
	for _, fn := range c.w.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !hf[fa.Field] || !types.Identical(deref(fa.X.Type()), gt) {
					continue
				}
				c.count("handler_stores", 1)
				c.ob(fr.fresh(fa.X, map[ssa.Value]bool{}), "A14:replaced", s.Pos(), "%s replaces a handler of an existing gateway", shortFn(fn))
			}
		}
	}
}

// fallback: the handler an HTTP/1 request to the HTTP/2 handler ends up with.
func (c *Ctx) fallback() {
	fn := c.method("jlibhttp", "H2Handler", "ServeHTTP")
	c.site(fn.Pos(), "H2Handler.ServeHTTP")
	h2 := c.typ("jlibhttp", "H2Handler")
	self := tSym("self", types.NewPointer(h2))
	w, r := tSym("w", fn.Params[1].Type()), tSym("r", fn.Params[2].Type())
	a := newAnalysis(c.w, serveHTTPs...)
	own := c.fieldOf(self, c.actorIn("H2Handler"))
	fAct := c.actorIn("H1Handler")
	field := ""
	st := structOf(h2)
	for i := 0; i < st.NumFields(); i++ {
		if isPtrTo(st.Field(i).Type(), "jlibhttp", "H1Handler") {
			field = st.Field(i).Name()
		}
	}
	seen := map[ssa.Instruction]bool{}
	n := 0
	check := func(a *Analysis, outs []*Outcome, self *Term) {
		own = c.fieldOf(self, c.actorIn("H2Handler"))
		for _, o := range outs {
			for _, e := range o.evs {
				if e.kind == EvStore && field != "" && e.args[0] == ptrField(self, field) {
					seen[e.instr] = true
					c.ob(e.args[1].op == OAlloc && (c.nowField(a, e, e.args[1], fAct) == own || isNil(e.facts, own) == 1 && c.freshActor(a, o, c.fget(a, o, e.args[1], fAct))), "A14:fallback", e.pos, "the HTTP/1 fallback does not serve the HTTP/2 handler's actor")
				}
				if (e.kind == EvCall || e.kind == EvGo) && e.name == serveHTTPs[0] {
					n++
					h := e.args[0]
					ok := field != "" && ptrBase(h, field) == self
					if h.op == OAlloc {
						x := c.nowField(a, e, h, fAct)
						ok = x == own || isNil(e.facts, own) == 1 && c.freshActor(a, o, x)
					}
					c.ob(ok, "A14:fallback", e.pos, "HTTP/1 requests fall back to %s, which does not serve the HTTP/2 handler's actor", h)
					c.ob(e.kind == EvCall && e.args[1] == w && e.args[2] == r, "A14:fallbackargs", e.pos, "the fallback does not get the writer and the request")
					p := http2Of(c, o.evs, e.facts, r)
					c.ob(p != nil && e.facts.Val(p) == 0, "A14:fallbackproto", e.pos, "HTTP/2 requests fall back to HTTP/1")
				}
			}
		}
	}
	outs := c.run(a, fn, self, w, r)
	check(a, outs, self)
	// requests below HTTP/2 fall back unless the handler is set up for cleartext HTTP/2, all others do not
	h2c := c.fieldOf(self, "UseH2C")
	for _, o := range outs {
		calls := 0
		for _, e := range o.evs {
			if (e.kind == EvCall || e.kind == EvGo) && e.name == serveHTTPs[0] {
				calls++
			}
		}
		c.ob(calls <= 1, "A14:fallbackonce", o.pos, "a request falls back to HTTP/1 %d times", calls)
		if calls == 1 {
			c.ob(o.facts.Val(h2c) == 0, "A14:fallbackh2c", o.pos, "requests may fall back to HTTP/1 although the handler is set up for cleartext HTTP/2")
			continue
		}
		p := http2Of(c, o.evs, o.facts, r)
		c.ob(o.facts.Val(h2c) == 1 || p != nil && o.facts.Val(p) == 1, "A14:fallbackmissed", o.pos, "a request below HTTP/2 may be served as an HTTP/2 stream")
	}
	// set up for cleartext HTTP/2
	hm := c.method("jlibhttp", "H2Handler", "H2CHandler")
	c.site(hm.Pos(), "H2Handler.H2CHandler")
	ha := newAnalysis(c.w)
	for _, o := range c.run(ha, hm, self) {
		if !c.ob(o.kind == OutReturn, "A14:h2c", o.pos, "H2CHandler ends in a %s", kindName(o.kind)) {
			continue
		}
		h, _, wrapped := handlerOf(o.rets[0])
		c.ob(h == self && wrapped, "A14:h2c", o.pos, "H2CHandler returns %s, not the handler itself behind the cleartext HTTP/2 protocol", o.rets[0])
		c.ob(o.facts.Val(c.fget(ha, o, self, "UseH2C")) == 1, "A14:h2cflag", o.pos, "H2CHandler leaves the handler set up for HTTP/2 over TLS")
	}
	if m := c.methOf(types.NewPointer(h2), "FallbackHandler"); m != nil {
		a := newAnalysis(c.w)
		outs := c.run(a, m, self)
		check(a, outs, self)
		for _, o := range outs {
			if o.kind != OutReturn {
				continue
			}
			h := o.rets[0]
			ok := field != "" && ptrBase(h, field) == self
			if h.op == OAlloc {
				x := c.fget(a, o, h, fAct)
				ok = x == own || isNil(o.facts, own) == 1 && c.freshActor(a, o, x)
			}
			c.ob(ok, "A14:fallback", o.pos, "the fallback handler does not serve the HTTP/2 handler's actor")
		}
	}
	// or made once and for all by the constructor
	if field != "" {
		mk := c.fn("jlibhttp", "NewH2Handler")
		a := newAnalysis(c.w)
		for _, o := range c.run(a, mk) {
			for _, e := range o.evs {
				if e.kind != EvStore || e.args[0].op != OFieldAddr || e.args[0].str != field || !isPtrTo(e.args[0].args[0].typ, "jlibhttp", "H2Handler") {
					continue
				}
				seen[e.instr] = true
				if o.kind != OutReturn || e.args[0].args[0].op != OAlloc {
					continue
				}
				own := c.fget(a, o, e.args[0].args[0], c.actorIn("H2Handler"))
				x := c.fget(a, o, e.args[0].args[0], field)
				ok := x.op == OAlloc && c.fget(a, o, x, fAct) == own
				c.ob(ok, "A14:fallback", e.pos, "the HTTP/1 fallback does not serve the HTTP/2 handler's actor")
			}
		}
		c.ob(len(seen) > 0, "A14:fallbackmade", fn.Pos(), "HTTP/1 requests fall back to a handler that is never made")
	}
	c.count("fallbacks", n)
	c.ob(n > 0, "A14:nofallback", fn.Pos(), "HTTP/1 requests never reach an HTTP/1 handler")
	if field == "" {
		return
	}
	for _, fn := range c.w.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), h2) && st.Field(fa.Field).Name() == field {
						c.ob(seen[s], "A14:fallbackset", s.Pos(), "%s sets the fallback handler apart from serving", shortFn(fn))
					}
				}
			}
		}
	}
}

// nilActor: the handler's constructor keeps its actor or makes one.
func (c *Ctx) nilActor(n string) {
	fn := c.fn("jlibhttp", "New"+n)
	c.site(fn.Pos(), "New"+n)
	var ps []*Term
	var actor *Term
	for _, p := range fn.Params {
		t := tSym(p.Name(), p.Type())
		ps = append(ps, t)
		if isPtrTo(p.Type(), "jlibhttp", "Actor") {
			actor = t
		}
	}
	a := newAnalysis(c.w)
	for _, o := range c.run(a, fn, ps...) {
		if stuckAway(nil, o) {
			continue
		}
		if c.ob(actor != nil && o.kind == OutReturn && o.rets[0].op == OAlloc, "A14:ctor:"+n, o.pos, "New%s does not return a new handler", n) {
			x := c.fget(a, o, o.rets[0], c.actorIn(n))
			c.ob(c.servesActor(a, o, x, actor), "A14:ctor:"+n, o.pos, "New%s's handler serves %s, not the actor given or a new one if that is nil", n, x)
		}
	}
}

// ---- A15

func checkA15(c *Ctx) {
	fn := c.fn("jlibhttp", "ListenAndServe")
	c.site(fn.Pos(), "ListenAndServe")
	var ps []*Term
	var root, bind, handler, cfgs *Term
	for _, p := range fn.Params {
		t := tSym(p.Name(), p.Type())
		ps = append(ps, t)
		switch {
		case isNamed(p.Type(), "context", "Context"):
			root = t
		case isNamed(p.Type(), "http", "Handler"):
			handler = t
		case types.Identical(p.Type(), types.Typ[types.String]):
			bind = t
		default:
			if s, ok := p.Type().Underlying().(*types.Slice); ok && isPtrTo(s.Elem(), "jlibhttp", "TLSConfig") {
				cfgs = t
			}
		}
	}
	if root == nil || bind == nil || handler == nil || cfgs == nil {
		c.fatal("A15:anchor", "ListenAndServe does not take a context, an address, a handler and TLS configurations")
	}
	a := newAnalysis(c.w)
	outs := c.run(a, fn, ps...)
	nTLS, nClear, nFail := 0, 0, 0
	for _, o := range outs {
		if o.kind == OutLoop || stuckAway(outs, o) {
			continue
		}
		if !c.ob(o.kind == OutReturn, "A15:ends", o.pos, "ListenAndServe ends with a %s", kindName(o.kind)) {
			continue
		}
		var ls, serves []*Event
		for _, e := range o.evs {
			if e.kind != EvCall {
				continue
			}
			switch e.name {
			case "net.Listen", "(*net.ListenConfig).Listen", "net.ListenTCP":
				ls = append(ls, e)
			case "(*http.Server).Serve", "(*http.Server).ServeTLS", "http.Serve", "http.ServeTLS",
				"(*http.Server).ListenAndServe", "(*http.Server).ListenAndServeTLS", "http.ListenAndServe", "http.ListenAndServeTLS":
				serves = append(serves, e)
			}
		}
		if !c.ob(len(ls) == 1, "A15:listen", o.pos, "ListenAndServe listens %d times", len(ls)) {
			continue
		}
		l := ls[0]
		n := len(l.args)
		c.ob(n >= 2 && (constStr2(l.args[n-2]) == "tcp") && l.args[n-1] == bind, "A15:address", l.pos, "ListenAndServe does not listen on the given address over TCP")
		lis, lerr := resAt(l.res, 0), extractErr(l.res, 1)
		ret := o.rets[0]
		if isNil(o.facts, lerr) != 1 {
			if c.ob(isNil(o.facts, lerr) == 0, "A15:ignored", l.pos, "ListenAndServe does not look at the error of listening") {
				nFail++
				c.ob(len(serves) == 0, "A15:served", o.pos, "ListenAndServe serves although it cannot listen")
				c.ob(unWrapErr(ret) == lerr || isNil(o.facts, ret) == 0, "A15:error", o.pos, "ListenAndServe does not return the error of listening")
			}
			continue
		}
		if !c.ob(len(serves) == 1, "A15:serve", o.pos, "ListenAndServe serves %d times", len(serves)) {
			continue
		}
		e := serves[0]
		args := e.args
		var h *Term
		var server *Term
		if strings.HasPrefix(e.name, "(*http.Server)") {
			server = args[0]
			args = args[1:]
			h = c.nowField(a, e, server, "Handler")
		} else if len(args) > 1 {
			h = args[1]
			args = append([]*Term{args[0]}, args[2:]...)
		}
		c.ob(h == handler, "A15:handler", e.pos, "ListenAndServe serves %s, not the given handler", h)
		if !c.ob(len(args) > 0 && args[0] == lis, "A15:listener", e.pos, "ListenAndServe does not serve the listener it opened") {
			continue
		}
		c.ob(unWrapErr(ret) == e.res, "A15:served", o.pos, "ListenAndServe does not return why serving ended")
		if strings.HasSuffix(e.name, "TLS") {
			nTLS++
			p := ptrBase(args[1], "Certfile")
			q := ptrBase(args[2], "Keyfile")
			c.ob(p != nil && p == q && isNil(e.facts, p) == 0 && isCfg(outs, o, p, cfgs), "A15:files", e.pos, "the certificate and key files are not those of a configuration given")
		} else {
			nClear++
			c.ob(allNil(outs, o, cfgs), "A15:clear", e.pos, "ListenAndServe may serve in clear although a TLS configuration is given")
		}
		c.watcher(a, o, l, e, lis, server, root)
	}
	c.count("paths_tls", nTLS)
	c.count("paths_clear", nClear)
	c.count("paths_fail", nFail)
	c.ob(nTLS > 0, "A15:notls", fn.Pos(), "ListenAndServe never serves over TLS")
	c.ob(nClear > 0, "A15:noclear", fn.Pos(), "ListenAndServe never serves in clear")
}

func constStr2(t *Term) string {
	if t.op != OConst {
		return ""
	}
	return constStr(t)
}

// isCfg: p is one of the configurations.
func isCfg(outs []*Outcome, o *Outcome, p, cfgs *Term) bool {
	if p.op == OIndex && p.args[0] == cfgs {
		return true
	}
	if p.op != OLoopVar {
		return false
	}
	// a variable that starts out nil and only ever takes configurations
	for _, l := range loopsIn(o) {
		in, ok := l.init[p]
		if !ok {
			continue
		}
		if in != nil && isNil(o.facts, in) != 1 {
			return false
		}
		for _, b := range rawBacks(outs, o, l) {
			x := b.next[p]
			if x != nil && x != p && !isCfg(outs, b, x, cfgs) && isNil(b.facts, x) != 1 {
				return false
			}
		}
		return true
	}
	return false
}

// allNil: every configuration is nil on this path.
func allNil(outs []*Outcome, o *Outcome, cfgs *Term) bool {
	n := tLen(cfgs)
	if o.facts.Val(tLe(n, tInt(0))) == 1 || o.facts.Val(tEq(n, tInt(0))) == 1 {
		return true
	}
	if forAll(outs, o, n, func(b *Outcome, i *Term) bool { return isNil(b.facts, elem(cfgs, i)) == 1 }) {
		return true
	}
	// a variable holds one seen so far, and is nil at the end
	for _, l := range loopsIn(o) {
		for v := range l.init {
			if isNil(o.facts, v) != 1 {
				continue
			}
			if forAll(outs, o, n, func(b *Outcome, i *Term) bool {
				x := b.next[v]
				el := elem(cfgs, i)
				switch {
				case x == nil || x == v:
					return isNil(b.facts, el) == 1 || isNil(b.facts, v) == 0
				case isNil(b.facts, x) == 0:
					return true
				case isNil(b.facts, v) == 1:
					return x == el || isNil(b.facts, el) == 1
				}
				return false
			}) {
				return true
			}
		}
	}
	return false
}

// closesListener: the call ends the listening.
func closesListener(e *Event, lis, server *Term) bool {
	if e.kind != EvCall || len(e.args) == 0 {
		return false
	}
	switch e.name {
	case "(net.Listener).Close", "(io.Closer).Close":
		return unIface(e.args[0]) == lis
	case "(*http.Server).Close", "(*http.Server).Shutdown":
		return server != nil && e.args[0] == server
	}
	return false
}

func (c *Ctx) watcher(a *Analysis, o *Outcome, l, serve *Event, lis, server, root *Term) {
	found := false
	for i, e := range o.evs {
		if closesListener(e, lis, server) && before(o, e, serve) && !e.defr {
			c.ob(false, "A15:early", e.pos, "the listener is closed before it is served")
		}
		var fn *ssa.Function
		var args []*Term
		implicit := (*Term)(nil)
		callee := e.callee
		switch {
		case e.kind == EvGo:
			fn, args = e.fn, e.args
			if fn == nil && callee != nil {
				fn = callee.fn
			}
		case e.kind == EvCall && e.name == "context.AfterFunc":
			callee, implicit = e.args[1], e.args[0]
			fn = callee.fn
		default:
			continue
		}
		if fn == nil || fn.Blocks == nil || !before(o, e, serve) {
			continue
		}
		g := newAnalysis(c.w)
		g.heap0 = localHeap(e.heap)
		g.facts0 = e.facts.lits
		if callee != nil && callee.op == OClosure {
			g.binds = callee.args
		}
		gouts := c.run(g, fn, args...)
		rel := false
		for _, b := range gouts {
			for _, x := range b.evs {
				rel = rel || closesListener(x, lis, server)
			}
		}
		if !rel {
			continue
		}
		found = true
		c.count("watchers", 1)
		c.watches(o, o.evs[i:], e, serve, gouts, lis, server, root, implicit)
	}
	c.ob(found, "A15:watch", serve.pos, "nothing closes the listener when the context is cancelled")
}

// watches: every path of the watcher waits, closes the listener, and ends.
func (c *Ctx) watches(o *Outcome, rest []*Event, start, serve *Event, gouts []*Outcome, lis, server, root, implicit *Term) {
	ended := func(ctx *Term) bool { // cancelled on the way out
		for ctx != nil {
			par, call := parentCtx(ctx)
			for _, e := range rest {
				if call != nil && e.kind == EvCall && e.callee != nil && e.callee == resAt(call, 1) && before(o, serve, e) {
					return true
				}
			}
			ctx = par
		}
		return false
	}
	closed := func(ch *Term) bool {
		for _, e := range rest {
			if e.kind == EvClose && e.args[0] == ch && before(o, serve, e) {
				return true
			}
		}
		return false
	}
	stopped := func(f *Term) bool {
		for _, e := range rest {
			if e.kind == EvCall && e.callee == f && before(o, serve, e) {
				return true
			}
		}
		return false
	}
	doneCtx := func(ch *Term) *Term {
		if ch.op == OCall && ch.str2() == "(context.Context).Done" {
			return ch.args[0]
		}
		return nil
	}
	stops := false
	for _, b := range gouts {
		if stuckAway(gouts, b) {
			continue
		}
		waited, fired, ends := implicit != nil, false, false
		if implicit != nil {
			fired = ctxChain(implicit, root)
			ends = ended(implicit) || stopped(start.res)
		}
		shut := false
		for _, e := range b.evs {
			var chs []*Term
			chosen := -1
			switch e.kind {
			case EvRecv:
				chs, chosen = []*Term{e.args[0]}, 0
			case EvSelect:
				for _, cs := range e.cases {
					chs = append(chs, cs.ch)
				}
				chosen = e.chosen
			}
			if closesListener(e, lis, server) {
				c.ob(fired, "A15:closes", e.pos, "the watcher closes the listener although the context is not cancelled")
				shut = true
			}
			if chs == nil {
				continue
			}
			waited = true
			isStop, isEnd := false, false
			for i, ch := range chs {
				x := doneCtx(ch)
				if x != nil && ctxChain(x, root) {
					isStop = true
					if i == chosen {
						fired = true
					}
				}
				if (x != nil && ended(x)) || closed(ch) {
					isEnd = true
					if i == chosen && !fired {
						ends = true
					}
				}
			}
			if !fired && !ends {
				c.ob(isStop, "A15:waits", e.pos, "the watcher waits for something that the end of the given context does not bring about")
			}
			if isStop {
				c.ob(isEnd || ends, "A15:leaks", e.pos, "the watcher keeps waiting after serving has ended")
			}
		}
		stops = stops || fired
		if b.kind == OutLoop {
			c.ob(!fired && !ends, "A15:again", b.pos, "the watcher goes on after its context has ended")
			continue
		}
		if c.ob(waited, "A15:nowait", b.pos, "the watcher does not wait") && fired {
			c.ob(shut, "A15:open", b.pos, "the watcher leaves the listener open when the context has ended")
		}
	}
	c.ob(stops, "A15:stop", start.pos, "the watcher does not wait for the given context")
}
