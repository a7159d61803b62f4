package main

import (
	"go/types"
	"strings"
)

// ---- K11: connecting a streaming client

func init() {
	register("K11", "Connect of every transport is interpreted path by path: it makes one attempt, on the caller's context, and succeeds exactly on the paths whose facts say the server accepted (dial error nil; for HTTP/2 error nil and status 200), closing a refused response; afterwards what WriteMessage writes to and ReadMessage reads from are the two ends of that very attempt. Connect, Send and Call of StreamingClient hand their own context to the transport and return its error", checkK11)
}

func isCtxT(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Context" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "context"
}

func checkK11(c *Ctx) {
	c.k11stream()
	c.k11transport("WSClient")
	c.k11transport("H2Client")
}

// k11stream: the context given reaches the transport, its error comes back.
func (c *Ctx) k11stream() {
	self := tSym("self", types.NewPointer(c.typ("jlibhttp", "StreamingClient")))
	for _, m := range []string{"Connect", "Send", "Call"} {
		fn := c.method("jlibhttp", "StreamingClient", m)
		c.site(fn.Pos(), "StreamingClient."+m)
		ps := []*Term{self}
		var ctx *Term
		for _, p := range fn.Params[1:] {
			x := tSym(p.Name(), p.Type())
			if ctx == nil && isCtxT(p.Type()) {
				ctx = x
			}
			ps = append(ps, x)
		}
		if ctx == nil {
			c.fatal("K11:ctx", "StreamingClient.%s takes no context", m)
		}
		a := newAnalysis(c.w, "(*jlibhttp.StreamingClient).Log", "jlib.NewUuid")
		n, bad := 0, 0
		outs := c.run(a, fn, ps...)
		for _, o := range outs {
			if stuckAway(outs, o) || o.kind == OutLoop {
				continue
			}
			for _, e := range callsNamed(o.evs, trans+"Connect") {
				n++
				c.ob(ctxChain(e.args[1], ctx) && untimed(e.args[1]), "K11:"+m+":ctx", e.pos, "%s connects the transport with %s, not with the context it was given", m, e.args[1])
				if o.kind == OutReturn && isNil(o.facts, e.res) != 1 {
					bad++
					r := o.rets[len(o.rets)-1]
					c.ob(c.isErr(o.facts, r), "K11:"+m+":error", o.pos, "%s goes on although the transport did not connect", m)
				}
			}
		}
		c.count("stream_connects", n)
		c.ob(n > 0 && bad > 0, "K11:"+m+":none", fn.Pos(), "%s never connects the transport, or never fails when it cannot", m)
	}
}

// k11transport: one transport's Connect.
func (c *Ctx) k11transport(client string) {
	a, outs, self, _, _, _, fn := c.transportRun("", client)
	var ctx *Term
	for i, p := range fn.Params[1:] {
		if isCtxT(p.Type()) {
			ctx = a.Params[i+1]
		}
	}
	if ctx == nil {
		c.fatal("K11:ctx", "Connect of the %s's transport takes no context", client)
	}
	key := func(s string) string { return "K11:" + client + ":" + s }
	writes, reads := c.k11uses(self, client)
	ok, failed, refused := 0, 0, 0
	for _, o := range outs {
		if stuckAway(outs, o) || o.kind == OutLoop {
			continue
		}
		if !c.ob(o.kind == OutReturn, key("ends"), o.pos, "Connect ends in a %s", kindName(o.kind)) {
			continue
		}
		f := o.facts
		var at []*Event
		for _, e := range o.evs {
			if (e.kind == EvCall || e.kind == EvGo) && (strings.HasPrefix(e.name, "(*websocket.Dialer).Dial") || e.name == "websocket.NewClient" || httpSends[e.name]) {
				at = append(at, e)
			}
		}
		ret := o.rets[0]
		good := isNil(f, ret) == 1
		c.ob(good || c.isErr(f, ret), key("known"), o.pos, "whether Connect fails is not known: it returns %s", ret)
		if len(at) == 0 {
			// something before the attempt failed
			c.ob(!good, key("attempt"), o.pos, "Connect succeeds without having connected")
			continue
		}
		if !c.ob(len(at) == 1, key("attempt"), o.pos, "Connect makes %d attempts", len(at)) {
			continue
		}
		e := at[0]
		switch client {
		case "WSClient":
			if !c.ob(e.name == "(*websocket.Dialer).DialContext" && ctxChain(e.args[1], ctx), key("ctx"), e.pos, "the WebSocket handshake does not end with the context given (%s)", e.name) {
				continue
			}
			err := resAt(e.res, 2)
			if isNil(f, err) != 1 {
				failed++
				c.ob(!good, key("failed"), o.pos, "Connect succeeds although the handshake may have failed")
				continue
			}
			refused++
			ok++
			c.ob(good, key("ok"), o.pos, "Connect fails although the server accepted")
			for _, n := range append(append([]string{}, writes...), reads...) {
				x := c.fget(a, o, self, n)
				c.ob(x == resAt(e.res, 0), key("conn"), o.pos, "%s is used as the connection, but is %s", n, x)
			}
		case "H2Client":
			if !c.ob(e.name == "(*http.Client).Do", key("attempt"), e.pos, "the stream is opened with %s", e.name) {
				continue
			}
			base, rctx := c.k11request(o, e.args[1])
			if !c.ob(rctx != nil && ctxChain(rctx, ctx) && untimed(rctx), key("ctx"), e.pos, "opening the HTTP/2 stream does not end with the context given") {
				continue
			}
			// nothing but the caller ends the context of the open stream
			for cx := rctx; cx != nil && cx != ctx; {
				par, w := parentCtx(cx)
				if par == nil {
					if cx.op == OCall && cx.str2() == "context.WithValue" {
						cx = cx.args[0]
						continue
					}
					break
				}
				c.ob(!strings.HasSuffix(w.str2(), "WithTimeout") && !strings.HasSuffix(w.str2(), "WithDeadline"), key("limit"), e.pos, "the open stream ends when a time limit passes")
				for _, x := range o.evs {
					if x.kind == EvCall && x.callee == resAt(w, 1) {
						c.ob(!good, key("cancelled"), x.pos, "the context of the stream is cancelled although it is open")
					}
				}
				cx = par
			}
			resp, err := resAt(e.res, 0), resAt(e.res, 1)
			if isNil(f, err) != 1 {
				failed++
				c.ob(!good, key("failed"), o.pos, "Connect succeeds although the request may have failed")
				continue
			}
			is200 := f.Val(tEq(c.fieldOf(resp, "StatusCode"), tInt(200)))
			if is200 != 1 {
				refused++
				c.ob(!good && is200 == 0, key("refused"), o.pos, "Connect succeeds although the server may have answered with another status than 200, or refuses a 200")
				closed := false
				for _, x := range o.evs {
					closed = closed || x.kind == EvCall && strings.HasSuffix(x.name, ".Close") && len(x.args) > 0 && unIface(x.args[0]) == c.fieldOf(resp, "Body")
				}
				c.ob(closed, key("close"), o.pos, "the response of a refused stream is not closed")
				continue
			}
			ok++
			c.ob(good, key("ok"), o.pos, "Connect fails although the server accepted")
			if !good {
				continue
			}
			body := c.k11body(a, o, e, base)
			for _, n := range writes {
				x := unIface(c.fget(a, o, self, n))
				c.ob(body != nil && callTerm(pipeOf(x, 1), "io.Pipe") && pipeOf(x, 1) == pipeOf(unIface(body), 0), key("writer"), o.pos, "messages are written to %s, which is not the body of the request", x)
			}
			for _, n := range reads {
				x := unIface(c.fget(a, o, self, n))
				src := x
				for callTerm(src, "json.NewDecoder", "bufio.NewReader", "bufio.NewReaderSize") {
					src = unIface(src.args[0])
				}
				c.ob(src == c.fieldOf(resp, "Body"), key("reader"), o.pos, "messages are read from %s, which is not the body of the response", x)
			}
		}
	}
	c.count("connected:"+client, ok)
	c.ob(ok > 0 && failed > 0 && refused > 0, key("none"), fn.Pos(), "Connect has no path that succeeds, fails or is refused")
	c.ob(len(writes) > 0 && len(reads) > 0, key("uses"), fn.Pos(), "what the %s's transport reads and writes is not known", client)
}

// pipeOf: the call that x is the i-th result of.
func pipeOf(x *Term, i int) *Term {
	if x != nil && x.op == OExtract && x.n == i {
		return x.args[0]
	}
	return nil
}

// k11request: the request sent, as made, and its context.
func (c *Ctx) k11request(o *Outcome, req *Term) (base, ctx *Term) {
	for req.op == OCall && (req.str2() == "(*http.Request).WithContext" || req.str2() == "(*http.Request).Clone") {
		if ctx == nil {
			ctx = req.args[1]
		}
		req = req.args[0]
	}
	if call, cx, _, _, _ := requestOf(req); call != nil && ctx == nil {
		ctx = cx
	}
	return req, ctx
}

// k11body: the body of the request when e sends it.
func (c *Ctx) k11body(a *Analysis, o *Outcome, e *Event, base *Term) *Term {
	if call, _, _, _, body := requestOf(base); call != nil {
		return body
	}
	at := e
	for _, x := range o.evs {
		if x.kind == EvCall && x.args != nil && len(x.args) > 0 && x.args[0] == base && (x.name == "(*http.Request).WithContext" || x.name == "(*http.Request).Clone") {
			at = x
		}
	}
	return c.nowField(a, at, base, "Body")
}

// k11uses: the fields of the transport that messages are written to and read
// from.
func (c *Ctx) k11uses(self *Term, client string) (writes, reads []string) {
	t := deref(self.typ)
	st := structOf(t)
	use := func(m string, opaque ...string) []string {
		fn := c.methOf(self.typ, m)
		a := newAnalysis(c.w, append(opaque, "(*jlibhttp.StreamingClient).Log")...)
		ps := []*Term{self}
		for _, p := range fn.Params[1:] {
			ps = append(ps, tSym(p.Name(), p.Type()))
		}
		got := map[string]bool{}
		for _, o := range c.run(a, fn, ps...) {
			for _, e := range o.evs {
				if e.kind != EvCall || len(e.args) == 0 {
					continue
				}
				io := e.name == "jlib.DecodeMessage" || strings.HasPrefix(e.name, "(") || strings.HasPrefix(e.name, "io.") || strings.HasPrefix(e.name, "fmt.Fprint")
				if !io {
					continue
				}
				for i := 0; i < st.NumFields(); i++ {
					fl := st.Field(i)
					if isPtrTo(fl.Type(), "jlibhttp", client) {
						continue
					}
					if unIface(e.args[0]) == c.fieldOf(self, fl.Name()) && !strings.HasSuffix(e.name, ".Flush") && !strings.HasSuffix(e.name, "InputOffset") {
						got[fl.Name()] = true
					}
				}
			}
		}
		var r []string
		for i := 0; i < st.NumFields(); i++ {
			if got[st.Field(i).Name()] {
				r = append(r, st.Field(i).Name())
			}
		}
		return r
	}
	return use("WriteMessage", "jlib.MessageBytes"), use("ReadMessage", "jlib.ParseBytes", "jlib.DecodeMessage")
}
