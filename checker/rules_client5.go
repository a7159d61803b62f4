package main

import (
	"go/types"
	"strings"
)

// ---- K12: how the end of a streaming connection is reported

func init() {
	register("K12", "Wait and CloseChannel are interpreted: without a close channel Wait returns nil, with one it returns the one value it receives from it and from nothing else; every path that reports on the close channel forgets it. Connect, ReadMessage and WriteMessage of every transport are interpreted path by path: the error returned is TransportClosed or TransportConnectFailed exactly where the facts about the underlying error (errors.Is, errors.As, its text) allow it, and wraps the underlying error everywhere else; DecodeMessage returns the reader's own error", checkK12)
}

func checkK12(c *Ctx) {
	v := c.clientView("K12")
	v.waiters()
	for _, t := range v.transports() {
		v.endings(t)
	}
	// the end of the input is seen through DecodeMessage
	fn := c.fn("jlib", "DecodeMessage")
	a := newAnalysis(c.w)
	n := 0
	for _, o := range c.run(a, fn) {
		ds := callsNamed(o.evs, "(*json.Decoder).Decode")
		if o.kind != OutReturn || len(ds) == 0 || ds[0].args[0] != a.Params[0] || isNil(o.facts, ds[0].res) == 1 {
			continue
		}
		n++
		c.ob(wraps(o.rets[1], ds[0].res), "K12:decode", o.pos, "DecodeMessage hides the reader's error: it returns %s", o.rets[1])
	}
	c.ob(n > 0, "K12:decode", fn.Pos(), "DecodeMessage has no path for a failing reader")
}

func (v *cliView) waiters() {
	c := v.c
	fn := c.method("jlibhttp", "StreamingClient", "Wait")
	c.site(fn.Pos(), "StreamingClient.Wait")
	_, outs := v.run(fn, nil, v.self)
	with, without := 0, 0
	for _, o := range outs {
		if !v.ob(o.kind == OutReturn, "wait", o, "Wait ends in a %s", kindName(o.kind)) {
			continue
		}
		var recvs []*Event
		for _, e := range o.evs {
			switch e.kind {
			case EvRecv:
				recvs = append(recvs, e)
			case EvSelect:
				v.obe(false, "wait:only", e, "Wait waits for something else than the close channel")
			}
		}
		if len(recvs) == 0 {
			without++
			none := false
			for _, l := range o.facts.lits {
				if l.val && l.t.op == OBin && l.t.str == "==" {
					none = none || l.t.args[0] == tNil && v.isField(l.t.args[1], v.fClose) || l.t.args[1] == tNil && v.isField(l.t.args[0], v.fClose)
				}
			}
			for _, e := range callsNamed(o.evs, trans+"Connected") {
				none = none || o.facts.Val(e.res) == 0
			}
			v.ob(none, "wait:early", o, "Wait may return although the connection has not ended")
			v.ob(isNil(o.facts, o.rets[0]) == 1, "wait:none", o, "Wait on a client without a connection returns %s", o.rets[0])
			continue
		}
		with++
		v.ob(len(recvs) == 1 && v.isField(recvs[0].args[0], v.fClose), "wait:channel", o, "Wait does not receive once from the close channel")
		v.ob(isNil(o.facts, recvs[0].args[0]) == 0, "wait:ever", o, "Wait waits for ever on a client that is not connected")
		v.ob(o.rets[0] == recvs[0].res, "wait:error", o, "Wait returns %s, not the error reported", o.rets[0])
	}
	c.ob(with > 0 && without > 0, "K12:wait:cases", fn.Pos(), "Wait does not tell connected from unconnected clients")
	fn = c.method("jlibhttp", "StreamingClient", "CloseChannel")
	c.site(fn.Pos(), "StreamingClient.CloseChannel")
	_, outs = v.run(fn, nil, v.self)
	for _, o := range outs {
		v.ob(o.kind == OutReturn && v.isField(o.rets[0], v.fClose), "closechannel", o, "CloseChannel does not return the close channel")
	}
	// whoever reports forgets the channel; ends with room are made by Connect (K07)
	n := 0
	fn = c.method("jlibhttp", "StreamingClient", "Reset")
	err := tSym("err", errType)
	_, outs = v.run(fn, nil, v.self, err)
	roots := [][]*Outcome{outs}
	for _, g := range v.gors {
		roots = append(roots, g.outs)
	}
	for _, outs := range roots {
		for _, o := range outs {
			last, forgot := -1, -1
			for i, e := range o.evs {
				if e.kind == EvSend && v.isField(e.args[0], v.fClose) {
					last = i
				}
				if e.kind == EvStore && v.isFieldAddr(e.args[0], v.fClose) && isNil(e.facts, e.args[1]) == 1 {
					forgot = i
				}
			}
			if last < 0 {
				continue
			}
			n++
			v.ob(forgot >= 0 && (forgot > last || v.sameSection(o, o.evs[forgot], o.evs[last], v.lock)), "once", o, "the end of a connection may be reported twice")
		}
	}
	c.ob(n > 0, "K12:once", fn.Pos(), "the end of a connection is never reported")
	c.count("reports", n)
}

// wraps: er is in the chain of r.
func wraps(r, er *Term) bool {
	for r != nil {
		r = unIface(r)
		if r == unIface(er) {
			return true
		}
		if r.op != OCall || len(r.args) == 0 {
			return false
		}
		switch r.str2() {
		case "errors.Wrap", "errors.Wrapf", "errors.WithMessage", "errors.WithMessagef", "errors.WithStack":
			r = r.args[0]
		case "fmt.Errorf":
			if f := constStr(r.args[0]); !strings.Contains(f, "%w") || len(r.args) < 2 {
				return false
			}
			for _, x := range r.args[1].args {
				if wraps(x, er) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func isGlobalErr(t *Term, name string) bool {
	t = unIface(t)
	return t != nil && t.op == ODeref && t.args[0].op == OGlobal && strings.HasSuffix(t.args[0].str, "."+name)
}

// about: what the facts say about an error: is it the end of input, is it of
// one of the error types asked for; positive when anything was recognised.
func about(c *Ctx, o *Outcome, er *Term) (eof int, as map[string]int, positive bool) {
	eof, as = -1, map[string]int{}
	for _, e := range o.evs {
		if e.kind != EvCall || e.res == nil {
			continue
		}
		val := o.facts.Val(e.res)
		switch e.name {
		case "errors.Is":
			if !wraps(er, e.args[0]) && !wraps(e.args[0], er) {
				continue
			}
			if x := unIface(e.args[1]); x.op == ODeref && x.args[0].op == OGlobal && x.args[0].str == "io.EOF" {
				eof = val
			}
		case "errors.As":
			if !wraps(er, e.args[0]) && !wraps(e.args[0], er) {
				continue
			}
			if t, ok := unIface(e.args[1]).typ.(*types.Pointer); ok {
				as[tstr(t.Elem())] = val
			}
		case "strings.Contains", "strings.HasSuffix", "strings.HasPrefix", "os.IsTimeout":
			mentions := false
			for _, s := range subtermsOf(e.args[0]) {
				mentions = mentions || s == unIface(er) || s == er
			}
			if !mentions {
				continue
			}
		default:
			continue
		}
		positive = positive || val == 1
	}
	eofT := mk(ODeref, errType, "", 0, mk(OGlobal, types.NewPointer(errType), "io.EOF", 0))
	for _, l := range o.facts.lits {
		if l.t.op != OBin || l.t.str != "==" {
			continue
		}
		x, y := unIface(l.t.args[0]), unIface(l.t.args[1])
		isE := func(t *Term) bool { return t == eofT || isGlobalErr(t, "EOF") }
		if x == unIface(er) && isE(y) || y == unIface(er) && isE(x) {
			if l.val {
				eof, positive = 1, true
			} else if eof < 0 {
				eof = 0
			}
		}
	}
	return
}

func subtermsOf(t *Term) (r []*Term) {
	subterms(t, func(x *Term) bool { r = append(r, x); return true })
	return
}

// endings: the errors of one transport.
func (v *cliView) endings(t *types.Named) {
	c := v.c
	name := t.Obj().Name()
	self := tSym("self", types.NewPointer(t))
	recognised, kept, absent := 0, 0, 0
	for _, m := range []string{"Connect", "ReadMessage", "WriteMessage"} {
		fn := c.methOf(self.typ, m)
		a := newAnalysis(c.w, "jlib.ParseBytes", "jlib.MessageBytes", "jlib.DecodeMessage", "(*jlibhttp.StreamingClient).Log")
		if m != "Connect" {
			a.volatile = v.changing(t)
			a.guarded = v.guards(t, a.volatile)
		}
		c.site(fn.Pos(), name+"."+m)
		for _, o := range c.run(a, fn, self) {
			if o.kind != OutReturn {
				continue
			}
			r := o.rets[len(o.rets)-1]
			if isNil(o.facts, r) == 1 {
				continue
			}
			// the operation that failed
			var er *Term
			var op *Event
			for _, e := range o.evs {
				if e.kind != EvCall || e.res == nil {
					continue
				}
				var x *Term
				switch {
				case e.name == "jlib.ParseBytes" || e.name == "jlib.MessageBytes" || e.name == "jlib.DecodeMessage" || strings.HasSuffix(e.name, ").Write") || httpSends[e.name] || strings.HasPrefix(e.name, "fmt.Fprint") || e.name == "io.WriteString":
					x = resAt(e.res, 1)
				case strings.HasPrefix(e.name, "(*websocket.Dialer).Dial"), e.name == "(*websocket.Conn).ReadMessage", e.name == "websocket.NewClient":
					x = resAt(e.res, 2)
				case e.name == "(*websocket.Conn).WriteMessage":
					x = e.res
				}
				if x != nil && isNil(o.facts, x) != 1 {
					er, op = x, e
				}
			}
			if er == nil {
				if m != "Connect" {
					absent++
					v.ob(isGlobalErr(r, "TransportClosed"), name+":absent", o, "%s.%s without a connection reports %s", name, m, r)
				}
				// otherwise: a refusal, decided by K11
				continue
			}
			eof, as, positive := about(c, o, er)
			closed, refused := isGlobalErr(r, "TransportClosed"), isGlobalErr(r, "TransportConnectFailed")
			if eof == 1 {
				recognised++
				v.ob(closed, name+":eof", o, "%s.%s reports %s when %s meets the end of the connection", name, m, r, op.name)
			}
			if closed || refused {
				v.ob(positive, name+":hides", o, "%s.%s reports that the connection ended, whatever error %s gave", name, m, op.name)
			} else {
				kept++
				v.ob(wraps(r, er), name+":chain", o, "%s.%s drops the error of %s and returns %s", name, m, op.name, r)
				isIO := op.name != "jlib.ParseBytes" && op.name != "jlib.MessageBytes" && m != "Connect"
				v.ob(!isIO || eof == 0, name+":eof", o, "%s.%s does not tell the end of the connection from other errors of %s", name, m, op.name)
			}
			if strings.Contains(op.name, "websocket.Conn") {
				x, asked := as["*websocket.CloseError"]
				if asked && x == 1 {
					v.ob(closed, name+":closeframe", o, "%s.%s reports %s for a websocket close", name, m, r)
				}
				v.ob(closed || asked && x == 0, name+":closeframe", o, "%s.%s does not tell a websocket close from other errors", name, m)
			}
			if strings.Contains(op.name, "websocket.Dialer") {
				x, asked := as["*net.OpError"]
				if asked && x == 1 {
					recognised++
					v.ob(refused, name+":refused", o, "%s.%s reports %s when the server cannot be reached", name, m, r)
				}
				v.ob(refused || asked && x == 0, name+":refused", o, "%s.%s does not tell that the server cannot be reached", name, m)
			}
		}
	}
	c.count("recognised_ends", recognised)
	c.ob(recognised > 0 && kept > 0 && absent > 0, "K12:"+name+":cases", t.Obj().Pos(), "%s has no path for the end of the connection, for other errors or for a missing connection", name)
}

// ---- K13: a streaming connection ends with its context

func init() {
	register("K13", "Connect and the goroutines it starts are interpreted: the context of a connection is a cancellable child of the one given, its cancel function is what ending the connection calls; in the goroutines that read and write, whatever may block watches that context, every read and write follows a check that it lives, a path that finds it done ends the connection, touches the transport no more and returns, and a path returns for no other reason than that, a failure, or a transport that is gone", checkK13)
}

func checkK13(c *Ctx) {
	v := c.clientView("K13")
	canc := c.nowField(v.a, v.start, v.self, v.fCanc)
	var conn *Term
	if canc != nil && canc.op == OExtract && canc.n == 1 && canc.args[0].op == OCall && canc.args[0].str2() == "context.WithCancel" {
		for _, o := range v.outs {
			for _, e := range o.evs {
				if e.kind != EvCall || e.name != "context.WithCancel" || e.res == nil {
					continue
				}
				if x := resAt(e.res, 0); x != nil && x.op == OExtract && x.args[0] == canc.args[0] {
					conn = x
				}
			}
		}
	}
	var root *Term
	for _, p := range v.a.Params {
		if isCtxT(p.typ) {
			root = p
		}
	}
	if !c.ob(conn != nil && root != nil && ctxChain(conn, root) && untimed(conn), "K13:context", v.start.pos, "a connection's cancel function is %s, not that of a child of the context given to Connect", canc) {
		return
	}
	ended, checked := 0, 0
	for _, reads := range []bool{true, false} {
		g := v.loopOf(reads)
		op, who := trans+"WriteMessage", "the writer"
		if reads {
			op, who = trans+"ReadMessage", "the reader"
		}
		for _, o := range g.outs {
			if stuckAway(g.outs, o) {
				continue
			}
			evs := iteration(o)
			isErr := func(e *Event) bool {
				return e.kind == EvCall && e.name == "(context.Context).Err" && ctxChain(e.args[0], conn)
			}
			isDone := func(cs *Term) bool {
				return cs != nil && cs.op == OCall && cs.str2() == "(context.Context).Done" && ctxChain(cs.args[0], conn)
			}
			end, op1, live, failed, gone := -1, -1, -1, false, false
			for i, e := range evs {
				switch {
				case e.kind == EvSelect:
					watched := false
					for _, cs := range e.cases {
						watched = watched || !cs.send && isDone(cs.ch)
					}
					v.obe(watched || poll(e) || v.report(e), "watch", e, "%s waits without watching the context of its connection", who)
					live = -1
					if e.chosen < 0 && watched {
						live = i
					}
					if e.chosen >= 0 && !e.cases[e.chosen].send {
						if isDone(e.cases[e.chosen].ch) && end < 0 {
							end = i
						}
						// a queue closed under the writer
						if e.res != nil {
							ok := mk(ORecvOk, types.Typ[types.Bool], e.res.str, 0, e.cases[e.chosen].ch)
							gone = gone || o.facts.Val(ok) == 0
						}
					}
				case e.kind == EvRecv:
					v.obe(isDone(e.args[0]), "watch", e, "%s waits without watching the context of its connection", who)
					if isDone(e.args[0]) && end < 0 {
						end = i
					}
					live = -1
				case isErr(e):
					switch isNil(o.facts, e.res) {
					case 0:
						if end < 0 {
							end = i
						}
					case 1:
						live = i
					}
				case e.kind == EvCall && e.name == trans+"Connected":
					gone = gone || o.facts.Val(e.res) == 0
				case e.kind == EvCall && e.name == op:
					if op1 < 0 {
						op1 = i
					}
					checked++
					v.obe(live >= 0, "check", e, "%s uses the transport without having checked that its connection has not ended", who)
					v.obe(end < 0, "after", e, "%s uses the transport although its connection has ended", who)
					k := e.res
					if reads {
						k = resAt(e.res, 2)
					}
					failed = failed || isNil(o.facts, k) == 0
				}
			}
			if end >= 0 && op1 < 0 {
				ended++
				if v.ob(o.kind == OutReturn, "goeson", o, "%s goes on after its connection has ended", who) && v.current(o, g) != 0 {
					v.resets(who, o, evs[end:], nil)
				}
				continue
			}
			if o.kind == OutReturn {
				v.ob(end >= 0 || failed || gone, "stops", o, "%s stops although its connection lives", who)
			}
		}
	}
	c.count("ends", ended)
	c.count("operations", checked)
	c.ob(ended >= 2 && checked > 0, "K13:cases", v.start.pos, "no loop ever finds that its connection has ended")
}

// report: a select that hands over the error of the connection.
func (v *cliView) report(e *Event) bool {
	for _, cs := range e.cases {
		if cs.send && v.isField(cs.ch, v.fClose) {
			return true
		}
	}
	return false
}
