package main

// A11: what reads a session's connection; A13: what writes it.

import (
	"go/constant"
	"go/types"
	"strings"
)

// ends of the session, as seen by its goroutines

// finishes: the event reports to the waiting handler that the session is over.
func (v *sessView) finishes(e *Event) bool {
	switch e.kind {
	case EvSend, EvClose:
		return e.args[0] == v.done
	case EvSelect:
		has := false
		for i, cs := range e.cases {
			switch {
			case cs.send && cs.ch == v.done:
				has = true
				if i == e.chosen {
					return true
				}
			case !cs.send && v.isEndedDone(cs.ch):
				if i == e.chosen {
					has = true
				}
			default:
				return false
			}
		}
		if e.chosen < 0 {
			// the queue of reports is full: one is being taken
			return has && v.done.op == OMake && len(v.done.args) > 0 && v.done.args[0].op == OConst && constant.Sign(v.done.args[0].val) > 0
		}
		return has
	case EvCall:
		if e.dyn && e.callee.op == OExtract && e.callee.n == 1 {
			_, call := parentCtx(tExtract(e.callee.args[0], 0, nil))
			return call != nil && v.waitsFor(call)
		}
		return v.isClosing(e)
	}
	return false
}

// isClosing: the event closes the connection, which ends its reader.
func (v *sessView) isClosing(e *Event) bool {
	return v.typ == "WS" && e.kind == EvCall && !e.defr && e.name == "(*websocket.Conn).Close" && e.args[0] == v.conn
}

// waitsFor: the handler's wait ends when the context made by call is cancelled.
func (v *sessView) waitsFor(call *Term) bool {
	for _, o := range v.outs {
		for _, e := range o.evs {
			if e.kind != EvSelect {
				continue
			}
			for _, cs := range e.cases {
				if !cs.send && cs.ch.op == OCall && cs.ch.str2() == "(context.Context).Done" && v.ctxFrom(cs.ch.args[0], func(t *Term) bool {
					_, c := parentCtx(t)
					return c == call
				}) {
					return true
				}
			}
		}
	}
	return false
}

func (v *sessView) finished(evs []*Event) bool {
	for _, e := range evs {
		if v.finishes(e) {
			return true
		}
	}
	return false
}

// queued: the sends of messages to the queue of the session.
func (v *sessView) queued(evs []*Event) (r []*Event, vals []*Term) {
	for _, e := range evs {
		switch e.kind {
		case EvSend:
			if e.args[0] == v.queue {
				r, vals = append(r, e), append(vals, unIface(e.args[1]))
			}
		case EvSelect:
			for _, cs := range e.cases {
				if cs.send && cs.ch == v.queue {
					r, vals = append(r, e), append(vals, unIface(cs.val))
				}
			}
		}
	}
	return
}

// waitingSend: the select sends to the queue unless the session has ended.
func (v *sessView) waitingSend(e *Event) bool {
	if e.kind == EvSend {
		return true
	}
	for _, cs := range e.cases {
		if cs.send && cs.ch == v.queue || !cs.send && v.isEndedDone(cs.ch) {
			continue
		}
		return false
	}
	return e.chosen >= 0
}

func isFeed(e *Event) bool { return e.kind == EvCall && isMeth(e.fn, "Actor", "Feed") }

// ---- A11

func (v *sessView) reader() {
	served := map[*gor]bool{}
	reads, errs, texts, others := 0, 0, 0, 0
	for _, g := range v.gors {
		if !g.reads || g.start == nil || g.parent != nil {
			continue
		}
		served[g] = true
		for _, o := range g.outs {
			if stuckAway(g.outs, o) {
				continue
			}
			evs := o.evs
			if o.kind == OutLoop {
				evs = o.evs[o.loop.nev:]
			}
			var rd []int
			for i, e := range evs {
				if v.isRead(e) {
					rd = append(rd, i)
				}
			}
			if len(rd) == 0 {
				for _, e := range evs {
					v.ob("A11", !isFeed(e) && e.kind != EvGo, "unread", e.pos, "a message is handled that was not read")
				}
				if o.kind == OutReturn {
					ended := v.finished(o.evs)
					for _, e := range o.evs {
						ended = ended || v.chosenEnd(e)
					}
					v.ob("A11", ended || v.ctxErr(o), "stops", o.pos, "the reader stops without an error and without reporting the end of the session")
				}
				continue
			}
			for k, i := range rd {
				end := len(evs)
				if k+1 < len(rd) {
					end = rd[k+1]
				}
				v.oneRead(g, o, evs[i], evs[i+1:end], k+1 < len(rd), served, &errs, &texts, &others)
				reads++
			}
		}
	}
	v.ob("A11", errs > 0 && texts > 0, "cases", v.first.pos, "no goroutine reads and handles messages")
	v.ob("A11", v.typ != "WS" || others > 0, "nontext", v.first.pos, "frames that are not text are handled like text")
	v.c.count("reads", reads)
	// nobody else feeds the actor, and nothing in use is stored to
	for _, o := range v.outs {
		gp := goPos(o)
		for i, e := range o.evs {
			v.ob("A11", !isFeed(e), "feeds", e.pos, "the handler feeds the actor itself")
			if e.kind == EvCall && e.fn == nil && len(e.args) > 0 && strings.HasPrefix(e.name, "(") && !strings.HasPrefix(e.name, "(*") {
				v.ob("A11", isNil(e.facts, e.args[0]) != 1, "nothing", e.pos, "a session is made although its writer cannot be used: %s is called on nothing", e.name)
			}
			if gp >= 0 && i > gp {
				v.stored(e, "the handler")
			}
		}
	}
	for _, g := range v.gors {
		for _, o := range g.outs {
			for _, e := range o.evs {
				v.stored(e, g.name)
				if !served[g] {
					v.ob("A11", !isFeed(e), "feeds", e.pos, "%s feeds the actor with something that was not read", g.name)
				}
			}
		}
	}
	for what, ch := range map[string]*Term{"queue": v.queue, "done": v.done} {
		v.ob("A11", ch.op == OMake, what, v.first.pos, "the goroutines of a session communicate over %s, which is no channel made for it", ch)
	}
	v.waits("A11")
}

func (v *sessView) stored(e *Event, who string) {
	if e.kind != EvStore || e.args[0].op != OFieldAddr || e.args[0].args[0] != v.sess {
		return
	}
	switch u := deref(e.args[0].typ).Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsNumeric != 0 {
			return
		}
	}
	v.ob("A11", false, "cleared", e.pos, "%s stores to field %s of a session whose goroutines are running", who, e.args[0].str)
}

// ctxErr: a context of the session is known to be over.
func (v *sessView) ctxErr(o *Outcome) bool {
	for _, e := range o.evs {
		if e.kind == EvCall && e.name == "(context.Context).Err" && v.ended(e.args[0]) && isNil(o.facts, e.res) == 0 {
			return true
		}
	}
	return false
}

func (v *sessView) oneRead(g *gor, o *Outcome, rd *Event, rest []*Event, more bool, served map[*gor]bool, errs, texts, others *int) {
	f := o.facts
	v.ob("A11", rd.args[0] == v.conn, "conn", rd.pos, "the reader reads %s, not the connection of the session", rd.args[0])
	nerr := 1
	if v.typ == "WS" {
		nerr = 2
	}
	if rd.name != "(*websocket.Conn).ReadMessage" && rd.name != "jlib.DecodeMessage" {
		v.ob("A11", false, "how", rd.pos, "messages are read with %s, which is not understood", rd.name)
		return
	}
	switch isNil(f, extractErr(rd.res, nerr)) {
	case 0:
		*errs++
		v.ob("A11", o.kind == OutReturn && !more, "readerr", rd.pos, "the reader goes on after an error")
		v.ob("A11", v.finished(rest) || v.ctxErr(o), "readerr", rd.pos, "the session does not end when reading fails")
		for _, e := range rest {
			v.ob("A11", !isFeed(e) && e.kind != EvGo, "readerr", e.pos, "something is handled after reading failed")
		}
		return
	case -1:
		v.ob("A11", false, "readerr", rd.pos, "an error of the reader may go unseen")
		return
	}
	var raw, msg *Term
	if v.typ == "WS" {
		raw = tExtract(rd.res, 1, types.NewSlice(types.Typ[types.Byte]))
		switch f.Val(tEq(tExtract(rd.res, 0, types.Typ[types.Int]), tInt(1))) {
		case 0:
			*others++
			for _, e := range rest {
				v.ob("A11", !isFeed(e) && e.kind != EvGo && e.name != "jlib.ParseBytes" && !v.finishes(e), "nontext", e.pos, "a frame that is not text is handled")
			}
			v.ob("A11", o.kind == OutLoop || more, "nontext", rd.pos, "the reader stops at a frame that is not text")
			return
		case -1:
			v.ob("A11", false, "nontext", rd.pos, "a path does not depend on whether a frame is text")
			return
		}
	} else {
		msg = tExtract(rd.res, 0, v.c.typ("jlib", "Message"))
	}
	*texts++
	v.serve(g, g.a, o, rest, raw, msg, served, 0)
	// a session that was not ended goes on reading
	if !v.finished(rest) {
		ended := false
		for _, e := range rest {
			ended = ended || v.chosenEnd(e)
		}
		v.ob("A11", o.kind == OutLoop || more || ended || o.kind == OutPanic, "goeson", rd.pos, "the reader stops after a message that did not end the session")
	}
}

// serve: the events handle the message read, once.
func (v *sessView) serve(g *gor, a *Analysis, o *Outcome, evs []*Event, raw, msg *Term, served map[*gor]bool, depth int) {
	if o.kind == OutPanic {
		return
	}
	f := o.facts
	if msg == nil {
		ps := callsNamed(evs, "jlib.ParseBytes")
		if len(ps) > 0 {
			if !v.ob("A11", len(ps) == 1 && ps[0].args[0] == raw, "parse", ps[0].pos, "what is parsed is not what was read, once") {
				return
			}
			switch isNil(f, extractErr(ps[0].res, 1)) {
			case 0:
				v.ob("A11", v.finished(evs), "parseerr", o.pos, "text that does not parse does not end the session")
				for _, e := range evs {
					v.ob("A11", !isFeed(e) && e.kind != EvGo, "parseerr", e.pos, "something is handled although parsing failed")
				}
				return
			case -1:
				v.ob("A11", false, "parseerr", o.pos, "a parse error may go unseen")
				return
			}
			msg = tExtract(ps[0].res, 0, v.c.typ("jlib", "Message"))
		}
	}
	var feeds, gos []*Event
	for _, e := range evs {
		if isFeed(e) {
			feeds = append(feeds, e)
		}
		if e.kind == EvGo {
			gos = append(gos, e)
		}
	}
	if o.kind == OutLoop && g.start != nil && depth > 0 {
		v.ob("A11", len(feeds) == 0, "feedloop", o.pos, "one message is fed in a loop")
		return
	}
	if len(gos) == 1 && len(feeds) == 0 {
		n := 0
		for _, h := range v.gors {
			if h.start == nil || h.parent != g || h.start.instr != gos[0].instr || !sameTerms(h.start.args, gos[0].args) || !sameCallee(h.start, gos[0]) {
				continue
			}
			n++
			served[h] = true
			for _, p := range h.outs {
				v.serve(h, h.a, p, p.evs, raw, msg, served, depth+1)
			}
		}
		v.ob("A11", n > 0, "handled", gos[0].pos, "what the goroutine that handles a message does is not known")
		_, vals := v.queued(evs)
		v.ob("A11", len(vals) == 0 && !v.finished(evs), "handled", gos[0].pos, "a message handled in its own goroutine is replied to, or ends the session, elsewhere too")
		return
	}
	if !v.ob("A11", len(feeds) == 1 && len(gos) == 0, "once", o.pos, "a message read is fed to the actor %d times", len(feeds)+len(gos)) {
		return
	}
	e := feeds[0]
	if !v.ob("A11", msg != nil, "parse", e.pos, "the actor is fed without parsing what was read") {
		return
	}
	v.ob("A11", e.args[0] == v.c.fieldOf(v.self, "Actor"), "actor", e.pos, "%s is fed, not the actor of the handler", e.args[0])
	req := e.args[1]
	fld := func(name string) *Term { return unIface(v.c.nowField(a, e, req, name)) }
	v.ob("A11", fld(v.f.msg) == msg, "message", e.pos, "the request fed does not carry the message read")
	v.ob("A11", fld(v.f.session) == v.sess, "session", e.pos, "the request fed does not carry the session it came from")
	v.ob("A11", fld(v.f.httpReq) == v.r, "httpreq", e.pos, "the request fed does not carry the HTTP request of the session")
	v.ob("A11", v.ctxFrom(fld(v.f.ctx), func(t *Term) bool { return isReqCtx(t, v.r) }), "ctx", e.pos, "the context of the request fed is not derived from that of the connection")
	rest := evs
	for i, x := range evs {
		if x == e {
			rest = evs[i+1:]
		}
	}
	qs, vals := v.queued(evs)
	switch isNil(f, extractErr(e.res, 1)) {
	case 0:
		v.ob("A11", v.finished(rest), "feederr", e.pos, "an error of the actor does not end the session")
		v.ob("A11", len(vals) == 0, "feederr", e.pos, "something is replied although the actor failed")
		return
	case -1:
		v.ob("A11", false, "feederr", e.pos, "an error of the actor may go unseen")
		return
	}
	v.ob("A11", !v.finished(evs), "ok", e.pos, "a message that was handled well ends the session")
	res := tExtract(e.res, 0, v.c.typ("jlib", "Message"))
	switch isNil(f, res) {
	case 1:
		v.ob("A11", len(vals) == 0, "none", e.pos, "something is replied although there is no reply")
	case 0:
		if v.ob("A11", len(vals) == 1 && vals[0] == unIface(res), "reply", e.pos, "the reply of the actor is not queued once on the session") {
			v.ob("A11", v.waitingSend(qs[0]), "reply", qs[0].pos, "a reply may be dropped while the session lives")
		}
	default:
		v.ob("A11", false, "none", e.pos, "a path does not depend on whether there is a reply")
	}
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameCallee(a, b *Event) bool { return a.fn == b.fn && a.callee == b.callee }

// ---- A13

// byteParts splits what is written into the pieces it is the concatenation of.
func byteParts(t *Term) []*Term {
	t = unConv(t)
	switch t.op {
	case OAppend:
		if t.str == "..." {
			return append(byteParts(t.args[0]), byteParts(t.args[1])...)
		}
		if t.str == "" {
			return append(byteParts(t.args[0]), byteParts(mk(OSliceLit, t.typ, "", 0, t.args[1:]...))...)
		}
	case OSliceLit:
		s := ""
		for _, x := range t.args {
			if x.op != OConst || x.val.Kind() != constant.Int {
				return []*Term{t}
			}
			n, _ := constant.Int64Val(x.val)
			s += string(rune(n))
		}
		return []*Term{tStr(s)}
	case OBin:
		if t.str == "+" {
			return append(byteParts(t.args[0]), byteParts(t.args[1])...)
		}
	}
	return []*Term{t}
}

func (v *sessView) writer() {
	nok, nrep, nskip, nstop := 0, 0, 0, 0
	for _, g := range v.gors {
		for _, o := range g.outs {
			for _, e := range o.evs {
				tk, _ := v.taken(e)
				v.ob("A13", tk == nil || g.writes, "takes", e.pos, "%s takes messages from the queue but does not write them", g.name)
			}
		}
		if !g.writes {
			continue
		}
		for _, o := range g.outs {
			if stuckAway(g.outs, o) {
				continue
			}
			evs := o.evs
			if o.kind == OutLoop {
				evs = o.evs[o.loop.nev:]
			}
			var ms, oks []*Term
			at := 0
			for i, e := range evs {
				if m, ok := v.taken(e); m != nil {
					ms, oks = append(ms, m), append(oks, ok)
					at = i
				}
			}
			if len(ms) == 0 || len(ms) == 1 && o.facts.Val(oks[0]) == 0 {
				for _, e := range evs {
					v.ob("A13", !v.isWrite(e), "nothing", e.pos, "something is written that was not queued")
				}
				if o.kind == OutReturn {
					nstop++
					ok := len(ms) == 1
					for _, e := range evs {
						ok = ok || v.chosenEnd(e)
					}
					v.ob("A13", ok || v.ctxErr(o) || v.noConn(o), "stops", o.pos, "the writer stops although the session has not ended")
				}
				continue
			}
			if !v.ob("A13", len(ms) == 1, "two", o.pos, "several messages are taken from the queue before one is written") {
				continue
			}
			rest := evs[at+1:]
			if v.noConn(o) {
				continue // unreachable: the connection is there before the goroutines run
			}
			k := v.oneWrite(g, o, ms[0], rest)
			switch k {
			case "ok":
				nok++
			case "replaced":
				nrep++
			case "skipped":
				nskip++
			}
		}
	}
	v.ob("A13", nok > 0 && nrep > 0 && nstop > 0, "cases", v.first.pos, "no goroutine writes messages and replaces unencodable ones")
	v.c.count("writes", nok+nrep)
	// Send, and whatever else queues
	n := 0
	for _, g := range v.gors {
		for _, o := range g.outs {
			qs, vals := v.queued(o.evs)
			if g.name == "method Send" && o.kind == OutReturn {
				arg := tSym(g.fn.Params[1].Name(), g.fn.Params[1].Type())
				gave := false
				for _, e := range o.evs {
					gave = gave || v.chosenEnd(e)
				}
				if gave && len(qs) == 0 || v.ctxErr(o) {
					continue
				}
				if v.ob("A13", len(qs) == 1 && vals[0] == unIface(arg), "send", g.fn.Pos(), "Send does not queue its message once") {
					v.ob("A13", v.waitingSend(qs[0]), "senddrop", qs[0].pos, "Send may drop a message while the session lives")
					n++
				}
			}
			for _, q := range qs {
				ok := false
				for _, cs := range q.cases {
					ok = ok || !cs.send && v.isEndedDone(cs.ch)
				}
				v.ob("A13", ok || q.kind == EvSelect && q.chosen < 0, "blocks", q.pos, "sending to a session that has ended may block for ever")
			}
		}
	}
	v.ob("A13", n > 0, "send", v.first.pos, "no path of Send queues a message")
}

// taken: the message an event takes from the queue, and whether it was open.
func (v *sessView) taken(e *Event) (m, ok *Term) {
	switch {
	case e.kind == EvRecv && e.args[0] == v.queue:
	case e.kind == EvSelect && e.chosen >= 0 && !e.cases[e.chosen].send && e.cases[e.chosen].ch == v.queue:
	default:
		return nil, nil
	}
	if e.res == nil {
		return nil, nil
	}
	return e.res, mk(ORecvOk, types.Typ[types.Bool], e.res.str, 0, v.queue)
}

// noConn: the path is only taken when the session has no connection.
func (v *sessView) noConn(o *Outcome) bool { return isNil(o.facts, v.conn) == 1 }

func (v *sessView) oneWrite(g *gor, o *Outcome, m *Term, evs []*Event) string {
	f := o.facts
	var encs, wr, fl []*Event
	for _, e := range evs {
		switch {
		case e.kind == EvCall && e.name == "jlib.MessageBytes":
			encs = append(encs, e)
		case e.kind == EvCall && e.name == "(http.Flusher).Flush":
			fl = append(fl, e)
		case v.isWrite(e):
			wr = append(wr, e)
		}
	}
	var own, sub *Event
	for _, e := range encs {
		if unIface(e.args[0]) == unIface(m) {
			own = e
		} else {
			sub = e
		}
	}
	if !v.ob("A13", own != nil, "encodes", o.pos, "a message is taken from the queue and not encoded") {
		return ""
	}
	enc, kind := own, "ok"
	switch isNil(f, extractErr(own.res, 1)) {
	case -1:
		v.ob("A13", false, "encerr", own.pos, "a message may be written although encoding it failed")
		return ""
	case 0:
		reply := f.Implies(lit(tKind(m, kRes|kErr), true))
		if f.Implies(lit(tKind(m, kRes|kErr), false)) {
			v.ob("A13", len(wr) == 0, "skip", own.pos, "something is written for a message that is no reply and cannot be encoded")
			v.ob("A13", o.kind == OutLoop, "skip", own.pos, "the writer stops at a message that cannot be encoded")
			return "skipped"
		}
		if len(wr) == 0 {
			if o.kind == OutPanic {
				v.ob("A13", false, "panic", o.pos, "the writer panics at a message that cannot be encoded")
				return ""
			}
			v.ob("A13", o.kind == OutLoop, "goeson", own.pos, "the writer stops at a message that cannot be encoded")
			v.ob("A13", sub != nil && isNil(f, extractErr(sub.res, 1)) == 0, "answered", own.pos, "a reply that cannot be encoded is not answered")
			if sub != nil {
				v.ob("A13", v.c.isInternalErrorFor(g.a, o, unIface(sub.args[0]), m, m), "internal", sub.pos, "a reply that cannot be encoded is replaced by something else than an internal error with its id")
			}
			return "skipped"
		}
		v.ob("A13", reply, "kind", own.pos, "a path does not depend on whether the message that cannot be encoded is a reply")
		if !v.ob("A13", sub != nil, "answered", own.pos, "a reply that cannot be encoded is answered with %s", wr[0].args[len(wr[0].args)-1]) {
			return ""
		}
		v.ob("A13", v.c.isInternalErrorFor(g.a, o, unIface(sub.args[0]), m, m), "internal", sub.pos, "a reply that cannot be encoded is replaced by something else than an internal error with its id")
		if !v.ob("A13", isNil(f, extractErr(sub.res, 1)) == 1, "encerr", sub.pos, "the replacement of a reply may be written although encoding it failed") {
			return ""
		}
		enc, kind = sub, "replaced"
	}
	v.c.safeEvents("A13:"+v.typ+":safe", []*Outcome{o}, EvAssert, EvDeref)
	if o.kind == OutPanic {
		v.ob("A13", false, "panic", o.pos, "the writer panics")
		return ""
	}
	if !v.ob("A13", len(wr) > 0, "writes", o.pos, "a message is taken from the queue and not written") {
		return ""
	}
	data := tExtract(enc.res, 0, types.NewSlice(types.Typ[types.Byte]))
	failed, unsure := false, false
	var parts []*Term
	for _, e := range wr {
		n := -1
		switch e.name {
		case "(*websocket.Conn).WriteMessage":
			v.ob("A13", e.args[0] == v.conn && f.Val(tEq(e.args[1], tInt(1))) == 1, "frame", e.pos, "a message is not written as a text frame of the connection")
			parts = append(parts, byteParts(e.args[2])...)
			n = 0
		case "(io.Writer).Write", "(http.ResponseWriter).Write":
			v.ob("A13", unIface(e.args[0]) == v.w, "frame", e.pos, "a message is not written to the response")
			parts = append(parts, byteParts(e.args[1])...)
			n = 1
		case "io.WriteString":
			v.ob("A13", unIface(e.args[0]) == v.w, "frame", e.pos, "a message is not written to the response")
			parts = append(parts, byteParts(e.args[1])...)
			n = 1
		case "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint":
			v.ob("A13", unIface(e.args[0]) == v.w, "frame", e.pos, "a message is not written to the response")
			parts = append(parts, printParts(e)...)
			n = 1
		default:
			v.ob("A13", false, "frame", e.pos, "a message is written with %s, which is not understood", e.name)
			return ""
		}
		er := e.res
		if n > 0 || e.res.op == OTuple {
			er = extractErr(e.res, n)
		}
		switch isNil(f, er) {
		case 0:
			failed = true
		case -1:
			unsure = true
		}
	}
	if failed {
		return "failed" // the connection is broken; stopping and going on are both in order
	}
	want := []*Term{data}
	if v.typ == "H2" {
		want = append(want, tStr("\n"))
	} else {
		v.ob("A13", len(wr) == 1, "frames", wr[0].pos, "a message is written in %d frames", len(wr))
	}
	ok := len(parts) == len(want)
	for i := 0; ok && i < len(want); i++ {
		ok = parts[i] == want[i] || parts[i].op == OConst && want[i].op == OConst && constStr(parts[i]) == constStr(want[i])
	}
	v.ob("A13", ok, "data", wr[0].pos, "what is written is not exactly the encoding of the message")
	if v.typ == "H2" {
		v.ob("A13", len(fl) > 0 && before(o, wr[len(wr)-1], fl[len(fl)-1]), "flush", wr[0].pos, "a message written is not flushed")
	}
	_ = unsure
	v.ob("A13", o.kind == OutLoop, "goeson", wr[0].pos, "the writer stops after a message that was written")
	return kind
}

// printParts: what a call of a fmt.Fprint function writes.
func printParts(e *Event) []*Term {
	var vals []*Term
	i := 1
	format := ""
	if e.name == "fmt.Fprintf" {
		if e.args[1].op != OConst {
			return []*Term{e.res}
		}
		format = constStr(e.args[1])
		i = 2
	}
	if i < len(e.args) && e.args[i].op == OSliceLit {
		for _, a := range e.args[i].args {
			vals = append(vals, unConv(unIface(a)))
		}
	}
	var r []*Term
	if e.name == "fmt.Fprintf" {
		for k, s := range strings.Split(format, "%s") {
			if k > 0 {
				if k > len(vals) {
					return []*Term{e.res}
				}
				r = append(r, vals[k-1])
			}
			if s != "" {
				r = append(r, tStr(s))
			}
		}
		return r
	}
	r = vals
	if e.name == "fmt.Fprintln" {
		r = append(r, tStr("\n"))
	}
	return r
}
