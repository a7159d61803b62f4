package main

// A10: the HTTP/1 handler.

import (
	"go/constant"
	"go/types"
	"net/http"
	"strings"
)

func init() {
	register("A10", "H1Handler.ServeHTTP is interpreted path by path with the actor kept opaque: which of method, body, parse, reply and error a path has seen is decided by its facts, and the path's calls on the response writer, in order, are compared with what that demands (one status, headers before it, body of the reply); the actor is fed once, with the parsed message and the trace id rule", checkA10)
}

// wop is something done to a response writer.
type wop struct {
	op        string // status, write, header, other
	code      *Term
	name, val *Term
	ev        *Event
	add       bool
}

func isHeaderOf(t, w *Term) bool {
	return t.op == OCall && t.str2() == "(http.ResponseWriter).Header" && t.args[0] == w
}

// wops are the uses of the response writer w among the events.
func wops(evs []*Event, w *Term) []wop {
	var r []wop
	for _, e := range evs {
		switch e.kind {
		case EvMapUpdate, EvMapDelete:
			if isHeaderOf(e.args[0], w) {
				x := wop{op: "header", ev: e, name: e.args[1]}
				if e.kind == EvMapUpdate {
					x.val = e.args[2]
				}
				r = append(r, x)
			}
			continue
		case EvCall, EvGo:
		default:
			continue
		}
		if len(e.args) == 0 {
			continue
		}
		uses := false
		for _, a := range e.args {
			if unIface(a) == w || isHeaderOf(a, w) {
				uses = true
			}
		}
		if !uses {
			continue
		}
		switch {
		case e.kind == EvGo:
			r = append(r, wop{op: "other", ev: e})
		case e.name == "(http.ResponseWriter).Header" || e.name == "(http.Header).Get" || e.name == "(http.Header).Values":
		case e.name == "(http.ResponseWriter).WriteHeader" && e.args[0] == w:
			r = append(r, wop{op: "status", ev: e, code: e.args[1]})
		case (e.name == "(http.ResponseWriter).Write" || e.name == "(io.Writer).Write" || e.name == "io.WriteString") && unIface(e.args[0]) == w:
			r = append(r, wop{op: "write", ev: e, val: e.args[1]})
		case (e.name == "fmt.Fprint" || e.name == "fmt.Fprintf" || e.name == "fmt.Fprintln") && unIface(e.args[0]) == w:
			r = append(r, wop{op: "write", ev: e, val: e.res})
		case e.name == "http.Error" && e.args[0] == w:
			r = append(r, wop{op: "status", ev: e, code: e.args[2]}, wop{op: "write", ev: e, val: e.args[1]})
		case e.name == "(http.Header).Set" || e.name == "(http.Header).Add":
			r = append(r, wop{op: "header", ev: e, name: e.args[1], val: e.args[2], add: strings.HasSuffix(e.name, "Add")})
		case e.name == "(http.Header).Del":
			r = append(r, wop{op: "header", ev: e, name: e.args[1]})
		default:
			r = append(r, wop{op: "other", ev: e})
		}
	}
	return r
}

type h1View struct {
	c          *Ctx
	f          actorFields
	a          *Analysis
	outs       []*Outcome
	self, w, r *Term
	seen       map[string]int
}

func (v *h1View) ob(ok bool, key string, o *Outcome, f string, args ...interface{}) bool {
	return v.c.ob(ok, "A10:"+key, o.pos, f, args...)
}

func ptrField(p *Term, name string) *Term {
	st := structOf(deref(p.typ))
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return tFieldAddr(p, name, types.NewPointer(st.Field(i).Type()))
		}
	}
	return nil
}

// nowField: field name of the struct p points to, just before the event.
func (c *Ctx) nowField(a *Analysis, e *Event, p *Term, name string) *Term {
	ad := ptrField(p, name)
	if ad == nil {
		c.fatal("anchor:field:"+name, "type %s has no field %s", tstr(p.typ), name)
	}
	return a.now(e, ad, deref(ad.typ))
}

func checkA10(c *Ctx) {
	v := &h1View{c: c, f: c.actorFields(), seen: map[string]int{}}
	v.a = newAnalysis(c.w, "(*jlibhttp.Actor).Feed", "jlib.ParseBytes", "jlib.MessageBytes")
	fn := c.method("jlibhttp", "H1Handler", "ServeHTTP")
	v.self = tSym("self", types.NewPointer(c.typ("jlibhttp", "H1Handler")))
	v.w, v.r = tSym("w", fn.Params[1].Type()), tSym("r", fn.Params[2].Type())
	v.outs = c.run(v.a, fn, v.self, v.w, v.r)
	for _, o := range v.outs {
		v.path(o)
	}
	for _, k := range []string{"method", "body", "parse", "none", "reply", "unencodable", "simple", "wrapped", "error"} {
		c.count("paths_"+k, v.seen[k])
		c.ob(v.seen[k] > 0, "A10:none", fn.Pos(), "no path handles the case %q", k)
	}
	// NewH1Handler serves the actor it is given
	c.site(fn.Pos(), "H1Handler.ServeHTTP")
}

// reads are the calls given the request body.
func (v *h1View) reads(o *Outcome) (es []*Event) {
	body := v.c.fieldOf(v.r, "Body")
	for _, e := range o.evs {
		if e.kind != EvCall {
			continue
		}
		for _, a := range e.args {
			if unIface(a) == body {
				es = append(es, e)
				break
			}
		}
	}
	return
}

func readAllEvent(e *Event, body *Term) (data func(t *Term) bool, err *Term) {
	switch e.name {
	case "(*bytes.Buffer).ReadFrom":
		if unIface(e.args[1]) != body || e.args[0].op != OAlloc {
			return nil, nil
		}
		buf := e.args[0]
		return func(t *Term) bool {
			return t.op == OCall && t.str2() == "(*bytes.Buffer).Bytes" && t.args[0] == buf
		}, extractErr(e.res, 1)
	case "io.ReadAll", "ioutil.ReadAll":
		if unIface(e.args[0]) != body {
			return nil, nil
		}
		return func(t *Term) bool { return t == tExtract(e.res, 0, t.typ) }, extractErr(e.res, 1)
	case "io.Copy":
		buf := unIface(e.args[0])
		if unIface(e.args[1]) != body || buf.op != OAlloc {
			return nil, nil
		}
		return func(t *Term) bool {
			return t.op == OCall && t.str2() == "(*bytes.Buffer).Bytes" && t.args[0] == buf
		}, extractErr(e.res, 1)
	}
	return nil, nil
}

func (v *h1View) path(o *Outcome) {
	f, w := o.facts, v.w
	ops := wops(o.evs, w)
	// order: nothing else happens to the response, headers precede the status,
	// the status is written once and outside loops
	var status []wop
	var writes []wop
	var heads []wop
	first := -1
	for i, x := range ops {
		switch x.op {
		case "status":
			if len(writes) > 0 {
				v.ob(false, "order", o, "a status is written after the body")
			}
			status = append(status, x)
			if first < 0 {
				first = i
			}
		case "write":
			writes = append(writes, x)
			if first < 0 {
				first = i
			}
		case "header":
			heads = append(heads, x)
			v.c.ob(first < 0, "A10:order", x.ev.pos, "a response header is set after the status was written")
		default:
			v.c.ob(false, "A10:other", x.ev.pos, "the response writer is given to %s", x.ev.name)
		}
	}
	if !v.ob(len(status) <= 1, "once", o, "%d statuses are written for one exchange", len(status)) {
		return
	}
	if o.kind == OutLoop {
		for _, x := range wops(o.evs[o.loop.nev:], w) {
			v.c.ob(x.op == "header", "A10:loop", x.ev.pos, "%s is repeated in a loop", x.op)
		}
		return
	}
	var feeds, parses []*Event
	for _, e := range o.evs {
		if e.kind == EvCall && isMeth(e.fn, "Actor", "Feed") {
			feeds = append(feeds, e)
		}
		if e.kind == EvCall && e.name == "jlib.ParseBytes" {
			parses = append(parses, e)
		}
		if e.kind == EvGo {
			v.ob(false, "go", o, "the exchange is handled in another goroutine")
		}
	}
	method := v.c.fieldOf(v.r, "Method")
	post := f.Val(tEq(method, tStr("POST")))
	code := func(n int64) bool {
		if len(status) == 0 {
			return n == 200
		}
		k, ok := constInt(status[0].code)
		return ok && k == n
	}
	if post != 1 {
		v.seen["method"]++
		v.ob(o.kind == OutReturn && post == 0 && len(feeds) == 0 && code(405), "method", o, "a request that is not (known to be) a POST is not answered with 405 and nothing else")
		return
	}
	if len(parses) == 0 {
		v.seen["body"]++
		failed := false
		for _, e := range v.reads(o) {
			if _, err := readAllEvent(e, v.c.fieldOf(v.r, "Body")); err != nil && isNil(f, err) == 0 {
				failed = true
			}
		}
		v.ob(o.kind == OutReturn && failed && len(feeds) == 0 && code(400), "body", o, "a POST whose body is not parsed is answered otherwise than with 400 for an unreadable body")
		return
	}
	if !v.ob(len(parses) == 1, "parseonce", o, "the body is parsed %d times", len(parses)) {
		return
	}
	p := parses[0]
	whole := false
	rds := v.reads(o)
	for _, e := range rds {
		if data, err := readAllEvent(e, v.c.fieldOf(v.r, "Body")); data != nil && data(p.args[0]) && isNil(p.facts, err) == 1 {
			whole = true
		}
	}
	v.ob(whole && len(rds) == 1, "whole", o, "what is parsed is not known to be the whole request body")
	msg, perr := tExtract(p.res, 0, p.res.typ), extractErr(p.res, 1)
	if tt, ok := p.res.typ.(*types.Tuple); ok {
		msg = tExtract(p.res, 0, tt.At(0).Type())
	}
	if isNil(f, perr) != 1 {
		v.seen["parse"]++
		v.ob(o.kind == OutReturn && isNil(f, perr) == 0 && len(feeds) == 0 && code(400), "parse", o, "an unparsable body is not answered with 400 and nothing else")
		return
	}
	if !v.ob(len(feeds) == 1, "feed", o, "the actor is fed %d times for one message", len(feeds)) {
		return
	}
	fe := feeds[0]
	v.ob(first < 0 || before(o, fe, ops[first].ev), "early", o, "a response is begun before the actor was fed")
	v.ob(fe.args[0] == v.c.fieldOf(v.self, "Actor"), "actor", o, "the actor fed is not the one of the handler")
	req := fe.args[1]
	v.ob(v.c.nowField(v.a, fe, req, v.f.msg) == msg, "msg", o, "the message fed is not the one parsed")
	v.ob(v.c.nowField(v.a, fe, req, v.f.httpReq) == v.r, "req", o, "the request fed does not carry the HTTP request")
	ctx := v.c.nowField(v.a, fe, req, v.f.ctx)
	v.ob(ctx.op == OCall && ctx.str2() == "(*http.Request).Context" && ctx.args[0] == v.r, "ctx", o, "the request fed does not carry the context of the HTTP request")
	// the trace id
	if ne := nextEvent(o, p); ne != nil {
		t0, t1 := v.a.now(ne, traceAddr(stripMsg(msg)), types.Typ[types.String]), v.a.now(fe, traceAddr(stripMsg(msg)), types.Typ[types.String])
		empty := fe.facts.Val(tEq(t0, tStr("")))
		hdr := func(t *Term) bool {
			return t.op == OCall && t.str2() == "(http.Header).Get" && t.args[0] == v.c.fieldOf(v.r, "Header") && constKey(t.args[1]) == "X-Trace-Id"
		}
		ok := false
		switch {
		case t1 == t0:
			ok = empty == 0
			if !ok {
				// the header is empty too
				for _, l := range fe.facts.lits {
					subterms(l.t, func(s *Term) bool {
						if hdr(s) && fe.facts.Val(tEq(s, tStr(""))) == 1 {
							ok = true
						}
						return true
					})
				}
			}
		default:
			ok = hdr(t1) && empty == 1
		}
		v.ob(ok, "trace", o, "the message fed does not get the trace id of the header exactly when it has none of its own")
	}
	tt := fe.res.typ.(*types.Tuple)
	res, err := tExtract(fe.res, 0, tt.At(0).Type()), extractErr(fe.res, 1)
	if isNil(f, err) != 1 {
		v.failed(o, err, status, writes, heads, code)
		return
	}
	switch isNil(f, res) {
	case -1:
		v.ob(false, "replied", o, "a path does not depend on whether there is a reply")
		return
	case 1:
		v.seen["none"]++
		none := true
		for _, x := range writes {
			none = none && emptyBytes(x.val)
		}
		v.ob(o.kind == OutReturn && code(200) && none, "none", o, "an exchange without reply is not answered with 200 and an empty body")
		return
	}
	if f.Implies(lit(tKind(msg, kReq), false)) {
		return // A01: only requests are replied to
	}
	if !v.ob(o.kind == OutReturn, "ends", o, "answering a reply ends in a %s", kindName(o.kind)) {
		return
	}
	v.ob(code(200), "status", o, "a reply is not sent with status 200")
	encs := callsNamed(o.evs, "jlib.MessageBytes")
	if !v.ob(len(writes) == 1, "write", o, "a reply is written in %d pieces", len(writes)) {
		return
	}
	data := writes[0].val
	var enc *Event
	for _, e := range encs {
		if data == tExtract(e.res, 0, data.typ) {
			enc = e
		}
	}
	if v.ob(enc != nil, "data", o, "what is written is not the encoding of a message") {
		if unIface(enc.args[0]) == unIface(res) {
			v.seen["reply"]++
			v.ob(isNil(f, extractErr(enc.res, 1)) == 1, "encoded", o, "the encoding of the reply is sent although it may have failed")
		} else {
			v.seen["unencodable"]++
			failed := false
			for _, e := range encs {
				if unIface(e.args[0]) == unIface(res) && isNil(f, extractErr(e.res, 1)) == 0 {
					failed = true
				}
			}
			v.ob(failed, "replaced", o, "a reply is replaced although its encoding may have succeeded")
			v.ob(v.c.isInternalErrorFor(v.a, o, unIface(enc.args[0]), msg, res), "replacement", o, "an unencodable reply is not replaced by an internal error with the id of the request")
		}
	}
	// headers
	ct, tr := "", (*Term)(nil)
	for _, x := range heads {
		switch constKey(x.name) {
		case "Content-Type":
			ct = ""
			if x.val != nil && x.val.op == OConst {
				ct = constStr(x.val)
			}
		case "X-Trace-Id":
			tr = x.val
			if tr == nil {
				tr = tNil
			}
		}
	}
	v.ob(ct == "application/json" || strings.HasPrefix(ct, "application/json;"), "type", o, "a reply is sent without content type application/json")
	if ne := nextEvent(o, fe); ne != nil {
		t := v.a.now(ne, traceAddr(stripMsg(res)), types.Typ[types.String])
		switch f.Val(tEq(t, tStr(""))) {
		case 1:
			v.ob(tr == nil || tr == t, "tracehead", o, "a reply without trace id gets an X-Trace-Id header")
		default:
			v.ob(tr == t, "tracehead", o, "a reply that may have a trace id is sent without it in X-Trace-Id")
		}
	}
}

func constKey(t *Term) string {
	if t == nil || t.op != OConst || t.val.Kind() != constant.String {
		return ""
	}
	return http.CanonicalHeaderKey(constStr(t))
}

// before: event x comes before y on the path.
func before(o *Outcome, x, y *Event) bool {
	for _, e := range o.evs {
		if e == x {
			return true
		}
		if e == y {
			return false
		}
	}
	return false
}

func nextEvent(o *Outcome, x *Event) *Event {
	for i, e := range o.evs {
		if e == x && i+1 < len(o.evs) {
			return o.evs[i+1]
		}
	}
	return nil
}

func emptyBytes(t *Term) bool {
	for t.op == OConv {
		t = t.args[0]
	}
	return t == tNil || isEmptyStr(t) || t.op == OZero || tLen(t) == tInt(0)
}

// isInternalErrorFor: m is an internal error message with the id of msg (or of its reply).
func (c *Ctx) isInternalErrorFor(a *Analysis, o *Outcome, m, msg, res *Term) bool {
	if m.op != OAlloc || msgTypeName(m.typ) != "ErrorMessage" {
		return false
	}
	id := c.acc(o, m, "MustId")
	e := c.acc(o, m, "MustError")
	if id == nil || e == nil {
		return false
	}
	code, _, _ := c.bodyOf(a, o, e)
	n, ok := c.codeOf(code)
	return ok && n == -32603 && (id == msgField(msg, "Id") || id == msgField(res, "Id"))
}

// failed: the actor returned an error.
func (v *h1View) failed(o *Outcome, err *Term, status, writes, heads []wop, code func(int64) bool) {
	f := o.facts
	if !v.ob(isNil(f, err) == 0, "err", o, "a path does not depend on whether the actor returned an error") {
		return
	}
	if !v.ob(o.kind == OutReturn, "ends", o, "answering an error ends in a %s", kindName(o.kind)) {
		return
	}
	ss, sf := asErr(o, err, "jlibhttp", "SimpleResponse")
	ws, wf := asErr(o, err, "jlibhttp", "WrappedResponse")
	switch {
	case ss == 1:
		v.seen["simple"]++
		ok := len(status) == 1 && len(writes) == 1
		if ok {
			ok = false
			for _, t := range sf {
				ok = ok || status[0].code == v.c.fieldOf(t, "Code") && writes[0].val == v.c.fieldOf(t, "Body")
			}
		}
		v.ob(ok, "simple", o, "a simple response error is not answered with its code and body")
	case ws == 1:
		v.seen["wrapped"]++
		ok := len(status) == 1 && len(writes) == 1
		if ok {
			ok = false
			for _, t := range wf {
				resp := v.c.fieldOf(t, "Response")
				if status[0].code == v.c.fieldOf(resp, "StatusCode") && writes[0].val == v.c.fieldOf(t, "Body") && v.copiesHeader(o, v.c.fieldOf(resp, "Header")) {
					ok = true
				}
			}
		}
		v.ob(ok, "wrapped", o, "a wrapped response error is not answered with its status, headers and body")
	default:
		v.seen["error"]++
		v.ob(ss == 0 && ws == 0, "class", o, "an error is answered without looking for the response it may carry")
		v.ob(code(500), "error", o, "an error is not answered with 500")
	}
}

// copiesHeader: every value of the header map h was added to the response header.
func (v *h1View) copiesHeader(o *Outcome, h *Term) bool {
	return copiesTo(v.outs, o, func(m *Term) bool { return m == h }, func(evs []*Event) []wop { return wops(evs, v.w) }) != nil
}

// rangeOf: the key and value of the iteration of pass mp that b is.
func rangeOf(b *Outcome, mp *MapPass) (k, v *Term) {
	for _, l := range b.facts.lits {
		if l.val && l.t.op == ORangeOk && l.t.args[0].args[0] == mp.k.args[0].args[0] && strings.Contains(l.t.str, mp.loop.key) {
			return rangeKey(l.t), rangeVal(l.t)
		}
	}
	return nil, nil
}
