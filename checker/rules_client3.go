package main

// K01: the client factory. K02: the HTTP/1 client. K03: what reaches the
// transports. K06: UnwrapCall.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("K01", "NewClient and the client constructors are interpreted path by path; the scheme classes each path's facts allow must all demand the client type returned, the scheme its URL ends up with and whether it uses h2c; stores through the caller's URL are violations", checkK01)
	register("K02", "H1Client.Call and Send are interpreted with the codec opaque; every path's request (method, URL, body, trace header, context) and outcome is compared with what its facts about encoding, sending, status, body and reply demand; body close and the restored trace id are read off the path's events and final memory", checkK02)
	register("K03", "the HTTP client, dialer and request every connection goes through are traced back to locally allocated objects carrying the client's own TLS configuration, headers and timeout, on every path; header copying is decided by loop induction; stores through package-level values of other packages are violations anywhere in the module", checkK03)
	register("K06", "UnwrapCall of every client is interpreted with Call opaque: a decision table over the call's error, the reply's kind and the decoding error; the output reaches the decoder only", checkK06)
}

// ---- shared

// resAt: result n of a call with several.
func resAt(call *Term, n int) *Term {
	tup, ok := call.typ.(*types.Tuple)
	if !ok || n >= tup.Len() {
		return nil
	}
	return tExtract(call, n, tup.At(n).Type())
}

// readOf: the type-selected field that t is the value of, read through self
// (and values embedded in it).
func readOf(t, self *Term, is func(types.Type) bool) bool {
	if t == nil || t.op != ODeref || t.args[0].op != OFieldAddr || !is(t.typ) {
		return false
	}
	for a := t.args[0]; a != nil; {
		switch a.op {
		case OFieldAddr:
			a = a.args[0]
		case ODeref:
			a = a.args[0]
		default:
			return a == self
		}
		if a == self {
			return true
		}
	}
	return false
}

func isHeaderT(t types.Type) bool { return isNamed(t, "http", "Header") }
func isTLST(t types.Type) bool    { return isPtrTo(t, "tls", "Config") }
func isURLT(t types.Type) bool    { return isPtrTo(t, "url", "URL") }

// cloneOf: t, or what t is a clone of.
func cloneOf(t *Term) *Term {
	if t != nil && t.op == OCall && (t.str2() == "(http.Header).Clone" || t.str2() == "(*tls.Config).Clone") {
		return t.args[0]
	}
	return t
}

// hdrOps are the uses of a header map among the events.
func hdrOps(evs []*Event, is func(*Term) bool) (r []wop) {
	for _, e := range evs {
		switch e.kind {
		case EvMapUpdate:
			if is(e.args[0]) {
				r = append(r, wop{op: "header", ev: e, name: e.args[1], val: e.args[2]})
			}
		case EvMapDelete:
			if is(e.args[0]) {
				r = append(r, wop{op: "header", ev: e, name: e.args[1]})
			}
		case EvCall:
			if len(e.args) == 0 || !is(e.args[0]) {
				continue
			}
			switch e.name {
			case "(http.Header).Set", "(http.Header).Add":
				r = append(r, wop{op: "header", ev: e, name: e.args[1], val: e.args[2], add: strings.HasSuffix(e.name, "Add")})
			case "(http.Header).Del":
				r = append(r, wop{op: "header", ev: e, name: e.args[1]})
			}
		}
	}
	return r
}

// copiesTo: a loop that o has passed adds every value of every header of src;
// the loop is returned.
func copiesTo(outs []*Outcome, o *Outcome, src func(*Term) bool, ops func([]*Event) []wop) *LoopInfo {
	for _, mp := range mapPasses(outs, o, src) {
		all := true
		for _, b := range mp.backs {
			k, vals := mp.k, mp.v
			if kk, vv := rangeOf(b, mp); kk != nil {
				k, vals = kk, vv
			}
			ok := false
			for _, x := range ops(b.evs[b.loop.nev:]) {
				if x.op != "header" || x.ev.kind != EvMapUpdate || x.name != k {
					continue
				}
				if x.val == vals || x.val.op == OAppend && x.val.str == "..." && x.val.args[1] == vals {
					ok = true
				}
			}
			for _, vs := range append([]*Term{vals}, lookups(b, src, k)...) {
				ok = ok || forAll(outs, b, tLen(vs), func(bb *Outcome, idx *Term) bool {
					n := 0
					for _, x := range ops(bb.evs[bb.loop.nev:]) {
						if x.op == "header" && x.add && x.name == k && (x.val == elem(vs, idx) || isElemOf(x.val, src, k, idx)) {
							n++
						} else {
							return false
						}
					}
					return n == 1
				})
			}
			all = all && ok
		}
		if all && len(mp.backs) > 0 {
			return mp.loop
		}
	}
	return nil
}

// ---- K01

// schemes are the classes of URL scheme and what they demand.
var schemes = []struct{ s, client, final string }{
	{"http", "H1Client", "http"}, {"https", "H1Client", "https"},
	{"ws", "WSClient", "ws"}, {"wss", "WSClient", "wss"},
	{"h2", "H2Client", "https"}, {"h2c", "H2Client", "http"},
	{"", "", ""},
}

// urlCopy: t is u itself or a copy of it, whatever its scheme.
func (c *Ctx) urlCopy(a *Analysis, o *Outcome, t, u *Term) bool {
	if t == u {
		return true
	}
	if t.op == OExtract && t.n == 0 && callTerm(t.args[0], "url.Parse") {
		s := t.args[0].args[0]
		return callTerm(s, "(*url.URL).String") && s.args[0] == u
	}
	if t.op != OAlloc {
		return false
	}
	st := structOf(deref(t.typ))
	for i := 0; i < st.NumFields(); i++ {
		n := st.Field(i).Name()
		if n != "Scheme" && c.fget(a, o, t, n) != c.fieldOf(u, n) {
			return false
		}
	}
	return true
}

// aScheme is the scheme of u as read from u or from a parsed copy of it: its
// value is that of u's scheme at first, or what had been stored there by the
// time of the copy (a constant).
type aScheme struct {
	S     *Term
	fixed string
	isFix bool
}

func (s aScheme) of(class string) string {
	if s.isFix {
		return s.fixed
	}
	return class
}

func (c *Ctx) copiedSchemes(a *Analysis, o *Outcome, u *Term) []aScheme {
	first := c.fieldOf(u, "Scheme")
	r := []aScheme{{S: first}}
	for _, e := range o.evs {
		if e.kind != EvCall || e.name != "url.Parse" || !callTerm(e.args[0], "(*url.URL).String") || e.args[0].args[0] != u {
			continue
		}
		x := aScheme{S: c.fieldOf(resAt(e.res, 0), "Scheme")}
		now := first
		for _, s := range o.evs {
			if s == e {
				break
			}
			if s.kind == EvCall && s.res == e.args[0] {
				now = c.nowField(a, s, u, "Scheme")
			}
		}
		switch {
		case now == first:
		case now.op == OConst:
			x.fixed, x.isFix = constStr(now), true
		default:
			continue
		}
		r = append(r, x)
	}
	return r
}

// copyFailed: on this path a copy of an already parsed URL failed to parse.
func copyFailed(o *Outcome) bool {
	for _, e := range o.evs {
		if e.kind == EvCall && e.name == "url.Parse" && callTerm(e.args[0], "(*url.URL).String") && isNil(o.facts, extractErr(e.res, 1)) == 0 {
			return true
		}
	}
	return false
}

func (c *Ctx) urlField(typ string) string {
	return c.fieldByType(c.typ("jlibhttp", typ), "the server URL", isURLT)
}

// clientURL: the URL in the client's memory at the end of the path.
func (c *Ctx) clientURL(a *Analysis, o *Outcome, cl *Term, typ string) *Term {
	if typ == "H1Client" {
		return c.fget(a, o, cl, c.urlField("H1Client"))
	}
	sc := ptrField(cl, "StreamingClient")
	return c.fget(a, o, sc, c.urlField("StreamingClient"))
}

// clientOf: the concrete client a value is.
func clientOf(t *Term) (*Term, string) {
	t = unIface(t)
	for _, n := range []string{"H1Client", "WSClient", "H2Client"} {
		if isPtrTo(t.typ, "jlibhttp", n) {
			return t, n
		}
	}
	return nil, ""
}

func checkK01(c *Ctx) {
	fn := c.fn("jlibhttp", "NewClient")
	c.site(fn.Pos(), "NewClient")
	a := newAnalysis(c.w)
	url := tSym("serverUrl", fn.Params[0].Type())
	ps := []*Term{url}
	for _, p := range fn.Params[1:] {
		ps = append(ps, tSym(p.Name(), p.Type()))
	}
	seen := map[string]int{}
	outs := c.run(a, fn, ps...)
	for _, o := range outs {
		if o.kind == OutLoop || stuckAway(outs, o) || copyFailed(o) {
			continue
		}
		var parse *Event
		for _, e := range o.evs {
			if e.kind == EvCall && (e.name == "url.Parse" || e.name == "url.ParseRequestURI") && e.args[0] == url {
				parse = e
			}
		}
		if !c.ob(parse != nil, "K01:parse", o.pos, "NewClient does not parse the URL") {
			continue
		}
		u, perr := resAt(parse.res, 0), extractErr(parse.res, 1)
		if isNil(o.facts, perr) != 1 {
			seen["unparsable"]++
			c.ob(o.kind == OutReturn && isNil(o.facts, perr) == 0 && c.isErr(o.facts, o.rets[1]), "K01:unparsable", o.pos, "an unparsable URL does not give an error")
			continue
		}
		var cl *Term
		var typ string
		var U *Term
		inits := c.copiedSchemes(a, o, u)
		for _, e := range o.evs {
			if e.kind == EvStore && rootOf(e.args[0]) == u && e.args[0] != ptrField(u, "Scheme") {
				c.ob(a.now(e, e.args[0], deref(e.args[0].typ)) == e.args[1], "K01:url", e.pos, "NewClient changes the URL given")
			}
		}
		if o.kind == OutReturn {
			if cl, typ = clientOf(o.rets[0]); cl != nil {
				U = c.clientURL(a, o, cl, typ)
				c.ob(c.urlCopy(a, o, U, u), "K01:url", o.pos, "the client connects to %s, not to the URL given", U)
			}
		}
		for _, k := range schemes {
			f := inClass(o.facts, inits, k.s)
			if f == nil {
				continue
			}
			seen["scheme:"+k.s]++
			if !c.ob(o.kind == OutReturn, "K01:ends", o.pos, "NewClient ends with a %s for the scheme %q", kindName(o.kind), k.s) {
				continue
			}
			if k.client == "" {
				c.ob(c.isErr(o.facts, o.rets[1]), "K01:other", o.pos, "an unsupported scheme does not give an error")
				continue
			}
			c.ob(isNil(o.facts, o.rets[1]) == 1 && typ == k.client, "K01:type:"+k.s, o.pos, "the scheme %q gives %s, not the %s", k.s, o.rets[0], k.client)
			if typ == k.client {
				c.scheme(a, o, f, cl, U, inits, k.s, k.final)
			}
		}
	}
	for _, k := range schemes {
		c.ob(seen["scheme:"+k.s] > 0, "K01:none", fn.Pos(), "no path handles the scheme %q", k.s)
	}
	c.ob(seen["unparsable"] > 0, "K01:none", fn.Pos(), "no path handles an unparsable URL")
	// the constructors, with a URL of the caller's
	for _, n := range []string{"H1Client", "WSClient", "H2Client"} {
		c.ctor(n)
	}
}

// inClass: the facts together with the scheme being s, if that is possible.
func inClass(f *Facts, inits []aScheme, s string) *Facts {
	for _, k := range schemes {
		if k.s == "" {
			continue
		}
		for _, S := range inits {
			f = f.with(lit(tEq(S.S, tStr(k.s)), k.s == S.of(s)))
		}
	}
	if !f.Consistent() {
		return nil
	}
	return f
}

// scheme: what the client's URL and h2c setting end up as.
func (c *Ctx) scheme(a *Analysis, o *Outcome, f *Facts, cl, U *Term, inits []aScheme, s, final string) {
	got := c.fget(a, o, U, "Scheme")
	ok := got.op == OConst && constStr(got) == final
	for _, S := range inits {
		ok = ok || got == S.S && S.of(s) == final
	}
	c.ob(ok, "K01:scheme:"+s, o.pos, "for the scheme %q the client connects over %s, not %s", s, got, final)
	if _, typ := clientOf(cl); typ == "H2Client" {
		h := c.fget(a, o, cl, "UseH2C")
		want := 0
		if s == "h2c" {
			want = 1
		}
		c.ob(f.Val(h) == want, "K01:h2c:"+s, o.pos, "for the scheme %q the client's cleartext setting is %s", s, h)
	}
}

func (c *Ctx) ctor(n string) {
	fn := c.fn("jlibhttp", "New"+n)
	c.site(fn.Pos(), "New"+n)
	var ps []*Term
	var u *Term
	for _, p := range fn.Params {
		t := tSym(p.Name(), p.Type())
		if isURLT(p.Type()) {
			u = t
		}
		ps = append(ps, t)
	}
	if u == nil {
		c.fatal("K01:anchor", "New%s takes no URL", n)
	}
	a := newAnalysis(c.w)
	outs := c.run(a, fn, ps...)
	for _, o := range outs {
		for _, e := range o.evs {
			if e.kind == EvStore {
				c.ob(rootOf(e.args[0]) != u, "K01:modified", e.pos, "New%s modifies the URL it is given", n)
			}
			if e.kind == EvCall && strings.HasPrefix(e.name, "(*url.URL).Unmarshal") && e.args[0] == u {
				c.ob(false, "K01:modified", e.pos, "New%s modifies the URL it is given", n)
			}
		}
		if o.kind != OutReturn || stuckAway(outs, o) {
			continue
		}
		cl, typ := clientOf(o.rets[0])
		if !c.ob(cl != nil && typ == n && cl.op == OAlloc, "K01:new:"+n, o.pos, "New%s does not return a new client", n) {
			continue
		}
		U := c.clientURL(a, o, cl, typ)
		if !c.ob(c.urlCopy(a, o, U, u), "K01:url:"+n, o.pos, "New%s's client connects to %s, not to the URL given", n, U) {
			continue
		}
		inits := c.copiedSchemes(a, o, u)
		for _, k := range schemes {
			if f := inClass(o.facts, inits, k.s); f != nil && k.client == n {
				c.scheme(a, o, f, cl, U, inits, k.s, k.final)
			}
		}
		if n != "H1Client" {
			// its transport is its own
			tr := unIface(c.fget(a, o, ptrField(cl, "StreamingClient"), c.fieldByType(c.typ("jlibhttp", "StreamingClient"), "the transport", func(t types.Type) bool { return isNamed(t, "jlibhttp", "Transport") })))
			own := false
			if st := structOf(deref(tr.typ)); st != nil {
				for i := 0; i < st.NumFields(); i++ {
					if isPtrTo(st.Field(i).Type(), "jlibhttp", n) {
						own = c.fget(a, o, tr, st.Field(i).Name()) == cl
					}
				}
			}
			c.ob(own, "K01:transport:"+n, o.pos, "New%s's transport does not belong to the client returned", n)
		}
	}
}

// ---- K02

type h1cView struct {
	c            *Ctx
	id           string
	meth         string
	fn           *ssa.Function
	a            *Analysis
	outs         []*Outcome
	self, ctx    *Term
	msg          *Term
	trace, taddr *Term
	seen         map[string]int
}

func (c *Ctx) h1client(id, meth string) *h1cView {
	v := &h1cView{c: c, id: id, meth: meth, seen: map[string]int{}}
	v.fn = c.method("jlibhttp", "H1Client", meth)
	v.a = newAnalysis(c.w, "jlib.MessageBytes", "jlib.ParseBytes")
	v.self = tSym("self", types.NewPointer(c.typ("jlibhttp", "H1Client")))
	v.ctx = tSym("rootCtx", v.fn.Params[1].Type())
	v.msg = tSym("msg", v.fn.Params[2].Type())
	v.a.facts0 = []Lit{lit(tEq(v.msg, tNil), false)}
	v.taddr = traceAddr(stripMsg(v.msg))
	v.trace = msgTrace(v.msg)
	v.outs = c.run(v.a, v.fn, v.self, v.ctx, v.msg)
	c.site(v.fn.Pos(), "H1Client."+meth)
	return v
}

func (v *h1cView) ob(ok bool, key string, o *Outcome, f string, args ...interface{}) bool {
	return v.c.ob(ok, v.id+":"+key, o.pos, v.meth+": "+f, args...)
}

var httpSends = map[string]bool{
	"(*http.Client).Do": true, "(*http.Client).Post": true, "(*http.Client).Get": true, "(*http.Client).PostForm": true, "(*http.Client).Head": true,
	"http.Post": true, "http.Get": true, "http.PostForm": true, "http.Head": true,
	"(http.RoundTripper).RoundTrip": true, "(*http.Transport).RoundTrip": true, "(*http2.Transport).RoundTrip": true,
}

// sends are the exchanges among the events.
func httpSendsIn(evs []*Event) (r []*Event) {
	for _, e := range evs {
		if (e.kind == EvCall || e.kind == EvGo) && httpSends[e.name] {
			r = append(r, e)
		}
	}
	return r
}

// requestOf: the parts of the request a term is.
func requestOf(t *Term) (call *Term, ctx, method, url, body *Term) {
	if t.op == OCall && t.str2() == "(*http.Request).WithContext" {
		call, _, method, url, body = requestOf(t.args[0])
		return call, t.args[1], method, url, body
	}
	if t.op != OExtract || t.n != 0 || t.args[0].op != OCall {
		return nil, nil, nil, nil, nil
	}
	x := t.args[0]
	switch x.str2() {
	case "http.NewRequestWithContext":
		return x, x.args[0], x.args[1], x.args[2], x.args[3]
	case "http.NewRequest":
		return x, nil, x.args[0], x.args[1], x.args[2]
	}
	return nil, nil, nil, nil, nil
}

// readerOf: the bytes a reader made from bytes gives.
func readerOf(t *Term) *Term {
	t = unIface(t)
	if t.op == OExtract && t.n == 0 && callTerm(t.args[0], "io.NopCloser") {
		t = unIface(t.args[0].args[0])
	}
	if callTerm(t, "bytes.NewReader", "bytes.NewBuffer", "strings.NewReader", "bytes.NewBufferString") {
		return unConv(t.args[0])
	}
	return nil
}

func checkK02(c *Ctx) {
	for _, m := range []string{"Call", "Send"} {
		v := c.h1client("K02", m)
		for _, o := range v.outs {
			v.exchange(o)
		}
		ks := []string{"unencodable", "unsent", "status", "ok"}
		if m == "Call" {
			ks = append(ks, "unreadable", "unparsable", "noreply")
		}
		for _, k := range ks {
			c.count(m+"_"+k, v.seen[k])
			c.ob(v.seen[k] > 0, "K02:none", v.fn.Pos(), "%s: no path handles the case %q", m, k)
		}
	}
}

// knownTimeout: the error is known to be a timeout on the path.
func knownTimeout(f *Facts, err *Term) bool {
	for _, l := range f.lits {
		t := l.t
		if !l.val || t.op != OCall || len(t.args) == 0 {
			continue
		}
		about := false
		subterms(t, func(x *Term) bool {
			about = about || x == err
			return !about
		})
		n := t.str2()
		if about && (n == "os.IsTimeout" || strings.HasSuffix(n, ".Timeout") || n == "errors.Is" && len(t.args) == 2 && (errGlobalIs(t.args[1], "context", "DeadlineExceeded") || errGlobalIs(t.args[1], "os", "ErrDeadlineExceeded"))) {
			return true
		}
	}
	return false
}

// errGlobalIs: t is the variable of that package.
func errGlobalIs(t *Term, pkg, name string) bool {
	t = unIface(t)
	return t.op == ODeref && t.args[0].op == OGlobal && t.args[0].str == pkg+"."+name
}

// sameMessage: x, encoded at e, is the caller's message but for its trace id.
func (v *h1cView) sameMessage(e *Event, x *Term) bool {
	x = unIface(x)
	if x == unIface(v.msg) {
		return true
	}
	if x.op != OAlloc || !types.Identical(x.typ, v.msg.typ) {
		return false
	}
	st := structOf(deref(x.typ))
	for i := 0; i < st.NumFields(); i++ {
		n := st.Field(i).Name()
		if n == "BaseMessage" {
			continue // the kind is that of the type, the trace id is looked at apart
		}
		ad := ptrField(x, n)
		if v.a.now(e, ad, deref(ad.typ)) != v.c.fieldOf(v.msg, n) {
			return false
		}
	}
	return true
}

func (v *h1cView) exchange(o *Outcome) {
	c, f := v.c, o.facts
	sends := httpSendsIn(o.evs)
	if o.kind == OutLoop {
		v.ob(len(httpSendsIn(iteration(o))) == 0, "again", o, "the request is sent repeatedly")
		return
	}
	if stuckAway(v.outs, o) {
		return
	}
	if !v.ob(o.kind == OutReturn, "ends", o, "ends with a %s", kindName(o.kind)) {
		return
	}
	ret := o.rets[len(o.rets)-1]
	fails := c.isErr(f, ret)
	// the caller's message
	for _, e := range o.evs {
		if (e.kind == EvStore || e.kind == EvMapUpdate) && rootOf(e.args[0]) == unIface(v.msg) && e.args[0] != v.taddr {
			v.c.ob(false, "K02:changed", e.pos, "%s: changes the caller's message", v.meth)
		}
		if e.kind == EvStore && rootOf(e.args[0]) == v.self && e.args[0].op == OFieldAddr && isURLT(deref(e.args[0].typ)) {
			v.c.ob(false, "K02:url", e.pos, "%s: changes the client's URL", v.meth)
		}
	}
	// (ParseBytes is given bytes only: it cannot reach the message)
	back := o.get(v.a, v.taddr, types.Typ[types.String])
	if ps := callsNamed(o.evs, "jlib.ParseBytes"); len(ps) == 1 {
		back = v.a.now(ps[0], v.taddr, types.Typ[types.String])
		for _, e := range o.evs {
			if e.kind == EvStore && e.args[0] == v.taddr && before(o, ps[0], e) {
				back = e.args[1]
			}
		}
	}
	v.ob(back == v.trace, "traceback", o, "leaves the caller's message with the trace id %s", back)
	// encoding
	encs := callsNamed(o.evs, "jlib.MessageBytes")
	if len(sends) == 0 {
		known := fails
		var why bool
		for _, e := range encs {
			if isNil(f, extractErr(e.res, 1)) == 0 {
				v.seen["unencodable"]++
				why = true
			}
		}
		for _, e := range o.evs {
			if e.kind == EvCall && (e.name == "http.NewRequestWithContext" || e.name == "http.NewRequest") && isNil(f, extractErr(e.res, 1)) == 0 {
				why = true
			}
		}
		v.ob(known, "unsent", o, "returns no error although nothing was sent")
		v.ob(why, "notsent", o, "does not send a request that can be encoded")
		return
	}
	if !v.ob(len(sends) == 1 && sends[0].name == "(*http.Client).Do" && sends[0].kind == EvCall, "once", o, "sends %d requests, or otherwise than with the client's Do", len(sends)) {
		return
	}
	e := sends[0]
	call, ctx, method, url, body := requestOf(e.args[1])
	if !v.ob(call != nil, "request", o, "sends %s, not a request made here", e.args[1]) {
		return
	}
	v.ob(isNil(f, extractErr(call, 1)) == 1, "badrequest", o, "sends a request that could not be made")
	v.ob(method.op == OConst && constStr(method) == "POST", "post", o, "the method is %s", method)
	v.ob(callTerm(url, "(*url.URL).String") && readOf(url.args[0], v.self, isURLT), "to", o, "the request goes to %s, not to the server URL", url)
	v.ob(ctx != nil && ctxChain(ctx, v.ctx), "context", o, "the request does not carry the caller's context")
	data := readerOf(body)
	okBody := false
	for _, x := range encs {
		if data == resAt(x.res, 0) && before(o, x, e) && v.sameMessage(x, x.args[0]) {
			okBody = isNil(f, extractErr(x.res, 1)) == 1
			t := v.a.now(x, traceAddr(stripMsg(unIface(x.args[0]))), types.Typ[types.String])
			v.ob(emptyText(x.facts, t) == 1, "tracebody", o, "the trace id travels in the body too")
		}
	}
	v.ob(okBody, "body", o, "the body is not the encoding of the message")
	isHdr := func(t *Term) bool { return ptrBase(t, "Header") == e.args[1] }
	n := 0
	wrong := false
	for _, x := range hdrOps(upTo(o, e), isHdr) {
		if x.name.op == OConst && constKey(x.name) == "X-Trace-Id" {
			if x.val == v.trace {
				n++
			} else {
				wrong = true
			}
		}
	}
	v.ob(!wrong && (n == 1 || n == 0 && emptyText(f, v.trace) == 1), "traceheader", o, "the trace id does not travel in X-Trace-Id exactly once")
	// the answer
	resp, derr := resAt(e.res, 0), extractErr(e.res, 1)
	if isNil(f, derr) != 1 {
		v.seen["unsent"]++
		v.ob(fails && isNil(f, derr) == 0, "failed", o, "a failed exchange does not give an error")
		if w := unIface(unWrapErr(ret)); isPtrTo(w.typ, "jlibhttp", "SimpleResponse") {
			v.seen["status of its own"]++
			v.ob(knownTimeout(f, derr), "timeout", o, "a failed exchange is reported as a timeout although it may be none")
		}
		return
	}
	rb := c.fieldOf(resp, "Body")
	isBody := func(t *Term) bool { return t != nil && ptrBase(unIface(t), "Body") == resp }
	closed, lastRead := (*Event)(nil), (*Event)(nil)
	var data2 func(*Term) bool
	var rerr *Term
	readFails := false
	for _, x := range o.evs {
		if x.kind != EvCall && x.kind != EvDefer {
			continue
		}
		if x.kind == EvCall && len(x.args) == 1 && (x.name == "(io.Closer).Close" || x.name == "(io.ReadCloser).Close") && isBody(x.args[0]) {
			closed = x
			continue
		}
		if x.kind == EvCall {
			if d, err := readAllEvent(x, rb); err != nil {
				lastRead = x
				v.ob(closed == nil, "closedread", o, "reads the response body after closing it")
				if isNil(f, err) == 0 {
					readFails = true
				}
				data2, rerr = d, err
			}
		}
	}
	v.ob(closed != nil, "close", o, "the response body is not closed")
	if lastRead != nil {
		for cx := ctx; cx != nil; {
			par, w := parentCtx(cx)
			for _, x := range o.evs {
				if w != nil && x.kind == EvCall && x.callee == resAt(w, 1) && before(o, x, lastRead) {
					v.ob(false, "cancelled", o, "the request's context is cancelled before the response body is read")
				}
			}
			cx = par
		}
	}
	status := c.fieldOf(resp, "StatusCode")
	ok200 := f.Val(tEq(status, tInt(200)))
	if readFails && ok200 < 0 && v.meth == "Call" {
		v.seen["unreadable"]++
		v.ob(fails, "unreadable", o, "a response body that is not wholly read does not give an error")
		return
	}
	if ok200 != 1 {
		v.seen["status"]++
		v.ob(fails && ok200 == 0, "status", o, "a response with another status than 200 does not give an error")
		if !readFails {
			w := unIface(unWrapErr(ret))
			att := isPtrTo(w.typ, "jlibhttp", "WrappedResponse") && c.fget(v.a, o, w, "Response") == resp
			v.ob(att, "attached", o, "the error for another status does not carry the response")
		}
		return
	}
	if v.meth == "Send" {
		if fails {
			v.ob(readFails, "refused", o, "an accepted message gives an error")
			return
		}
		v.seen["ok"]++
		v.ob(isNil(f, ret) == 1, "sent", o, "returns %s for an accepted message", ret)
		return
	}
	if rerr == nil || isNil(f, rerr) != 1 {
		v.seen["unreadable"]++
		v.ob(fails && readFails, "unreadable", o, "a response body that is not wholly read does not give an error, or one is refused unread")
		return
	}
	ps := callsNamed(o.evs, "jlib.ParseBytes")
	if !v.ob(len(ps) == 1 && data2(ps[0].args[0]), "parse", o, "what is parsed is not the response body") {
		return
	}
	m, perr := resAt(ps[0].res, 0), extractErr(ps[0].res, 1)
	if isNil(f, perr) != 1 {
		v.seen["unparsable"]++
		v.ob(fails && isNil(f, perr) == 0, "unparsable", o, "an unparsable response does not give an error")
		return
	}
	reply := f.Val(tKind(m, kRes|kErr))
	if reply != 1 {
		v.seen["noreply"]++
		v.ob(fails && reply == 0, "noreply", o, "a response that is no reply does not give an error")
		return
	}
	v.seen["ok"]++
	v.ob(isNil(f, ret) == 1 && unIface(o.rets[0]) == m, "reply", o, "a reply is returned as %s, %s", o.rets[0], ret)
	for _, x := range o.evs {
		if x.kind == EvStore && rootOf(x.args[0]) == m && x.args[0] != traceAddr(stripMsg(m)) {
			v.ob(false, "replychanged", o, "changes the reply")
		}
	}
	v.ob(o.get(v.a, traceAddr(stripMsg(m)), types.Typ[types.String]) == v.trace, "tracereply", o, "the reply does not get the request's trace id")
}

// ---- K03

// sets: the setter puts its argument, or a clone of it, into the field.
func (c *Ctx) sets(typ, name string, is func(types.Type) bool) {
	fn := c.method("jlibhttp", typ, name)
	c.site(fn.Pos(), typ+"."+name)
	self := tSym("self", types.NewPointer(c.typ("jlibhttp", typ)))
	x := tSym("x", fn.Params[1].Type())
	fld := c.fieldByType(c.typ("jlibhttp", typ), "what "+name+" sets", is)
	a := newAnalysis(c.w)
	outs := c.run(a, fn, self, x)
	for _, o := range outs {
		if o.kind == OutLoop || stuckAway(outs, o) {
			continue
		}
		got := c.fget(a, o, self, fld)
		c.ob(o.kind == OutReturn && (cloneOf(got) == x || isNil(o.facts, x) == 1 && isNil(o.facts, got) == 1), "K03:set:"+typ+"."+name, o.pos, "%s.%s keeps %s, not its argument", typ, name, got)
	}
}

// carriesTLS: the TLS configuration given to a transport is the client's.
func carriesTLS(f *Facts, got, self *Term) bool {
	return readOf(cloneOf(got), self, isTLST)
}

// ownTLS: the client's configuration is known to be nil on the path.
func noTLS(f *Facts, self *Term) bool {
	for _, l := range f.lits {
		if l.val && l.t.op == OBin && l.t.str == "==" {
			for i := 0; i < 2; i++ {
				if isNilTerm(l.t.args[i]) && readOf(l.t.args[1-i], self, isTLST) {
					return true
				}
			}
		}
	}
	return false
}

func isNilTerm(t *Term) bool { return t == tNil || t.op == ONil }

// transportOK: the HTTP client is a local one over a local transport with the
// client's TLS settings and, for HTTP/1, its timeout.
func (c *Ctx) httpClientOK(key string, a *Analysis, e *Event, o *Outcome, C, self *Term, typ string) {
	get := func(p *Term, n string) *Term {
		if e != nil {
			return c.nowField(a, e, p, n)
		}
		return c.fget(a, o, p, n)
	}
	f := o.facts
	pos := o.pos
	if e != nil {
		f, pos = e.facts, e.pos
	}
	if !c.ob(C.op == OAlloc, key+":client", pos, "%s uses %s, not an HTTP client of its own", typ, C) {
		return
	}
	tr := unIface(get(C, "Transport"))
	if !c.ob(tr.op == OAlloc && (isPtrTo(tr.typ, "http", "Transport") || isPtrTo(tr.typ, "http2", "Transport")), key+":transport", pos, "%s's HTTP client uses %s, not a transport of its own", typ, tr) {
		return
	}
	c.count("http_clients", 1)
	tls := get(tr, "TLSClientConfig")
	h2c := 0
	if typ == "H2Client" {
		h2c = f.Val(c.fieldOf(self, "UseH2C"))
		c.ob(h2c >= 0, key+":h2c", pos, "whether the HTTP/2 client speaks cleartext does not depend on its setting")
	}
	dials := []*Term{}
	st := structOf(deref(tr.typ))
	for i := 0; i < st.NumFields(); i++ {
		switch n := st.Field(i).Name(); n {
		case "Dial", "DialContext", "DialTLS", "DialTLSContext":
			d := get(tr, n)
			if isNil(f, d) != 1 && d.op != OZero {
				dials = append(dials, d)
			}
		}
	}
	if h2c != 1 {
		c.ob(carriesTLS(f, tls, self) || noTLS(f, self) && (isNil(f, tls) == 1 || tls.op == OZero), key+":tls", pos, "%s's transport gets the TLS configuration %s, not the client's", typ, tls)
		c.ob(len(dials) == 0, key+":dial", pos, "%s's transport dials by itself", typ)
	} else {
		ok := len(dials) > 0
		for _, d := range dials {
			ok = ok && c.plainDial(d)
		}
		c.ob(ok, key+":dialplain", pos, "the cleartext HTTP/2 transport does not dial the address in clear")
		if isPtrTo(tr.typ, "http2", "Transport") {
			c.ob(f.Val(get(tr, "AllowHTTP")) == 1, key+":allow", pos, "the cleartext HTTP/2 transport does not allow http URLs")
		}
	}
	if typ == "H1Client" {
		opt := c.fieldByType(c.typ("jlibhttp", "H1Client"), "the options", func(t types.Type) bool { return isNamed(t, "jlibhttp", "ClientOptions") })
		T := c.fieldOf(ptrField(self, opt), "Timeout")
		to := get(C, "Timeout")
		low := f.Val(tLe(T, tInt(0)))
		ok := false
		switch low {
		case 1:
			n, k := tInt64(to)
			ok = k && n == 5e9
		case 0:
			ok = isSeconds(to, T)
		}
		c.ob(ok, key+":timeout", pos, "the timeout is %s, not the option in seconds, or five seconds if there is none", to)
	}
}

// isSeconds: t is Duration(T)*Second.
func isSeconds(t, T *Term) bool {
	if t.op != OBin || t.str != "*" {
		return false
	}
	for i := 0; i < 2; i++ {
		n, k := tInt64(t.args[i])
		if k && n == 1e9 && unConv(t.args[1-i]) == T {
			return true
		}
	}
	return false
}

// plainDial: the dial function opens a plain connection to the address given.
func (c *Ctx) plainDial(d *Term) bool {
	fn := d.fn
	if fn == nil || (d.op != OFunc && d.op != OClosure) || fn.Blocks == nil {
		return d.op == OFunc && fn != nil && fnPkg(fn) != nil && fnPkg(fn).Path() == "net" && strings.HasPrefix(fn.Name(), "Dial")
	}
	a := newAnalysis(c.w)
	if d.op == OClosure {
		a.binds = d.args
	}
	var ps, strs []*Term
	for _, p := range fn.Params {
		t := tSym(p.Name(), p.Type())
		ps = append(ps, t)
		if types.Identical(p.Type(), types.Typ[types.String]) {
			strs = append(strs, t)
		}
	}
	if len(strs) != 2 {
		return false
	}
	n := 0
	for _, o := range c.run(a, fn, ps...) {
		if o.kind != OutReturn {
			return false
		}
		var dial *Event
		for _, e := range o.evs {
			if e.kind == EvCall && (e.name == "net.Dial" || e.name == "(*net.Dialer).Dial" || e.name == "(*net.Dialer).DialContext" || e.name == "net.DialTimeout") {
				if dial != nil {
					return false
				}
				dial = e
			}
		}
		if dial == nil {
			return false
		}
		i := 0
		for i < len(dial.args) && dial.args[i] != strs[0] {
			i++
		}
		if i+1 >= len(dial.args) || dial.args[i+1] != strs[1] {
			return false
		}
		if o.rets[0] != resAt(dial.res, 0) && isNil(o.facts, o.rets[0]) != 1 {
			return false
		}
		n++
	}
	return n > 0
}

// clientFields: the fields of the client types that hold HTTP clients, and
// every store to them.
func (c *Ctx) clientStores(typ string) (field string, stores map[*ssa.Store]bool) {
	t := c.typ("jlibhttp", typ)
	field = ""
	st := structOf(t)
	fi := -1
	for i := 0; i < st.NumFields(); i++ {
		if isPtrTo(st.Field(i).Type(), "http", "Client") {
			field, fi = st.Field(i).Name(), i
		}
	}
	stores = map[*ssa.Store]bool{}
	for _, fn := range c.w.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.Field == fi && types.Identical(deref(fa.X.Type()), t) {
					stores[s] = true
				}
			}
		}
	}
	return field, stores
}

// exchanges: every exchange of the path goes through a client that is right,
// and every client stored for later is.
func (c *Ctx) overClient(typ string, self *Term, field string, stores map[*ssa.Store]bool, a *Analysis, outs []*Outcome) {
	for _, o := range outs {
		if stuckAway(outs, o) {
			continue
		}
		sends := httpSendsIn(o.evs)
		for _, e := range o.evs {
			if e.kind != EvStore || field == "" || e.args[0] != ptrField(self, field) {
				continue
			}
			if s, ok := e.instr.(*ssa.Store); ok {
				delete(stores, s)
			}
			var at *Event
			for _, x := range sends {
				if at == nil && before(o, e, x) {
					at = x
				}
			}
			c.httpClientOK("K03:"+typ, a, at, o, e.args[1], self, typ)
		}
		for _, e := range sends {
			if e.name != "(*http.Client).Do" {
				c.ob(false, "K03:"+typ+":way", e.pos, "%s sends with %s", typ, e.name)
				continue
			}
			if field != "" && readOf(e.args[0], self, func(t types.Type) bool { return isPtrTo(t, "http", "Client") }) {
				c.count("sends", 1)
				continue
			}
			c.count("sends", 1)
			c.httpClientOK("K03:"+typ, a, e, o, e.args[0], self, typ)
		}
	}
}

func checkK03(c *Ctx) {
	for _, t := range []string{"H1Client", "StreamingClient"} {
		c.sets(t, "SetExtraHeader", isHeaderT)
		c.sets(t, "SetClientTLSConfig", isTLST)
	}
	// HTTP/1
	field, stores := c.clientStores("H1Client")
	for _, m := range []string{"Call", "Send"} {
		v := c.h1client("K03", m)
		c.overClient("H1Client", v.self, field, stores, v.a, v.outs)
		for _, o := range v.outs {
			if o.kind == OutLoop || stuckAway(v.outs, o) {
				continue
			}
			for _, e := range httpSendsIn(o.evs) {
				if e.name == "(*http.Client).Do" {
					v.headers(o, e)
				}
			}
		}
	}
	for s := range stores {
		c.ob(false, "K03:H1Client:stored", s.Pos(), "%s sets the HTTP client apart from its use", shortFn(s.Parent()))
	}
	c.options()
	c.streamHeaders()
	c.wsDial()
	c.h2Dial()
	c.useH2C()
	c.foreignGlobals("K03")
}

// headers: every extra header value is in the request when it is sent.
func (v *h1cView) headers(o *Outcome, e *Event) {
	req := e.args[1]
	isHdr := func(t *Term) bool { return ptrBase(t, "Header") == req }
	own := func(t *Term) bool { return readOf(t, v.self, isHeaderT) }
	f := e.facts
	for _, l := range f.lits {
		for i := 0; l.t.op == OBin && i < 2; i++ {
			x := l.t.args[i]
			if own(x) && isNil(f, x) == 1 || x.op == OLen && own(x.args[0]) && f.Val(tEq(x, tInt(0))) == 1 {
				v.c.count("no_header_paths", 1)
				return
			}
		}
	}
	evs := upTo(o, e)
	for i, x := range evs {
		if x.kind == EvStore && x.args[0] == ptrField(req, "Header") && cloneOf(x.args[1]) != x.args[1] && own(cloneOf(x.args[1])) {
			v.c.ob(!overwrites(evs[i:], isHdr), "K03:H1Client:headerlost", x.pos, "%s: headers are replaced after the extra headers were applied", v.meth)
			return
		}
	}
	l := copiesTo(v.outs, o, own, func(evs []*Event) []wop { return hdrOps(evs, isHdr) })
	if !v.ob(l != nil, "H1Client:header", o, "not every extra header value is known to be in the request") {
		return
	}
	v.c.count("header_copies", 1)
	for i, x := range evs {
		if x.kind == EvLoopExit && x.loop == l {
			v.ob(!overwrites(evs[i:], isHdr), "H1Client:headerlost", o, "headers are replaced after the extra headers were applied")
		}
	}
}

func overwrites(evs []*Event, isHdr func(*Term) bool) bool {
	for _, x := range hdrOps(evs, isHdr) {
		if !x.add {
			return true
		}
	}
	return false
}

// options: the options given to NewClient and NewH1Client are the client's.
func (c *Ctx) options() {
	fld := c.fieldByType(c.typ("jlibhttp", "H1Client"), "the options", func(t types.Type) bool { return isNamed(t, "jlibhttp", "ClientOptions") })
	for _, n := range []string{"NewClient", "NewH1Client"} {
		fn := c.fn("jlibhttp", n)
		c.site(fn.Pos(), n)
		a := newAnalysis(c.w)
		var ps []*Term
		var opts *Term
		for _, p := range fn.Params {
			t := tSym(p.Name(), p.Type())
			if s, ok := p.Type().Underlying().(*types.Slice); ok && isNamed(s.Elem(), "jlibhttp", "ClientOptions") {
				opts = t
			}
			ps = append(ps, t)
		}
		if opts == nil {
			c.fatal("K03:anchor", "%s takes no options", n)
		}
		outs := c.run(a, fn, ps...)
		for _, o := range outs {
			if o.kind != OutReturn || stuckAway(outs, o) {
				continue
			}
			cl, typ := clientOf(o.rets[0])
			if typ != "H1Client" {
				continue
			}
			x := c.fget(a, o, ptrField(cl, fld), "Timeout")
			want := fieldVal(elem(opts, tInt(0)), "Timeout")
			none := o.facts.Val(tLe(tLen(opts), tInt(0)))
			ok := false
			switch none {
			case 1:
				k, isC := tInt64(x)
				ok = x.op == OZero || isC && k == 0
			case 0:
				ok = x == want
			}
			c.ob(ok, "K03:options:"+n, o.pos, "%s's client gets the timeout option %s, not that of the options given", n, x)
		}
	}
}

// fieldVal: field n of the struct value t.
func fieldVal(t *Term, n string) *Term {
	st := structOf(t.typ)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == n {
			return tField(t, n, i, st.Field(i).Type())
		}
	}
	return nil
}

// streamHeaders: the streaming client passes its URL and headers on.
func (c *Ctx) streamHeaders() {
	fn := c.method("jlibhttp", "StreamingClient", "Connect")
	c.site(fn.Pos(), "StreamingClient.Connect")
	self := tSym("self", types.NewPointer(c.typ("jlibhttp", "StreamingClient")))
	ctx := tSym("rootCtx", fn.Params[1].Type())
	a := newAnalysis(c.w)
	n := 0
	for _, o := range c.run(a, fn, self, ctx) {
		for _, e := range o.evs {
			if e.kind != EvCall || e.name != trans+"Connect" {
				continue
			}
			n++
			c.ob(readOf(e.args[2], self, isURLT), "K03:stream:url", e.pos, "the transport connects to %s, not to the client's URL", e.args[2])
			c.ob(readOf(cloneOf(e.args[3]), self, isHeaderT), "K03:stream:header", e.pos, "the transport gets the headers %s, not the client's extra headers", e.args[3])
		}
		for _, e := range o.evs {
			if e.kind == EvStore && rootOf(e.args[0]) == self && (isURLT(deref(e.args[0].typ)) || isHeaderT(deref(e.args[0].typ)) || isTLST(deref(e.args[0].typ))) {
				c.ob(false, "K03:stream:changed", e.pos, "connecting changes the client's settings")
			}
		}
	}
	c.count("stream_connects", n)
	c.ob(n > 0, "K03:stream:none", fn.Pos(), "Connect never connects the transport")
}

func (c *Ctx) transportRun(typ, clientTyp string) (a *Analysis, outs []*Outcome, self, client, url, hdr *Term, fn *ssa.Function) {
	var t types.Type
	for _, n := range (&cliView{c: c}).transports() {
		st := structOf(n)
		for i := 0; i < st.NumFields(); i++ {
			if isPtrTo(st.Field(i).Type(), "jlibhttp", clientTyp) {
				t = n
				self = tSym("self", types.NewPointer(n))
				client = c.fieldOf(self, st.Field(i).Name())
			}
		}
	}
	if t == nil {
		c.fatal("K03:anchor", "no transport belongs to the %s", clientTyp)
	}
	fn = c.methOf(types.NewPointer(t), "Connect")
	c.site(fn.Pos(), tstr(t)+".Connect")
	ps := []*Term{self}
	for _, p := range fn.Params[1:] {
		x := tSym(p.Name(), p.Type())
		if isURLT(p.Type()) {
			url = x
		}
		if isHeaderT(p.Type()) {
			hdr = x
		}
		ps = append(ps, x)
	}
	a = newAnalysis(c.w)
	a.facts0 = []Lit{lit(tEq(self, tNil), false), lit(tEq(client, tNil), false)}
	outs = c.run(a, fn, ps...)
	return
}

// wsDial: the WebSocket transport dials with a dialer of its own.
func (c *Ctx) wsDial() {
	a, outs, _, client, url, hdr, fn := c.transportRun("", "WSClient")
	n := 0
	for _, o := range outs {
		if stuckAway(outs, o) {
			continue
		}
		for _, e := range o.evs {
			if e.kind != EvCall || !strings.HasPrefix(e.name, "(*websocket.Dialer).Dial") && e.name != "websocket.NewClient" {
				continue
			}
			n++
			if !c.ob(e.name != "websocket.NewClient" && e.args[0].op == OAlloc, "K03:ws:dialer", e.pos, "the WebSocket transport dials with %s, not with a dialer of its own", e.args[0]) {
				continue
			}
			k := len(e.args)
			tls := c.nowField(a, e, e.args[0], "TLSClientConfig")
			c.ob(carriesTLS(e.facts, tls, client) || noTLS(e.facts, client) && (isNil(e.facts, tls) == 1 || tls.op == OZero), "K03:ws:tls", e.pos, "the dialer gets the TLS configuration %s, not the client's", tls)
			c.ob(callTerm(e.args[k-2], "(*url.URL).String") && e.args[k-2].args[0] == url, "K03:ws:url", e.pos, "the transport dials %s, not the URL given", e.args[k-2])
			c.ob(cloneOf(e.args[k-1]) == hdr, "K03:ws:header", e.pos, "the transport sends the headers %s, not those given", e.args[k-1])
		}
	}
	c.count("ws_dials", n)
	c.ob(n > 0, "K03:ws:none", fn.Pos(), "the WebSocket transport never dials")
}

func (c *Ctx) h2Dial() {
	field, stores := c.clientStores("H2Client")
	a, outs, _, client, url, hdr, fn := c.transportRun("", "H2Client")
	c.overClient("H2Client", client, field, stores, a, outs)
	n := 0
	for _, o := range outs {
		if stuckAway(outs, o) {
			continue
		}
		for _, e := range httpSendsIn(o.evs) {
			if e.name != "(*http.Client).Do" {
				continue
			}
			n++
			req := e.args[1]
			if call, _, _, u, _ := requestOf(req); call != nil {
				c.ob(callTerm(u, "(*url.URL).String") && u.args[0] == url, "K03:h2:url", e.pos, "the request goes to %s, not to the URL given", u)
				got := c.nowField(a, e, req, "Header")
				ok := cloneOf(got) == hdr
				if !ok {
					isHdr := func(t *Term) bool { return ptrBase(t, "Header") == req }
					ok = isNil(e.facts, hdr) == 1 || copiesTo(outs, o, func(m *Term) bool { return m == hdr }, func(evs []*Event) []wop { return hdrOps(evs, isHdr) }) != nil
				}
				c.ob(ok, "K03:h2:header", e.pos, "the request carries the headers %s, not those given", got)
				continue
			}
			at := e
			for req.op == OCall && (req.str2() == "(*http.Request).WithContext" || req.str2() == "(*http.Request).Clone") {
				// a copy of the request as it was then
				for _, x := range o.evs {
					if x.kind == EvCall && x.res == req {
						at = x
					}
				}
				req = req.args[0]
			}
			if !c.ob(req.op == OAlloc, "K03:h2:request", e.pos, "the HTTP/2 transport sends %s, not a request made here", req) {
				continue
			}
			u := c.nowField(a, at, req, "URL")
			c.ob(u == url, "K03:h2:url", e.pos, "the request goes to %s, not to the URL given", u)
			h := c.nowField(a, at, req, "Header")
			c.ob(cloneOf(h) == hdr, "K03:h2:header", e.pos, "the request carries the headers %s, not those given", h)
		}
	}
	c.count("h2_requests", n)
	c.ob(n > 0, "K03:h2:none", fn.Pos(), "the HTTP/2 transport never sends a request")
	// an accessor for the client
	if m := c.methOf(types.NewPointer(c.typ("jlibhttp", "H2Client")), "HTTPClient"); m != nil {
		self := tSym("self", types.NewPointer(c.typ("jlibhttp", "H2Client")))
		ha := newAnalysis(c.w)
		houts := c.run(ha, m, self)
		c.overClient("H2Client", self, field, stores, ha, houts)
		for _, o := range houts {
			if o.kind == OutReturn && !readOf(o.rets[0], self, func(t types.Type) bool { return isPtrTo(t, "http", "Client") }) {
				c.httpClientOK("K03:H2Client", ha, nil, o, o.rets[0], self, "H2Client")
			}
		}
	}
	for s := range stores {
		c.ob(false, "K03:H2Client:stored", s.Pos(), "%s sets the HTTP client apart from its use", shortFn(s.Parent()))
	}
}

// useH2C: only the constructor decides about cleartext.
func (c *Ctx) useH2C() {
	t := c.typ("jlibhttp", "H2Client")
	fr := c.newFreshness()
	n := 0
	for _, fn := range c.w.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(deref(fa.X.Type()), t) || structOf(t).Field(fa.Field).Name() != "UseH2C" {
					continue
				}
				n++
				c.ob(fr.fresh(fa.X, map[ssa.Value]bool{}), "K03:h2c:set", s.Pos(), "%s changes whether an existing client speaks cleartext", shortFn(fn))
			}
		}
	}
	c.count("h2c_stores", n)
}

// foreignGlobals: no store goes through a package-level value of another
// package.
func (c *Ctx) foreignGlobals(id string) {
	n := 0
	for _, fn := range c.w.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ad ssa.Value
				switch x := in.(type) {
				case *ssa.Store:
					ad = x.Addr
				case *ssa.MapUpdate:
					ad = x.Map
				default:
					continue
				}
				n++
				if g := c.foreignRoot(ad, map[ssa.Value]bool{}); g != nil {
					c.ob(false, id+":global:"+g.Name(), in.Pos(), "%s changes %s.%s, which everything in the process shares", shortFn(fn), g.Pkg.Pkg.Name(), g.Name())
				}
			}
		}
	}
	c.count("stores", n)
}

func (c *Ctx) foreignRoot(v ssa.Value, seen map[ssa.Value]bool) *ssa.Global {
	if v == nil || seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Global:
		if x.Pkg != nil && !inModPkg(x.Pkg.Pkg) {
			return x
		}
	case *ssa.FieldAddr:
		return c.foreignRoot(x.X, seen)
	case *ssa.IndexAddr:
		return c.foreignRoot(x.X, seen)
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok {
			// a local variable: what was stored in it
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					if _, isPtr := s.Val.Type().Underlying().(*types.Pointer); isPtr || isIfaceT(s.Val.Type()) || isMapType(s.Val.Type()) {
						if g := c.foreignRoot(s.Val, seen); g != nil {
							return g
						}
					}
				}
			}
			return nil
		}
		return c.foreignRoot(x.X, seen)
	case *ssa.Field:
		return c.foreignRoot(x.X, seen)
	case *ssa.TypeAssert:
		return c.foreignRoot(x.X, seen)
	case *ssa.ChangeType:
		return c.foreignRoot(x.X, seen)
	case *ssa.MakeInterface:
		return c.foreignRoot(x.X, seen)
	case *ssa.Extract:
		return c.foreignRoot(x.Tuple, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if g := c.foreignRoot(e, seen); g != nil {
				return g
			}
		}
	}
	return nil
}

func isIfaceT(t types.Type) bool { _, ok := t.Underlying().(*types.Interface); return ok }

// ---- K06

func checkK06(c *Ctx) {
	c.checkDecodeInterface("K06:decoder")
	for _, n := range []string{"H1Client", "StreamingClient"} {
		fn := c.method("jlibhttp", n, "UnwrapCall")
		c.site(fn.Pos(), n+".UnwrapCall")
		cn := "(*jlibhttp." + n + ").Call"
		self := tSym("self", types.NewPointer(c.typ("jlibhttp", n)))
		ctx, msg, out := tSym("rootCtx", fn.Params[1].Type()), tSym("reqmsg", fn.Params[2].Type()), tSym("output", fn.Params[3].Type())
		a := newAnalysis(c.w, cn, "jlib.DecodeInterface")
		seen := map[string]int{}
		outs := c.run(a, fn, self, ctx, msg, out)
		for _, o := range outs {
			if o.kind == OutLoop {
				c.ob(len(callsNamed(iteration(o), cn)) == 0, "K06:"+n+":again", o.pos, "UnwrapCall calls repeatedly")
				continue
			}
			if stuckAway(outs, o) {
				continue
			}
			calls := callsNamed(o.evs, cn)
			if !c.ob(len(calls) == 1 && calls[0].args[0] == self && ctxChain(calls[0].args[1], ctx) && calls[0].args[2] == msg, "K06:"+n+":call", o.pos, "UnwrapCall does not make exactly the one call asked for") {
				continue
			}
			e := calls[0]
			m, err := resAt(e.res, 0), extractErr(e.res, 1)
			// where the output goes
			var dec []*Event
			for _, x := range o.evs {
				uses := false
				for _, y := range x.args {
					uses = uses || y != nil && unIface(y) == out
				}
				if x.kind == EvCall && x.name == "jlib.DecodeInterface" && uses {
					dec = append(dec, x)
					continue
				}
				if uses || (x.kind == EvStore && rootOf(x.args[0]) == out) {
					c.ob(x.kind == EvEnter || x.kind == EvLeave || x.kind == EvAssert || (x.kind == EvStore && rootOf(x.args[0]).op == OAlloc), "K06:"+n+":touch", x.pos, "UnwrapCall gives the output to %s", x.name)
				}
			}
			f := o.facts
			res := f.Val(tKind(m, kRes))
			if isNil(f, err) != 1 {
				seen["failed"]++
				c.ob(o.kind == OutReturn && isNil(f, err) == 0 && unWrapErr(o.rets[0]) == err && len(dec) == 0, "K06:"+n+":failed", o.pos, "a failed call does not give its error, or touches the output")
				continue
			}
			isErr := f.Val(tKind(m, kErr))
			if res == 1 || res < 0 && isErr == 0 {
				if !c.ob(o.kind == OutReturn && len(dec) == 1 && dec[0].args[0] == msgField(m, "Result") && dec[0].args[1] == out, "K06:"+n+":decode", o.pos, "a result is not decoded into the output exactly once") {
					continue
				}
				switch isNil(f, dec[0].res) {
				case 1:
					seen["ok"]++
					c.ob(isNil(f, o.rets[0]) == 1, "K06:"+n+":ok", o.pos, "a decoded result gives %s", o.rets[0])
				case 0:
					seen["undecodable"]++
					c.ob(c.isErr(f, o.rets[0]), "K06:"+n+":undecodable", o.pos, "a result that cannot be decoded gives no error")
				default:
					seen["ok"]++
					seen["undecodable"]++
					c.ob(unWrapErr(o.rets[0]) == dec[0].res, "K06:"+n+":ignored", o.pos, "the decoding error is not looked at")
				}
				continue
			}
			if isErr == 0 {
				// not a reply: Call returns replies only (K02, K04)
				continue
			}
			seen["error"]++
			x := unIface(o.rets0())
			c.ob(o.kind == OutReturn && res == 0 && len(dec) == 0 && x != nil && (x == msgField(m, "Error") || unWrapErr(x) == msgField(m, "Error")), "K06:"+n+":error", o.pos, "an error reply does not give its RPC error, or touches the output")
		}
		for _, k := range []string{"failed", "ok", "undecodable", "error"} {
			c.count(n+"_"+k, seen[k])
			c.ob(seen[k] > 0, "K06:"+n+":none", fn.Pos(), "no path of UnwrapCall handles the case %q", k)
		}
	}
}

func (o *Outcome) rets0() *Term {
	if len(o.rets) == 0 {
		return nil
	}
	return o.rets[0]
}

// emptyText: 1 if the string is known to be empty, 0 if not to be, else -1.
func emptyText(f *Facts, t *Term) int {
	if v := f.Val(tEq(t, tStr(""))); v >= 0 {
		return v
	}
	if v := f.Val(tEq(tLen(t), tInt(0))); v >= 0 {
		return v
	}
	return f.Val(tLe(tLen(t), tInt(0)))
}

// lookups: the values under key k of the map, as read again within the
// iteration.
func lookups(b *Outcome, src func(*Term) bool, k *Term) (r []*Term) {
	seen := map[*Term]bool{}
	for _, l := range b.facts.lits {
		subterms(l.t, func(t *Term) bool {
			if t.op == OLookup && t.args[1] == k && src(t.args[0]) && !seen[t] {
				seen[t] = true
				r = append(r, t)
			}
			return true
		})
	}
	return r
}

// isElemOf: x is element idx of a fresh lookup of key k in the map.
func isElemOf(x *Term, src func(*Term) bool, k, idx *Term) bool {
	found := false
	subterms(x, func(t *Term) bool {
		if t.op == OLookup && t.args[1] == k && src(t.args[0]) && x == elem(t, idx) {
			found = true
		}
		return true
	})
	return found
}
