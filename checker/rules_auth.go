package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("U01", "on every path of AuthHandler.ServeHTTP the protected handler is invoked only under facts that establish one accepted credential (no configuration, verified JWT, matching basic or bearer entry), otherwise 401 is written exactly once and the handler is not invoked; TryAuth reports success under the same facts only", checkU01)
	register("U02", "success by a basic or bearer entry requires equality facts on one entry of the configured list; failure requires loop exhaustion over both lists with every entry refuted", checkU02)
	register("U03", "success by JWT requires claims that flow from jwt.ParseWithClaims with a nil error and the configured secret, or from the cache entry of this very header, and an expiry fact against the current time; only such claims flow into the cache", checkU03)
	register("U04", "the AuthInfo stored in the request context (and returned by TryAuth) carries the fields of the accepted credential; AuthInfoFromContext reads the same context key", checkU04)
}

// authView: terms of one analysed auth entry point.
type authView struct {
	c                  *Ctx
	a                  *Analysis
	fn                 *ssa.Function
	outs               []*Outcome
	self, r            *Term
	cfg                *Term
	basic, bearer, jwt *Term
	secret             *Term
	header             *Term
	serve              bool // ServeHTTP (else TryAuth)
}

func (c *Ctx) authView(serve bool) *authView {
	name := "TryAuth"
	if serve {
		name = "ServeHTTP"
	}
	fn := c.method("jlibhttp", "AuthHandler", name)
	a := newAnalysis(c.w, "jlibhttp.Logger")
	v := &authView{c: c, a: a, fn: fn, serve: serve}
	v.outs = c.run(a, fn)
	v.self = a.Params[0]
	v.r = a.Params[len(a.Params)-1]
	v.cfg = c.fieldOf(v.self, fieldLike(deref(v.self.typ), "authConfig", isAuthCfgT))
	v.basic, v.bearer, v.jwt = c.fieldOf(v.cfg, "Basic"), c.fieldOf(v.cfg, "Bearer"), c.fieldOf(v.cfg, "Jwt")
	v.secret = c.fieldOf(v.jwt, "Secret")
	v.header = mk(OCall, types.Typ[types.String], "(http.Header).Get", 0, c.fieldOf(v.r, "Header"), tStr("Authorization"))
	return v
}

func (v *authView) basicAuth(i int) *Term {
	call := mk(OCall, nil, "(*http.Request).BasicAuth", 0, v.r)
	t := types.Type(types.Typ[types.String])
	if i == 2 {
		t = types.Typ[types.Bool]
	}
	return mk(OExtract, t, "", i, call)
}

func (v *authView) basicMatch(i *Term) []Lit {
	return []Lit{{v.basicAuth(2), true}, {tEq(v.c.elemField(v.basic, i, "Username"), v.basicAuth(0)), true}, {tEq(v.c.elemField(v.basic, i, "Password"), v.basicAuth(1)), true}}
}

func (v *authView) bearerMatch(i *Term) []Lit {
	return []Lit{{tEq(v.header, tBin(tokADD, tStr("Bearer "), v.c.elemField(v.bearer, i, "Token"), types.Typ[types.String])), true}}
}

func implAll(f *Facts, ls []Lit) bool {
	for _, l := range ls {
		if !f.Implies(l) {
			return false
		}
	}
	return true
}

// credential accepted on a path
type cred struct {
	kind   string // none, basic, bearer, jwt
	idx    *Term
	claims *Term
}

// creds: every credential the facts of the path establish.
func (v *authView) creds(o *Outcome) []cred {
	f := o.facts
	if f.Implies(lit(tEq(v.cfg, tNil), true)) {
		return []cred{{kind: "none"}}
	}
	var r []cred
	for _, i := range indexTerms(f, v.basic) {
		if implAll(f, []Lit{{tLe(tInt(0), i), true}, {tLt(i, tLen(v.basic)), true}}) && implAll(f, v.basicMatch(i)) {
			r = append(r, cred{kind: "basic", idx: i})
		}
	}
	for _, i := range indexTerms(f, v.bearer) {
		if implAll(f, []Lit{{tLe(tInt(0), i), true}, {tLt(i, tLen(v.bearer)), true}}) && implAll(f, v.bearerMatch(i)) {
			r = append(r, cred{kind: "bearer", idx: i})
		}
	}
	for _, cl := range v.claims(o) {
		if f.Implies(lit(tEq(v.jwt, tNil), false)) && f.Implies(lit(tEq(v.secret, tStr("")), false)) && v.verified(o, cl) == "" {
			r = append(r, cred{kind: "jwt", claims: cl})
		}
	}
	return r
}

// claims: the claim objects whose expiry the path compared with the time.
func (v *authView) claims(o *Outcome) []*Term {
	m := map[*Term]bool{}
	for _, l := range o.facts.lits {
		subterms(l.t, func(x *Term) bool {
			if cl := claimsOf(x, "ExpiresAt"); cl != nil {
				m[cl] = true
			}
			return true
		})
	}
	return sortedTerms(m)
}

// claimsOf: x reads field name of a claims object; the object's pointer term.
func claimsOf(x *Term, name string) *Term {
	ad := x
	switch {
	case x.op == ODeref:
		ad = x.args[0]
	case x.op == OOut && len(x.args) > 1:
		ad = x.args[1]
	default:
		return nil
	}
	if ad.op != OFieldAddr || ad.str != name {
		return nil
	}
	b := ad.args[0]
	if b.op == OFieldAddr && b.str == "StandardClaims" {
		b = b.args[0]
	}
	return b
}

func isParse(t *Term) (int, bool) {
	if t.op != OCall {
		return 0, false
	}
	switch t.str2() {
	case "jwt.ParseWithClaims":
		return 0, true
	case "(*jwt.Parser).ParseWithClaims":
		return 1, true
	}
	return 0, false
}

// parseOf: the verification call the claims term comes from, nil if none.
func parseOf(o *Outcome, cl *Term) *Term {
	x := cl
	if x.op == OAssert {
		x = x.args[0]
	}
	if x.op == ODeref && x.args[0].op == OFieldAddr && x.args[0].str == "Claims" {
		tk := x.args[0].args[0]
		if tk.op == OExtract && tk.n == 0 {
			if _, ok := isParse(tk.args[0]); ok {
				return tk.args[0]
			}
		}
	}
	if x.op == OAlloc {
		for _, e := range o.evs {
			if e.kind != EvCall || e.res == nil || e.res.op != OTuple {
				continue
			}
			ct := e.res.args[0].args
			if len(ct) == 0 {
				continue
			}
			if off, ok := isParse(ct[0]); ok && len(e.args) > off+1 && e.args[off+1].op == OMkIface && e.args[off+1].args[0] == x {
				return ct[0]
			}
		}
	}
	return nil
}

func isCacheGet(t *Term) bool {
	return t.op == OCall && (t.str2() == "(*lru.Cache).Get" || t.str2() == "(*lru.Cache).Peek")
}

// verified: "" when the claims are trusted on this path, else what is missing.
func (v *authView) verified(o *Outcome, cl *Term) string {
	if w := v.sourced(o, cl); w != "" {
		return w
	}
	// expiry compared with now at this request
	exp := v.expires(o, cl)
	for _, e := range exp {
		for _, now := range nowTerms(o) {
			if o.facts.Implies(lit(tLt(e, now), false)) {
				return ""
			}
		}
	}
	for _, l := range o.facts.lits {
		if l.val && l.t.op == OCall && strings.HasSuffix(l.t.str2(), ".VerifyExpiresAt") && len(l.t.args) == 3 && l.t.args[2] == tTrue && contains(l.t.args[0], cl) {
			for _, now := range nowTerms(o) {
				if l.t.args[1] == now {
					return ""
				}
			}
		}
	}
	return "the expiry of the claims is not compared with the current time"
}

func (v *authView) expires(o *Outcome, cl *Term) []*Term {
	m := map[*Term]bool{}
	for _, l := range o.facts.lits {
		subterms(l.t, func(x *Term) bool {
			if claimsOf(x, "ExpiresAt") == cl {
				m[x] = true
			}
			return true
		})
	}
	return sortedTerms(m)
}

func nowTerms(o *Outcome) []*Term {
	m := map[*Term]bool{}
	for _, l := range o.facts.lits {
		subterms(l.t, func(x *Term) bool {
			if x.op == OCall && x.str2() == "(time.Time).Unix" {
				y := x.args[0]
				for y.op == OCall && (y.str2() == "(time.Time).UTC" || y.str2() == "(time.Time).Local") {
					y = y.args[0]
				}
				if y.op == OCall && y.str2() == "time.Now" {
					m[x] = true
				}
			}
			return true
		})
	}
	return sortedTerms(m)
}

// sourced: the claims come from verifying the presented token or from the
// cache entry of this header.
func (v *authView) sourced(o *Outcome, cl *Term) string {
	f := o.facts
	x := cl
	if x.op == OAssert {
		x = x.args[0]
	}
	if x.op == OExtract && x.n == 0 && isCacheGet(x.args[0]) {
		g := x.args[0]
		if !f.Implies(lit(mk(OExtract, types.Typ[types.Bool], "", 1, g), true)) {
			return "the cache lookup did not succeed"
		}
		if g.args[1] != tMkIface(types.Typ[types.String], v.header) {
			return "the cache is looked up under another key than the Authorization header"
		}
		return ""
	}
	p := parseOf(o, cl)
	if p == nil {
		return "the claims do not come from a verified token"
	}
	return v.parseOK(o, p)
}

func (v *authView) parseOK(o *Outcome, p *Term) string {
	f := o.facts
	off, _ := isParse(p)
	if !f.Implies(lit(tEq(mk(OExtract, types.Universe.Lookup("error").Type(), "", 1, p), tNil), true)) {
		return "the error of the verification is not checked"
	}
	if !contains(p.args[off], v.header) {
		return "the token verified is not the presented one"
	}
	kf := p.args[off+2]
	if kf.fn == nil {
		return "the key function is not known"
	}
	if off == 1 {
		// parser options may switch validation off
		return "a custom parser is used"
	}
	var at *Event
	for _, e := range o.evs {
		if e.kind == EvCall && e.res != nil && e.res.op == OTuple && len(e.res.args) == 2 && len(e.res.args[0].args) > 0 && e.res.args[0].args[0] == p {
			at = e
		}
	}
	if at == nil {
		return "verification call not found on the path"
	}
	a := newAnalysis(v.c.w, "jlibhttp.Logger")
	a.heap0 = at.heap
	a.binds = kf.args
	outs, err := a.Run(kf.fn)
	if err != nil {
		return err.Error()
	}
	v.c.note(a, outs)
	n := 0
	for _, ko := range outs {
		if ko.kind != OutReturn {
			continue
		}
		if isNil(ko.facts, ko.rets[1]) == 0 {
			continue
		}
		n++
		k := ko.rets[0]
		if k.op == OMkIface {
			k = k.args[0]
		}
		if k.op == OConv {
			k = k.args[0]
		}
		if k != v.secret && !f.Implies(lit(tEq(k, v.secret), true)) {
			return "the key function does not return the configured secret"
		}
	}
	if n == 0 {
		return "the key function never returns a key"
	}
	return ""
}

// accepts: does the path accept the request (and with what identity term)?
func (v *authView) accepts(o *Outcome) (bool, bool) {
	if v.serve {
		return len(v.nextCalls(o)) > 0, true
	}
	if o.kind != OutReturn {
		return false, true
	}
	switch o.facts.Val(o.rets[1]) {
	case 1:
		return true, true
	case 0:
		return false, true
	}
	return false, false
}

func (v *authView) nextCalls(o *Outcome) []*Event {
	var r []*Event
	for _, e := range o.evs {
		if (e.kind == EvCall || e.kind == EvGo) && strings.HasSuffix(e.name, ").ServeHTTP") {
			r = append(r, e)
		}
		if e.kind == EvGo && e.name != "(http.Handler).ServeHTTP" {
			r = append(r, e)
		}
	}
	return r
}

// infeasible: the path needs a nil claims object to be read.
func (v *authView) infeasible(o *Outcome) bool {
	for _, l := range o.facts.lits {
		bad := false
		subterms(l.t, func(x *Term) bool {
			if x.op == ODeref && rootOf(x.args[0]).op == ONil {
				bad = true
			}
			return !bad
		})
		if bad {
			return true
		}
	}
	return false
}

func ends(o *Outcome) bool { return o.kind == OutReturn || o.kind == OutPanic }

func checkU01(c *Ctx) {
	for _, serve := range []bool{true, false} {
		v := c.authView(serve)
		kinds := map[string]int{}
		refused := 0
		for _, o := range v.outs {
			if o.kind == OutLoop {
				for _, e := range v.nextCalls(o) {
					c.ob(false, "U01:loop", e.pos, "the protected handler runs inside a loop")
				}
				continue
			}
			if v.infeasible(o) {
				continue
			}
			acc, known := v.accepts(o)
			c.ob(known, "U01:unknown", o.pos, "the outcome of authorisation cannot be decided")
			none := o.facts.Possible(lit(tEq(v.cfg, tNil), true))
			if acc {
				cs := v.creds(o)
				for _, cr := range cs {
					kinds[cr.kind]++
				}
				why := ""
				for _, cl := range v.claims(o) {
					if w := v.verified(o, cl); w != "" {
						why += "; " + w
					}
				}
				c.ob(len(cs) > 0, "U01:unauthorised", o.pos, "a request is passed on without an accepted credential%s", why)
				if v.serve {
					ns := v.nextCalls(o)
					c.ob(len(ns) == 1 && ns[0].kind == EvCall, "U01:once", o.pos, "the protected handler runs %d times", len(ns))
					for _, e := range ns {
						nx := c.fieldOf(v.self, nextField(deref(v.self.typ)))
						c.ob(e.args[0] == nx, "U01:next", e.pos, "another handler than the protected one is invoked: %s", e.args[0])
						c.ob(e.args[1] == v.a.Params[1], "U01:writer", e.pos, "the protected handler gets another response writer")
						c.ob(e.args[2] == v.r || e.args[2].op == OCall && strings.HasPrefix(e.args[2].str2(), "(*http.Request).WithContext") && e.args[2].args[0] == v.r, "U01:request", e.pos, "the protected handler gets another request: %s", e.args[2])
					}
					ws := callsNamed(o.evs, "(http.ResponseWriter).WriteHeader", "(http.ResponseWriter).Write")
					c.ob(len(ws) == 0, "U01:written", o.pos, "a response is written besides running the protected handler")
				}
			} else {
				refused++
				c.ob(!none, "U01:noconfig", o.pos, "a request is refused although no authorisation may be configured")
				if v.serve {
					ws := callsNamed(o.evs, "(http.ResponseWriter).WriteHeader")
					he := callsNamed(o.evs, "http.Error")
					ok := len(ws) == 1 && len(he) == 0 && ws[0].args[1] == tInt(401) || len(ws) == 0 && len(he) == 1 && he[0].args[2] == tInt(401)
					c.ob(ok && o.kind == OutReturn, "U01:401", o.pos, "an unauthorised request is not answered with 401")
					if len(ws) == 1 {
						early := false
						for _, e := range o.evs {
							if e == ws[0] {
								break
							}
							if e.kind == EvCall && e.name == "(http.ResponseWriter).Write" {
								early = true
							}
						}
						c.ob(!early, "U01:early", o.pos, "a body is written before the status 401")
					}
				}
			}
		}
		for _, k := range []string{"none", "basic", "bearer", "jwt"} {
			c.ob(kinds[k] > 0, "U01:vacuous:"+k, v.fn.Pos(), "%s never accepts by %s", shortFn(v.fn), k)
		}
		c.ob(refused > 0, "U01:vacuous:refuse", v.fn.Pos(), "%s never refuses", shortFn(v.fn))
		for k, n := range kinds {
			c.count("accepting_paths_"+k, n)
		}
		c.count("refusing_paths", refused)
	}
	// a request never bypasses ServeHTTP through the constructor: next and config are stored as given
	fn := c.fn("jlibhttp", "NewAuthHandler")
	a := newAnalysis(c.w)
	for _, o := range c.run(a, fn) {
		if o.kind != OutReturn {
			continue
		}
		h := o.rets[0]
		c.ob(h.op == OAlloc && c.fget(a, o, h, fieldLike(deref(h.typ), "authConfig", isAuthCfgT)) == a.Params[0] && c.fget(a, o, h, nextField(deref(h.typ))) == a.Params[1], "U01:new", o.pos, "the handler is not built from the given configuration and handler")
	}
}

func checkU02(c *Ctx) {
	for _, serve := range []bool{true, false} {
		v := c.authView(serve)
		n := 0
		for _, o := range v.outs {
			if o.kind == OutLoop || v.infeasible(o) {
				continue
			}
			acc, _ := v.accepts(o)
			if acc {
				cs := v.creds(o)
				c.ob(len(cs) > 0, "U02:match", o.pos, "a request is accepted without matching one configured entry")
				continue
			}
			n++
			k := tSym("k#any", types.Typ[types.Int])
			fb := o.facts.assume(v.basicMatch(k)...).assume(lit(tLe(tInt(0), k), true), lit(tLt(k, tLen(v.basic)), true))
			okB := !fb.Consistent() || forAll(v.outs, o, tLen(v.basic), func(b *Outcome, i *Term) bool {
				return !b.facts.assume(v.basicMatch(i)...).Consistent()
			})
			c.ob(okB, "U02:basic:all", o.pos, "a request is refused although a basic entry that was not tried may match")
			fr := o.facts.assume(v.bearerMatch(k)...).assume(lit(tLe(tInt(0), k), true), lit(tLt(k, tLen(v.bearer)), true))
			okR := !fr.Consistent() || forAll(v.outs, o, tLen(v.bearer), func(b *Outcome, i *Term) bool {
				return !b.facts.assume(v.bearerMatch(i)...).Consistent()
			})
			c.ob(okR, "U02:bearer:all", o.pos, "a request is refused although a bearer entry that was not tried may match")
		}
		c.ob(n > 0, "U02:vacuous", v.fn.Pos(), "no refusing path")
		c.count("refusing_paths", n)
	}
}

func checkU03(c *Ctx) {
	adds := map[ssa.Instruction]bool{}
	for _, serve := range []bool{true, false} {
		v := c.authView(serve)
		n := 0
		for _, o := range v.outs {
			if v.infeasible(o) {
				continue
			}
			for _, e := range o.evs {
				if e.kind != EvCall || !strings.HasPrefix(e.name, "(*lru.Cache).") {
					continue
				}
				switch strings.TrimPrefix(e.name, "(*lru.Cache).") {
				case "Add", "ContainsOrAdd", "PeekOrAdd":
					adds[e.instr] = true
					fo := &Outcome{facts: e.facts, evs: o.evs}
					val := e.args[2]
					if val.op == OMkIface {
						val = val.args[0]
					}
					p := parseOf(o, val)
					from := val
					if from.op == OAssert {
						from = from.args[0]
					}
					recached := from.op == OExtract && isCacheGet(from.args[0]) && from.args[0].args[1] == e.args[1]
					c.ob(e.args[1] == tMkIface(types.Typ[types.String], v.header), "U03:cachekey", e.pos, "claims are cached under another key than the Authorization header: %s", e.args[1])
					if !recached {
						why := "the claims do not come from a verified token"
						if p != nil {
							why = v.parseOK(fo, p)
						}
						c.ob(why == "", "U03:cache", e.pos, "unverified claims are cached: %s", why)
					}
				}
			}
			if o.kind == OutLoop {
				continue
			}
			acc, _ := v.accepts(o)
			if !acc {
				continue
			}
			cs := v.creds(o)
			for _, cr := range cs {
				if cr.kind == "jwt" {
					n++
					// whatever way the header is taken apart, its scheme decides
					scheme := false
					for _, l := range o.facts.lits {
						scheme = scheme || contains(l.t, v.header) && namesText(l.t, "bearer")
					}
					c.ob(scheme, "U03:scheme", o.pos, "a request is accepted by JWT whatever scheme its Authorization header names")
				}
			}
			if len(cs) == 0 {
				why := ""
				for _, cl := range v.claims(o) {
					if w := v.verified(o, cl); w != "" {
						why += ": " + w
					}
				}
				c.ob(false, "U03:trusted", o.pos, "a request is accepted with claims that are not trusted%s", why)
			} else {
				c.ob(true, "", o.pos, "")
			}
			// the identity comes from the claims that were checked
			for _, who := range v.identities(o) {
				u := v.c.fieldAt(v.a, who, "Username")
				if cl := claimsOf(u, "Username"); cl != nil && isClaims(cl) {
					w := v.verified(o, cl)
					c.ob(w == "", "U03:identity", o.pos, "the identity comes from claims that are not trusted: %s", w)
				}
			}
		}
		c.ob(n > 0, "U03:vacuous", v.fn.Pos(), "no path accepts by JWT")
		c.count("jwt_accepting_paths", n)
	}
	// every cache insertion of the module was analysed
	for _, fn := range c.w.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil {
						switch shortFn(f) {
						case "(*lru.Cache).Add", "(*lru.Cache).ContainsOrAdd", "(*lru.Cache).PeekOrAdd":
							c.ob(adds[in], "U03:cache:elsewhere", in.Pos(), "the claims cache is written outside authorisation")
							c.site(in.Pos(), "cache insertion")
						}
					}
				}
			}
		}
	}
}

func isClaims(cl *Term) bool {
	t := deref(cl.typ)
	if t == nil {
		return false
	}
	s := structOf(t)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() == "StandardClaims" {
			return true
		}
	}
	return false
}

// identity: an AuthInfo handed on by a path, with the heap at that point.
type identity struct {
	info *Term
	heap *Heap
	pos  string
	key  *Term
}

func (v *authView) identities(o *Outcome) []identity {
	var r []identity
	if v.serve {
		for _, e := range v.nextCalls(o) {
			if len(e.args) < 3 {
				continue
			}
			req := e.args[2]
			if req.op != OCall || len(req.args) < 2 {
				continue
			}
			ctx := req.args[1]
			for ctx.op == OCall && ctx.str2() == "context.WithValue" {
				val := ctx.args[2]
				if val.op == OMkIface && strings.HasSuffix(tstr(val.typ), "AuthInfo") {
					x := val.args[0]
					r = append(r, identity{x, e.heap, v.c.w.Pos(e.pos), ctx.args[1]})
				}
				ctx = ctx.args[0]
			}
		}
		return r
	}
	if o.kind == OutReturn && isNil(o.facts, o.rets[0]) != 1 {
		r = append(r, identity{o.rets[0], o.heap, v.c.w.Pos(o.pos), nil})
	}
	return r
}

func (c *Ctx) fieldAt(a *Analysis, id identity, name string) *Term {
	s := structOf(deref(id.info.typ))
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			ft := s.Field(i).Type()
			return a.load(&State{heap: id.heap, vers: map[string]int{}}, tFieldAddr(id.info, name, types.NewPointer(ft)), ft)
		}
	}
	return tNil
}

func checkU04(c *Ctx) {
	// key under which AuthInfoFromContext looks
	fn := c.fn("jlibhttp", "AuthInfoFromContext")
	a := newAnalysis(c.w)
	outs := c.run(a, fn)
	var key *Term
	good := 0
	for _, o := range outs {
		if o.kind != OutReturn {
			c.ob(false, "U04:from:ends", o.pos, "AuthInfoFromContext does not return")
			continue
		}
		var val *Term
		for _, e := range callsNamed(o.evs, "(context.Context).Value") {
			val = e.res
			key = e.args[1]
			c.ob(e.args[0] == a.Params[0], "U04:from:ctx", e.pos, "the identity is read from another context")
		}
		if !c.ob(val != nil, "U04:from:value", o.pos, "AuthInfoFromContext does not look at the context") {
			continue
		}
		is := tTypeIs(val, types.NewPointer(c.w.Type("jlibhttp", "AuthInfo")))
		switch {
		case o.facts.Implies(lit(is, true)):
			good++
			c.ob(o.facts.Val(o.rets[1]) == 1 && o.rets[0].op == OAssert && o.rets[0].args[0] == val, "U04:from:ok", o.pos, "a stored identity is not returned as stored")
		case o.facts.Implies(lit(is, false)) || isNil(o.facts, val) == 1:
			c.ob(o.facts.Val(o.rets[1]) == 0, "U04:from:absent", o.pos, "an absent identity is reported as present")
		default:
			c.ob(false, "U04:from:unknown", o.pos, "AuthInfoFromContext does not check what it found")
		}
	}
	c.ob(good > 0 && key != nil, "U04:from:vacuous", fn.Pos(), "AuthInfoFromContext never returns an identity")

	for _, serve := range []bool{true, false} {
		v := c.authView(serve)
		n := 0
		for _, o := range v.outs {
			if o.kind == OutLoop || v.infeasible(o) {
				continue
			}
			acc, _ := v.accepts(o)
			if !acc {
				continue
			}
			ids := v.identities(o)
			if o.facts.Possible(lit(tEq(v.cfg, tNil), true)) {
				c.ob(len(ids) == 0, "U04:none", o.pos, "an identity is attached although no authorisation is configured")
				continue
			}
			if !c.ob(len(ids) == 1, "U04:one", o.pos, "%d identities are attached to an authorised request", len(ids)) {
				continue
			}
			id := ids[0]
			if serve {
				c.ob(id.key == key, "U04:key", o.pos, "the identity is stored under %s, AuthInfoFromContext reads %s", id.key, key)
				e := v.nextCalls(o)[0]
				ctx := e.args[2].args[1]
				for ctx.op == OCall && ctx.str2() == "context.WithValue" {
					ctx = ctx.args[0]
				}
				c.ob(ctx == mk(OCall, nil, "(*http.Request).Context", 0, v.r), "U04:ctx", o.pos, "the identity's context does not derive from the request's")
			}
			if v.serve || o.kind == OutReturn {
				c.ob(isNil(o.facts, id.info) == 0, "U04:nil", o.pos, "the attached identity may be nil")
			}
			u, s := c.fieldAt(v.a, id, "Username"), c.fieldAt(v.a, id, "Settings")
			same := func(x, y *Term) bool { return x == y || o.facts.Implies(lit(tEq(x, y), true)) }
			ok := false
			for _, cr := range v.creds(o) {
				switch cr.kind {
				case "basic":
					ok = ok || same(u, c.elemField(v.basic, cr.idx, "Username")) && s == c.elemField(v.basic, cr.idx, "Settings")
				case "bearer":
					un, tk := c.elemField(v.bearer, cr.idx, "Username"), c.elemField(v.bearer, cr.idx, "Token")
					empty := tEq(un, tStr(""))
					okU := o.facts.Implies(lit(empty, true)) && same(u, tk) || o.facts.Implies(lit(empty, false)) && same(u, un)
					ok = ok || okU && s == c.elemField(v.bearer, cr.idx, "Settings")
				case "jwt":
					ok = ok || claimsOf(u, "Username") == cr.claims && claimsOf(s, "Settings") == cr.claims
				}
			}
			n++
			c.ob(ok, "U04:identity", o.pos, "the attached identity (%s, %s) is not that of the accepted credential", u, s)
		}
		c.ob(n > 0, "U04:vacuous", v.fn.Pos(), "no authorised path attaches an identity")
		c.count("identities", n)
	}
}

// namesText: a constant text in t starts with s, in any case.
func namesText(t *Term, s string) bool {
	found := false
	subterms(t, func(x *Term) bool {
		if x.op == OConst && strings.HasPrefix(strings.ToLower(strings.TrimSpace(constStr(x))), s) {
			found = true
		}
		return !found
	})
	return found
}
