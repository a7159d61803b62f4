package main

// A08: typed handlers.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

func init() {
	register("A08", "OnTyped, OnTypedRequest and OnTypedContext are interpreted up to the handler they store, and that handler is interpreted in turn: what is accepted is known on the path to be a non-nil function with the leading argument asked for, two results and an error second; the function is called once, with an argument list whose i-th element is the conversion of the param of its position to the i-th declared type, known to be assignable; -32602 before the call exactly when a param is missing or was not converted; the error of the function is returned as it is", checkA08)
}

type typedView struct {
	c     *Ctx
	name  string
	spec  string // "", "req" or "ctx"
	first int64
	fn    *Term // the typed handler
	ft    *Term // reflect.TypeOf(fn)
	numIn *Term
	// the stored handler
	a           *Analysis
	outs        []*Outcome
	req, params *Term
	f           actorFields
}

func isCallOn(t *Term, name string, recv func(*Term) bool) bool {
	return callTerm(t, name) && len(t.args) > 0 && recv(t.args[0])
}

func checkA08(c *Ctx) {
	f := c.actorFields()
	for _, s := range []struct{ name, spec string }{{"OnTyped", ""}, {"OnTypedRequest", "req"}, {"OnTypedContext", "ctx"}} {
		rv := c.regView(f, s.name, nil)
		v := &typedView{c: c, name: s.name, spec: s.spec, f: f, fn: rv.ps[1]}
		if s.spec != "" {
			v.first = 1
		}
		n := 0
		for _, o := range rv.outs {
			for _, e := range o.evs {
				v.reflectSafe(e, o)
			}
			if o.kind == OutLoop {
				continue
			}
			ups, _, _ := rv.changes(o)
			if len(ups) == 0 {
				v.refused(rv, o)
				continue
			}
			n++
			v.accepted(rv, o)
			g := c.fget(rv.a, o, ups[0].args[2], f.callback)
			for g.op == OConv {
				g = g.args[0]
			}
			if v.ob(g.op == OClosure && g.fn != nil, "stored", o.pos, "what is stored is %s", g) {
				v.handler(o, g)
			}
		}
		v.ob(n > 0, "vacuous", rv.fn.Pos(), "nothing is registered")
	}
}

func (v *typedView) ob(ok bool, key string, pos token.Pos, f string, args ...interface{}) bool {
	return v.c.ob(ok, "A08:"+v.name+":"+key, pos, v.name+": "+f, args...)
}

func (v *typedView) isType(t *Term) bool {
	return callTerm(t, "reflect.TypeOf") && unIface(t.args[0]) == v.fn || isCallOn(t, "(reflect.Value).Type", v.isVal)
}
func (v *typedView) isVal(t *Term) bool {
	return callTerm(t, "reflect.ValueOf") && unIface(t.args[0]) == v.fn
}
func (v *typedView) isTypeOrVal(t *Term) bool { return v.isType(t) || v.isVal(t) }

func constIs(t *Term, n int64) bool {
	if t == nil || t.op != OConst || t.val == nil {
		return false
	}
	k, ok := constant.Int64Val(t.val)
	return ok && k == n
}

// isIn: the i-th parameter type of the function.
func (v *typedView) isIn(t *Term) (*Term, bool) {
	if isCallOn(t, "(reflect.Type).In", v.isType) {
		return t.args[1], true
	}
	return nil, false
}
func (v *typedView) isOut(t *Term, n int64) bool {
	return isCallOn(t, "(reflect.Type).Out", v.isType) && constIs(t.args[1], n)
}
func (v *typedView) isNumIn(t *Term) bool { return isCallOn(t, "(reflect.Type).NumIn", v.isType) }

// typeOfIface: the reflect type of the interface a nil pointer constant points to.
func typeOfIface(t *Term, pkg, name string) bool {
	if !callTerm(t, "(reflect.Type).Elem") || !callTerm(t.args[0], "reflect.TypeOf") {
		return false
	}
	x := t.args[0].args[0]
	if x.typ == nil {
		return false
	}
	p, ok := x.typ.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	if pkg == "" {
		return types.Identical(p.Elem(), errType)
	}
	return isNamed(p.Elem(), pkg, name)
}

// known: the truth of some fact of that form on the path.
func factVal(f *Facts, is func(t *Term) bool) int {
	for _, l := range f.lits {
		if is(l.t) {
			if l.val {
				return 1
			}
			return 0
		}
	}
	return -1
}

// kindIs: what the path knows about the kind of a type or value.
func kindIs(f *Facts, of func(t *Term) bool, k int64) int {
	r := -1
	for _, l := range f.lits {
		x := l.t
		if x.op != OBin || x.str != "==" {
			continue
		}
		for i := 0; i < 2; i++ {
			if !isCallOn(x.args[i], "(reflect.Type).Kind", of) && !isCallOn(x.args[i], "(reflect.Value).Kind", of) {
				continue
			}
			n, ok := constInt(x.args[1-i])
			switch {
			case !ok:
			case n == k && l.val:
				r = 1
			case n == k:
				r = 0
			case l.val:
				r = 0
			}
		}
	}
	return r
}

func constInt(t *Term) (int64, bool) {
	if t.op != OConst || t.val == nil || t.val.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(t.val)
}

// numCmp: what the path knows about a count compared with a constant: -1
// unknown, else whether count >= n (ge) or count == n.
func numIs(f *Facts, is func(t *Term) bool, n int64, ge bool) int {
	seen := map[*Term]bool{}
	for _, l := range f.lits {
		subterms(l.t, func(x *Term) bool {
			if is(x) {
				seen[x] = true
			}
			return true
		})
	}
	for x := range seen {
		t := tEq(x, tInt(n))
		if ge {
			t = tLe(tInt(n), x)
		}
		if r := f.Val(t); r >= 0 {
			return r
		}
	}
	return -1
}

func (v *typedView) nilType(f *Facts) int {
	r := factVal(f, func(t *Term) bool {
		return t.op == OBin && t.str == "==" && (t.args[0] == tNil && v.isType(t.args[1]) || t.args[1] == tNil && v.isType(t.args[0]))
	})
	if r < 0 {
		if x := isNil(f, v.fn); x >= 0 {
			return x
		}
		if x := factVal(f, func(t *Term) bool { return isCallOn(t, "(reflect.Value).IsValid", v.isVal) }); x >= 0 {
			return 1 - x
		}
		if kindIs(f, v.isVal, 19) == 1 {
			return 0
		}
	}
	return r
}
func (v *typedView) isFunc(f *Facts) int { return kindIs(f, v.isTypeOrVal, 19) }
func (v *typedView) nilFunc(f *Facts) int {
	return factVal(f, func(t *Term) bool { return isCallOn(t, "(reflect.Value).IsNil", v.isVal) })
}
func (v *typedView) twoOut(f *Facts) int {
	return numIs(f, func(t *Term) bool { return isCallOn(t, "(reflect.Type).NumOut", v.isType) }, 2, false)
}
func (v *typedView) hasFirst(f *Facts) int { return numIs(f, v.isNumIn, 1, true) }
func (v *typedView) errOut(f *Facts) int {
	return factVal(f, func(t *Term) bool {
		return (callTerm(t, "(reflect.Type).Implements") || callTerm(t, "(reflect.Type).AssignableTo") || callTerm(t, "(reflect.Type).ConvertibleTo") && false) &&
			v.isOut(t.args[0], 1) && typeOfIface(t.args[1], "", "") ||
			t.op == OBin && t.str == "==" && (v.isOut(t.args[0], 1) && typeOfIface(t.args[1], "", "") || v.isOut(t.args[1], 1) && typeOfIface(t.args[0], "", ""))
	})
}

// firstFits: the value passed first fits the first parameter.
func (v *typedView) firstFits(f *Facts) int {
	in0 := func(t *Term) bool { i, ok := v.isIn(t); return ok && constIs(i, 0) }
	switch v.spec {
	case "req":
		ptr := kindIs(f, in0, 22)
		name := factVal(f, func(t *Term) bool {
			if t.op != OBin || t.str != "==" {
				return false
			}
			for i := 0; i < 2; i++ {
				x, y := t.args[i], t.args[1-i]
				if isCallOn(x, "(reflect.Type).String", in0) {
					return y.op == OConst && constStr(y) == "*jlibhttp.RPCRequest"
				}
				if in0(x) && callTerm(y, "reflect.TypeOf") && y.args[0].typ != nil && isPtrTo(y.args[0].typ, "jlibhttp", "RPCRequest") {
					return true
				}
			}
			return false
		})
		if ptr == 0 || name == 0 {
			return 0
		}
		return name
	case "ctx":
		isCtx := func(t *Term) bool { return typeOfIface(t, "context", "Context") }
		same := factVal(f, func(t *Term) bool {
			return t.op == OBin && t.str == "==" && (in0(t.args[0]) && isCtx(t.args[1]) || in0(t.args[1]) && isCtx(t.args[0]))
		})
		if same == 1 {
			return 1
		}
		fits := factVal(f, func(t *Term) bool {
			return callTerm(t, "(reflect.Type).Implements", "(reflect.Type).AssignableTo") && isCtx(t.args[0]) && in0(t.args[1])
		})
		is := factVal(f, func(t *Term) bool {
			return callTerm(t, "(reflect.Type).Implements", "(reflect.Type).AssignableTo") && in0(t.args[0]) && isCtx(t.args[1])
		})
		iface := kindIs(f, in0, 20)
		if fits == 0 || is == 0 || iface == 0 || same == 0 {
			return 0
		}
		if is != 1 {
			// some other interface, such as any
			return -1
		}
		return fits
	}
	return 1
}

func (v *typedView) accepted(rv *regView, o *Outcome) {
	f := o.facts
	v.ob(v.nilType(f) == 0 && v.isFunc(f) == 1, "accept:func", o.pos, "something that is not a function may be registered")
	v.ob(v.nilFunc(f) == 0, "accept:nil", o.pos, "a nil function may be registered")
	v.ob(v.twoOut(f) == 1, "accept:out", o.pos, "a function that does not return two values may be registered")
	v.ob(v.errOut(f) == 1, "accept:error", o.pos, "a function whose second result is no error may be registered")
	if v.first > 0 {
		v.ob(v.hasFirst(f) == 1, "accept:first", o.pos, "a function without the leading argument may be registered")
		v.ob(v.firstFits(f) == 1, "accept:fits", o.pos, "a function whose leading argument does not take what is passed may be registered")
	}
}

func (v *typedView) refused(rv *regView, o *Outcome) {
	f := o.facts
	ok := rv.taken(f) == 1 || v.nilType(f) == 1 || v.isFunc(f) == 0 || v.nilFunc(f) == 1 || v.twoOut(f) == 0 || v.errOut(f) == 0 ||
		v.first > 0 && (v.hasFirst(f) == 0 || v.firstFits(f) == 0)
	v.ob(ok, "refuse", o.pos, "a function of the right shape may be refused")
}

// reflectSafe: reflect calls at registration that could panic.
func (v *typedView) reflectSafe(e *Event, o *Outcome) {
	if e.kind != EvCall || len(e.args) == 0 {
		return
	}
	f := e.facts
	if e.name == "(reflect.Type).Implements" {
		u := e.args[1]
		in0 := func(t *Term) bool { _, ok := v.isIn(t); return ok && t == u }
		if _, ok := v.isIn(u); ok {
			v.ob(kindIs(f, in0, 20) == 1, "panic:implements", e.pos, "registering a function whose parameter is no interface panics in Implements")
		}
	}
	switch {
	case strings.HasPrefix(e.name, "(reflect.Type).") && v.isType(e.args[0]):
		v.ob(v.nilType(f) == 0, "panic:nil", e.pos, "registering nil panics in %s", e.name)
		switch e.name {
		case "(reflect.Type).NumIn", "(reflect.Type).NumOut", "(reflect.Type).In", "(reflect.Type).Out", "(reflect.Type).IsVariadic":
			v.ob(v.isFunc(f) == 1, "panic:kind", e.pos, "registering something that is not a function panics in %s", e.name)
		}
		if e.name == "(reflect.Type).In" && constIs(e.args[1], 0) {
			v.ob(v.hasFirst(f) == 1, "panic:in", e.pos, "registering a function without parameters panics")
		}
		if e.name == "(reflect.Type).Out" {
			v.ob(v.twoOut(f) == 1, "panic:out", e.pos, "registering a function with fewer results panics")
		}
	case e.name == "(reflect.Value).IsNil" && v.isVal(e.args[0]):
		v.ob(v.isFunc(f) == 1, "panic:isnil", e.pos, "registering something that is not a function panics in IsNil")
	}
}

// ---- the stored handler

func (v *typedView) handler(o *Outcome, g *Term) {
	c := v.c
	v.a = newAnalysis(c.w)
	a := v.a
	a.binds, a.heap0 = g.args, o.heap
	v.req = tSym("req", types.NewPointer(c.typ("jlibhttp", "RPCRequest")))
	a.facts0 = append(append([]Lit{}, o.facts.lits...), lit(tEq(v.req, tNil), false))
	v.outs = c.run(a, g.fn, v.req)
	v.params = a.Params[1]
	ncall, nfew, nconv := 0, 0, 0
	for _, q := range v.outs {
		for _, e := range q.evs {
			v.callSafe(e, q)
		}
		calls := callsNamed(q.evs, "(reflect.Value).Call", "(reflect.Value).CallSlice")
		if q.kind == OutLoop {
			v.ob(len(callsNamed(iteration(q), "(reflect.Value).Call", "(reflect.Value).CallSlice")) == 0, "again", q.pos, "the function may be called more than once")
			continue
		}
		if !v.ob(q.kind == OutReturn, "ends", q.pos, "the handler ends in a %s", kindName(q.kind)) {
			continue
		}
		if len(calls) == 0 {
			few, conv := v.notCalled(q)
			if few {
				nfew++
			}
			if conv {
				nconv++
			}
			continue
		}
		if !v.ob(len(calls) == 1, "once", q.pos, "the function is called %d times", len(calls)) {
			continue
		}
		e := calls[0]
		ncall++
		v.called(q, e)
		v.outcome(q, e)
	}
	v.ob(ncall > 0 && nfew > 0 && nconv > 0, "vacuous", g.fn.Pos(), "the handler never calls, misses or refuses")
}

// lock: equalities between loop counters that move in step.
func lock(outs []*Outcome, o *Outcome) []Lit {
	var r []Lit
	for _, l := range loopsIn(o) {
		bs := rawBacks(outs, o, l)
		var cs []*Term
		for _, lv := range l.vars {
			if !isIntType(lv.typ) {
				continue
			}
			ok := len(bs) > 0
			for _, b := range bs {
				nb, nc := linear(b.next[lv])
				ok = ok && nb == lv && nc == 1
			}
			if ok {
				cs = append(cs, lv)
			}
		}
		I := types.Typ[types.Int]
		for _, x := range cs {
			if x != cs[0] {
				// x - x0 == c - c0
				xb, xc := linear(l.init[x])
				cb, cc := linear(l.init[cs[0]])
				if xb != cb {
					continue
				}
				r = append(r, lit(tEq(x, tBin(token.ADD, cs[0], tInt(xc-cc), I)), true))
			}
		}
	}
	return r
}

// callSafe: index and reflect operations of the handler that could panic.
func (v *typedView) callSafe(e *Event, q *Outcome) {
	switch {
	case e.kind == EvIndex && e.args[0] == v.params:
		f := e.facts.assume(lock(v.outs, q)...)
		if e.name == "slice" {
			ok := e.ok || f.Implies(lit(tLe(tInt(0), e.args[1]), true)) && f.Implies(lit(tLe(e.args[1], e.args[2]), true)) && f.Implies(lit(tLe(e.args[2], tLen(v.params)), true))
			v.ob(ok, "index", e.pos, "params that may not exist are taken: %s", e)
			return
		}
		ok := e.ok || f.Implies(lit(tLt(e.args[1], tLen(v.params)), true)) && f.Implies(lit(tLe(tInt(0), e.args[1]), true))
		v.ob(ok, "index", e.pos, "a param that may not exist is read: %s", e)
	case e.kind == EvAssert && len(e.args) > 0 && !e.ok:
		v.ob(false, "assert", e.pos, "a type assertion may fail: %s", e)
	case e.kind == EvCall && e.name == "(reflect.Value).IsNil" && !v.isVal(e.args[0]):
		x := e.args[0]
		ok := false
		for _, k := range []int64{18, 19, 20, 21, 22, 23, 26} {
			ok = ok || kindIs(e.facts, func(t *Term) bool { return t == x }, k) == 1
		}
		v.ob(ok, "isnil", e.pos, "IsNil may panic on %s", x)
	case e.kind == EvCall && e.name == "(reflect.Value).Type" && callTerm(e.args[0], "reflect.ValueOf") && !v.isVal(e.args[0]):
		v.ob(validVal(e.facts, e.args[0]) == 1, "null", e.pos, "a null param may crash the call")
	}
}

func validVal(f *Facts, val *Term) int {
	r := factVal(f, func(t *Term) bool { return callTerm(t, "(reflect.Value).IsValid") && t.args[0] == val })
	if r < 0 && callTerm(val, "reflect.ValueOf") {
		if n := isNil(f, val.args[0]); n >= 0 {
			r = 1 - n
		}
	}
	return r
}

func (v *typedView) numIns(f *Facts) []*Term {
	m := map[*Term]bool{}
	for _, l := range f.lits {
		subterms(l.t, func(x *Term) bool {
			if v.isNumIn(x) {
				m[x] = true
			}
			return true
		})
	}
	return sortedTerms(m)
}

// conv is one conversion of a param: the decode and where it goes.
type conv struct {
	param, err *Term
	out        *Term // value held by the result cell after the decode
	direct     *Term // reflect.New(T) decoded into
	newErr     *Term
	typ        *Term // declared type the result cell starts from
}

func (v *typedView) convs(q *Outcome) []conv {
	var r []conv
	for _, e := range callsNamed(q.evs, "(*mapstructure.Decoder).Decode") {
		for _, nd := range callsNamed(q.evs, "mapstructure.NewDecoder") {
			if e.args[0] != tExtract(nd.res, 0, e.args[0].typ) {
				continue
			}
			cfg := unIface(nd.args[0])
			s := structOf(deref(cfg.typ))
			mem := v.a.memOf(nd.heap, nil)
			v.c.plainDecoder("A08:"+v.name, v.a, q, nd)
			k := conv{param: e.args[1], err: e.res}
			for i := 0; s != nil && i < s.NumFields(); i++ {
				g := s.Field(i)
				x := mem.get(tFieldAddr(cfg, g.Name(), types.NewPointer(g.Type())), g.Type())
				switch g.Name() {
				case "Result":
					p := unIface(x)
					if p.op == OAlloc {
						k.out = mk(OOut, deref(p.typ), "", 0, e.res, p)
						st := mem.get(p, deref(p.typ))
						if callTerm(st, "(reflect.Value).Interface") && callTerm(st.args[0], "reflect.Zero") {
							k.typ = st.args[0].args[0]
						}
					} else if callTerm(p, "(reflect.Value).Interface") && callTerm(p.args[0], "reflect.New") {
						k.direct = p.args[0]
						k.typ = p.args[0].args[0]
					}
				}
			}
			r = append(r, k)
		}
	}
	return r
}

// paramsErr: the value is an RPC error of code -32602.
func (v *typedView) paramsErr(q *Outcome, e *Term) bool {
	x := unIface(e)
	if x.op != OAlloc {
		return false
	}
	code, _, _ := v.c.bodyOf(v.a, q, x)
	n, ok := v.c.codeOf(code)
	return ok && n == -32602
}

func (v *typedView) notCalled(q *Outcome) (few, bad bool) {
	f := q.facts
	v.ob(isNil(f, q.rets[1]) == 0 && isNil(f, q.rets[0]) == 1, "refusal", q.pos, "the function is not called and no error returned")
	v.ob(v.paramsErr(q, q.rets[1]), "code", q.pos, "params that do not fit are answered with %s", q.rets[1])
	I := types.Typ[types.Int]
	for _, n := range v.numIns(f) {
		few = few || f.Implies(lit(tLt(tBin(token.ADD, tLen(v.params), tInt(v.first), I), n), true))
	}
	for _, e := range callsNamed(q.evs, "mapstructure.NewDecoder") {
		bad = bad || isNil(f, extractErr(e.res, 1)) == 0
	}
	for _, k := range v.convs(q) {
		bad = bad || isNil(f, k.err) == 0 && derivesFrom(k.param, v.params)
	}
	for _, l := range f.lits {
		bad = bad || !l.val && callTerm(l.t, "(reflect.Type).AssignableTo") && derivesFrom(l.t.args[0], v.params)
	}
	v.ob(few || bad, "justified", q.pos, "a call may be refused although every param fits")
	return
}

// called: the argument list of the call.
func (v *typedView) called(q *Outcome, e *Event) {
	f := e.facts
	I := types.Typ[types.Int]
	v.ob(v.isVal(e.args[0]), "callee", e.pos, "the function called is %s", e.args[0])
	vari := factVal(f, func(t *Term) bool { return isCallOn(t, "(reflect.Type).IsVariadic", v.isType) })
	v.ob(vari == 1 && e.name == "(reflect.Value).CallSlice" || vari == 0 && e.name == "(reflect.Value).Call", "variadic", e.pos, "whether the function is variadic does not decide how it is called")
	args := e.args[1]
	// enough params
	enough := false
	nums := v.numIns(f)
	for _, n := range nums {
		enough = enough || f.Implies(lit(tLe(n, tBin(token.ADD, tLen(v.params), tInt(v.first), I)), true))
	}
	v.ob(enough, "enough", e.pos, "the function may be called with fewer params than it declares")
	p := *q
	p.facts = f.assume(lock(v.outs, q)...)
	if args.op == OMake {
		v.filled(&p, e, args)
		return
	}
	ss, ok := segs(v.outs, &p, args, nil)
	if !v.ob(ok, "args", e.pos, "cannot tell what the argument list %s holds", args) {
		return
	}
	if v.first == 1 {
		if !v.ob(len(ss) > 0 && ss[0].elem != nil && v.isFirst(ss[0].elem), "leading", e.pos, "the leading argument is not the request or context of the call") {
			return
		}
		ss = ss[1:]
	}
	if len(ss) == 0 {
		none := false
		for _, n := range nums {
			none = none || p.facts.Implies(lit(tLe(n, tInt(v.first)), true))
		}
		v.ob(none, "count", e.pos, "the function may be called with fewer arguments than it declares")
		return
	}
	if !v.ob(len(ss) == 1 && ss[0].loop != nil, "count", e.pos, "the argument list is not one conversion per declared parameter") {
		return
	}
	v.loop(&p, e, ss[0].loop, func(b *Outcome) (val, pos *Term) {
		n := b.next[ss[0].lv]
		if n != nil && n.op == OAppend && n.str == "" && len(n.args) == 2 && n.args[0] == ss[0].lv {
			return n.args[1], nil
		}
		return nil, nil
	})
}

// filled: a list made with one place per parameter, filled by index.
func (v *typedView) filled(q *Outcome, e *Event, args *Term) {
	if !v.ob(v.isNumIn(args.args[0]), "count", e.pos, "the argument list has length %s", args.args[0]) {
		return
	}
	if v.first == 1 {
		n := 0
		for _, s := range q.evs {
			if s.kind == EvStore && s.args[0].op == OIndexAddr && s.args[0].args[0] == args && constIs(s.args[0].args[1], 0) {
				n++
				v.ob(v.isFirst(s.args[1]), "leading", e.pos, "the leading argument is not the request or context of the call")
			}
		}
		v.ob(n == 1, "leading", e.pos, "the leading argument is not set")
	}
	for _, l := range loopsIn(q) {
		v.loop(q, e, l, func(b *Outcome) (val, pos *Term) {
			in := false
			for _, s := range b.evs {
				if s.kind == EvLoopEnter && s.loop.key == l.key {
					in = true
				}
				if in && s.kind == EvStore && s.args[0].op == OIndexAddr && s.args[0].args[0] == args {
					if val != nil {
						return nil, nil
					}
					val, pos = s.args[1], s.args[0].args[1]
				}
			}
			return
		})
	}
	v.ob(len(loopsIn(q)) == 1, "count", e.pos, "the argument list is not filled by one loop")
}

func (v *typedView) isFirst(t *Term) bool {
	if !callTerm(t, "reflect.ValueOf") {
		return false
	}
	x := unIface(t.args[0])
	switch v.spec {
	case "req":
		return x == v.req
	case "ctx":
		return x == v.c.fieldOf(v.req, v.f.ctx)
	}
	return false
}

// loop: every iteration converts the next param to the next declared type.
func (v *typedView) loop(q *Outcome, e *Event, l *LoopInfo, item func(b *Outcome) (val, pos *Term)) {
	I := types.Typ[types.Int]
	bs := rawBacks(v.outs, q, l)
	if !v.ob(len(bs) > 0, "loop", e.pos, "no param is converted") {
		return
	}
	// counters that move by one from a constant: lv = start + number of the iteration
	start := map[*Term]int64{}
	for _, lv := range l.vars {
		if !isIntType(lv.typ) {
			continue
		}
		ib, ic := linear(l.init[lv])
		ok := ib == nil
		for _, b := range bs {
			nb, nc := linear(b.next[lv])
			ok = ok && nb == lv && nc == 1
		}
		if ok {
			start[lv] = ic
		}
	}
	at := func(t *Term) (int64, bool) { // number of the iteration + k
		b, k := linear(t)
		if b == nil {
			return 0, false
		}
		s, ok := start[b]
		return s + k, ok
	}
	done := false
	for lv, s := range start {
		for _, n := range v.numIns(q.facts) {
			// arguments so far: first + lv - s
			done = done || q.facts.Implies(lit(tLe(n, tBin(token.ADD, lv, tInt(v.first-s), I)), true))
		}
	}
	v.ob(done, "all", e.pos, "the conversion may end before the last declared parameter")
	for _, b := range bs {
		val, pos := item(b)
		if !v.ob(val != nil, "item", b.pos, "an iteration does not convert one param") {
			continue
		}
		if pos != nil {
			k, ok := at(pos)
			v.ob(ok && k == v.first, "place", b.pos, "the converted param goes to position %s", pos)
		}
		T, par, why := v.converted(b, val)
		if !v.ob(T != nil, "value", b.pos, "the argument is %s: %s", val, why) {
			continue
		}
		i, ok := v.isIn(T)
		if v.ob(ok, "type", b.pos, "a param is converted to %s", T) {
			k, ok := at(i)
			v.ob(ok && k == v.first, "type", b.pos, "a param is converted to the type of parameter %s", i)
		}
		ok = par.op == OIndex && par.args[0] == v.params
		if v.ob(ok, "param", b.pos, "what is converted is %s", par) {
			k, ok := at(par.args[1])
			v.ob(ok && k == 0, "param", b.pos, "the param converted is that at %s", par.args[1])
		}
	}
}

// converted: val is param converted to type T, known to be assignable to it.
func (v *typedView) converted(b *Outcome, val *Term) (T, par *Term, why string) {
	f := b.facts
	for _, k := range v.convs(b) {
		if isNil(f, k.err) != 1 || k.typ == nil {
			continue
		}
		switch {
		case callTerm(val, "reflect.ValueOf") && k.out != nil && val.args[0] == k.out:
			if validVal(f, val) != 1 {
				return nil, nil, "it may be null"
			}
			fits := factVal(f, func(t *Term) bool {
				return callTerm(t, "(reflect.Type).AssignableTo") && callTerm(t.args[0], "(reflect.Value).Type") && t.args[0].args[0] == val && t.args[1] == k.typ
			})
			if fits != 1 {
				return nil, nil, "it may not fit the declared type"
			}
			return k.typ, k.param, ""
		case callTerm(val, "reflect.Zero") && val.args[0] == k.typ && k.out != nil && zeroJust(f, k.out):
			return k.typ, k.param, ""
		case callTerm(val, "(reflect.Value).Elem") && k.direct != nil && val.args[0] == k.direct:
			return k.typ, k.param, ""
		}
	}
	return nil, nil, "it is no successful conversion of a param"
}

// outcome: what the handler returns after the call.
func (v *typedView) outcome(q *Outcome, e *Event) {
	f := q.facts
	res := func(t *Term, n int64) bool {
		return t.op == OIndex && t.args[0] == e.res && constIs(t.args[1], n)
	}
	isErrVal := func(t *Term) bool { return res(t, 1) }
	isErrIface := func(t *Term) bool { return isCallOn(t, "(reflect.Value).Interface", isErrVal) }
	// is the error nil?
	nilE := -1
	ifn := factVal(f, func(t *Term) bool {
		return t.op == OBin && t.str == "==" && (t.args[0] == tNil && isErrIface(t.args[1]) || t.args[1] == tNil && isErrIface(t.args[0]))
	})
	vn := factVal(f, func(t *Term) bool { return isCallOn(t, "(reflect.Value).IsNil", isErrVal) })
	ptr := kindIs(f, isErrVal, 22)
	switch {
	case ifn == 1 || vn == 1:
		nilE = 1
	case vn == 0 || ifn == 0 && ptr == 0:
		nilE = 0
	case ifn == 0:
		v.ob(false, "nilerror", q.pos, "a nil pointer returned as error may be taken for an error")
		return
	}
	if !v.ob(nilE >= 0, "looked", q.pos, "the error of the function is not looked at") {
		return
	}
	r0, r1 := q.rets[0], q.rets[1]
	if nilE == 0 {
		v.ob(isNil(f, r0) == 1, "nores", q.pos, "a result is returned along with the error")
		same := isErrIface(unIface(r1)) || r1.op == OAssert && isErrIface(r1.args[0])
		not := factVal(f, func(t *Term) bool {
			return t.op == OTypeIs && isErrIface(t.args[0])
		}) == 0
		v.ob(same || not && isNil(f, r1) == 0, "error", q.pos, "the error of the function is returned as %s", r1)
		return
	}
	isRes := func(t *Term) bool {
		return isCallOn(t, "(reflect.Value).Interface", func(x *Term) bool { return res(x, 0) })
	}
	fails := false
	good := isRes(unIface(r0))
	for _, k := range v.convs(q) {
		if !isRes(unIface(k.param)) {
			continue
		}
		fails = fails || isNil(f, k.err) == 0
		good = good || isNil(f, k.err) == 1 && k.out != nil && r0 == k.out
	}
	for _, n := range callsNamed(q.evs, "mapstructure.NewDecoder") {
		fails = fails || isNil(f, extractErr(n.res, 1)) == 0
	}
	switch isNil(f, r1) {
	case 1:
		v.ob(good && !fails, "result", q.pos, "the result returned is %s", r0)
	case 0:
		v.ob(fails && isNil(f, r0) == 1, "converted", q.pos, "an error is returned although the function succeeded: %s", r1)
	default:
		v.ob(false, "unclear", q.pos, "whether the call fails does not follow from its path")
	}
}
