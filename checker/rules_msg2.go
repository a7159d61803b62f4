package main

// Messages, continued: M07, M08.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func unquote(s string) (string, error) { return strconv.Unquote(s) }

// ---- M07

type freshness struct {
	c       *Ctx
	callers map[*ssa.Function][]ssa.CallInstruction
	asValue map[*ssa.Function]bool // used as a value: callers unknown
}

func (c *Ctx) newFreshness() *freshness {
	fr := &freshness{c, map[*ssa.Function][]ssa.CallInstruction{}, map[*ssa.Function]bool{}}
	for _, f := range c.w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var skip ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						fr.callers[g] = append(fr.callers[g], ci)
						skip = ci.Common().Value
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok && onlyCalled(mc) {
					continue
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && *op != skip {
						fr.asValue[g] = true
					}
				}
			}
		}
	}
	return fr
}

// onlyCalled: the closure is used for nothing but calls of it.
func onlyCalled(mc *ssa.MakeClosure) bool {
	for _, r := range *mc.Referrers() {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		ci, ok := r.(ssa.CallInstruction)
		if !ok || ci.Common().Value != mc {
			return false
		}
		for _, a := range ci.Common().Args {
			if a == mc {
				return false
			}
		}
	}
	return true
}

// fresh: the pointer can only be to something allocated by the running
// function, its callers down the call graph, or callees that give back what
// they allocated; nothing shared.
func (fr *freshness) fresh(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.Const:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !fr.fresh(e, seen) {
				return false
			}
		}
		return true
	case *ssa.FieldAddr:
		return fr.fresh(x.X, seen)
	case *ssa.IndexAddr:
		return fr.fresh(x.X, seen)
	case *ssa.Slice:
		return fr.fresh(x.X, seen)
	case *ssa.MakeSlice:
		return true
	case *ssa.ChangeType:
		return fr.fresh(x.X, seen)
	case *ssa.MakeInterface:
		return fr.fresh(x.X, seen)
	case *ssa.Convert:
		return fr.fresh(x.X, seen)
	case *ssa.Extract:
		return fr.fresh(x.Tuple, seen)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		return fr.freshIn(x.X, seen)
	case *ssa.Call:
		g := x.Common().StaticCallee()
		if g == nil || g.Blocks == nil {
			return false
		}
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				for _, y := range r.Results {
					if types.Identical(y.Type(), x.Type()) || !isSingle(x.Type()) {
						if _, isP := y.Type().Underlying().(*types.Pointer); isP && !fr.fresh(y, seen) {
							return false
						}
					}
				}
			}
		}
		return true
	case *ssa.Parameter:
		f := x.Parent()
		if f.Object() != nil && f.Object().Exported() || fr.asValue[f] || len(fr.callers[f]) == 0 {
			return false
		}
		if f.Signature.Recv() != nil && f.Object() != nil && f.Object().Exported() {
			return false
		}
		for i, p := range f.Params {
			if p != x {
				continue
			}
			for _, ci := range fr.callers[f] {
				if i >= len(ci.Common().Args) || !fr.fresh(ci.Common().Args[i], seen) {
					return false
				}
			}
		}
		return true
	}
	return false
}

func isSingle(t types.Type) bool { _, ok := t.(*types.Tuple); return !ok }

// freshIn: everything stored in the local cell is fresh.
func (fr *freshness) freshIn(cell ssa.Value, seen map[ssa.Value]bool) bool {
	if fv, ok := cell.(*ssa.FreeVar); ok {
		f := fv.Parent()
		if f.Parent() == nil {
			return false
		}
		ok := false
		for _, b := range f.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, y := in.(*ssa.MakeClosure); y && mc.Fn == f {
					for i, v := range f.FreeVars {
						if v == fv {
							ok = true
							if !fr.freshIn(mc.Bindings[i], seen) {
								return false
							}
						}
					}
				}
			}
		}
		return ok
	}
	al, ok := cell.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == al && !fr.fresh(x.Val, seen) {
				return false
			}
			if x.Val == al {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.MakeClosure:
		case *ssa.MakeInterface:
			// handed to a decoder or errors.As: only what decodes into it is fresh
			for _, u := range *x.Referrers() {
				if ci, y := u.(ssa.CallInstruction); y {
					n := calleeName(ci.Common())
					if !strings.Contains(n, "Decode") && !strings.Contains(n, "Unmarshal") {
						return false
					}
				}
			}
		default:
			return false
		}
	}
	return true
}

func calleeName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return cc.Method.Name()
	}
	if g := cc.StaticCallee(); g != nil {
		return g.String()
	}
	return cc.Value.Name()
}

func (c *Ctx) rpcErrType() *types.Named {
	n := c.w.Type("jlib", "RPCError")
	if n == nil {
		c.fatal("anchor:type:RPCError", "type RPCError not found")
	}
	return n
}

func checkM07(c *Ctx) {
	en := c.rpcErrType()
	isErr := func(t types.Type) bool { return types.Identical(types.Unalias(t), en) }
	isErrPtr := func(t types.Type) bool {
		p, ok := t.Underlying().(*types.Pointer)
		return ok && isErr(p.Elem())
	}
	fr := c.newFreshness()
	nst := 0
	for _, f := range c.w.funcs {
		init := f.Synthetic != "" && f.Name() == "init"
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					// a package variable of the type (or pointing to it) is set
					if g := globalOf(x.Addr); g != nil && holdsErr(deref(g.Type()), isErr, 3) {
						c.ob(init, "M07:global:"+g.Name(), x.Pos(), "%s assigns to the shared error %s", shortFn(f), g.Name())
						continue
					}
					base := x.Addr
					if fa, ok := base.(*ssa.FieldAddr); ok && isErrPtr(fa.X.Type()) {
						base = fa.X
					} else if !isErrPtr(base.Type()) {
						continue
					}
					if init {
						continue
					}
					nst++
					c.ob(fr.fresh(base, map[ssa.Value]bool{}), "M07:store:"+shortFn(f), x.Pos(), "%s writes to an RPC error it may not have created", shortFn(f))
				case ssa.CallInstruction:
					// given to something that writes through it
					n := calleeName(x.Common())
					dec := strings.Contains(n, "Decode") || strings.Contains(n, "Unmarshal") || strings.HasSuffix(n, "reflect.ValueOf")
					for _, a := range x.Common().Args {
						if mi, ok := a.(*ssa.MakeInterface); ok && dec && isErrPtr(mi.X.Type()) {
							nst++
							c.ob(fr.fresh(mi.X, map[ssa.Value]bool{}), "M07:decode:"+shortFn(f), x.Pos(), "%s lets %s write to an RPC error it may not have created", shortFn(f), n)
						}
						// the address of a field of one leaves the function
						if fa, ok := a.(*ssa.FieldAddr); ok && isErrPtr(fa.X.Type()) {
							nst++
							c.ob(fr.fresh(fa.X, map[ssa.Value]bool{}), "M07:addr:"+shortFn(f), x.Pos(), "%s hands out the address of a field of an RPC error", shortFn(f))
						}
						if mi, ok := a.(*ssa.MakeInterface); ok {
							if fa, ok := mi.X.(*ssa.FieldAddr); ok && isErrPtr(fa.X.Type()) {
								nst++
								c.ob(fr.fresh(fa.X, map[ssa.Value]bool{}), "M07:addr:"+shortFn(f), x.Pos(), "%s hands out the address of a field of an RPC error", shortFn(f))
							}
							if g := globalOf(mi.X); g != nil && dec && holdsErr(deref(g.Type()), isErr, 3) {
								c.ob(false, "M07:global:"+g.Name(), x.Pos(), "%s lets %s assign to the shared error %s", shortFn(f), n, g.Name())
							}
						}
					}
				case *ssa.MapUpdate:
					// a map held as the data of one
					if !fromErrData(x.Map, isErrPtr) {
						continue
					}
					c.ob(false, "M07:data:"+shortFn(f), x.Pos(), "%s changes the data of an RPC error", shortFn(f))
				}
			}
		}
	}
	c.count("stores_to_rpc_errors", nst)
	// the predefined errors exist and are only errors of this package
	ng := 0
	for _, m := range c.w.pkgs["jlib"].Members {
		if g, ok := m.(*ssa.Global); ok && isErrPtr(deref(g.Type())) {
			ng++
		}
	}
	c.ob(ng > 0, "M07:vacuous", en.Obj().Pos(), "no predefined errors found")

	// WithData
	pt := types.NewPointer(en)
	fn := c.methOf(pt, "WithData")
	self, data := tSym("self", pt), tSym("data", types.NewInterfaceType(nil, nil))
	a := newAnalysis(c.w)
	a.facts0 = []Lit{lit(tEq(self, tNil), false)}
	n := 0
	for _, o := range c.run(a, fn, self, data) {
		if o.kind == OutLoop {
			continue
		}
		if !c.ob(o.kind == OutReturn, "M07:WithData", o.pos, "WithData may end in a %s", kindName(o.kind)) {
			continue
		}
		n++
		for _, e := range o.evs {
			if e.kind == EvStore || e.kind == EvMapUpdate || e.kind == EvMapDelete {
				c.ob(!derivesFrom(e.args[0], self), "M07:WithData:self", e.pos, "WithData changes its receiver: %s", e)
			}
		}
		r := unIface(o.rets[0])
		if !c.ob(r.op == OAlloc, "M07:WithData:new", o.pos, "WithData gives back %s, not a new error", r) {
			continue
		}
		mem := a.memOf(o.heap, o.vers)
		for _, k := range []string{"Code", "Message", "Data"} {
			got := mem.get(c.msgFieldAddrOf(r, k))
			want := c.fieldOf(self, k)
			if k == "Data" {
				want = data
			}
			c.ob(sameValue(o.facts, got, want), "M07:WithData:"+k, o.pos, "the %s of the new error is %s", strings.ToLower(k), got)
			c.ob(sameValue(o.facts, mem.get(c.msgFieldAddrOf(self, k)), c.fieldOf(self, k)), "M07:WithData:self", o.pos, "WithData changes the %s of its receiver", strings.ToLower(k))
		}
	}
	c.ob(n > 0, "M07:WithData", fn.Pos(), "WithData never returns")
}

func globalOf(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

func holdsErr(t types.Type, isErr func(types.Type) bool, depth int) bool {
	if isErr(t) {
		return true
	}
	if depth == 0 {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return holdsErr(u.Elem(), isErr, depth-1)
	case *types.Slice:
		return holdsErr(u.Elem(), isErr, depth-1)
	case *types.Array:
		return holdsErr(u.Elem(), isErr, depth-1)
	case *types.Map:
		return holdsErr(u.Elem(), isErr, depth-1)
	}
	return false
}

// fromErrData: the value was read from the Data field of an RPC error.
func fromErrData(v ssa.Value, isErrPtr func(types.Type) bool) bool {
	for {
		switch x := v.(type) {
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.Extract:
			v = x.Tuple
		case *ssa.UnOp:
			fa, ok := x.X.(*ssa.FieldAddr)
			return ok && isErrPtr(fa.X.Type())
		default:
			return false
		}
	}
}

// ---- M08

// quotedText: facts saying that the text t (a string, or the bytes it came
// from) is at least two characters long, starts with a quote, ends with one.
type quoted struct{ long, first, last []Lit }

func quotedLits(t *Term) quoted {
	B := types.Typ[types.Bool]
	texts := []*Term{t}
	if t.op == OConv {
		texts = append(texts, t.args[0])
	}
	q := quoted{}
	for _, x := range texts {
		q.long = append(q.long, lit(tLe(tInt(2), tLen(x)), true))
		for _, w := range []struct {
			n string
			l *[]Lit
			i *Term
		}{{"HasPrefix", &q.first, tInt(0)}, {"HasSuffix", &q.last, tBin(token.SUB, tLen(x), tInt(1), types.Typ[types.Int])}} {
			pkg, arg := "strings", tStr("\"")
			if isSliceT(x) {
				pkg, arg = "bytes", nil
			}
			if arg != nil {
				*w.l = append(*w.l, lit(mk(OCall, B, pkg+"."+w.n, 0, x, arg), true))
			}
			for _, at := range []*Term{mk(OIndex, types.Typ[types.Byte], "", 0, x, w.i), mk(OIndex, types.Universe.Lookup("byte").Type(), "", 0, x, w.i)} {
				*w.l = append(*w.l, lit(tEq(at, mkConst(types.Typ[types.Byte], 34)), true))
			}
		}
	}
	return q
}

func mkConst(t types.Type, n int64) *Term { return tConstV(constant.MakeInt64(n), t) }

func anyImplied(f *Facts, ls []Lit, v bool) bool {
	for _, l := range ls {
		if f.Implies(Lit{l.t, l.val == v}) {
			return true
		}
	}
	return false
}

func (q quoted) is(f *Facts) bool {
	return anyImplied(f, q.long, true) && anyImplied(f, q.first, true) && anyImplied(f, q.last, true)
}

func (q quoted) isNot(f *Facts) bool {
	return anyImplied(f, q.long, false) || anyImplied(f, q.first, false) || anyImplied(f, q.last, false)
}

func unConv(t *Term) *Term {
	for t != nil && t.op == OConv {
		t = t.args[0]
	}
	return t
}

func checkM08(c *Ctx) {
	n := c.w.Type("jlib", "Bigint")
	if n == nil {
		c.fatal("anchor:type:Bigint", "type Bigint not found")
	}
	pt := types.NewPointer(n)
	fn := c.methOf(pt, "UnmarshalJSON")
	self, data := tSym("self", pt), tSym("data", types.NewSlice(types.Typ[types.Byte]))
	a := newAnalysis(c.w)
	a.facts0 = []Lit{lit(tEq(self, tNil), false)}
	outs := c.run(a, fn, self, data)
	c.safeEvents("M08:safe", outs, EvIndex)
	text := func(t *Term) bool { // the text itself
		return unConv(t) == data
	}
	isNull := func(f *Facts) int {
		for _, t := range textTerms(outs, data) {
			if v := f.Val(tEq(t, tStr("null"))); v >= 0 {
				return v
			}
		}
		return -1
	}
	// the text between the quotes, given that it is quoted
	inner := func(o *Outcome, t *Term) (is, known bool) {
		switch {
		case t.op == OSlice && text(t.args[0]):
			end := tBin(token.SUB, tLen(t.args[0]), tInt(1), types.Typ[types.Int])
			end2 := tBin(token.SUB, tLen(data), tInt(1), types.Typ[types.Int])
			return t.args[1] == tInt(1) && (t.args[2] == end || t.args[2] == end2), true
		case t.op == OConv:
			x := t.args[0]
			if x.op == OSlice && text(x.args[0]) {
				end := tBin(token.SUB, tLen(data), tInt(1), types.Typ[types.Int])
				return x.args[1] == tInt(1) && x.args[2] == end, true
			}
		case t.op == OCall && (t.str == "strings.TrimSuffix" || t.str == "strings.TrimPrefix") && t.args[1] == tStr("\""):
			u := t.args[0]
			return u.op == OCall && u.str != t.str && (u.str == "strings.TrimSuffix" || u.str == "strings.TrimPrefix") && u.args[1] == tStr("\"") && text(u.args[0]), true
		}
		return false, false
	}
	nok, nnull, nbad := 0, 0, 0
	for _, o := range outs {
		if o.kind == OutLoop {
			continue
		}
		if !c.ob(o.kind == OutReturn, "M08:ends", o.pos, "decoding a Bigint may end in a %s", kindName(o.kind)) {
			continue
		}
		f := o.facts
		var writes []*Event
		for _, e := range o.evs {
			for i, x := range e.args {
				if unConv(x) == self && (e.kind == EvCall && !pureCalls[e.name] || e.kind == EvStore && i == 0) {
					writes = append(writes, e)
				}
			}
		}
		var parse *Event
		for _, e := range callsNamed(o.evs, "(*big.Int).SetString") {
			parse = e
		}
		switch isNil(f, o.rets[0]) {
		case 1:
			if isNull(f) == 1 {
				nnull++
				c.ob(len(writes) == 0, "M08:null", o.pos, "null changes the value")
				continue
			}
			nok++
			if !c.ob(parse != nil, "M08:accept", o.pos, "decoding succeeds without parsing the text") {
				continue
			}
			sd := parse.args[1]
			good := text(sd)
			if in, _ := inner(o, sd); in {
				good = c.quotedAny(outs, data).is(f)
			} else if sd.op == OOut {
				good = jsonString(f, sd, text)
			}
			c.ob(good, "M08:text", parse.pos, "what is parsed is %s, not the text or the part between its quotes", sd)
			c.ob(parse.args[2] == tInt(10), "M08:base", parse.pos, "the text is parsed with base %s", parse.args[2])
			c.ob(f.Implies(lit(tExtract(parse.res, 1, types.Typ[types.Bool]), true)), "M08:accept", o.pos, "decoding succeeds although the text may not be a decimal integer")
			set := false
			for _, e := range writes {
				v := tExtract(parse.res, 0, nil)
				switch {
				case e == parse:
					set = true
				case e.kind == EvCall && e.name == "(*big.Int).Set" && unConv(e.args[0]) == self:
					set = sameBig(e.args[1], v, parse.args[0])
				case e.kind == EvStore && e.args[0] == self:
					y := unConv(e.args[1])
					set = y.op == ODeref && sameBig(y.args[0], v, parse.args[0])
				default:
					c.ob(false, "M08:write", e.pos, "the value is also changed by %s", e)
				}
			}
			c.ob(set, "M08:value", o.pos, "the value is not set to the parsed integer")
		case 0:
			nbad++
			just := parse != nil && f.Implies(lit(tExtract(parse.res, 1, types.Typ[types.Bool]), false)) && parse.args[2] == tInt(10)
			if just {
				sd := parse.args[1]
				in, _ := inner(o, sd)
				q := c.quotedAny(outs, data)
				just = text(sd) && q.isNot(f) || in && q.is(f) || sd.op == OOut && jsonString(f, sd, text)
			}
			c.ob(just && isNull(f) == 0, "M08:refuse", o.pos, "decoding fails although the text may be a decimal integer or null")
		default:
			c.ob(false, "M08:result", o.pos, "the outcome %s of decoding is not decided", o.rets[0])
		}
	}
	c.ob(nok > 0 && nnull > 0 && nbad > 0, "M08:vacuous", fn.Pos(), "decoding a Bigint never succeeds, never fails or never meets null")

	// marshalling
	mfn := c.w.MethodOf(n, "MarshalJSON")
	if !c.ob(mfn != nil, "M08:marshal", n.Obj().Pos(), "Bigint values have no MarshalJSON") {
		return
	}
	a = newAnalysis(c.w)
	val := tSym("self", n)
	m := 0
	for _, o := range c.run(a, mfn, val) {
		if o.kind == OutLoop {
			continue
		}
		if !c.ob(o.kind == OutReturn, "M08:marshal", o.pos, "encoding a Bigint may end in a %s", kindName(o.kind)) {
			continue
		}
		m++
		c.ob(isNil(o.facts, o.rets[1]) == 1 || o.rets[1].op == OExtract && o.rets[1].args[0].str == "json.Marshal", "M08:marshal", o.pos, "encoding a Bigint may fail")
		var digits *Term
		t := unConv(o.rets[0])
		switch {
		case t.op == OBin && t.str == "+s":
			x, y := t.args[0], t.args[1]
			if x == tStr("\"") && y.op == t.op && y.args[1] == tStr("\"") {
				digits = y.args[0]
			} else if y == tStr("\"") && x.op == t.op && x.args[0] == tStr("\"") {
				digits = x.args[1]
			}
		case t.op == OExtract && t.args[0].str == "json.Marshal":
			digits = unIface(t.args[0].args[0])
		case t.op == OCall && t.str == "strconv.Quote":
			digits = t.args[0]
		}
		ok := digits != nil && digits.op == OCall && (digits.str == "(*big.Int).String" || digits.str == "(*big.Int).Text" && digits.args[1] == tInt(10))
		if ok {
			x := unConv(digits.args[0])
			if x.op == OAlloc {
				v := o.get(a, x, deref(x.typ))
				ok = unConv(v) == val
			} else {
				ok = x == val
			}
		}
		c.ob(ok, "M08:marshal", o.pos, "a Bigint is encoded as %s, not as its decimal digits in quotes", o.rets[0])
	}
	c.ob(m > 0, "M08:marshal", mfn.Pos(), "encoding a Bigint never returns")
}

func sameBig(x, v, recv *Term) bool {
	x = unConv(x)
	return x == unConv(recv) || x.op == OExtract && v != nil && v.op == OExtract && x.args[0] == v.args[0] && x.n == v.n
}

// jsonString: t is what decoding the text as a JSON string gave, without error.
func jsonString(f *Facts, t *Term, text func(*Term) bool) bool {
	call := t.args[0]
	if call.op != OCall || call.str != "json.Unmarshal" || !text(call.args[0]) {
		return false
	}
	return isNil(f, call) == 1
}

// textTerms: the text and its conversions as they occur in the facts.
func textTerms(outs []*Outcome, data *Term) []*Term {
	m := map[*Term]bool{data: true}
	for _, o := range outs {
		for _, l := range o.facts.lits {
			subterms(l.t, func(x *Term) bool {
				if unConv(x) == data {
					m[x] = true
				}
				return true
			})
		}
	}
	return sortedTerms(m)
}

func (c *Ctx) quotedAny(outs []*Outcome, data *Term) quoted {
	q := quoted{}
	for _, t := range textTerms(outs, data) {
		p := quotedLits(t)
		q.long = append(q.long, p.long...)
		q.first = append(q.first, p.first...)
		q.last = append(q.last, p.last...)
	}
	return q
}
