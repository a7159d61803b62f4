package main

// The transports of streaming clients (K07, K08, K10), the pending table (K04,
// K05) and the message handler (K09).

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("K10", "WriteMessage and ReadMessage of every transport are interpreted path by path: a path that succeeds wrote exactly the encoding of its message, as one text frame or line of the connection, or gives back exactly what was parsed from one frame or line of it", func(c *Ctx) {
		v := c.clientView("K10")
		for _, t := range v.transports() {
			v.transport(t)
		}
		c.count("transports", len(v.transports()))
	})
}

// ---- transports

func (v *cliView) obk(id string, ok bool, key string, o *Outcome, f string, args ...interface{}) bool {
	if v.id != id {
		return ok
	}
	return v.ob(ok, key, o, f, args...)
}

// changing: the fields of the transport its methods store to.
func (v *cliView) changing(t *types.Named) map[string]bool {
	m := map[string]bool{}
	ms := types.NewMethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		fn := v.c.methOf(types.NewPointer(t), ms.At(i).Obj().Name())
		if fn == nil {
			continue
		}
		for k := range modFields(v.c.w, fn, map[*ssa.Function]bool{}) {
			if strings.HasPrefix(k, tkey(t)+".") {
				m[k] = true
			}
		}
	}
	return m
}

// guards: the changing fields only stored to while one lock of the transport
// is held, so that they keep their values while it is held.
func (v *cliView) guards(t *types.Named, vol map[string]bool) map[string]string {
	self := tSym("self", types.NewPointer(t))
	by := map[string]map[string]int{} // field -> lock -> stores with it held
	all := map[string]int{}
	seen := map[ssa.Instruction]bool{}
	ms := types.NewMethodSet(self.typ)
	for i := 0; i < ms.Len(); i++ {
		fn := v.c.methOf(self.typ, ms.At(i).Obj().Name())
		if fn == nil || !ms.At(i).Obj().Exported() {
			continue
		}
		a := newAnalysis(v.c.w, "jlib.ParseBytes", "jlib.MessageBytes", "jlib.DecodeMessage", "(*jlibhttp.StreamingClient).Log")
		for _, o := range v.c.run(a, fn, self) {
			for i, e := range o.evs {
				if e.kind != EvStore || !vol[verKey(e.args[0])] {
					continue
				}
				k := verKey(e.args[0])
				all[k]++
				seen[e.instr] = true
				if by[k] == nil {
					by[k] = map[string]int{}
				}
				for l, n := range heldLocks(o.evs[:i]) {
					if n > 0 {
						by[k][l]++
					}
				}
			}
		}
	}
	// no other function stores to them
	for _, fn := range v.c.w.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fa.Referrers() == nil {
					continue
				}
				st := structOf(deref(fa.X.Type()))
				if st == nil {
					continue
				}
				k := tkey(deref(fa.X.Type())) + "." + st.Field(fa.Field).Name()
				if !vol[k] {
					continue
				}
				for _, r := range *fa.Referrers() {
					if u, ok := r.(*ssa.UnOp); ok && u.X == fa || seen[r] {
						continue
					}
					delete(by, k)
				}
			}
		}
	}
	g := map[string]string{}
	for k, ls := range by {
		for l, n := range ls {
			if n == all[k] && strings.HasPrefix(l, tkey(t)+".") && (g[k] == "" || l < g[k]) {
				g[k] = l
			}
		}
	}
	return g
}

// constErr: t is an error variable that always holds the error made for it.
func (c *Ctx) constErr(t *Term) bool { return madeOnce(unIface(t)) }

func (c *Ctx) isErr(f *Facts, t *Term) bool { return isNil(f, t) == 0 || c.constErr(t) }

func (v *cliView) transport(t *types.Named) {
	name := t.Obj().Name()
	vol := v.changing(t)
	guard := v.guards(t, vol)
	self := tSym("self", types.NewPointer(t))
	run := func(m string, params ...*Term) []*Outcome {
		fn := v.c.methOf(self.typ, m)
		a := newAnalysis(v.c.w, "jlib.ParseBytes", "jlib.MessageBytes", "jlib.DecodeMessage", "(*jlibhttp.StreamingClient).Log")
		a.volatile, a.guarded, a.derefs = vol, guard, true
		outs := v.c.run(a, fn, append([]*Term{self}, params...)...)
		v.c.site(fn.Pos(), name+"."+m)
		for _, o := range outs {
			for _, e := range o.evs {
				if e.kind == EvDeref && v.id == "K08" && unDerefField(e.args[0], vol) != "" {
					v.obe(e.ok || isNil(e.facts, e.args[0]) == 0, name+":nil", e, "%s.%s uses something that may be gone: %s", name, m, e.args[0])
				}
				if e.kind != EvCall || e.dyn || e.defr && len(e.args) == 0 || len(e.args) == 0 {
					continue
				}
				r := e.args[0]
				isRecv := e.name == "jlib.DecodeMessage" || strings.HasPrefix(e.name, "(")
				if !isRecv || unDerefField(r, vol) == "" {
					continue
				}
				v.obk("K08", isNil(e.facts, unIface(r)) == 0, name+":nil", o, "%s.%s calls %s on a connection that may have been closed meanwhile", name, m, e.name)
			}
		}
		return outs
	}
	isVol := func(x *Term) bool { return unDerefField(x, vol) != "" }
	// reading
	good, errs, skips := 0, 0, 0
	for _, o := range run("ReadMessage") {
		if !v.obk("K08", o.kind == OutReturn, name+":read", o, "%s.ReadMessage ends in a %s", name, kindName(o.kind)) || o.kind != OutReturn {
			continue
		}
		f := o.facts
		isE := v.c.isErr(f, o.rets[2])
		ok := f.Val(o.rets[1])
		failed := func(what string) {
			errs++
			v.obk("K08", isE, name+":readerr", o, "%s.ReadMessage returns no error although %s", name, what)
			v.obk("K08", ok == 0, name+":readerr", o, "%s.ReadMessage returns a message although %s", name, what)
		}
		ops := callsNamed(o.evs, "(*websocket.Conn).ReadMessage", "jlib.DecodeMessage", "(*websocket.Conn).NextReader", "(*json.Decoder).Decode")
		if len(ops) == 0 {
			failed("nothing was read")
			continue
		}
		e := ops[0]
		if !v.obk("K10", len(ops) == 1, name+":one", o, "%s.ReadMessage reads several messages", name) {
			continue
		}
		v.obk("K10", isVol(e.args[0]), name+":conn", o, "%s.ReadMessage reads %s, not its connection", name, e.args[0])
		var msg *Term
		switch e.name {
		case "(*websocket.Conn).ReadMessage":
			switch isNil(f, extractErr(e.res, 2)) {
			case 0:
				failed("reading failed")
				continue
			case -1:
				v.obk("K08", false, name+":readerr", o, "%s.ReadMessage may not see an error", name)
				continue
			}
			switch f.Val(tEq(tExtract(e.res, 0, types.Typ[types.Int]), tInt(1))) {
			case 0:
				skips++
				v.obk("K08", ok == 0 && isNil(f, o.rets[2]) == 1, name+":nontext", o, "%s.ReadMessage does not skip a frame that is not text", name)
				continue
			case -1:
				v.obk("K08", false, name+":nontext", o, "a path of %s.ReadMessage does not depend on whether a frame is text", name)
				continue
			}
			ps := callsNamed(o.evs, "jlib.ParseBytes")
			if !v.obk("K10", len(ps) == 1 && ps[0].args[0] == tExtract(e.res, 1, ps[0].args[0].typ), name+":parse", o, "%s.ReadMessage does not parse the frame it read", name) || len(ps) != 1 {
				continue
			}
			switch isNil(f, extractErr(ps[0].res, 1)) {
			case 0:
				failed("a frame does not parse")
				continue
			case -1:
				v.obk("K08", false, name+":readerr", o, "%s.ReadMessage may not see an error", name)
				continue
			}
			msg = tExtract(ps[0].res, 0, v.c.typ("jlib", "Message"))
		case "jlib.DecodeMessage":
			skips++
			switch isNil(f, extractErr(e.res, 1)) {
			case 0:
				failed("reading failed")
				continue
			case -1:
				v.obk("K08", false, name+":readerr", o, "%s.ReadMessage may not see an error", name)
				continue
			}
			msg = tExtract(e.res, 0, v.c.typ("jlib", "Message"))
		default:
			v.ob(false, name+":how", o, "%s.ReadMessage reads with %s, which is not understood", name, e.name)
			continue
		}
		good++
		v.obk("K10", isNil(f, o.rets[2]) == 1 && ok == 1, name+":ok", o, "%s.ReadMessage fails although it read a message", name)
		v.obk("K10", unIface(o.rets[0]) == unIface(msg), name+":msg", o, "%s.ReadMessage gives back something else than it read", name)
	}
	v.c.ob(good > 0 && errs > 0 && skips > 0, v.id+":"+name+":cases", t.Obj().Pos(), "%s.ReadMessage has no path for success or none for failure", name)
	// writing
	good, errs = 0, 0
	m := tSym("msg", v.c.typ("jlib", "Message"))
	for _, o := range run("WriteMessage", m) {
		if !v.obk("K08", o.kind == OutReturn, name+":write", o, "%s.WriteMessage ends in a %s", name, kindName(o.kind)) || o.kind != OutReturn {
			continue
		}
		f := o.facts
		isE := v.c.isErr(f, o.rets[0])
		encs := callsNamed(o.evs, "jlib.MessageBytes")
		var enc *Event
		for _, e := range encs {
			if unIface(e.args[0]) == m {
				enc = e
			}
		}
		var wr []*Event
		for _, e := range o.evs {
			if e.kind == EvCall && (e.name == "(*websocket.Conn).WriteMessage" || e.name == "(*websocket.Conn).NextWriter" || e.name == "(*websocket.Conn).WriteJSON" || e.name == "io.WriteString" ||
				strings.HasSuffix(e.name, ").Write") || strings.HasPrefix(e.name, "fmt.Fprint")) {
				wr = append(wr, e)
			}
		}
		if len(wr) == 0 {
			errs++
			v.obk("K08", isE, name+":writeerr", o, "%s.WriteMessage returns no error although nothing was written", name)
			continue
		}
		if !v.obk("K10", enc != nil && isNil(f, extractErr(enc.res, 1)) == 1, name+":encode", o, "%s.WriteMessage writes although encoding its message may have failed", name) || enc == nil {
			continue
		}
		failed := false
		var parts []*Term
		for _, e := range wr {
			er := e.res
			switch e.name {
			case "(*websocket.Conn).WriteMessage":
				v.obk("K10", f.Val(tEq(e.args[1], tInt(1))) == 1, name+":frame", o, "%s.WriteMessage does not write a text frame", name)
				parts = append(parts, byteParts(e.args[2])...)
			case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
				parts = append(parts, printParts(e)...)
				er = extractErr(e.res, 1)
			case "(*websocket.Conn).NextWriter", "(*websocket.Conn).WriteJSON":
				v.ob(false, name+":how", o, "%s.WriteMessage writes with %s, which is not understood", name, e.name)
				return
			default:
				parts = append(parts, byteParts(e.args[1])...)
				er = extractErr(e.res, 1)
			}
			v.obk("K10", isVol(unIface(e.args[0])), name+":conn", o, "%s.WriteMessage writes to %s, not to its connection", name, e.args[0])
			switch isNil(f, er) {
			case 0:
				failed = true
			case -1:
				if o.rets[0] != er {
					v.obk("K08", false, name+":writeerr", o, "%s.WriteMessage may not see an error", name)
				}
			}
		}
		if failed {
			errs++
			v.obk("K08", isE, name+":writeerr", o, "%s.WriteMessage returns no error although writing failed", name)
			continue
		}
		good++
		v.obk("K10", isNil(f, o.rets[0]) == 1 || o.rets[0] == wr[len(wr)-1].res, name+":ok", o, "%s.WriteMessage fails although it wrote its message", name)
		data := tExtract(enc.res, 0, types.NewSlice(types.Typ[types.Byte]))
		var okD bool
		if strings.Contains(wr[0].name, "websocket") {
			okD = len(parts) == 1 && len(wr) == 1 && parts[0] == data
		} else {
			okD = len(parts) == 2 && parts[0] == data && parts[1].op == OConst && constStr(parts[1]) == "\n"
		}
		v.obk("K10", okD, name+":data", o, "%s.WriteMessage does not write exactly the encoding of its message, once", name)
	}
	v.c.ob(good > 0 && errs > 0, v.id+":"+name+":cases", t.Obj().Pos(), "%s.WriteMessage has no path for success or none for failure", name)
}

// unDerefField: the field of the transport x is the value of, "" if none.
func unDerefField(x *Term, fields map[string]bool) string {
	x = unIface(x)
	if x.op == ODeref && x.args[0].op == OFieldAddr {
		if k := verKey(x.args[0]); fields[k] {
			return k
		}
		return unDerefField(x.args[0].args[0], fields)
	}
	if x.op == OFieldAddr {
		return unDerefField(x.args[0], fields)
	}
	if x.op == OField {
		return unDerefField(x.args[0], fields)
	}
	return ""
}

// connectedness: Connected tells whether a field is set that Connect sets
// exactly when it succeeds and Close clears.
func (v *cliView) connectedness(t *types.Named) {
	name := t.Obj().Name()
	self := tSym("self", types.NewPointer(t))
	run := func(m string) (*Analysis, []*Outcome) {
		a := newAnalysis(v.c.w, "(*jlibhttp.StreamingClient).Log")
		return a, v.c.run(a, v.c.methOf(self.typ, m), self)
	}
	_, conn := run("Connected")
	st := structOf(t)
	found := ""
	var why string
	for i := 0; i < st.NumFields(); i++ {
		fl := st.Field(i)
		switch fl.Type().Underlying().(type) {
		case *types.Pointer, *types.Interface:
		default:
			continue
		}
		val := v.c.fieldOf(self, fl.Name())
		ok := len(conn) > 0
		for _, o := range conn {
			if o.kind != OutReturn {
				ok = false
				continue
			}
			for _, nilV := range []bool{true, false} {
				f := o.facts.with(Lit{tEq(val, tNil), nilV})
				if f.Consistent() && f.Val(o.rets[0]) != b2i(!nilV) {
					ok = false
				}
			}
		}
		if ok {
			found = fl.Name()
		}
	}
	if !v.c.ob(found != "", v.id+":"+name+":Connected", t.Obj().Pos(), "%s.Connected does not tell whether a field is set%s", name, why) {
		return
	}
	ad := ptrField(self, found)
	a, outs := run("Connect")
	good, bad := 0, 0
	for _, o := range outs {
		if o.kind != OutReturn {
			v.ob(o.kind == OutLoop, name+":Connect", o, "%s.Connect ends in a %s", name, kindName(o.kind))
			continue
		}
		var stores []*Event
		for _, e := range o.evs {
			if e.kind == EvStore && e.args[0] == ad {
				stores = append(stores, e)
			}
		}
		switch {
		case isNil(o.facts, o.rets[0]) == 1:
			good++
			x := o.get(a, ad, deref(ad.typ))
			ok := len(stores) > 0 && (isNil(o.facts, x) == 0 || x.op == OExtract && callOK(o, x))
			v.ob(ok, name+":Connect", o, "%s.Connect succeeds without a connection", name)
		case v.c.isErr(o.facts, o.rets[0]):
			bad++
			v.ob(len(stores) == 0, name+":Connect", o, "%s.Connect fails but leaves a connection behind", name)
		default:
			v.ob(false, name+":Connect", o, "whether %s.Connect fails is not known", name)
		}
	}
	v.c.ob(good > 0 && bad > 0, v.id+":"+name+":Connect", t.Obj().Pos(), "%s.Connect cannot succeed or cannot fail", name)
	a, outs = run("Close")
	for _, o := range outs {
		v.ob(o.kind == OutReturn, name+":Close", o, "%s.Close ends in a %s", name, kindName(o.kind))
		x := o.get(a, ad, deref(ad.typ))
		v.ob(isNil(o.facts, x) == 1, name+":Close", o, "%s.Close leaves the client connected", name)
		old := v.c.fieldOf(self, found)
		if isNil(o.facts, old) == 0 {
			ok := false
			for _, e := range o.evs {
				if e.kind == EvCall && strings.HasSuffix(e.name, ".Close") && len(e.args) > 0 && mentions(e.args[0], old) {
					ok = true
				}
			}
			v.ob(ok, name+":Close", o, "%s.Close does not close the connection", name)
		}
	}
}

func mentions(t, x *Term) bool {
	r := false
	subterms(t, func(y *Term) bool {
		if y == x {
			r = true
		}
		return !r
	})
	return r
}

// callOK: x is a result of a call whose error is nil on the path.
func callOK(o *Outcome, x *Term) bool {
	for _, e := range o.evs {
		if e.kind == EvCall && e.res != nil && e.res.op == OTuple {
			n := len(e.res.args)
			for _, r := range e.res.args {
				if r == x && isNil(o.facts, e.res.args[n-1]) == 1 {
					return true
				}
			}
		}
	}
	return false
}

// ---- K09

func (v *cliView) replyTable(o *Outcome, e *Event) bool {
	return e.kind == EvCall && strings.HasPrefix(e.name, "(*sync.Map).") && v.isFieldAddr(e.args[0], v.fPend)
}

// pendingAssert: what is asserted was found in the pending table, and nothing
// else than that type is ever put there.
func (v *cliView) pendingAssert(e *Event) bool {
	x := e.args[0]
	as, y := e.instr.(*ssa.TypeAssert)
	if !y || x.op != OExtract || x.n != 0 || !callTerm(x.args[0], "(*sync.Map).Load", "(*sync.Map).LoadAndDelete") || !v.isFieldAddr(x.args[0].args[0], v.fPend) {
		return false
	}
	if e.facts.Val(tExtract(x.args[0], 1, types.Typ[types.Bool])) != 1 {
		return false
	}
	puts := 0
	for _, f := range v.c.w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, y := in.(*ssa.FieldAddr)
				if !y || !types.Identical(deref(fa.X.Type()), v.st) || structOf(v.st).Field(fa.Field).Name() != v.fPend {
					continue
				}
				for _, r := range *fa.Referrers() {
					call, y := r.(ssa.CallInstruction)
					if !y || call.Common().StaticCallee() == nil {
						return false
					}
					switch n := shortFn(call.Common().StaticCallee()); n {
					case "(*sync.Map).Load", "(*sync.Map).LoadAndDelete", "(*sync.Map).Delete", "(*sync.Map).CompareAndDelete", "(*sync.Map).Range", "(*sync.Map).Clear":
					case "(*sync.Map).Store", "(*sync.Map).LoadOrStore", "(*sync.Map).Swap":
						mi, y := call.Common().Args[2].(*ssa.MakeInterface)
						if !y || !types.Identical(mi.X.Type(), as.AssertedType) {
							return false
						}
						puts++
					default:
						return false
					}
				}
			}
		}
	}
	return puts > 0
}

func (v *cliView) handed() {
	g := v.loopOf(true)
	for _, o := range g.outs {
		for _, e := range o.evs {
			if e.kind == EvAssert {
				v.c.ob(e.ok || v.pendingAssert(e), "K09:safe", e.pos, "possible failed type assertion of %s", e.args[0])
			}
		}
	}
	ntf, late, mine := 0, 0, 0
	for _, o := range g.outs {
		if stuckAway(g.outs, o) {
			continue
		}
		evs := iteration(o)
		rd := callsNamed(evs, trans+"ReadMessage")
		if o.kind == OutPanic {
			v.ob(len(rd) == 0, "panic", o, "a message received makes the reader panic")
			continue
		}
		var hs []*Event
		for _, e := range evs {
			if v.isHandlerCall(e, "MessageHandler") {
				hs = append(hs, e)
			}
			v.obe(e.kind != EvGo, "order", e, "what is received is passed on in another goroutine, out of order")
		}
		if len(rd) != 1 || isNil(o.facts, extractErr(rd[0].res, 2)) != 1 || o.facts.Val(tExtract(rd[0].res, 1, types.Typ[types.Bool])) != 1 {
			for _, h := range hs {
				v.obe(false, "nothing", h, "the message handler is called although no message was read")
			}
			continue
		}
		msg := tExtract(rd[0].res, 0, v.c.typ("jlib", "Message"))
		h := v.c.nowField(g.a, rd[0], v.self, v.fMsgH)
		reply := o.facts.Implies(lit(tKind(msg, kRes|kErr), true))
		other := o.facts.Implies(lit(tKind(msg, kRes|kErr), false))
		var tab []*Event
		for _, e := range evs {
			if v.replyTable(o, e) {
				tab = append(tab, e)
			}
		}
		want := -1
		switch {
		case other:
			ntf++
			want = 1
			v.ob(len(tab) == 0, "table", o, "a request or notify from the server takes a pending call")
		case reply:
			took := -1
			for _, e := range tab {
				if e.name == "(*sync.Map).LoadAndDelete" {
					took = o.facts.Val(tExtract(e.res, 1, types.Typ[types.Bool]))
				}
			}
			switch took {
			case 1:
				mine++
				want = 0
			case 0:
				late++
				want = 1
			default:
				v.ob(false, "lookup", o, "a reply is not looked up among the pending calls")
				continue
			}
		default:
			v.ob(false, "kind", o, "a path does not depend on whether the message read is a reply")
			continue
		}
		if want == 1 {
			switch isNil(o.facts, h) {
			case 1:
				v.ob(len(hs) == 0, "missing", o, "a missing message handler is called")
			case 0:
				ok := len(hs) == 1 && hs[0].kind == EvCall && hs[0].callee == h && len(hs[0].args) == 1 && unIface(hs[0].args[0]) == msg
				v.ob(ok, "once", o, "the message received is not passed to the message handler once")
				if ok {
					v.obe(!hs[0].defr || true, "once", hs[0], "")
				}
			default:
				v.ob(false, "missing", o, "a path does not depend on whether there is a message handler")
			}
		} else {
			v.ob(len(hs) == 0, "mine", o, "a reply to a pending call is passed to the message handler")
		}
		v.ob(o.kind == OutLoop, "goeson", o, "the reader stops after a message")
	}
	v.c.ob(ntf > 0 && late > 0 && mine > 0, "K09:cases", g.fn.Pos(), "not every kind of message is handled")
	for _, r := range v.roots() {
		if r.fn == g.fn {
			continue
		}
		for _, o := range r.outs {
			for _, e := range o.evs {
				v.obe(!v.isHandlerCall(e, "MessageHandler"), "elsewhere", e, "%s calls the message handler", r.name)
			}
		}
	}
}

// ---- K04, K05

// call is the interpretation of Call.
type callView struct {
	*cliView
	a        *Analysis
	outs     []*Outcome
	ctx, req *Term
	exp      []*gor // expiry goroutines
}

func (v *cliView) callView() *callView {
	fn := v.c.method("jlibhttp", "StreamingClient", "Call")
	w := &callView{cliView: v}
	w.ctx, w.req = tSym("rootCtx", fn.Params[1].Type()), tSym("reqmsg", fn.Params[2].Type())
	w.a, w.outs = v.run(fn, []string{"(*jlibhttp.StreamingClient).Connect", "(*jlibhttp.StreamingClient).Send"}, v.self, w.ctx, w.req)
	v.c.site(fn.Pos(), "StreamingClient.Call")
	w.lastTries()
	n := len(v.gors)
	seen := map[string]bool{}
	v.perArgs = true
	for _, o := range w.outs {
		for _, e := range o.evs {
			if e.kind == EvGo {
				v.goroutine(e, w.a, nil, seen)
			}
		}
	}
	w.exp = v.gors[n:]
	// what a pending request is
	for _, o := range w.outs {
		for _, e := range o.evs {
			if v.replyTable(o, e) && e.name == "(*sync.Map).LoadOrStore" {
				if nt, ok := types.Unalias(deref(unIface(e.args[2]).typ)).(*types.Named); ok {
					v.pt = nt
				}
			}
		}
	}
	if v.pt == nil {
		v.c.fatal(v.id+":register", "no path of Call registers a pending request with LoadOrStore")
	}
	v.pReq = v.c.fieldByType(v.pt, "the request", func(t types.Type) bool { return isPtrTo(t, "jlib", "RequestMessage") })
	v.pChan = v.c.fieldByType(v.pt, "the result channel", func(t types.Type) bool { return isChanOf(t, types.SendRecv, isMsgIface) })
	return w
}

func isSend(e *Event) bool {
	return e.kind == EvCall && isMeth(e.fn, "StreamingClient", "Send")
}

func (w *callView) tableOps(o *Outcome, evs []*Event, name string) (r []*Event) {
	for _, e := range evs {
		if w.replyTable(o, e) && (name == "" || e.name == "(*sync.Map)."+name) {
			r = append(r, e)
		}
	}
	return
}

// lastTries: a loop that ends once LoadOrStore has stored, its result being
// carried round, is taken for the try that ended it.
func (w *callView) lastTries() {
	bt := types.Typ[types.Bool]
	try := func(o *Outcome, evs []*Event, t *Term) *Event {
		for _, e := range w.tableOps(o, evs, "LoadOrStore") {
			if tExtract(e.res, 1, bt) == t {
				return e
			}
		}
		return nil
	}
	idOf := func(o *Outcome, e *Event, m *Term) *Term {
		m = unIface(m)
		if m.op == OAlloc && msgTypeName(m.typ) == "RequestMessage" {
			return unIface(w.c.nowField(w.a, e, m, "Id"))
		}
		return unIface(msgField(m, "Id"))
	}
	type use struct {
		l    *LoopInfo
		v, m *Term
	}
	found := map[*LoopInfo]*use{}
	for _, o := range w.outs {
		for _, l := range loopsIn(o) {
			if _, done := found[l]; done {
				continue
			}
			found[l] = nil
			for lv, in := range l.init {
				e0 := try(o, o.evs[:l.nev], in)
				if e0 == nil {
					continue
				}
				for m, min := range l.init {
					if !isPtrTo(m.typ, "jlib", "RequestMessage") || idOf(o, e0, min) != unIface(e0.args[1]) {
						continue
					}
					ok := true
					for _, b := range rawBacks(w.outs, o, l) {
						e := try(b, b.evs[l.nev:], b.next[lv])
						ok = ok && e != nil && idOf(b, e, b.next[m]) == unIface(e.args[1]) && unIface(e.args[2]) == unIface(e0.args[2]) && b.facts.Val(lv) == 1
					}
					if ok {
						found[l] = &use{l, lv, m}
					}
				}
			}
		}
	}
	for _, o := range w.outs {
		for _, l := range loopsIn(o) {
			u := found[l]
			if u == nil {
				continue
			}
			e0 := try(o, o.evs[:l.nev], l.init[u.v])
			if e0 == nil {
				continue
			}
			x := *e0
			x.args = append([]*Term{}, e0.args...)
			x.args[1] = msgField(u.m, "Id")
			val := tExtract(e0.res, 0, nil)
			x.res = mk(OTuple, nil, "", 0, val, u.v)
			evs := append([]*Event{}, o.evs...)
			for i, e := range evs {
				if e == e0 {
					evs[i] = &x
				}
			}
			if o.kind == OutLoop && o.loop == l {
				// in the next round its result decides
				evs = evs[:l.nev]
				for _, e := range o.evs[l.nev:] {
					if w.replyTable(o, e) && tExtract(e.res, 1, bt) == o.next[u.v] {
						continue
					}
					evs = append(evs, e)
				}
			}
			o.evs = evs
		}
	}
}

func loadedOf(o *Outcome, e *Event) int {
	return o.facts.Val(tExtract(e.res, 1, types.Typ[types.Bool]))
}

// idOf: the id of the message about to be sent.
func (w *callView) idOf(e *Event, m *Term) *Term {
	if m.op == OAlloc {
		return w.c.nowField(w.a, e, m, "Id")
	}
	return msgField(m, "Id")
}

func hasCall(t *Term, name string) bool {
	r := false
	subterms(t, func(y *Term) bool {
		if y.op == OCall && y.str2() == name {
			r = true
		}
		return !r
	})
	return r
}

// wholeUuid: t has a new random UUID in it, all of it.
func wholeUuid(t *Term) bool {
	t = unConv(unIface(t))
	if t == nil {
		return false
	}
	any := func(ts []*Term) bool {
		for _, x := range ts {
			if x != nil && wholeUuid(x) {
				return true
			}
		}
		return false
	}
	switch t.op {
	case OCall:
		switch n := t.str2(); n {
		case "uuid.New", "uuid.NewString", "jlib.NewUuid":
			return true
		case "uuid.Must":
			return any(t.args)
		case "strings.Join":
			if s := t.args[0]; s.op == OCall && s.str2() == "strings.Split" {
				return any(s.args[:1])
			}
			return any(t.args)
		case "strings.Replace", "strings.ReplaceAll":
			return constStr(t.args[1]) == "-" && any(t.args[:1])
		case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "(uuid.UUID).String", "(uuid.UUID).URN", "fmt.Sprintf", "fmt.Sprint", "strings.Clone":
			return any(t.args)
		}
		return false
	case OExtract:
		if x := t.args[0]; t.n == 0 && x.op == OCall {
			switch x.str2() {
			case "uuid.NewRandom", "uuid.NewUUID", "uuid.NewV7", "uuid.NewV6":
				return true
			}
		}
		return false
	case OIndex, ODeref, OField, OSym, OAlloc, OLookup:
		return false
	case OSlice:
		return (t.args[1] == nil || t.args[1] == tInt(0)) && (t.args[2] == nil || t.args[2] == tLen(t.args[0])) && any(t.args[:1])
	}
	return any(t.args)
}

// sendable: m is the caller's request or a copy of it under a fresh id, with
// an id replies can carry.
func (w *callView) sendable(o *Outcome, get func(m *Term, f string) *Term, m *Term, seen map[*Term]bool) string {
	m = unIface(m)
	if seen[m] {
		return ""
	}
	seen[m] = true
	switch {
	case m == w.req:
		id := msgField(w.req, "Id")
		ok := false
		for _, b := range []types.BasicKind{types.Int, types.String} {
			ok = ok || o.facts.Val(tTypeIs(id, types.Typ[b])) == 1
		}
		if !ok {
			return "the request may be sent with an id that no reply can carry"
		}
		return ""
	case m.op == OLoopVar:
		for l := range loopsAll([]*Outcome{o}) {
			in, ok := l.init[m]
			if !ok {
				continue
			}
			if s := w.sendable(o, get, in, seen); s != "" {
				return s
			}
			for _, b := range rawBacks(w.outs, o, l) {
				bb := b
				g := func(m *Term, f string) *Term { return w.c.fget(w.a, bb, m, f) }
				if s := w.sendable(b, g, b.next[m], seen); s != "" {
					return s
				}
			}
			return ""
		}
	case m.op == OAlloc && msgTypeName(m.typ) == "RequestMessage":
		id := unConv(unIface(get(m, "Id")))
		if !wholeUuid(id) {
			return "a request is sent under an id that need not be fresh"
		}
		if get(m, "Method") != msgField(w.req, "Method") {
			return "the method of the request is not kept when its id is replaced"
		}
		ps := get(m, "Params")
		if ps != msgField(w.req, "Params") && !w.c.listCopy(w.outs, o, ps, msgField(w.req, "Params")) && !(isNil(o.facts, msgField(w.req, "Params")) == 1 && o.facts.Val(tEq(tLen(ps), tInt(0))) == 1) {
			return "the params of the request are not kept when its id is replaced"
		}
		ta := traceAddr(m)
		base := ta.args[0]
		bt := get(m, "BaseMessage")
		_ = bt
		if tr := w.traceOf(o, get, m, base); tr != msgTrace(w.req) {
			return "the trace id of the request is not kept when its id is replaced"
		}
		return ""
	}
	return "what is sent is neither the request nor a copy of it"
}

func (w *callView) traceOf(o *Outcome, get func(m *Term, f string) *Term, m, base *Term) *Term {
	return get(base, traceField())
}

func loopsAll(outs []*Outcome) map[*LoopInfo]bool {
	m := map[*LoopInfo]bool{}
	for _, o := range outs {
		for _, l := range loopsIn(o) {
			m[l] = true
		}
		if o.loop != nil {
			m[o.loop] = true
		}
	}
	return m
}

// registration: the successful registration of the path before event e.
func (w *callView) registration(o *Outcome) (reg []*Event) {
	for _, e := range w.tableOps(o, o.evs, "LoadOrStore") {
		if loadedOf(o, e) != 1 {
			reg = append(reg, e)
		}
	}
	return
}

func (v *cliView) pending() {
	w := v.callView()
	n := 0
	var regLock string
	for _, o := range w.outs {
		if stuckAway(w.outs, o) || o.kind == OutPanic {
			continue
		}
		v.ob(len(w.tableOps(o, o.evs, "Store")) == 0 && len(w.tableOps(o, o.evs, "Swap")) == 0, "overwrites", o, "a call may overwrite the pending entry of another one")
		regs := w.registration(o)
		if o.kind == OutLoop {
			v.ob(len(regs) == 0, "twice", o, "a call stays registered under several ids")
			continue
		}
		var sends []*Event
		for _, e := range o.evs {
			if isSend(e) {
				sends = append(sends, e)
			}
		}
		if len(sends) == 0 {
			v.ob(len(regs) == 0, "unsent", o, "a call is registered and never sent")
			continue
		}
		n++
		if !v.ob(len(sends) == 1, "sends", o, "a call sends its request %d times", len(sends)) {
			continue
		}
		s := sends[0]
		m := unIface(s.args[2])
		if !v.ob(len(regs) == 1 && before(o, regs[0], s), "before", o, "a request is sent without being registered before, once") {
			continue
		}
		r := regs[0]
		p := unIface(r.args[2])
		v.ob(loadedOf(o, r) == 0, "free", o, "a call may be registered under an id another call uses")
		v.ob(unIface(r.args[1]) == unIface(w.idOf(s, m)), "key", o, "a call is registered under another id than it is sent with")
		for k, c := range heldLocks(upTo(o, r)) {
			if c > 0 {
				regLock = k
			}
		}
		if v.ob(p.op == OAlloc, "entry", o, "what is registered is not made for this call") {
			v.ob(v.c.nowField(w.a, s, p, v.pReq) == w.req, "entry", o, "what is registered does not remember the caller's request")
			ch := v.c.nowField(w.a, s, p, v.pChan)
			v.ob(ch.op == OMake, "entry", o, "what is registered has no channel of its own")
			for _, e := range o.evs {
				for _, cs := range e.cases {
					if !cs.send && e.kind == EvSelect && isChanOf(cs.ch.typ, types.SendRecv, isMsgIface) {
						v.obe(cs.ch == ch, "waits", e, "the call waits for another channel than it registered")
					}
				}
			}
		}
		why := w.sendable(o, func(m *Term, f string) *Term { return v.c.nowField(w.a, s, m, f) }, m, map[*Term]bool{})
		v.ob(why == "", "message", o, "%s", why)
		// what is returned was received
		for _, e := range o.evs {
			if e.kind == EvSelect && e.chosen >= 0 && !e.cases[e.chosen].send && isMsgIface(chanElem(e.cases[e.chosen].ch)) && isNil(o.facts, o.rets[1]) == 1 {
				v.ob(unIface(o.rets[0]) == unIface(e.res), "returns", o, "a call does not return the reply it received")
			}
		}
	}
	v.c.ob(n > 0, "K04:cases", v.start.pos, "no path of Call sends its request")
	// delivering
	g := v.loopOf(true)
	dl, same, repl := 0, 0, 0
	for _, o := range g.outs {
		if stuckAway(g.outs, o) || o.kind == OutPanic {
			continue
		}
		evs := iteration(o)
		rd := callsNamed(evs, trans+"ReadMessage")
		var snd []*Event
		for _, e := range evs {
			if e.kind == EvSend && isMsgIface(chanElem(e.args[0])) {
				snd = append(snd, e)
			}
			if e.kind == EvSelect {
				for _, cs := range e.cases {
					if cs.send && isMsgIface(chanElem(cs.ch)) {
						snd = append(snd, e)
					}
				}
			}
		}
		ops := w.tableOps(o, evs, "")
		if len(rd) != 1 {
			v.ob(len(snd) == 0 && len(ops) == 0, "deliver", o, "a pending call is answered although nothing was read")
			continue
		}
		msg := tExtract(rd[0].res, 0, v.c.typ("jlib", "Message"))
		if len(ops) == 0 {
			v.ob(len(snd) == 0, "deliver", o, "something is delivered without looking for the pending call")
			continue
		}
		if !v.ob(len(ops) == 1 && ops[0].name == "(*sync.Map).LoadAndDelete", "take", o, "a reply does not take the pending call out of the table in one step") {
			continue
		}
		t := ops[0]
		v.ob(unIface(t.args[1]) == msgField(msg, "Id"), "bykey", o, "the pending call of a reply is looked up by %s, not by the id of the reply", t.args[1])
		val := tExtract(t.res, 0, nil)
		if loadedOf(o, t) != 1 {
			v.ob(len(snd) == 0, "deliver", o, "something is delivered although no call is pending")
			continue
		}
		if len(snd) == 0 {
			// only when the entry is no pending request, which cannot be
			v.ob(o.facts.Val(tTypeIs(val, types.NewPointer(v.pt))) == 0, "lost", o, "the reply to a pending call is not delivered")
			continue
		}
		dl++
		if !v.ob(len(snd) == 1 && snd[0].kind == EvSend, "once", o, "a reply is delivered %d times, or not always", len(snd)) {
			continue
		}
		s := snd[0]
		pd := ptrBase(s.args[0], v.pChan)
		v.obe(pd != nil && mentions(pd, val), "whose", s, "a reply is delivered to %s, not to the pending call taken", s.args[0])
		if pd == nil {
			continue
		}
		want := msgField(v.c.fieldOf(pd, v.pReq), "Id")
		sent := unIface(s.args[1])
		switch {
		case sent == msg:
			same++
			v.obe(o.facts.Val(tEq(msgField(msg, "Id"), want)) == 1, "callerid", s, "a reply may be delivered under another id than the caller used")
		case sent.op == OCall && strings.HasSuffix(sent.str2(), ".ReplaceId"):
			repl++
			v.obe(sent.args[0] == msg && unIface(sent.args[1]) == want, "callerid", s, "a reply is delivered under another id than the caller used")
		default:
			v.obe(false, "what", s, "something else than the reply is delivered: %s", sent)
		}
	}
	v.c.ob(dl > 0 && repl > 0, "K04:cases", g.fn.Pos(), "no path delivers a reply under the id of the caller")
	v.removals(w, regLock)
	// nobody else touches the table
	ok := map[*ssa.Function]bool{}
	for f := range w.a.nfuncs {
		ok[f] = true
	}
	for _, g := range v.gors {
		for f := range g.a.nfuncs {
			ok[f] = true
		}
	}
	for _, f := range v.c.w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, y := in.(*ssa.FieldAddr)
				if y && types.Identical(deref(fa.X.Type()), v.st) && structOf(v.st).Field(fa.Field).Name() == v.fPend {
					v.c.ob(ok[f], "K04:elsewhere", in.Pos(), "%s uses the pending table too", shortFn(f))
				}
			}
		}
	}
}

func chanElem(t *Term) types.Type {
	if t.typ == nil {
		return types.Typ[types.Invalid]
	}
	if ch, ok := t.typ.Underlying().(*types.Chan); ok {
		return ch.Elem()
	}
	return types.Typ[types.Invalid]
}

func upTo(o *Outcome, e *Event) []*Event {
	for i, x := range o.evs {
		if x == e {
			return o.evs[:i]
		}
	}
	return o.evs
}

// removal: what the events do about the entry p under key.
// 1 taken out, 0 found to be gone or another's, -1 nothing.
func (v *cliView) removal(o *Outcome, evs []*Event, key, p *Term) int {
	r := -1
	for _, e := range evs {
		if !v.replyTable(o, e) || unIface(e.args[1]) != unIface(key) {
			continue
		}
		switch e.name {
		case "(*sync.Map).Load":
			same := o.facts.Val(tEq(tExtract(e.res, 0, nil), p))
			if x := sameEntry(o, e, p); x >= 0 {
				same = x
			}
			if loadedOf(o, e) == 0 || same == 0 {
				r = 0
			}
		case "(*sync.Map).LoadAndDelete":
			if loadedOf(o, e) == 0 {
				r = 0
			} else {
				r = 1
			}
		case "(*sync.Map).Delete":
			r = 1
		case "(*sync.Map).CompareAndDelete":
			r = 1
			if o.facts.Val(e.res) == 0 {
				r = 0
			}
		}
	}
	return r
}

// sameEntry: whether the value loaded is the entry p.
func sameEntry(o *Outcome, e *Event, p *Term) int {
	x := e.res.args[0]
	for _, l := range o.facts.lits {
		if l.t.op == OBin && l.t.str == "==" {
			a, b := l.t.args[0], l.t.args[1]
			if a == x && unIface(b) == unIface(p) || b == x && unIface(a) == unIface(p) || assertOf(a, x) && unIface(b) == unIface(p) || assertOf(b, x) && unIface(a) == unIface(p) {
				return b2i(l.val)
			}
		}
		if l.t.op == OTypeIs && l.t.args[0] == x && !l.val && types.Identical(l.t.typ, unIface(p).typ) {
			return 0
		}
	}
	return -1
}

func assertOf(t, x *Term) bool { return t.op == OAssert && t.args[0] == x }

// removals: entries are taken out by the reply's id, or after making sure,
// under the lock they are registered under, that they are the own ones.
func (v *cliView) removals(w *callView, regLock string) {
	check := func(who string, o *Outcome) {
		for i, e := range o.evs {
			if !v.replyTable(o, e) {
				continue
			}
			switch e.name {
			case "(*sync.Map).LoadOrStore":
				held := heldLocks(o.evs[:i])
				v.obe(regLock == "" || held[regLock] > 0, "reglock", e, "%s registers without the lock", who)
				continue
			case "(*sync.Map).Load", "(*sync.Map).CompareAndDelete":
				continue
			case "(*sync.Map).LoadAndDelete", "(*sync.Map).Delete":
			default:
				v.obe(false, "table", e, "%s changes the pending table with %s", who, e.name)
				continue
			}
			ok := false
			for _, x := range o.evs[:i] {
				if v.replyTable(o, x) && x.name == "(*sync.Map).Load" && x.args[1] == e.args[1] && regLock != "" && heldLocks(upTo(o, x))[regLock] > 0 && v.sameSection(o, x, e, regLock) && v.ownEntry(o, x) {
					ok = true
				}
			}
			v.obe(ok, "removes", e, "%s may take the entry of another call out of the pending table", who)
		}
	}
	n := 0
	for _, o := range w.outs {
		check("Call", o)
	}
	for _, g := range w.exp {
		for _, o := range g.outs {
			check(g.name, o)
			n++
		}
	}
	v.c.count("expiry_paths", n)
}

// ownEntry: the value loaded was compared with an entry and is the same.
func (v *cliView) ownEntry(o *Outcome, e *Event) bool {
	x := e.res.args[0]
	for _, l := range o.facts.lits {
		if l.t.op == OBin && l.t.str == "==" && l.val {
			for i := 0; i < 2; i++ {
				a, b := l.t.args[i], unIface(l.t.args[1-i])
				if (a == x || assertOf(a, x)) && b.typ != nil && types.Identical(deref(b.typ), v.pt) {
					return true
				}
			}
		}
	}
	return false
}

func (v *cliView) leaves() {
	w := v.callView()
	sent, failed, replied, gaveUp := 0, 0, 0, 0
	type expStart struct {
		gor *Event
		key *Term
	}
	var starts []expStart
	for _, o := range w.outs {
		if stuckAway(w.outs, o) || o.kind == OutPanic {
			continue
		}
		if o.kind == OutLoop {
			for _, e := range iteration(o) {
				v.obe(e.kind != EvSelect && e.kind != EvRecv && e.kind != EvGo && !isSend(e), "loop", e, "a call waits or sends in a loop")
			}
			continue
		}
		conn := false
		for _, e := range o.evs {
			if e.kind == EvCall && isMeth(e.fn, "StreamingClient", "Connect") && isNil(o.facts, e.res) == 0 {
				conn = true
			}
		}
		var s *Event
		for _, e := range o.evs {
			if isSend(e) {
				s = e
			}
		}
		if s == nil {
			v.ob(conn && v.c.isErr(o.facts, o.rets[1]), "unsent", o, "a call ends without sending its request and without an error")
			continue
		}
		regs := w.registration(o)
		if len(regs) != 1 {
			continue // K04
		}
		key, p := regs[0].args[1], unIface(regs[0].args[2])
		i := 0
		for k, e := range o.evs {
			if e == s {
				i = k
			}
		}
		rest := o.evs[i+1:]
		var gos, waits []*Event
		for _, e := range rest {
			if e.kind == EvGo {
				gos = append(gos, e)
			}
			if e.kind == EvSelect || e.kind == EvRecv {
				waits = append(waits, e)
			}
		}
		switch isNil(o.facts, s.res) {
		case 0:
			failed++
			v.ob(len(gos) == 0 && len(waits) == 0, "senderr", o, "a call goes on although sending failed")
			v.ob(v.c.isErr(o.facts, o.rets[1]) && isNil(o.facts, o.rets[0]) == 1, "senderr", o, "a failure to send is not returned")
			v.ob(v.removal(o, rest, key, p) >= 0, "forget", o, "a call whose request could not be sent stays registered")
			continue
		case -1:
			v.ob(false, "senderr", o, "a failure to send may go unseen")
			continue
		}
		sent++
		v.ob(len(gos) == 1, "expiry", o, "a call has %d expiries", len(gos))
		if !v.ob(len(waits) == 1 && waits[0].kind == EvSelect && waits[0].chosen >= 0, "waits", o, "a call does not wait, once, for its reply and its context") {
			continue
		}
		x := waits[0]
		for _, gg := range gos {
			starts = append(starts, expStart{gg, key})
			v.ob(before(o, gg, x), "expiry", o, "a call waits before its expiry is started")
		}
		rep, ctx := -1, -1
		for k, cs := range x.cases {
			if !cs.send && isMsgIface(chanElem(cs.ch)) {
				rep = k
			}
			if !cs.send && cs.ch.op == OCall && cs.ch.str2() == "(context.Context).Done" && ctxChain(cs.ch.args[0], w.ctx) {
				ctx = k
			}
		}
		v.ob(rep >= 0, "waits", o, "a call does not wait for its reply")
		if !v.ob(ctx >= 0, "waits", o, "a call does not end with its context") {
			continue
		}
		if x.chosen != rep {
			if ctxLives(o, rest, w.ctx) {
				continue
			}
			gaveUp++
			v.ob(v.removal(o, rest, key, p) >= 0, "forget", o, "a call that ended with its context stays registered")
			e := unWrapErr(o.rets[1])
			v.ob(v.c.isErr(o.facts, o.rets[1]) || e.op == OCall && e.str2() == "(context.Context).Err" || e.op == OCall && e.str2() == "context.Cause", "ctxerr", o, "a call that ended with its context returns no error")
			continue
		}
		replied++
		okT := mk(ORecvOk, types.Typ[types.Bool], x.res.str, 0, x.cases[x.chosen].ch)
		if o.facts.Val(okT) == 0 {
			continue // never closed
		}
		v.ob(isNil(o.facts, o.rets[1]) == 1 && unIface(o.rets[0]) == unIface(x.res), "reply", o, "a reply received is not returned")
	}
	v.c.ob(sent > 0 && failed > 0 && replied > 0 && gaveUp > 0, "K05:cases", v.start.pos, "not every end of a call was seen")
	// expiry
	insts := map[ssa.Instruction]bool{}
	for _, g := range w.exp {
		insts[g.start.instr] = true
	}
	v.c.ob(len(insts) == 1, "K05:expiry", v.start.pos, "Call starts %d kinds of goroutines", len(insts))
	fired := 0
	for _, s := range starts {
		n := 0
		for _, g := range w.exp {
			if g.start.instr != s.gor.instr || v.startKey(g.start) != v.startKey(s.gor) {
				continue
			}
			for _, o := range g.outs {
				for _, e := range w.tableOps(o, o.evs, "") {
					n++
					v.obe(unIface(e.args[1]) == unIface(s.key), "expirykey", s.gor, "the expiry is for %s, not for what the call is registered under", e.args[1])
				}
			}
		}
		v.obe(n > 0, "expirykey", s.gor, "the expiry does not touch the pending table")
	}
	for _, g := range w.exp {
		for _, o := range g.outs {
			if stuckAway(g.outs, o) {
				continue
			}
			if !v.ob(o.kind == OutReturn, "expiry", o, "the expiry of a call ends in a %s", kindName(o.kind)) {
				continue
			}
			var waits, snd []*Event
			for _, e := range o.evs {
				switch e.kind {
				case EvRecv, EvSelect:
					waits = append(waits, e)
				case EvSend:
					snd = append(snd, e)
				}
				if e.kind == EvCall && e.name == "time.Sleep" {
					waits = append(waits, e)
				}
			}
			if !v.ob(len(waits) == 1 && v.timer(waits[0]), "timer", o, "the expiry of a call does not wait for a constant time") {
				continue
			}
			var i int
			for k, e := range o.evs {
				if e == waits[0] {
					i = k
				}
			}
			rest := o.evs[i+1:]
			ops := w.tableOps(o, rest, "")
			if !v.ob(len(ops) > 0, "forget", o, "a call whose time has passed stays registered") {
				continue
			}
			key := ops[0].args[1]
			var p *Term
			for _, arg := range append(append([]*Term{}, g.start.args...), g.a.binds...) {
				if arg.typ != nil && types.Identical(deref(arg.typ), v.pt) {
					p = arg
				}
				if arg.op == OAlloc && p == nil {
					if x, y := g.a.heap0.m[arg]; y && x.typ != nil && types.Identical(deref(x.typ), v.pt) {
						p = x
					}
				}
			}
			if !v.ob(p != nil, "entry", o, "the expiry does not know which call it is for") {
				continue
			}
			switch v.removal(o, rest, key, p) {
			case 1:
				fired++
				if !v.ob(len(snd) == 1, "timeout", o, "a timeout is reported %d times", len(snd)) {
					continue
				}
				v.obe(fieldBaseIs(snd[0].args[0], g, w, p, v), "timeout", snd[0], "a timeout is not reported to the call")
				m := unIface(snd[0].args[1])
				ok := m.op == OAlloc && msgTypeName(m.typ) == "ErrorMessage"
				if ok {
					er := v.c.acc(o, m, "MustError")
					id := v.c.acc(o, m, "MustId")
					ok = er != nil && id != nil
					if ok {
						code, _, _ := v.c.bodyOf(g.a, o, er)
						n, y := v.c.codeOf(code)
						tc, y2 := v.c.errInit("ErrTimeout")
						ok = y && y2 && n == tc && unIface(id) == msgField(w.req, "Id")
					}
				}
				v.obe(ok, "timeout", snd[0], "what is reported is not the timeout error for the id of the request")
			case 0:
				v.ob(len(snd) == 0, "answered", o, "a timeout is reported to a call that was answered")
			default:
				v.ob(false, "forget", o, "a call whose time has passed stays registered")
			}
		}
	}
	v.c.ob(fired > 0, "K05:expiry", v.start.pos, "no expiry reports a timeout")
	// room for what is delivered: at most one delivery per registration
	for _, o := range w.outs {
		for _, r := range w.registration(o) {
			ch := v.c.nowField(w.a, r, unIface(r.args[2]), v.pChan)
			v.obe(bufferOf(ch) > 0, "room", r, "delivering a reply to a call that has given up blocks")
		}
	}
	rd := v.loopOf(true)
	for _, o := range rd.outs {
		n := 0
		for _, e := range iteration(o) {
			if e.kind == EvSend && isMsgIface(chanElem(e.args[0])) {
				n++
				took := false
				for _, t := range w.tableOps(o, iteration(o), "LoadAndDelete") {
					took = took || loadedOf(o, t) == 1 && before(o, t, e)
				}
				v.obe(took, "room", e, "a reply is delivered without taking the call out of the table: a second one may block")
			}
		}
		v.ob(n <= 1, "room", o, "a reply is delivered %d times", n)
	}
	v.sends()
}

func fieldBaseIs(ch *Term, g *gor, w *callView, p *Term, v *cliView) bool {
	if b := ptrBase(ch, v.pChan); b != nil {
		return b == p
	}
	// the channel itself
	return ch.op == OMake && g.a.heap0 != nil && ch == g.a.heap0.m[ptrField(p, v.pChan)]
}

// ptrBase: the pointer through which field name was read.
func ptrBase(t *Term, name string) *Term {
	if t.op == ODeref && t.args[0].op == OFieldAddr && t.args[0].str == name {
		return t.args[0].args[0]
	}
	return nil
}

func unWrapErr(t *Term) *Term {
	for t.op == OCall && (strings.HasPrefix(t.str2(), "errors.Wrap") || strings.HasPrefix(t.str2(), "errors.With")) {
		t = t.args[0]
	}
	return t
}

// ctxChain: t is ctx or was derived from it.
func ctxChain(t, ctx *Term) bool {
	for t != nil {
		if t == ctx {
			return true
		}
		if t.op == OCall && t.str2() == "context.WithValue" {
			t = t.args[0]
			continue
		}
		t, _ = parentCtx(t)
	}
	return false
}

// untimed: no deadline was put on a context since it was given.
func untimed(t *Term) bool {
	for t != nil {
		if t.op == OCall && t.str2() == "context.WithValue" {
			t = t.args[0]
			continue
		}
		par, cancel := parentCtx(t)
		if cancel != nil && (cancel.str2() == "context.WithTimeout" || cancel.str2() == "context.WithDeadline") {
			return false
		}
		t = par
	}
	return true
}

// ctxLives: Err of a context that was seen to be done is taken to be nil,
// which cannot be.
func ctxLives(o *Outcome, evs []*Event, ctx *Term) bool {
	for _, e := range evs {
		if e.kind == EvCall && e.name == "(context.Context).Err" && ctxChain(e.args[0], ctx) && isNil(o.facts, e.res) == 1 {
			return true
		}
	}
	return false
}

// timer: the event waits for a constant positive time.
func (v *cliView) timer(e *Event) bool {
	pos := func(t *Term) bool {
		n, ok := tInt64(t)
		return ok && n > 0
	}
	ch := func(t *Term) bool {
		if t.op == OCall && t.str2() == "time.After" {
			return pos(t.args[0])
		}
		if t.op == ODeref && t.args[0].op == OFieldAddr && t.args[0].str == "C" {
			x := t.args[0].args[0]
			return x.op == OCall && x.str2() == "time.NewTimer" && pos(x.args[0])
		}
		return false
	}
	switch e.kind {
	case EvCall:
		return pos(e.args[0])
	case EvRecv:
		return ch(e.args[0])
	case EvSelect:
		for _, cs := range e.cases {
			if cs.send || !ch(cs.ch) {
				return false
			}
		}
		return e.chosen >= 0
	}
	return false
}

// sends: Send queues its message, or fails when the connection or its context ends.
func (v *cliView) sends() {
	fn := v.c.method("jlibhttp", "StreamingClient", "Send")
	ctx, msg := tSym("rootCtx", fn.Params[1].Type()), tSym("msg", fn.Params[2].Type())
	_, outs := v.run(fn, []string{"(*jlibhttp.StreamingClient).Connect"}, v.self, ctx, msg)
	v.c.site(fn.Pos(), "StreamingClient.Send")
	ok, conn, cx, closed := 0, 0, 0, 0
	for _, o := range outs {
		if stuckAway(outs, o) {
			continue
		}
		if !v.ob(o.kind == OutReturn, "Send", o, "Send ends in a %s", kindName(o.kind)) {
			continue
		}
		var waits []*Event
		for _, e := range o.evs {
			if e.kind == EvSelect || e.kind == EvSend || e.kind == EvRecv {
				waits = append(waits, e)
			}
		}
		if len(waits) == 0 {
			v.ob(v.c.isErr(o.facts, o.rets[0]), "Send", o, "Send succeeds without having queued its message")
			closed++
			continue
		}
		x := waits[0]
		if !v.ob(len(waits) == 1 && x.kind == EvSelect && x.chosen >= 0, "Send", o, "Send does not wait, once, for the queue, the connection and its context") {
			continue
		}
		q, d, c := -1, -1, -1
		for k, cs := range x.cases {
			switch {
			case cs.send && v.isField(cs.ch, v.fQueue):
				q = k
				v.ob(unIface(cs.val) == msg, "Send", o, "Send queues another message")
			case !cs.send && v.isField(cs.ch, v.fDone):
				d = k
			case !cs.send && cs.ch.op == OCall && cs.ch.str2() == "(context.Context).Done" && ctxChain(cs.ch.args[0], ctx):
				c = k
			}
		}
		v.ob(q >= 0, "Send", o, "Send does not queue its message on the connection")
		v.ob(d >= 0, "Sendconn", o, "Send waits for ever on a connection that was closed")
		v.ob(c >= 0, "Sendctx", o, "Send does not end with its context")
		if q >= 0 {
			v.ob(isNil(o.facts, x.cases[q].ch) == 0, "Sendnil", o, "Send may wait for the queue of a client that was closed")
		}
		switch x.chosen {
		case q:
			ok++
			v.ob(isNil(o.facts, o.rets[0]) == 1, "Send", o, "Send fails although it queued its message")
		default:
			if x.chosen == d {
				conn++
			} else {
				cx++
			}
			e := unWrapErr(o.rets[0])
			v.ob(v.c.isErr(o.facts, o.rets[0]) || e.op == OCall && (e.str2() == "(context.Context).Err" || e.str2() == "context.Cause"), "Send", o, "Send succeeds although its message was not queued")
		}
	}
	v.c.ob(ok > 0 && conn > 0 && cx > 0 && closed > 0, "K05:Sendcases", fn.Pos(), "not every end of Send was seen")
	// the connection is over once reset: connDone is that of the context reset cancels
	for _, o := range v.outs {
		for _, e := range o.evs {
			if e.kind != EvGo {
				continue
			}
			if v.fDone == "" {
				v.ob(false, "conndone", o, "nothing tells senders that a connection ended")
				return
			}
			dn := v.c.nowField(v.a, e, v.self, v.fDone)
			cn := v.c.nowField(v.a, e, v.self, v.fCanc)
			ok := dn.op == OCall && dn.str2() == "(context.Context).Done" && cn.op == OExtract && cn.n == 1
			if ok {
				_, call := parentCtx(dn.args[0])
				ok = call != nil && call == cn.args[0]
			}
			v.obe(ok, "conndone", e, "what tells senders that the connection ended is not what closing it cancels")
		}
	}
	n := 0
	for _, r := range v.roots() {
		for _, o := range r.outs {
			if stuckAway(r.outs, o) {
				continue
			}
			evs := o.evs
			if o.kind == OutLoop {
				evs = iteration(o)
			}
			cl := callsNamed(evs, trans+"Close")
			if len(cl) == 0 {
				continue
			}
			n++
			ok := false
			for _, e := range evs {
				ok = ok || e.kind == EvCall && e.dyn && v.isField(e.callee, v.fCanc)
			}
			for _, l := range o.facts.lits {
				if l.val && l.t.op == OBin && (l.t.args[0] == tNil || l.t.args[1] == tNil) && (v.isField(l.t.args[0], v.fCanc) || v.isField(l.t.args[1], v.fCanc)) {
					ok = true
				}
			}
			v.obe(ok, "conncancel", cl[0], "%s closes the connection without telling the senders that wait for room in its queue", r.name)
		}
	}
	v.c.ob(n > 0, "K05:conncancel", fn.Pos(), "nothing closes the connection")
}
