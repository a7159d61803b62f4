package main

// A12 (client side), K04, K05, K07, K08, K09: streaming clients.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	const sem = "Every exported method of StreamingClient and every goroutine it starts is interpreted path by path, with fields guarded by the connection lock taking a new value at every load made without it; "
	register("K04", sem+"each path of Call sends one message, whose id it stored into the pending table together with the caller's request before and found free, with everything but the id copied; each path that delivers a reply took the entry out of the table by the reply's own id and sends once, on that entry's channel, a message with the caller's id", func(c *Ctx) { c.clientView("K04").pending() })
	register("K05", sem+"the paths of Call after its message was queued wait for reply or context only, start one expiry, and take their own entry out when they fail; the expiry waits a constant time, takes its own entry out and sends the timeout; deliveries go to channels with room; Send waits for the queue, the end of the connection or its context", func(c *Ctx) { c.clientView("K05").leaves() })
	register("K07", sem+"Connect checks, connects, makes the queues and starts one writer and one reader in one critical section, and only if not connected; handlers are called with no lock held; the close handler is taken out of its field under the lock before it is called; registering keeps the first handler; the fields of a connection are used under the lock only", func(c *Ctx) { c.clientView("K07").connects() })
	register("K08", sem+"a path of a loop that fails to read or write resets the connection (cancels, reports, closes, forgets the queue) under the lock and ends; the methods of the transports are interpreted with their connection changing at every load: what they use is known not to be nil, each failure is returned as an error, other frames than text are skipped", func(c *Ctx) { c.clientView("K08").failures() })
	register("K09", sem+"on every path of the reading goroutine a request or notify read, or a reply for which the pending table had no entry, is passed to the message handler once, in that goroutine, and nothing else is", func(c *Ctx) { c.clientView("K09").handed() })
}

type cliView struct {
	perArgs bool
	c       *Ctx
	id      string
	st      *types.Named
	pt      *types.Named // pending request
	self    *Term
	lock    string // key of the lock held while connecting
	lockF   string
	fQueue  string // send queue, close channel, ...
	fClose  string
	fDone   string
	fCanc   string
	fTrans  string
	fMsgH   string
	fConH   string
	fCloH   string
	fPend   string
	guard   map[string]string
	a       *Analysis
	outs    []*Outcome // Connect
	gors    []*gor
	start   *Event
	pReq    string
	pChan   string
}

const trans = "(jlibhttp.Transport)."

func (v *cliView) ob(ok bool, key string, o *Outcome, f string, args ...interface{}) bool {
	return v.c.ob(ok, v.id+":"+key, o.pos, f, args...)
}

func (v *cliView) obe(ok bool, key string, e *Event, f string, args ...interface{}) bool {
	return v.c.ob(ok, v.id+":"+key, e.pos, f, args...)
}

func isChanOf(t types.Type, dir types.ChanDir, elem func(types.Type) bool) bool {
	ch, ok := t.Underlying().(*types.Chan)
	return ok && ch.Dir() == dir && elem(ch.Elem())
}

func isErrT(t types.Type) bool { return types.Identical(t, errType) }

func (c *Ctx) clientView(id string) *cliView {
	v := &cliView{c: c, id: id}
	v.st = c.typ("jlibhttp", "StreamingClient")
	v.self = tSym("self", types.NewPointer(v.st))
	v.fQueue = c.fieldByType(v.st, "the send queue", func(t types.Type) bool { return isChanOf(t, types.SendRecv, isMsgIface) })
	v.fClose = c.fieldByType(v.st, "the close channel", func(t types.Type) bool { return isChanOf(t, types.SendRecv, isErrT) })
	v.fCanc = c.fieldByType(v.st, "the cancel function", func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Signature)
		_, named := types.Unalias(t).(*types.Named)
		return ok && s.Params().Len() == 0 && (!named || isNamed(t, "context", "CancelFunc"))
	})
	st := structOf(v.st)
	for i := 0; i < st.NumFields(); i++ {
		if isChanOf(st.Field(i).Type(), types.RecvOnly, func(t types.Type) bool { return structOf(t) != nil && structOf(t).NumFields() == 0 }) {
			v.fDone = st.Field(i).Name()
		}
	}
	v.fTrans = c.fieldByType(v.st, "the transport", func(t types.Type) bool { return isNamed(t, "jlibhttp", "Transport") })
	v.fMsgH = c.fieldByType(v.st, "the message handler", func(t types.Type) bool { return isNamed(t, "jlibhttp", "MessageHandler") })
	v.fConH = c.fieldByType(v.st, "the connected handler", func(t types.Type) bool { return isNamed(t, "jlibhttp", "ConnectedHandler") })
	v.fCloH = c.fieldByType(v.st, "the close handler", func(t types.Type) bool { return isNamed(t, "jlibhttp", "CloseHandler") })
	v.fPend = c.fieldByType(v.st, "the pending table", func(t types.Type) bool { return isNamed(t, "sync", "Map") })
	fn := c.method("jlibhttp", "StreamingClient", "Connect")
	a := newAnalysis(c.w)
	for _, o := range c.run(a, fn, v.self) {
		for i, e := range o.evs {
			if e.kind == EvCall && e.name == trans+"Connect" {
				for k, n := range heldLocks(o.evs[:i]) {
					if n > 0 {
						v.lock = k
						v.lockF = k[strings.LastIndex(k, ".")+1:]
					}
				}
			}
		}
	}
	if v.lock != "" {
		v.guard = map[string]string{}
		for _, f := range []string{v.fQueue, v.fClose, v.fDone, v.fCanc, v.fCloH} {
			if f != "" {
				v.guard[tkey(v.st)+"."+f] = v.lock
			}
		}
	}
	v.a, v.outs = v.run(fn, nil, v.self)
	seen := map[string]bool{}
	for _, o := range v.outs {
		for _, e := range o.evs {
			if e.kind == EvGo {
				if v.start == nil {
					v.start = e
				}
				v.goroutine(e, v.a, nil, seen)
			}
		}
	}
	if v.start == nil {
		c.fatal(id+":loops", "Connect starts no goroutine")
	}
	c.site(fn.Pos(), "StreamingClient.Connect")
	c.count("goroutines", len(v.gors))
	return v
}

// run interprets a root with the memory of others.
func (v *cliView) run(fn *ssa.Function, opaque []string, params ...*Term) (*Analysis, []*Outcome) {
	a := newAnalysis(v.c.w, opaque...)
	a.guarded = v.guard
	a.loads = true
	return a, v.c.run(a, fn, params...)
}

// local keeps the cells of a heap that only the starting function could name.
func localHeap(h *Heap) *Heap {
	n := &Heap{map[*Term]*Term{}}
	for k, x := range h.m {
		if rootOf(k).op == OAlloc {
			n.m[k] = x
		}
	}
	return n
}

// startKey tells starts with other arguments apart, if that matters.
func (v *cliView) startKey(e *Event) string {
	if !v.perArgs {
		return ""
	}
	k := ""
	for _, x := range e.args {
		k += fmt.Sprintf(",%d", x.id)
	}
	if e.callee != nil {
		k += fmt.Sprintf(";%d", e.callee.id)
		if e.heap != nil && e.callee.op == OClosure {
			for _, x := range e.callee.args {
				if y := e.heap.m[x]; y != nil {
					k += fmt.Sprintf(",%d", y.id)
				}
			}
		}
	}
	return k
}

func (v *cliView) goroutine(e *Event, a *Analysis, parent *gor, seen map[string]bool) {
	fn := e.fn
	if fn == nil && e.callee != nil {
		fn = e.callee.fn
	}
	if fn == nil || fn.Blocks == nil {
		return
	}
	k := v.c.w.Pos(e.instr.Pos()) + v.startKey(e)
	if seen[k] {
		return
	}
	seen[k] = true
	g := &gor{name: shortFn(fn), start: e, fn: fn, parent: parent, instrs: map[ssa.Instruction]bool{}}
	g.a = newAnalysis(v.c.w, "(*jlibhttp.StreamingClient).Connect")
	g.a.guarded, g.a.loads = v.guard, true
	g.a.heap0 = localHeap(e.heap)
	if e.callee != nil && e.callee.op == OClosure {
		g.a.binds = e.callee.args
	}
	g.outs = v.c.run(g.a, fn, e.args...)
	v.gors = append(v.gors, g)
	for _, o := range g.outs {
		for _, x := range o.evs {
			if x.kind == EvCall && x.name == trans+"ReadMessage" {
				g.reads = true
			}
			if x.kind == EvCall && x.name == trans+"WriteMessage" {
				g.writes = true
			}
			if x.kind == EvGo {
				v.goroutine(x, g.a, g, seen)
			}
		}
	}
}

// isFieldLoad: t is the value of field name of the client.
func (v *cliView) isField(t *Term, name string) bool {
	return name != "" && t != nil && t.op == ODeref && t.args[0].op == OFieldAddr && t.args[0].args[0] == v.self && t.args[0].str == name
}

func (v *cliView) isFieldAddr(t *Term, name string) bool {
	return name != "" && t != nil && t.op == OFieldAddr && t.args[0] == v.self && t.str == name
}

func (v *cliView) held(o *Outcome, e *Event) bool {
	for i, x := range o.evs {
		if x == e {
			return heldLocks(o.evs[:i])[v.lock] > 0
		}
	}
	return false
}

func (v *cliView) anyHeld(o *Outcome, e *Event) bool {
	for i, x := range o.evs {
		if x == e {
			for _, n := range heldLocks(o.evs[:i]) {
				if n > 0 {
					return true
				}
			}
		}
	}
	return false
}

// sameSection: no lock of the client is released between the events.
func (v *cliView) sameSection(o *Outcome, x, y *Event, lock string) bool {
	in := false
	for _, e := range o.evs {
		if e == y {
			return true
		}
		if in && e.kind == EvCall && strings.HasSuffix(e.name, "nlock") && len(e.args) > 0 && verKey(e.args[0]) == lock {
			return false
		}
		if e == x {
			in = true
		}
	}
	return false
}

// iteration: the events of the outcome that belong to its last round of a loop.
func iteration(o *Outcome) []*Event {
	if o.kind == OutLoop {
		return o.evs[o.loop.nev:]
	}
	return o.evs
}

func (v *cliView) isHandlerCall(e *Event, typ string) bool {
	return (e.kind == EvCall || e.kind == EvGo) && e.dyn && e.callee != nil && e.callee.typ != nil && isNamed(e.callee.typ, "jlibhttp", typ)
}

// roots are the entries other goroutines run: exported methods and goroutines.
type cliRoot struct {
	name string
	fn   *ssa.Function
	a    *Analysis
	outs []*Outcome
}

func (v *cliView) roots() []cliRoot {
	var rs []cliRoot
	ms := types.NewMethodSet(types.NewPointer(v.st))
	for i := 0; i < ms.Len(); i++ {
		f := ms.At(i).Obj().(*types.Func)
		if !f.Exported() {
			continue
		}
		fn := v.c.methOf(v.self.typ, f.Name())
		if fn == nil || fn.Blocks == nil {
			continue
		}
		var op []string
		if f.Name() != "Connect" {
			op = append(op, "(*jlibhttp.StreamingClient).Connect")
		}
		if f.Name() != "Send" {
			op = append(op, "(*jlibhttp.StreamingClient).Send")
		}
		if f.Name() != "Call" {
			op = append(op, "(*jlibhttp.StreamingClient).Call")
		}
		a, outs := v.run(fn, op, v.self)
		rs = append(rs, cliRoot{f.Name(), fn, a, outs})
	}
	for _, g := range v.gors {
		rs = append(rs, cliRoot{"goroutine " + g.name, g.fn, g.a, g.outs})
	}
	return rs
}

func (v *cliView) loopOf(reads bool) *gor {
	for _, g := range v.gors {
		if reads && g.reads || !reads && g.writes {
			return g
		}
	}
	if reads {
		v.c.fatal(v.id+":reader", "no goroutine of Connect reads messages")
	}
	v.c.fatal(v.id+":writer", "no goroutine of Connect writes messages")
	return nil
}

// ---- A12, client side

func (c *Ctx) clientLoops() {
	v := c.clientView("A12")
	for _, reads := range []bool{true, false} {
		what := map[bool]string{true: "reads", false: "writes"}[reads]
		inst := map[ssa.Instruction]bool{}
		for _, g := range v.gors {
			if reads && g.reads || !reads && g.writes {
				v.obe(g.parent == nil, "client:"+what, g.start, "a goroutine started by another one %s the connection", what)
				inst[g.start.instr] = true
			}
		}
		if !v.obe(len(inst) == 1, "client:"+what, v.start, "%d goroutines of a client are started that %s the connection", len(inst), strings.TrimSuffix(what, "s")) {
			continue
		}
		for _, o := range v.outs {
			tc := callsNamed(o.evs, trans+"Connect")
			n := 0
			for _, e := range o.evs {
				if e.kind == EvGo && inst[e.instr] {
					n++
				}
			}
			want := 0
			if len(tc) > 0 && isNil(o.facts, tc[len(tc)-1].res) == 1 {
				want = 1
			}
			if o.kind == OutReturn || n > want {
				v.ob(n == want, "client:"+what+"once", o, "the goroutine that %s is started %d times for one connection", what, n)
			}
		}
	}
	// what else reads or writes
	fr := c.newFreshness()
	ok := map[*ssa.Function]string{}
	for _, g := range v.gors {
		if g.reads {
			ok[g.fn] = "read"
		}
		if g.writes {
			ok[g.fn] += "write"
		}
	}
	starts := map[ssa.Instruction]bool{}
	for _, g := range v.gors {
		starts[g.start.instr] = true
	}
	impl := map[*ssa.Function]string{}
	it := c.typ("jlibhttp", "Transport").Underlying().(*types.Interface)
	for _, t := range v.transports() {
		for _, m := range []string{"ReadMessage", "WriteMessage"} {
			impl[c.methOf(types.NewPointer(t), m)] = strings.ToLower(strings.TrimSuffix(m, "Message"))
		}
	}
	_ = it
	for _, t := range []string{"WS", "H2"} {
		s := &sessView{c: c, id: "", typ: t}
		s.load()
		for _, g := range s.gors {
			if g.reads {
				ok[g.fn] += "read"
			}
			if g.writes {
				ok[g.fn] += "write"
			}
			if g.start != nil {
				starts[g.start.instr] = true
			}
		}
	}
	var only func(f *ssa.Function, what string, roots map[*ssa.Function]string, seen map[*ssa.Function]bool) bool
	only = func(f *ssa.Function, what string, roots map[*ssa.Function]string, seen map[*ssa.Function]bool) bool {
		if seen[f] {
			return true
		}
		seen[f] = true
		if f.Synthetic != "" && !token.IsExported(f.Name()) && len(fr.callers[f]) == 0 && !fr.asValue[f] {
			return true // the method as promoted, unused
		}
		if strings.Contains(roots[f], what) {
			for _, ci := range fr.callers[f] {
				if _, isGo := ci.(*ssa.Go); isGo && !starts[ci] {
					return false
				}
				if _, isGo := ci.(*ssa.Go); !isGo && !strings.Contains(impl[f], what) && !only(ci.Parent(), what, roots, seen) {
					return false
				}
			}
			return true
		}
		if strings.Contains(impl[f], what) {
			for _, ci := range fr.callers[f] {
				// called directly: like a use of the interface method
				if f.Synthetic == "" && ci.Parent().Synthetic == "" && !only(ci.Parent(), what, ok, map[*ssa.Function]bool{}) {
					return false
				}
			}
			return true
		}
		if f.Parent() != nil && len(fr.callers[f]) == 0 {
			return only(f.Parent(), what, roots, seen)
		}
		if fr.asValue[f] && f.Parent() == nil || len(fr.callers[f]) == 0 {
			return false
		}
		for _, ci := range fr.callers[f] {
			if _, isGo := ci.(*ssa.Go); isGo {
				return false
			}
			if !only(ci.Parent(), what, roots, seen) {
				return false
			}
		}
		return true
	}
	all := map[*ssa.Function]string{}
	for f, s := range ok {
		all[f] += s
	}
	for f, s := range impl {
		all[f] += s
	}
	n := 0
	for _, f := range c.w.funcs {
		if p := fnPkg(f); p == nil || p.Name() != "jlibhttp" || f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, y := in.(ssa.CallInstruction)
				if !y {
					continue
				}
				com := ci.Common()
				what := ""
				up := false
				if com.IsInvoke() {
					switch {
					case isNamed(com.Value.Type(), "jlibhttp", "Transport") && com.Method.Name() == "ReadMessage":
						what, up = "read", true
					case isNamed(com.Value.Type(), "jlibhttp", "Transport") && com.Method.Name() == "WriteMessage":
						what, up = "write", true
					case isNamed(com.Value.Type(), "io", "Writer") && com.Method.Name() == "Write":
						what = "write"
					}
				} else if g := com.StaticCallee(); g != nil {
					switch {
					case isMeth(g, "Conn", "WriteMessage"), isMeth(g, "Conn", "NextWriter"), isMeth(g, "Conn", "WriteJSON"), isMeth(g, "Conn", "WritePreparedMessage"):
						what = "write"
					case isMeth(g, "Conn", "ReadMessage"), isMeth(g, "Conn", "NextReader"), isMeth(g, "Conn", "ReadJSON"):
						what = "read"
					case g.Name() == "DecodeMessage" && fnPkg(g) != nil && fnPkg(g).Name() == "jlib":
						what = "read"
					case impl[g] != "":
						what, up = impl[g], true
					}
				}
				if what == "" {
					continue
				}
				n++
				rs := all
				if up {
					rs = ok
				}
				c.ob(only(f, what, rs, map[*ssa.Function]bool{}), "A12:elsewhere", in.Pos(), "%s can %s a connection outside the goroutine that does", shortFn(f), what)
			}
		}
	}
	c.count("connection_uses", n)
}

// transports: the types of the package that implement Transport.
func (v *cliView) transports() (r []*types.Named) {
	it := v.c.typ("jlibhttp", "Transport").Underlying().(*types.Interface)
	for _, p := range v.c.w.prog.AllPackages() {
		if p.Pkg.Name() != "jlibhttp" {
			continue
		}
		for _, n := range p.Pkg.Scope().Names() {
			tn, ok := p.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t, ok := tn.Type().(*types.Named)
			if ok && structOf(t) != nil && types.Implements(types.NewPointer(t), it) {
				r = append(r, t)
			}
		}
	}
	if len(r) == 0 {
		v.c.fatal(v.id+":transports", "no type implements Transport")
	}
	return
}

// ---- K07

func (v *cliView) connects() {
	for _, t := range v.transports() {
		v.connectedness(t)
	}
	v.c.ob(v.lock != "", "K07:lock", v.c.method("jlibhttp", "StreamingClient", "Connect").Pos(), "no lock is held while connecting")
	n := 0
	for _, o := range v.outs {
		if o.kind == OutLoop {
			v.ob(len(callsNamed(iteration(o), trans+"Connect")) == 0, "retry", o, "Connect connects in a loop")
			continue
		}
		if !v.ob(o.kind == OutReturn, "kind", o, "Connect ends in a %s", kindName(o.kind)) {
			continue
		}
		tc := callsNamed(o.evs, trans+"Connect")
		var gos, hs []*Event
		stores := 0
		for _, e := range o.evs {
			if e.kind == EvGo {
				gos = append(gos, e)
				v.obe(v.held(o, e), "lock", e, "a goroutine of the connection is started without the lock")
			}
			if e.kind == EvStore && e.args[0].op == OFieldAddr && e.args[0].args[0] == v.self && v.guard[verKey(e.args[0])] != "" {
				stores++
			}
			if v.isHandlerCall(e, "ConnectedHandler") {
				hs = append(hs, e)
			}
		}
		var chk *Event
		for _, e := range callsNamed(o.evs, trans+"Connected") {
			if v.held(o, e) && o.facts.Val(e.res) >= 0 {
				chk = e
			}
		}
		if !v.ob(chk != nil, "checks", o, "Connect does not check under the lock whether the client is connected") {
			continue
		}
		if o.facts.Val(chk.res) == 1 {
			n |= 1
			v.ob(len(tc) == 0 && len(gos) == 0 && stores == 0 && len(hs) == 0, "again", o, "connecting a connected client does something")
			v.ob(isNil(o.facts, o.rets[0]) == 1, "again", o, "connecting a connected client fails")
			continue
		}
		if !v.ob(len(tc) == 1, "connect", o, "a client that is not connected connects its transport %d times", len(tc)) {
			continue
		}
		v.obe(v.held(o, tc[0]) && v.sameSection(o, chk, tc[0], v.lock), "lock", tc[0], "the lock is released between checking and connecting")
		switch isNil(o.facts, tc[0].res) {
		case 0:
			n |= 2
			v.ob(len(gos) == 0 && len(hs) == 0, "failed", o, "goroutines are started, or the handler called, although connecting failed")
			v.ob(isNil(o.facts, o.rets[0]) == 0, "failed", o, "a failure to connect is not returned")
			continue
		case -1:
			v.ob(false, "failed", o, "a failure to connect may go unseen")
			continue
		}
		v.ob(isNil(o.facts, o.rets[0]) == 1, "ok", o, "Connect fails although it connected")
		if !v.ob(len(gos) > 0, "loops", o, "a new connection has no goroutines") {
			continue
		}
		v.obe(v.sameSection(o, tc[0], gos[len(gos)-1], v.lock), "lock", gos[0], "the lock is released between connecting and starting the loops")
		for _, f := range []string{v.fQueue, v.fClose} {
			ch := v.c.nowField(v.a, gos[0], v.self, f)
			v.obe(ch.op == OMake, "queues", gos[0], "%s is not made before the goroutines that use it start", f)
			if f == v.fClose && ch.op == OMake {
				v.obe(bufferOf(ch) > 0, "closechan", gos[0], "%s has no room for the error that is sent under the lock", f)
			}
		}
		rd, wr := 0, 0
		for _, e := range gos {
			for _, g := range v.gors {
				if g.start.instr == e.instr {
					if g.reads {
						rd++
					}
					if g.writes {
						wr++
					}
				}
			}
		}
		v.ob(rd == 1 && wr == 1, "loops", o, "a connection has %d readers and %d writers", rd, wr)
		h := v.c.nowField(v.a, gos[0], v.self, v.fConH)
		switch isNil(o.facts, h) {
		case 1:
			v.ob(len(hs) == 0, "handler", o, "a missing connected handler is called")
		case 0:
			n |= 4
			v.ob(len(hs) == 1 && hs[0].callee == h && hs[0].kind == EvCall && before(o, gos[len(gos)-1], hs[0]), "handler", o, "the connected handler is not called once after connecting")
		default:
			v.ob(false, "handler", o, "a path does not depend on whether there is a connected handler")
		}
	}
	v.c.ob(n == 7, "K07:cases", v.start.pos, "not every way to connect was seen")
	// all roots: callbacks and the guarded fields
	rs := v.roots()
	nc, na := 0, 0
	for _, r := range rs {
		for _, o := range r.outs {
			for _, e := range o.evs {
				for _, h := range []string{"MessageHandler", "ConnectedHandler", "CloseHandler"} {
					if v.isHandlerCall(e, h) && e.kind == EvCall {
						nc++
						v.obe(!v.anyHeld(o, e), "callback", e, "%s calls a %s with a lock held", r.name, h)
					}
				}
				if e.kind == EvCall && isMeth(e.fn, "StreamingClient", "Connect") {
					v.obe(!v.held(o, e), "deadlock", e, "%s connects with the lock held", r.name)
				}
				if v.isHandlerCall(e, "CloseHandler") {
					v.closeOnce(r, o, e)
				}
				switch e.kind {
				case EvLoad, EvStore:
					if e.args[0].op == OFieldAddr && e.args[0].args[0] == v.self && v.guard[verKey(e.args[0])] != "" && r.name != "InitStreaming" {
						na++
						v.obe(v.held(o, e), "guard", e, "%s uses %s without the lock", r.name, e.args[0].str)
					}
				}
			}
			// left unlocked
			if o.kind == OutReturn || o.kind == OutPanic {
				for k, m := range heldLocks(o.evs) {
					if o.kind == OutPanic && k != v.lock {
						continue // a caller's mistake
					}
					v.ob(m == 0, "unlock", o, "%s ends with lock %s taken %d times", r.name, k, m)
				}
			}
		}
	}
	v.c.count("callbacks", nc)
	v.c.count("guarded_accesses", na)
	v.c.ob(nc > 0 && na > 0, "K07:none", v.start.pos, "no callback or no guarded access was seen")
	for m, f := range map[string]string{"OnMessage": v.fMsgH, "OnConnected": v.fConH, "OnClose": v.fCloH} {
		v.registers(m, f)
	}
}

func bufferOf(ch *Term) int64 {
	if ch.op != OMake || len(ch.args) == 0 || ch.args[0].op != OConst {
		return -1
	}
	n, _ := constant.Int64Val(ch.args[0].val)
	return n
}

// closeOnce: the close handler called was taken out of its field, under the lock.
func (v *cliView) closeOnce(r cliRoot, o *Outcome, e *Event) {
	if !v.isField(e.callee, v.fCloH) {
		v.obe(false, "closeonce", e, "%s calls a close handler that is not the registered one", r.name)
		return
	}
	ok := false
	for _, x := range o.evs {
		if x == e {
			break
		}
		if x.kind == EvStore && v.isFieldAddr(x.args[0], v.fCloH) && isNil(x.facts, x.args[1]) == 1 && v.held(o, x) &&
			r.a.now(x, x.args[0], deref(x.args[0].typ)) == e.callee {
			ok = true
		}
	}
	v.obe(ok, "closeonce", e, "%s calls the close handler without having taken it out under the lock: it may be called again", r.name)
}

func (v *cliView) registers(meth, field string) {
	fn := v.c.method("jlibhttp", "StreamingClient", meth)
	h := tSym("handler", fn.Params[1].Type())
	a, outs := v.run(fn, nil, v.self, h)
	n := 0
	for _, o := range outs {
		if !v.ob(o.kind == OutReturn, meth, o, "%s ends in a %s", meth, kindName(o.kind)) {
			continue
		}
		var st []*Event
		for _, e := range o.evs {
			if e.kind == EvStore && e.args[0].op == OFieldAddr && e.args[0].args[0] == v.self {
				st = append(st, e)
			}
		}
		switch isNil(o.facts, o.rets[0]) {
		case 0:
			n |= 1
			had := false
			for _, l := range o.facts.lits {
				if l.t.op == OBin && !l.val && (v.isField(l.t.args[0], field) || v.isField(l.t.args[1], field)) && (l.t.args[0] == tNil || l.t.args[1] == tNil) {
					had = true
				}
			}
			v.ob(had, meth, o, "%s refuses a handler although there is none", meth)
			v.ob(len(st) == 0, meth, o, "%s replaces the handler it refuses to replace", meth)
		case 1:
			n |= 2
			ok := len(st) == 1 && v.isFieldAddr(st[0].args[0], field) && st[0].args[1] == h
			v.ob(ok, meth, o, "%s does not keep the handler", meth)
			if ok {
				v.ob(isNil(st[0].facts, a.now(st[0], st[0].args[0], deref(st[0].args[0].typ))) == 1, meth, o, "%s replaces a handler", meth)
			}
		default:
			v.ob(false, meth, o, "whether %s fails is not known", meth)
		}
	}
	v.c.ob(n == 3, "K07:"+meth, fn.Pos(), "%s does not refuse a second handler and keep a first one", meth)
}

// ---- K08

// resets: the events end the connection and report err.
func (v *cliView) resets(who string, o *Outcome, evs []*Event, err *Term) {
	f := o.facts
	closes := callsNamed(evs, trans+"Close")
	if !v.ob(len(closes) == 1, "reset", o, "%s closes the transport %d times", who, len(closes)) {
		return
	}
	cl := closes[0]
	v.obe(v.held(o, cl), "resetlock", cl, "%s closes the transport without the lock", who)
	v.obe(v.isField(cl.args[0], v.fTrans), "reset", cl, "%s closes another transport", who)
	var sends, cancels []*Event
	forgot := false
	for _, e := range evs {
		switch {
		case e.kind == EvSend && v.isField(e.args[0], v.fClose):
			sends = append(sends, e)
			v.obe(err == nil || unIface(e.args[1]) == unIface(err) || isNil(f, e.args[1]) == 1 && isNil(f, err) == 1, "report", e, "%s reports another error", who)
		case e.kind == EvSelect:
			for _, cs := range e.cases {
				if cs.send && v.isField(cs.ch, v.fClose) {
					sends = append(sends, e)
					v.obe(err == nil || unIface(cs.val) == unIface(err), "report", e, "%s reports another error", who)
				}
			}
		case e.kind == EvCall && e.dyn && v.isField(e.callee, v.fCanc):
			cancels = append(cancels, e)
		case e.kind == EvStore && v.isFieldAddr(e.args[0], v.fQueue) && isNil(f, e.args[1]) == 1:
			forgot = true
		}
	}
	v.ob(forgot, "forget", o, "%s leaves the queue of the old connection in use", who)
	// present: reported and cancelled exactly when there is something to
	ch, ca := -1, -1
	for _, l := range f.lits {
		if l.t.op != OBin || l.t.args[0] != tNil && l.t.args[1] != tNil {
			continue
		}
		for _, t := range l.t.args {
			if v.isField(t, v.fClose) && inSection(o, t) {
				ch = b2i(!l.val)
			}
			if v.isField(t, v.fCanc) && inSection(o, t) {
				ca = b2i(!l.val)
			}
		}
	}
	v.ob(ch == 1 && len(sends) == 1 || ch == 0 && len(sends) == 0, "report", o, "%s does not report to the one waiting for the connection to close", who)
	v.ob(ca == 1 && len(cancels) == 1 || ca == 0 && len(cancels) == 0, "cancel", o, "%s does not cancel the context of the connection", who)
	for _, e := range sends {
		v.obe(v.held(o, e), "resetlock", e, "%s uses the connection without the lock", who)
	}
	for _, e := range append(cancels, cl) {
		v.obe(v.held(o, e), "resetlock", e, "%s uses the connection without the lock", who)
	}
}

func inSection(o *Outcome, t *Term) bool { return true }

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// resetPath: whether the path found the connection to be the current one.
// 1 it is (or it was not asked), 0 it is not.
func (v *cliView) current(o *Outcome, g *gor) int {
	r := 1
	for _, l := range o.facts.lits {
		if l.t.op == OBin && l.t.str == "==" {
			x, y := l.t.args[0], l.t.args[1]
			if v.isField(x, v.fQueue) && y.op == OMake || v.isField(y, v.fQueue) && x.op == OMake {
				r = b2i(l.val)
			}
		}
	}
	return r
}

func (v *cliView) failures() {
	n := 0
	for _, reads := range []bool{true, false} {
		g := v.loopOf(reads)
		op, k := trans+"WriteMessage", -1
		who := "the writer"
		if reads {
			op, k, who = trans+"ReadMessage", 2, "the reader"
		}
		ok, bad := 0, 0
		for _, o := range g.outs {
			if stuckAway(g.outs, o) {
				continue
			}
			evs := iteration(o)
			ops := callsNamed(evs, op)
			if len(ops) == 0 {
				v.ob(o.kind == OutReturn || o.kind == OutLoop, "kind", o, "%s ends in a %s", who, kindName(o.kind))
				continue
			}
			if !v.ob(len(ops) == 1, "twice", o, "%s does two operations in one round", who) {
				continue
			}
			e := ops[0]
			err := e.res
			if k >= 0 {
				err = extractErr(e.res, k)
			}
			switch isNil(o.facts, err) {
			case 0:
				bad++
				v.ob(o.kind == OutReturn, "stops", o, "%s goes on after an error", who)
				rest := evs
				for i, x := range evs {
					if x == e {
						rest = evs[i+1:]
					}
				}
				if v.current(o, g) == 0 {
					v.ob(len(callsNamed(rest, trans+"Close")) == 0, "newer", o, "%s closes a connection that is not its own", who)
				} else {
					v.resets(who, o, rest, err)
				}
			case 1:
				ok++
				v.ob(o.kind == OutLoop, "goeson", o, "%s stops after a success", who)
				v.ob(len(callsNamed(evs, trans+"Close")) == 0, "goeson", o, "%s closes the connection after a success", who)
				if reads {
					rd := tExtract(e.res, 1, types.Typ[types.Bool])
					switch o.facts.Val(rd) {
					case 0:
						n++
						for _, x := range evs {
							v.obe(!v.isHandlerCall(x, "MessageHandler") && x.kind != EvSend && x.kind != EvGo, "skipped", x, "something is done for a frame that carries no message")
						}
					case -1:
						v.ob(false, "skipped", o, "a path does not depend on whether a message was read")
					}
				}
			default:
				v.ob(false, "unseen", o, "%s may not see an error", who)
			}
		}
		v.c.ob(ok > 0 && bad > 0, "K08:cases", g.fn.Pos(), "%s has no path for success or none for failure", who)
	}
	v.c.ob(n > 0, "K08:cases", v.start.pos, "no path skips frames that carry no message")
	// Reset, and Close
	fn := v.c.method("jlibhttp", "StreamingClient", "Reset")
	err := tSym("err", errType)
	_, outs := v.run(fn, nil, v.self, err)
	for _, o := range outs {
		v.ob(o.kind == OutReturn, "Reset", o, "Reset ends in a %s", kindName(o.kind))
		v.resets("Reset", o, o.evs, err)
	}
	fn = v.c.method("jlibhttp", "StreamingClient", "Close")
	_, outs = v.run(fn, nil, v.self)
	n = 0
	for _, o := range outs {
		conn := callsNamed(o.evs, trans+"Connected")
		if len(conn) > 0 && o.facts.Val(conn[len(conn)-1].res) == 0 {
			continue
		}
		n++
		v.resets("Close", o, o.evs, tNil)
	}
	v.c.ob(n > 0, "K08:Close", fn.Pos(), "Close never resets the connection")
	// the transports
	for _, t := range v.transports() {
		v.transport(t)
	}
	v.c.count("transports", len(v.transports()))
}
