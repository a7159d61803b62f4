package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lockset analysis of the state goroutines share: K14 (streaming clients) and
// A18 (the server side).

func init() {
	register("K14", "lockset analysis: every exported method of a streaming client, every goroutine it starts and every method of its transports is interpreted; a field (or the content of a map or slice in a field) that any of them writes while a connection may live is accessed with one common lock held (exclusively for writes) on every path; locks are taken in one order and never while already held, and no transport is read or written and nothing is waited for with a lock held", checkK14)
	register("A18", "lockset analysis: the handlers' ServeHTTP, the actor's Feed and HandleClose, the methods of sessions, the goroutines they start and the callbacks registration wraps are interpreted; whatever of the server's objects, package variables or captured variables they write, once other goroutines can see it, is accessed with one common lock held (exclusively for writes) on every path, or by a single goroutine of its session; locks are taken in one order and never while already held", checkA18)
}

type access struct {
	who   string
	e     *Event
	write bool
	live  bool
	held  map[string]int // 2 exclusively, 1 shared
}

type raceScan struct {
	c     *Ctx
	id    string
	accs  map[string][]*access
	order map[string]map[string]*Event // lock -> locks taken with it held
	calls map[string]map[string]*Event // transport method -> locks held around it
	once  map[string]bool              // goroutines that run once per object
	n     int
}

func newRaceScan(c *Ctx, id string) *raceScan {
	return &raceScan{c: c, id: id, accs: map[string][]*access{}, order: map[string]map[string]*Event{}, calls: map[string]map[string]*Event{}, once: map[string]bool{}}
}

func allocLike(t *Term) bool { return t.op == OAlloc || t.op == OMake }

// visibleFrom: the allocations that can be reached from terms.
func visibleFrom(h *Heap, set map[*Term]bool, ts ...*Term) {
	var work []*Term
	add := func(t *Term) {
		subterms(t, func(x *Term) bool {
			if allocLike(x) && !set[x] {
				set[x] = true
				work = append(work, x)
			}
			return true
		})
	}
	for _, t := range ts {
		add(t)
	}
	for len(work) > 0 && h != nil {
		x := work[0]
		work = work[1:]
		for k, v := range h.m {
			if rootOf(k) == x {
				add(v)
			}
		}
	}
}

// tracked: fields of structs of package http other than requests.
func (r *raceScan) tracked(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && structOf(n) != nil && n.Obj().Pkg() != nil && n.Obj().Pkg() == r.c.w.pkgs["jlibhttp"].Pkg && n.Obj().Name() != "RPCRequest"
}

func (r *raceScan) moduleGlobal(t *Term) bool {
	if t.op != OGlobal {
		return false
	}
	for _, p := range r.c.w.pkgs {
		if p != nil && strings.HasPrefix(t.str, p.Pkg.Path()+".") {
			return true
		}
	}
	return false
}

// keyOf names the cell of an address, "" for one that is not tracked.
func (r *raceScan) keyOf(addr *Term) string {
	for x := addr; ; x = x.args[0] {
		switch x.op {
		case OFieldAddr:
			if r.tracked(deref(x.args[0].typ)) && !isLock(deref(x.typ)) {
				return verKey(x)
			}
			continue
		case OIndexAddr, OMapCell, OCell:
			if k := r.content(x.args[0]); k != "" {
				return k
			}
			continue
		case OGlobal:
			if r.moduleGlobal(x) {
				return verKey(x)
			}
		case OSym:
			if strings.HasPrefix(x.str, "captured ") {
				return x.str
			}
		}
		return ""
	}
}

// content names what a map or slice holds, by where it was loaded from.
func (r *raceScan) content(m *Term) string {
	if m != nil && m.op == ODeref {
		if k := r.keyOf(m.args[0]); k != "" {
			return k + "[]"
		}
	}
	if m != nil && m.op == OSym && strings.HasPrefix(m.str, "captured ") {
		return m.str + "[]"
	}
	return ""
}

// shared: other goroutines can see what an address or value refers to.
func (r *raceScan) shared(t *Term, escaped map[*Term]bool) bool {
	for t != nil {
		t = rootOf(t)
		switch t.op {
		case OAlloc, OMake:
			return escaped[t]
		case OSym, OGlobal:
			return true
		case OCall:
			return strings.HasPrefix(t.str2(), "(*sync.Map).") || strings.HasPrefix(t.str2(), "(*lru.")
		}
		if len(t.args) == 0 {
			return false
		}
		t = t.args[0]
	}
	return false
}

func lockMode(name string) (mode int, unlock bool) {
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return 2, false
	case "(*sync.RWMutex).RLock":
		return 1, false
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		return 0, true
	}
	return 0, false
}

// walk collects the accesses and locks of one root.
func (r *raceScan) walk(who string, outs []*Outcome, live bool, visible map[*Term]bool) {
	for _, o := range outs {
		held := map[string]int{}
		onces, once := map[string]bool{}, "" // true within the body
		var stack []string
		escaped := map[*Term]bool{}
		for k := range visible {
			escaped[k] = true
		}
		add := func(e *Event, key string, write bool) {
			if key == "" {
				return
			}
			h := map[string]int{}
			for k, m := range held {
				if m > 0 {
					h[k] = m
				}
			}
			for k, in := range onces {
				if h[k] = 1; in {
					h[k] = 2
				}
			}
			r.n++
			r.accs[key] = append(r.accs[key], &access{who, e, write, live, h})
		}
		for _, e := range o.evs {
			switch e.kind {
			case EvCall:
				if m, un := lockMode(e.name); m > 0 && len(e.args) > 0 {
					k := verKey(e.args[0])
					if k == "" {
						k = e.args[0].String()
					}
					r.c.ob(held[k] == 0, r.id+":twice:"+k, e.pos, "%s takes lock %s while it holds it", who, k)
					for h, n := range held {
						if n > 0 && h != k {
							if r.order[h] == nil {
								r.order[h] = map[string]*Event{}
							}
							r.order[h][k] = e
						}
					}
					held[k] = m
				} else if un && len(e.args) > 0 {
					k := verKey(e.args[0])
					if k == "" {
						k = e.args[0].String()
					}
					held[k] = 0
				} else if e.name == "(*sync.Once).Do" {
					once = "once " + verKey(e.args[0])
					onces[once] = false
				} else if strings.HasPrefix(e.name, trans) {
					for h, n := range held {
						if n > 0 {
							if r.calls[e.name] == nil {
								r.calls[e.name] = map[string]*Event{}
							}
							r.calls[e.name][h] = e
						}
					}
				} else if strings.HasPrefix(e.name, "(*sync.Map).") || strings.HasPrefix(e.name, "(*lru.") {
					visibleFrom(e.heap, escaped, e.args...)
				}
			case EvEnter:
				if stack = append(stack, ""); e.name == "once" {
					stack[len(stack)-1], onces[once] = once, true
				}
			case EvLeave:
				if n := len(stack); n > 0 {
					if k := stack[n-1]; k != "" {
						onces[k] = false
					}
					stack = stack[:n-1]
				}
			case EvGo:
				visibleFrom(e.heap, escaped, append(append([]*Term{}, e.args...), e.callee)...)
			case EvSend:
				visibleFrom(e.heap, escaped, e.args[1])
			case EvSelect:
				for _, cs := range e.cases {
					if cs.send {
						visibleFrom(e.heap, escaped, cs.val)
					}
				}
			case EvStore:
				if r.shared(e.args[0], escaped) {
					add(e, r.keyOf(e.args[0]), true)
					visibleFrom(e.heap, escaped, e.args[1])
				}
			case EvLoad:
				if e.name == "map" || e.name == "range" {
					if r.shared(e.args[0], escaped) {
						add(e, r.content(e.args[0]), false)
					}
					continue
				}
				if !r.shared(e.args[0], escaped) {
					continue
				}
				add(e, r.keyOf(e.args[0]), false)
				if t := deref(e.args[0].typ); r.tracked(t) {
					// a copy of the whole reads every field
					st := structOf(t)
					for i := 0; i < st.NumFields(); i++ {
						if f := st.Field(i); !isLock(f.Type()) {
							add(e, tkey(t)+"."+f.Name(), false)
						}
					}
				}
			case EvMapUpdate, EvMapDelete:
				if r.shared(e.args[0], escaped) {
					add(e, r.content(e.args[0]), true)
				}
			}
		}
	}
}

// goroutines walks what a root starts.
func (r *raceScan) goroutines(who string, outs []*Outcome, opaque []string, depth int, seen map[string]bool) {
	for _, o := range outs {
		inLoop := 0
		for _, e := range o.evs {
			switch e.kind {
			case EvLoopEnter:
				inLoop++
			case EvLoopExit:
				inLoop--
			}
			if e.kind != EvGo {
				continue
			}
			fn := e.fn
			if fn == nil && e.callee != nil {
				fn = e.callee.fn
			}
			if fn == nil || fn.Blocks == nil {
				continue
			}
			name := "goroutine " + shortFn(fn)
			if inLoop == 0 && depth == 0 {
				if _, ok := r.once[name]; !ok {
					r.once[name] = true
				}
			} else {
				r.once[name] = false
			}
			k := who + "/" + r.c.w.Pos(e.instr.Pos())
			if seen[k] || depth > 3 {
				continue
			}
			seen[k] = true
			a := newAnalysis(r.c.w, opaque...)
			a.loads, a.loadsAll = true, true
			a.heap0 = e.heap
			if e.callee != nil && e.callee.op == OClosure {
				a.binds = e.callee.args
			}
			visible := map[*Term]bool{}
			visibleFrom(e.heap, visible, append(append([]*Term{}, e.args...), e.callee)...)
			g := r.c.run(a, fn, e.args...)
			r.walk(name, g, true, visible)
			r.goroutines(k, g, opaque, depth+1, seen)
		}
	}
}

// judge compares the locks held at the accesses of every cell.
func (r *raceScan) judge() {
	c := r.c
	written := 0
	var keys []string
	for k := range r.accs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		as := r.accs[k]
		wr := false
		whos := map[string]bool{}
		for _, a := range as {
			if a.live {
				wr = wr || a.write
				whos[a.who] = true
			}
		}
		if !wr {
			c.ob(true, r.id+":constant:"+k, token.NoPos, "")
			continue
		}
		if len(whos) == 1 && strings.HasPrefix(k, "jlibhttp.") && strings.Contains(k, "Session.") {
			for w := range whos {
				if r.once[w] {
					wr = false // confined to one goroutine of the session
				}
			}
			if !wr {
				c.ob(true, r.id+":confined:"+k, token.NoPos, "")
				continue
			}
		}
		written++
		// the lock most accesses hold
		n := map[string]int{}
		for _, a := range as {
			for l, m := range a.held {
				if m == 2 || !a.write {
					n[l]++
				}
			}
		}
		lock := ""
		for l, m := range n {
			if m > n[lock] || m == n[lock] && l < lock {
				lock = l
			}
		}
		for _, a := range as {
			m := a.held[lock]
			what, how := "reads", strings.Replace("lock "+lock, "github.com/superisaac/jlib/", "", 1)
			if a.write {
				what = "writes"
			}
			if lock == "" {
				how = "a lock"
			}
			c.ob(m == 2 || m == 1 && !a.write, r.id+":lock:"+k+":"+a.who, a.e.pos, "%s %s %s without %s, other goroutines use it at the same time", a.who, what, strings.TrimPrefix(k, "github.com/superisaac/jlib/"), how)
		}
	}
	// the order of locks
	locks := map[string]bool{}
	for h, m := range r.order {
		locks[h] = true
		for k := range m {
			locks[k] = true
		}
	}
	var reach func(from, to string, seen map[string]bool) bool
	reach = func(from, to string, seen map[string]bool) bool {
		if r.order[from][to] != nil {
			return true
		}
		if seen[from] {
			return false
		}
		seen[from] = true
		for k := range r.order[from] {
			if reach(k, to, seen) {
				return true
			}
		}
		return false
	}
	for h, m := range r.order {
		for k, e := range m {
			c.ob(!reach(k, h, map[string]bool{}), r.id+":order:"+h+":"+k, e.pos, "lock %s is taken with %s held, and elsewhere the other way round", k, h)
		}
	}
	c.count("accesses", r.n)
	c.count("cells", len(r.accs))
	c.count("cells_written", written)
	c.count("lock_pairs", len(r.order))
}

// settles: a method that only sets fields from its arguments, for use before
// the client connects.
func settles(r cliRoot) bool {
	if r.fn.Signature.Recv() == nil {
		return false
	}
	for _, o := range r.outs {
		for _, e := range o.evs {
			switch e.kind {
			case EvGo, EvSend, EvRecv, EvSelect, EvClose, EvMapUpdate, EvMapDelete:
				return false
			case EvCall:
				if m, un := lockMode(e.name); m == 0 && !un && (strings.HasPrefix(e.name, trans) || strings.HasPrefix(e.name, "(*sync.") || strings.HasPrefix(e.name, "context.") || e.dyn) {
					return false
				}
			case EvStore:
				ok := false
				for _, p := range r.fn.Params[1:] {
					ok = ok || unIface(e.args[1]).op == OSym && unIface(e.args[1]).str == p.Name()
				}
				if e.args[0].op == OFieldAddr && !ok {
					return false
				}
			}
		}
	}
	return true
}

func checkK14(c *Ctx) {
	v := c.clientView("K14")
	r := newRaceScan(c, "K14")
	set := 0
	for _, x := range v.roots() {
		live, setup := !settles(x), false
		for _, o := range x.outs {
			for _, e := range o.evs {
				setup = setup || e.kind == EvStore && v.isFieldAddr(e.args[0], v.fTrans)
			}
		}
		if !live {
			set++
		}
		if setup {
			continue // before the client is used
		}
		r.walk(x.name, x.outs, live, nil)
		c.site(x.fn.Pos(), x.name)
		for _, o := range x.outs {
			r.waits(x.name, o, v)
		}
	}
	// the transports and the clients around them
	tp := c.typ("jlibhttp", "Transport").Underlying().(*types.Interface)
	cl := c.typ("jlibhttp", "Client").Underlying().(*types.Interface)
	nt := 0
	sc := c.w.pkgs["jlibhttp"].Pkg.Scope()
	opaque := []string{"jlib.ParseBytes", "jlib.MessageBytes", "jlib.DecodeMessage", "(*jlibhttp.StreamingClient).Log"}
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		t, ok := tn.Type().(*types.Named)
		if !ok || structOf(t) == nil {
			continue
		}
		pt := types.NewPointer(t)
		implements := types.Implements(pt, tp)
		around := t.Obj() != v.st.Obj() && types.Implements(pt, cl)
		st := structOf(t)
		for i := 0; i < st.NumFields(); i++ {
			around = around || st.Field(i).Embedded() && types.Identical(deref(st.Field(i).Type()), v.st)
		}
		if !implements && !around {
			continue
		}
		ms := types.NewMethodSet(pt)
		for i := 0; i < ms.Len(); i++ {
			f := ms.At(i).Obj().(*types.Func)
			if around && len(ms.At(i).Index()) > 1 || !f.Exported() {
				continue // promoted
			}
			fn := c.methOf(pt, f.Name())
			if fn == nil || fn.Blocks == nil {
				continue
			}
			nt++
			a := newAnalysis(c.w, opaque...)
			a.loads, a.loadsAll = true, true
			outs := c.run(a, fn, tSym("self", pt))
			who := n + "." + f.Name()
			r.walk(who, outs, implements || !settles(cliRoot{who, fn, a, outs}), nil)
			r.goroutines(who, outs, opaque, 1, map[string]bool{})
			c.site(fn.Pos(), who)
			for _, o := range outs {
				for _, e := range o.evs {
					if m, _ := lockMode(e.name); e.kind == EvCall && m > 0 && implements {
						k := verKey(e.args[0])
						for h := range r.calls[trans+f.Name()] {
							if h == k {
								c.viol("K14:twice:"+k, e.pos, "%s takes lock %s, which is held where it is called", who, k)
								continue
							}
							if r.order[h] == nil {
								r.order[h] = map[string]*Event{}
							}
							r.order[h][k] = e
						}
					}
				}
				if o.kind == OutReturn {
					for k, n := range heldLocks(o.evs) {
						c.ob(n == 0, "K14:release:"+who, o.pos, "%s ends with lock %s taken %d times", who, k, n)
					}
				}
				r.waits(who, o, nil)
			}
		}
	}
	for m, hs := range r.calls {
		if m == trans+"ReadMessage" || m == trans+"WriteMessage" {
			for h, e := range hs {
				c.viol("K14:blocks:"+m, e.pos, "%s is called with lock %s held", m, h)
			}
		}
	}
	r.judge()
	c.count("transport_methods", nt)
	c.count("setters", set)
	c.ob(nt > 8, "K14:transports", v.start.pos, "only %d methods of transports were found", nt)
}

// waits: nothing is waited for, and no connection read or written, with a lock held.
func (r *raceScan) waits(who string, o *Outcome, v *cliView) {
	held := map[string]int{}
	for _, e := range o.evs {
		any := ""
		for k, n := range held {
			if n > 0 {
				any = k
			}
		}
		switch e.kind {
		case EvCall:
			if m, un := lockMode(e.name); m > 0 {
				held[verKey(e.args[0])] = m
			} else if un {
				held[verKey(e.args[0])] = 0
			} else if any != "" {
				switch e.name {
				case "(*websocket.Conn).ReadMessage", "(*websocket.Conn).WriteMessage", "(*websocket.Conn).NextReader", "jlib.DecodeMessage", "(*json.Decoder).Decode", "(io.Writer).Write", "(*io.PipeWriter).Write", "time.Sleep", "(*sync.WaitGroup).Wait":
					r.c.viol(r.id+":blocks:"+who, e.pos, "%s calls %s with lock %s held", who, e.name, any)
				}
			}
		case EvRecv:
			r.c.ob(any == "", r.id+":blocks:"+who, e.pos, "%s waits for a message with lock %s held", who, any)
		case EvSelect:
			r.c.ob(any == "" || poll(e), r.id+":blocks:"+who, e.pos, "%s waits with lock %s held", who, any)
		case EvSend:
			r.c.ob(any == "" || v != nil && v.isField(e.args[0], v.fClose), r.id+":blocks:"+who, e.pos, "%s waits for room in a channel with lock %s held", who, any)
		}
	}
}

func checkA18(c *Ctx) {
	r := newRaceScan(c, "A18")
	sc := c.w.pkgs["jlibhttp"].Pkg.Scope()
	sess := c.typ("jlibhttp", "RPCSession").Underlying().(*types.Interface)
	entries, cbs := 0, 0
	root := func(fn *ssa.Function, who string, params ...*Term) {
		if fn == nil || fn.Blocks == nil {
			return
		}
		var opaque []string
		for _, o := range sessOpaque {
			if o != fnKey(fn) && o != shortFn(fn) && !strings.HasSuffix(o, ")."+fn.Name()) {
				opaque = append(opaque, o)
			}
		}
		a := newAnalysis(c.w, opaque...)
		a.loads, a.loadsAll = true, true
		outs := c.run(a, fn, params...)
		r.walk(who, outs, true, nil)
		r.goroutines(who, outs, opaque, 0, map[string]bool{})
		c.site(fn.Pos(), who)
		entries++
		for _, o := range outs {
			if o.kind == OutReturn {
				for k, n := range heldLocks(o.evs) {
					c.ob(n == 0, "A18:release:"+who, o.pos, "%s ends with lock %s taken %d times", who, k, n)
				}
			}
		}
	}
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		t, ok := tn.Type().(*types.Named)
		if !ok || structOf(t) == nil {
			continue
		}
		pt := types.NewPointer(t)
		self := tSym("self", pt)
		for _, m := range []string{"ServeHTTP", "Feed", "HandleClose"} {
			if ms := types.NewMethodSet(pt).Lookup(tn.Pkg(), m); ms != nil {
				root(c.methOf(pt, m), n+"."+m, self)
			}
		}
		if types.Implements(pt, sess) {
			for i := 0; i < sess.NumMethods(); i++ {
				m := sess.Method(i).Name()
				root(c.methOf(pt, m), n+"."+m, self)
			}
		}
	}
	// callbacks made by functions of the package run for many requests at once
	for _, fn := range c.w.valueFuncs() {
		if fn.Parent() == nil || fn.Pkg == nil || fn.Pkg.Pkg != c.w.pkgs["jlibhttp"].Pkg || !callbackSig(c, fn.Signature) {
			continue
		}
		cbs++
		a := newAnalysis(c.w, sessOpaque...)
		a.loads, a.loadsAll = true, true
		for _, b := range fn.FreeVars {
			a.binds = append(a.binds, tSym("captured "+shortFn(fn)+"."+b.Name(), b.Type()))
		}
		r.walk(shortFn(fn), c.run(a, fn), true, nil)
		entries++
	}
	// whatever else changes package variables
	for _, fn := range c.w.funcs {
		if p := fn.Pkg; p != nil && (p == c.w.pkgs["jlib"] || p == c.w.pkgs["jlibhttp"] || p == c.w.pkgs["jlibschema"]) && fn.Parent() == nil && !strings.HasPrefix(fn.Name(), "init") && setsGlobal(fn) {
			a := newAnalysis(c.w)
			a.loads, a.loadsAll = true, true
			r.walk(shortFn(fn), c.run(a, fn), true, nil)
		}
	}
	r.judge()
	c.count("entries", entries)
	c.count("callbacks", cbs)
	c.ob(entries >= 8 && cbs >= 3, "A18:entries", token.NoPos, "only %d entries of the server and %d callbacks were found", entries, cbs)
}

// callbackSig: functions the actor calls for requests.
func callbackSig(c *Ctx, s *types.Signature) bool {
	for _, n := range []string{"RequestCallback", "MissingCallback", "MsgCallback", "ContextedMsgCallback", "CloseCallback"} {
		if o := c.w.pkgs["jlibhttp"].Pkg.Scope().Lookup(n); o != nil {
			if u, ok := o.Type().Underlying().(*types.Signature); ok && types.Identical(types.NewSignatureType(nil, nil, nil, u.Params(), u.Results(), u.Variadic()), types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())) {
				return true
			}
		}
	}
	return false
}

// setsGlobal: a function or a closure in it changes a package variable or
// what one holds.
func setsGlobal(fn *ssa.Function) bool {
	var global func(v ssa.Value) bool
	global = func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Global:
			return true
		case *ssa.FieldAddr:
			return global(x.X)
		case *ssa.IndexAddr:
			return global(x.X)
		case *ssa.UnOp:
			return x.Op == token.MUL && global(x.X)
		}
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if global(x.Addr) {
					return true
				}
			case *ssa.MapUpdate:
				if global(x.Map) {
					return true
				}
			}
		}
	}
	for _, f := range fn.AnonFuncs {
		if setsGlobal(f) {
			return true
		}
	}
	return false
}
