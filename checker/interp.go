package main

// Path-sensitive abstract interpreter over go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type EvKind uint8

const (
	EvCall EvKind = iota
	EvEnter
	EvLeave
	EvGo
	EvSend
	EvRecv
	EvSelect
	EvStore
	EvMapUpdate
	EvMapDelete
	EvClose
	EvIndex
	EvAssert
	EvDeref
	EvLoopEnter
	EvLoopExit
	EvPanic
	EvDefer
	EvLoad
	EvAppend
)

var evNames = [...]string{"call", "enter", "leave", "go", "send", "recv", "select", "store", "mapupdate", "mapdelete", "close", "index", "assert", "deref", "loopenter", "loopexit", "panic", "defer", "load", "append"}

type Event struct {
	kind   EvKind
	name   string // callee short name
	fn     *ssa.Function
	obj    *types.Func
	callee *Term // dynamic callee or receiver-bound function term
	args   []*Term
	res    *Term // result term of a call
	instr  ssa.Instruction
	pos    token.Pos
	cs     string
	facts  *Facts
	heap   *Heap
	vers   map[string]int
	loop   *LoopInfo
	cases  []SelCase
	chosen int
	dyn    bool
	defr   bool // executed as a deferred call
	ok     bool // EvIndex/EvAssert/EvDeref: proved safe
	depth  int
}

type SelCase struct {
	send bool
	ch   *Term
	val  *Term
}

func (e *Event) String() string {
	s := evNames[e.kind] + " " + e.name
	if e.dyn {
		s += "dyn:" + e.callee.String()
	}
	s += "("
	for i, a := range e.args {
		if i > 0 {
			s += ", "
		}
		s += a.String()
	}
	s += ")"
	if e.kind == EvSelect {
		s += fmt.Sprintf(" chosen=%d", e.chosen)
		for _, c := range e.cases {
			d := "recv"
			if c.send {
				d = "send"
			}
			s += " " + d + " " + c.ch.String()
		}
	}
	if e.kind == EvIndex || e.kind == EvAssert {
		s += fmt.Sprintf(" safe=%v", e.ok)
	}
	return s
}

// Heap is persistent.
type Heap struct {
	m map[*Term]*Term
}

func (h *Heap) set(a, v *Term) *Heap {
	n := make(map[*Term]*Term, len(h.m)+1)
	for k, x := range h.m {
		n[k] = x
	}
	n[a] = v
	return &Heap{n}
}

type LoopInfo struct {
	key    string
	head   *ssa.BasicBlock
	fn     *ssa.Function
	vars   []*Term         // loop variables (phis, cells)
	init   map[*Term]*Term // initial value of each
	cellOf map[*Term]*Term // loop variable -> cell address (for cells)
	slide  map[*Term]*Term // counter -> list eaten from the front up to it
	entry  *Heap           // heap after havoc
	nalloc int
	nev    int // events before the loop
	nfacts int
	vers   map[string]int
	outer  *LoopInfo
	cs     string
}

type OutKind uint8

const (
	OutReturn OutKind = iota
	OutPanic
	OutLoop
	OutExit
	OutBlock // blocks forever (empty select)
)

type Outcome struct {
	kind  OutKind
	rets  []*Term
	pval  *Term
	facts *Facts
	heap  *Heap
	evs   []*Event
	loop  *LoopInfo
	next  map[*Term]*Term
	pos   token.Pos
	fr    *Frame
	vers  map[string]int
}

type deferred struct {
	call ssa.CallInstruction
	fn   *Term // callee term (func/closure/dynamic) or nil for invoke
	recv *Term
	args []*Term
	cs   string
}

type Frame struct {
	fn       *ssa.Function
	cs       string
	regs     map[ssa.Value]*Term
	block    *ssa.BasicBlock
	idx      int
	prev     *ssa.BasicBlock
	callI    ssa.CallInstruction // call in the parent frame (nil for root/deferred)
	defers   []deferred
	isDefer  bool // frame runs a deferred call of its parent frame
	unwind   bool // this frame is unwinding a panic
	pval     *Term
	recov    bool // the panic of this frame has been recovered
	loops    *LoopInfo
	unroll   []unrolled
	bind     []*Term // closure bindings
	depth    int
	onceDone bool
}

// unrolled: a loop over a constant number of elements, executed step by step
type unrolled struct {
	head *ssa.BasicBlock
	n    int
}

func (fr *Frame) iter() string {
	s := ""
	for _, u := range fr.unroll {
		s += fmt.Sprintf("^%d.%d", u.head.Index, u.n)
	}
	return s
}

// trips: how often the loop goes round when that is a small constant, else -1.
func (a *Analysis) trips(st *State, head, from *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) int {
	fr := st.top()
	lim := int64(8)
	for b := range body {
		if _, ok := a.loops(fr.fn)[b]; ok && b != head {
			return -1
		}
		if len(b.Succs) == 2 && b != head && body[b.Succs[0]] && body[b.Succs[1]] {
			lim = 3
		}
	}
	br, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If)
	if !ok || body[head.Succs[0]] == body[head.Succs[1]] {
		return -1
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS || !body[head.Succs[0]] {
		return -1
	}
	off := int64(0)
	x := cmp.X
	if ad, ok := x.(*ssa.BinOp); ok && ad.Op == token.ADD {
		c, ok := ad.Y.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			return -1
		}
		off, _ = constant.Int64Val(c.Value)
		x = ad.X
	}
	phi, ok := x.(*ssa.Phi)
	if !ok || phi.Block() != head {
		return -1
	}
	for j, p := range head.Preds {
		if body[p] && stepOf(phi.Edges[j], phi, 0) != 1 {
			return -1
		}
	}
	lo, ok := tInt64(a.phiVal(st, phi, from))
	if !ok {
		return -1
	}
	var bound *Term
	switch y := cmp.Y.(type) {
	case *ssa.Const:
		bound = constTerm(y)
	case *ssa.Call:
		if !body[y.Block()] {
			bound = fr.regs[y]
		} else if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if r := fr.regs[y.Call.Args[0]]; r != nil {
				bound = tLen(r)
			}
		}
	default:
		bound = fr.regs[cmp.Y]
	}
	if bound == nil {
		return -1
	}
	hi, ok := tInt64(bound)
	if !ok || hi-lo-off < 0 || hi-lo-off > lim {
		return -1
	}
	return int(hi - lo - off)
}

func tInt64(t *Term) (int64, bool) {
	b, n := linear(t)
	return n, b == nil
}

type State struct {
	frames []*Frame
	facts  *Facts
	heap   *Heap
	evs    []*Event
	allocs []*Term
	vers   map[string]int
	steps  int
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) clone() *State {
	n := &State{facts: s.facts, heap: s.heap, evs: s.evs[:len(s.evs):len(s.evs)], allocs: s.allocs[:len(s.allocs):len(s.allocs)], vers: s.vers, steps: s.steps}
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.regs = make(map[ssa.Value]*Term, len(f.regs))
		for k, v := range f.regs {
			g.regs[k] = v
		}
		g.defers = f.defers[:len(f.defers):len(f.defers)]
		n.frames[i] = &g
	}
	return n
}

// Analysis configures and runs one root.
type Analysis struct {
	w        *World
	volatile map[string]bool          // fields with a new value at every load
	guarded  map[string]string        // fields with a new value at every load unless the lock is held
	opaque   map[string]bool          // short names of in-module functions kept opaque
	opaqueF  func(*ssa.Function) bool // additional predicate
	panics   func(ev *Event) bool     // fork a panicking outcome of this opaque call
	rawMsg   bool                     // do not use the message-kind domain
	loads    bool                     // record loads of non-local memory
	loadsAll bool                     // and of local memory
	derefs   bool                     // record pointer dereferences with proof state
	facts0   []Lit
	maxPaths int
	maxSteps int
	noReturn map[string]bool
	invoke   func(a *Analysis, st *State, ev *Event) []*ssa.Function // optional devirtualiser
	recurse  int

	root     *ssa.Function
	outs     []*Outcome
	loopMods map[string]map[*Term]bool
	loopVers map[string]map[string]bool
	noSlide  map[string]bool
	again    bool
	work     []*State
	steps    int
	nfuncs   map[*ssa.Function]bool
	fail     string
	loopsOf  map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	dynTypes map[*Term]types.Type
	Params   []*Term
	binds    []*Term
	heap0    *Heap
}

func newAnalysis(w *World, opaque ...string) *Analysis {
	a := &Analysis{w: w, opaque: map[string]bool{}, maxPaths: 60000, maxSteps: 6000000}
	for _, o := range opaque {
		a.opaque[o] = true
	}
	return a
}

// Run analyses fn from symbolic parameters and returns every abstract outcome.
func (a *Analysis) Run(fn *ssa.Function, params ...*Term) ([]*Outcome, error) {
	a.root = fn
	a.loopMods = map[string]map[*Term]bool{}
	a.loopVers = map[string]map[string]bool{}
	a.noSlide = map[string]bool{}
	a.loopsOf = map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	a.nfuncs = map[*ssa.Function]bool{}
	a.Params = nil
	for i, p := range fn.Params {
		if i < len(params) && params[i] != nil {
			a.Params = append(a.Params, params[i])
		} else {
			a.Params = append(a.Params, tSym(p.Name(), p.Type()))
		}
	}
	for iter := 0; ; iter++ {
		if iter > 40 {
			return nil, fmt.Errorf("loop summaries of %s do not stabilise", shortFn(fn))
		}
		a.again = false
		a.outs = nil
		a.steps = 0
		a.runOnce()
		if a.fail != "" {
			return nil, fmt.Errorf("%s: %s", shortFn(fn), a.fail)
		}
		if !a.again {
			break
		}
	}
	return a.outs, nil
}

func (a *Analysis) runOnce() {
	st := &State{facts: noFacts, heap: &Heap{map[*Term]*Term{}}, vers: map[string]int{}}
	if a.heap0 != nil {
		st.heap = a.heap0
	}
	for _, l := range a.facts0 {
		st.facts = st.facts.with(l)
	}
	fr := &Frame{fn: a.root, regs: map[ssa.Value]*Term{}, block: a.root.Blocks[0], cs: ""}
	for i, p := range a.root.Params {
		fr.regs[p] = a.Params[i]
	}
	for i, fv := range a.root.FreeVars {
		if i < len(a.binds) && a.binds[i] != nil {
			fr.bind = append(fr.bind, a.binds[i])
		} else {
			fr.bind = append(fr.bind, tSym("&"+fv.Name(), fv.Type()))
		}
	}
	st.frames = []*Frame{fr}
	a.nfuncs[a.root] = true
	a.work = []*State{st}
	for len(a.work) > 0 {
		s := a.work[len(a.work)-1]
		a.work = a.work[:len(a.work)-1]
		a.exec(s)
		if a.fail != "" {
			return
		}
		if len(a.outs) > a.maxPaths {
			a.fail = fmt.Sprintf("more than %d paths", a.maxPaths)
			return
		}
	}
}

func (a *Analysis) push(s *State) { a.work = append(a.work, s) }

func (a *Analysis) emit(st *State, ev *Event) *Event {
	fr := st.top()
	ev.facts = st.facts
	ev.heap = st.heap
	ev.vers = st.vers
	ev.depth = len(st.frames)
	if ev.cs == "" {
		ev.cs = fr.cs
	}
	if ev.loop == nil {
		ev.loop = fr.loops
	}
	if !ev.pos.IsValid() && ev.instr != nil {
		ev.pos = ev.instr.Pos()
	}
	st.evs = append(st.evs, ev)
	return ev
}

func (a *Analysis) finish(st *State, o *Outcome) {
	o.facts = st.facts
	o.heap = st.heap
	o.evs = st.evs
	o.vers = st.vers
	if o.fr == nil && len(st.frames) > 0 {
		o.fr = st.top()
	}
	if !o.pos.IsValid() && o.fr != nil {
		for i := len(o.evs) - 1; i >= 0 && !o.pos.IsValid(); i-- {
			o.pos = o.evs[i].pos
		}
		if !o.pos.IsValid() {
			o.pos = a.root.Pos()
		}
	}
	a.outs = append(a.outs, o)
}

// ---- loops

func (a *Analysis) loops(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := a.loopsOf[fn]; ok {
		return l
	}
	l := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := l[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					l[s] = body
				}
				var st []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range x.Preds {
						if !body[p] {
							body[p] = true
							st = append(st, p)
						}
					}
				}
			}
		}
	}
	a.loopsOf[fn] = l
	return l
}

func (a *Analysis) jump(st *State, to *ssa.BasicBlock) {
	fr := st.top()
	from := fr.block
	loops := a.loops(fr.fn)
	// leaving loops
	for fr.loops != nil && fr.loops.fn == fr.fn && fr.loops.cs == fr.cs {
		body := loops[fr.loops.head]
		if body[to] {
			break
		}
		l := fr.loops
		fr.loops = l.outer
		a.emit(st, &Event{kind: EvLoopExit, loop: l, pos: token.NoPos})
	}
	for n := len(fr.unroll); n > 0 && !loops[fr.unroll[n-1].head][to]; n-- {
		fr.unroll = fr.unroll[: n-1 : n-1]
	}
	if body, isHead := loops[to]; isHead {
		n := len(fr.unroll)
		again := n > 0 && fr.unroll[n-1].head == to
		if again {
			fr.unroll = append(fr.unroll[:n-1:n-1], unrolled{to, fr.unroll[n-1].n + 1})
		} else if !body[from] && a.trips(st, to, from, body) >= 0 {
			fr.unroll = append(fr.unroll[:n:n], unrolled{to, 0})
			again = true
		}
		if again {
			a.enterBlock(st, to, from)
			return
		}
		if body[from] && fr.loops != nil && fr.loops.head == to && fr.loops.cs == fr.cs {
			a.loopBack(st, to, from)
			return
		}
		a.loopEnter(st, to, from)
		a.push(st)
		return
	}
	a.enterBlock(st, to, from)
}

func (a *Analysis) enterBlock(st *State, to, from *ssa.BasicBlock) {
	fr := st.top()
	var vals []*Term
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, a.phiVal(st, phi, from))
	}
	for i := range vals {
		fr.regs[to.Instrs[i].(*ssa.Phi)] = vals[i]
	}
	fr.prev, fr.block, fr.idx = from, to, len(vals)
	a.push(st)
}

func (a *Analysis) phiVal(st *State, phi *ssa.Phi, from *ssa.BasicBlock) *Term {
	for i, p := range phi.Block().Preds {
		if p == from {
			return a.val(st, phi.Edges[i])
		}
	}
	panic("phi edge")
}

func (a *Analysis) loopEnter(st *State, head, from *ssa.BasicBlock) {
	fr := st.top()
	key := fr.cs + "~" + fnKey(fr.fn) + fr.iter() + fmt.Sprintf(".b%d", head.Index)
	l := &LoopInfo{key: key, head: head, fn: fr.fn, init: map[*Term]*Term{}, cellOf: map[*Term]*Term{}, outer: fr.loops, cs: fr.cs}
	var phis []*ssa.Phi
	var inits []*Term
	for _, in := range head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		inits = append(inits, a.phiVal(st, phi, from))
	}
	for i, phi := range phis {
		if a.unchanged(fr.fn, head, phi) {
			// chosen before the loop
			fr.regs[phi] = inits[i]
			continue
		}
		if base, lo, hi := inits[i], tInt(0), (*Term)(nil); a.slides(fr.fn, head, phi) && base.op != OAlloc && base.op != ONil && !a.noSlide[key] {
			// a list eaten from the front: what is left starts at a counter
			if base.op == OSlice {
				hi = base.args[2]
				if base.args[1] != nil {
					lo = base.args[1]
				}
				base = base.args[0]
			}
			lv := mk(OLoopVar, types.Typ[types.Int], fmt.Sprintf("%s.p%d.lo", key, i), 0)
			fr.regs[phi] = mk(OSlice, phi.Type(), "", 0, base, lv, hi)
			l.vars = append(l.vars, lv)
			l.init[lv] = lo
			if l.slide == nil {
				l.slide = map[*Term]*Term{}
			}
			l.slide[lv] = base
			st.facts = st.facts.with(Lit{tLe(lo, lv), true})
			// cutting more than is left panics
			if end := hi; end != nil {
				st.facts = st.facts.with(Lit{tLe(lv, end), true})
			} else {
				st.facts = st.facts.with(Lit{tLe(lv, tLen(base)), true})
			}
			continue
		}
		lv := mk(OLoopVar, phi.Type(), fmt.Sprintf("%s.p%d", key, i), 0)
		fr.regs[phi] = lv
		l.vars = append(l.vars, lv)
		l.init[lv] = inits[i]
		// induction facts
		if isIntType(phi.Type()) {
			dir := 0
			okInd := true
			for j, p := range head.Preds {
				if !a.loops(fr.fn)[head][p] {
					continue
				}
				c := stepOf(phi.Edges[j], phi, 0)
				if c == 0 || (dir != 0 && (c > 0) != (dir > 0)) {
					okInd = false
					break
				}
				dir = 1
				if c < 0 {
					dir = -1
				}
			}
			if okInd && dir != 0 {
				if dir > 0 {
					st.facts = st.facts.with(Lit{tLe(inits[i], lv), true})
				} else {
					st.facts = st.facts.with(Lit{tLe(lv, inits[i]), true})
				}
			}
		}
	}
	for _, cell := range sortedTerms(a.loopMods[key]) {
		var typ types.Type
		if cell.op != OMapCell {
			typ = deref(cell.typ)
		}
		old := a.loadRaw(st, cell)
		lv := mk(OLoopVar, typ, key+".c", 0, cell)
		l.vars = append(l.vars, lv)
		l.cellOf[lv] = cell
		l.init[lv] = old
		st.heap = a.storeHeap(st.heap, cell, lv)
	}
	if vs := a.loopVers[key]; len(vs) > 0 {
		nv := map[string]int{}
		for k, v := range st.vers {
			nv[k] = v
		}
		var ks []string
		for k := range vs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			nv[k] = nv[k] + 1000
		}
		st.vers = nv
	}
	l.entry = st.heap
	l.vers = st.vers
	l.nalloc = len(st.allocs)
	l.nev = len(st.evs)
	fr.loops = l
	a.emit(st, &Event{kind: EvLoopEnter, loop: l})
	l.nfacts = len(st.facts.lits)
	fr.prev, fr.block, fr.idx = from, head, len(phis)
}

// fieldEqs: the comparisons of the fields a comparison of two small structs
// is made of.
func fieldEqs(x *ssa.BinOp, l, r *Term) []*Term {
	s, ok := x.X.Type().Underlying().(*types.Struct)
	if !ok || x.Op != token.EQL && x.Op != token.NEQ || s.NumFields() == 0 || s.NumFields() > 6 {
		return nil
	}
	var es []*Term
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch f.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			return nil
		}
		es = append(es, tEq(tField(l, f.Name(), i, f.Type()), tField(r, f.Name(), i, f.Type())))
	}
	return es
}

// is the phi of the loop head left as it is by every iteration?
func (a *Analysis) unchanged(fn *ssa.Function, head *ssa.BasicBlock, phi *ssa.Phi) bool {
	body := a.loops(fn)[head]
	seen := map[*ssa.Phi]bool{phi: true}
	var same func(v ssa.Value) bool
	same = func(v ssa.Value) bool {
		p, ok := v.(*ssa.Phi)
		if !ok {
			return false
		}
		if seen[p] {
			return true
		}
		if !body[p.Block()] || p.Block() == head {
			return false
		}
		seen[p] = true
		for _, e := range p.Edges {
			if !same(e) {
				return false
			}
		}
		return true
	}
	for j, p := range head.Preds {
		if body[p] && !same(phi.Edges[j]) {
			return false
		}
	}
	return true
}

// slides: every iteration leaves the list as it is or takes a fixed number of
// elements off its front, and some iteration does.
func (a *Analysis) slides(fn *ssa.Function, head *ssa.BasicBlock, phi *ssa.Phi) bool {
	if _, ok := phi.Type().Underlying().(*types.Slice); !ok {
		return false
	}
	body := a.loops(fn)[head]
	seen := map[ssa.Value]bool{phi: true}
	cuts := 0
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Slice:
			c, isC := x.Low.(*ssa.Const)
			if x.High != nil || x.Max != nil || !isC || !types.Identical(x.X.Type(), phi.Type()) {
				return false
			}
			n, exact := constant.Int64Val(c.Value)
			cuts++
			return exact && n >= 0 && ok(x.X)
		case *ssa.Phi:
			if !body[x.Block()] {
				return false
			}
			for _, e := range x.Edges {
				if !ok(e) {
					return false
				}
			}
			return true
		}
		return false
	}
	for j, p := range head.Preds {
		if body[p] && !ok(phi.Edges[j]) {
			return false
		}
	}
	return cuts > 0
}

// constant step of a phi along an edge, 0 if not an induction step
func stepOf(v ssa.Value, phi *ssa.Phi, d int) int64 {
	if d > 6 {
		return 0
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
			k, _ := constant.Int64Val(c.Value)
			if x.Op == token.SUB {
				k = -k
			} else if x.Op != token.ADD {
				return 0
			}
			if x.X == ssa.Value(phi) {
				return k
			}
			if r := stepOf(x.X, phi, d+1); r != 0 && (r > 0) == (k > 0) {
				return r + k
			}
		}
	case *ssa.Phi:
		// join of equal-direction steps
		r := int64(0)
		for _, e := range x.Edges {
			c := stepOf(e, phi, d+1)
			if c == 0 || (r != 0 && (c > 0) != (r > 0)) {
				return 0
			}
			r = c
		}
		return r
	}
	return 0
}

func (a *Analysis) loopBack(st *State, head, from *ssa.BasicBlock) {
	fr := st.top()
	l := fr.loops
	next := map[*Term]*Term{}
	i := 0
	for _, in := range head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if a.unchanged(fr.fn, head, phi) {
			continue
		}
		v := a.phiVal(st, phi, from)
		if base := l.slide[l.vars[i]]; base != nil {
			switch {
			case v == base:
				v = tInt(0)
			case v.op == OSlice && v.args[0] == base:
				if v = v.args[1]; v == nil {
					v = tInt(0)
				}
			default:
				a.noSlide[l.key] = true
				a.again = true
			}
		}
		next[l.vars[i]] = v
		i++
	}
	inLoop := map[*Term]bool{}
	for _, al := range st.allocs[l.nalloc:] {
		inLoop[al] = true
	}
	mods := a.loopMods[l.key]
	if mods == nil {
		mods = map[*Term]bool{}
		a.loopMods[l.key] = mods
	}
	note := func(c *Term) {
		for x := c; x.op == OFieldAddr || x.op == OIndexAddr; {
			x = x.args[0]
			// an element of an array that has a value as a whole
			if _, ok := l.entry.m[x]; ok && arrayLen(x.typ) > 0 && mentionsLoop(c, l) && !mentionsLoop(x, l) {
				c = x
				break
			}
		}
		if mods[c] || inLoop[rootOf(c)] || mentionsLoop(c, l) {
			return
		}
		mods[c] = true
		a.again = true
	}
	for c, v := range st.heap.m {
		if ov, ok := l.entry.m[c]; !ok || ov != v {
			if !ok {
				// first write in the loop: compare with what a load at entry gives
				tmp := &State{heap: l.entry, vers: l.vers}
				if a.loadRaw(tmp, c) == v {
					continue
				}
			}
			note(c)
		}
	}
	for c := range l.entry.m {
		if _, ok := st.heap.m[c]; !ok {
			note(c)
		}
	}
	for k, v := range st.vers {
		if l.vers[k] != v {
			m := a.loopVers[l.key]
			if m == nil {
				m = map[string]bool{}
				a.loopVers[l.key] = m
			}
			if !m[k] {
				m[k] = true
				a.again = true
			}
		}
	}
	for _, lv := range l.vars {
		if c, ok := l.cellOf[lv]; ok {
			next[lv] = a.loadRaw(st, c)
		}
	}
	a.finish(st, &Outcome{kind: OutLoop, loop: l, next: next, pos: lastPos(from)})
}

func mentionsLoop(c *Term, l *LoopInfo) bool {
	found := false
	subterms(c, func(x *Term) bool {
		if x.op == OLoopVar && strings.HasPrefix(x.str, l.key+".") {
			found = true
		}
		if (x.op == ORKey || x.op == ORVal || x.op == OCall || x.op == ORecv) && strings.Contains(x.str, "\x00"+l.key) {
			found = true
		}
		return !found
	})
	return found
}

func lastPos(b *ssa.BasicBlock) token.Pos {
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if p := b.Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	return b.Parent().Pos()
}

func rootOf(t *Term) *Term {
	for {
		switch t.op {
		case OFieldAddr, OIndexAddr, OMapCell, OCell:
			t = t.args[0]
		default:
			return t
		}
	}
}

func fnKey(f *ssa.Function) string { return f.RelString(nil) }

// ---- values

func (a *Analysis) val(st *State, v ssa.Value) *Term {
	fr := st.top()
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Function:
		return tFuncT(x)
	case *ssa.Global:
		return mk(OGlobal, x.Type(), x.RelString(nil), 0)
	case *ssa.Builtin:
		return mk(OFunc, nil, "builtin "+x.Name(), 0)
	case *ssa.FreeVar:
		for i, fv := range fr.fn.FreeVars {
			if fv == x {
				return fr.bind[i]
			}
		}
	}
	if t, ok := fr.regs[v]; ok {
		return t
	}
	panic(fmt.Sprintf("no value for %s %s in %s", v.Name(), v, fr.fn))
}

func constTerm(x *ssa.Const) *Term {
	if x.Value == nil {
		switch u := x.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			return mk(OZero, x.Type(), "", 0)
		case *types.Basic:
			if u.Kind() == types.UntypedNil {
				return tNil
			}
			return zeroOf(x.Type())
		}
		return tNil
	}
	return tConstV(x.Value, x.Type())
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return tStr("")
		case u.Info()&types.IsInteger != 0:
			return tConstV(constant.MakeInt64(0), t)
		case u.Info()&types.IsFloat != 0:
			return tConstV(constant.ToFloat(constant.MakeInt64(0)), t)
		}
		return mk(OZero, t, "", 0)
	case *types.Struct, *types.Array:
		return mk(OZero, t, "", 0)
	}
	return tNil
}

func tField(x *Term, name string, idx int, typ types.Type) *Term {
	switch x.op {
	case OZero:
		return zeroOf(typ)
	case OStruct:
		return x.args[idx]
	case ODeref:
		return mk(ODeref, typ, "", x.n, tFieldAddr(x.args[0], name, types.NewPointer(typ)))
	case OIndex:
		if x.args[0].typ != nil {
			if _, ok := x.args[0].typ.Underlying().(*types.Slice); ok {
				return mk(ODeref, typ, "", 0, tFieldAddr(tIndexAddr(x.args[0], x.args[1], types.NewPointer(x.typ)), name, types.NewPointer(typ)))
			}
		}
	}
	return mk(OField, typ, name, idx, x)
}

// ---- memory

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// version key of a memory cell (field of a named struct)
func verKey(addr *Term) string {
	if addr.op == OFieldAddr {
		return tkey(deref(addr.args[0].typ)) + "." + addr.str
	}
	if addr.op == OGlobal {
		return "global " + addr.str
	}
	return ""
}

// touch: fields other goroutines may change have a new value at every load
// (volatile), or at every load without their lock (guarded).
func (a *Analysis) touch(st *State, addr *Term) {
	k := verKey(addr)
	if k == "" || rootOf(addr).op == OAlloc || !a.volatile[k] && a.guarded[k] == "" {
		return
	}
	if l := a.guarded[k]; l != "" && heldLocks(st.evs)[l] > 0 {
		return
	}
	a.forgetFields(st, map[string]bool{k: true})
}

// heldLocks: which mutex fields are locked after the events.
func heldLocks(evs []*Event) map[string]int {
	m := map[string]int{}
	for _, e := range evs {
		if e.kind != EvCall || len(e.args) == 0 {
			continue
		}
		switch e.name {
		case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
			m[verKey(e.args[0])]++
		case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
			m[verKey(e.args[0])]--
		}
	}
	return m
}

// locked: a lock was taken, the fields it guards may have changed before.
func (a *Analysis) locked(st *State, addr *Term) {
	m := map[string]bool{}
	for k, l := range a.guarded {
		if l == verKey(addr) {
			m[k] = true
		}
	}
	a.forgetFields(st, m)
}

func (a *Analysis) load(st *State, addr *Term, typ types.Type) *Term {
	h := st.heap
	if typ != nil && arrayLen(types.NewPointer(typ)) > 0 {
		var sub []string
		for c, v := range h.m {
			if c != addr && underAddr(c, addr) {
				sub = append(sub, c.String()+"="+v.String())
			}
		}
		if len(sub) > 0 {
			// elements stored one by one: some array of its own
			sort.Strings(sub)
			return mk(ODeref, typ, "h:"+strings.Join(sub, ","), 0, addr)
		}
	}
	if v, ok := h.m[addr]; ok {
		// a whole value may have newer subcells only in an array: stores keep
		// it in step
		return v
	}
	// subcells present: rebuild
	if s := structOf(typ); s != nil {
		have := false
		for c := range h.m {
			if c != addr && underAddr(c, addr) {
				have = true
				break
			}
		}
		if have {
			var fs []*Term
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				fs = append(fs, a.load(st, tFieldAddr(addr, f.Name(), types.NewPointer(f.Type())), f.Type()))
			}
			return mk(OStruct, typ, "", 0, fs...)
		}
	}
	// enclosing cell
	switch addr.op {
	case OFieldAddr:
		base := addr.args[0]
		if bt := deref(base.typ); bt != nil && structOf(bt) != nil {
			if v, ok := a.enclosing(st, base); ok {
				s := structOf(bt)
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == addr.str {
						return tField(v, addr.str, i, s.Field(i).Type())
					}
				}
			}
		}
	case OIndexAddr:
		if x := appended(addr.args[0], addr.args[1]); x != nil {
			return x
		}
		if v, ok := h.m[addr.args[0]]; ok {
			if v.op == OZero {
				return zeroOf(typ)
			}
			return mk(OIndex, typ, "", 0, v, addr.args[1])
		}
	}
	r := rootOf(addr)
	if r.op == OAlloc {
		if addr.op == OIndexAddr && (addr.args[1].op != OConst || a.symStored(h, addr.args[0])) {
			return mk(ODeref, typ, "h", 0, addr)
		}
		return zeroOf(typ)
	}
	return a.initial(st, addr, typ)
}

func (a *Analysis) symStored(h *Heap, base *Term) bool {
	for c := range h.m {
		if c.op == OIndexAddr && c.args[0] == base && c.args[1].op != OConst {
			return true
		}
	}
	return false
}

func (a *Analysis) initial(st *State, addr *Term, typ types.Type) *Term {
	n := 0
	if k := verKey(addr); k != "" {
		n = st.vers[k]
	}
	if addr.op == OIndexAddr {
		b := addr.args[0]
		switch b.op {
		case OSliceLit:
			if i := addr.args[1]; i.op == OConst {
				if k, ok := constant.Int64Val(i.val); ok && int(k) < len(b.args) && k >= 0 {
					return b.args[k]
				}
			}
		}
		if _, ok := deref(b.typ).Underlying().(*types.Array); !ok || b.op != OFieldAddr {
			return mk(OIndex, typ, "", 0, b, addr.args[1])
		}
	}
	return mk(ODeref, typ, "", n, addr)
}

func (a *Analysis) enclosing(st *State, addr *Term) (*Term, bool) {
	if v, ok := st.heap.m[addr]; ok {
		return v, true
	}
	if addr.op == OFieldAddr {
		base := addr.args[0]
		if v, ok := a.enclosing(st, base); ok {
			if s := structOf(deref(base.typ)); s != nil {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == addr.str {
						return tField(v, addr.str, i, s.Field(i).Type()), true
					}
				}
			}
		}
	}
	return nil, false
}

// loadRaw loads a cell (also map cells) with its natural type.
// appended: element i of append(P, x...) when it is one of the appended ones.
func appended(b, i *Term) *Term {
	switch {
	case b.op == OAppend && b.str == "":
		lb, lc := linear(tLen(b.args[0]))
		ib, ic := linear(i)
		if lb == ib && ic >= lc && ic-lc < int64(len(b.args)-1) {
			return b.args[1+ic-lc]
		}
	case b.op == OSliceLit:
		if ib, ic := linear(i); ib == nil && ic >= 0 && ic < int64(len(b.args)) {
			return b.args[ic]
		}
	}
	return nil
}

func (a *Analysis) loadRaw(st *State, cell *Term) *Term {
	if cell.op == OMapCell {
		return a.mapState(st, cell.args[0])
	}
	return a.load(st, cell, deref(cell.typ))
}

func underAddr(c, addr *Term) bool {
	for c.op == OFieldAddr || c.op == OIndexAddr {
		c = c.args[0]
		if c == addr {
			return true
		}
	}
	return false
}

func (a *Analysis) storeHeap(h *Heap, addr, v *Term) *Heap {
	// split an enclosing whole-value cell
	n := make(map[*Term]*Term, len(h.m)+1)
	for k, x := range h.m {
		if underAddr(k, addr) {
			continue
		}
		n[k] = x
	}
	// if an ancestor holds a whole value, explode it
	for anc := addr; anc.op == OFieldAddr || anc.op == OIndexAddr; {
		anc = anc.args[0]
		if whole, ok := n[anc]; ok {
			if s := structOf(deref(anc.typ)); s != nil {
				delete(n, anc)
				a.explode(n, anc, whole, s, addr)
			} else if whole.op == OZero {
				delete(n, anc)
			}
			break
		}
	}
	if s := structOf(deref(addr.typ)); s != nil && v.op == OStruct {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			fa := tFieldAddr(addr, f.Name(), types.NewPointer(f.Type()))
			sub := a.storeHeap(&Heap{n}, fa, v.args[i])
			n = sub.m
		}
		return &Heap{n}
	}
	n[addr] = v
	return &Heap{n}
}

func (a *Analysis) explode(n map[*Term]*Term, anc, whole *Term, s *types.Struct, target *Term) {
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		fa := tFieldAddr(anc, f.Name(), types.NewPointer(f.Type()))
		if fa == target {
			continue
		}
		fv := tField(whole, f.Name(), i, f.Type())
		if fs := structOf(f.Type()); fs != nil && underAddr(target, fa) {
			a.explode(n, fa, fv, fs, target)
			continue
		}
		n[fa] = fv
	}
}

func (a *Analysis) store(st *State, addr, v *Term) {
	st.heap = a.storeHeap(st.heap, addr, v)
}

func mapCell(m *Term) *Term { return mk(OMapCell, nil, "", 0, m) }

func (a *Analysis) mapState(st *State, m *Term) *Term {
	if v, ok := st.heap.m[mapCell(m)]; ok {
		return v
	}
	if m.op == OMake || m.op == ONil {
		return mk(OMapInit, m.typ, "", 0)
	}
	return m
}

// fixed: the value of an isFixed value.
func (a *Analysis) fixed(st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return tMkIface(x.X.Type(), a.fixed(st, x.X))
	case *ssa.ChangeType:
		return a.fixed(st, x.X)
	}
	return a.val(st, v)
}

// litPuts: the entries of a map that was made with a few different constant
// keys, nil if it is something else.
func litPuts(ms *Term) []*Term {
	var ps []*Term
	for ; ms.op == OMapPut; ms = ms.args[0] {
		if ms.args[1].op != OConst || len(ps) == 16 {
			return nil
		}
		old := false
		for _, p := range ps {
			old = old || p.args[1] == ms.args[1]
		}
		if !old {
			ps = append(ps, ms)
		}
	}
	if ms.op != OMapInit && ms.op != ONil || ms.op == OMapInit && len(ms.args) > 0 {
		return nil
	}
	return ps
}

func (a *Analysis) lookup(ms, k *Term, typ types.Type) (v, ok *Term) {
	for {
		switch ms.op {
		case OMapInit, ONil:
			return zeroOf(typ), tFalse
		case OMapPut:
			e := tEq(ms.args[1], k)
			if e == tTrue {
				return ms.args[2], tTrue
			}
			if e == tFalse {
				ms = ms.args[0]
				continue
			}
		case OMapDel:
			e := tEq(ms.args[1], k)
			if e == tTrue {
				return zeroOf(typ), tFalse
			}
			if e == tFalse {
				ms = ms.args[0]
				continue
			}
		}
		if k.op == ORKey && k.args[0].args[0] == ms {
			// the key of a pass over this very map
			return mk(ORVal, typ, k.str, 0, k.args[0]), tTrue
		}
		return mk(OLookup, typ, "", 0, ms, k), mk(OLookupOk, types.Typ[types.Bool], "", 0, ms, k)
	}
}

// resolve makes heap-held contents of a term explicit (slice literals).
func (a *Analysis) resolve(h *Heap, t *Term) *Term {
	if t == nil {
		return nil
	}
	switch t.op {
	case OSlice:
		if t.args[0].op == OAlloc {
			if n := arrayLen(t.args[0].typ); n >= 0 && n < 64 && (t.args[1] == nil || t.args[1] == tInt(0)) && (t.args[2] == nil || t.args[2] == tInt(n)) {
				var el []*Term
				tmp := &State{heap: h, vers: map[string]int{}}
				et := deref(t.args[0].typ).Underlying().(*types.Array).Elem()
				for i := int64(0); i < n; i++ {
					ia := tIndexAddr(t.args[0], tInt(i), types.NewPointer(et))
					el = append(el, a.resolve(h, a.load(tmp, ia, et)))
				}
				return mk(OSliceLit, t.typ, "", 0, el...)
			}
		}
	case OMkIface:
		return tMkIface(t.typ, a.resolve(h, t.args[0]))
	case OAppend:
		var el []*Term
		for _, x := range t.args {
			el = append(el, a.resolve(h, x))
		}
		return mkAppend(t.typ, t.str, el)
	}
	return t
}

func mkAppend(typ types.Type, mode string, el []*Term) *Term {
	if mode == "" && len(el) > 0 {
		if el[0].op == OSliceLit || el[0].op == ONil {
			var base []*Term
			if el[0].op == OSliceLit {
				base = el[0].args
			}
			all := append(append([]*Term{}, base...), el[1:]...)
			if len(all) == 0 {
				return el[0]
			}
			return mk(OSliceLit, typ, "", 0, all...)
		}
		if el[0].op == OAppend && el[0].str == "" {
			return mk(OAppend, typ, "", 0, append(append([]*Term{}, el[0].args...), el[1:]...)...)
		}
	}
	return mk(OAppend, typ, mode, 0, el...)
}

// ---- execution

func (a *Analysis) exec(st *State) {
	for {
		a.steps++
		if a.steps > a.maxSteps {
			a.fail = "step budget exhausted"
			return
		}
		fr := st.top()
		if fr.unwind {
			if !a.unwindStep(st) {
				return
			}
			continue
		}
		in := fr.block.Instrs[fr.idx]
		fr.idx++
		if !a.step(st, in) {
			return
		}
	}
}

func siteOf(fr *Frame, in ssa.Instruction) string {
	b := in.Block()
	for i, x := range b.Instrs {
		if x == in {
			return fmt.Sprintf("%s~%s%s.b%d.%d", fr.cs, fnKey(fr.fn), fr.iter(), b.Index, i)
		}
	}
	return fr.cs + "~?"
}

// loop-aware site: the enclosing loop key is included so terms made in a loop
// are recognisable as iteration-dependent
func (a *Analysis) siteTerm(fr *Frame, in ssa.Instruction) string {
	s := ""
	if fr.loops != nil {
		s = fr.loops.key
	}
	return "\x00" + s + "@" + siteOf(fr, in)
}

// step executes one instruction; false when the path ended or was re-queued.
func (a *Analysis) step(st *State, in ssa.Instruction) bool {
	fr := st.top()
	set := func(v ssa.Value, t *Term) { fr.regs[v] = t }
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		panic("phi in the middle")
	case *ssa.Alloc:
		t := mk(OAlloc, x.Type(), siteOf(fr, in), 0)
		t.pos = x.Pos()
		// fresh memory each time: drop previous contents
		h := st.heap
		drop := false
		for c := range h.m {
			if rootOf(c) == t {
				drop = true
			}
		}
		if drop {
			n := map[*Term]*Term{}
			for c, v := range h.m {
				if rootOf(c) != t {
					n[c] = v
				}
			}
			st.heap = &Heap{n}
		}
		st.allocs = append(st.allocs, t)
		set(x, t)
	case *ssa.UnOp:
		return a.unop(st, x)
	case *ssa.BinOp:
		l, r := a.val(st, x.X), a.val(st, x.Y)
		if (x.Op == token.EQL || x.Op == token.NEQ) && isBoolType(x.X.Type()) && l.op != OConst && r.op != OConst {
			// decide one side now
			v := st.facts.Val(l)
			if v < 0 {
				s2 := st.clone()
				s2.facts = s2.facts.with(Lit{l, false})
				if s2.facts.Consistent() {
					s2.top().regs[x] = tBin(x.Op, tFalse, r, x.Type())
					a.push(s2)
				}
				st.facts = st.facts.with(Lit{l, true})
				if !st.facts.Consistent() {
					return false
				}
				v = 1
			}
			l = tBool(v == 1)
		}
		if es := fieldEqs(x, l, r); es != nil {
			// structs are equal when their fields are: decide which field
			// differs first, if any
			for i, eq := range es {
				s2 := st.clone()
				for _, e := range es[:i] {
					s2.facts = s2.facts.with(Lit{e, true})
				}
				s2.facts = s2.facts.with(Lit{eq, false})
				if eq != tTrue && s2.facts.Consistent() {
					s2.top().regs[x] = tBool(x.Op == token.NEQ)
					a.push(s2)
				}
			}
			for _, e := range es {
				st.facts = st.facts.with(Lit{e, true})
			}
			if !st.facts.Consistent() {
				return false
			}
			set(x, tBool(x.Op == token.EQL))
			return true
		}
		set(x, tBin(x.Op, l, r, x.Type()))
	case *ssa.ChangeType, *ssa.ChangeInterface:
		var v ssa.Value
		if c, ok := x.(*ssa.ChangeType); ok {
			v = c.X
		} else {
			v = x.(*ssa.ChangeInterface).X
		}
		set(x.(ssa.Value), a.val(st, v))
	case *ssa.Convert:
		set(x, tConv(a.val(st, x.X), x.Type()))
	case *ssa.MultiConvert:
		set(x, tConv(a.val(st, x.X), x.Type()))
	case *ssa.SliceToArrayPointer:
		set(x, mk(OConv, x.Type(), "", 0, a.val(st, x.X)))
	case *ssa.MakeInterface:
		set(x, tMkIface(x.X.Type(), a.val(st, x.X)))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, a.val(st, b))
		}
		f := x.Fn.(*ssa.Function)
		t := mk(OClosure, x.Type(), siteOf(fr, in), 0, bs...)
		t.fn = f
		set(x, t)
	case *ssa.MakeChan:
		t := mk(OMake, x.Type(), "chan"+siteOf(fr, in), 0, a.val(st, x.Size))
		set(x, t)
	case *ssa.MakeMap:
		t := mk(OMake, x.Type(), "map"+siteOf(fr, in), 0)
		st.heap = a.storeHeap(st.heap, mapCell(t), mk(OMapInit, x.Type(), "", 0))
		set(x, t)
	case *ssa.MakeSlice:
		t := mk(OMake, x.Type(), "slice"+siteOf(fr, in), 0, a.val(st, x.Len))
		set(x, t)
	case *ssa.Slice:
		b := a.val(st, x.X)
		opt := func(v ssa.Value) *Term {
			if v == nil {
				return nil
			}
			return a.val(st, v)
		}
		lo, hi := opt(x.Low), opt(x.High)
		set(x, a.tSlice(st, b, lo, hi, x.Type(), in))
	case *ssa.FieldAddr:
		b := a.val(st, x.X)
		s := deref(x.X.Type()).Underlying().(*types.Struct)
		a.nilCheck(st, b, in)
		set(x, tFieldAddr(b, s.Field(x.Field).Name(), x.Type()))
	case *ssa.Field:
		b := a.val(st, x.X)
		s := x.X.Type().Underlying().(*types.Struct)
		set(x, tField(b, s.Field(x.Field).Name(), x.Field, x.Type()))
	case *ssa.IndexAddr:
		b, i := a.val(st, x.X), a.val(st, x.Index)
		a.boundCheck(st, b, i, in)
		set(x, tIndexAddr(b, i, x.Type()))
	case *ssa.Index:
		b, i := a.val(st, x.X), a.val(st, x.Index)
		a.boundCheck(st, b, i, in)
		set(x, mk(OIndex, x.Type(), "", 0, b, i))
	case *ssa.Lookup:
		b, i := a.val(st, x.X), a.val(st, x.Index)
		if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			a.boundCheck(st, b, i, in)
			set(x, mk(OIndex, x.Type(), "", 0, b, i))
			return true
		}
		et := x.X.Type().Underlying().(*types.Map).Elem()
		if a.loads {
			a.emit(st, &Event{kind: EvLoad, name: "map", args: []*Term{b, i}, instr: in})
		}
		ms := a.mapState(st, b)
		if ms.op == ODeref && ms.args[0].op == OGlobal {
			if ups := theWorld.tables[ms.args[0].str]; len(ups) > 0 {
				t := mk(OMapInit, ms.typ, "", 0)
				for _, u := range ups {
					t = mk(OMapPut, ms.typ, "", 0, t, a.val(st, u.Key), a.fixed(st, u.Value))
				}
				ms = t
			}
		}
		if puts := litPuts(ms); puts != nil && i.op != OConst {
			// a map made here of known keys: decide which one it is
			put := func(st *State, v, ok *Term) {
				if x.CommaOk {
					v = mk(OTuple, x.Type(), "", 0, v, ok)
				}
				st.top().regs[x] = v
			}
			for _, p := range puts {
				s2 := st.clone()
				e := tEq(p.args[1], i)
				s2.facts = s2.facts.with(Lit{e, true})
				if s2.facts.Consistent() {
					put(s2, p.args[2], tTrue)
					a.push(s2)
				}
				st.facts = st.facts.with(Lit{e, false})
				if !st.facts.Consistent() {
					return false
				}
			}
			put(st, zeroOf(et), tFalse)
			return true
		}
		v, ok := a.lookup(ms, i, et)
		if !x.CommaOk {
			// absent: zero value
			set(x, v)
			if ok != tTrue && ok != tFalse {
				switch st.facts.Val(ok) {
				case 0:
					set(x, zeroOf(et))
				case -1:
					s2 := st.clone()
					s2.facts = s2.facts.with(Lit{ok, false})
					if s2.facts.Consistent() {
						s2.top().regs[x] = zeroOf(et)
						a.push(s2)
					}
					st.facts = st.facts.with(Lit{ok, true})
					if !st.facts.Consistent() {
						return false
					}
				}
			}
		} else {
			set(x, mk(OTuple, x.Type(), "", 0, v, ok))
		}
	case *ssa.TypeAssert:
		v := a.val(st, x.X)
		ok := tTypeIs(v, x.AssertedType)
		r := tAssert(v, x.AssertedType)
		if x.CommaOk {
			set(x, mk(OTuple, x.Type(), "", 0, r, ok))
			// decide now so that the value of a failed assertion is zero
			switch st.facts.Val(ok) {
			case 0:
				set(x, mk(OTuple, x.Type(), "", 0, zeroOf(x.AssertedType), tFalse))
			case -1:
				s2 := st.clone()
				s2.facts = s2.facts.with(Lit{ok, false})
				if s2.facts.Consistent() {
					s2.top().regs[x] = mk(OTuple, x.Type(), "", 0, zeroOf(x.AssertedType), tFalse)
					a.push(s2)
				}
				st.facts = st.facts.with(Lit{ok, true})
				if !st.facts.Consistent() {
					return false
				}
				set(x, mk(OTuple, x.Type(), "", 0, r, tTrue))
			case 1:
				set(x, mk(OTuple, x.Type(), "", 0, r, tTrue))
			}
		} else {
			safe := st.facts.Val(ok) == 1
			a.emit(st, &Event{kind: EvAssert, name: tstr(x.AssertedType), args: []*Term{v}, instr: in, ok: safe})
			st.facts = st.facts.with(Lit{ok, true})
			if !st.facts.Consistent() {
				return false
			}
			set(x, r)
		}
	case *ssa.Extract:
		set(x, tExtract(a.val(st, x.Tuple), x.Index, x.Type()))
	case *ssa.Range:
		set(x, mk(OCell, x.X.Type(), "range"+a.siteTerm(fr, in), 0, a.mapStateOrStr(st, x.X)))
	case *ssa.Next:
		it := a.val(st, x.Iter)
		site := a.siteTerm(fr, in)
		tt := x.Type().(*types.Tuple)
		var kt, vt types.Type = tt.At(1).Type(), tt.At(2).Type()
		if mt, ok := it.typ.Underlying().(*types.Map); ok {
			kt, vt = mt.Key(), mt.Elem()
		}
		ok := mk(ORangeOk, types.Typ[types.Bool], site, 0, it)
		k := mk(ORKey, kt, site, 0, it)
		v := mk(ORVal, vt, site, 0, it)
		if it.args[0].op == OMapInit || it.args[0].op == ONil {
			ok = tFalse
		}
		set(x, mk(OTuple, x.Type(), "", 0, ok, k, v))
	case *ssa.Store:
		addr, v := a.val(st, x.Addr), a.val(st, x.Val)
		if addr.op != OAlloc && addr.op != OIndexAddr && addr.op != OFieldAddr {
			a.nilCheck(st, addr, in)
		}
		a.emit(st, &Event{kind: EvStore, args: []*Term{addr, v}, instr: in})
		a.store(st, addr, v)
	case *ssa.MapUpdate:
		m, k, v := a.val(st, x.Map), a.val(st, x.Key), a.val(st, x.Value)
		a.emit(st, &Event{kind: EvMapUpdate, args: []*Term{m, k, v}, instr: in})
		st.heap = a.storeHeap(st.heap, mapCell(m), mk(OMapPut, m.typ, "", 0, a.mapState(st, m), k, v))
	case *ssa.Send:
		a.emit(st, &Event{kind: EvSend, args: []*Term{a.val(st, x.Chan), a.val(st, x.X)}, instr: in})
	case *ssa.Select:
		return a.selectI(st, x)
	case *ssa.Go:
		fnT, recv, args := a.callParts(st, x.Common())
		ev := &Event{kind: EvGo, instr: in, callee: fnT}
		if recv != nil {
			ev.name = shortObj(x.Common().Method)
			ev.args = append([]*Term{recv}, args...)
		} else {
			ev.args = args
			if fnT.fn != nil {
				ev.fn = fnT.fn
				ev.name = shortFn(fnT.fn)
			}
		}
		a.emit(st, ev)
	case *ssa.Defer:
		fnT, recv, args := a.callParts(st, x.Common())
		ev := &Event{kind: EvDefer, instr: in, callee: fnT, args: args}
		a.emit(st, ev)
		fr.defers = append(fr.defers, deferred{call: x, fn: fnT, recv: recv, args: args, cs: siteOf(fr, in)})
	case *ssa.RunDefers:
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			fr.idx-- // come back
			return a.call(st, d.call, nil, d.fn, d.recv, d.args, true, d.cs)
		}
	case *ssa.Call:
		fnT, recv, args := a.callParts(st, x.Common())
		return a.call(st, x, x, fnT, recv, args, false, siteOf(fr, in))
	case *ssa.Panic:
		v := a.val(st, x.X)
		a.emit(st, &Event{kind: EvPanic, args: []*Term{v}, instr: in})
		a.startPanic(st, v)
		return false
	case *ssa.Return:
		var rs []*Term
		for _, r := range x.Results {
			rs = append(rs, a.val(st, r))
		}
		return a.ret(st, rs, in)
	case *ssa.Jump:
		a.jump(st, fr.block.Succs[0])
		return false
	case *ssa.If:
		c := a.val(st, x.Cond)
		switch st.facts.Val(c) {
		case 1:
			a.jump(st, fr.block.Succs[0])
		case 0:
			a.jump(st, fr.block.Succs[1])
		default:
			s2 := st.clone()
			s2.facts = s2.facts.with(Lit{c, false})
			if s2.facts.Consistent() {
				a.jump(s2, s2.top().block.Succs[1])
			}
			st.facts = st.facts.with(Lit{c, true})
			if st.facts.Consistent() {
				a.jump(st, fr.block.Succs[0])
			}
		}
		return false
	default:
		a.fail = fmt.Sprintf("instruction %T not modelled", in)
		return false
	}
	return true
}

func (a *Analysis) mapStateOrStr(st *State, v ssa.Value) *Term {
	t := a.val(st, v)
	if _, ok := v.Type().Underlying().(*types.Map); ok {
		if a.loads {
			a.emit(st, &Event{kind: EvLoad, name: "range", args: []*Term{t}})
		}
		return a.mapState(st, t)
	}
	return t
}

func tConv(x *Term, typ types.Type) *Term {
	if x.op == OConst && x.val != nil {
		if b, ok := typ.Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsInteger != 0 && x.val.Kind() == constant.Int:
				return tConstV(x.val, typ)
			case b.Info()&types.IsFloat != 0 && (x.val.Kind() == constant.Int || x.val.Kind() == constant.Float):
				return tConstV(constant.ToFloat(x.val), typ)
			case b.Info()&types.IsString != 0 && x.val.Kind() == constant.String:
				return tConstV(x.val, typ)
			}
		}
	}
	if x.typ != nil && types.Identical(x.typ, typ) {
		return x
	}
	if x.typ != nil && types.Identical(x.typ.Underlying(), typ.Underlying()) {
		return x
	}
	// string(json.Number) and the like share the underlying type
	return mk(OConv, typ, "", 0, x)
}

func (a *Analysis) tSlice(st *State, b, lo, hi *Term, typ types.Type, in ssa.Instruction) *Term {
	if lo != nil && lo.op == OConst && lo.str == "i:0" {
		lo = nil
	}
	if b.op == OConst && lo != nil && lo.op == OConst && hi == nil && b.val.Kind() == constant.String {
		if k, ok := constant.Int64Val(lo.val); ok && int(k) <= len(constant.StringVal(b.val)) {
			return tStr(constant.StringVal(b.val)[k:])
		}
	}
	if lo == nil && hi == nil && b.op != OAlloc {
		return b
	}
	if _, isArr := deref(b.typ).Underlying().(*types.Array); !isArr || b.op != OAlloc {
		I := types.Typ[types.Int]
		L := tLen(b)
		lower, upper := tInt(0), L
		if lo != nil {
			lower = lo
		}
		if hi != nil {
			upper = hi
			if b.op == OMake || true {
				// capacity may exceed the length: only a proof about len is accepted
			}
		}
		ok := st.facts.Implies(Lit{tLe(tInt(0), lower), true}) && st.facts.Implies(Lit{tLe(lower, upper), true}) && st.facts.Implies(Lit{tLe(upper, L), true})
		a.emit(st, &Event{kind: EvIndex, name: "slice", args: []*Term{b, lower, upper}, instr: in, ok: ok})
		_ = I
	}
	if b.op == OAppend && b.str == "" && lo == nil && hi != nil {
		// append(P, x...)[:len(P)+k] is P with the first k elements
		lb, lc := linear(tLen(b.args[0]))
		hb, hc := linear(hi)
		if lb == hb && hc >= lc && hc-lc < int64(len(b.args)) {
			if hc == lc {
				return b.args[0]
			}
			return mkAppend(typ, "", b.args[:1+hc-lc])
		}
	}
	if b.op == OSlice {
		base := b.args[0]
		off := b.args[1]
		add := func(x *Term) *Term {
			if off == nil {
				return x
			}
			return tBin(token.ADD, x, off, types.Typ[types.Int])
		}
		nlo := off
		if lo != nil {
			nlo = add(lo)
		}
		nhi := b.args[2]
		if hi != nil {
			nhi = add(hi)
		}
		return mk(OSlice, typ, "", 0, base, nlo, nhi)
	}
	return mk(OSlice, typ, "", 0, b, lo, hi)
}

func (a *Analysis) boundCheck(st *State, b, i *Term, in ssa.Instruction) {
	if b.op == OAlloc && i.op == OConst {
		return
	}
	L := tLen(b)
	if n := arrayLen(b.typ); n >= 0 {
		L = tInt(n)
	}
	if b.op == OAlloc {
		if n := arrayLen(b.typ); n >= 0 {
			L = tInt(n)
		}
	}
	ok := st.facts.Implies(Lit{tLe(tInt(0), i), true}) && st.facts.Implies(Lit{tLt(i, L), true})
	a.emit(st, &Event{kind: EvIndex, name: "index", args: []*Term{b, i}, instr: in, ok: ok})
	st.facts = st.facts.assume(Lit{tLe(tInt(0), i), true}, Lit{tLt(i, L), true})
}

func (a *Analysis) nilCheck(st *State, b *Term, in ssa.Instruction) {
	if !a.derefs {
		return
	}
	if neverNil(b) == 1 {
		return
	}
	ok := st.facts.Implies(Lit{tEq(b, tNil), false})
	a.emit(st, &Event{kind: EvDeref, args: []*Term{b}, instr: in, ok: ok})
	if !ok {
		st.facts = st.facts.assume(Lit{tEq(b, tNil), false})
	}
}

func (a *Analysis) unop(st *State, x *ssa.UnOp) bool {
	fr := st.top()
	switch x.Op {
	case token.MUL:
		addr := a.val(st, x.X)
		if addr.op != OAlloc && addr.op != OGlobal && addr.op != OFieldAddr && addr.op != OIndexAddr {
			a.nilCheck(st, addr, x)
		}
		a.touch(st, addr)
		if a.loads && (a.loadsAll || rootOf(addr).op != OAlloc) {
			a.emit(st, &Event{kind: EvLoad, name: "mem", args: []*Term{addr}, instr: x})
		}
		fr.regs[x] = a.load(st, addr, x.Type())
	case token.NOT:
		fr.regs[x] = tNot(a.val(st, x.X))
	case token.ARROW:
		ch := a.val(st, x.X)
		site := a.siteTerm(fr, x)
		et := x.X.Type().Underlying().(*types.Chan).Elem()
		v := mk(ORecv, et, site, 0, ch)
		ok := mk(ORecvOk, types.Typ[types.Bool], site, 0, ch)
		a.emit(st, &Event{kind: EvRecv, args: []*Term{ch}, res: v, instr: x})
		if x.CommaOk {
			fr.regs[x] = mk(OTuple, x.Type(), "", 0, v, ok)
		} else {
			fr.regs[x] = v
		}
	case token.SUB:
		v := a.val(st, x.X)
		if v.op == OConst {
			fr.regs[x] = tConstV(constant.UnaryOp(token.SUB, v.val, 0), x.Type())
		} else if isIntType(x.Type()) {
			fr.regs[x] = tBin(token.SUB, tInt(0), v, x.Type())
		} else {
			fr.regs[x] = mk(OUn, x.Type(), "-", 0, v)
		}
	default:
		fr.regs[x] = mk(OUn, x.Type(), x.Op.String(), 0, a.val(st, x.X))
	}
	return true
}

func (a *Analysis) selectI(st *State, x *ssa.Select) bool {
	fr := st.top()
	var cases []SelCase
	for _, s := range x.States {
		c := SelCase{send: s.Dir == types.SendOnly, ch: a.val(st, s.Chan)}
		if s.Send != nil {
			c.val = a.val(st, s.Send)
		}
		cases = append(cases, c)
	}
	site := a.siteTerm(fr, x)
	mkState := func(s *State, i int) {
		f := s.top()
		var comps []*Term
		comps = append(comps, tInt(int64(i)))
		okT := tFalse
		if i >= 0 && !cases[i].send {
			okT = mk(ORecvOk, types.Typ[types.Bool], fmt.Sprintf("%s.%d", site, i), 0, cases[i].ch)
		}
		comps = append(comps, okT)
		var res *Term
		for j, sc := range x.States {
			if sc.Dir == types.RecvOnly {
				et := sc.Chan.Type().Underlying().(*types.Chan).Elem()
				if j == i {
					res = mk(ORecv, et, fmt.Sprintf("%s.%d", site, i), 0, cases[j].ch)
					comps = append(comps, res)
				} else {
					comps = append(comps, zeroOf(et))
				}
			}
		}
		f.regs[x] = mk(OTuple, x.Type(), "", 0, comps...)
		a.emit(s, &Event{kind: EvSelect, cases: cases, chosen: i, res: res, instr: x, pos: x.Pos()})
		a.push(s)
	}
	if !x.Blocking {
		mkState(st.clone(), -1)
	}
	if len(cases) == 0 && x.Blocking {
		a.finish(st, &Outcome{kind: OutBlock, pos: x.Pos()})
		return false
	}
	for i := range cases {
		mkState(st.clone(), i)
	}
	return false
}

func (a *Analysis) callParts(st *State, c *ssa.CallCommon) (fnT, recv *Term, args []*Term) {
	for _, x := range c.Args {
		args = append(args, a.val(st, x))
	}
	if c.IsInvoke() {
		return nil, a.val(st, c.Value), args
	}
	return a.val(st, c.Value), nil, args
}

func (a *Analysis) ret(st *State, rs []*Term, in ssa.Instruction) bool {
	fr := st.top()
	for fr.loops != nil && fr.loops.cs == fr.cs && fr.loops.fn == fr.fn {
		l := fr.loops
		fr.loops = l.outer
		a.emit(st, &Event{kind: EvLoopExit, loop: l})
	}
	if len(st.frames) == 1 {
		a.finish(st, &Outcome{kind: OutReturn, rets: rs, pos: in.Pos(), fr: fr})
		return false
	}
	a.emit(st, &Event{kind: EvLeave, name: shortFn(fr.fn), fn: fr.fn, args: rs, defr: fr.isDefer})
	st.frames = st.frames[:len(st.frames)-1]
	p := st.top()
	if fr.isDefer {
		// parent continues at RunDefers or unwinding
		return true
	}
	if v := fr.callI.Value(); v != nil {
		switch len(rs) {
		case 0:
			p.regs[v] = mk(OTuple, nil, "", 0)
		case 1:
			p.regs[v] = rs[0]
		default:
			p.regs[v] = mk(OTuple, v.Type(), "", 0, rs...)
		}
	}
	return true
}

// ---- panics

func (a *Analysis) startPanic(st *State, v *Term) {
	fr := st.top()
	fr.unwind = true
	fr.pval = v
	fr.recov = false
	a.push(st)
}

// unwindStep performs one step of panic unwinding of the top frame.
func (a *Analysis) unwindStep(st *State) bool {
	fr := st.top()
	if len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		return a.call(st, d.call, nil, d.fn, d.recv, d.args, true, d.cs)
	}
	if fr.recov {
		fr.unwind, fr.recov, fr.pval = false, false, nil
		if fr.fn.Recover != nil {
			for fr.loops != nil && fr.loops.cs == fr.cs && fr.loops.fn == fr.fn {
				fr.loops = fr.loops.outer
			}
			fr.prev, fr.block, fr.idx = fr.block, fr.fn.Recover, 0
			return true
		}
		var rs []*Term
		res := fr.fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			rs = append(rs, zeroOf(res.At(i).Type()))
		}
		return a.ret(st, rs, fr.fn.Blocks[0].Instrs[0])
	}
	if len(st.frames) == 1 {
		a.finish(st, &Outcome{kind: OutPanic, pval: fr.pval, pos: lastPos(fr.block), fr: fr})
		return false
	}
	pv := fr.pval
	st.frames = st.frames[:len(st.frames)-1]
	p := st.top()
	p.unwind, p.recov, p.pval = true, false, pv
	return true
}
