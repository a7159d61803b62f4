package main

// Shared queries over outcomes: nil-ness, sequences, existence, events.

import (
	"go/token"
	"go/types"
	"strings"
)

func isNil(f *Facts, t *Term) int { return f.Val(tEq(t, tNil)) }

func lit(t *Term, v bool) Lit { return Lit{t, v} }

func pfield(base *Term, name string, typ types.Type) *Term {
	return mk(ODeref, typ, "", 0, tFieldAddr(base, name, types.NewPointer(typ)))
}

// fieldOf: term of the (initial) value of a field of a struct reached through a pointer term.
func (c *Ctx) fieldOf(base *Term, name string) *Term {
	s := structOf(deref(base.typ))
	if s == nil {
		c.fatal("anchor:field:"+name, "no struct under %s", base)
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return pfield(base, name, s.Field(i).Type())
		}
	}
	c.fatal("anchor:field:"+name, "type %s has no field %s", tstr(base.typ), name)
	return nil
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

// elem: the i-th element of a slice term.
func elem(s, i *Term) *Term { return mk(OIndex, elemType(s.typ), "", 0, s, i) }

// elemField: field of the i-th element of a slice of structs.
func (c *Ctx) elemField(s, i *Term, name string) *Term {
	et := elemType(s.typ)
	st := structOf(deref(et))
	for k := 0; st != nil && k < st.NumFields(); k++ {
		if st.Field(k).Name() == name {
			ft := st.Field(k).Type()
			if _, isP := et.Underlying().(*types.Pointer); isP {
				return pfield(elem(s, i), name, ft)
			}
			return tField(elem(s, i), name, k, ft)
		}
	}
	c.fatal("anchor:field:"+name, "element type %s has no field %s", tstr(et), name)
	return nil
}

// Pass is one loop a path went through, iterating over a sequence.
type Pass struct {
	loop  *LoopInfo
	idx   *Term // index of the element of one iteration, as a term over the loop variable
	backs []*Outcome
	asc   bool
}

func backsOf(outs []*Outcome, o *Outcome, l *LoopInfo) []*Outcome {
	return splitFlags(l, rawBacks(outs, o, l))
}

func rawBacks(outs []*Outcome, o *Outcome, l *LoopInfo) []*Outcome {
	var r []*Outcome
	for _, b := range outs {
		if b.kind == OutLoop && b.loop.key == l.key {
			if o == nil || o.facts.assume(b.facts.lits[:min(b.loop.nfacts, len(b.facts.lits))]...).Consistent() {
				r = append(r, b)
			}
		}
	}
	return r
}

func loopsIn(o *Outcome) []*LoopInfo {
	var r []*LoopInfo
	seen := map[string]bool{}
	for _, e := range o.evs {
		if e.kind == EvLoopEnter && !seen[e.loop.key] {
			seen[e.loop.key] = true
			r = append(r, e.loop)
		}
	}
	return r
}

// seqIndex: element index visited by one iteration of loop l over a sequence
// of length n: 0,1,2… or n-1,…,0.
func seqIndexes(l *LoopInfo, backs []*Outcome, n *Term) (idx []*Term, asc []bool) {
	for _, lv := range l.vars {
		if !isIntType(lv.typ) {
			continue
		}
		step := int64(0)
		ok := len(backs) > 0
		for _, b := range backs {
			nb, nc := linear(b.next[lv])
			if nb != lv || (nc != 1 && nc != -1) || (step != 0 && step != nc) {
				ok = false
				break
			}
			step = nc
		}
		if len(backs) == 0 {
			ok, step = true, 1
		}
		if !ok {
			continue
		}
		ib, ic := linear(l.init[lv])
		I := types.Typ[types.Int]
		if step == 1 && ib == nil {
			idx = append(idx, mkLinear(lv, -ic, I))
			asc = append(asc, true)
		}
		if step == -1 && ib == n {
			idx = append(idx, mkLinear(lv, -ic-1, I))
			asc = append(asc, false)
		}
	}
	return
}

// passes: loops of the path that visited every element of a sequence of
// length n (ended by exhaustion).
func passes(outs []*Outcome, o *Outcome, n *Term) []*Pass {
	var r []*Pass
	for _, l := range loopsIn(o) {
		bs := backsOf(outs, o, l)
		idx, asc := seqIndexes(l, bs, n)
		for i, x := range idx {
			done := false
			if asc[i] {
				done = o.facts.Implies(lit(tLe(n, x), true))
			} else {
				done = o.facts.Implies(lit(tLt(x, tInt(0)), true))
			}
			if done {
				r = append(r, &Pass{l, x, bs, asc[i]})
			}
		}
	}
	return r
}

// flag: a loop variable that remembers whether some iteration did something:
// a boolean, or a pointer or interface that starts nil. It is sticky: no
// iteration un-sets it.
type flag struct {
	lv    *Term
	start *Term // initial boolean, or nil for a pointer
}

func (g flag) isSet() Lit {
	if g.start == nil {
		return lit(tEq(g.lv, tNil), false)
	}
	return lit(g.lv, g.start == tFalse)
}

// setBy: 1 when the iteration sets the flag, 0 when it leaves it, -1 unknown or un-set.
func (g flag) setBy(b *Outcome) int {
	nx := b.next[g.lv]
	if nx == g.lv {
		return 0
	}
	clear := b.facts.Implies(Lit{g.isSet().t, !g.isSet().val})
	if g.start == nil {
		switch isNil(b.facts, nx) {
		case 0:
			return 1
		case 1:
			if clear {
				return 0
			}
		}
		return -1
	}
	switch nx {
	case tNot(g.start):
		return 1
	case g.start:
		if clear {
			return 0
		}
	}
	return -1
}

// splitFlags splits iterations on the values they give to flag-like loop
// variables, so that each iteration either sets or leaves one.
func splitFlags(l *LoopInfo, backs []*Outcome) []*Outcome {
	for _, lv := range l.vars {
		var r []*Outcome
		for _, b := range backs {
			nx := b.next[lv]
			switch {
			case nx == nil || nx == lv || nx == tTrue || nx == tFalse:
				r = append(r, b)
			case isBoolType(lv.typ):
				for _, v := range []*Term{tTrue, tFalse} {
					f := b.facts.assume(lit(nx, v == tTrue))
					if f.Consistent() {
						nb := *b
						nb.facts = f
						nb.next = map[*Term]*Term{}
						for k, x := range b.next {
							nb.next[k] = x
						}
						nb.next[lv] = v
						r = append(r, &nb)
					}
				}
			case l.init[lv] == tNil && isNil(b.facts, nx) == -1:
				for _, v := range []bool{true, false} {
					f := b.facts.assume(lit(tEq(nx, tNil), v))
					if f.Consistent() {
						nb := *b
						nb.facts = f
						r = append(r, &nb)
					}
				}
			default:
				r = append(r, b)
			}
		}
		backs = r
	}
	return backs
}

// flags of a loop that are (want) or are not (!want) set after it on the path.
func flags(o *Outcome, l *LoopInfo, backs []*Outcome, want bool) []flag {
	var r []flag
	for _, lv := range l.vars {
		g := flag{lv: lv}
		if isBoolType(lv.typ) {
			if g.start = l.init[lv]; g.start != tFalse && g.start != tTrue {
				// settled by the path
				switch o.facts.Val(g.start) {
				case 1:
					g.start = tTrue
				case 0:
					g.start = tFalse
				default:
					continue
				}
			}
		} else if l.init[lv] != tNil {
			continue
		}
		is := g.isSet()
		if !o.facts.Implies(Lit{is.t, is.val == want}) {
			continue
		}
		ok := true
		for _, b := range backs {
			if g.setBy(b) < 0 {
				ok = false
			}
		}
		if ok {
			r = append(r, g)
		}
	}
	return r
}

// forAll: the path establishes P for every index of a sequence of length n.
func forAll(outs []*Outcome, o *Outcome, n *Term, p func(b *Outcome, idx *Term) bool) bool {
	return forRange(outs, o, tInt(0), n, p)
}

// RangePass: a finished loop of the path whose iterations visited at least
// every index of [lo, hi), one per iteration.
type RangePass struct {
	loop  *LoopInfo
	idx   *Term
	backs []*Outcome // iterations that can lie inside the range (range facts assumed)
}

func rangePasses(outs []*Outcome, o *Outcome, lo, hi *Term) []*RangePass {
	I := types.Typ[types.Int]
	var r []*RangePass
	for _, l := range loopsIn(o) {
		bs := backsOf(outs, o, l)
		for _, lv := range l.vars {
			if !isIntType(lv.typ) {
				continue
			}
			step := int64(0)
			ok := true
			for _, b := range bs {
				nb, nc := linear(b.next[lv])
				if nb != lv || (nc != 1 && nc != -1) || (step != 0 && step != nc) {
					ok = false
					break
				}
				step = nc
			}
			if !ok {
				continue
			}
			if len(bs) == 0 {
				step = 1
			}
			init := l.init[lv]
			seen := map[*Term]bool{}
			var es []*Term
			add := func(e *Term) {
				if !seen[e] {
					seen[e] = true
					es = append(es, e)
				}
			}
			if step == 1 {
				add(tBin(token.ADD, tBin(token.SUB, lv, init, I), lo, I))
				add(lv)
				add(tBin(token.ADD, lv, tInt(1), I))
			} else {
				add(tBin(token.ADD, tBin(token.SUB, lv, init, I), tBin(token.SUB, hi, tInt(1), I), I))
				add(lv)
				add(tBin(token.SUB, lv, tInt(1), I))
			}
			for _, e := range es {
				d := tBin(token.SUB, e, lv, I) // element index = lv + d
				done := false
				if step == 1 {
					start := tBin(token.ADD, init, d, I)
					if e != es[0] && !o.facts.Implies(lit(tLe(start, lo), true)) {
						continue
					}
					done = o.facts.Implies(lit(tLe(hi, e), true)) ||
						o.facts.Implies(lit(tLe(tBin(token.SUB, hi, d, I), lv), true)) ||
						o.facts.Implies(lit(tLe(tBin(token.SUB, hi, lo, I), tBin(token.SUB, lv, init, I)), true))
				} else {
					start := tBin(token.ADD, init, d, I)
					if e != es[0] && !o.facts.Implies(lit(tLe(tBin(token.SUB, hi, tInt(1), I), start), true)) {
						continue
					}
					done = o.facts.Implies(lit(tLt(e, lo), true))
				}
				if !done {
					continue
				}
				var in []*Outcome
				for _, b := range bs {
					fb := b.facts.assume(lit(tLe(lo, e), true), lit(tLt(e, hi), true))
					if fb.Consistent() {
						nb := *b
						nb.facts = fb
						in = append(in, &nb)
					}
				}
				r = append(r, &RangePass{l, e, in})
			}
		}
	}
	return r
}

// forRange: the path establishes P for every index of [lo, hi).
func forRange(outs []*Outcome, o *Outcome, lo, hi *Term, p func(b *Outcome, idx *Term) bool) bool {
	if o.facts.Implies(lit(tLe(hi, lo), true)) {
		return true
	}
next:
	for _, ps := range rangePasses(outs, o, lo, hi) {
		// a flag still unset on this path means no iteration set it
		fl := flags(o, ps.loop, ps.backs, false)
		for _, b := range ps.backs {
			set := false
			for _, g := range fl {
				if g.setBy(b) == 1 {
					set = true
				}
			}
			if !set && !p(b, ps.idx) {
				continue next
			}
		}
		return true
	}
	return false
}

// existsIn: as exists, also through a flag set by some iteration of a loop.
func existsIn(outs []*Outcome, o *Outcome, s *Term, p func(b *Outcome, idx *Term) bool) bool {
	if exists(o.facts, s, func(i *Term) bool { return p(o, i) }) {
		return true
	}
	for _, l := range loopsIn(o) {
		bs := backsOf(outs, o, l)
		for _, g := range flags(o, l, bs, true) {
			ok := true
			n := 0
			for _, b := range bs {
				if g.setBy(b) == 1 {
					n++
					if b.facts.Implies(g.isSet()) {
						continue // already set
					}
					if !exists(b.facts, s, func(i *Term) bool { return p(b, i) }) {
						ok = false
					}
				}
			}
			if ok && n > 0 {
				return true
			}
		}
	}
	return false
}

// exists: some index term in the facts of the path has P there.
func exists(f *Facts, s *Term, p func(idx *Term) bool) bool {
	for _, i := range indexTerms(f, s) {
		if f.Implies(lit(tLe(tInt(0), i), true)) && f.Implies(lit(tLt(i, tLen(s)), true)) && p(i) {
			return true
		}
	}
	return false
}

func indexTerms(f *Facts, s *Term) []*Term {
	m := map[*Term]bool{}
	for _, l := range f.lits {
		subterms(l.t, func(x *Term) bool {
			if (x.op == OIndexAddr || x.op == OIndex) && x.args[0] == s {
				m[x.args[1]] = true
			}
			return true
		})
	}
	return sortedTerms(m)
}

// mapPass: the path ranged over the whole map m (ended by exhaustion).
type MapPass struct {
	loop  *LoopInfo
	k, v  *Term
	backs []*Outcome
}

func mapPasses(outs []*Outcome, o *Outcome, isMap func(m *Term) bool) []*MapPass {
	var r []*MapPass
	for _, l := range o.facts.lits {
		if l.val || l.t.op != ORangeOk {
			continue
		}
		it := l.t.args[0]
		if !isMap(it.args[0]) {
			continue
		}
		for _, li := range loopsIn(o) {
			bs := backsOf(outs, o, li)
			ok := true
			for _, b := range bs {
				if !b.facts.Implies(lit(l.t, true)) {
					ok = false
				}
			}
			if !strings.Contains(l.t.str, li.key) {
				ok = false
			}
			if !ok {
				continue
			}
			k := rangeKey(l.t)
			r = append(r, &MapPass{li, k, rangeVal(l.t), bs})
		}
	}
	return r
}

func rangeKey(ok *Term) *Term {
	var kt types.Type
	if m, y := ok.args[0].typ.Underlying().(*types.Map); y {
		kt = m.Key()
	}
	return mk(ORKey, kt, ok.str, 0, ok.args[0])
}
func rangeVal(ok *Term) *Term {
	var vt types.Type
	if m, y := ok.args[0].typ.Underlying().(*types.Map); y {
		vt = m.Elem()
	}
	return mk(ORVal, vt, ok.str, 0, ok.args[0])
}

// ---- events

func callsNamed(evs []*Event, names ...string) []*Event {
	var r []*Event
	for _, e := range evs {
		if e.kind == EvCall {
			for _, n := range names {
				if e.name == n {
					r = append(r, e)
				}
			}
		}
	}
	return r
}

func effects(evs []*Event) []*Event {
	var r []*Event
	for _, e := range evs {
		switch e.kind {
		case EvEnter, EvLeave, EvDefer, EvLoopEnter, EvLoopExit, EvIndex, EvAssert, EvDeref, EvLoad, EvAppend:
		default:
			r = append(r, e)
		}
	}
	return r
}

// get loads the value of a cell in the final heap of an outcome.
func (o *Outcome) get(a *Analysis, addr *Term, typ types.Type) *Term {
	return a.load(&State{heap: o.heap, vers: o.vers}, addr, typ)
}

func (a *Analysis) at(e *Event, addr *Term, typ types.Type) *Term {
	return a.load(&State{heap: e.heap, vers: map[string]int{}}, addr, typ)
}

// now loads a cell as it was just before an event.
func (a *Analysis) now(e *Event, addr *Term, typ types.Type) *Term {
	return a.load(&State{heap: e.heap, vers: e.vers, facts: e.facts}, addr, typ)
}

// fget: value of a field of a struct pointer in the final heap.
func (c *Ctx) fget(a *Analysis, o *Outcome, base *Term, name string) *Term {
	s := structOf(deref(base.typ))
	if s == nil {
		c.fatal("anchor:field:"+name, "no struct under %s (%s)", base, tstr(base.typ))
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			ft := s.Field(i).Type()
			return o.get(a, tFieldAddr(base, name, types.NewPointer(ft)), ft)
		}
	}
	c.fatal("anchor:field:"+name, "type %s has no field %s", tstr(base.typ), name)
	return nil
}

func kindName(k OutKind) string {
	return [...]string{"return", "panic", "loop", "exit", "block"}[k]
}

// unsafe dereferences, indexes and assertions on a path
func (c *Ctx) safeEvents(key string, outs []*Outcome, kinds ...EvKind) {
	for _, o := range outs {
		for _, e := range o.evs {
			for _, k := range kinds {
				if e.kind != k {
					continue
				}
				what := map[EvKind]string{EvIndex: "index out of range", EvAssert: "failed type assertion", EvDeref: "nil dereference"}[k]
				var x *Term
				if len(e.args) > 0 {
					x = e.args[0]
				}
				c.ob(e.ok, key, e.pos, "possible %s of %s", what, x)
			}
		}
	}
}

// stuckAway: some boolean loop variable of the path has another value after
// its loop than the one it starts with, though no iteration can change that
// one: the path does not exist.
func stuckAway(outs []*Outcome, o *Outcome) bool {
	for _, l := range loopsIn(o) {
		bs := rawBacks(outs, o, l)
		for _, lv := range l.vars {
			if lv.typ == nil || !isBoolType(lv.typ) {
				continue
			}
			s := o.facts.Val(l.init[lv])
			now := o.facts.Val(lv)
			if s < 0 || now < 0 || s == now {
				continue
			}
			keeps := true
			for _, b := range bs {
				g := b.facts.assume(lit(lv, s == 1))
				if g.Consistent() && g.Val(b.next[lv]) != s {
					keeps = false
				}
			}
			if keeps {
				return true
			}
		}
	}
	return false
}
