package main

// Collections built by loops: a list or map term in the form "for each element
// of a source: these keys and values".

import (
	"go/types"
)

// replace rebuilds t with f applied to every subterm (top down; nil keeps).
func replace(t *Term, f func(*Term) *Term) *Term {
	if t == nil {
		return nil
	}
	if r := f(t); r != nil {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	ch := false
	as := make([]*Term, len(t.args))
	for i, x := range t.args {
		as[i] = replace(x, f)
		ch = ch || as[i] != x
	}
	if !ch {
		return t
	}
	n := *t
	n.args = as
	r := mk(n.op, n.typ, n.str, n.n, as...)
	if r.fn == nil {
		r.fn = n.fn
	}
	return r
}

// Coll: elements (key and val; key nil for a list) for each element of src.
type Coll struct {
	empty   bool
	fromMap bool
	src     *Term
	key     *Term
	val     *Term
	srcT    types.Type
}

var phIdx = tSym("$i", types.Typ[types.Int])

func phKey(t types.Type) *Term { return tSym("$k", t) }
func phVal(t types.Type) *Term { return tSym("$v", t) }

func isMapType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// coll: how the list or map term t was built on the path; nil if not understood.
func (c *Ctx) coll(outs []*Outcome, o *Outcome, t *Term) *Coll {
	return c.coll0(outs, o, t, 0)
}

func (c *Ctx) coll0(outs []*Outcome, o *Outcome, t *Term, d int) *Coll {
	if d > 6 || t == nil {
		return nil
	}
	if t.op == OMapInit || t.op == ONil || isEmptyMake(t) || t.op == OSliceLit && len(t.args) == 0 {
		return &Coll{empty: true}
	}
	if t.op == OMkIface {
		return c.coll0(outs, o, t.args[0], d+1)
	}
	if t.op == OAppend && t.str == "..." && len(t.args) == 2 {
		// a copy put behind nothing
		if h := c.coll0(outs, o, t.args[0], d+1); h == nil || !h.empty {
			return nil
		}
		return c.coll0(outs, o, t.args[1], d+1)
	}
	if t.op == OCall && t.str2() == "slices.Clone" {
		return c.coll0(outs, o, t.args[0], d+1)
	}
	if t.op == OLoopVar {
		for _, l := range loopsIn(o) {
			if init, ok := l.init[t]; ok {
				ic := c.coll0(outs, o, init, d+1)
				if ic == nil || !ic.empty {
					return nil
				}
				return c.builtBy(outs, o, l, d, func(b *Outcome) (k, v *Term, ok bool) {
					n := b.next[t]
					switch {
					case n.op == OAppend && n.str == "" && n.args[0] == t && len(n.args) == 2:
						return nil, n.args[1], true
					case n.op == OMapPut && n.args[0] == t:
						return n.args[1], n.args[2], true
					}
					return nil, nil, false
				})
			}
		}
		return nil
	}
	if t.op == OMake && t.args[0] != nil && t.args[0].op == OLen {
		for _, l := range loopsIn(o) {
			r := c.builtBy(outs, o, l, d, func(b *Outcome) (k, v *Term, ok bool) {
				for _, e := range b.evs {
					if e.kind == EvStore && e.args[0].op == OIndexAddr && e.args[0].args[0] == t {
						return e.args[0].args[1], e.args[1], true
					}
				}
				return nil, nil, false
			})
			if r != nil && r.key == phIdx {
				r.key = nil
				return r
			}
		}
		return nil
	}
	if t.typ == nil {
		return nil
	}
	switch u := t.typ.Underlying().(type) {
	case *types.Slice:
		return &Coll{src: t, val: elem(t, phIdx), srcT: u.Elem()}
	case *types.Map:
		return &Coll{fromMap: true, src: t, key: phKey(u.Key()), val: phVal(u.Elem())}
	}
	return nil
}

// builtBy: every iteration of l adds get(iteration); expressed over the loop's source.
func (c *Ctx) builtBy(outs []*Outcome, o *Outcome, l *LoopInfo, d int, get func(b *Outcome) (k, v *Term, ok bool)) *Coll {
	bs := backsOf(outs, o, l)
	if len(bs) == 0 {
		return &Coll{empty: true} // the loop never goes round
	}
	var ks, vs []*Term
	cand := map[*Term]bool{}
	for _, b := range bs {
		k, v, ok := get(b)
		if !ok {
			return nil
		}
		ks, vs = append(ks, k), append(vs, v)
		for _, f := range b.facts.lits {
			subterms(f.t, func(x *Term) bool {
				if x.op == OLen {
					cand[x.args[0]] = true
				}
				return true
			})
		}
	}
	same := func(f func(t *Term) *Term) (k, v *Term) {
		for i := range ks {
			var k2 *Term
			if ks[i] != nil {
				k2 = replace(ks[i], f)
			}
			v2 := replace(vs[i], f)
			if i > 0 && (k2 != k || v2 != v) {
				return nil, nil
			}
			k, v = k2, v2
		}
		return
	}
	// over a map
	for _, ps := range mapPasses(outs, o, func(*Term) bool { return true }) {
		if ps.loop.key != l.key {
			continue
		}
		src := ps.k.args[0].args[0]
		kk, vv := phKey(ps.k.typ), phVal(ps.v.typ)
		k, v := same(func(t *Term) *Term {
			switch t {
			case ps.k:
				return kk
			case ps.v:
				return vv
			}
			if t.op == OLookup && t.args[0] == src && t.args[1] == ps.k {
				return vv
			}
			return nil
		})
		if v == nil {
			continue
		}
		in := c.coll0(outs, o, src, d+1)
		if in == nil || in.empty {
			return in
		}
		if !in.fromMap || in.key != kk {
			return nil
		}
		return &Coll{fromMap: true, src: in.src, key: k, val: replace(v, func(t *Term) *Term {
			if t == vv {
				return in.val
			}
			return nil
		})}
	}
	// over a list, in ascending order
	for _, s := range sortedTerms(cand) {
		if s.typ == nil {
			continue
		}
		if _, ok := s.typ.Underlying().(*types.Slice); !ok {
			continue
		}
		for _, ps := range passes(outs, o, tLen(s)) {
			if ps.loop.key != l.key || !ps.asc {
				continue
			}
			k, v := same(func(t *Term) *Term {
				if t == ps.idx {
					return phIdx
				}
				return nil
			})
			if v == nil {
				continue
			}
			in := c.coll0(outs, o, s, d+1)
			if in == nil || in.empty {
				return in
			}
			if in.key != nil {
				return nil
			}
			f := func(t *Term) *Term {
				if t.op == OIndex && t.args[0] == s && t.args[1] == phIdx {
					return in.val
				}
				if t.op == OIndex && t.args[1] == phIdx && (t.args[0].op == OMake || t.args[0].op == OLoopVar) {
					if x := c.coll0(outs, o, t.args[0], d+1); x != nil && !x.empty && x.key == nil && x.src == in.src {
						return x.val
					}
				}
				return nil
			}
			r := &Coll{fromMap: in.fromMap, src: in.src, val: replace(v, f)}
			if k != nil {
				r.key = replace(k, f)
			}
			return r
		}
	}
	return nil
}
