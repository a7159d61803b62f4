package main

// Path facts: boolean atoms, constant (dis)equalities, dynamic types, message
// kinds and a difference-bound (zone) domain over ordered terms.

import (
	"go/constant"
	"go/types"
	"sort"
)

type Lit struct {
	t   *Term
	val bool
}

func (l Lit) String() string {
	if l.val {
		return l.t.String()
	}
	return "!(" + l.t.String() + ")"
}

const (
	kReq = 1 << iota
	kNtf
	kRes
	kErr
	kAll = 15
)

// Facts is persistent: every mutator returns a new value.
type Facts struct {
	lits []Lit // in order of assumption
	m    map[*Term]bool
	dead bool
}

var noFacts = &Facts{m: map[*Term]bool{}}

func (f *Facts) with(l Lit) *Facts {
	t, v := l.t, l.val
	for t.op == ONot {
		t, v = t.args[0], !v
	}
	if t.op == OConst {
		if (t == tTrue) == v {
			return f
		}
		return &Facts{lits: append(f.lits[:len(f.lits):len(f.lits)], l), m: f.m, dead: true}
	}
	if old, ok := f.m[t]; ok {
		if old == v {
			return f
		}
		return &Facts{lits: append(f.lits[:len(f.lits):len(f.lits)], l), m: f.m, dead: true}
	}
	nm := make(map[*Term]bool, len(f.m)+1)
	for k, x := range f.m {
		nm[k] = x
	}
	nm[t] = v
	g := &Facts{lits: append(f.lits[:len(f.lits):len(f.lits)], Lit{t, v}), m: nm, dead: f.dead}
	if v && t.op == OCall && len(t.args) > 0 {
		switch t.str2() {
		case "errors.Is":
			// a nil error is none of the errors that packages export
			if len(t.args) == 2 && unIface(t.args[1]).op == ODeref && unIface(t.args[1]).args[0].op == OGlobal {
				return g.with(Lit{tEq(t.args[0], tNil), false})
			}
		case "errors.As", "os.IsTimeout":
			return g.with(Lit{tEq(t.args[0], tNil), false})
		}
	}
	if v && t.op == OBin && t.str == "==" {
		// a successful encoding is a text, and not an empty one
		for i, x := range t.args {
			y := t.args[1-i]
			if y == tNil && isEncoded(x) || x.op == OLen && isEncoded(x.args[0]) && y == tInt(0) {
				if x.op == OLen {
					x = x.args[0]
				}
				return g.with(Lit{tEq(extractErr(x.args[0], 1), tNil), false})
			}
		}
	}
	return g
}

func isEncoded(x *Term) bool {
	return x.op == OExtract && x.n == 0 && callTerm(x.args[0], "jlib.MessageBytes", "json.Marshal")
}

func (f *Facts) prefix(n int) *Facts {
	g := noFacts
	for _, l := range f.lits[:n] {
		g = g.with(l)
	}
	return g
}

func (f *Facts) assume(ls ...Lit) *Facts {
	for _, l := range ls {
		f = f.with(l)
	}
	return f
}

type bound struct {
	c      int64
	strict bool
}

func (a bound) less(b bound) bool { return a.c < b.c || (a.c == b.c && a.strict && !b.strict) }
func (a bound) add(b bound) bound { return bound{a.c + b.c, a.strict || b.strict} }

var consMemo = map[*Facts]int8{}

// Consistent reports whether the conjunction of the facts is satisfiable as
// far as the domains can tell (false is definite).
func (f *Facts) Consistent() bool {
	if f.dead {
		return false
	}
	if r, ok := consMemo[f]; ok {
		return r == 1
	}
	g := f
	for _, l := range f.lits {
		// x == iface<T>(v): the same as x being a T equal to v
		if l.t.op != OBin || l.t.str != "==" {
			continue
		}
		x, y := l.t.args[0], l.t.args[1]
		if x.op == OMkIface {
			x, y = y, x
		}
		if y.op != OMkIface || x.op == OMkIface || types.IsInterface(y.typ) || !types.Comparable(y.typ) {
			continue
		}
		if l.val {
			g = g.assume(Lit{tTypeIs(x, y.typ), true}, Lit{tEq(tAssert(x, y.typ), y.args[0]), true})
		} else if v, ok := g.m[tTypeIs(x, y.typ)]; ok && v {
			g = g.with(Lit{tEq(tAssert(x, y.typ), y.args[0]), false})
		}
	}
	r := !g.dead && g.consistent()
	v := int8(0)
	if r {
		v = 1
	}
	consMemo[f] = v
	return r
}

type eqClass struct{ parent map[*Term]*Term }

func (e *eqClass) find(t *Term) *Term {
	for {
		p, ok := e.parent[t]
		if !ok || p == t {
			return t
		}
		t = p
	}
}

func (f *Facts) consistent() bool {
	// 1. equality classes (union-find over Eq atoms)
	ec := &eqClass{map[*Term]*Term{}}
	constRank := func(t *Term) int {
		switch {
		case t.op == ONil || isConstLike(t):
			return 0
		case t.op == OMkIface:
			return 1
		}
		return 2
	}
	var nes []*Term
	var numAtoms []Lit
	types_ := map[*Term]map[types.Type]bool{}
	for _, l := range f.lits {
		t := l.t
		if t.op == OBin && t.str == "==" {
			a, b := t.args[0], t.args[1]
			if l.val {
				ra, rb := ec.find(a), ec.find(b)
				if ra != rb {
					if constRank(rb) < constRank(ra) {
						ra, rb = rb, ra
					}
					if tEq(ra, rb) == tFalse {
						return false
					}
					ec.parent[rb] = ra
				}
			} else {
				nes = append(nes, t)
			}
			if isOrdered(a.typ) || isOrdered(b.typ) {
				numAtoms = append(numAtoms, l)
			}
		} else if t.op == OBin && (t.str == "<" || t.str == "<=") {
			numAtoms = append(numAtoms, l)
		}
	}
	for _, ne := range nes {
		ra, rb := ec.find(ne.args[0]), ec.find(ne.args[1])
		if ra == rb {
			return false
		}
		if isIntType(ra.typ) {
			continue
		}
		if tEq(ra, rb) == tTrue {
			return false
		}
	}
	// equalities imply atoms on representatives
	rep := func(t *Term) *Term { return ec.find(t) }
	for _, l := range f.lits {
		if l.t.op == OBin && l.t.str == "==" {
			continue
		}
		if l.t.op == OTypeIs {
			x := rep(l.t.args[0])
			if x != l.t.args[0] {
				e := tTypeIs(x, l.t.typ)
				if (e == tTrue && !l.val) || (e == tFalse && l.val) {
					return false
				}
			}
		}
	}
	// 2. dynamic types
	pos := map[*Term][]types.Type{}
	neg := map[*Term][]types.Type{}
	kind := map[*Term]int{}
	getKind := func(t *Term) int {
		if k, ok := kind[t]; ok {
			return k
		}
		return kAll
	}
	for _, l := range f.lits {
		switch l.t.op {
		case OTypeIs:
			x := rep(l.t.args[0])
			if l.val {
				pos[x] = append(pos[x], l.t.typ)
			} else {
				neg[x] = append(neg[x], l.t.typ)
			}
		case OKind:
			x := stripMsg(l.t.args[0])
			if l.val {
				kind[x] = getKind(x) & l.t.n
			} else {
				kind[x] = getKind(x) &^ l.t.n
			}
		}
	}
	for x, ps := range pos {
		if x.op == ONil {
			return false
		}
		// nil disequality follows; contradiction with x==nil
		if f.m[tEq(x, tNil)] {
			return false
		}
		for i, p := range ps {
			_, pi := p.Underlying().(*types.Interface)
			for _, q := range ps[i+1:] {
				_, qi := q.Underlying().(*types.Interface)
				switch {
				case !pi && !qi && !types.Identical(p, q):
					return false
				case pi && !qi:
					if !types.Implements(q, p.Underlying().(*types.Interface)) {
						return false
					}
				case !pi && qi:
					if !types.Implements(p, q.Underlying().(*types.Interface)) {
						return false
					}
				}
			}
			for _, q := range neg[x] {
				if types.Identical(p, q) {
					return false
				}
				if qi, ok := q.Underlying().(*types.Interface); ok && !pi && types.Implements(p, qi) {
					return false
				}
			}
			if k := msgKindOf(deref(p)); k >= 0 {
				sx := stripMsg(x)
				kind[sx] = getKind(sx) & (1 << k)
			}
		}
	}
	// an interface value of type Message whose kind is known and non-nil
	for x, ns := range neg {
		for _, q := range ns {
			if k := msgKindOf(deref(q)); k >= 0 {
				if v, ok := f.m[tEq(x, tNil)]; ok && v {
					continue
				}
				sx := stripMsg(x)
				if isMsgIface(sx.typ) {
					if v, ok := f.m[tEq(sx, tNil)]; ok && !v || neverNilMsg(sx, f) {
						kind[sx] = getKind(sx) &^ (1 << k)
					}
				}
			}
		}
	}
	for _, k := range kind {
		if k == 0 {
			return false
		}
	}
	_ = types_
	// 3. boolean structure of equal terms: nothing more
	// 4. zone
	if len(numAtoms) > 0 && !zoneOK(numAtoms, ec) {
		return false
	}
	return true
}

func neverNilMsg(x *Term, f *Facts) bool {
	// a kind atom was evaluated on it: a method was called on it
	for _, l := range f.lits {
		if l.t.op == OKind && stripMsg(l.t.args[0]) == x {
			return true
		}
	}
	return false
}

func isMsgIface(t types.Type) bool { return t != nil && isIfaceNamed(t, "Message") }

func zoneOK(atoms []Lit, ec *eqClass) bool {
	idx := map[*Term]int{}
	var vars []*Term
	id := func(t *Term) int {
		if t == nil {
			return 0
		}
		if i, ok := idx[t]; ok {
			return i
		}
		vars = append(vars, t)
		idx[t] = len(vars)
		return len(vars)
	}
	type edge struct {
		i, j int // xi - xj <= b
		b    bound
	}
	var edges []edge
	isInt := func(a, b *Term) bool { return isIntType(a.typ) || isIntType(b.typ) }
	type ne struct {
		i, j int
		c    int64
		in   bool
	}
	var neq []ne
	lin := func(t *Term, in bool) (*Term, int64) {
		if in {
			return linear(t)
		}
		if t.op == OConst && t.val != nil {
			// float constant: only integral ones are interpreted
			if v := constant.ToInt(t.val); v.Kind() == constant.Int {
				if c, ok := constant.Int64Val(v); ok {
					return nil, c
				}
			}
		}
		return t, 0
	}
	var lens []*Term
	members := map[*Term][]*Term{}
	for t := range ec.parent {
		r := ec.find(t)
		members[r] = append(members[r], t)
	}
	for r, m := range members {
		if len(m) > 1 {
			sort.Slice(m, func(i, j int) bool { return m[i].id < m[j].id })
			members[r] = m
		}
	}
	addLe := func(a, b *Term, strict, in bool) {
		ba, ca := lin(a, in)
		bb, cb := lin(b, in)
		c := cb - ca
		if strict && in {
			c--
			strict = false
		}
		edges = append(edges, edge{id(ba), id(bb), bound{c, strict}})
	}
	for _, l := range atoms {
		a, b := l.t.args[0], l.t.args[1]
		in := isInt(a, b)
		switch l.t.str {
		case "==":
			if l.val {
				addLe(a, b, false, in)
				addLe(b, a, false, in)
			} else {
				ba, ca := lin(a, in)
				bb, cb := lin(b, in)
				neq = append(neq, ne{id(ba), id(bb), cb - ca, in})
			}
		case "<":
			if l.val {
				addLe(a, b, true, in)
			} else {
				addLe(b, a, false, in)
			}
		case "<=":
			if l.val {
				addLe(a, b, false, in)
			} else {
				addLe(b, a, true, in)
			}
		}
	}
	for _, v := range vars {
		if v.op == OLen || v.op == OCap {
			lens = append(lens, v)
		}
	}
	for _, v := range lens {
		x := ec.find(v.args[0])
		for _, y := range append(members[x], x) {
			if y == v.args[0] {
				continue
			}
			if y.op == ONil {
				edges = append(edges, edge{id(v), 0, bound{0, false}}) // len(nil) <= 0
				continue
			}
			// equal values have equal lengths
			b, k := linear(tLen(y))
			if b == v {
				continue
			}
			if b != nil && (b.op == OLen || b.op == OCap) && idx[b] == 0 {
				edges = append(edges, edge{0, id(b), bound{0, false}})
			}
			edges = append(edges, edge{id(v), id(b), bound{k, false}}, edge{id(b), id(v), bound{-k, false}})
		}
		edges = append(edges, edge{0, id(v), bound{0, false}}) // 0 - len <= 0
	}
	for _, v := range vars {
		if callTerm(v, "(reflect.Type).NumIn") || callTerm(v, "(reflect.Type).NumOut") || callTerm(v, "(reflect.Type).NumField") {
			edges = append(edges, edge{0, id(v), bound{0, false}}) // counts of things
		}
	}
	n := len(vars) + 1
	const inf = int64(1) << 60
	d := make([][]bound, n)
	for i := range d {
		d[i] = make([]bound, n)
		for j := range d[i] {
			if i != j {
				d[i][j] = bound{inf, false}
			}
		}
	}
	for _, e := range edges {
		if e.i == e.j {
			if e.b.c < 0 || (e.b.c == 0 && e.b.strict) {
				return false
			}
			continue
		}
		if e.b.less(d[e.i][e.j]) {
			d[e.i][e.j] = e.b
		}
	}
	closure := func() bool {
		for k := 0; k < n; k++ {
			for i := 0; i < n; i++ {
				if d[i][k].c >= inf {
					continue
				}
				for j := 0; j < n; j++ {
					if d[k][j].c >= inf {
						continue
					}
					s := d[i][k].add(d[k][j])
					if s.less(d[i][j]) {
						d[i][j] = s
					}
				}
			}
		}
		for i := 0; i < n; i++ {
			if d[i][i].c < 0 || (d[i][i].c == 0 && d[i][i].strict) {
				return false
			}
		}
		return true
	}
	for iter := 0; iter < 8; iter++ {
		if !closure() {
			return false
		}
		ch := false
		for _, x := range neq {
			if x.i == x.j {
				if x.c == 0 {
					return false
				}
				continue
			}
			// xi - xj != c
			up, lo := d[x.i][x.j], d[x.j][x.i]
			if up.c == x.c && !up.strict {
				nb := bound{x.c, true}
				if x.in {
					nb = bound{x.c - 1, false}
				}
				d[x.i][x.j] = nb
				ch = true
			}
			if lo.c == -x.c && !lo.strict {
				nb := bound{-x.c, true}
				if x.in {
					nb = bound{-x.c - 1, false}
				}
				d[x.j][x.i] = nb
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	_ = sort.Ints
	return true
}

// Val evaluates a boolean term under the facts: 1 true, 0 false, -1 unknown.
func (f *Facts) Val(t *Term) int {
	neg := false
	for t.op == ONot {
		t, neg = t.args[0], !neg
	}
	r := -1
	if t == tTrue {
		r = 1
	} else if t == tFalse {
		r = 0
	} else if v, ok := f.m[t]; ok {
		r = 0
		if v {
			r = 1
		}
	} else if !f.with(Lit{t, true}).Consistent() {
		r = 0
	} else if !f.with(Lit{t, false}).Consistent() {
		r = 1
	}
	if r >= 0 && neg {
		r = 1 - r
	}
	return r
}

// Implies: facts entail the literal.
func (f *Facts) Implies(l Lit) bool {
	v := f.Val(l.t)
	return v >= 0 && (v == 1) == l.val
}

func (f *Facts) Possible(ls ...Lit) bool { return f.assume(ls...).Consistent() }
