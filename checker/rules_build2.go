package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// S13: where schema build errors and refused YAML keys point.

func init() {
	register("S13", "every nested call of the schema builder and of the YAML conversion is given the caller's path followed by exactly the steps (keyword, index, name) from the caller's description to the one it is given, read off the two terms; every error made on a path carries the path of its description, followed at most by the keyword that path's facts fault; a nested error is returned as it is; Error joins the steps", checkS13)
}

// pathParam is the position of the parameter for the path, -1 if there is none.
func pathParam(fn *ssa.Function) int {
	for i, p := range fn.Params {
		if isStrSlice(p.Type()) {
			return i
		}
	}
	return -1
}

func isStrSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), types.Typ[types.String])
}

// pathAdds: the text of the steps s adds to the path base; nil if it is no
// extension of it.
func pathAdds(s, base *Term) *Term {
	S := types.Typ[types.String]
	s = wholeOf(s)
	if s == base {
		return tStr("")
	}
	if base == tNil && (s.op == ONil || isEmptyMake(s) || s.op == OSliceLit && len(s.args) == 0) {
		return tStr("")
	}
	if base == tNil && s.op == OSliceLit {
		r := tStr("")
		for _, x := range s.args {
			r = tBin(tokADD, r, x, S)
		}
		return r
	}
	if s.op == OCall && s.str2() == "slices.Clone" {
		return pathAdds(s.args[0], base)
	}
	if s.op != OAppend || len(s.args) == 0 {
		return nil
	}
	if s.str == "..." {
		if h := s.args[0]; h.op == ONil || isEmptyMake(h) || h.op == OSliceLit && len(h.args) == 0 {
			return pathAdds(s.args[1], base)
		}
		h, t := pathAdds(s.args[0], base), pathAdds(s.args[1], tNil)
		if h == nil || t == nil {
			return nil
		}
		return tBin(tokADD, h, t, S)
	}
	r := pathAdds(s.args[0], base)
	if r == nil {
		return nil
	}
	for _, x := range s.args[1:] {
		r = tBin(tokADD, r, x, S)
	}
	return r
}

// stepView: descriptions and paths inside one function.
type stepView struct {
	c     *Ctx
	b     *builder
	outs  []*Outcome
	roots []*Term // the description it is given
	path  *Term
	yaml  bool
}

// keywordOf: t is what the description holds under which keyword.
func (v *stepView) keywordOf(t *Term) string {
	for t != nil && t.op == OAssert {
		t = t.args[0]
	}
	if t == nil || t.op != OLookup || t.args[1].op != OConst {
		return ""
	}
	for _, r := range v.roots {
		if t.args[0] == r {
			return constStr(t.args[1])
		}
	}
	return ""
}

func (v *stepView) isRoot(t *Term) bool {
	for t != nil && t.op == OAssert {
		t = t.args[0]
	}
	for _, r := range v.roots {
		if t == r {
			return true
		}
	}
	return false
}

// under: the text of the keyword that the list or map m is under.
func (v *stepView) under(o *Outcome, m *Term, list bool) (string, bool) {
	in := func(m *Term) (string, bool) {
		if v.yaml && v.isRoot(m) {
			return "", true
		}
		if k := v.keywordOf(m); k == "items" {
			return "", true
		} else if k != "" {
			return "." + k, true
		}
		return "", false
	}
	if k, ok := in(m); ok {
		return k, true
	}
	cl := v.c.coll(v.outs, o, m)
	if cl == nil || cl.empty || cl.fromMap == list {
		return "", false
	}
	x := cl.val
	if y := v.b.conversion(x); v.b != nil && y != nil {
		x = y
	}
	for list && x != nil && x.op == OAssert {
		x = x.args[0]
	}
	if list && (cl.key != nil || x != elem(cl.src, phIdx)) {
		return "", false
	}
	if !list && (cl.key == nil || cl.key.op != OSym || cl.key.str != "$k" || x.op != OSym || x.str != "$v") {
		return "", false
	}
	return in(cl.src)
}

// steps: the texts that name the way from the description to d; nil when d is
// no part of it.
func (v *stepView) steps(o *Outcome, d *Term) []*Term {
	S := types.Typ[types.String]
	if v.b != nil {
		if x := v.b.conversion(d); x != nil {
			d = x
		}
	}
	if v.isRoot(d) {
		return []*Term{tStr("")}
	}
	if k := v.keywordOf(d); k != "" {
		if k == "items" {
			return []*Term{tStr("")}
		}
		return []*Term{tStr("." + k)}
	}
	at := func(m *Term, list bool) (string, bool) { return v.under(o, m, list) }
	cat := func(ts ...*Term) *Term {
		r := tStr("")
		for _, t := range ts {
			r = tBin(tokADD, r, t, S)
		}
		return r
	}
	switch d.op {
	case OIndex:
		if k, ok := at(d.args[0], true); ok {
			i := mk(OCall, S, "strconv.Itoa", 0, d.args[1])
			return []*Term{cat(tStr(k+"["), i, tStr("]"))}
		}
	case ORVal, OLookup:
		var m, key *Term
		if d.op == ORVal {
			m, key = d.args[0].args[0], rkeyOf(d)
		} else {
			m, key = d.args[0], d.args[1]
		}
		if k, ok := at(m, false); ok {
			r := []*Term{}
			for _, n := range nameForms(key) {
				r = append(r, cat(tStr(k+"."), n))
			}
			return r
		}
	}
	return nil
}

// nameForms: terms that write the name key.
func nameForms(key *Term) []*Term {
	S := types.Typ[types.String]
	key = unIface(key)
	r := []*Term{key}
	if !types.Identical(key.typ, S) {
		r = []*Term{tAssert(key, S), mk(OCall, S, "fmt%s", 0, key), mk(OCall, S, "fmt%v", 0, key)}
	}
	return r
}

func checkS13(c *Ctx) {
	b := c.findBuilder()
	names := b.opaque()
	fns := []*ssa.Function{b.dispatch}
	for f := range b.node {
		fns = append(fns, f)
	}
	isBuild := func(n string) (*ssa.Function, bool) {
		for _, f := range fns {
			if shortFn(f) == n {
				return f, true
			}
		}
		return nil, false
	}
	nested, own := 0, 0
	for _, fn := range append([]*ssa.Function{b.build}, fns...) {
		pi := pathParam(fn)
		if fn == b.build {
			if _, ok := isBuild(shortFn(fn)); ok {
				continue
			}
		} else if pi < 0 {
			c.fatal("anchor:path", "%s is not given the path of the description", shortFn(fn))
		}
		a := newAnalysis(c.w, names...)
		outs := c.runOpaqueSelf(a, fn)
		v := &stepView{c: c, b: b, outs: outs, roots: []*Term{a.Params[descArg(fn)]}, path: tNil}
		if pi >= 0 {
			v.path = a.Params[pi]
		}
		n, m := v.check("S13", isBuild)
		nested, own = nested+n, own+m
	}
	c.ob(nested >= 10, "S13:nested", b.dispatch.Pos(), "only %d nested builds were seen", nested)
	c.ob(own >= 10, "S13:errors", b.dispatch.Pos(), "only %d build errors were seen", own)
	// the YAML conversion
	fix := c.method("jlibschema", "SchemaBuilder", "FixYamlMaps")
	rec := fix
	for _, g := range c.w.reach(fix) {
		if g.Synthetic == "" && g.Parent() == nil && len(argTypes(g)) > 0 && isEmptyIface(argTypes(g)[0]) && c.w.recursive(g) {
			rec = g
			break
		}
	}
	a := newAnalysis(c.w, shortFn(rec))
	outs := c.run(a, rec)
	if pi := pathParam(rec); pi < 0 {
		c.fatal("anchor:path", "%s is not given the path of the value", shortFn(rec))
	} else {
		v := &stepView{c: c, outs: outs, roots: []*Term{a.Params[descArg(rec)]}, path: a.Params[pi], yaml: true}
		n, m := v.check("S13:yaml", func(n string) (*ssa.Function, bool) { return rec, n == shortFn(rec) })
		c.ob(n >= 3 && m >= 1, "S13:yaml:none", rec.Pos(), "only %d nested conversions and %d refusals were seen", n, m)
	}
	// Error joins them
	for _, t := range []string{"SchemaBuildError", "NonStringMap"} {
		fn := c.method("jlibschema", t, "Error")
		a := newAnalysis(c.w)
		for _, o := range c.run(a, fn) {
			if o.kind == OutLoop {
				continue
			}
			ok := o.kind == OutReturn
			if ok {
				ok = false
				for _, p := range concatParts(o.rets[0]) {
					if p.op == OCall && p.str2() == "strings.Join" && isEmptyStr(p.args[1]) && strings.HasSuffix(p.args[0].String(), "."+c.pathsName(a.Params[0])) {
						ok = true
					}
					ok = ok || p.op == OLoopVar && c.concatLoop(a.outs, o, p)
				}
			}
			c.ob(ok, "S13:"+t+".Error", o.pos, "the text of a %s does not contain its path", t)
		}
	}
}

// check looks at the nested calls and the errors of one function.
func (v *stepView) check(key string, isBuild func(string) (*ssa.Function, bool)) (nested, own int) {
	c := v.c
	seen := map[*Term]bool{}
	for _, o := range v.outs {
		var failed []*Term
		for _, e := range o.evs {
			if e.kind != EvCall {
				continue
			}
			fn, ok := isBuild(e.name)
			if !ok || e.res == nil || e.res.op != OTuple {
				continue
			}
			if isNil(o.facts, e.res.args[1]) == 0 {
				failed = append(failed, e.res.args[1])
			}
			if seen[e.res] {
				continue
			}
			seen[e.res] = true
			pi := pathParam(fn)
			if pi < 0 {
				continue
			}
			nested++
			d, p := e.args[descArg(fn)], e.args[pi]
			got := pathAdds(p, v.path)
			if rootOf(d).op == OMake || rootOf(d).op == OAlloc || d.op == OMapInit || d.op == OMapPut {
				// a description made here: where it stands in for one
				c.ob(got != nil, key+":path", e.pos, "a nested description is built with the path %s, which does not start with that of the description it is part of", p)
				continue
			}
			want := v.steps(o, d)
			good := false
			for _, w := range want {
				good = good || got == w
			}
			c.ob(good, key+":path", e.pos, "a nested description is built with the path %s, not its parent's followed by the steps to it", p)
		}
		if o.kind != OutReturn || len(o.rets) != 2 || isNil(o.facts, o.rets[1]) == 1 {
			continue
		}
		r := o.rets[1]
		if len(failed) > 0 {
			ok := false
			for _, e := range failed {
				ok = ok || r == e || wraps(r, e)
			}
			c.ob(ok, key+":nested", o.pos, "a nested error is not returned as it is")
			continue
		}
		x := unIface(r)
		if x.op != OAlloc || structOf(deref(x.typ)) == nil {
			continue
		}
		pn := fieldLike(deref(x.typ), "paths", isStrSlice)
		has := false
		for i, s := 0, structOf(deref(x.typ)); i < s.NumFields(); i++ {
			has = has || s.Field(i).Name() == pn
		}
		if !has {
			continue
		}
		own++
		p := c.fget(newAnalysis(c.w), o, x, pn)
		got := pathAdds(p, v.path)
		c.ob(got != nil && v.faulted(o, got), key+":error", o.pos, "an error is made with the path %s, not that of the description at fault", p)
	}
	return
}

// faulted: the steps an error adds to its description's path name something
// the path's facts are about.
func (v *stepView) faulted(o *Outcome, t *Term) bool {
	ps := concatParts(t)
	if v.yaml {
		// a key that is no string
		for _, l := range o.facts.lits {
			if l.t.op == OTypeIs && !l.val && l.t.args[0].op == ORKey {
				k := l.t.args[0]
				found := false
				subterms(t, func(x *Term) bool { found = found || x == k; return !found })
				return found
			}
		}
		return false
	}
	if len(ps) == 1 && ps[0].op == OConst && constStr(ps[0]) == "" {
		return true
	}
	if ps[0].op != OConst || !strings.HasPrefix(constStr(ps[0]), ".") {
		return false
	}
	k := strings.TrimSuffix(constStr(ps[0])[1:], ".")
	about := false
	for _, l := range o.facts.lits {
		subterms(l.t, func(x *Term) bool {
			if (x.op == OLookup || x.op == OLookupOk) && v.isRoot(x.args[0]) && x.args[1].op == OConst && constStr(x.args[1]) == k {
				about = true
			}
			return !about
		})
	}
	if !about || len(ps) > 2 {
		return false
	}
	if len(ps) == 2 {
		// a name that is not found
		for _, l := range o.facts.lits {
			if l.t.op == OLookupOk && !l.val && l.t.args[1] == ps[1] {
				x := ps[1]
				for x.op == OAssert {
					x = x.args[0]
				}
				if x.op != OIndex {
					return false
				}
				u, ok := v.under(o, x.args[0], true)
				return ok && u == "."+k
			}
		}
		return false
	}
	return !strings.HasSuffix(constStr(ps[0]), ".")
}
