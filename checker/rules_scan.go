package main

// Schema validation: S01-S06 and S10.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const newErrPos = "(*jlibschema.SchemaValidator).NewErrorPos"
const schemaScan = "(jlibschema.Schema).Scan"

func init() {
	register("S01", "decision table: for every data type, bound, flag and order of value and bound, every path of NumberSchema.Scan and IntegerSchema.Scan consistent with that case has the verdict the statement gives", checkS01)
	register("S02", "decision table over the dynamic type of the value (and string length versus bounds) for any, null, bool and string", checkS02)
	register("S03", "accepting paths have consulted the choices the statement quantifies over (loop exhaustion or an accepting member), rejecting paths carry a rejecting member; members are applied to the same value", checkS03)
	register("S04", "accepting paths have checked every element against its own schema (loop exhaustion over the symbolic index range), rejecting paths carry a justification; every index operation is proved in bounds", checkS04)
	register("S05", "accepting paths have ranged over all declared properties (and all members when additionalProperties is given) with the required verdicts, rejecting paths carry a justification", checkS05)
	register("S06", "the path stack (symbolic slice) equals its entry value at every return, and at every nested scan and every error creation it is the entry value followed by the step of the element; NewErrorPos copies it and Path joins it", checkS06)
	register("S10", "no function reachable from validation stores, appends, deletes or sorts through memory reachable from the schema, the data or a global; every validator used by the server is created for that message", checkS10)
}

type scanView struct {
	c                     *Ctx
	a                     *Analysis
	fn                    *ssa.Function
	outs                  []*Outcome
	self, validator, data *Term
}

func (c *Ctx) scan(typ, meth string) *scanView {
	fn := c.method("jlibschema", typ, meth)
	c.site(fn.Pos(), shortFn(fn))
	a := newAnalysis(c.w, newErrPos)
	a.derefs = true
	v := &scanView{c: c, a: a, fn: fn}
	v.self = tSym(fn.Params[0].Name(), fn.Params[0].Type())
	v.validator = tSym(fn.Params[1].Name(), fn.Params[1].Type())
	a.facts0 = []Lit{lit(tEq(v.self, tNil), false), lit(tEq(v.validator, tNil), false)}
	v.outs = c.run(a, fn)
	v.data = a.Params[2]
	return v
}

// verdicts: returning outcomes split into accepted (nil) and rejected.
type verdict struct {
	o      *Outcome
	accept bool
	ret    *Term
}

func (c *Ctx) verdicts(key string, outs []*Outcome) []verdict {
	var r []verdict
	for _, o := range outs {
		switch o.kind {
		case OutLoop:
			continue
		case OutReturn:
		default:
			c.ob(false, key+":ends", o.pos, "validation may end in a %s instead of returning a verdict", kindName(o.kind))
			continue
		}
		t := o.rets[0]
		switch isNil(o.facts, t) {
		case 1:
			r = append(r, verdict{o, true, t})
		case 0:
			r = append(r, verdict{o, false, t})
		default:
			for _, yes := range []bool{true, false} {
				f := o.facts.assume(lit(tEq(t, tNil), yes))
				if f.Consistent() {
					n := *o
					n.facts = f
					r = append(r, verdict{&n, yes, t})
				}
			}
		}
	}
	return r
}

// errorPosOK: NewErrorPos never returns nil, on which every verdict relies.
func (c *Ctx) errorPosOK() {
	fn := c.w.Method("jlibschema", "SchemaValidator", "NewErrorPos")
	if fn == nil {
		return
	}
	a := newAnalysis(c.w)
	for _, o := range c.run(a, fn) {
		if o.kind == OutReturn {
			c.ob(isNil(o.facts, o.rets[0]) == 0, "errorpos", o.pos, "NewErrorPos may return nil, which means acceptance")
		} else {
			c.ob(o.kind == OutLoop, "errorpos", o.pos, "NewErrorPos may not return")
		}
	}
}

type tcase struct {
	name   string
	facts  []Lit
	accept bool
}

// table: every outcome consistent with a case has the case's verdict, and
// every case is decided by some outcome.
func (c *Ctx) table(key string, fn *ssa.Function, vs []verdict, cases []tcase) {
	for _, tc := range cases {
		n := 0
		for _, v := range vs {
			if !v.o.facts.Possible(tc.facts...) {
				continue
			}
			n++
			c.ob(v.accept == tc.accept, key, v.o.pos, "%s: %s is %s", shortFn(fn), tc.name, map[bool]string{true: "accepted", false: "rejected"}[v.accept])
		}
		c.ob(n > 0, key+":undecided", fn.Pos(), "%s: no path decides the case %s", shortFn(fn), tc.name)
	}
	c.count("table_cases", len(cases))
}

func cross(a, b []tcase) []tcase {
	var r []tcase
	for _, x := range a {
		for _, y := range b {
			r = append(r, tcase{x.name + ", " + y.name, append(append([]Lit{}, x.facts...), y.facts...), x.accept && y.accept})
		}
	}
	return r
}

func (v *scanView) ptrVal(field string) (ptr, val *Term) {
	p := v.c.fieldOf(v.self, field)
	return p, mk(ODeref, deref(p.typ), "", 0, p)
}

func (v *scanView) boundCases(max bool, val *Term) []tcase {
	nm, ex := "Minimum", "ExclusiveMinimum"
	if max {
		nm, ex = "Maximum", "ExclusiveMaximum"
	}
	p, b := v.ptrVal(nm)
	xp, xv := v.ptrVal(ex)
	r := []tcase{{"no " + nm, []Lit{lit(tEq(p, tNil), true)}, true}}
	for _, fl := range []struct {
		n  string
		fs []Lit
		on bool
	}{{"no flag", []Lit{lit(tEq(xp, tNil), true)}, false}, {"flag false", []Lit{lit(tEq(xp, tNil), false), lit(xv, false)}, false}, {"flag true", []Lit{lit(tEq(xp, tNil), false), lit(xv, true)}, true}} {
		for _, ord := range []struct {
			n  string
			fs []Lit
			k  int
		}{{"inside", nil, 1}, {"equal to", nil, 0}, {"beyond", nil, -1}} {
			var fs []Lit
			in := lit(tLt(val, b), true)
			out := lit(tLt(b, val), true)
			if !max {
				in, out = out, in
			}
			switch ord.k {
			case 1:
				fs = []Lit{in}
			case -1:
				fs = []Lit{out}
			default:
				fs = []Lit{lit(tLe(val, b), true), lit(tLe(b, val), true)}
			}
			fs = append(append([]Lit{lit(tEq(p, tNil), false)}, fl.fs...), fs...)
			r = append(r, tcase{fmt.Sprintf("value %s %s (%s)", ord.n, nm, fl.n), fs, ord.k == 1 || ord.k == 0 && !fl.on})
		}
	}
	return r
}

func extract(call *Term, n int, t types.Type) *Term { return tExtract(call, n, t) }

var tErrorType = types.Universe.Lookup("error").Type()

// exact: nothing is computed from the values and bounds that are compared, as
// sums and differences of unbounded numbers may wrap or round.
func (c *Ctx) exact(key string, outs []*Outcome, about ...*Term) {
	for _, o := range outs {
		for _, l := range o.facts.lits {
			subterms(l.t, func(x *Term) bool {
				if x.op == OBin && len(x.args) == 2 && strings.Contains("+-*/%<<>>", x.str) && x.str != "<" && x.str != ">" {
					for _, y := range x.args {
						of := len(about) == 0
						for _, b := range about {
							of = of || contains(y, b)
						}
						c.ob(!of || y.op == OConst || y.op == OLen, key, o.pos, "whether a value is accepted depends on %s, which may wrap or round", x)
					}
				}
				return true
			})
		}
	}
}

func checkS01(c *Ctx) {
	c.errorPosOK()
	num := c.w.pkgs["encoding/json"]
	_ = num
	jn := c.jsonNumber()
	F, I64, I := types.Typ[types.Float64], types.Typ[types.Int64], types.Typ[types.Int]
	for _, tn := range []string{"NumberSchema", "IntegerSchema"} {
		v := c.scan(tn, "Scan")
		c.exact("S01:exact", v.outs)
		c.safeEvents("S01:deref", v.outs, EvDeref, EvAssert)
		vs := c.verdicts("S01:"+tn, v.outs)
		isN, isI, isF := tTypeIs(v.data, jn), tTypeIs(v.data, I), tTypeIs(v.data, F)
		s := tConv(tAssert(v.data, jn), types.Typ[types.String])
		var cases []tcase
		if tn == "NumberSchema" {
			x := extract(mk(OCall, nil, "strconv.ParseFloat", 0, s, tInt(64)), 0, F)
			cases = append(cases, v.numCases("json.Number", lit(isN, true), x)...)
			cases = append(cases, v.numCases("int", lit(isI, true), tConv(tAssert(v.data, I), F))...)
			cases = append(cases, v.numCases("float64", lit(isF, true), tAssert(v.data, F))...)
			cases = append(cases, tcase{"any other type", []Lit{lit(isN, false), lit(isI, false), lit(isF, false)}, false})
		} else {
			call := mk(OCall, nil, "strconv.ParseInt", 0, s, tInt(10), tInt(64))
			err := extract(call, 1, tErrorType)
			for _, tc := range v.numCases("json.Number integer", lit(isN, true), extract(call, 0, I64)) {
				tc.facts = append(tc.facts, lit(tEq(err, tNil), true))
				cases = append(cases, tc)
			}
			cases = append(cases, tcase{"a json.Number that is no 64-bit integer", []Lit{lit(isN, true), lit(tEq(err, tNil), false)}, false})
			cases = append(cases, v.numCases("int", lit(isI, true), tConv(tAssert(v.data, I), I64))...)
			cases = append(cases, tcase{"any other type", []Lit{lit(isN, false), lit(isI, false)}, false})
		}
		c.table("S01:"+tn, v.fn, vs, cases)
	}
}

func (v *scanView) numCases(name string, is Lit, val *Term) []tcase {
	return cross([]tcase{{name, []Lit{is}, true}}, cross(v.boundCases(true, val), v.boundCases(false, val)))
}

// the json.Number type as the analysed program sees it
func (c *Ctx) jsonNumber() types.Type { return c.extType("encoding/json", "Number") }

func (c *Ctx) extType(path, name string) types.Type {
	for _, p := range c.w.prog.AllPackages() {
		if p.Pkg.Path() == path {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	c.fatal("anchor:type:"+path+"."+name, "type %s.%s is not used by the program", path, name)
	return nil
}

func checkS02(c *Ctx) {
	c.errorPosOK()
	B, S := types.Typ[types.Bool], types.Typ[types.String]
	for _, tn := range []string{"AnySchema", "NullSchema", "BoolSchema", "StringSchema"} {
		v := c.scan(tn, "Scan")
		c.exact("S02:exact", v.outs)
		c.safeEvents("S02:deref", v.outs, EvDeref, EvAssert)
		vs := c.verdicts("S02:"+tn, v.outs)
		var cases []tcase
		switch tn {
		case "AnySchema":
			cases = []tcase{{"any value", nil, true}}
		case "NullSchema":
			cases = []tcase{{"null", []Lit{lit(tEq(v.data, tNil), true)}, true}, {"a non-null value", []Lit{lit(tEq(v.data, tNil), false)}, false}}
		case "BoolSchema":
			cases = []tcase{{"a bool", []Lit{lit(tTypeIs(v.data, B), true)}, true}, {"a value that is no bool", []Lit{lit(tTypeIs(v.data, B), false)}, false}}
		case "StringSchema":
			n := tLen(tAssert(v.data, S))
			side := func(field string, max bool) []tcase {
				p, b := v.ptrVal(field)
				r := []tcase{{"no " + field, []Lit{lit(tEq(p, tNil), true)}, true}}
				for _, k := range []string{"below", "equal to", "above"} {
					fs := []Lit{lit(tEq(p, tNil), false)}
					switch k {
					case "below":
						fs = append(fs, lit(tLt(n, b), true))
					case "above":
						fs = append(fs, lit(tLt(b, n), true))
					default:
						fs = append(fs, lit(tEq(n, b), true))
					}
					r = append(r, tcase{"length " + k + " " + field, fs, k == "equal to" || (k == "below") == max})
				}
				return r
			}
			cases = append(cross([]tcase{{"a string", []Lit{lit(tTypeIs(v.data, S), true)}, true}}, cross(side("MaxLength", true), side("MinLength", false))),
				tcase{"a value that is no string", []Lit{lit(tTypeIs(v.data, S), false)}, false})
		}
		c.table("S02:"+tn, v.fn, vs, cases)
	}
}

// scanEvents: nested scans on the path.
func scanEvents(o *Outcome) []*Event { return callsNamed(o.evs, schemaScan) }

// scanned: the path applied schema s to value d, with the given verdict.
func scanned(o *Outcome, s, d *Term, accept bool) *Event {
	for _, e := range scanEvents(o) {
		if e.args[0] == s && (d == nil || e.args[2] == d) && o.facts.Implies(lit(tEq(e.res, tNil), accept)) {
			return e
		}
	}
	return nil
}

func checkS03(c *Ctx) {
	c.errorPosOK()
	for _, tn := range []string{"AnyOfSchema", "AllOfSchema"} {
		v := c.scan(tn, "Scan")
		key := "S03:" + tn
		choices := c.fieldOf(v.self, "Choices")
		c.safeEvents(key+":index", v.outs, EvDeref, EvIndex, EvAssert)
		for _, o := range v.outs {
			for _, e := range scanEvents(o) {
				c.ob(e.args[2] == v.data, key+":value", e.pos, "a choice is applied to %s instead of the value", e.args[2])
			}
		}
		na, nr := 0, 0
		for _, vd := range c.verdicts(key, v.outs) {
			every := func(accept bool) bool {
				return forAll(v.outs, vd.o, tLen(choices), func(b *Outcome, i *Term) bool {
					return scanned(b, elem(choices, i), v.data, accept) != nil
				})
			}
			some := func(accept bool, ret *Term) bool {
				return existsIn(v.outs, vd.o, choices, func(b *Outcome, i *Term) bool {
					return scanned(b, elem(choices, i), v.data, accept) != nil
				})
			}
			if vd.accept {
				na++
			} else {
				nr++
			}
			switch {
			case tn == "AnyOfSchema" && vd.accept:
				c.ob(some(true, nil), key+":accept", vd.o.pos, "anyOf accepts without an accepting choice")
			case tn == "AnyOfSchema":
				c.ob(every(false), key+":reject", vd.o.pos, "anyOf rejects although not every choice is known to reject")
			case vd.accept:
				c.ob(every(true), key+":accept", vd.o.pos, "allOf accepts although not every choice is known to accept")
			default:
				c.ob(some(false, nil), key+":reject", vd.o.pos, "allOf rejects without a rejecting choice")
				own := false
				for _, e := range scanEvents(vd.o) {
					if vd.ret == e.res {
						own = true
					}
				}
				if !own && vd.ret.op == OLoopVar {
					own = c.choiceError(v, vd, choices)
				}
				c.ob(own, key+":own", vd.o.pos, "allOf does not report the failing choice's own error")
			}
		}
		c.ob(na > 0 && nr > 0, key+":vacuous", v.fn.Pos(), "%s never accepts or never rejects", tn)
	}
	v := c.scan("NotSchema", "Scan")
	child := c.fieldOf(v.self, "Child")
	c.safeEvents("S03:not:deref", v.outs, EvDeref, EvAssert)
	na, nr := 0, 0
	for _, vd := range c.verdicts("S03:not", v.outs) {
		if vd.accept {
			na++
		} else {
			nr++
		}
		c.ob(scanned(vd.o, child, v.data, !vd.accept) != nil, "S03:not", vd.o.pos, "not %s without its child having been asked for the same value and having %s", map[bool]string{true: "accepts", false: "rejects"}[vd.accept], map[bool]string{true: "rejected", false: "accepted"}[vd.accept])
	}
	c.ob(na > 0 && nr > 0, "S03:not:vacuous", v.fn.Pos(), "not never accepts or never rejects")
}

// choiceError: the returned loop variable only ever holds nil or the result of a choice's scan.
func (c *Ctx) choiceError(v *scanView, vd verdict, choices *Term) bool {
	for _, l := range loopsIn(vd.o) {
		init, ok := l.init[vd.ret]
		if !ok {
			continue
		}
		if init != tNil {
			return false
		}
		for _, b := range backsOf(v.outs, vd.o, l) {
			n := b.next[vd.ret]
			if n == vd.ret {
				continue
			}
			hit := false
			for _, e := range scanEvents(b) {
				if e.res == n {
					hit = true
				}
			}
			if !hit {
				return false
			}
		}
		return true
	}
	return false
}

var tAnyList = types.NewSlice(types.NewInterfaceType(nil, nil))
var tAnyMap = types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil))

// seqSpec: positional checking of items: schemas[i] for i < len(schemas), then additional.
type seqSpec struct {
	items, schemas, additional *Term // schemas nil: additional for every item (list)
}

// itemOf: e applies the right schema for the item index j of the items; nil when it does not.
func (s seqSpec) pairOK(f *Facts, e *Event) bool {
	d := e.args[2]
	if d.op != OIndex || d.args[0] != s.items {
		return false
	}
	j := d.args[1]
	if s.schemas == nil {
		return e.args[0] == s.additional
	}
	if e.args[0] == s.additional {
		return f.Implies(lit(tLe(tLen(s.schemas), j), true))
	}
	if e.args[0].op == OIndex && e.args[0].args[0] == s.schemas {
		return f.Implies(lit(tEq(e.args[0].args[1], j), true))
	}
	return false
}

func (s seqSpec) acceptedAt(b *Outcome, i *Term) bool {
	for _, e := range scanEvents(b) {
		if s.pairOK(b.facts, e) && b.facts.Implies(lit(tEq(e.args[2].args[1], i), true)) && b.facts.Implies(lit(tEq(e.res, tNil), true)) {
			return true
		}
	}
	return false
}

// accepted: what an accepting path must have established; "" if it has.
func (s seqSpec) accepted(outs []*Outcome, o *Outcome) string {
	n := tLen(s.items)
	if s.schemas == nil {
		if !forAll(outs, o, n, s.acceptedAt) {
			return "some elements are not checked by the item schema"
		}
		return ""
	}
	m := tLen(s.schemas)
	f := o.facts
	if !f.Implies(lit(tLe(m, n), true)) {
		return "there may be fewer elements than schemas"
	}
	if f.Possible(lit(tEq(s.additional, tNil), true), lit(tLt(m, n), true)) {
		return "there may be further elements without an additional schema"
	}
	if !forRange(outs, o, tInt(0), m, s.acceptedAt) {
		return "some elements are not checked by the schema of their position"
	}
	if !f.Implies(lit(tLe(n, m), true)) && !f.Implies(lit(tEq(s.additional, tNil), true)) && !forRange(outs, o, m, n, s.acceptedAt) {
		return "some further elements are not checked by the additional schema"
	}
	return ""
}

func (s seqSpec) rejected(outs []*Outcome, o *Outcome) bool {
	f := o.facts
	if s.schemas != nil {
		n, m := tLen(s.items), tLen(s.schemas)
		if f.Implies(lit(tLt(n, m), true)) || f.Implies(lit(tEq(s.additional, tNil), true)) && (f.Implies(lit(tEq(n, m), false)) || f.Implies(lit(tLt(m, n), true))) {
			return true
		}
	}
	for _, e := range scanEvents(o) {
		if s.pairOK(f, e) && f.Implies(lit(tEq(e.res, tNil), false)) {
			return true
		}
	}
	return false
}

func checkS04(c *Ctx) {
	c.errorPosOK()
	for _, tn := range []string{"ListSchema", "TupleSchema"} {
		v := c.scan(tn, "Scan")
		key := "S04:" + tn
		isList := tTypeIs(v.data, tAnyList)
		sp := seqSpec{items: tAssert(v.data, tAnyList)}
		n := tLen(sp.items)
		if tn == "ListSchema" {
			sp.additional = c.fieldOf(v.self, "Item")
		} else {
			sp.schemas, sp.additional = c.fieldOf(v.self, "Children"), c.fieldOf(v.self, "AdditionalSchema")
		}
		c.safeEvents(key+":index", v.outs, EvIndex, EvDeref, EvAssert)
		if tn == "ListSchema" {
			_, mx := v.ptrVal("MaxItems")
			_, mn := v.ptrVal("MinItems")
			c.exact(key+":exact", v.outs, mx, mn)
		}
		na, nr := 0, 0
		for _, vd := range c.verdicts(key, v.outs) {
			f := vd.o.facts
			if vd.accept {
				na++
				c.ob(f.Implies(lit(isList, true)), key+":list", vd.o.pos, "a value that is no list may be accepted")
				if tn == "ListSchema" {
					mx, mxv := v.ptrVal("MaxItems")
					mn, mnv := v.ptrVal("MinItems")
					c.ob(!f.Possible(lit(tEq(mx, tNil), false), lit(tLt(mxv, n), true)), key+":max", vd.o.pos, "a list longer than maxItems may be accepted")
					c.ob(!f.Possible(lit(tEq(mn, tNil), false), lit(tLt(n, mnv), true)), key+":min", vd.o.pos, "a list shorter than minItems may be accepted")
				}
				w := sp.accepted(v.outs, vd.o)
				c.ob(w == "", key+":accept", vd.o.pos, "the value is accepted although %s", w)
				continue
			}
			nr++
			just := f.Implies(lit(isList, false)) || sp.rejected(v.outs, vd.o)
			if tn == "ListSchema" {
				mx, mxv := v.ptrVal("MaxItems")
				mn, mnv := v.ptrVal("MinItems")
				just = just || f.Implies(lit(tEq(mx, tNil), false)) && f.Implies(lit(tLt(mxv, n), true)) ||
					f.Implies(lit(tEq(mn, tNil), false)) && f.Implies(lit(tLt(n, mnv), true))
			}
			c.ob(just, key+":reject", vd.o.pos, "a value is rejected without a reason the statement gives")
		}
		c.ob(na > 0 && nr > 0, key+":vacuous", v.fn.Pos(), "%s never accepts or never rejects", tn)
	}
	// method: params, result
	v := c.scan("MethodSchema", "Scan")
	obj := tAssert(v.data, tAnyMap)
	isMap := tTypeIs(v.data, tAnyMap)
	E := types.NewInterfaceType(nil, nil)
	at := func(k string) (*Term, *Term) {
		return mk(OLookup, E, "", 0, obj, tStr(k)), mk(OLookupOk, types.Typ[types.Bool], "", 0, obj, tStr(k))
	}
	params, hasParams := at("params")
	result, hasResult := at("result")
	isCall := []Lit{lit(isMap, true), lit(hasParams, true), lit(tTypeIs(params, tAnyList), true)}
	c.methodVerdicts("S04:method", v, v.outs, isCall, isMap, tAssert(params, tAnyList), result, hasResult)
	// the two halves as entry points
	v = c.scan("MethodSchema", "ScanParams")
	c.methodVerdicts("S04:params", v, v.outs, []Lit{}, nil, v.data, nil, nil)
	v = c.scan("MethodSchema", "ScanResult")
	c.methodVerdicts("S04:result", v, v.outs, nil, nil, nil, v.data, tTrue)
}

func (c *Ctx) methodVerdicts(key string, v *scanView, outs []*Outcome, isCall []Lit, isMap, items, result, hasResult *Term) {
	c.safeEvents(key+":index", outs, EvIndex, EvDeref, EvAssert)
	sp := seqSpec{items: items, schemas: c.fieldOf(v.self, "Params"), additional: c.fieldOf(v.self, "AdditionalSchema")}
	returns := c.fieldOf(v.self, "Returns")
	na := 0
	for _, vd := range c.verdicts(key, outs) {
		f := vd.o.facts
		call := isCall != nil && implAll(f, isCall)
		notCall := isCall == nil || !f.Possible(isCall...)
		if !c.ob(call || notCall, key+":case", vd.o.pos, "the verdict does not depend on whether the message has a list of params") {
			continue
		}
		if vd.accept {
			na++
		}
		if call {
			if vd.accept {
				w := sp.accepted(outs, vd.o)
				c.ob(w == "", key+":accept", vd.o.pos, "params are accepted although %s", w)
			} else {
				c.ob(sp.rejected(outs, vd.o), key+":reject", vd.o.pos, "params are rejected without a reason the statement gives")
			}
			continue
		}
		if vd.accept {
			c.ob((isMap == nil || f.Implies(lit(isMap, true))) && f.Implies(lit(hasResult, true)) &&
				(f.Implies(lit(tEq(returns, tNil), true)) || scanned(vd.o, returns, result, true) != nil), key+":result", vd.o.pos, "a message is accepted without its result having been checked against the returns schema")
		} else {
			c.ob(isMap != nil && f.Implies(lit(isMap, false)) || isCall != nil && f.Implies(lit(hasResult, false)) || scanned(vd.o, returns, result, false) != nil, key+":result:reject", vd.o.pos, "a message without params is rejected although its result fits")
		}
	}
	c.ob(na > 0, key+":vacuous", v.fn.Pos(), "nothing is ever accepted")
}

// ---- S05

// declared: 1/0 when the facts tell whether key k is declared under properties.
func (v *scanView) declared(o *Outcome, f *Facts, props, k *Term) int {
	for _, l := range f.lits {
		t := l.t
		if (t.op != OLookupOk && t.op != OLookup) || t.args[1] != k {
			continue
		}
		m := t.args[0]
		if m == props && t.op == OLookupOk {
			if l.val {
				return 1
			}
			return 0
		}
		if v.keysOf(o, m, t.op == OLookup, props) {
			if l.val {
				return 1
			}
			return 0
		}
	}
	return -1
}

// keysOf: the map state m has exactly the keys of the map src: it started
// empty and every iteration over the whole of src put that key (true) in it.
func (v *scanView) keysOf(o *Outcome, m *Term, value bool, src *Term) bool {
	if m.op != OLoopVar {
		return false
	}
	for _, ps := range mapPasses(v.outs, o, func(x *Term) bool { return x == src }) {
		init, ok := ps.loop.init[m]
		if !ok || init.op != OMapInit {
			continue
		}
		good := true
		for _, b := range ps.backs {
			n := b.next[m]
			if n.op != OMapPut || n.args[0] != m || n.args[1] != ps.k || (value && n.args[2] != tTrue) {
				good = false
			}
		}
		if good {
			return true
		}
	}
	return false
}

func checkS05(c *Ctx) {
	c.errorPosOK()
	v := c.scan("ObjectSchema", "Scan")
	key := "S05"
	props, reqs, add := c.fieldOf(v.self, "Properties"), c.fieldOf(v.self, "Requires"), c.fieldOf(v.self, "AdditionalProperties")
	obj := tAssert(v.data, tAnyMap)
	isMap := tTypeIs(v.data, tAnyMap)
	B := types.Typ[types.Bool]
	E := types.NewInterfaceType(nil, nil)
	has := func(m, k *Term) *Term { return mk(OLookupOk, B, "", 0, m, k) }
	val := func(k *Term) *Term { return mk(OLookup, E, "", 0, obj, k) }
	schemaT := props.typ.Underlying().(*types.Map).Elem()
	valueOf := func(e *Event, k *Term) bool { // the event's value is obj[k]
		d := e.args[2]
		return d == val(k) || d.op == ORVal && d.args[0].args[0] == obj && rkeyOf(d) == k
	}
	schemaOf := func(e *Event, k *Term) bool {
		s := e.args[0]
		return s == mk(OLookup, schemaT, "", 0, props, k) || s.op == ORVal && s.args[0].args[0] == props && rkeyOf(s) == k
	}
	keyOf := func(e *Event) *Term { // the property an event judges
		d := e.args[2]
		if d.op == OLookup && d.args[0] == obj {
			return d.args[1]
		}
		if d.op == ORVal && d.args[0].args[0] == obj {
			return rkeyOf(d)
		}
		return nil
	}
	in := func(f *Facts, m, k *Term) int { // key k in map m (obj, props, reqs)
		if k.op == ORKey && k.args[0].args[0] == m {
			return 1
		}
		if m == reqs { // Requires holds true for its keys
			if r := f.Val(mk(OLookup, B, "", 0, reqs, k)); r >= 0 {
				return r
			}
		}
		return f.Val(has(m, k))
	}
	declared := func(o *Outcome, k *Term) int {
		if k.op == ORKey && k.args[0].args[0] == props {
			return 1
		}
		return v.declared(o, o.facts, props, k)
	}
	judged := func(o *Outcome, k *Term, own, accept bool) bool {
		for _, e := range scanEvents(o) {
			if !valueOf(e, k) || !o.facts.Implies(lit(tEq(e.res, tNil), accept)) {
				continue
			}
			if own && schemaOf(e, k) || !own && e.args[0] == add {
				return true
			}
		}
		return false
	}
	// the checked map exists only relative to a path that left the first loop
	c.safeEvents(key+":deref", v.outs, EvDeref, EvIndex, EvAssert)
	for _, o := range v.outs {
		for _, e := range scanEvents(o) {
			k := keyOf(e)
			if !c.ob(k != nil, key+":value", e.pos, "a schema is applied to %s, which is no member of the object", e.args[2]) {
				continue
			}
			eo := *o
			eo.facts = e.facts
			if e.args[0] == add {
				c.ob(declared(&eo, k) == 0, key+":additional", e.pos, "additionalProperties may judge a declared property")
			} else {
				c.ob(schemaOf(e, k), key+":own", e.pos, "a property is judged by %s instead of its own schema", e.args[0])
			}
		}
	}
	is := func(m *Term) func(*Term) bool { return func(x *Term) bool { return x == m } }
	na, nr := 0, 0
	for _, vd := range c.verdicts(key, v.outs) {
		o, f := vd.o, vd.o.facts
		if !vd.accept {
			nr++
			just := f.Implies(lit(isMap, false))
			for _, e := range scanEvents(o) {
				if f.Implies(lit(tEq(e.res, tNil), false)) {
					just = true // which schema judged it is checked above
				}
			}
			for _, l := range f.lits {
				if l.t.op == OLookupOk && l.t.args[0] == obj && !l.val {
					k := l.t.args[1]
					if in(f, reqs, k) == 1 && declared(o, k) == 1 {
						just = true
					}
					if k.op == ORKey && k.args[0].args[0] == reqs {
						just = true
					}
				}
			}
			c.ob(just, key+":reject", o.pos, "an object is rejected without a reason the statement gives")
			continue
		}
		na++
		c.ob(f.Implies(lit(isMap, true)), key+":object", o.pos, "a value that is no object may be accepted")
		okProps, okReq := false, false
		for _, ps := range mapPasses(v.outs, o, is(props)) {
			p, r := true, true
			for _, b := range ps.backs {
				switch in(b.facts, obj, ps.k) {
				case 1:
					p = p && judged(b, ps.k, true, true)
				case 0:
					r = r && in(b.facts, reqs, ps.k) == 0
				default:
					// not looked at: neither judged nor known absent
					p, r = false, r && in(b.facts, reqs, ps.k) == 0
				}
			}
			okProps, okReq = okProps || p, okReq || r
		}
		for _, ps := range mapPasses(v.outs, o, is(obj)) {
			p := true
			for _, b := range ps.backs {
				p = p && (declared(b, ps.k) == 0 || judged(b, ps.k, true, true))
			}
			okProps = okProps || p
		}
		for _, ps := range mapPasses(v.outs, o, is(reqs)) {
			r := true
			for _, b := range ps.backs {
				r = r && in(b.facts, obj, ps.k) == 1
			}
			okReq = okReq || r
		}
		c.ob(okProps, key+":declared", o.pos, "an object is accepted although a declared property may not have been accepted by its own schema")
		c.ob(okReq, key+":required", o.pos, "an object is accepted although a required property may be missing")
		okAdd := f.Implies(lit(tEq(add, tNil), true))
		for _, ps := range mapPasses(v.outs, o, is(obj)) {
			p := true
			for _, b := range ps.backs {
				if b.facts.Implies(lit(tEq(add, tNil), true)) {
					continue
				}
				p = p && (declared(b, ps.k) == 1 || judged(b, ps.k, false, true))
			}
			okAdd = okAdd || p
		}
		c.ob(okAdd, key+":additional:accept", o.pos, "an object is accepted although an undeclared property may not have been accepted by additionalProperties")
	}
	c.ob(na > 0 && nr > 0, key+":vacuous", v.fn.Pos(), "objects are never accepted or never rejected")
}

// rkeyOf: the range key that goes with a range value.
func rkeyOf(v *Term) *Term {
	var kt types.Type
	if m, ok := v.args[0].typ.Underlying().(*types.Map); ok {
		kt = m.Key()
	}
	return mk(ORKey, kt, v.str, 0, v.args[0])
}

// ---- S06

// pushed: the strings appended to base in the slice term s, concatenated; nil
// when s is not base followed by known strings.
func pushed(s, base *Term) *Term {
	S := types.Typ[types.String]
	if s == base {
		return tStr("")
	}
	if s.op == OAppend && s.str == "" && s.args[0] == base {
		r := tStr("")
		for _, x := range s.args[1:] {
			r = tBin(tokADD, r, x, S)
		}
		return r
	}
	return nil
}

// schemaTypes: the concrete types implementing Schema.
func (c *Ctx) schemaTypes() []string {
	it := c.w.Type("jlibschema", "Schema")
	if it == nil {
		c.fatal("anchor:Schema", "interface jlibschema.Schema not found")
	}
	var r []string
	sc := c.w.pkgs["jlibschema"].Pkg.Scope()
	for _, n := range sc.Names() {
		if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
			if _, isI := tn.Type().Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(types.NewPointer(tn.Type()), it.Underlying().(*types.Interface)) {
				r = append(r, n)
			}
		}
	}
	sort.Strings(r)
	c.ob(len(r) >= 12, "schema:types", it.Obj().Pos(), "only %d schema types found", len(r))
	return r
}

func (c *Ctx) pathsField(base *Term) *Term { return c.fieldOf(base, c.pathsName(base)) }

func checkS06(c *Ctx) {
	S := types.Typ[types.String]
	type root struct{ typ, meth string }
	var roots []root
	for _, t := range c.schemaTypes() {
		roots = append(roots, root{t, "Scan"})
	}
	roots = append(roots, root{"MethodSchema", "ScanParams"}, root{"MethodSchema", "ScanResult"})
	for _, r := range roots {
		v := c.scan(r.typ, r.meth)
		key := "S06:" + r.typ + "." + r.meth
		P := c.pathsField(v.validator)
		pa := tFieldAddr(v.validator, c.pathsName(v.validator), types.NewPointer(P.typ))
		at := func(e *Event) *Term { return v.a.at(e, pa, P.typ) }
		returns := "S06:none"
		_ = returns
		for _, o := range v.outs {
			if o.kind == OutPanic {
				c.ob(false, key+":panic", o.pos, "validation may panic (unbalanced path stack)")
				continue
			}
			if o.kind == OutReturn {
				c.ob(o.get(v.a, pa, P.typ) == P, key+":balanced", o.pos, "the path stack after validation is %s instead of what it was before", o.get(v.a, pa, P.typ))
			}
			if o.kind == OutLoop {
				// the loop must not change the stack: it would be a loop variable then
				for lv, cell := range o.loop.cellOf {
					if cell == pa {
						c.ob(o.next[lv] == lv, key+":balanced", o.pos, "an iteration leaves the path stack changed")
					}
				}
			}
			for _, e := range scanEvents(o) {
				got := pushed(at(e), P)
				want := c.stepOf(r.typ, r.meth, v, e)
				ok := false
				for _, w := range want {
					if w == got {
						ok = true
					}
					// equal index terms under the facts
					if got != nil && sameStep(e.facts, w, got) {
						ok = true
					}
				}
				c.ob(ok, key+":step", e.pos, "the path of %s is the entry path followed by %s, expected %v", e.args[2], got, want)
				c.ob(e.args[1] == v.validator, key+":validator", e.pos, "a nested scan uses another validator")
			}
			for _, e := range callsNamed(o.evs, newErrPos) {
				if e.args[0] != v.validator {
					c.ob(false, key+":error", e.pos, "an error is created by another validator")
					continue
				}
				if !e.depthReturned(o) {
					// the error is dropped (not, for instance)
				}
				got := pushed(at(e), P)
				want := []*Term{tStr("")}
				if r.typ == "MethodSchema" {
					want = append(want, tStr(".params"))
				}
				if r.typ == "ObjectSchema" {
					want = nil
					obj := tAssert(v.data, tAnyMap)
					miss := false
					for _, l := range e.facts.lits {
						if l.t.op == OLookupOk && l.t.args[0] == obj && !l.val {
							miss = true
							want = append(want, tBin(tokADD, tStr("."), l.t.args[1], S))
						}
					}
					if !miss {
						want = []*Term{tStr("")}
					}
				}
				ok := false
				for _, w := range want {
					ok = ok || w == got
				}
				c.ob(ok, key+":error", e.pos, "an error is created at the entry path followed by %s, expected %v", got, want)
			}
			// errors built without NewErrorPos
			for _, e := range o.evs {
				if e.kind == EvStore && e.args[0].op == OFieldAddr && strings.HasSuffix(tstr(deref(e.args[0].args[0].typ)), "ErrorPos") && e.args[0].str == c.pathsName(e.args[0].args[0]) {
					ok, src := c.copyOf(v.outs, o, e.args[1])
					c.ob(ok && src != nil && pushed(src, P) != nil, key+":error:direct", e.pos, "an error's path is not a copy of the path stack")
				}
			}
		}
	}
	// NewErrorPos copies the stack
	fn := c.method("jlibschema", "SchemaValidator", "NewErrorPos")
	a := newAnalysis(c.w)
	outs := c.run(a, fn)
	P := c.pathsField(a.Params[0])
	n := 0
	for _, o := range outs {
		if o.kind != OutReturn {
			c.ob(o.kind == OutLoop, "S06:NewErrorPos", o.pos, "creating an error may not return")
			continue
		}
		n++
		if !c.ob(isNil(o.facts, o.rets[0]) == 0, "S06:NewErrorPos", o.pos, "no error is created") {
			continue
		}
		got := c.fget(a, o, o.rets[0], c.pathsName(o.rets[0]))
		ok, src := c.copyOf(outs, o, got)
		c.ob(ok && src == P, "S06:NewErrorPos:copy", o.pos, "the path of the error is not a copy of the path stack (%s)", got)
		c.ob(o.get(a, tFieldAddr(a.Params[0], c.pathsName(a.Params[0]), types.NewPointer(P.typ)), P.typ) == P, "S06:NewErrorPos:stack", o.pos, "creating an error changes the path stack")
	}
	c.ob(n > 0, "S06:NewErrorPos:vacuous", fn.Pos(), "NewErrorPos never returns")
	// Path joins it
	fn = c.method("jlibschema", "ErrorPos", "Path")
	a = newAnalysis(c.w)
	for _, o := range c.run(a, fn) {
		if o.kind != OutReturn {
			c.ob(o.kind == OutLoop, "S06:Path", o.pos, "Path may not return")
			continue
		}
		r := o.rets[0]
		ok := r.op == OCall && r.str2() == "strings.Join" && len(r.args) == 2 && isEmptyStr(r.args[1]) && strings.HasSuffix(r.args[0].String(), "."+c.pathsName(a.Params[0]))
		if r.op == OLoopVar {
			ok = c.concatLoop(a.outs, o, r)
		}
		c.ob(ok, "S06:Path", o.pos, "Path returns %s instead of the concatenation of the steps", r)
	}
	// entry points keep the stack and add nothing
	for _, m := range []string{"Validate", "ValidateBytes", "Scan"} {
		fn := c.method("jlibschema", "SchemaValidator", m)
		a := newAnalysis(c.w, newErrPos)
		outs := c.run(a, fn)
		self := a.Params[0]
		P := c.pathsField(self)
		pa := tFieldAddr(self, c.pathsName(self), types.NewPointer(P.typ))
		k := 0
		for _, o := range outs {
			for _, e := range scanEvents(o) {
				k++
				got := pushed(a.at(e, pa, P.typ), P)
				want := tStr("")
				if m == "Scan" {
					want = a.Params[2]
					if e.facts.Implies(lit(tEq(want, tStr("")), true)) && got == tStr("") {
						got = want
					}
				}
				c.ob(got == want && e.args[1] == self, "S06:"+m, e.pos, "%s starts the validation at %s instead of %s", m, got, want)
				if m == "Scan" || m == "Validate" {
					c.ob(e.args[0] == a.Params[1] && e.args[2] == a.Params[len(a.Params)-1], "S06:"+m+":args", e.pos, "%s applies another schema or another value", m)
				}
			}
			if o.kind == OutReturn {
				c.ob(o.get(a, pa, P.typ) == P, "S06:"+m+":balanced", o.pos, "the path stack is not restored")
				sc := scanEvents(o)
				c.ob(len(sc) == 1 && o.rets[0] == sc[0].res, "S06:"+m+":verdict", o.pos, "the verdict of the schema is not what %s returns", m)
			}
			if o.kind == OutPanic && m != "ValidateBytes" {
				c.ob(false, "S06:"+m+":panic", o.pos, "%s may panic", m)
			}
		}
		c.ob(k > 0, "S06:"+m+":vacuous", fn.Pos(), "%s never applies the schema", m)
	}
}

func (e *Event) depthReturned(o *Outcome) bool { return true }

// sameStep: equal up to index terms the facts equate.
func sameStep(f *Facts, a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op != b.op || a.str != b.str || len(a.args) != len(b.args) {
		return false
	}
	if isIntType(a.typ) && f.Implies(lit(tEq(a, b), true)) {
		return true
	}
	if a.op == OConst || len(a.args) == 0 {
		return false
	}
	for i := range a.args {
		x, y := a.args[i], b.args[i]
		if isIntType(x.typ) && isIntType(y.typ) && f.Implies(lit(tEq(x, y), true)) {
			continue
		}
		if !sameStep(f, x, y) {
			return false
		}
	}
	return true
}

// stepOf: the steps from the value of this scan to the value of a nested scan.
func (c *Ctx) stepOf(typ, meth string, v *scanView, e *Event) []*Term {
	S := types.Typ[types.String]
	br := func(j *Term) *Term {
		return tBin(tokADD, tStr("["), tBin(tokADD, tItoa(j), tStr("]"), S), S)
	}
	d := e.args[2]
	switch typ {
	case "ListSchema", "TupleSchema":
		if d.op == OIndex && d.args[0] == tAssert(v.data, tAnyList) {
			return []*Term{br(d.args[1])}
		}
	case "MethodSchema":
		if meth == "ScanResult" || e.args[0] == c.fieldOf(v.self, "Returns") {
			return []*Term{tStr(".result")}
		}
		if d.op == OIndex {
			return []*Term{tBin(tokADD, tStr(".params"), br(d.args[1]), S)}
		}
	case "ObjectSchema":
		obj := tAssert(v.data, tAnyMap)
		if d.op == OLookup && d.args[0] == obj {
			return []*Term{tBin(tokADD, tStr("."), d.args[1], S)}
		}
		if d.op == ORVal && d.args[0].args[0] == obj {
			return []*Term{tBin(tokADD, tStr("."), rkeyOf(d), S)}
		}
	default:
		if d == v.data {
			return []*Term{tStr("")}
		}
	}
	return nil
}

// copyOf: the slice term t is a fresh copy of another slice; its source.
func (c *Ctx) copyOf(outs []*Outcome, o *Outcome, t *Term) (bool, *Term) {
	switch {
	case t.op == OAppend && t.str == "..." && (t.args[0].op == ONil || t.args[0].op == OSliceLit && len(t.args[0].args) == 0 || isEmptyMake(t.args[0])):
		return true, t.args[1]
	case t.op == OCall && t.str2() == "slices.Clone":
		return true, t.args[0]
	case t.op == OMake:
		for _, e := range callsNamed(o.evs, "builtin copy") {
			if e.args[0] == t && t.args[0] == tLen(e.args[1]) {
				return true, e.args[1]
			}
		}
		// filled element by element
		src := c.filledFrom(outs, o, t)
		return src != nil, src
	case t.op == OLoopVar:
		for _, l := range loopsIn(o) {
			init, ok := l.init[t]
			if !ok {
				continue
			}
			if init.op != ONil && !(init.op == OSliceLit && len(init.args) == 0) && !isEmptyMake(init) {
				return false, nil
			}
			var src *Term
			for _, b := range backsOf(outs, o, l) {
				n := b.next[t]
				if n.op != OAppend || n.str != "" || n.args[0] != t || len(n.args) != 2 || n.args[1].op != OIndex {
					return false, nil
				}
				if src != nil && src != n.args[1].args[0] {
					return false, nil
				}
				src = n.args[1].args[0]
			}
			if src == nil {
				return false, nil
			}
			ok = false
			for _, ps := range passes(outs, o, tLen(src)) {
				if ps.loop.key == l.key && ps.asc {
					ok = true
					for _, b := range ps.backs {
						if b.next[t].args[1].args[1] != ps.idx {
							ok = false
						}
					}
				}
			}
			return ok, src
		}
	}
	if t.op == ONil || isEmptyMake(t) {
		// the empty list on a path where the source is known to be empty
		for _, l := range o.facts.lits {
			var s *Term
			subterms(l.t, func(x *Term) bool {
				if x.op == OLen && o.facts.Implies(lit(tLe(x, tInt(0)), true)) {
					s = x.args[0]
				}
				return true
			})
			if s != nil {
				return true, s
			}
		}
	}
	return false, nil
}

func isEmptyMake(t *Term) bool {
	return t.op == OMake && strings.HasPrefix(t.str, "slice") && t.args[0] == tInt(0) || t.op == OSlice && arrayLen(t.args[0].typ) == 0
}

// filledFrom: make(len(src)) filled with src[i] at every index i.
func (c *Ctx) filledFrom(outs []*Outcome, o *Outcome, t *Term) *Term {
	n := t.args[0]
	if n.op != OLen {
		return nil
	}
	src := n.args[0]
	for _, ps := range passes(outs, o, n) {
		ok := true
		for _, b := range ps.backs {
			hit := false
			for _, e := range b.evs {
				if e.kind == EvStore && e.args[0].op == OIndexAddr && e.args[0].args[0] == t && e.args[0].args[1] == ps.idx && e.args[1] == elem(src, ps.idx) {
					hit = true
				}
			}
			ok = ok && hit
		}
		if ok {
			return src
		}
	}
	return nil
}

// concatLoop: the string loop variable is the concatenation of a whole slice in order.
func (c *Ctx) concatLoop(outs []*Outcome, o *Outcome, t *Term) bool {
	for _, l := range loopsIn(o) {
		init, ok := l.init[t]
		if !ok {
			continue
		}
		if !isEmptyStr(init) {
			return false
		}
		var src *Term
		for _, b := range backsOf(outs, o, l) {
			n := b.next[t]
			if n.op != OBin || n.str != "+s" || n.args[0] != t || n.args[1].op != OIndex {
				return false
			}
			src = n.args[1].args[0]
		}
		if src == nil || !strings.HasSuffix(src.String(), ".paths") {
			return false
		}
		for _, ps := range passes(outs, o, tLen(src)) {
			if ps.loop.key == l.key && ps.asc {
				for _, b := range ps.backs {
					if b.next[t].args[1].args[1] != ps.idx {
						return false
					}
				}
				return true
			}
		}
	}
	return false
}

// ---- S10

// reaches: the memory the term points into belongs to one of the roots.
func reachesRoot(t *Term, roots map[*Term]bool) bool {
	for t != nil {
		if roots[t] {
			return true
		}
		switch t.op {
		case OFieldAddr, OIndexAddr, OMapCell, OCell, ODeref, OField, OIndex, OSlice, OAssert, OMkIface, OLookup, ORVal, OConv, OExtract:
			t = t.args[0]
		case OAppend:
			t = t.args[0]
		case OLoopVar:
			return false
		default:
			return false
		}
	}
	return false
}

func checkS10(c *Ctx) {
	type root struct{ typ, meth string }
	var roots []root
	for _, t := range c.schemaTypes() {
		roots = append(roots, root{t, "Scan"})
	}
	roots = append(roots, root{"MethodSchema", "ScanParams"}, root{"MethodSchema", "ScanResult"}, root{"SchemaValidator", "Validate"}, root{"SchemaValidator", "Scan"}, root{"SchemaValidator", "ValidateBytes"}, root{"SchemaValidator", "NewErrorPos"})
	pure := map[string]bool{schemaScan: true, "(jlibschema.Schema).Map": true, "(jlibschema.Schema).Equal": true, "(jlibschema.Schema).Type": true, "(jlibschema.Schema).GetName": true, "(jlibschema.Schema).GetDescription": true, newErrPos: true, "(*json.Decoder).Decode": true, "bytes.NewReader": true, "json.NewDecoder": true, "(*json.Decoder).UseNumber": true, "json.Marshal": true, "slices.Clone": true, "slices.Contains": true, "reflect.DeepEqual": true, "errors.New": true}
	isPureHere := func(e *Event) bool {
		if pure[e.name] || isPure(e.name) {
			return true
		}
		for _, p := range []string{"fmt.Sprint", "fmt.Errorf", "strings.", "strconv.", "unicode", "math.", "logrus.", "(*logrus.", "errors.", "(json.Number)"} {
			if strings.HasPrefix(e.name, p) {
				return true
			}
		}
		return false
	}
	for _, r := range roots {
		fn := c.method("jlibschema", r.typ, r.meth)
		c.site(fn.Pos(), shortFn(fn))
		a := newAnalysis(c.w)
		outs := c.run(a, fn)
		key := "S10:" + r.typ + "." + r.meth
		frozen := map[*Term]bool{}
		var validator *Term
		for i, p := range a.Params {
			if strings.HasSuffix(tstr(p.typ), "jlibschema.SchemaValidator") {
				validator = p
				continue
			}
			_ = i
			frozen[p] = true
		}
		own := func(t *Term) bool { // local memory or the validator's own
			x := t
			for {
				switch x.op {
				case OAlloc, OMake, ONil, OSliceLit, OStruct, OConst, OZero, OMapInit:
					return true
				case OFieldAddr, OIndexAddr, OCell, OMapCell, OSlice, ODeref, OIndex, OAppend, OField:
					x = x.args[0]
					continue
				case OLoopVar:
					return !isRootedLoop(outs, x, frozen, 0)
				case OOut:
					return true
				}
				return x == validator
			}
		}
		n := 0
		seen := map[string]bool{}
		for _, o := range outs {
			for _, e := range o.evs {
				var tgt *Term
				what := ""
				switch e.kind {
				case EvStore:
					tgt, what = e.args[0], "stores to"
				case EvMapUpdate, EvMapDelete:
					tgt, what = e.args[0], "changes the map"
				case EvAppend:
					tgt, what = e.args[0], "appends in place to"
				case EvSend, EvClose, EvGo:
					c.ob(false, key+":effect", e.pos, "validation has an effect outside its validator: %s", e)
					continue
				case EvCall:
					if e.name == "builtin copy" || e.name == "builtin clear" {
						tgt, what = e.args[0], "overwrites"
						break
					}
					if isPureHere(e) {
						continue
					}
					for _, x := range e.args {
						if reachesRoot(x, frozen) && pointerish(x.typ) {
							c.ob(false, key+":call", e.pos, "validation passes %s to %s, which may modify it", x, e.name)
						}
					}
					continue
				default:
					continue
				}
				k := fmt.Sprint(e.pos, tgt.id)
				if seen[k] {
					continue
				}
				seen[k] = true
				n++
				c.ob(own(tgt), key, e.pos, "validation %s %s, which is not its validator's own", what, tgt)
			}
		}
		c.count("effects_checked", n)
		c.ob(true, key, fn.Pos(), "")
	}
	c.freshValidators()
}

func pointerish(t types.Type) bool {
	if t == nil {
		return true
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Chan:
		return true
	}
	return false
}

// isRootedLoop: a loop variable that may hold memory of a frozen root.
func isRootedLoop(outs []*Outcome, x *Term, frozen map[*Term]bool, d int) bool {
	if d > 4 {
		return true
	}
	bad := func(t *Term) bool {
		if t == x {
			return false
		}
		for t.op == OAppend || t.op == OSlice {
			t = t.args[0]
		}
		if t == x {
			return false
		}
		if t.op == OLoopVar {
			return isRootedLoop(outs, t, frozen, d+1)
		}
		switch t.op {
		case ONil, OAlloc, OMake, OSliceLit, OZero, OConst:
			return false
		}
		return reachesRoot(t, frozen)
	}
	for _, o := range outs {
		for _, l := range loopsIn(o) {
			if i, ok := l.init[x]; ok && bad(i) {
				return true
			}
		}
		if n, ok := o.next[x]; ok && bad(n) {
			return true
		}
	}
	return false
}

// freshValidators: every validator used outside the schema package is made by
// the function that uses it, and used nowhere else.
func (c *Ctx) freshValidators() {
	n := 0
	for _, f := range c.w.funcs {
		if p := fnPkg(f); p == nil || p.Name() == "jlibschema" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := ci.Common().StaticCallee()
				if callee == nil {
					continue
				}
				nm := shortFn(callee)
				if !strings.HasPrefix(nm, "(*jlibschema.SchemaValidator).") {
					continue
				}
				n++
				c.site(in.Pos(), nm)
				why := c.freshValue(f, ci.Common().Args[0], map[ssa.Value]bool{})
				c.ob(why == "", "S10:fresh:"+shortFn(f), in.Pos(), "the validator of this message %s", why)
			}
		}
	}
	c.ob(n > 0, "S10:fresh:vacuous", 0, "the server never validates")
}

func (c *Ctx) freshValue(f *ssa.Function, v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc:
		if esc := storedAway(x); esc {
			return "is stored where other messages can use it"
		}
		return ""
	case *ssa.Call:
		if callee := x.Common().StaticCallee(); callee != nil {
			if storedAway(x) {
				return "is stored where other messages can use it"
			}
			if shortFn(callee) == "jlibschema.NewSchemaValidator" || inModule(callee) {
				return c.freshReturn(callee, seen)
			}
		}
		return "comes from a call"
	case *ssa.Phi:
		for _, e := range x.Edges {
			if w := c.freshValue(f, e, seen); w != "" {
				return w
			}
		}
		return ""
	case *ssa.Parameter:
		// every caller passes a fresh one
		i := -1
		for k, p := range f.Params {
			if p == x {
				i = k
			}
		}
		n := 0
		for _, g := range c.w.funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
						n++
						if w := c.freshValue(g, ci.Common().Args[i], seen); w != "" {
							return w
						}
					}
				}
			}
		}
		if n == 0 {
			return "is a parameter of unknown origin"
		}
		return ""
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			// a local variable: every value stored in it
			if refs := al.Referrers(); refs != nil {
				for _, r := range *refs {
					switch y := r.(type) {
					case *ssa.Store:
						if y.Addr == ssa.Value(al) {
							if w := c.freshValue(f, y.Val, seen); w != "" {
								return w
							}
						}
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						return "is shared with a closure"
					}
				}
			}
			return ""
		}
		return "is loaded from shared memory"
	}
	return "is of unknown origin"
}

func (c *Ctx) freshReturn(f *ssa.Function, seen map[ssa.Value]bool) string {
	if f.Blocks == nil {
		return "comes from unknown code"
	}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
			if w := c.freshValue(f, r.Results[0], seen); w != "" {
				return w
			}
		}
	}
	return ""
}

// storedAway: the pointer is stored in memory other than a local variable.
func storedAway(v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Val == v {
				if al, ok := x.Addr.(*ssa.Alloc); !ok || al.Heap && escapesVar(al) {
					return true
				}
			}
		case *ssa.MapUpdate:
			if x.Value == v {
				return true
			}
		case *ssa.Send:
			return true
		case *ssa.MakeInterface:
			if storedAway(x) {
				return true
			}
			for _, rr := range *x.Referrers() {
				if _, ok := rr.(ssa.CallInstruction); ok {
					return true // e.g. sync.Pool.Put
				}
			}
		}
	}
	return false
}

func escapesVar(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		switch r.(type) {
		case *ssa.Store, *ssa.UnOp, *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}
