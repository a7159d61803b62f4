package main

// Schema building, export and equality: S07, S08, S09, S11, S12.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("S07", "for every path of the schema dispatcher and each keyword of the kind it builds: absent means unset, every well-formed form means set to that value (decision table over the terms stored), nested schemas are built from their own description; error paths carry a malformed or missing part", checkS07)
	register("S08", "for every kind and each of its constraints: on every path where the constraint is set the exported map holds exactly its value under the keyword from which the builder's stored term reads it, and a type the builder maps back to the kind", checkS08)
	register("S09", "true paths of Equal imply same kind and equality of every field (helpers inlined, lists and maps by loop exhaustion), false paths imply a difference in some field; no path dereferences or indexes unchecked", checkS09)
	register("S11", "the value under the keyword properties is never given to a function that reads or fills in schema keywords; its keys are used only by iteration and become the property names", checkS11)
	register("S12", "every path of the YAML conversion keeps scalars, converts every element by recursion and refuses non-string keys; error results of the recursion are propagated", checkS12)
}

// builder functions, found by their shape and the calls between them
type builder struct {
	build    *ssa.Function // (data) entry
	node     map[*ssa.Function]bool
	dispatch *ssa.Function // (map) -> (Schema, error), recursive
	conv     map[*ssa.Function]bool
}

func isEmptyIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// isSchemaIface: the interface jlibschema.Schema
func isSchemaIface(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Schema" && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "jlibschema" && types.IsInterface(n)
}

func isStrMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	b, ok := m.Key().Underlying().(*types.Basic)
	return ok && b.Kind() == types.String && isEmptyIface(m.Elem())
}

// callees of a function inside the module, including closures it makes.
func (w *World) callees(f *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(g *ssa.Function) {
		if g != nil && !seen[g] && inModule(g) {
			seen[g] = true
			r = append(r, g)
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				add(ci.Common().StaticCallee())
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				add(mc.Fn.(*ssa.Function))
			}
		}
	}
	return r
}

func (w *World) reach(from *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{from: true}
	q := []*ssa.Function{from}
	for i := 0; i < len(q); i++ {
		for _, g := range w.callees(q[i]) {
			if !seen[g] {
				seen[g] = true
				q = append(q, g)
			}
		}
	}
	return q
}

// recursive: g may call itself, by whatever way.
func (w *World) recursive(g *ssa.Function) bool {
	for _, h := range w.callees(g) {
		for _, r := range w.reach(h) {
			if r == g {
				return true
			}
		}
	}
	return false
}

// argTypes without the receiver
func argTypes(f *ssa.Function) []types.Type {
	var r []types.Type
	for i := 0; i < f.Signature.Params().Len(); i++ {
		r = append(r, f.Signature.Params().At(i).Type())
	}
	return r
}

func retTypes(f *ssa.Function) []types.Type {
	var r []types.Type
	for i := 0; i < f.Signature.Results().Len(); i++ {
		r = append(r, f.Signature.Results().At(i).Type())
	}
	return r
}

func (c *Ctx) findBuilder() *builder {
	b := &builder{build: c.method("jlibschema", "SchemaBuilder", "Build"), node: map[*ssa.Function]bool{}, conv: map[*ssa.Function]bool{}}
	isSchemaErr := func(f *ssa.Function) bool {
		r := retTypes(f)
		return len(r) == 2 && isSchemaIface(r[0]) && types.Identical(r[1], tErrorType)
	}
	for _, f := range c.w.reach(b.build) {
		ps, rs := argTypes(f), retTypes(f)
		// a piece of a builder that is handed more than a description is no builder of its own
		plain := len(ps) >= 1
		for i, p := range ps {
			plain = plain && (i == 0 || !isStrMap(p) && !isEmptyIface(p) && !isSchemaIface(p))
		}
		if !plain {
			continue
		}
		switch {
		case len(ps) >= 1 && isStrMap(ps[0]) && isSchemaErr(f) && b.dispatch == nil:
			rec := false
			for _, g := range c.w.reach(f)[1:] {
				for _, h := range c.w.callees(g) {
					rec = rec || h == f
				}
			}
			if rec {
				b.dispatch = f
			}
		case len(ps) >= 1 && isEmptyIface(ps[0]) && isSchemaErr(f) && f != b.build && c.w.recursive(f):
			b.node[f] = true
		case len(ps) == 1 && isEmptyIface(ps[0]) && len(rs) == 2 && isStrMap(rs[0]) && isBoolType(rs[1]):
			b.conv[f] = true
		}
	}
	if b.dispatch == nil {
		c.fatal("anchor:dispatch", "no recursive function from a schema description map to a schema is reachable from SchemaBuilder.Build")
	}
	return b
}

// desc: the raw value a converted map or a built schema comes from.
func (b *builder) conversion(t *Term) *Term {
	if t.op == OExtract && t.n == 0 && t.args[0].op == OCall {
		for f := range b.conv {
			if t.args[0].str2() == shortFn(f) {
				return t.args[0].args[0]
			}
		}
	}
	return nil
}

func descArg(f *ssa.Function) int {
	if f.Signature.Recv() != nil {
		return 1
	}
	return 0
}

// builtFrom: t is the schema built from which description (raw value or map)?
func (b *builder) builtFrom(t *Term) *Term {
	if t == nil || t.op != OExtract || t.n != 0 || t.args[0].op != OCall {
		return nil
	}
	call := t.args[0]
	if call.str2() == shortFn(b.dispatch) {
		m := call.args[descArg(b.dispatch)]
		if v := b.conversion(m); v != nil {
			return v
		}
		return m
	}
	for f := range b.node {
		if call.str2() == shortFn(f) {
			return call.args[descArg(f)]
		}
	}
	return nil
}

func (b *builder) opaque() []string {
	r := []string{shortFn(b.dispatch)}
	for f := range b.node {
		r = append(r, shortFn(f))
	}
	for f := range b.conv {
		r = append(r, shortFn(f))
	}
	sort.Strings(r)
	return r
}

var schemaKinds = map[string]string{
	"number": "NumberSchema", "integer": "IntegerSchema", "bool": "BoolSchema", "any": "AnySchema", "null": "NullSchema",
	"string": "StringSchema", "anyOf": "AnyOfSchema", "allOf": "AllOfSchema", "not": "NotSchema", "list": "ListSchema TupleSchema",
	"object": "ObjectSchema", "method": "MethodSchema",
}

// optional scalar constraints: field -> keyword
var scalarKeys = map[string]map[string]string{
	"NumberSchema":  {"Maximum": "maximum", "Minimum": "minimum", "ExclusiveMaximum": "exclusiveMaximum", "ExclusiveMinimum": "exclusiveMinimum"},
	"IntegerSchema": {"Maximum": "maximum", "Minimum": "minimum", "ExclusiveMaximum": "exclusiveMaximum", "ExclusiveMinimum": "exclusiveMinimum"},
	"StringSchema":  {"MaxLength": "maxLength", "MinLength": "minLength"},
	"ListSchema":    {"MaxItems": "maxItems", "MinItems": "minItems"},
}

// nested schemas: field -> keyword
var childKeys = map[string]map[string]string{
	"NotSchema":    {"Child": "not"},
	"ListSchema":   {"Item": "items"},
	"TupleSchema":  {"AdditionalSchema": "additionalItems"},
	"ObjectSchema": {"AdditionalProperties": "additionalProperties"},
	"MethodSchema": {"Returns": "returns", "AdditionalSchema": "additionalParams"},
}
var childListKeys = map[string]map[string]string{
	"AnyOfSchema":  {"Choices": "anyOf"},
	"AllOfSchema":  {"Choices": "allOf"},
	"TupleSchema":  {"Children": "items"},
	"MethodSchema": {"Params": "params"},
}
var childRequired = map[string][]string{
	"AnyOfSchema": {"anyOf"}, "AllOfSchema": {"allOf"}, "NotSchema": {"not"}, "ListSchema": {"items"}, "TupleSchema": {"items"}, "MethodSchema": {"params"},
}

type buildView struct {
	c    *Ctx
	b    *builder
	a    *Analysis
	node *Term
	outs []*Outcome
}

func (v *buildView) at(m *Term, k string) (val, has *Term) {
	E := types.NewInterfaceType(nil, nil)
	return mk(OLookup, E, "", 0, m, tStr(k)), mk(OLookupOk, types.Typ[types.Bool], "", 0, m, tStr(k))
}

type wform struct {
	facts []Lit
	val   *Term
}

// well-formed values of a scalar keyword for a field of element type T
func (v *buildView) forms(val, has *Term, T types.Type, nonneg bool) []wform {
	I, F, B := types.Typ[types.Int], types.Typ[types.Float64], types.Typ[types.Bool]
	jn := v.c.jsonNumber()
	is := func(t types.Type) []Lit { return []Lit{lit(has, true), lit(tTypeIs(val, t), true)} }
	s := tConv(tAssert(val, jn), types.Typ[types.String])
	var r []wform
	switch {
	case isBoolType(T):
		r = []wform{{is(B), tAssert(val, B)}}
	case types.Identical(T.Underlying(), F):
		call := mk(OCall, nil, "strconv.ParseFloat", 0, s, tInt(64))
		r = []wform{{is(I), tConv(tAssert(val, I), F)}, {is(F), tAssert(val, F)},
			{append(is(jn), lit(tEq(tExtract(call, 1, tErrorType), tNil), true)), tExtract(call, 0, F)}}
	default:
		call := mk(OCall, nil, "strconv.ParseInt", 0, s, tInt(10), tInt(64))
		r = []wform{{is(I), tAssert(val, I)},
			{append(is(jn), lit(tEq(tExtract(call, 1, tErrorType), tNil), true)), tExtract(call, 0, types.Typ[types.Int64])}}
		if nonneg {
			for i := range r {
				r[i].facts = append(r[i].facts, lit(tLe(tInt(0), r[i].val), true))
			}
		}
	}
	return r
}

func (c *Ctx) buildView() *buildView {
	b := c.findBuilder()
	v := &buildView{c: c, b: b}
	v.a = newAnalysis(c.w, b.opaque()...)
	v.a.derefs = true
	v.outs = c.runOpaqueSelf(v.a, b.dispatch)
	v.node = v.a.Params[descArg(b.dispatch)]
	return v
}

// runOpaqueSelf analyses fn although fn itself is opaque when called.
func (c *Ctx) runOpaqueSelf(a *Analysis, fn *ssa.Function, params ...*Term) []*Outcome {
	c.site(fn.Pos(), shortFn(fn))
	return c.run(a, fn, params...)
}

func sameNum(f *Facts, a, b *Term) bool {
	if a == b {
		return true
	}
	if a != nil && b != nil && isOrdered(a.typ) && isOrdered(b.typ) {
		return f.Implies(lit(tEq(a, b), true))
	}
	return false
}

func (c *Ctx) structField(typ, field string) types.Type {
	n := c.w.Type("jlibschema", typ)
	if n == nil {
		c.fatal("anchor:type:"+typ, "type jlibschema.%s not found", typ)
	}
	s := structOf(n)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			return s.Field(i).Type()
		}
	}
	c.fatal("anchor:field:"+typ+"."+field, "type %s has no field %s", typ, field)
	return nil
}

// mixin: address of a promoted field of SchemaMixin
func (c *Ctx) mixinAddr(base *Term, field string) *Term {
	mt := c.w.Type("jlibschema", "SchemaMixin")
	if mt == nil {
		c.fatal("anchor:type:SchemaMixin", "type SchemaMixin not found")
	}
	S := types.Typ[types.String]
	field = c.mixinName(field)
	return tFieldAddr(tFieldAddr(base, "SchemaMixin", types.NewPointer(mt)), field, types.NewPointer(S))
}

func checkS07(c *Ctx) {
	c.mixinAccessors()
	v := c.buildView()
	b, node := v.b, v.node
	typ, hasType := v.at(node, "type")
	S := types.Typ[types.String]
	isKind := func(k string) *Term { return tEq(typ, tMkIface(S, tStr(k))) }
	kinds := sortedStrs(schemaKinds)
	succ := map[string]int{}
	pos := b.dispatch.Pos()
	c.safeEvents("S07:safe", v.outs, EvDeref, EvIndex, EvAssert)
	for _, o := range v.outs {
		if o.kind == OutLoop {
			v.childrenOK(o)
			continue
		}
		if !c.ob(o.kind == OutReturn, "S07:ends", o.pos, "building a schema may end in a %s", kindName(o.kind)) {
			continue
		}
		f := o.facts
		errNil := isNil(f, o.rets[1])
		if !c.ob(errNil >= 0, "S07:result", o.pos, "it is not decided whether an error is returned") {
			continue
		}
		kind := ""
		for _, k := range kinds {
			if f.Implies(lit(isKind(k), true)) && f.Implies(lit(hasType, true)) {
				kind = k
			}
		}
		if errNil == 0 {
			c.ob(isNil(f, o.rets[0]) == 1, "S07:noschema", o.pos, "a schema is returned together with an error")
			c.ob(v.justified(o, kind, typ, hasType, isKind), "S07:error", o.pos, "an error is returned for a schema description although nothing in it is known to be missing or malformed (type %q)", kind)
			continue
		}
		if !c.ob(kind != "", "S07:type", o.pos, "a schema is returned although the type is not known to be one of the schema types") {
			continue
		}
		v.childrenOK(o)
		r := o.rets[0]
		if !c.ob(r.op == OMkIface && r.args[0].op == OAlloc, "S07:fresh", o.pos, "the schema returned for type %q is %s, not a newly built one", kind, r) {
			continue
		}
		want := schemaKinds[kind]
		tn := ""
		if n, ok := types.Unalias(deref(r.typ)).(*types.Named); ok {
			tn = n.Obj().Name()
		}
		if kind == "list" {
			items, _ := v.at(node, "items")
			switch f.Val(tTypeIs(items, tAnyList)) {
			case 1:
				want = "TupleSchema"
			case 0:
				want = "ListSchema"
			}
		}
		if !c.ob(tn == want, "S07:kind:"+kind, o.pos, "type %q yields a %s instead of a %s", kind, tn, want) {
			continue
		}
		succ[tn]++
		p := r.args[0]
		v.fields(o, tn, p)
	}
	for _, k := range kinds {
		for _, tn := range strings.Fields(schemaKinds[k]) {
			c.ob(succ[tn] > 0, "S07:kind:"+k, pos, "no path builds a %s for type %q", tn, k)
		}
	}
	v.entry()
	v.guess()
}

func sortedStrs[T any](m map[string]T) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// childrenOK: no failed nested build or conversion on a path that goes on.
func (v *buildView) childrenOK(o *Outcome) {
	c, b := v.c, v.b
	names := b.opaque()
	for _, e := range callsNamed(o.evs, names...) {
		isConv := false
		for f := range b.conv {
			isConv = isConv || e.name == shortFn(f)
		}
		if e.res == nil || e.res.op != OTuple {
			continue
		}
		if isConv {
			c.ob(o.facts.Implies(lit(e.res.args[1], true)), "S07:child", e.pos, "building goes on although a nested description may be no schema")
		} else {
			c.ob(o.facts.Implies(lit(tEq(e.res.args[1], tNil), true)), "S07:child", e.pos, "building goes on although a nested schema may have failed to build")
		}
	}
}

// justified: the facts of an error path show something missing or malformed.
func (v *buildView) justified(o *Outcome, kind string, typ, hasType *Term, isKind func(string) *Term) bool {
	f, b := o.facts, v.b
	if f.Implies(lit(hasType, false)) {
		return true
	}
	if kind == "" {
		for k := range schemaKinds {
			if f.Possible(lit(isKind(k), true)) {
				return false
			}
		}
		return true
	}
	for _, k := range []string{"name", "description"} {
		val, has := v.at(v.node, k)
		if f.Implies(lit(has, true)) && f.Implies(lit(tTypeIs(val, types.Typ[types.String]), false)) {
			return true
		}
	}
	for _, e := range callsNamed(o.evs, b.opaque()...) {
		if e.res == nil || e.res.op != OTuple {
			continue
		}
		r := e.res.args[1]
		if isBoolType(r.typ) && f.Implies(lit(r, false)) || !isBoolType(r.typ) && isNil(f, r) == 0 {
			return true
		}
	}
	keyOK := func(k string, forms []wform) bool { // keyword present and not well-formed
		_, has := v.at(v.node, k)
		if !f.Implies(lit(has, true)) {
			return false
		}
		for _, w := range forms {
			if f.Possible(w.facts...) {
				return false
			}
		}
		return true
	}
	for _, tn := range strings.Fields(schemaKinds[kind]) {
		for _, k := range childRequired[tn] {
			_, has := v.at(v.node, k)
			if f.Implies(lit(has, false)) {
				return true
			}
		}
		for fld, k := range scalarKeys[tn] {
			val, has := v.at(v.node, k)
			if keyOK(k, v.forms(val, has, deref(v.c.structField(tn, fld)), strings.HasSuffix(k, "Length") || strings.HasSuffix(k, "Items"))) {
				return true
			}
		}
		for _, k := range childListKeys[tn] {
			val, has := v.at(v.node, k)
			if tn != "TupleSchema" && keyOK(k, []wform{{facts: []Lit{lit(has, true), lit(tTypeIs(val, tAnyList), true)}}}) {
				return true
			}
		}
	}
	if kind == "object" {
		val, has := v.at(v.node, "properties")
		if keyOK("properties", []wform{{facts: []Lit{lit(has, true), lit(tTypeIs(val, tAnyMap), true)}}}) {
			return true
		}
		req, hasr := v.at(v.node, "requires")
		if keyOK("requires", []wform{{facts: []Lit{lit(hasr, true), lit(tTypeIs(req, tAnyList), true)}}}) {
			return true
		}
		// a required name that is no string, or is not declared
		list := tAssert(req, tAnyList)
		S := types.Typ[types.String]
		for _, l := range f.lits {
			if l.t.op == OTypeIs && !l.val && l.t.typ == types.Type(S) && l.t.args[0].op == OIndex && l.t.args[0].args[0] == list {
				return true
			}
			if l.t.op == OLookupOk && !l.val && v.isPropMap(o, l.t.args[0]) && v.isReqName(o, l.t.args[1]) {
				return true
			}
		}
	}
	return false
}

// isPropMap: the map's keys are exactly the declared property names.
func (v *buildView) isPropMap(o *Outcome, m *Term) bool {
	props, _ := v.at(v.node, "properties")
	src := tAssert(props, tAnyMap)
	if m == src {
		return true
	}
	cl := v.c.coll(v.outs, o, m)
	return cl != nil && (cl.empty || cl.fromMap && cl.src == src && cl.key != nil && cl.key.op == OSym && cl.key.str == "$k")
}

// isReqName: an element of the requires list, as a string.
func (v *buildView) isReqName(o *Outcome, t *Term) bool {
	req, _ := v.at(v.node, "requires")
	list := tAssert(req, tAnyList)
	S := types.Typ[types.String]
	if t.op == OAssert && t.args[0].op == OIndex && t.args[0].args[0] == list {
		return true
	}
	if t.op == OIndex {
		cl := v.c.coll(v.outs, o, t.args[0])
		return cl != nil && !cl.fromMap && cl.src == list && cl.key == nil && cl.val == tAssert(elem(list, phIdx), S)
	}
	return false
}

func (v *buildView) fields(o *Outcome, tn string, p *Term) {
	c, b, node, f := v.c, v.b, v.node, o.facts
	S := types.Typ[types.String]
	for _, m := range []struct{ key, field string }{{"name", "name"}, {"description", "description"}} {
		val, has := v.at(node, m.key)
		got := o.get(v.a, c.mixinAddr(p, m.field), S)
		ok := true
		if f.Possible(lit(has, true)) {
			g := f.assume(lit(has, true))
			ok = g.Implies(lit(tTypeIs(val, S), true)) && got == tAssert(val, S)
		}
		if f.Possible(lit(has, false)) {
			ok = ok && isEmptyStr(got)
		}
		c.ob(ok, "S07:"+m.key, o.pos, "the %s of a %s is %s, not the string given under %q", m.field, tn, got, m.key)
	}
	for _, fld := range sortedStrs(scalarKeys[tn]) {
		k := scalarKeys[tn][fld]
		pt := c.structField(tn, fld)
		got := o.get(v.a, tFieldAddr(p, fld, types.NewPointer(pt)), pt)
		val, has := v.at(node, k)
		if f.Possible(lit(has, false)) {
			c.ob(isNil(f.assume(lit(has, false)), got) == 1, "S07:"+tn+"."+fld+":absent", o.pos, "%s of a %s may be set although %q is absent", fld, tn, k)
		}
		nonneg := strings.HasSuffix(k, "Length") || strings.HasSuffix(k, "Items")
		for _, w := range v.forms(val, has, deref(pt), nonneg) {
			if !f.Possible(w.facts...) {
				continue
			}
			g := f.assume(w.facts...)
			ok := isNil(g, got) == 0 && got.op != ONil
			var stored *Term
			if ok {
				stored = o.get(v.a, got, deref(pt))
				ok = stored == w.val || sameNum(g, stored, w.val) || isBoolType(deref(pt)) && g.Val(stored) >= 0 && g.Val(stored) == g.Val(w.val)
			}
			c.ob(ok, "S07:"+tn+"."+fld, o.pos, "%q is well-formed but %s of the %s holds %s instead of %s", k, fld, tn, stored, w.val)
		}
	}
	for _, fld := range sortedStrs(childKeys[tn]) {
		k := childKeys[tn][fld]
		ft := c.structField(tn, fld)
		got := o.get(v.a, tFieldAddr(p, fld, types.NewPointer(ft)), ft)
		val, has := v.at(node, k)
		if f.Possible(lit(has, true)) {
			c.ob(b.builtFrom(got) == val, "S07:"+tn+"."+fld, o.pos, "%s of a %s is %s, not the schema built from %q", fld, tn, got, k)
		}
		if f.Possible(lit(has, false)) && k != "returns" {
			c.ob(isNil(f.assume(lit(has, false)), got) == 1, "S07:"+tn+"."+fld+":absent", o.pos, "%s of a %s may be set although %q is absent", fld, tn, k)
		}
		if k == "returns" && f.Possible(lit(has, false)) {
			c.ob(isNil(f, got) == 1 || v.isAny(o, got), "S07:"+tn+"."+fld+":absent", o.pos, "without a returns description the result is constrained by %s", got)
		}
	}
	for _, fld := range sortedStrs(childListKeys[tn]) {
		k := childListKeys[tn][fld]
		ft := c.structField(tn, fld)
		got := o.get(v.a, tFieldAddr(p, fld, types.NewPointer(ft)), ft)
		val, has := v.at(node, k)
		list := tAssert(val, tAnyList)
		ok := f.Implies(lit(has, true)) && f.Implies(lit(tTypeIs(val, tAnyList), true))
		if ok {
			ok = v.listOf(o, got, list, func(x *Term) bool { return b.builtFrom(x) == elem(list, phIdx) })
		}
		c.ob(ok, "S07:"+tn+"."+fld, o.pos, "%s of a %s is not the list of the schemas built from each element of %q in order", fld, tn, k)
	}
	if tn == "ObjectSchema" {
		val, has := v.at(node, "properties")
		src := tAssert(val, tAnyMap)
		got := v.mapField(o, p, tn, "Properties")
		cl := c.coll(v.outs, o, got)
		if f.Possible(lit(has, true)) {
			ok := cl != nil && f.assume(lit(has, true)).Implies(lit(tTypeIs(val, tAnyMap), true))
			if ok && cl.empty {
				ok = f.Implies(lit(tLe(tLen(src), tInt(0)), true))
			} else if ok {
				ok = cl.fromMap && cl.src == src && cl.key != nil && cl.key.str == "$k" && cl.key.op == OSym && b.builtFrom(cl.val) != nil && b.builtFrom(cl.val).op == OSym && b.builtFrom(cl.val).str == "$v"
			}
			c.ob(ok, "S07:properties", o.pos, "Properties is not the map from each name under \"properties\" to the schema built from its description")
		}
		if f.Possible(lit(has, false)) {
			c.ob(cl != nil && cl.empty, "S07:properties:absent", o.pos, "Properties may be non-empty without \"properties\"")
		}
		// requires
		req, hasr := v.at(node, "requires")
		list := tAssert(req, tAnyList)
		got = v.mapField(o, p, tn, "Requires")
		cl = c.coll(v.outs, o, got)
		if f.Possible(lit(hasr, true)) {
			ok := cl != nil && f.assume(lit(hasr, true)).Implies(lit(tTypeIs(req, tAnyList), true))
			if ok && cl.empty {
				ok = f.assume(lit(hasr, true)).Implies(lit(tLe(tLen(list), tInt(0)), true))
			} else if ok {
				ok = !cl.fromMap && cl.src == list && cl.key == tAssert(elem(list, phIdx), S) && cl.val == tTrue
			}
			c.ob(ok, "S07:requires", o.pos, "Requires is not the set of the names listed under \"requires\"")
			// each of them is declared
			decl := false
			for _, l := range loopsIn(o) {
				bs := backsOf(v.outs, o, l)
				n := 0
				for _, bk := range bs {
					for _, e := range bk.evs {
						if e.kind == EvMapUpdate && v.isReqName(bk, e.args[1]) {
							for _, fl := range bk.facts.lits {
								if fl.val && fl.t.op == OLookupOk && v.isPropMap(o, fl.t.args[0]) && v.isReqName(bk, fl.t.args[1]) {
									n++
									break
								}
							}
						}
					}
				}
				decl = decl || len(bs) > 0 && n >= len(bs)
			}
			c.ob(decl || ok && cl.empty, "S07:requires:declared", o.pos, "a required name may not be declared under \"properties\"")
		}
		if f.Possible(lit(hasr, false)) {
			c.ob(cl != nil && cl.empty, "S07:requires:absent", o.pos, "Requires may be non-empty without \"requires\"")
		}
	}
}

// isAny: the schema accepts everything: built from a fresh description of type any.
func (v *buildView) isAny(o *Outcome, t *Term) bool {
	m := v.b.builtFrom(t)
	if m == nil {
		return t.op == OMkIface && strings.HasSuffix(tstr(deref(t.typ)), "AnySchema")
	}
	for _, e := range o.evs {
		if e.kind == EvMapUpdate && e.args[0] == m && e.args[1] == tStr("type") && e.args[2] == tMkIface(types.Typ[types.String], tStr("any")) {
			return m.op == OMake
		}
	}
	return false
}

// listOf: got lists, for each element of src in order, a term with p (over $i).
func (v *buildView) listOf(o *Outcome, got, src *Term, p func(x *Term) bool) bool {
	cl := v.c.coll(v.outs, o, got)
	if cl == nil {
		return false
	}
	if cl.empty {
		return o.facts.Implies(lit(tLe(tLen(src), tInt(0)), true))
	}
	return !cl.fromMap && cl.key == nil && cl.src == src && p(cl.val)
}

// mapField: content of a map field at the end of the path.
func (v *buildView) mapField(o *Outcome, p *Term, tn, fld string) *Term {
	ft := v.c.structField(tn, fld)
	m := o.get(v.a, tFieldAddr(p, fld, types.NewPointer(ft)), ft)
	return v.a.mapState(&State{heap: o.heap, vers: o.vers}, m)
}

// entry: Build and the node functions pass the converted description on unchanged.
func (v *buildView) entry() {
	c, b := v.c, v.b
	var fs []*ssa.Function
	for f := range b.node {
		fs = append(fs, f)
	}
	fs = append(fs, b.build)
	sort.Slice(fs, func(i, j int) bool { return shortFn(fs[i]) < shortFn(fs[j]) })
	for _, f := range fs {
		a := newAnalysis(c.w, b.opaque()...)
		outs := c.runOpaqueSelf(a, f)
		data := a.Params[descArg(f)]
		n := 0
		for _, o := range outs {
			if o.kind != OutReturn {
				c.ob(false, "S07:entry", o.pos, "%s may end in a %s", shortFn(f), kindName(o.kind))
				continue
			}
			switch isNil(o.facts, o.rets[1]) {
			case 0:
				ok := false
				for _, e := range callsNamed(o.evs, b.opaque()...) {
					r := e.res.args[1]
					ok = ok || isBoolType(r.typ) && o.facts.Implies(lit(r, false)) || !isBoolType(r.typ) && isNil(o.facts, r) == 0
				}
				c.ob(ok, "S07:entry", o.pos, "%s fails although the description converts and builds", shortFn(f))
			default:
				n++
				c.ob(b.builtFrom(o.rets[0]) == data, "S07:entry", o.pos, "%s returns %s, not the schema built from its description", shortFn(f), o.rets[0])
				if isNil(o.facts, o.rets[1]) < 0 {
					ex := o.rets[1]
					c.ob(ex.op == OExtract && o.rets[0].op == OExtract && ex.args[0] == o.rets[0].args[0], "S07:entry", o.pos, "%s returns %s as the error of building", shortFn(f), ex)
				}
				for _, e := range callsNamed(o.evs, b.opaque()...) {
					if r := e.res.args[1]; isBoolType(r.typ) {
						c.ob(o.facts.Implies(lit(r, true)), "S07:entry", e.pos, "%s builds from a description that is no schema", shortFn(f))
					}
				}
			}
		}
		c.ob(n > 0, "S07:entry", f.Pos(), "%s never returns a schema", shortFn(f))
	}
	// bytes: the decoded value, or the decoding error
	for _, name := range []string{"BuildBytes"} {
		f := c.method("jlibschema", "SchemaBuilder", name)
		a := newAnalysis(c.w, append(b.opaque(), shortFn(b.build))...)
		outs := c.runOpaqueSelf(a, f)
		n := 0
		for _, o := range outs {
			if o.kind != OutReturn {
				continue
			}
			dec := callsNamed(o.evs, "(*json.Decoder).Decode", "json.Unmarshal")
			if !c.ob(len(dec) == 1, "S07:bytes", o.pos, "%s does not decode its input once", name) {
				continue
			}
			e := dec[0]
			if isNil(o.facts, e.res) == 0 {
				c.ob(isNil(o.facts, o.rets[1]) == 0 && isNil(o.facts, o.rets[0]) == 1, "S07:bytes", o.pos, "%s does not report malformed JSON", name)
				continue
			}
			n++
			bs := callsNamed(o.evs, append(b.opaque(), shortFn(b.build))...)
			ok := len(bs) == 1 && bs[0].args[1].op == OOut && (o.rets[0] == bs[0].res.args[0] && o.rets[1] == bs[0].res.args[1])
			c.ob(ok, "S07:bytes", o.pos, "%s does not return what Build makes of the decoded value", name)
		}
		c.ob(n > 0, "S07:bytes", f.Pos(), "%s never builds", name)
	}
}

var shorthand = []string{"string", "number", "integer", "bool", "null"}

// guess: the conversion of a raw value to a description.
func (v *buildView) guess() {
	c, b := v.c, v.b
	S := types.Typ[types.String]
	for f := range b.conv {
		a := newAnalysis(c.w)
		a.recurse = 0
		outs := c.runOpaqueSelf(a, f)
		data := a.Params[descArg(f)]
		isStr, isMap := tTypeIs(data, S), tTypeIs(data, tAnyMap)
		str, m := tAssert(data, S), tAssert(data, tAnyMap)
		_, hasType := v.at(m, "type")
		seen := map[string]bool{}
		sawMap := false
		for _, o := range outs {
			fc := o.facts
			// writes into the description only fill in a missing type
			for _, e := range o.evs {
				if e.kind != EvMapUpdate || e.args[0].op == OMake || e.args[0].op == OAlloc {
					continue
				}
				okw := e.args[0] == m && e.args[1] == tStr("type") && e.facts.Implies(lit(hasType, false))
				if okw {
					okw = false
					want := e.args[2]
					for kw, tp := range map[string]string{"params": "method", "properties": "object", "anyOf": "anyOf", "allOf": "allOf", "not": "not"} {
						_, has := v.at(m, kw)
						if want == tMkIface(S, tStr(tp)) && e.facts.Implies(lit(has, true)) {
							okw = true
						}
					}
				}
				c.ob(okw, "S07:guess", e.pos, "the description is changed: %s = %s", e.args[1], e.args[2])
			}
			if o.kind != OutReturn {
				continue
			}
			switch fc.Val(o.rets[1]) {
			case 1:
				if o.rets[0] == m {
					sawMap = true
					c.ob(fc.Implies(lit(isMap, true)), "S07:guess", o.pos, "a value that is no object is used as a description")
					continue
				}
				ok := false
				ms := a.mapState(&State{heap: o.heap, vers: o.vers}, o.rets[0])
				got, has := a.lookup(ms, tStr("type"), types.NewInterfaceType(nil, nil))
				if fc.Implies(lit(isStr, true)) && has == tTrue {
					for _, k := range shorthand {
						if fc.Implies(lit(tEq(str, tStr(k)), true)) && (got == tMkIface(S, str) || got == tMkIface(S, tStr(k))) {
							ok = true
							seen[k] = true
						}
					}
				}
				c.ob(ok, "S07:guess", o.pos, "%s turns %s into the description %s", shortFn(f), data, o.rets[0])
			case 0:
				short := false
				for _, k := range shorthand {
					short = short || fc.Possible(lit(isStr, true), lit(tEq(str, tStr(k)), true))
				}
				c.ob(fc.Implies(lit(isMap, false)) && !short, "S07:guess", o.pos, "%s refuses a description", shortFn(f))
			default:
				c.ob(false, "S07:guess", o.pos, "%s does not decide whether the value is a description", shortFn(f))
			}
		}
		for _, k := range shorthand {
			c.ob(seen[k], "S07:guess:"+k, f.Pos(), "the type name %q is not accepted as a description", k)
		}
		c.ob(sawMap, "S07:guess", f.Pos(), "%s never accepts an object", shortFn(f))
	}
}

func checkS11(c *Ctx) {
	v := c.buildView()
	props, hasP := v.at(v.node, "properties")
	src := tAssert(props, tAnyMap)
	isProps := func(t *Term) bool {
		for t != nil && (t.op == OMkIface || t.op == OAssert) {
			if t == src {
				return true
			}
			t = t.args[0]
		}
		return t == props
	}
	n := 0
	for _, o := range v.outs {
		for _, e := range o.evs {
			switch e.kind {
			case EvCall:
				for _, x := range e.args {
					c.ob(!isProps(x), "S11:converted", e.pos, "the map of properties is given to %s, which reads its names as keywords", e.name)
				}
				if b := v.b.conversion(tExtract0(e.res)); b != nil {
					n++
				}
			case EvMapUpdate, EvMapDelete:
				c.ob(!isProps(e.args[0]) && !(e.args[0] == v.node && e.args[1] == tStr("properties")), "S11:changed", e.pos, "the map of properties is changed while building")
			}
		}
		for _, l := range o.facts.lits {
			if (l.t.op == OLookupOk || l.t.op == OLookup) && isProps(l.t.args[0]) {
				c.ob(l.t.args[1].op != OConst, "S11:keyword", o.pos, "the property name %s decides how the schema is built", l.t.args[1])
			}
		}
		if o.kind == OutReturn && isNil(o.facts, o.rets[1]) == 1 && o.facts.Implies(lit(hasP, true)) && o.rets[0].op == OMkIface && strings.HasSuffix(tstr(deref(o.rets[0].typ)), ".ObjectSchema") {
			got := v.mapField(o, o.rets[0].args[0], "ObjectSchema", "Properties")
			cl := c.coll(v.outs, o, got)
			ok := cl != nil && (cl.empty || cl.fromMap && cl.src == src && cl.key != nil && cl.key.op == OSym && cl.key.str == "$k")
			c.ob(ok, "S11:names", o.pos, "the property names of the schema are not the keys under \"properties\"")
			if ok && !cl.empty {
				n++
				bf := v.b.builtFrom(cl.val)
				c.ob(bf != nil && bf.op == OSym && bf.str == "$v", "S11:own", o.pos, "a property's schema is not built from its own description")
			}
		}
	}
	c.ob(n > 0, "S11:vacuous", v.b.dispatch.Pos(), "no properties are ever built")
}

func tExtract0(t *Term) *Term {
	if t != nil && t.op == OTuple && len(t.args) > 0 {
		return t.args[0]
	}
	return tNil
}

// ---- S08

func (c *Ctx) selfView(tn, meth string, opaque ...string) (*Analysis, *ssa.Function, *Term, []*Outcome) {
	fn := c.method("jlibschema", tn, meth)
	c.site(fn.Pos(), shortFn(fn))
	n := c.w.Type("jlibschema", tn)
	p := tSym("self", types.NewPointer(n))
	a := newAnalysis(c.w, opaque...)
	a.derefs = true
	self := p
	if _, isP := fn.Params[0].Type().Underlying().(*types.Pointer); !isP {
		self = mk(ODeref, n, "", 0, p)
	}
	params := []*Term{self}
	for _, q := range fn.Params[1:] {
		params = append(params, tSym(q.Name(), q.Type()))
	}
	a.facts0 = []Lit{lit(tEq(p, tNil), false)}
	outs := c.run(a, fn, params...)
	return a, fn, self, outs
}

// fld: a field of the receiver, however it is passed.
func (c *Ctx) fld(self *Term, tn, field string) *Term {
	n := c.w.Type("jlibschema", tn)
	s := structOf(n)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			if _, isP := self.typ.Underlying().(*types.Pointer); isP {
				return pfield(self, field, s.Field(i).Type())
			}
			return tField(self, field, i, s.Field(i).Type())
		}
	}
	c.fatal("anchor:field:"+tn+"."+field, "type %s has no field %s", tn, field)
	return nil
}

func (c *Ctx) mixinFld(self *Term, tn, field string) *Term {
	mix := c.fld(self, tn, "SchemaMixin")
	s := structOf(mix.typ)
	field = c.mixinName(field)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			if mix.op == ODeref {
				return pfield(mix.args[0], field, s.Field(i).Type())
			}
			return tField(mix, field, i, s.Field(i).Type())
		}
	}
	c.fatal("anchor:field:"+field, "SchemaMixin has no field %s", field)
	return nil
}

func checkS08(c *Ctx) {
	E := types.NewInterfaceType(nil, nil)
	S := types.Typ[types.String]
	schemaMap := "(jlibschema.Schema).Map"
	var kindOf = map[string]string{}
	for k, tns := range schemaKinds {
		for _, tn := range strings.Fields(tns) {
			kindOf[tn] = k
		}
	}
	isMapOf := func(t, s *Term) bool { // t is s.Map()
		return t != nil && t.op == OCall && t.str2() == schemaMap && t.args[0] == s
	}
	unwrap := func(t *Term) *Term {
		if t != nil && t.op == OMkIface {
			return t.args[0]
		}
		return t
	}
	tns := c.schemaTypes()
	for _, tn := range tns {
		kind, known := kindOf[tn]
		if !c.ob(known, "S08:"+tn, c.w.Type("jlibschema", tn).Obj().Pos(), "no schema type is known to build a %s", tn) {
			continue
		}
		a, fn, self, outs := c.selfView(tn, "Map", schemaMap)
		c.safeEvents("S08:safe", outs, EvDeref, EvIndex, EvAssert)
		n := 0
		for _, o := range outs {
			if o.kind == OutLoop {
				continue
			}
			if !c.ob(o.kind == OutReturn, "S08:"+tn+":ends", o.pos, "exporting a %s may end in a %s", tn, kindName(o.kind)) {
				continue
			}
			n++
			f := o.facts
			ms := a.mapState(&State{heap: o.heap, vers: o.vers}, o.rets[0])
			at := func(k string) (v, ok *Term) { return a.lookup(ms, tStr(k), E) }
			tv, tok := at("type")
			c.ob(tok == tTrue && tv == tMkIface(S, tStr(kind)), "S08:"+tn+":type", o.pos, "the exported type of a %s is %s instead of %q", tn, tv, kind)
			// must: when the facts hold, the keyword holds a value with p
			must := func(k string, fs []Lit, what string, p func(v *Term, f *Facts) bool) {
				if !f.Possible(fs...) {
					return
				}
				g := f.assume(fs...)
				v, ok := at(k)
				c.ob(g.Implies(lit(ok, true)) && p(v, g), "S08:"+tn+":"+k, o.pos, "%s of a %s is exported under %q as %s", what, tn, k, v)
			}
			mustNot := func(k string, fs []Lit, what string) {
				if !f.Possible(fs...) {
					return
				}
				_, ok := at(k)
				c.ob(f.assume(fs...).Implies(lit(ok, false)), "S08:"+tn+":"+k+":absent", o.pos, "%q is exported although %s of the %s is not set", k, what, tn)
			}
			for _, m := range []string{"name", "description"} {
				x := c.mixinFld(self, tn, m)
				must(m, []Lit{lit(tEq(x, tStr("")), false)}, m, func(v *Term, g *Facts) bool { return v == tMkIface(S, x) })
			}
			for _, fld := range sortedStrs(scalarKeys[tn]) {
				k := scalarKeys[tn][fld]
				p := c.fld(self, tn, fld)
				val := mk(ODeref, deref(p.typ), "", 0, p)
				fs := []Lit{lit(tEq(p, tNil), false)}
				if strings.HasPrefix(fld, "Exclusive") { // in effect only with its bound
					fs = append(fs, lit(tEq(c.fld(self, tn, strings.TrimPrefix(fld, "Exclusive")), tNil), false), lit(val, true))
				}
				must(k, fs, fld, func(v *Term, g *Facts) bool {
					x := unwrap(v)
					return x == val || isBoolType(val.typ) && x != nil && isBoolType(x.typ) && g.Val(x) == 1 || sameNum(g, x, val)
				})
				if !strings.HasPrefix(fld, "Exclusive") {
					mustNot(k, []Lit{lit(tEq(p, tNil), true)}, fld)
				} else if bf := c.fld(self, tn, strings.TrimPrefix(fld, "Exclusive")); f.Possible(lit(tEq(bf, tNil), false), lit(tEq(p, tNil), true)) || f.Possible(lit(tEq(bf, tNil), false), lit(tEq(p, tNil), false), lit(val, false)) {
					// flag not set: absent or false
					for _, fs := range [][]Lit{{lit(tEq(bf, tNil), false), lit(tEq(p, tNil), true)}, {lit(tEq(bf, tNil), false), lit(tEq(p, tNil), false), lit(val, false)}} {
						if !f.Possible(fs...) {
							continue
						}
						g := f.assume(fs...)
						v, ok := at(k)
						x := unwrap(v)
						c.ob(g.Implies(lit(ok, false)) || x != nil && isBoolType(x.typ) && g.Val(x) == 0, "S08:"+tn+":"+k+":off", o.pos, "%q is exported as set although %s is not", k, fld)
					}
				}
			}
			for _, fld := range sortedStrs(childKeys[tn]) {
				k := childKeys[tn][fld]
				x := c.fld(self, tn, fld)
				must(k, []Lit{lit(tEq(x, tNil), false)}, fld, func(v *Term, g *Facts) bool { return isMapOf(unwrap(v), x) })
				if k != "items" && k != "not" {
					mustNot(k, []Lit{lit(tEq(x, tNil), true)}, fld)
				}
			}
			for _, fld := range sortedStrs(childListKeys[tn]) {
				k := childListKeys[tn][fld]
				x := c.fld(self, tn, fld)
				must(k, nil, fld, func(v *Term, g *Facts) bool {
					l := unwrap(v)
					cl := c.coll(outs, o, l)
					if cl == nil {
						return false
					}
					if cl.empty {
						return g.Implies(lit(tLe(tLen(x), tInt(0)), true))
					}
					return !cl.fromMap && cl.key == nil && cl.src == x && isMapOf(unwrap(cl.val), elem(x, phIdx))
				})
			}
			if tn == "ObjectSchema" {
				props, reqs := c.fld(self, tn, "Properties"), c.fld(self, tn, "Requires")
				must("properties", nil, "Properties", func(v *Term, g *Facts) bool {
					cl := c.coll(outs, o, a.mapState(&State{heap: o.heap, vers: o.vers}, unwrap(v)))
					if cl == nil || cl.empty {
						return cl != nil && g.Implies(lit(tLe(tLen(props), tInt(0)), true))
					}
					x := unwrap(cl.val)
					return cl.fromMap && cl.src == props && cl.key != nil && cl.key.op == OSym && cl.key.str == "$k" &&
						x.op == OCall && x.str2() == schemaMap && x.args[0].op == OSym && x.args[0].str == "$v"
				})
				must("requires", nil, "Requires", func(v *Term, g *Facts) bool {
					l := unwrap(v)
					cl := c.coll(outs, o, l)
					if cl == nil || cl.empty {
						return cl != nil && g.Implies(lit(tLe(tLen(reqs), tInt(0)), true))
					}
					x := unwrap(cl.val)
					return cl.fromMap && cl.key == nil && cl.src == reqs && x.op == OSym && x.str == "$k"
				})
			}
		}
		c.ob(n > 0, "S08:"+tn+":vacuous", fn.Pos(), "exporting a %s never returns", tn)
	}
	c.count("kinds", len(tns))
}

// ---- S09

func checkS09(c *Ctx) {
	eqName := "(jlibschema.Schema).Equal"
	tns := c.schemaTypes()
	for _, tn := range tns {
		a, fn, self, outs := c.selfView(tn, "Equal", eqName)
		_ = a
		c.safeEvents("S09:safe:"+tn, outs, EvDeref, EvIndex, EvAssert)
		other := tSym(fn.Params[1].Name(), fn.Params[1].Type())
		nt := c.w.Type("jlibschema", tn)
		pt := types.NewPointer(nt)
		isK := tTypeIs(other, pt)
		op := tAssert(other, pt)
		type fpair struct {
			name   string
			typ    types.Type
			a, b   *Term
			schema bool
		}
		var fs []fpair
		s := structOf(nt)
		for i := 0; i < s.NumFields(); i++ {
			fd := s.Field(i)
			if fd.Name() == "SchemaMixin" {
				for _, m := range []string{"name", "description"} {
					fs = append(fs, fpair{m, types.Typ[types.String], c.mixinFld(self, tn, m), c.mixinFld(op, tn, m), false})
				}
				continue
			}
			fs = append(fs, fpair{fd.Name(), fd.Type(), c.fld(self, tn, fd.Name()), c.fld(op, tn, fd.Name()), false})
		}
		called := func(o *Outcome, x, y *Term, val bool) bool {
			for _, l := range o.facts.lits {
				if t := l.t; t.op == OCall && t.str2() == eqName && l.val == val && (t.args[0] == x && t.args[1] == y || t.args[0] == y && t.args[1] == x) {
					return true
				}
			}
			return false
		}
		elemEq := func(o *Outcome, x, y *Term, val bool) bool {
			if isSchemaIface(x.typ) {
				return called(o, x, y, val)
			}
			if vx, vy := o.facts.Val(x), o.facts.Val(y); isBoolType(x.typ) && vx >= 0 && vy >= 0 {
				return (vx == vy) == val
			}
			return o.facts.Implies(lit(tEq(x, y), val))
		}
		same := func(o *Outcome, p fpair) bool {
			f := o.facts
			switch u := p.typ.Underlying().(type) {
			case *types.Basic:
				return f.Implies(lit(tEq(p.a, p.b), true))
			case *types.Pointer:
				an, bn := isNil(f, p.a), isNil(f, p.b)
				if an == 1 && bn == 1 {
					return true
				}
				da, db := mk(ODeref, u.Elem(), "", 0, p.a), mk(ODeref, u.Elem(), "", 0, p.b)
				if f.Implies(lit(tEq(p.a, p.b), true)) {
					return true
				}
				return an == 0 && bn == 0 && (f.Implies(lit(tEq(da, db), true)) || isBoolType(u.Elem()) && f.Val(da) >= 0 && f.Val(da) == f.Val(db))
			case *types.Interface:
				return isNil(f, p.a) == 1 && isNil(f, p.b) == 1 || isNil(f, p.a) == 0 && isNil(f, p.b) == 0 && called(o, p.a, p.b, true)
			case *types.Slice:
				if isNil(f, p.a) == 1 && isNil(f, p.b) == 1 {
					return true
				}
				return f.Implies(lit(tEq(tLen(p.a), tLen(p.b)), true)) && forAll(outs, o, tLen(p.a), func(b *Outcome, i *Term) bool {
					return elemEq(b, elem(p.a, i), elem(p.b, i), true)
				})
			case *types.Map:
				if isNil(f, p.a) == 1 && isNil(f, p.b) == 1 {
					return true
				}
				if !f.Implies(lit(tEq(tLen(p.a), tLen(p.b)), true)) {
					return false
				}
				for _, xy := range [][2]*Term{{p.a, p.b}, {p.b, p.a}} {
					for _, ps := range mapPasses(outs, o, func(m *Term) bool { return m == xy[0] }) {
						ok := true
						for _, b := range ps.backs {
							has := mk(OLookupOk, types.Typ[types.Bool], "", 0, xy[1], ps.k)
							y := mk(OLookup, u.Elem(), "", 0, xy[1], ps.k)
							ok = ok && b.facts.Implies(lit(has, true)) && elemEq(b, ps.v, y, true)
						}
						if ok {
							return true
						}
					}
				}
				return false
			}
			return false
		}
		differs := func(o *Outcome, p fpair) bool {
			f := o.facts
			if an, bn := isNil(f, p.a), isNil(f, p.b); an >= 0 && bn >= 0 && an != bn && !isBasic(p.typ) {
				return true
			}
			switch u := p.typ.Underlying().(type) {
			case *types.Basic:
				return f.Implies(lit(tEq(p.a, p.b), false))
			case *types.Pointer:
				da, db := mk(ODeref, u.Elem(), "", 0, p.a), mk(ODeref, u.Elem(), "", 0, p.b)
				return isNil(f, p.a) == 0 && isNil(f, p.b) == 0 && (f.Implies(lit(tEq(da, db), false)) || isBoolType(u.Elem()) && f.Val(da) >= 0 && f.Val(db) >= 0 && f.Val(da) != f.Val(db))
			case *types.Interface:
				return called(o, p.a, p.b, false)
			case *types.Slice:
				if f.Implies(lit(tEq(tLen(p.a), tLen(p.b)), false)) {
					return true
				}
				return existsIn(outs, o, p.a, func(b *Outcome, i *Term) bool { return elemEq(b, elem(p.a, i), elem(p.b, i), false) })
			case *types.Map:
				if f.Implies(lit(tEq(tLen(p.a), tLen(p.b)), false)) {
					return true
				}
				for _, l := range f.lits {
					for _, xy := range [][2]*Term{{p.a, p.b}, {p.b, p.a}} {
						if l.t.op == OLookupOk && !l.val && l.t.args[0] == xy[1] && l.t.args[1].op == ORKey && l.t.args[1].args[0].args[0] == xy[0] {
							return true
						}
						if l.t.op == ORangeOk && l.val && l.t.args[0].args[0] == xy[0] {
							x, k := rangeVal(l.t), rangeKey(l.t)
							if elemEq(o, x, mk(OLookup, u.Elem(), "", 0, xy[1], k), false) {
								return true
							}
						}
					}
				}
			}
			return false
		}
		nt1, nf := 0, 0
		for _, o := range outs {
			if o.kind == OutLoop {
				continue
			}
			if !c.ob(o.kind == OutReturn, "S09:"+tn+":ends", o.pos, "comparing a %s may end in a %s", tn, kindName(o.kind)) {
				continue
			}
			for _, yes := range []bool{true, false} {
				f := o.facts.assume(lit(o.rets[0], yes))
				if !f.Consistent() {
					continue
				}
				b := *o
				b.facts = f
				if yes {
					nt1++
					c.ob(f.Implies(lit(isK, true)), "S09:"+tn+":kind", o.pos, "a %s may be equal to a schema of another kind", tn)
					c.ob(isNil(f, op) == 0 || len(fs) == 0, "S09:"+tn+":nil", o.pos, "a %s may be equal to an absent schema", tn)
					for _, p := range fs {
						c.ob(same(&b, p), "S09:"+tn+"."+p.name, o.pos, "two %ss are equal although their %s may differ", tn, p.name)
					}
				} else {
					nf++
					just := f.Implies(lit(isK, false)) || isNil(f, op) == 1
					for _, p := range fs {
						just = just || differs(&b, p)
					}
					c.ob(just, "S09:"+tn+":false", o.pos, "two %ss are unequal although nothing in them is known to differ", tn)
				}
			}
		}
		c.ob(nt1 > 0 && nf > 0, "S09:"+tn+":vacuous", fn.Pos(), "comparing %ss never says equal or never unequal", tn)
	}
	c.count("kinds", len(tns))
}

func isBasic(t types.Type) bool { _, ok := t.Underlying().(*types.Basic); return ok }

// ---- S12

func checkS12(c *Ctx) {
	fn := c.method("jlibschema", "SchemaBuilder", "FixYamlMaps")
	c.site(fn.Pos(), shortFn(fn))
	// the recursive function: FixYamlMaps itself or a helper it calls
	rec := fn
	for _, g := range c.w.reach(fn) {
		if g.Synthetic == "" && g.Parent() == nil && len(argTypes(g)) > 0 && isEmptyIface(argTypes(g)[0]) && c.w.recursive(g) {
			rec = g
			break
		}
	}
	name := shortFn(rec)
	a := newAnalysis(c.w, name)
	a.derefs = true
	outs := c.run(a, rec)
	di := descArg(rec)
	src := a.Params[di]
	E := types.NewInterfaceType(nil, nil)
	S := types.Typ[types.String]
	anyKey := types.NewMap(E, E)
	isAM, isSM, isL := tTypeIs(src, anyKey), tTypeIs(src, tAnyMap), tTypeIs(src, tAnyList)
	am, sm, ls := tAssert(src, anyKey), tAssert(src, tAnyMap), tAssert(src, tAnyList)
	c.safeEvents("S12:safe", outs, EvDeref, EvIndex, EvAssert)
	// result of converting x
	conv := func(t, x *Term) bool {
		return t != nil && t.op == OExtract && t.n == 0 && t.args[0].op == OCall && t.args[0].str2() == name && t.args[0].args[di] == x
	}
	unwrap := func(t *Term) *Term {
		if t != nil && t.op == OMkIface {
			return t.args[0]
		}
		return t
	}
	recOK := func(o *Outcome) {
		for _, e := range callsNamed(o.evs, name) {
			c.ob(o.facts.Implies(lit(tEq(e.res.args[1], tNil), true)), "S12:child", e.pos, "the conversion goes on although a nested value may have been refused")
		}
	}
	seen := map[string]bool{}
	for _, o := range outs {
		f := o.facts
		if o.kind == OutLoop {
			recOK(o)
			continue
		}
		if !c.ob(o.kind == OutReturn, "S12:ends", o.pos, "the conversion may end in a %s", kindName(o.kind)) {
			continue
		}
		switch isNil(f, o.rets[1]) {
		case 0:
			just := false
			for _, e := range callsNamed(o.evs, name) {
				just = just || isNil(f, e.res.args[1]) == 0
			}
			for _, l := range f.lits {
				if l.t.op == OTypeIs && !l.val && types.Identical(l.t.typ, S) && l.t.args[0].op == ORKey && l.t.args[0].args[0].args[0] == am {
					just = true
				}
			}
			c.ob(just, "S12:error", o.pos, "a value is refused although no non-string key is known")
			continue
		case -1:
			c.ob(false, "S12:result", o.pos, "it is not decided whether an error is returned")
			continue
		}
		recOK(o)
		r := o.rets[0]
		switch {
		case f.Implies(lit(isAM, true)):
			seen["map with any keys"] = true
			cl := c.coll(outs, o, a.mapState(&State{heap: o.heap, vers: o.vers}, unwrap(r)))
			ok := cl != nil && (cl.empty && f.Implies(lit(tLe(tLen(am), tInt(0)), true)) ||
				!cl.empty && cl.fromMap && cl.src == am && cl.key == tAssert(phKey(E), S) && conv(cl.val, phVal(E)))
			c.ob(ok && isStrMap(r.typ), "S12:anymap", o.pos, "a map with any keys is not converted entry by entry into a map with string keys")
			// its keys are strings
			str := false
			for _, ps := range mapPasses(outs, o, func(m *Term) bool { return m == am }) {
				all := true
				for _, b := range ps.backs {
					all = all && b.facts.Implies(lit(tTypeIs(ps.k, S), true))
				}
				str = str || all
			}
			c.ob(str, "S12:key", o.pos, "a map with a non-string key may be accepted")
		case f.Implies(lit(isSM, true)):
			seen["map with string keys"] = true
			cl := c.coll(outs, o, a.mapState(&State{heap: o.heap, vers: o.vers}, unwrap(r)))
			ok := cl != nil && !cl.empty && cl.fromMap && cl.src == sm && cl.key != nil && cl.key.op == OSym && cl.key.str == "$k" && conv(cl.val, phVal(E))
			c.ob(ok && isStrMap(r.typ), "S12:strmap", o.pos, "a map with string keys is not converted entry by entry")
		case f.Implies(lit(isL, true)):
			seen["list"] = true
			cl := c.coll(outs, o, unwrap(r))
			ok := cl != nil && !cl.empty && !cl.fromMap && cl.key == nil && cl.src == ls && conv(cl.val, elem(ls, phIdx))
			c.ob(ok, "S12:list", o.pos, "a list is not converted element by element in order")
		default:
			seen["scalar"] = true
			c.ob(f.Implies(lit(isAM, false)) && f.Implies(lit(isSM, false)) && f.Implies(lit(isL, false)) || r != src, "S12:skipped", o.pos, "a map or list may be passed through without converting what is in it")
			c.ob(r == src, "S12:scalar", o.pos, "a scalar is changed into %s", r)
		}
	}
	for _, k := range []string{"map with any keys", "map with string keys", "list", "scalar"} {
		c.ob(seen[k], "S12:vacuous", rec.Pos(), "no path converts a %s", k)
	}
	if rec != fn {
		a := newAnalysis(c.w, name)
		for _, o := range c.run(a, fn) {
			if o.kind == OutReturn {
				es := callsNamed(o.evs, name)
				c.ob(len(es) == 1 && es[0].args[di] == a.Params[descArg(fn)] && o.rets[0] == es[0].res.args[0] && o.rets[1] == es[0].res.args[1], "S12:entry", o.pos, "FixYamlMaps does not return the conversion of its argument")
			}
		}
	}
	// the YAML entry points convert before building
	for _, m := range []string{"BuildYamlInterface", "BuildYamlBytes"} {
		g := c.method("jlibschema", "SchemaBuilder", m)
		c.site(g.Pos(), shortFn(g))
		bd := shortFn(c.method("jlibschema", "SchemaBuilder", "Build"))
		fx := shortFn(fn)
		a := newAnalysis(c.w, bd, fx)
		n := 0
		for _, o := range c.run(a, g) {
			if o.kind != OutReturn {
				c.ob(o.kind == OutLoop, "S12:"+m, o.pos, "%s may end in a %s", m, kindName(o.kind))
				continue
			}
			fs, bs := callsNamed(o.evs, fx), callsNamed(o.evs, bd)
			if len(bs) > 0 {
				n++
				ok := len(fs) == 1 && len(bs) == 1 && bs[0].args[1] == fs[0].res.args[0] && o.facts.Implies(lit(tEq(fs[0].res.args[1], tNil), true))
				c.ob(ok, "S12:"+m, o.pos, "%s builds from data that may not have been converted", m)
				if ok {
					er := isNil(o.facts, bs[0].res.args[1])
					ok = er == 0 && isNil(o.facts, o.rets[1]) == 0 || er != 0 && (o.rets[0] == bs[0].res.args[0] && (o.rets[1] == bs[0].res.args[1] || er == 1 && isNil(o.facts, o.rets[1]) == 1))
					c.ob(ok, "S12:"+m+":result", o.pos, "%s does not return what was built", m)
					if m == "BuildYamlBytes" {
						dec := callsNamed(o.evs, "gopkg.in/yaml.v2.Unmarshal", "(*gopkg.in/yaml.v2.Decoder).Decode", "yaml.Unmarshal", "(*yaml.Decoder).Decode")
						c.ob(len(dec) == 1 && isNil(o.facts, dec[0].res) == 1, "S12:"+m+":malformed", o.pos, "%s builds although its text may be no YAML", m)
						c.ob(fs[0].args[1].op == OOut || fs[0].args[1].op == OMkIface, "S12:"+m+":data", o.pos, "%s converts %s instead of the decoded data", m, fs[0].args[1])
					} else {
						c.ob(fs[0].args[1] == a.Params[1], "S12:"+m+":data", o.pos, "%s converts %s instead of its argument", m, fs[0].args[1])
					}
				}
			} else {
				c.ob(isNil(o.facts, o.rets[1]) == 0, "S12:"+m+":error", o.pos, "%s returns neither a schema nor an error", m)
			}
		}
		c.ob(n > 0, "S12:"+m+":vacuous", g.Pos(), "%s never builds", m)
	}
}
