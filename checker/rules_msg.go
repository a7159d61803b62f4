package main

// Messages: M01, M03, M04, M05, M07, M08.

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("M01", "each message built on any path of any constructor or decoder answers each Is* predicate with the constant of its concrete type (the predicate is analysed on that path's final heap); Must accessors on a symbolic message return the field on every path or panic on every path; the fields the predicates read are not stored to elsewhere", checkM01)
	register("M03", "the value Interface() returns on every path, read through its JSON struct tags or map keys, holds every protocol field with the message's own value; every encoder hands that form and nothing else to its JSON sink; params form decided on constructor and decoder outcomes", checkM03)
	register("M04", "on every path of Clone and ReplaceId the result is a newly allocated message of the same kind whose wire form, evaluated on the final heap, equals that of the receiver except for the id; no path stores through the receiver", checkM04)
	register("M05", "on every path of every function that derives a result or error message the id, trace id and payload read from the result on the final heap are the given ones", checkM05)
	register("M07", "no store reaches a field of an RPCError that was not allocated in the storing function (or handed down by callers that allocated it), no package variable of that type is assigned outside initialisation or given to a decoder; WithData returns a new value on every path", checkM07)
	register("M08", "decision table over the paths of UnmarshalJSON and MarshalJSON of Bigint", checkM08)
}

var msgTypes = []string{"RequestMessage", "NotifyMessage", "ResultMessage", "ErrorMessage"}

func (c *Ctx) msgPtr(tn string) types.Type {
	n := c.w.Type("jlib", tn)
	if n == nil {
		c.fatal("anchor:type:"+tn, "type jlib.%s not found", tn)
	}
	return types.NewPointer(n)
}

func msgTypeName(t types.Type) string {
	p, ok := t.(*types.Pointer)
	if !ok {
		return ""
	}
	if msgKindOf(p.Elem()) < 0 {
		return ""
	}
	return types.Unalias(p.Elem()).(*types.Named).Obj().Name()
}

func isMsgRet(t types.Type) bool { return isMsgIface(t) || msgTypeName(t) != "" }

// makers: the exported functions and methods of the library that give back a message.
func (c *Ctx) makers() []*ssa.Function {
	var r []*ssa.Function
	for _, f := range c.w.funcs {
		p := fnPkg(f)
		if p == nil || f.Object() == nil || !f.Object().Exported() || f.Synthetic != "" {
			continue
		}
		if p.Path() != modPath && p.Path() != modPath+"/schema" {
			continue
		}
		rs := retTypes(f)
		if len(rs) >= 1 && isMsgRet(rs[0]) {
			r = append(r, f)
		}
	}
	return r
}

func (c *Ctx) newMsgAnalysis() *Analysis {
	a := newAnalysis(c.w)
	a.rawMsg = true
	return a
}

// after analyses fn on the state an outcome ends in.
func (c *Ctx) after(o *Outcome, fn *ssa.Function, params ...*Term) (*Analysis, []*Outcome) {
	a := c.newMsgAnalysis()
	a.heap0, a.facts0 = o.heap, o.facts.lits
	return a, c.run(a, fn, params...)
}

func (c *Ctx) methOf(t types.Type, name string) *ssa.Function {
	f := c.w.MethodOf(t, name)
	if f == nil || f.Blocks == nil {
		c.fatal("anchor:"+tstr(t)+"."+name, "%s has no method %s", tstr(t), name)
	}
	return f
}

// acc: what an accessor returns on the state, nil if not the same on every path.
func (c *Ctx) acc(o *Outcome, msg *Term, meth string) *Term {
	var r *Term
	_, outs := c.after(o, c.methOf(msg.typ, meth), msg)
	for _, x := range outs {
		if x.kind == OutLoop {
			continue
		}
		if x.kind != OutReturn || (r != nil && r != x.rets[0]) {
			return nil
		}
		r = x.rets[0]
	}
	return r
}

func unIface(t *Term) *Term {
	for t != nil && t.op == OMkIface {
		t = t.args[0]
	}
	return t
}

// msgOut is one path of a maker that gives back a message.
type msgOut struct {
	fn   *ssa.Function
	a    *Analysis
	o    *Outcome
	outs []*Outcome
	msg  *Term // the concrete pointer
	tn   string
}

// made: the outcomes of fn with a message, and the others.
func (c *Ctx) made(fn *ssa.Function, params ...*Term) (ms []*msgOut, rest []*Outcome, a *Analysis) {
	a = c.newMsgAnalysis()
	if len(params) == 0 && fn.Signature.Recv() != nil {
		// a method of a message may rely on its receiver's kind
		t := fn.Signature.Recv().Type()
		k := msgKindOf(deref(t))
		if k >= 0 {
			r := tSym(fn.Params[0].Name(), t)
			params = make([]*Term, len(fn.Params))
			params[0] = r
			for _, p := range sortedStrs(kindPreds) {
				pa := c.newMsgAnalysis()
				pf := c.w.MethodOf(t, p)
				if pf == nil || pf.Blocks == nil {
					continue
				}
				if outs := c.run(pa, pf, r); len(outs) == 1 && outs[0].kind == OutReturn {
					a.facts0 = append(a.facts0, lit(outs[0].rets[0], kindPreds[p]&(1<<k) != 0))
				}
			}
		}
	}
	outs := c.run(a, fn, params...)
	for _, o := range outs {
		if o.kind == OutReturn && isNil(o.facts, o.rets[0]) != 1 {
			m := unIface(o.rets[0])
			ms = append(ms, &msgOut{fn, a, o, outs, m, msgTypeName(m.typ)})
		} else {
			rest = append(rest, o)
		}
	}
	return
}

func checkM01(c *Ctx) {
	mk := c.makers()
	c.count("makers", len(mk))
	checkPreds := func(m *msgOut) {
		k := msgKindNames[m.tn]
		for _, p := range sortedStrs(kindPreds) {
			want := kindPreds[p]&(1<<k) != 0
			_, outs := c.after(m.o, c.methOf(m.msg.typ, p), m.msg)
			n := 0
			for _, x := range outs {
				if x.kind == OutLoop {
					continue
				}
				ok := x.kind == OutReturn
				if ok {
					v := x.facts.Val(x.rets[0])
					ok = v == 1 && want || v == 0 && !want
				}
				n++
				c.ob(ok, "M01:"+p+":"+m.tn, m.o.pos, "%s may not be %v on a %s made by %s", p, want, m.tn, shortFn(m.fn))
			}
			c.ob(n > 0, "M01:"+p+":"+m.tn, m.o.pos, "%s never answers on a %s", p, m.tn)
		}
	}
	got := map[string]int{}
	for _, f := range mk {
		ms, _, _ := c.made(f)
		for _, m := range ms {
			if !c.ob(m.tn != "" && m.msg.op == OAlloc, "M01:new:"+shortFn(f), m.o.pos, "%s gives back %s, not a message it built", shortFn(f), m.msg) {
				continue
			}
			got[m.tn]++
			checkPreds(m)
		}
	}
	for _, tn := range msgTypes {
		c.ob(got[tn] > 0, "M01:vacuous:"+tn, 0, "no function makes a %s", tn)
	}
	// messages made anywhere else in the module start with zero fields
	for _, f := range c.w.funcs {
		if p := fnPkg(f); p == nil || p.Path() == modPath {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if al, ok := in.(*ssa.Alloc); ok {
					if tn := msgTypeName(al.Type()); tn != "" {
						t := mkAlloc(al, f)
						checkPreds(&msgOut{f, nil, &Outcome{kind: OutReturn, facts: noFacts, heap: zeroHeap(t), pos: al.Pos()}, nil, t, tn})
					}
				}
			}
		}
	}
	// Must accessors on any message
	for _, tn := range msgTypes {
		pt := c.msgPtr(tn)
		k := 1 << msgKindNames[tn]
		for _, m := range sortedStrs(mustFields) {
			mf := mustFields[m]
			self := tSym("msg", pt)
			a := c.newMsgAnalysis()
			a.facts0 = []Lit{lit(tEq(self, tNil), false)}
			fn := c.methOf(pt, m)
			outs := c.run(a, fn, self)
			n := 0
			for _, o := range outs {
				if o.kind == OutLoop {
					continue
				}
				n++
				if mf.kind&k == 0 {
					c.ob(o.kind == OutPanic, "M01:"+m+":"+tn, o.pos, "%s does not panic on a %s", m, tn)
					continue
				}
				ok := o.kind == OutReturn && (o.rets[0] == c.fieldOf(self, mf.f) || sameNum(o.facts, o.rets[0], c.fieldOf(self, mf.f)))
				c.ob(ok, "M01:"+m+":"+tn, o.pos, "%s does not return the %s field of a %s on every path", m, mf.f, tn)
			}
			c.ob(n > 0, "M01:"+m+":"+tn, fn.Pos(), "%s never returns", m)
		}
		if tn == "NotifyMessage" {
			self := tSym("msg", pt)
			a := c.newMsgAnalysis()
			for _, o := range c.run(a, c.methOf(pt, "ReplaceId"), self) {
				c.ob(o.kind == OutPanic || o.kind == OutLoop, "M01:ReplaceId", o.pos, "ReplaceId does not panic on a notify")
			}
		}
	}
	c.kindFieldStores(mk)
}

func mkAlloc(al *ssa.Alloc, f *ssa.Function) *Term {
	t := mk(OAlloc, al.Type(), "literal "+shortFn(f)+"#"+al.Name(), 0)
	return t
}

func zeroHeap(t *Term) *Heap {
	h := &Heap{map[*Term]*Term{}}
	var set func(p *Term, typ types.Type)
	set = func(p *Term, typ types.Type) {
		if s := structOf(typ); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				set(tFieldAddr(p, f.Name(), types.NewPointer(f.Type())), f.Type())
			}
			return
		}
		h.m[p] = zeroOf(typ)
	}
	set(t, deref(t.typ))
	return h
}

// kindFieldStores: the fields the kind predicates read are only stored to while
// a message is being made.
func (c *Ctx) kindFieldStores(makers []*ssa.Function) {
	type fkey struct {
		t string
		i int
	}
	isMsgStruct := func(t types.Type) bool {
		t = deref(t)
		n, ok := types.Unalias(t).(*types.Named)
		return ok && inModPkg(n.Obj().Pkg()) && n.Obj().Pkg().Path() == modPath && structOf(t) != nil
	}
	reads := map[fkey]bool{}
	for _, tn := range msgTypes {
		for p := range kindPreds {
			for _, f := range c.w.reach(c.methOf(c.msgPtr(tn), p)) {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						switch x := in.(type) {
						case *ssa.FieldAddr:
							if isMsgStruct(x.X.Type()) {
								reads[fkey{tkey(deref(x.X.Type())), x.Field}] = true
							}
						case *ssa.Field:
							if isMsgStruct(x.X.Type()) {
								reads[fkey{tkey(x.X.Type()), x.Field}] = true
							}
						}
					}
				}
			}
		}
	}
	making := map[*ssa.Function]bool{}
	for _, m := range makers {
		for _, f := range c.w.reach(m) {
			making[f] = true
		}
	}
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range c.w.funcs {
		for _, g := range c.w.callees(f) {
			callers[g] = append(callers[g], f)
		}
	}
	for _, f := range c.w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !isMsgStruct(fa.X.Type()) {
					continue
				}
				s := deref(fa.X.Type()).Underlying().(*types.Struct)
				if !reads[fkey{tkey(deref(fa.X.Type())), fa.Field}] || s.Field(fa.Field).Embedded() {
					continue
				}
				var base ssa.Value = fa.X
				for {
					if y, ok := base.(*ssa.FieldAddr); ok {
						base = y.X
						continue
					}
					break
				}
				if al, ok := base.(*ssa.Alloc); ok && al.Parent() == f {
					continue
				}
				ok = making[f] && (f.Object() == nil || !f.Object().Exported() || isMsgRet(firstRet(f)))
				for _, g := range callers[f] {
					ok = ok && making[g]
				}
				c.ob(ok, "M01:kindfield:"+shortFn(f), st.Pos(), "%s changes %s, which the kind predicates read, of an existing message", shortFn(f), s.Field(fa.Field).Name())
			}
		}
	}
}

func firstRet(f *ssa.Function) types.Type {
	if r := retTypes(f); len(r) > 0 {
		return r[0]
	}
	return types.Typ[types.Invalid]
}

// ---- wire form

type wireEntry struct {
	val  *Term
	omit bool // left out when zero
}

type memory struct {
	get func(addr *Term, t types.Type) *Term
	ms  func(m *Term) *Term
}

func (a *Analysis) memOf(heap *Heap, vers map[string]int) memory {
	if vers == nil {
		vers = map[string]int{}
	}
	return memory{
		func(ad *Term, t types.Type) *Term {
			return a.load(&State{heap: heap, vers: vers, facts: noFacts}, ad, t)
		},
		func(m *Term) *Term { return a.mapState(&State{heap: heap, vers: vers, facts: noFacts}, m) },
	}
}

// wireForm: the JSON object a value is encoded as (encoding/json and
// mapstructure with the json tag); problem is non-empty if it is not understood.
func (c *Ctx) wireForm(mem memory, t *Term) (m map[string]wireEntry, problem string) {
	m = map[string]wireEntry{}
	t = unIface(t)
	if t == nil || t.typ == nil {
		return nil, "it is not a known value"
	}
	if n, ok := types.Unalias(deref(t.typ)).(*types.Named); ok {
		for _, meth := range []string{"MarshalJSON", "MarshalText"} {
			if c.w.MethodOf(types.NewPointer(n), meth) != nil {
				return nil, "type " + tstr(n) + " has its own " + meth
			}
		}
	}
	var fields func(x *Term, st *types.Struct, ptr bool) string
	fields = func(x *Term, st *types.Struct, ptr bool) string {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			var v, ad *Term
			if ptr {
				ad = tFieldAddr(x, f.Name(), types.NewPointer(f.Type()))
				if structOf(f.Type()) == nil || !f.Embedded() {
					v = mem.get(ad, f.Type())
				}
			} else {
				v = tField(x, f.Name(), i, f.Type())
			}
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			parts := strings.Split(tag, ",")
			if f.Embedded() && parts[0] == "" {
				if s := structOf(f.Type()); s != nil {
					var p string
					if ptr {
						p = fields(ad, s, true)
					} else {
						p = fields(v, s, false)
					}
					if p != "" {
						return p
					}
					continue
				}
				return "embedded field " + f.Name()
			}
			if tag == "-" || !f.Exported() {
				continue
			}
			name := parts[0]
			if name == "" {
				name = f.Name()
			}
			e := wireEntry{val: v}
			for _, opt := range parts[1:] {
				switch opt {
				case "omitempty", "omitzero":
					e.omit = true
				case "string":
					return "field " + f.Name() + " is encoded as a string"
				}
			}
			m[name] = e
		}
		return ""
	}
	switch u := t.typ.Underlying().(type) {
	case *types.Pointer:
		st := structOf(u.Elem())
		if st == nil {
			return nil, "it is a pointer to " + tstr(u.Elem())
		}
		if p := fields(t, st, true); p != "" {
			return nil, p
		}
		return m, ""
	case *types.Struct:
		if p := fields(t, u, false); p != "" {
			return nil, p
		}
		return m, ""
	case *types.Map:
		s := mem.ms(t)
		for s.op == OMapPut {
			if k := s.args[1]; k.op == OConst {
				if _, have := m[constStr(k)]; !have {
					m[constStr(k)] = wireEntry{val: s.args[2]}
				}
			} else {
				return nil, "a key is not constant"
			}
			s = s.args[0]
		}
		if s.op != OMapInit && !isEmptyMake(s) {
			return nil, "the map is not built here"
		}
		return m, ""
	}
	return nil, "it is a " + tstr(t.typ)
}

func constStr(t *Term) string {
	s := t.val.ExactString()
	if len(s) >= 2 && s[0] == '"' {
		if u, err := unquote(s); err == nil {
			return u
		}
	}
	return s
}

// sameValue: the two terms are the same value on the path (interface boxing aside).
func sameValue(f *Facts, x, y *Term) bool {
	if x == nil || y == nil {
		return false
	}
	x, y = unIface(x), unIface(y)
	return x == y || isEmptyStr(x) && isEmptyStr(y) || f.Implies(lit(tEq(x, y), true))
}

// emptyList: the term is a list without elements, and not nil.
func emptyList(f *Facts, t *Term) bool {
	t = unIface(t)
	if t == nil || t.typ == nil {
		return false
	}
	if _, ok := t.typ.Underlying().(*types.Slice); !ok {
		return false
	}
	return isNil(f, t) == 0 && f.Implies(lit(tLe(tLen(t), tInt(0)), true))
}

var wireFields = map[string][]string{
	"RequestMessage": {"id", "method", "params"}, "NotifyMessage": {"method", "params"},
	"ResultMessage": {"id", "result"}, "ErrorMessage": {"id", "error"},
}
var wireToField = map[string]string{"id": "Id", "method": "Method", "result": "Result", "error": "Error"}

// checkWire: the form w is what a message msg of type tn must look like on the path.
func (c *Ctx) checkWire(key string, o *Outcome, f *Facts, mem memory, w map[string]wireEntry, msg *Term, tn string, what string) {
	pos := o.pos
	c.ob(w["jsonrpc"].val == tStr("2.0") || unIface(w["jsonrpc"].val) == tStr("2.0"), key+":jsonrpc", pos, "%s: jsonrpc is %s, not \"2.0\"", what, w["jsonrpc"].val)
	for _, k := range wireFields[tn] {
		e, ok := w[k]
		if !c.ob(ok, key+":"+k, pos, "%s: the %s of a %s is missing", what, k, tn) {
			continue
		}
		c.ob(!e.omit, key+":"+k, pos, "%s: the %s of a %s is left out when it is zero", what, k, tn)
		if fn := wireToField[k]; fn != "" {
			c.ob(sameValue(f, e.val, mem.get(c.msgFieldAddrOf(msg, fn))), key+":"+k, pos, "%s: %s holds %s, not the message's own", what, k, e.val)
			continue
		}
		ad, pt := c.msgFieldAddrOf(msg, "Params")
		ps := mem.get(ad, pt)
		ok = unIface(e.val) == ps || e.val == elem(ps, tInt(0)) && f.Implies(lit(tLt(tInt(0), tLen(ps)), true)) ||
			ps.op == OSliceLit && len(ps.args) == 1 && e.val == ps.args[0] ||
			f.Implies(lit(tLe(tLen(ps), tInt(0)), true)) && f.Implies(lit(tLe(tLen(unIface(e.val)), tInt(0)), true))
		c.ob(ok, key+":params", pos, "%s: params holds %s, neither the message's params nor its only one", what, e.val)
	}
	tr := c.accMem(o, msg, "TraceId")
	e, ok := w["traceid"]
	if ok && e.omit {
		c.ob(tr != nil && sameValue(f, e.val, tr), key+":traceid", pos, "%s: traceid holds %s, not the message's own", what, e.val)
	} else if ok {
		c.ob(tr != nil && sameValue(f, e.val, tr) && f.Implies(lit(tEq(tr, tStr("")), false)), key+":traceid", pos, "%s: traceid is %s and may be emitted when empty", what, e.val)
	} else {
		c.ob(tr != nil && f.Implies(lit(tEq(tr, tStr("")), true)), key+":traceid", pos, "%s: a trace id is not emitted", what)
	}
}

func (c *Ctx) accMem(o *Outcome, msg *Term, meth string) *Term { return c.acc(o, msg, meth) }

func (c *Ctx) msgFieldAddrOf(msg *Term, f string) (*Term, types.Type) {
	s := structOf(deref(msg.typ))
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return tFieldAddr(msg, f, types.NewPointer(s.Field(i).Type())), s.Field(i).Type()
		}
	}
	c.fatal("anchor:field:"+f, "type %s has no field %s", tstr(msg.typ), f)
	return nil, nil
}

func (c *Ctx) tagsOfRPCError() {
	n := c.w.Type("jlib", "RPCError")
	if n == nil {
		c.fatal("anchor:type:RPCError", "type RPCError not found")
	}
	s := structOf(n)
	w := map[string]string{}
	for i := 0; i < s.NumFields(); i++ {
		parts := strings.Split(reflect.StructTag(s.Tag(i)).Get("json"), ",")
		name := parts[0]
		if name == "" {
			name = s.Field(i).Name()
		}
		if name == "-" || !s.Field(i).Exported() {
			continue
		}
		w[name] = s.Field(i).Name()
		for _, opt := range parts[1:] {
			c.ob(opt != "string" && (opt != "omitempty" || name == "data"), "M03:rpcerror:"+name, s.Field(i).Pos(), "the %s of an error body is encoded with option %s", name, opt)
		}
	}
	for k, f := range map[string]string{"code": "Code", "message": "Message", "data": "Data"} {
		c.ob(w[k] == f, "M03:rpcerror:"+k, n.Obj().Pos(), "the %s of an error body is not its %s field", k, f)
	}
	c.ob(c.w.MethodOf(types.NewPointer(n), "MarshalJSON") == nil && c.w.MethodOf(types.NewPointer(n), "UnmarshalJSON") == nil, "M03:rpcerror", n.Obj().Pos(), "RPCError has its own JSON encoding")
}

func checkM03(c *Ctx) {
	c.tagsOfRPCError()
	for _, tn := range msgTypes {
		pt := c.msgPtr(tn)
		self := tSym("msg", pt)
		a := c.newMsgAnalysis()
		a.facts0 = []Lit{lit(tEq(self, tNil), false)}
		fn := c.methOf(pt, "Interface")
		n := 0
		for _, o := range c.run(a, fn, self) {
			if o.kind == OutLoop {
				continue
			}
			if !c.ob(o.kind == OutReturn, "M03:Interface:"+tn, o.pos, "Interface of a %s may end in a %s", tn, kindName(o.kind)) {
				continue
			}
			n++
			mem := a.memOf(o.heap, o.vers)
			w, prob := c.wireForm(mem, o.rets[0])
			if c.ob(prob == "", "M03:Interface:"+tn, o.pos, "the value Interface returns is not understood: %s", prob) {
				c.checkWire("M03:Interface:"+tn, o, o.facts, mem, w, self, tn, "Interface")
			}
		}
		c.ob(n > 0, "M03:Interface:"+tn, fn.Pos(), "Interface of a %s never returns", tn)
		for _, enc := range []string{"MessageBytes", "MessageString", "EncodePretty", "MessageMap"} {
			c.checkEncoder(enc, tn, pt)
		}
	}
	// list or single params
	c.paramsForm("NewRequestMessage", 2)
	c.paramsForm("NewNotifyMessage", 1)
	for _, m := range c.decodedMsgs("DecodeMessage") {
		if m.tn != "RequestMessage" && m.tn != "NotifyMessage" {
			continue
		}
		ad, pt := c.msgFieldAddrOf(m.msg, "Params")
		ps := m.a.resolve(m.o.heap, m.a.memOf(m.o.heap, m.o.vers).get(ad, pt))
		a, outs := c.after(m.o, c.methOf(m.msg.typ, "Interface"), m.msg)
		for _, o := range outs {
			if o.kind != OutReturn {
				continue
			}
			w, prob := c.wireForm(a.memOf(o.heap, o.vers), o.rets[0])
			if !c.ob(prob == "", "M03:decoded", m.o.pos, "the form of a decoded message is not understood: %s", prob) {
				continue
			}
			e := w["params"].val
			ok := ps.op != OSliceLit && unIface(e) == ps || ps.op == OSliceLit && len(ps.args) == 1 && e == ps.args[0] || ps.op == OSliceLit && len(ps.args) == 0 && emptyList(o.facts, e)
			c.ob(ok, "M03:decoded:params", m.o.pos, "a %s decoded with params %s encodes them as %s", m.tn, ps, e)
		}
	}
}

func (c *Ctx) decodedMsgs(fn string) []*msgOut {
	ms, _, _ := c.made(c.fn("jlib", fn))
	var r []*msgOut
	for _, m := range ms {
		if m.tn != "" && m.msg.op == OAlloc {
			r = append(r, m)
		}
	}
	c.ob(len(r) > 0, "M03:decoded", 0, "%s never makes a message", fn)
	return r
}

func (c *Ctx) paramsForm(name string, at int) {
	fn := c.fn("jlib", name)
	ms, _, a := c.made(fn)
	if len(a.Params) <= at {
		c.fatal("anchor:"+name, "%s has no parameter %d", name, at)
	}
	p := a.Params[at]
	L := tAssert(p, tAnyList)
	isList := tTypeIs(p, tAnyList)
	n := map[string]int{}
	for _, m := range ms {
		if m.msg.op != OAlloc || m.tn == "" {
			c.ob(false, "M03:params:"+name, m.o.pos, "%s does not build a message", name)
			continue
		}
		b, outs := c.after(m.o, c.methOf(m.msg.typ, "Interface"), m.msg)
		for _, o := range outs {
			if o.kind != OutReturn {
				continue
			}
			w, prob := c.wireForm(b.memOf(o.heap, o.vers), o.rets[0])
			if !c.ob(prob == "", "M03:params:"+name, m.o.pos, "the form of a new message is not understood: %s", prob) {
				continue
			}
			e := w["params"].val
			if f := o.facts.assume(lit(isList, true)); f.Consistent() {
				n["list"]++
				ok := (e == p || unIface(e) == L) && isNil(f, L) == 0 || f.Implies(lit(tLe(tLen(L), tInt(0)), true)) && emptyList(f, e)
				c.ob(ok, "M03:params:"+name+":list", m.o.pos, "%s: params given as a list are emitted as %s", name, e)
			}
			if f := o.facts.assume(lit(tEq(p, tNil), true)); f.Consistent() {
				n["none"]++
				c.ob(emptyList(f, e), "M03:params:"+name+":none", m.o.pos, "%s: no params are emitted as %s, not as an empty list", name, e)
			}
			if f := o.facts.assume(lit(isList, false), lit(tEq(p, tNil), false)); f.Consistent() {
				n["single"]++
				c.ob(e == p, "M03:params:"+name+":single", m.o.pos, "%s: a single value is emitted as %s", name, e)
			}
		}
	}
	c.ob(n["list"] > 0 && n["none"] > 0 && n["single"] > 0, "M03:params:"+name, fn.Pos(), "%s does not accept every form of params", name)
}

func derivesFrom(t, from *Term) bool {
	found := false
	subterms(t, func(x *Term) bool {
		if x == from {
			found = true
		}
		return !found
	})
	return found
}

func (c *Ctx) checkEncoder(name, tn string, pt types.Type) {
	fn := c.fn("jlib", name)
	self := tSym("msg", pt)
	a := c.newMsgAnalysis()
	a.facts0 = []Lit{lit(tEq(self, tNil), false)}
	key := "M03:" + name + ":" + tn
	n := 0
	for _, o := range c.run(a, fn, tMkIface(pt, self)) {
		if o.kind == OutLoop {
			continue
		}
		sinks := callsNamed(o.evs, "json.Marshal", "json.MarshalIndent", "(*json.Encoder).Encode", "(*mapstructure.Decoder).Decode")
		if o.kind == OutReturn && len(sinks) == 0 && len(o.rets) == 2 && isNil(o.facts, o.rets[1]) == 0 {
			// no decoder: nothing encoded, reported
			c.ob(len(callsNamed(o.evs, "mapstructure.NewDecoder")) > 0, key, o.pos, "%s fails without encoding", name)
			continue
		}
		if !c.ob(len(sinks) == 1, key, o.pos, "%s does not encode the message once", name) {
			continue
		}
		for _, x := range o.evs {
			if x.kind == EvStore || x.kind == EvMapUpdate || x.kind == EvMapDelete {
				c.ob(rootOf(x.args[0]) != self && !derivesFrom(x.args[0], self), key+":unmodified", x.pos, "%s changes the message it encodes: %s", name, x)
			}
		}
		e := sinks[0]
		arg := e.args[0]
		if e.name[0] == '(' {
			arg = e.args[1]
		}
		mem := a.memOf(e.heap, nil)
		w, prob := c.wireForm(mem, arg)
		if !c.ob(prob == "", key, e.pos, "what %s encodes is not understood: %s", name, prob) {
			continue
		}
		at := &Outcome{kind: OutReturn, facts: e.facts, heap: e.heap, vers: o.vers, pos: e.pos}
		c.checkWire(key, at, e.facts, mem, w, self, tn, name)
		// the result is what the sink made
		var errT *Term
		if e.res != nil && e.res.op == OTuple {
			errT = e.res.args[1]
		} else {
			errT = e.res
		}
		if isNil(o.facts, errT) == 0 {
			ok := o.kind == OutPanic || o.kind == OutReturn && len(o.rets) == 2 && isNil(o.facts, o.rets[1]) == 0
			c.ob(ok, key+":error", o.pos, "%s does not report that encoding failed", name)
			continue
		}
		if !c.ob(o.kind == OutReturn, key, o.pos, "%s may end in a %s", name, kindName(o.kind)) {
			continue
		}
		if len(o.rets) == 2 && isNil(o.facts, o.rets[1]) != 1 {
			c.ob(o.rets[1] == errT || tEq(o.rets[1], tNil) == tEq(errT, tNil), key+":error", o.pos, "%s may fail although encoding did not", name)
		}
		n++
		if e.res.op == OTuple {
			got := o.rets[0]
			for got.op == OConv {
				got = got.args[0]
			}
			c.ob(got == e.res.args[0], key+":result", o.pos, "%s gives back %s, not the encoded message", name, o.rets[0])
		} else {
			c.mapResult(key, name, a, o, e)
		}
	}
	c.ob(n > 0, key, fn.Pos(), "%s never encodes a %s", name, tn)
}

// mapResult: a message decoded into a map with the json tags, which is given back.
func (c *Ctx) mapResult(key, name string, a *Analysis, o *Outcome, e *Event) {
	ok := false
	for _, nd := range callsNamed(o.evs, "mapstructure.NewDecoder") {
		if nd.res == nil || nd.res.op != OTuple || e.args[0] != nd.res.args[0] {
			continue
		}
		cfg := unIface(nd.args[0])
		s := structOf(deref(cfg.typ))
		mem := a.memOf(nd.heap, nil)
		get := func(f string) *Term {
			for i := 0; s != nil && i < s.NumFields(); i++ {
				if s.Field(i).Name() == f {
					return mem.get(tFieldAddr(cfg, f, types.NewPointer(s.Field(i).Type())), s.Field(i).Type())
				}
			}
			return nil
		}
		tag, res := get("TagName"), unIface(get("Result"))
		if !c.ob(tag == tStr("json"), key+":tag", e.pos, "%s names the fields by the tag %s", name, tag) {
			continue
		}
		if res != nil && res.op == OAlloc {
			v := o.get(a, res, deref(res.typ))
			ok = ok || v == o.rets[0]
			// and holds nothing else
			was := mem.get(res, deref(res.typ))
			for _, x := range o.evs {
				if x.kind == EvMapUpdate || x.kind == EvMapDelete {
					c.ob(x.args[0] != v && x.args[0] != was, key+":map", x.pos, "%s changes the map the message is decoded into", name)
				}
			}
		}
	}
	c.ob(ok, key+":result", o.pos, "%s does not give back the map the message was decoded into", name)
}

// ---- copies

func checkM04(c *Ctx) {
	type job struct{ tn, meth string }
	jobs := []job{{"RequestMessage", "Clone"}, {"RequestMessage", "ReplaceId"}, {"ResultMessage", "ReplaceId"}, {"ErrorMessage", "ReplaceId"}}
	for _, j := range jobs {
		pt := c.msgPtr(j.tn)
		fn := c.methOf(pt, j.meth)
		self := tSym("msg", pt)
		newId := tSym("newId", types.NewInterfaceType(nil, nil))
		key := "M04:" + j.tn + "." + j.meth
		a := c.newMsgAnalysis()
		a.facts0 = []Lit{lit(tEq(self, tNil), false)}
		outs := c.run(a, fn, self, newId)
		n := 0
		for _, o := range outs {
			for _, e := range o.evs {
				if e.kind == EvStore || e.kind == EvMapUpdate || e.kind == EvMapDelete {
					c.ob(rootOf(e.args[0]) != self && !derivesFrom(e.args[0], self), key+":unmodified", e.pos, "%s changes the message it is called on: %s", j.meth, e)
				}
			}
			switch o.kind {
			case OutLoop:
				continue
			case OutPanic:
				ok := o.facts.Implies(lit(tEq(newId, tNil), true))
				if j.tn == "RequestMessage" {
					ok = ok || o.facts.Implies(lit(tEq(c.fieldOf(self, "Method"), tStr("")), true))
				}
				c.ob(ok, key+":panic", o.pos, "%s may panic", j.meth)
				continue
			case OutReturn:
			default:
				c.ob(false, key, o.pos, "%s may end in a %s", j.meth, kindName(o.kind))
				continue
			}
			m := unIface(o.rets[0])
			if !c.ob(m.op == OAlloc && msgTypeName(m.typ) == j.tn, key+":kind", o.pos, "%s gives back %s, not a new %s", j.meth, o.rets[0], j.tn) {
				continue
			}
			n++
			c.sameWire(key, outs, o, self, m, newId)
		}
		c.ob(n > 0, key, fn.Pos(), "%s never returns a copy", j.meth)
	}
}

// sameWire: on the path, message m has the wire form and the fields of self, but id newId.
func (c *Ctx) sameWire(key string, outs []*Outcome, o *Outcome, self, m, newId *Term) {
	tn := msgTypeName(m.typ)
	iface := c.methOf(m.typ, "Interface")
	na, news := c.after(o, iface, m)
	for _, x := range news {
		if x.kind != OutReturn {
			c.ob(x.kind == OutLoop, key, o.pos, "the copy cannot be encoded")
			continue
		}
		w1, p1 := c.wireForm(na.memOf(x.heap, x.vers), x.rets[0])
		oa, olds := c.after(&Outcome{heap: o.heap, facts: x.facts}, iface, self)
		for _, y := range olds {
			if y.kind != OutReturn {
				continue
			}
			w0, p0 := c.wireForm(oa.memOf(y.heap, y.vers), y.rets[0])
			if !c.ob(p0 == "" && p1 == "", key, o.pos, "the encoded form is not understood: %s%s", p0, p1) {
				continue
			}
			f := y.facts
			for _, k := range append([]string{"traceid"}, wireFields[tn]...) {
				e0, ok0 := w0[k]
				e1, ok1 := w1[k]
				if k == "id" {
					c.ob(ok1 && sameValue(f, e1.val, newId), key+":id", o.pos, "the id of the copy is %s, not the given one", e1.val)
					continue
				}
				ok := ok0 == ok1 && (!ok0 || sameValue(f, e0.val, e1.val))
				if !ok && k == "params" && ok0 && ok1 {
					gm := na.memOf(o.heap, o.vers)
					p1, p0 := gm.get(c.msgFieldAddrOf(m, "Params")), gm.get(c.msgFieldAddrOf(self, "Params"))
					if c.listCopy(outs, o, p1, p0) {
						ok = unIface(e1.val) == p1 && unIface(e0.val) == p0 || e1.val == elem(p1, tInt(0)) && e0.val == elem(p0, tInt(0))
					}
				}
				if !ok && k == "params" && ok0 && ok1 {
					// no params: an empty list in both
					l0, l1 := unIface(e0.val), unIface(e1.val)
					ok = isSliceT(l0) && isSliceT(l1) && f.Implies(lit(tLe(tLen(l0), tInt(0)), true)) && f.Implies(lit(tLe(tLen(l1), tInt(0)), true))
				}
				if !ok && k == "traceid" && ok0 != ok1 {
					tr := e0.val
					if ok1 {
						tr = e1.val
					}
					ok = f.Implies(lit(tEq(tr, tStr("")), true))
				}
				c.ob(ok, key+":"+k, o.pos, "the %s of the copy is %s, of the original %s", k, e1.val, e0.val)
			}
		}
	}
	// fields behind the wire form
	mem := c.newMsgAnalysis().memOf(o.heap, o.vers)
	for _, fl := range []string{"Method", "Params", "Result", "Error"} {
		s := structOf(deref(m.typ))
		has := false
		for i := 0; i < s.NumFields(); i++ {
			has = has || s.Field(i).Name() == fl
		}
		if !has {
			continue
		}
		x, y := mem.get(c.msgFieldAddrOf(m, fl)), mem.get(c.msgFieldAddrOf(self, fl))
		ok := sameValue(o.facts, x, y)
		if !ok && fl == "Params" {
			ok = o.facts.Implies(lit(tLe(tLen(x), tInt(0)), true)) && o.facts.Implies(lit(tLe(tLen(y), tInt(0)), true))
			ok = ok || c.listCopy(outs, o, x, y)
		}
		if !ok && fl == "Error" {
			ok = c.errCopy(o, mem, x, y)
		}
		c.ob(ok, key+":"+fl, o.pos, "%s of the copy is %s, not the original's", fl, x)
	}
}

func isSliceT(t *Term) bool {
	if t == nil || t.typ == nil {
		return false
	}
	_, ok := t.typ.Underlying().(*types.Slice)
	return ok
}

// errCopy: x points to a new RPCError with the fields of *y.
func (c *Ctx) errCopy(o *Outcome, mem memory, x, y *Term) bool {
	if x.op != OAlloc {
		return false
	}
	for _, f := range []string{"Code", "Message", "Data"} {
		if !sameValue(o.facts, mem.get(c.msgFieldAddrOf(x, f)), mem.get(c.msgFieldAddrOf(y, f))) {
			return false
		}
	}
	return true
}

// callTerms are the calls in a term.
func callTerms(t *Term) (r []*Term) {
	subterms(t, func(x *Term) bool {
		if x.op == OCall {
			r = append(r, x)
		}
		return true
	})
	return
}

var epPath = []string{"(jlibschema.ErrorPos).Path", "(*jlibschema.ErrorPos).Path"}

func checkM05(c *Ctx) {
	E := types.NewInterfaceType(nil, nil)
	S, I := types.Typ[types.String], types.Typ[types.Int]
	reqT := c.msgPtr("RequestMessage")
	en := c.w.Type("jlib", "RPCError")
	if en == nil {
		c.fatal("anchor:type:RPCError", "type RPCError not found")
	}
	errT := types.NewPointer(en)
	req := tSym("req", reqT)
	id, tr := tSym("id", E), tSym("traceId", S)
	body, res := tSym("body", errT), tSym("result", E)
	code, msg, data := tSym("code", I), tSym("message", S), tSym("data", E)
	reqOut := &Outcome{kind: OutReturn, facts: noFacts.with(lit(tEq(req, tNil), false)), heap: &Heap{map[*Term]*Term{}}, vers: map[string]int{}}
	reqTrace := c.acc(reqOut, req, "TraceId")
	if reqTrace == nil {
		c.fatal("M05:traceid", "TraceId of a request is not understood")
	}
	reqId := c.fieldOf(req, "Id")
	bodyF := func(p *Term) [3]*Term {
		return [3]*Term{c.fieldOf(p, "Code"), c.fieldOf(p, "Message"), c.fieldOf(p, "Data")}
	}
	epT := c.w.Type("jlibschema", "ErrorPos")
	if epT == nil {
		c.fatal("anchor:type:ErrorPos", "type ErrorPos not found")
	}
	ep := tSym("errpos", types.NewPointer(epT))
	// how the position is written is S06's matter
	var epText *Term
	epA := c.newMsgAnalysis()
	for _, n := range epPath {
		epA.opaque[n] = true
	}
	epA.facts0 = []Lit{lit(tEq(ep, tNil), false)}
	for _, o := range c.run(epA, c.methOf(types.NewPointer(epT), "Error"), ep) {
		if o.kind == OutReturn {
			epText = o.rets[0]
		}
	}
	inv := c.w.Var("jlib", "ErrInvalidSchema")
	if inv == nil {
		c.fatal("anchor:ErrInvalidSchema", "jlib.ErrInvalidSchema not found")
	}
	type job struct {
		name    string
		fn      *ssa.Function
		params  []*Term
		id, tr  *Term
		result  *Term // expected result, or
		errPtr  *Term // expected error pointer (or a copy of it), or
		errBody *[3]*Term
		invalid bool // the code is that of ErrInvalidSchema
	}
	cmd := [3]*Term{code, msg, data}
	bf := bodyF(body)
	ept := [3]*Term{nil, epText, tNil}
	mreq := tMkIface(reqT, req)
	jobs := []job{
		{"NewResultMessage", c.fn("jlib", "NewResultMessage"), []*Term{mreq, res}, reqId, reqTrace, res, nil, nil, false},
		{"NewErrorMessage", c.fn("jlib", "NewErrorMessage"), []*Term{mreq, body}, reqId, reqTrace, nil, body, nil, false},
		{"NewErrorMessageFromId", c.fn("jlib", "NewErrorMessageFromId"), []*Term{id, tr, body}, id, tr, nil, body, nil, false},
		{"RPCErrorMessage", c.fn("jlib", "RPCErrorMessage"), []*Term{mreq, code, msg, data}, reqId, reqTrace, nil, nil, &cmd, false},
		{"RPCErrorMessageFromId", c.fn("jlib", "RPCErrorMessageFromId"), []*Term{id, tr, code, msg, data}, id, tr, nil, nil, &cmd, false},
		{"RPCError.ToMessage", c.methOf(errT, "ToMessage"), []*Term{body, req}, reqId, reqTrace, nil, nil, &bf, false},
		{"RPCError.ToMessageFromId", c.methOf(errT, "ToMessageFromId"), []*Term{body, id, tr}, id, tr, nil, nil, &bf, false},
		{"ErrorPos.ToMessage", c.methOf(types.NewPointer(epT), "ToMessage"), []*Term{ep, req}, reqId, reqTrace, nil, nil, &ept, true},
	}
	known := map[*ssa.Function]bool{}
	for _, j := range jobs {
		known[j.fn] = true
		key := "M05:" + j.name
		a := c.newMsgAnalysis()
		for _, n := range epPath {
			a.opaque[n] = true
		}
		for _, s := range []*Term{req, body, ep} {
			a.facts0 = append(a.facts0, lit(tEq(s, tNil), false))
		}
		n := 0
		for _, o := range c.run(a, j.fn, j.params...) {
			if o.kind == OutLoop {
				continue
			}
			if !c.ob(o.kind == OutReturn, key, o.pos, "%s may end in a %s", j.name, kindName(o.kind)) {
				continue
			}
			n++
			m := unIface(o.rets[0])
			want := "ErrorMessage"
			if j.result != nil {
				want = "ResultMessage"
			}
			if !c.ob(m.op == OAlloc && msgTypeName(m.typ) == want, key+":kind", o.pos, "%s gives back %s, not a new %s", j.name, o.rets[0], want) {
				continue
			}
			mem := a.memOf(o.heap, o.vers)
			gid := c.acc(o, m, "MustId")
			c.ob(gid != nil && sameValue(o.facts, gid, j.id), key+":id", o.pos, "the id of the message from %s is %s", j.name, gid)
			gtr := c.acc(o, m, "TraceId")
			c.ob(gtr != nil && sameValue(o.facts, gtr, j.tr), key+":traceid", o.pos, "the trace id of the message from %s is %s", j.name, gtr)
			if j.result != nil {
				r := c.acc(o, m, "MustResult")
				c.ob(r == j.result, key+":result", o.pos, "the result of the message from %s is %s", j.name, r)
				continue
			}
			e := c.acc(o, m, "MustError")
			if !c.ob(e != nil, key+":error", o.pos, "the error of the message from %s is not known", j.name) {
				continue
			}
			if j.errPtr != nil {
				c.ob(e == j.errPtr || c.errCopy(o, mem, e, j.errPtr), key+":error", o.pos, "the error of the message from %s is %s", j.name, e)
				continue
			}
			for i, f := range []string{"Code", "Message", "Data"} {
				got := mem.get(c.msgFieldAddrOf(e, f))
				w := j.errBody[i]
				ok := w != nil && sameValue(o.facts, got, w)
				if j.invalid && f == "Message" && !ok && w != nil && got != nil {
					ok = got.String() == w.String() && len(callTerms(got)) == 1
				}
				if j.invalid && f == "Code" {
					ok = got != nil && got.op == ODeref && got.args[0].op == OFieldAddr && got.args[0].str == "Code" && derivesFrom(got, mk(OGlobal, inv.Type(), "", 0)) || isInvalidCode(got, inv)
				}
				c.ob(ok, key+":"+f, o.pos, "the error %s of the message from %s is %s", strings.ToLower(f), j.name, got)
			}
		}
		c.ob(n > 0, key, j.fn.Pos(), "%s never returns", j.name)
	}
	// anything else that derives a reply from a request keeps its id and trace id
	for _, f := range c.makers() {
		rs, ps := retTypes(f), argTypes(f)
		if known[f] || len(rs) == 0 || msgTypeName(rs[0]) != "ResultMessage" && msgTypeName(rs[0]) != "ErrorMessage" {
			continue
		}
		at := -1
		off := 0
		if f.Signature.Recv() != nil {
			off = 1
		}
		for i, p := range ps {
			if isMsgIface(p) || msgTypeName(p) == "RequestMessage" {
				at = i + off
			}
		}
		if at < 0 {
			continue
		}
		params := make([]*Term, len(f.Params))
		params[at] = req
		if isMsgIface(f.Params[at].Type()) {
			params[at] = mreq
		}
		ms, _, _ := c.made(f, params...)
		for _, m := range ms {
			if m.msg.op != OAlloc {
				continue
			}
			gid, gtr := c.acc(m.o, m.msg, "MustId"), c.acc(m.o, m.msg, "TraceId")
			c.ob(gid != nil && sameValue(m.o.facts, gid, reqId) && gtr != nil && sameValue(m.o.facts, gtr, reqTrace), "M05:"+shortFn(f), m.o.pos, "the message from %s does not carry the id and trace id of its request", shortFn(f))
		}
	}
}

// isInvalidCode: the Code of what the variable ErrInvalidSchema points to.
func isInvalidCode(t *Term, g *ssa.Global) bool {
	found := false
	subterms(t, func(x *Term) bool {
		if x.op == OGlobal && strings.Contains(x.str, g.Name()) {
			found = true
		}
		return !found
	})
	return found && t.op == ODeref && t.args[0].op == OFieldAddr && t.args[0].str == "Code"
}

// listCopy: x is a new list with exactly the elements of y.
func (c *Ctx) listCopy(outs []*Outcome, o *Outcome, x, y *Term) bool {
	ok, src := c.copyOf(outs, o, x)
	return ok && src == y
}
