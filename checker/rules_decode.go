package main

// M02: decoding of messages; M06: numbers.

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("M02", "decision table over the paths of DecodeMessage and ParseBytes: the presence facts about the fields of the decoded union (by JSON tag) decide which kind of message or error each path may end in, and id, method, params, result, error body and trace id of each message are traced to decodes of those very fields", checkM02)
	register("M06", "at every JSON decode call whose target type can hold an untyped value the same decoder had UseNumber called on every path before; json.Unmarshal and ReadJSON, which cannot, only have targets without untyped values", checkM06)
}

// decodeCall is one JSON decode on a path.
type decodeCall struct {
	ev   *Event
	src  *Term // bytes decoded, nil if they come from elsewhere
	dec  *Term // the decoder, if any
	addr *Term // where it is decoded into
	err  *Term
}

// bytesOf: the bytes a reader term reads.
func bytesOf(r *Term) *Term {
	r = unIface(r)
	if r.op == OCall {
		switch r.str2() {
		case "bytes.NewReader", "bytes.NewBuffer", "strings.NewReader", "bytes.NewBufferString":
			return unConv(r.args[0])
		}
	}
	return nil
}

func decodesOn(evs []*Event) []decodeCall {
	var r []decodeCall
	for _, e := range evs {
		if e.kind != EvCall {
			continue
		}
		switch e.name {
		case "(*json.Decoder).Decode":
			d := decodeCall{ev: e, dec: e.args[0], addr: unIface(e.args[1]), err: e.res}
			if d.dec.op == OCall && d.dec.str2() == "json.NewDecoder" {
				d.src = bytesOf(d.dec.args[0])
			}
			r = append(r, d)
		case "json.Unmarshal":
			r = append(r, decodeCall{ev: e, src: unConv(e.args[0]), addr: unIface(e.args[1]), err: e.res})
		}
	}
	return r
}

func sameText(x, y *Term) bool { return x != nil && y != nil && unConv(x) == unConv(y) }

// union: the object decoded first on a path, its cells by JSON name.
type union struct {
	call  decodeCall
	cells map[string]*Term
}

func (c *Ctx) unionOn(o *Outcome) *union {
	for _, d := range decodesOn(o.evs) {
		if d.addr.op != OAlloc || structOf(deref(d.addr.typ)) == nil {
			continue
		}
		st := structOf(deref(d.addr.typ))
		u := &union{d, map[string]*Term{}}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			name := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0]
			if name == "" {
				name = f.Name()
			}
			u.cells[strings.ToLower(name)] = mk(OOut, f.Type(), "", 0, d.err, tFieldAddr(d.addr, f.Name(), types.NewPointer(f.Type())))
			if name != strings.ToLower(name) || strings.Contains(reflect.StructTag(st.Tag(i)).Get("json"), ",string") {
				delete(u.cells, strings.ToLower(name))
			}
		}
		return u
	}
	return nil
}

func checkM02(c *Ctx) {
	for _, name := range []string{"DecodeMessage", "ParseBytes"} {
		c.decodeTable(c.fn("jlib", name), name)
	}
}

func (c *Ctx) decodeTable(fn *ssa.Function, name string) {
	key := "M02:" + name
	a := c.newMsgAnalysis()
	outs := c.run(a, fn)
	in := a.Params[0]
	n := map[string]int{}
	for _, o := range outs {
		if o.kind == OutLoop {
			continue
		}
		if !c.ob(o.kind == OutReturn && len(o.rets) == 2, key+":ends", o.pos, "%s may end in a %s", name, kindName(o.kind)) {
			continue
		}
		f := o.facts
		u := c.unionOn(o)
		if !c.ob(u != nil, key, o.pos, "%s ends without decoding an object", name) {
			continue
		}
		if u.call.dec == in {
			c.ob(true, "", o.pos, "")
		} else {
			c.ob(sameText(u.call.src, in), key+":source", u.call.ev.pos, "what is decoded is not the given input")
		}
		for _, e := range callsNamed(o.evs, "(*json.Decoder).DisallowUnknownFields") {
			c.ob(false, key+":strict", e.pos, "objects with other fields are rejected")
		}
		missing := false
		for _, k := range []string{"id", "method", "params", "result", "error", "traceid"} {
			missing = missing || !c.ob(u.cells[k] != nil, key+":field:"+k, u.call.ev.pos, "no field named %s is decoded", k)
		}
		if missing {
			return
		}
		ds := decodesOn(o.evs)
		// bytes of a field, if it is decoded further
		raw := func(k string) *Term {
			t := u.cells[k]
			if _, ok := t.typ.Underlying().(*types.Pointer); ok {
				return mk(ODeref, deref(t.typ), "", 0, t)
			}
			return t
		}
		has := func(k string) int { // 1 present, 0 absent, -1 open
			if k == "method" {
				return inv(f.Val(tEq(u.cells[k], tStr(""))))
			}
			return inv(isNil(f, u.cells[k]))
		}
		// attempts to decode field k into a target whose type satisfies t
		attempts := func(k string, t func(types.Type) bool) (okv []*Term, failed bool) {
			for _, d := range ds {
				if d.ev == u.call.ev || !sameText(d.src, raw(k)) && d.src != u.cells[k] || !t(deref(d.addr.typ)) {
					continue
				}
				switch isNil(f, d.err) {
				case 1:
					okv = append(okv, mk(OOut, deref(d.addr.typ), "", 0, d.err, d.addr))
				case 0:
					failed = true
				}
			}
			return
		}
		isInt := func(t types.Type) bool { return isIntType(t) }
		isWide := func(t types.Type) bool { // holds every integer an id may be
			b, ok := t.Underlying().(*types.Basic)
			return ok && (b.Kind() == types.Int || b.Kind() == types.Int64)
		}
		isStr := func(t types.Type) bool {
			b, ok := t.Underlying().(*types.Basic)
			return ok && b.Kind() == types.String && tkey(t) != "encoding/json.Number"
		}
		isAny := func(t types.Type) bool { return isEmptyIface(t) }
		isList := func(t types.Type) bool {
			s, ok := t.Underlying().(*types.Slice)
			return ok && isEmptyIface(s.Elem())
		}
		isBody := func(t types.Type) bool { return types.Identical(types.Unalias(t), c.rpcErrType()) }
		eq := func(v *Term, okv []*Term) bool {
			for _, w := range okv {
				if unIface(v) == w {
					return true
				}
			}
			return false
		}
		if isNil(f, o.rets[1]) != 1 {
			n["error"]++
			_, intF := attempts("id", isWide)
			_, strF := attempts("id", isStr)
			_, anyP := attempts("params", isAny)
			_, lstP := attempts("params", isList)
			_, resF := attempts("result", isAny)
			_, bodyF := attempts("error", isBody)
			just := isNil(f, u.call.err) == 0 ||
				has("error") == 1 && has("result") == 1 ||
				has("error") == 1 && bodyF ||
				has("error") == 0 && has("result") == 1 && resF ||
				has("id") == 1 && intF && strF ||
				has("error") == 0 && has("result") == 0 && has("method") == 1 && (has("params") == 0 || has("params") == 1 && anyP && (lstP || true)) ||
				has("error") == 0 && has("result") == 0 && has("method") == 0 && has("id") == 0
			c.ob(just, key+":reject", o.pos, "an object that is a message may be rejected")
			c.ob(isNil(f, o.rets[1]) == 0 || o.rets[1] == u.call.err, key+":error", o.pos, "whether decoding fails is not decided")
			continue
		}
		c.ob(isNil(f, u.call.err) == 1, key+":error", o.pos, "an object that could not be decoded is accepted")
		if !c.ob(isNil(f, o.rets[0]) == 0, key+":nil", o.pos, "nothing is returned although decoding succeeded") {
			continue
		}
		m := unIface(o.rets[0])
		tn := msgTypeName(m.typ)
		if !c.ob(tn != "" && m.op == OAlloc, key+":message", o.pos, "the message returned is %s", m) {
			continue
		}
		n[tn]++
		want := map[string][]string{
			"ErrorMessage":   {"+error", "-result"},
			"ResultMessage":  {"-error"},
			"RequestMessage": {"-error", "-result", "+method", "+params", "+id"},
			"NotifyMessage":  {"-error", "-result", "+method", "+params", "-id"},
		}[tn]
		good := true
		for _, w := range want {
			good = good && has(w[1:]) == map[byte]int{'+': 1, '-': 0}[w[0]]
		}
		if tn == "ResultMessage" {
			good = good && (has("result") == 1 || has("result") == 0 && has("method") == 0 && has("id") == 1)
		}
		c.ob(good, key+":kind:"+tn, o.pos, "a %s is made from an object that may not be one", tn)
		// contents
		if tr := c.acc(o, m, "TraceId"); true {
			c.ob(tr != nil && tr == u.cells["traceid"], key+":traceid:"+tn, o.pos, "the trace id of the %s is %s", tn, tr)
		}
		if tn != "NotifyMessage" {
			id := c.acc(o, m, "MustId")
			oki, _ := attempts("id", isInt)
			oks, _ := attempts("id", isStr)
			good := id != nil && (has("id") == 1 && (eq(id, oki) || eq(id, oks)) || has("id") == 0 && isNil(f, id) == 1)
			c.ob(good, key+":id:"+tn, o.pos, "the id of the %s is %s, which is not its integer or string id", tn, id)
		}
		switch tn {
		case "RequestMessage", "NotifyMessage":
			me := c.acc(o, m, "MustMethod")
			c.ob(me != nil && me == u.cells["method"], key+":method", o.pos, "the method of the %s is %s", tn, me)
			ps := c.acc(o, m, "MustParams")
			okl, lf := attempts("params", isList)
			oka, _ := attempts("params", isAny)
			ok := ps != nil
			if ok {
				r := a.resolve(o.heap, ps)
				ok = eq(ps, okl)
				for _, l := range okl {
					ok = ok || emptyList(f, r) && isNil(f, l) == 1
				}
				for _, s := range oka {
					lt := tAnyList
					ok = ok || r.op == OSliceLit && len(r.args) == 1 && unIface(r.args[0]) == s && (lf || f.Implies(lit(tTypeIs(s, lt), false))) ||
						ps == tAssert(s, lt) && f.Implies(lit(tTypeIs(s, lt), true))
				}
				if isEmptyIface(u.cells["params"].typ) {
					s := u.cells["params"]
					ok = ok || r.op == OSliceLit && len(r.args) == 1 && r.args[0] == s && f.Implies(lit(tTypeIs(s, tAnyList), false)) || ps == tAssert(s, tAnyList)
				}
			}
			c.ob(ok, key+":params:"+tn, o.pos, "the params of the %s are %s, not those of the object", tn, ps)
		case "ResultMessage":
			r := c.acc(o, m, "MustResult")
			oka, _ := attempts("result", isAny)
			ok := r != nil && (has("result") == 1 && (eq(r, oka) || r == u.cells["result"] && isEmptyIface(r.typ)) || has("result") == 0 && isNil(f, r) == 1)
			c.ob(ok, key+":result", o.pos, "the result is %s, not that of the object", r)
		case "ErrorMessage":
			e := c.acc(o, m, "MustError")
			ok := e != nil && (e == u.cells["error"] && types.Identical(e.typ, types.NewPointer(c.rpcErrType())))
			if e != nil && e.op == OAlloc {
				mem := a.memOf(o.heap, o.vers)
				for _, d := range ds {
					if d.addr != e || !sameText(d.src, raw("error")) || isNil(f, d.err) != 1 {
						continue
					}
					ok = true
					for _, k := range []string{"Code", "Message", "Data"} {
						ad, t := c.msgFieldAddrOf(e, k)
						ok = ok && mem.get(ad, t) == mk(OOut, t, "", 0, d.err, ad)
					}
				}
			}
			c.ob(ok, key+":body", o.pos, "the error body is %s, not that of the object", e)
		}
	}
	for _, k := range append([]string{"error"}, msgTypes...) {
		c.ob(n[k] > 0, key+":vacuous:"+k, fn.Pos(), "%s never gives a %s", name, k)
	}
}

func inv(v int) int {
	if v < 0 {
		return v
	}
	return 1 - v
}

// ---- M06

// holdsUntyped: a JSON decode into t may store a number as float64 in an interface.
func holdsUntyped(t types.Type, seen map[string]bool) bool {
	return holdsType(t, seen, func(u types.Type) bool { _, ok := u.(*types.Interface); return ok })
}

// holdsFloat: a value of the type may keep a number as a floating-point one.
func holdsFloat(t types.Type, seen map[string]bool) bool {
	return holdsType(t, seen, func(u types.Type) bool {
		b, ok := u.(*types.Basic)
		return ok && b.Info()&types.IsFloat != 0
	})
}

func holdsType(t types.Type, seen map[string]bool, is func(types.Type) bool) bool {
	if seen[tkey(t)] {
		return false
	}
	seen[tkey(t)] = true
	if n, ok := types.Unalias(t).(*types.Named); ok {
		for _, m := range []string{"UnmarshalJSON", "UnmarshalText"} {
			ms := types.NewMethodSet(types.NewPointer(n))
			if ms.Lookup(n.Obj().Pkg(), m) != nil {
				return false // decodes itself
			}
		}
	}
	if is(t.Underlying()) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return holdsType(u.Elem(), seen, is)
	case *types.Slice:
		return holdsType(u.Elem(), seen, is)
	case *types.Array:
		return holdsType(u.Elem(), seen, is)
	case *types.Map:
		return holdsType(u.Elem(), seen, is)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Exported() || u.Field(i).Embedded() {
				if holdsType(u.Field(i).Type(), seen, is) {
					return true
				}
			}
		}
	}
	return false
}

// jsonTarget: argument index of the target of a JSON decode call and of the
// decoder (-1 when there is none, so number preservation cannot be on).
func jsonTarget(name string) (target, dec int) {
	switch name {
	case "encoding/json.Unmarshal":
		return 1, -1
	case "(*encoding/json.Decoder).Decode":
		return 1, 0
	case "(*encoding/json.Decoder).Token":
		return -2, 0
	case "(*github.com/gorilla/websocket.Conn).ReadJSON", "github.com/gorilla/websocket.ReadJSON":
		return 1, -1
	}
	return -1, -1
}

func checkM06(c *Ctx) {
	fr := c.newFreshness()
	n := 0
	for _, f := range c.w.funcs {
		p := fnPkg(f)
		if strings.HasPrefix(p.Path(), modPath+"/examples") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil {
					continue
				}
				name := ci.Common().StaticCallee().String()
				ti, di := jsonTarget(name)
				if ti == -1 {
					continue
				}
				args := ci.Common().Args
				if ti >= 0 {
					un := false
					for _, t := range fr.targets(args[ti], map[ssa.Value]bool{}) {
						c.ob(!holdsFloat(t, map[string]bool{}), "M06:float:"+shortFn(f), ci.Pos(), "%s decodes JSON numbers into floating-point variables (%s)", shortFn(f), tstr(t))
						un = un || holdsUntyped(t, map[string]bool{})
					}
					if !un {
						c.ob(true, "", ci.Pos(), "")
						continue
					}
				}
				n++
				c.site(ci.Pos(), shortFn(f)+": "+name)
				if di < 0 {
					c.ob(false, "M06:"+shortFn(f), ci.Pos(), "%s decodes numbers of an untyped value as float64: %s", shortFn(f), name)
					continue
				}
				c.ob(fr.numbered(args[di], in, map[ssa.Value]bool{}), "M06:"+shortFn(f), ci.Pos(), "%s decodes an untyped value without UseNumber on the decoder first", shortFn(f))
			}
		}
	}
	c.count("untyped_json_decodes", n)
	c.ob(n > 0, "M06:vacuous", 0, "no JSON decode of an untyped value was found")
}

// targets: the types the value given to a decoder may point to.
func (fr *freshness) targets(v ssa.Value, seen map[ssa.Value]bool) []types.Type {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeInterface:
		t := x.X.Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			return []types.Type{p.Elem()}
		}
		return []types.Type{t}
	case *ssa.ChangeInterface:
		return fr.targets(x.X, seen)
	case *ssa.Phi:
		var r []types.Type
		for _, e := range x.Edges {
			r = append(r, fr.targets(e, seen)...)
		}
		return r
	case *ssa.Parameter:
		f := x.Parent()
		if !fr.open(f) {
			var r []types.Type
			for i, p := range f.Params {
				if p == x {
					for _, ci := range fr.callers[f] {
						r = append(r, fr.targets(ci.Common().Args[i], seen)...)
					}
				}
			}
			return r
		}
	}
	return []types.Type{types.NewInterfaceType(nil, nil)}
}

// open: the function may be called from outside what is analysed.
func (fr *freshness) open(f *ssa.Function) bool {
	return f.Object() != nil && f.Object().Exported() || fr.asValue[f] || len(fr.callers[f]) == 0
}

// numbered: UseNumber was called on the decoder on every path before instruction at.
func (fr *freshness) numbered(dec ssa.Value, at ssa.Instruction, seen map[ssa.Value]bool) bool {
	if seen[dec] {
		return true
	}
	seen[dec] = true
	f := at.Parent()
	same := aliases(dec)
	set := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if _, d := in.(*ssa.Defer); d {
			return false
		}
		if _, g := in.(*ssa.Go); g {
			return false
		}
		g := ci.Common().StaticCallee()
		if g == nil {
			return false
		}
		if g.String() == "(*encoding/json.Decoder).UseNumber" {
			return same(ci.Common().Args[0])
		}
		// a helper that switches it on for its parameter
		if inModule(g) && g.Blocks != nil {
			for i, a := range ci.Common().Args {
				if same(a) && i < len(g.Params) && switchesOn(g, g.Params[i], 0) {
					return true
				}
			}
		}
		return false
	}
	if alwaysBefore(f, at, set) {
		return true
	}
	// made elsewhere
	switch x := dec.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			in, ok := e.(ssa.Instruction)
			if !ok || !fr.numberedValue(e, in, seen) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		if fr.open(f) {
			return false
		}
		for i, p := range f.Params {
			if p != x {
				continue
			}
			for _, ci := range fr.callers[f] {
				if !fr.numbered(ci.Common().Args[i], ci.(ssa.Instruction), map[ssa.Value]bool{}) {
					return false
				}
			}
		}
		return true
	case *ssa.FreeVar:
		return false
	}
	return fr.numberedValue(dec, at, seen)
}

// numberedValue: the decoder value was given back with UseNumber on.
func (fr *freshness) numberedValue(v ssa.Value, at ssa.Instruction, seen map[ssa.Value]bool) bool {
	if ex, ok := v.(*ssa.Extract); ok {
		if c, ok := ex.Tuple.(*ssa.Call); ok {
			return fr.returnsNumbered(c, ex.Index)
		}
	}
	if c, ok := v.(*ssa.Call); ok {
		return fr.returnsNumbered(c, 0)
	}
	return false
}

func (fr *freshness) returnsNumbered(call *ssa.Call, idx int) bool {
	g := call.Common().StaticCallee()
	if g == nil || !inModule(g) || g.Blocks == nil {
		return false
	}
	n := 0
	for _, b := range g.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || idx >= len(r.Results) {
			continue
		}
		if k, ok := r.Results[idx].(*ssa.Const); ok && k.IsNil() {
			continue
		}
		n++
		if !fr.numbered(r.Results[idx], r, map[ssa.Value]bool{}) {
			return false
		}
	}
	return n > 0
}

func switchesOn(g *ssa.Function, p *ssa.Parameter, d int) bool {
	if d > 4 {
		return false
	}
	same := aliases(p)
	for _, b := range g.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if !alwaysBefore(g, r, func(in ssa.Instruction) bool {
			ci, ok := in.(*ssa.Call)
			if !ok || ci.Common().StaticCallee() == nil {
				return false
			}
			h := ci.Common().StaticCallee()
			if h.String() == "(*encoding/json.Decoder).UseNumber" {
				return same(ci.Common().Args[0])
			}
			for i, a := range ci.Common().Args {
				if inModule(h) && h.Blocks != nil && same(a) && i < len(h.Params) && switchesOn(h, h.Params[i], d+1) {
					return true
				}
			}
			return false
		}) {
			return false
		}
	}
	return true
}

// aliases: values that are the same decoder: equal, or loads of the same cell
// that is stored to once.
func aliases(v ssa.Value) func(ssa.Value) bool {
	root := cellOf(v)
	return func(x ssa.Value) bool {
		return x == v || root != nil && cellOf(x) == root
	}
}

// cellOf: the local cell stored to once, or the field of a parameter, a value is loaded from.
func cellOf(v ssa.Value) interface{} {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return nil
	}
	switch x := u.X.(type) {
	case *ssa.Alloc:
		n := 0
		for _, r := range *x.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == x {
				n++
			}
		}
		if n == 1 {
			return x
		}
	case *ssa.FieldAddr:
		if p, ok := x.X.(*ssa.Parameter); ok {
			return [2]interface{}{p, x.Field}
		}
	}
	return nil
}

// alwaysBefore: every path from the entry of f to instruction at passes an
// instruction with p first.
func alwaysBefore(f *ssa.Function, at ssa.Instruction, p func(ssa.Instruction) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var clean func(b *ssa.BasicBlock) bool // the entry is reached from b's end backwards without p
	scan := func(b *ssa.BasicBlock, end int) bool {
		for i := end - 1; i >= 0; i-- {
			if p(b.Instrs[i]) {
				return true
			}
		}
		return false
	}
	clean = func(b *ssa.BasicBlock) bool {
		if len(b.Preds) == 0 {
			return true
		}
		for _, q := range b.Preds {
			if seen[q] {
				continue
			}
			seen[q] = true
			if scan(q, len(q.Instrs)) {
				continue
			}
			if clean(q) {
				return true
			}
		}
		return b == f.Blocks[0]
	}
	b := at.Block()
	for i, in := range b.Instrs {
		if in == at {
			if scan(b, i) {
				return true
			}
			break
		}
	}
	return !clean(b)
}
