package main

// Calls: inlining, devirtualisation, builtins and models of library functions.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Library functions whose result is determined by their arguments (and by
// memory no analysed code modifies in between): equal arguments, equal term.
var pureCalls = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true,
	"strconv.Itoa": true, "strconv.FormatInt": true, "strconv.Quote": true,
	"strconv.ParseInt": true, "strconv.ParseFloat": true, "strconv.ParseBool": true, "strconv.Atoi": true,
	"math.IsNaN": true, "math.IsInf": true, "math.Inf": true,
	"(json.Number).Int64": true, "(json.Number).Float64": true, "(json.Number).String": true,
	"(http.Header).Get": true, "(*http.Request).BasicAuth": true, "(*http.Request).Context": true,
	"(*http.Request).ProtoAtLeast": true, "(http.ResponseWriter).Header": true,
	"(*url.URL).String": true, "url.Parse": true,
	"(context.Context).Done": true, "(context.Context).Value": true, "context.Background": true,
	"reflect.TypeOf": true, "reflect.ValueOf": true, "reflect.Zero": true,
	"(reflect.Type).Kind": true, "(reflect.Type).Elem": true, "(reflect.Type).NumIn": true, "(reflect.Type).NumOut": true,
	"(reflect.Type).In": true, "(reflect.Type).Out": true, "(reflect.Type).Implements": true, "(reflect.Type).String": true,
	"(reflect.Type).IsVariadic": true, "(reflect.Value).IsValid": true, "(reflect.Value).IsNil": true, "(reflect.Value).Elem": true,
	"reflect.VisibleFields": true, "(reflect.StructField).IsExported": true, "(reflect.Value).Kind": true,
	"(reflect.Value).Interface": true, "(reflect.Value).Type": true,
	"regexp.MatchString": true, "regexp.MustCompile": true, "(*regexp.Regexp).MatchString": true,
	"(jlibschema.Schema).Map": true, "(jlibschema.Schema).Equal": true, "(jlibschema.Schema).Type": true,
	"(jlibschema.Schema).GetName": true, "(jlibschema.Schema).GetDescription": true,
	"(error).Error": true, "(jlibhttp.RPCSession).SessionID": true,
	"bytes.NewReader": true, "strings.NewReader": true,
	"(*bytes.Buffer).Bytes": true, "errors.Is": true, "os.IsTimeout": true,
	"(time.Time).UTC": true, "(time.Time).Unix": true,
	"(*big.Int).String": true,
}

func isPure(name string) bool {
	return pureCalls[name] || strings.HasPrefix(name, "strings.")
}

// Library calls that never return nil.
var neverNilCall = map[string]bool{
	"errors.New": true, "errors.Errorf": true, "fmt.Errorf": true, "errors.WithStack": false,
	"bytes.NewReader": true, "strings.NewReader": true, "json.NewDecoder": true, "json.NewEncoder": true,
	"(*http.Request).Context": true, "(http.ResponseWriter).Header": true, "context.Background": true,
	"(*http.Request).WithContext": true, "context.WithValue": true,
	"(*jlibschema.SchemaValidator).NewErrorPos": true,
	"reflect.TypeOf": false, "jlibhttp.NewActor": true, "jlibhttp.NewH1Handler": true,
	"jlibhttp.NewWSHandler": true, "jlibhttp.NewH2Handler": true,
}

// Library functions that write through a pointer argument: index of the argument.
var writers = map[string]int{
	"json.Unmarshal": 1, "(*json.Decoder).Decode": 1, "yaml.Unmarshal": 1, "(*yaml.Decoder).Decode": 1,
	"errors.As": 1, "(*xml.Decoder).Decode": 1, "jwt.ParseWithClaims": 1, "(*jwt.Parser).ParseWithClaims": 2,
}

// Functions that do not return.
var panicking = map[string]bool{
	"logrus.Panicf": true, "logrus.Panic": true, "logrus.Panicln": true,
	"(*logrus.Entry).Panicf": true, "(*logrus.Entry).Panic": true, "(*logrus.Entry).Panicln": true,
	"log.Panicf": true, "log.Panic": true, "log.Panicln": true,
}
var exiting = map[string]bool{
	"os.Exit": true, "logrus.Fatalf": true, "logrus.Fatal": true, "logrus.Fatalln": true, "(*logrus.Entry).Fatalf": true, "(*logrus.Entry).Fatal": true,
	"log.Fatalf": true, "log.Fatal": true, "log.Fatalln": true,
}

func (a *Analysis) isOpaque(fn *ssa.Function) bool {
	if fn.Blocks == nil || !inModule(fn) {
		return true
	}
	if a.opaque[shortFn(fn)] {
		return true
	}
	if a.opaqueF != nil && a.opaqueF(fn) {
		return true
	}
	return false
}

func (a *Analysis) onStack(st *State, fn *ssa.Function) int {
	n := 0
	for _, f := range st.frames {
		if f.fn == fn {
			n++
		}
	}
	return n
}

// dynamic type of an interface term, if known
func (a *Analysis) dynType(st *State, t *Term) (types.Type, *Term) {
	if t.op == OMkIface {
		return t.typ, t.args[0]
	}
	for _, l := range st.facts.lits {
		if l.val && l.t.op == OTypeIs && l.t.args[0] == t {
			if _, ok := l.t.typ.Underlying().(*types.Interface); !ok {
				return l.t.typ, tAssert(t, l.t.typ)
			}
		}
	}
	return nil, nil
}

// call executes a call; true if interpretation continues on st, false if the
// path was ended or re-queued.
func (a *Analysis) call(st *State, ci ssa.CallInstruction, res *ssa.Call, fnT, recv *Term, args []*Term, isDefer bool, cs string) bool {
	fr := st.top()
	com := ci.Common()
	var fn *ssa.Function
	var obj *types.Func
	name := ""
	dyn := false
	method := com.Method
	if recv == nil && fnT.op == OClosure && strings.HasPrefix(fnT.fn.Synthetic, "bound method wrapper") && len(fnT.args) == 1 {
		// a method value: call the method it was taken of
		if o, ok := fnT.fn.Object().(*types.Func); ok {
			x := a.resolve(st.heap, fnT.args[0])
			if types.IsInterface(o.Signature().Recv().Type()) {
				recv, method, fnT = x, o, nil
			} else if f := a.w.prog.FuncValue(o); f != nil {
				args = append([]*Term{fnT.args[0]}, args...)
				fnT = tFuncT(f)
			}
		}
	}
	var callee *Term = fnT
	switch {
	case recv != nil: // invoke
		obj = method
		name = shortObj(obj)
		if dt, x := a.dynType(st, recv); dt != nil {
			if f := a.w.MethodOf(dt, obj.Name()); f != nil && f.Signature.Recv() != nil {
				if f.Blocks != nil || f.Object() != nil {
					fn = f
					args = append([]*Term{x}, args...)
					if f.Object() != nil {
						obj = f.Object().(*types.Func)
						// method declared on the embedded type keeps its own name
						name = shortObj(obj)
					}
				}
			}
		}
		if fn == nil {
			args = append([]*Term{recv}, args...)
		}
	case fnT.op == OFunc && fnT.fn != nil:
		fn = fnT.fn
	case fnT.op == OFunc: // builtin
		return a.builtin(st, ci, res, strings.TrimPrefix(fnT.str, "builtin "), args, isDefer)
	case fnT.op == OClosure:
		fn = fnT.fn
	default:
		dyn = true
	}
	if fn != nil {
		name = shortFn(fn)
		if o, ok := fn.Object().(*types.Func); ok {
			obj = o
		}
		// bound method closure or thunk: same treatment (inline the synthetic body)
	}
	set := func(s *State, t *Term) {
		if res != nil {
			s.top().regs[res] = t
		}
	}
	if !a.rawMsg {
		if t, ok := a.messageCall(st, name, args, res, set, ci); ok {
			_ = t
			return true
		}
	}
	if fn != nil && !a.isOpaque(fn) && a.onStack(st, fn) <= a.recurse && len(st.frames) < 40 {
		if len(fn.Params) == len(args) {
			a.nfuncs[fn] = true
			a.emit(st, &Event{kind: EvEnter, name: name, fn: fn, obj: obj, args: args, instr: ci, pos: ci.Pos(), defr: isDefer})
			nf := &Frame{fn: fn, cs: cs, regs: map[ssa.Value]*Term{}, block: fn.Blocks[0], callI: ci, isDefer: isDefer, loops: fr.loops}
			for i, p := range fn.Params {
				nf.regs[p] = args[i]
			}
			if fnT != nil && fnT.op == OClosure {
				nf.bind = fnT.args
			}
			st.frames = append(st.frames, nf)
			return true
		}
	}
	// opaque
	ev := &Event{kind: EvCall, name: name, fn: fn, obj: obj, callee: callee, instr: ci, pos: ci.Pos(), dyn: dyn, defr: isDefer, cs: cs}
	for _, x := range args {
		ev.args = append(ev.args, a.resolve(st.heap, x))
	}
	a.emit(st, ev)
	return a.opaqueCall(st, ev, args, com, set)
}

func (a *Analysis) opaqueCall(st *State, ev *Event, rawArgs []*Term, com *ssa.CallCommon, set func(*State, *Term)) bool {
	name := ev.name
	if panicking[name] {
		pv := mk(OPanicVal, nil, ev.cs, 0)
		a.startPanic(st, pv)
		return false
	}
	if exiting[name] {
		a.finish(st, &Outcome{kind: OutExit, pos: ev.pos})
		return false
	}
	if a.panics != nil && a.panics(ev) {
		s2 := st.clone()
		pv := mk(OPanicVal, nil, ev.cs, 0)
		s2.evs = append(s2.evs, &Event{kind: EvPanic, name: "in " + name, args: []*Term{pv}, instr: ev.instr, pos: ev.pos, facts: st.facts, heap: st.heap})
		a.startPanic(s2, pv)
	}
	// special models
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		a.locked(st, ev.args[0])
	case "(*sync.Once).Do":
		// the body runs now or has run before
		s2 := st.clone()
		set(s2, mk(OTuple, nil, "", 0))
		a.push(s2)
		f := rawArgs[1]
		if f.fn != nil && !a.isOpaque(f.fn) {
			nf := &Frame{fn: f.fn, cs: ev.cs + "!once", regs: map[ssa.Value]*Term{}, block: f.fn.Blocks[0], callI: ev.instr.(ssa.CallInstruction), bind: f.args, loops: st.top().loops}
			a.emit(st, &Event{kind: EvEnter, name: "once", fn: f.fn, instr: ev.instr})
			st.frames = append(st.frames, nf)
		}
		return true
	}
	switch name {
	case "(*strings.Builder).WriteString", "(*strings.Builder).String", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).String":
		if rawArgs[0].op != OAlloc {
			break
		}
		S := types.Typ[types.String]
		cell := tFieldAddr(rawArgs[0], "$content", types.NewPointer(S))
		cur := a.load(st, cell, S)
		if strings.HasSuffix(name, ").String") {
			ev.res = cur
			set(st, cur)
			return true
		}
		a.store(st, cell, tBin(token.ADD, cur, ev.args[1], S))
		ev.res = mk(OTuple, com.Signature().Results(), "", 0, tLen(ev.args[1]), tNil)
		set(st, ev.res)
		return true
	}
	sig := com.Signature()
	rt := sig.Results()
	argT := ev.args
	if ev.dyn {
		argT = append([]*Term{ev.callee}, argT...)
	}
	key := name
	if ev.dyn {
		key = "dyn"
	}
	if !isPure(name) || ev.dyn {
		key += a.siteTermCS(st.top(), ev)
	}
	var typ types.Type
	switch rt.Len() {
	case 0:
	case 1:
		typ = rt.At(0).Type()
	default:
		typ = rt
	}
	var ct *Term
	switch {
	case name == "errors.Wrap" || name == "errors.Wrapf" || name == "errors.WithMessage" || name == "errors.WithStack":
		// nil in, nil out; otherwise a non-nil error wrapping the argument
		ct = mk(OCall, typ, name, 0, argT...)
		if st.facts.Val(tEq(argT[0], tNil)) == 1 {
			ct = tNil
		} else if st.facts.Val(tEq(argT[0], tNil)) == 0 {
			st.facts = st.facts.with(Lit{tEq(ct, tNil), false})
		}
	case rt.Len() == 1 && (name == "(json.Number).String"):
		ct = tConv(argT[0], types.Typ[types.String])
	case name == "(json.Number).Int64":
		ct = mk(OCall, typ, "strconv.ParseInt", 0, tConv(argT[0], types.Typ[types.String]), tInt(10), tInt(64))
	case name == "(json.Number).Float64":
		ct = mk(OCall, typ, "strconv.ParseFloat", 0, tConv(argT[0], types.Typ[types.String]), tInt(64))
	case name == "strconv.Itoa":
		ct = tItoa(argT[0])
	case name == "strconv.FormatInt" && argT[1] == tConstV(constant.MakeInt64(10), types.Typ[types.Int]):
		ct = tItoa(argT[0])
	case name == "fmt.Sprint" && tSprint(argT) != nil:
		ct = tSprint(argT)
	case name == "fmt.Sprintf" && tSprintf(argT) != nil:
		ct = tSprintf(argT)
	default:
		ct = mk(OCall, typ, key, 0, argT...)
		if ct.pos == token.NoPos {
			ct.pos = ev.pos
		}
	}
	var result *Term
	if rt.Len() >= 2 {
		var cs []*Term
		for i := 0; i < rt.Len(); i++ {
			cs = append(cs, mk(OExtract, rt.At(i).Type(), "", i, ct))
		}
		result = mk(OTuple, typ, "", 0, cs...)
	} else {
		result = ct
	}
	ev.res = result
	// effects on memory
	if i, ok := writers[name]; ok && i < len(rawArgs) {
		a.havocTarget(st, rawArgs[i], ct)
	} else if name == "(*mapstructure.Decoder).Decode" {
		// the decoder writes what its configuration's Result points to
		subterms(rawArgs[0], func(x *Term) bool {
			if x.op == OAlloc {
				for _, c := range sortedKeys(st.heap) {
					if c.op == OFieldAddr && c.args[0] == x && c.str == "Result" {
						a.havocTarget(st, st.heap.m[c], ct)
					}
				}
			}
			return true
		})
	} else if !readsOnly(name) {
		for _, x := range rawArgs {
			p := x
			if p.op == OMkIface {
				p = p.args[0]
			}
			switch p.op {
			case OAlloc, OFieldAddr, OIndexAddr:
				if rootOf(p).op == OAlloc && !a.keepsContents(p, ev) {
					a.havocTarget(st, p, ct)
				} else if ev.dyn && p.op == OAlloc {
					a.dynWrites(st, p, ev, ct)
				}
			case OClosure:
				for _, b := range p.args {
					if b.op == OAlloc {
						if closureWrites(p.fn, b, p) {
							a.havocTarget(st, b, ct)
						}
					}
				}
			}
		}
		if ev.fn != nil && inModule(ev.fn) {
			a.bumpVersions(st, ev.fn)
		}
	}
	set(st, result)
	return true
}

func sortedKeys(h *Heap) []*Term {
	m := map[*Term]bool{}
	for k := range h.m {
		m[k] = true
	}
	return sortedTerms(m)
}

func (a *Analysis) siteTermCS(fr *Frame, ev *Event) string {
	s := ""
	if fr.loops != nil {
		s = fr.loops.key
	}
	return "\x00" + s + "@" + ev.cs
}

// closureWrites: does the closure body store to the captured variable bound to b?
func closureWrites(fn *ssa.Function, b *Term, cl *Term) bool {
	for i, x := range cl.args {
		if x != b || i >= len(fn.FreeVars) {
			continue
		}
		fv := fn.FreeVars[i]
		if refs := fv.Referrers(); refs != nil {
			for _, r := range *refs {
				switch y := r.(type) {
				case *ssa.Store:
					if y.Addr == ssa.Value(fv) {
						return true
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return true
				}
			}
		}
	}
	return false
}

// readsOnly: library functions known not to write through their arguments.
func readsOnly(name string) bool {
	if isPure(name) {
		return true
	}
	for _, p := range []string{"fmt.", "logrus.", "(*logrus.", "json.Marshal", "errors.", "(error)", "(*sync.", "context.", "mapstructure.NewDecoder", "json.NewDecoder",
		"(*http.Client).Do", "http.NewRequest", "(http.Header)", "(http.ResponseWriter)", "net.", "(net.", "time.", "(time.", "uuid.", "(uuid.", "io.", "ioutil.", "os.",
		"(*lru.", "sort.", "(*http.Server)", "http2.", "h2c.", "jwt.", "(*flag.", "(reflect.", "reflect."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// keepsContents: in-module structs passed to opaque functions keep their
// unexported fields (only in-module functions could write them; those are
// summarised by bumpVersions).
func (a *Analysis) keepsContents(p *Term, ev *Event) bool {
	t := deref(p.typ)
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return true // named struct: library state or our own structs, summarised separately
	}
	return false
}

// dynWrites: a function value called with p writes the fields of it that some
// function of the module used as a value of that type writes.
func (a *Analysis) dynWrites(st *State, p *Term, ev *Event, by *Term) {
	s := structOf(deref(p.typ))
	if s == nil || ev.callee == nil || ev.callee.typ == nil {
		return
	}
	sig, ok := ev.callee.typ.Underlying().(*types.Signature)
	if !ok {
		return
	}
	for _, g := range a.w.valueFuncs() {
		if !types.Identical(types.NewSignatureType(nil, nil, nil, g.Signature.Params(), g.Signature.Results(), g.Signature.Variadic()), sig) {
			continue
		}
		m := modFields(a.w, g, map[*ssa.Function]bool{})
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if m[tkey(deref(p.typ))+"."+f.Name()] {
				a.havocCell(st, tFieldAddr(p, f.Name(), types.NewPointer(f.Type())), by, f.Type())
			}
		}
	}
}

// valueFuncs: the functions of the module used as values.
func (w *World) valueFuncs() []*ssa.Function {
	if w.asVal != nil {
		return w.asVal
	}
	seen := map[*ssa.Function]bool{}
	w.asVal = []*ssa.Function{}
	for _, f := range w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var skip ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok {
					skip = ci.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && *op != skip && inModule(g) && !seen[g] {
						seen[g] = true
						w.asVal = append(w.asVal, g)
					}
				}
			}
		}
	}
	return w.asVal
}

func (a *Analysis) havocTarget(st *State, p, by *Term) {
	if p.op == OMkIface {
		p = p.args[0]
	}
	r := rootOf(p)
	if r.op != OAlloc && r.op != OSym && p.op != OFieldAddr {
		return
	}
	if p.op == OOut || p.op == OCall {
		return
	}
	t := deref(p.typ)
	a.havocCell(st, p, by, t)
}

func (a *Analysis) havocCell(st *State, p, by *Term, t types.Type) {
	if s := structOf(t); s != nil && s.NumFields() > 0 {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			a.havocCell(st, tFieldAddr(p, f.Name(), types.NewPointer(f.Type())), by, f.Type())
		}
		return
	}
	st.heap = a.storeHeap(st.heap, p, mk(OOut, t, "", 0, by, p))
}

// fields of module structs written (transitively, static calls) by a function
var modCache = map[*ssa.Function]map[string]bool{}

func modFields(w *World, fn *ssa.Function, seen map[*ssa.Function]bool) map[string]bool {
	if m, ok := modCache[fn]; ok {
		return m
	}
	if seen[fn] {
		return nil
	}
	seen[fn] = true
	m := map[string]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					if al, ok := fa.X.(*ssa.Alloc); ok && al.Parent() == fn {
						continue
					}
					s := deref(fa.X.Type())
					m[tkey(s)+"."+s.Underlying().(*types.Struct).Field(fa.Field).Name()] = true
				}
				if g, ok := x.Addr.(*ssa.Global); ok {
					m["global "+g.RelString(nil)] = true
				}
			case *ssa.MakeClosure:
				for k := range modFields(w, x.Fn.(*ssa.Function), seen) {
					m[k] = true
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && inModule(f) {
					for k := range modFields(w, f, seen) {
						m[k] = true
					}
				}
			}
		}
	}
	if len(seen) == 1 {
		modCache[fn] = m
	}
	return m
}

func (a *Analysis) bumpVersions(st *State, fn *ssa.Function) {
	a.forgetFields(st, modFields(a.w, fn, map[*ssa.Function]bool{}))
}

func (a *Analysis) forgetFields(st *State, m map[string]bool) {
	if len(m) == 0 {
		return
	}
	nv := map[string]int{}
	for k, v := range st.vers {
		nv[k] = v
	}
	for k := range m {
		nv[k]++
	}
	st.vers = nv
	// cells of those fields held in the heap are unknown now
	for _, c := range sortedKeys(st.heap) {
		if c.op == OFieldAddr && m[verKey(c)] && !underLocalFresh(c) {
			n := map[*Term]*Term{}
			for k, v := range st.heap.m {
				if k != c {
					n[k] = v
				}
			}
			st.heap = &Heap{n}
		}
	}
}

func underLocalFresh(c *Term) bool { return rootOf(c).op == OAlloc }

// ---- jlib.Message accessors on the message-kind domain

var kindPreds = map[string]int{"IsRequest": kReq, "IsNotify": kNtf, "IsRequestOrNotify": kReq | kNtf, "IsResult": kRes, "IsError": kErr, "IsResultOrError": kRes | kErr}
var mustFields = map[string]struct {
	f    string
	kind int
}{"MustId": {"Id", kReq | kRes | kErr}, "MustMethod": {"Method", kReq | kNtf}, "MustParams": {"Params", kReq | kNtf}, "MustResult": {"Result", kRes}, "MustError": {"Error", kErr}}

func tKind(m *Term, mask int) *Term {
	m = stripMsg(m)
	return mk(OKind, types.Typ[types.Bool], "", mask, m)
}

// base of a message receiver: the interface or pointer term
func msgBase(t *Term) *Term {
	t = stripMsg(t)
	if t.op == OFieldAddr && t.str == "BaseMessage" {
		return t.args[0]
	}
	if t.op == ODeref && t.args[0].op == OFieldAddr && t.args[0].str == "BaseMessage" {
		return t.args[0].args[0]
	}
	if t.op == ODeref && isMsgPtr(t.args[0].typ) {
		return t.args[0]
	}
	return t
}

func traceAddr(m *Term) *Term {
	b := mk(OFieldAddr, types.NewPointer(theWorld.Type("jlib", "BaseMessage")), "BaseMessage", 0, m)
	return mk(OFieldAddr, types.NewPointer(types.Typ[types.String]), traceField(), 0, b)
}

func msgFieldAddr(m *Term, f string) *Term {
	var ft types.Type = types.NewInterfaceType(nil, nil)
	switch f {
	case "Method":
		ft = types.Typ[types.String]
	case "Params":
		ft = types.NewSlice(types.NewInterfaceType(nil, nil))
	case "Error":
		ft = types.NewPointer(theWorld.Type("jlib", "RPCError"))
	}
	return mk(OFieldAddr, types.NewPointer(ft), f, 0, stripMsg(m))
}

func (a *Analysis) messageCall(st *State, name string, args []*Term, res *ssa.Call, set func(*State, *Term), ci ssa.CallInstruction) (*Term, bool) {
	if len(args) == 0 || !(strings.HasPrefix(name, "(jlib.") || strings.HasPrefix(name, "(*jlib.")) {
		return nil, false
	}
	i := strings.LastIndex(name, ").")
	if i < 0 {
		return nil, false
	}
	tn := strings.TrimLeft(name[1:i], "*")
	tn = strings.TrimPrefix(tn, "jlib.")
	meth := name[i+2:]
	if tn != "Message" && tn != "BaseMessage" && msgKindNames[tn] == 0 && tn != "RequestMessage" {
		return nil, false
	}
	recv := args[0]
	if recv.op == OStruct || recv.op == OZero {
		return nil, false
	}
	m := msgBase(recv)
	// freshly built message with its fields in the heap: interpret the real code
	if m.op == OAlloc {
		return nil, false
	}
	if tn != "Message" && tn != "BaseMessage" {
		// concrete receiver: only the kind/trace accessors are modelled
		if _, ok := kindPreds[meth]; !ok && meth != "TraceId" && meth != "SetTraceId" {
			return nil, false
		}
	}
	if tn == "Message" {
		a.nilCheck(st, m, ci)
	}
	if mask, ok := kindPreds[meth]; ok {
		set(st, tKind(m, mask))
		return nil, true
	}
	switch meth {
	case "TraceId":
		set(st, a.load(st, traceAddr(m), types.Typ[types.String]))
		return nil, true
	case "SetTraceId":
		a.emit(st, &Event{kind: EvStore, name: "SetTraceId", args: []*Term{traceAddr(m), args[1]}, instr: ci, pos: ci.Pos()})
		a.store(st, traceAddr(m), args[1])
		return nil, true
	}
	if mf, ok := mustFields[meth]; ok && tn == "Message" {
		// panics off-kind
		k := tKind(m, mf.kind)
		a.emit(st, &Event{kind: EvAssert, name: "must:" + meth, args: []*Term{m}, instr: ci, pos: ci.Pos(), ok: st.facts.Implies(Lit{k, true})})
		ad := msgFieldAddr(m, mf.f)
		st.facts = st.facts.with(Lit{k, true})
		set(st, a.load(st, ad, deref(ad.typ)))
		return nil, true
	}
	return nil, false
}

// ---- builtins

func (a *Analysis) builtin(st *State, ci ssa.CallInstruction, res *ssa.Call, name string, args []*Term, isDefer bool) bool {
	fr := st.top()
	set := func(t *Term) {
		if res != nil {
			fr.regs[res] = t
		}
	}
	switch name {
	case "len":
		x := args[0]
		if mt := x.typ; mt != nil {
			if _, ok := mt.Underlying().(*types.Map); ok {
				set(tLen(a.mapState(st, x)))
				return true
			}
		}
		set(tLen(x))
	case "cap":
		set(mk(OCap, types.Typ[types.Int], "", 0, args[0]))
	case "append":
		var t types.Type
		if res != nil {
			t = res.Type()
		}
		if len(args) == 1 {
			set(args[0])
			return true
		}
		x := a.resolve(st.heap, args[1])
		a.emit(st, &Event{kind: EvAppend, args: []*Term{args[0], x}, instr: ci, pos: ci.Pos()})
		if x.op == OSliceLit {
			set(mkAppend(t, "", append([]*Term{args[0]}, x.args...)))
		} else if x.op == ONil {
			set(args[0])
		} else {
			set(mk(OAppend, t, "...", 0, args[0], x))
		}
	case "delete":
		a.emit(st, &Event{kind: EvMapDelete, args: args, instr: ci, pos: ci.Pos()})
		st.heap = a.storeHeap(st.heap, mapCell(args[0]), mk(OMapDel, args[0].typ, "", 0, a.mapState(st, args[0]), args[1]))
	case "close":
		a.emit(st, &Event{kind: EvClose, args: args, instr: ci, pos: ci.Pos(), defr: isDefer})
	case "copy":
		d := args[0]
		for d.op == OSlice {
			d = d.args[0]
		}
		cp := mk(OCall, types.Typ[types.Int], "builtin copy"+"\x00"+siteOf(fr, ci), 0, args...)
		a.emit(st, &Event{kind: EvCall, name: "builtin copy", args: args, instr: ci, pos: ci.Pos(), res: cp})
		if d.op == OMake || d.op == OAlloc {
			// contents of the destination: remember the source
			st.heap = a.storeHeap(st.heap, mk(OCell, nil, "copy", 0, d), args[1])
		}
		set(cp)
	case "recover":
		var v *Term = tNil
		if fr.isDefer && len(st.frames) >= 2 {
			p := st.frames[len(st.frames)-2]
			if p.unwind && !p.recov && p.pval != nil {
				v = p.pval
				p.recov = true
			}
		}
		set(v)
	case "print", "println":
		set(mk(OTuple, nil, "", 0))
	case "ssa:wrapnilchk":
		set(args[0])
	case "min", "max":
		var t types.Type
		if res != nil {
			t = res.Type()
		}
		set(mk(OCall, t, "builtin "+name, 0, args...))
	case "clear":
		a.emit(st, &Event{kind: EvCall, name: "builtin clear", args: args, instr: ci, pos: ci.Pos()})
		st.heap = a.storeHeap(st.heap, mapCell(args[0]), mk(OMapInit, args[0].typ, "", 0))
	default:
		a.fail = "builtin " + name + " not modelled"
		return false
	}
	_ = constant.MakeBool
	return true
}
