package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// M16, A21, K15: nothing received can make the code panic.

func init() {
	const sem = "every path is checked for operations that panic on some data: an index or slice not proved within bounds, a type assertion or Must accessor not proved to fit, a method called on or a field read through something not proved to be there (the result of a call whose error was not seen to be nil, an absent map entry, an optional field of an HTTP request or response), and explicit panics"
	register("M16", "the decoders, encoders and describing methods of messages, protocol errors, validation errors and HTTP errors are interpreted on any argument; "+sem, checkM16)
	register("A21", "the handlers' ServeHTTP, the actor's Feed and HandleClose, the methods of sessions, the goroutines they start, the callbacks registration wraps and the helpers for handlers are interpreted; "+sem, checkA21)
	register("K15", "every exported method of the clients and their transports, and the goroutines they start, is interpreted; "+sem, checkK15)
}

type panicScan struct {
	c  *Ctx
	id string
	n  int
	// types of the values put into caches
	cached map[string]map[string]bool
}

// optional fields of library structs reached from what is received
var optional = map[string]bool{"TLS": true, "MultipartForm": true, "Response": true, "Cancel": true, "GetBody": true, "Request": true}

// mayMiss: x may be nil for all that is known without facts about it.
func (p *panicScan) mayMiss(f *Facts, x *Term) bool {
	x = unConv(x)
	if x.op == OMkIface {
		return false
	}
	switch x.op {
	case ONil, OZero:
		return true
	case OExtract:
		call := x.args[0]
		if call.op != OCall {
			return call.op == OLookup
		}
		tup, ok := call.typ.(*types.Tuple)
		if !ok || tup.Len() < 2 {
			return false
		}
		last := tup.At(tup.Len() - 1).Type()
		l := tExtract(call, tup.Len()-1, last)
		if x == l {
			return true // the error itself
		}
		n := call.str2()
		if strings.HasSuffix(n, ").Feed") {
			return true // nothing to answer
		}
		if isErrT(last) {
			return isNil(f, l) != 1
		}
		if isBoolType(last) {
			return f.Val(l) != 1
		}
		return false
	case OCall:
		return isErrT(x.typ)
	case OLookup:
		return f.Val(mk(OLookupOk, types.Typ[types.Bool], "", 0, x.args[0], x.args[1])) != 1
	case ODeref:
		a := x.args[0]
		if a.op != OFieldAddr {
			return false
		}
		return p.optionalField(a.args[0].typ, a.str)
	case OField:
		return p.optionalField(x.args[0].typ, x.str)
	}
	return false
}

func (p *panicScan) optionalField(base types.Type, f string) bool {
	b := deref(base)
	if isNamed(b, "http", "Request") || isNamed(b, "http", "Response") {
		return optional[f]
	}
	if isNamed(b, "jlibhttp", "RPCRequest") {
		t := structOf(b)
		for i := 0; i < t.NumFields(); i++ {
			if t.Field(i).Name() == f {
				return isPtrTo(t.Field(i).Type(), "http", "Request") || isIfaceNamed(t.Field(i).Type(), "RPCSession")
			}
		}
	}
	return false
}

func (p *panicScan) walk(who string, outs []*Outcome) {
	c := p.c
	for _, o := range outs {
		for _, e := range o.evs {
			if p.impossible(e.facts) {
				continue
			}
			switch e.kind {
			case EvIndex, EvAssert:
				p.n++
				what := "an index or slice that may be out of range"
				if e.kind == EvAssert {
					what = "an assertion to " + e.name + " that may fail"
					if strings.HasPrefix(e.name, "must:") {
						what = strings.TrimPrefix(e.name, "must:") + ", which panics on other kinds of messages"
					}
				}
				if ta, ok := e.instr.(*ssa.TypeAssert); ok && p.fits(e.args[0], ta.AssertedType.String()) {
					continue
				}
				if e.name == "must:MustId" && answered(o, e) {
					continue
				}
				c.ob(e.ok, p.id+":"+kindKey(e.kind)+":"+who, e.pos, "%s uses %s, on %s", who, what, e.args[0])
			case EvDeref:
				if e.ok || !p.mayMiss(e.facts, e.args[0]) {
					continue
				}
				p.n++
				c.ob(isNil(e.facts, e.args[0]) == 0, p.id+":nil:"+who, e.pos, "%s goes through %s, which may be nil", who, e.args[0])
			case EvCall:
				if len(e.args) == 0 || e.dyn && e.obj == nil || !strings.HasPrefix(e.name, "(") {
					continue
				}
				r := e.args[0]
				if r.typ == nil {
					continue
				}
				_, itf := r.typ.Underlying().(*types.Interface)
				_, ptr := r.typ.Underlying().(*types.Pointer)
				if !itf && !ptr || !p.mayMiss(e.facts, r) {
					continue
				}
				p.n++
				c.ob(isNil(e.facts, r) == 0, p.id+":nil:"+who, e.pos, "%s calls %s on %s, which may be nil", who, e.name, r)
			}
		}
		if o.kind == OutPanic && !p.impossible(o.facts) && !(p.id == "K15" && refused(o)) {
			c.ob(false, p.id+":panic:"+who, o.pos, "a path of %s panics with %s", who, o.pval)
		}
		p.n++
	}
}

// answered: the actor gave a reply before, which it does only for messages
// with an id (A01).
func answered(o *Outcome, e *Event) bool {
	for _, x := range o.evs {
		if x == e {
			return false
		}
		if x.kind == EvCall && x.res != nil && strings.HasSuffix(x.name, ").Feed") && isNil(e.facts, resAt(x.res, 0)) == 0 {
			return callTerm(unConv(e.args[0]), "jlib.ParseBytes", "jlib.DecodeMessage") || unConv(e.args[0]).op == OExtract
		}
	}
	return false
}

// stored: the only type of the values put into caches (lru) or synchronised
// maps (sync), "" if there are several.
func (p *panicScan) stored(pkg string) string {
	if p.cached == nil {
		p.cached = map[string]map[string]bool{"lru": {}, "sync": {}}
		for _, fn := range p.c.w.funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok || ci.Common().StaticCallee() == nil {
						continue
					}
					g := ci.Common().StaticCallee()
					if g.Signature.Recv() == nil || len(ci.Common().Args) < 3 {
						continue
					}
					pkg := ""
					switch {
					case isPtrTo(g.Signature.Recv().Type(), "lru", "Cache"):
						pkg = "lru"
					case isPtrTo(g.Signature.Recv().Type(), "sync", "Map") && g.Name() != "CompareAndDelete":
						pkg = "sync"
					default:
						continue
					}
					last := ci.Common().Args[len(ci.Common().Args)-1]
					if mi, ok := last.(*ssa.MakeInterface); ok {
						p.cached[pkg][mi.X.Type().String()] = true
					} else {
						p.cached[pkg]["?"] = true
					}
				}
			}
		}
	}
	for t := range p.cached[pkg] {
		if len(p.cached[pkg]) == 1 && t != "?" {
			return t
		}
	}
	return ""
}

// fits: x was got from a cache or map that holds only values of type t.
func (p *panicScan) fits(x *Term, t string) bool {
	x = unConv(x)
	if x.op != OExtract || x.args[0].op != OCall {
		return false
	}
	switch x.args[0].str2() {
	case "(*lru.Cache).Get", "(*lru.Cache).Peek":
		return p.stored("lru") == t
	case "(*sync.Map).Load", "(*sync.Map).LoadAndDelete", "(*sync.Map).LoadOrStore":
		return p.stored("sync") == t
	}
	return false
}

// impossible: the facts deny the only type of the values that are put into a
// cache for a value got from one.
func (p *panicScan) impossible(f *Facts) bool {
	for _, l := range f.lits {
		if !l.val && l.t.op == OTypeIs && p.fits(l.t.args[0], l.t.typ.String()) {
			return true
		}
	}
	return false
}

// refused: the panic is that of making a message the caller gave no method or
// id for.
func refused(o *Outcome) bool {
	if o.pval == nil {
		return false
	}
	s := unIface(o.pval).String()
	return strings.HasSuffix(s, ".ErrEmptyMethod") || strings.HasSuffix(s, ".ErrNilId")
}

func kindKey(k EvKind) string {
	if k == EvIndex {
		return "index"
	}
	return "assert"
}

func (p *panicScan) goroutines(who string, outs []*Outcome, opaque []string, depth int, seen map[string]bool) {
	for _, o := range outs {
		for _, e := range o.evs {
			if e.kind != EvGo {
				continue
			}
			fn := e.fn
			if fn == nil && e.callee != nil {
				fn = e.callee.fn
			}
			if fn == nil || fn.Blocks == nil {
				continue
			}
			k := who + "/" + p.c.w.Pos(e.instr.Pos())
			if seen[k] || depth > 3 {
				continue
			}
			seen[k] = true
			a := newAnalysis(p.c.w, opaque...)
			a.derefs = true
			a.heap0, a.facts0 = e.heap, e.facts.lits
			if e.callee != nil && e.callee.op == OClosure {
				a.binds = e.callee.args
			}
			g := p.c.run(a, fn, e.args...)
			p.walk("goroutine "+shortFn(fn), g)
			p.c.site(fn.Pos(), "goroutine "+shortFn(fn))
			p.goroutines(k, g, opaque, depth+1, seen)
		}
	}
}

func (p *panicScan) root(fn *ssa.Function, who string, opaque []string, params ...*Term) {
	if fn == nil || fn.Blocks == nil {
		return
	}
	var op []string
	for _, o := range opaque {
		if o != fnKey(fn) && o != shortFn(fn) && !strings.HasSuffix(o, ")."+fn.Name()) {
			op = append(op, o)
		}
	}
	a := newAnalysis(p.c.w, op...)
	a.derefs = true
	outs := p.c.run(a, fn, params...)
	p.walk(who, outs)
	p.goroutines(who, outs, op, 0, map[string]bool{})
	p.c.site(fn.Pos(), who)
}

// namedTypes: the struct types of a package, in order.
func (c *Ctx) namedTypes(pkg string) (r []*types.Named) {
	sc := c.w.pkgs[pkg].Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		if t, ok := tn.Type().(*types.Named); ok && structOf(t) != nil {
			r = append(r, t)
		}
	}
	return
}

func checkM16(c *Ctx) {
	p := &panicScan{c: c, id: "M16"}
	for _, n := range []string{"ParseBytes", "DecodeMessage", "MessageBytes", "MessageMap", "EncodePretty", "MarshalJson", "GuessJson", "DecodeInterface", "ErrorResponse", "IsMethod", "IsPublicMethod"} {
		p.root(c.fn("jlib", n), n, nil)
	}
	p.root(c.fn("jlibhttp", "Logger"), "Logger", nil)
	p.root(c.fn("jlibhttp", "AuthInfoFromContext"), "AuthInfoFromContext", nil)
	types_ := 0
	msg := c.typ("jlib", "Message").Underlying().(*types.Interface)
	for _, pkg := range []string{"jlib", "jlibhttp", "jlibschema"} {
		for _, t := range c.namedTypes(pkg) {
			pt := types.NewPointer(t)
			isErr := types.Implements(pt, types.Universe.Lookup("error").Type().Underlying().(*types.Interface))
			isMsg := types.Implements(pt, msg)
			if !isErr && !isMsg {
				continue
			}
			types_++
			ms := types.NewMethodSet(pt)
			for i := 0; i < ms.Len(); i++ {
				f := ms.At(i).Obj().(*types.Func)
				if !f.Exported() || strings.HasPrefix(f.Name(), "Must") || f.Name() == "ReplaceId" || f.Name() == "Clone" || f.Name() == "CacheKey" {
					continue // give the caller an error of its own making
				}
				self := tSym("self", pt)
				fn := c.methOf(pt, f.Name())
				if fn == nil || len(ms.At(i).Index()) > 1 {
					continue
				}
				if len(fn.Params) > 0 {
					if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); !ok {
						self = tSym("self", fn.Params[0].Type())
					}
				}
				p.root(fn, t.Obj().Name()+"."+f.Name(), nil, self)
			}
		}
	}
	c.count("operations", p.n)
	c.count("types", types_)
	c.ob(types_ >= 7, "M16:types", c.fn("jlib", "ParseBytes").Pos(), "only %d message and error types were found", types_)
}

func checkA21(c *Ctx) {
	p := &panicScan{c: c, id: "A21"}
	sess := c.typ("jlibhttp", "RPCSession").Underlying().(*types.Interface)
	n := 0
	for _, t := range c.namedTypes("jlibhttp") {
		pt := types.NewPointer(t)
		self := tSym("self", pt)
		ms := types.NewMethodSet(pt)
		for _, m := range []string{"ServeHTTP", "Feed", "HandleClose", "Log"} {
			if s := ms.Lookup(t.Obj().Pkg(), m); s != nil && (m != "Log" || t.Obj().Name() == "RPCRequest") {
				n++
				p.root(c.methOf(pt, m), t.Obj().Name()+"."+m, sessOpaque, self)
			}
		}
		if types.Implements(pt, sess) {
			for i := 0; i < sess.NumMethods(); i++ {
				m := sess.Method(i).Name()
				n++
				p.root(c.methOf(pt, m), t.Obj().Name()+"."+m, sessOpaque, self)
			}
		}
	}
	p.root(c.fn("jlibhttp", "NewRPCRequest"), "NewRPCRequest", nil)
	c.count("operations", p.n)
	c.count("entries", n)
	c.ob(n >= 8, "A21:entries", c.fn("jlibhttp", "NewActor").Pos(), "only %d entries of the server were found", n)
}

func checkK15(c *Ctx) {
	p := &panicScan{c: c, id: "K15"}
	tp := c.typ("jlibhttp", "Transport").Underlying().(*types.Interface)
	cl := c.typ("jlibhttp", "Client").Underlying().(*types.Interface)
	opaque := []string{"jlib.ParseBytes", "jlib.MessageBytes", "jlib.DecodeMessage", "(*jlibhttp.StreamingClient).Log"}
	n := 0
	for _, t := range c.namedTypes("jlibhttp") {
		pt := types.NewPointer(t)
		if !types.Implements(pt, tp) && !types.Implements(pt, cl) && t.Obj().Name() != "StreamingClient" {
			continue
		}
		ms := types.NewMethodSet(pt)
		for i := 0; i < ms.Len(); i++ {
			f := ms.At(i).Obj().(*types.Func)
			if !f.Exported() || len(ms.At(i).Index()) > 1 || f.Name() == "UnwrapCall" {
				continue // K06 looks into UnwrapCall
			}
			n++
			p.root(c.methOf(pt, f.Name()), t.Obj().Name()+"."+f.Name(), opaque, tSym("self", pt))
		}
	}
	c.count("operations", p.n)
	c.count("methods", n)
	c.ob(n >= 20, "K15:methods", c.fn("jlibhttp", "NewH1Client").Pos(), "only %d methods of clients and transports were found", n)
}
