package main

// X03: the FIFO example.

import (
	"go/types"
	"strings"
)

func init() {
	register("X03", "lockset analysis of the handlers the FIFO example registers: every path's accesses to variables shared by them are matched with the locks held there; returned values are traced to shared memory; element accesses need a bound proved on the path", checkX03)
}

type fifoAccess struct {
	where string
	o     *Outcome
	e     *Event
	addr  *Term
	write bool
	elems bool // what a map holds, not the variable
	held  int  // 2 exclusively, 1 shared
}

func checkX03(c *Ctx) {
	fn := c.fn(modPath+"/examples/fifo", "main")
	c.site(fn.Pos(), "examples/fifo main")
	a := newAnalysis(c.w, "(*jlibhttp.Actor).On", "(*jlibhttp.Actor).OnTyped", "(*jlibhttp.Actor).OnRequest", "(*jlibhttp.Actor).OnTypedRequest", "(*jlibhttp.Actor).OnTypedContext", "(*jlibhttp.Actor).OnContext", "(*jlibhttp.Actor).OnMissing", "(*jlibhttp.Actor).OnClose",
		"jlibhttp.NewGatewayHandler", "jlibhttp.ListenAndServe")
	syms := map[*Term]*Term{}
	handlers := map[string]bool{}
	var accs []fifoAccess
	type ret struct {
		where string
		o     *Outcome
		addr  *Term
	}
	var rets []ret
	for _, o := range c.run(a, fn) {
		for _, e := range o.evs {
			if e.kind != EvCall || !strings.HasPrefix(e.name, "(*jlibhttp.Actor).On") {
				continue
			}
			where := strings.TrimPrefix(e.name, "(*jlibhttp.Actor).")
			var h *Term
			for _, x := range e.args[1:] {
				if x.op == OConst && constStr(x) != "" && h == nil {
					where = constStr(x)
				}
				if y := unConv(unIface(x)); h == nil && y.fn != nil && (y.op == OClosure || y.op == OFunc) {
					h = y
				}
			}
			if !c.ob(h != nil, "X03:handler:"+where, e.pos, "what handles %s is not known", where) || handlers[where] {
				continue
			}
			handlers[where] = true
			c.site(h.fn.Pos(), where)
			g := newAnalysis(c.w)
			g.loads = true
			if h.op == OClosure {
				for _, b := range h.args {
					if b.op == OAlloc {
						if syms[b] == nil {
							syms[b] = tSym("shared"+b.String(), b.typ)
						}
						b = syms[b]
					}
					g.binds = append(g.binds, b)
				}
			}
			shared := map[*Term]bool{}
			for _, s := range syms {
				shared[s] = true
			}
			var ps []*Term
			for _, p := range h.fn.Params {
				ps = append(ps, tSym(p.Name(), p.Type()))
			}
			for _, w := range c.run(g, h.fn, ps...) {
				held := map[*Term]int{}
				max := func() int {
					m := 0
					for _, n := range held {
						if n > m {
							m = n
						}
					}
					return m
				}
				add := func(x *Event, addr *Term, write, elems bool) {
					if shared[rootOf(addr)] && !isLock(deref(addr.typ)) {
						accs = append(accs, fifoAccess{where, w, x, addr, write, elems, max()})
					}
				}
				cell := func(m *Term) *Term {
					if m != nil && m.op == ODeref {
						return m.args[0]
					}
					return nil
				}
				for _, x := range w.evs {
					switch x.kind {
					case EvCall:
						if len(x.args) == 0 {
							continue
						}
						switch x.name {
						case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
							held[x.args[0]] = 2
						case "(*sync.RWMutex).RLock":
							held[x.args[0]] = 1
						case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
							held[x.args[0]] = 0
						}
					case EvStore:
						add(x, x.args[0], true, false)
					case EvLoad:
						if x.name == "map" || x.name == "range" {
							if cl := cell(x.args[0]); cl != nil {
								add(x, cl, false, true)
							}
						} else {
							add(x, x.args[0], false, false)
						}
					case EvMapUpdate, EvMapDelete:
						if cl := cell(x.args[0]); cl != nil {
							add(x, cl, true, true)
						}
					case EvIndex:
						c.ob(x.ok, "X03:index:"+where, x.pos, "%s looks up an element that may not be there", where)
					}
				}
				if w.kind == OutReturn || w.kind == OutPanic {
					c.ob(max() == 0, "X03:release:"+where, w.pos, "%s ends holding the lock", where)
				}
				if w.kind == OutReturn && len(w.rets) > 0 {
					r := unIface(w.rets[0])
					if r.typ == nil {
						continue
					}
					switch r.typ.Underlying().(type) {
					case *types.Slice, *types.Map:
						for r.op == OSlice {
							r = r.args[0]
						}
						if cl := cell(r); cl != nil && shared[rootOf(cl)] {
							rets = append(rets, ret{where, w, cl})
						}
					}
				}
			}
		}
	}
	// what is modified by some handler
	mod := map[*Term]bool{}
	modElems := map[*Term]bool{}
	for _, x := range accs {
		if x.write && x.elems {
			modElems[x.addr] = true
		} else if x.write {
			mod[x.addr] = true
		}
	}
	n := 0
	for _, x := range accs {
		if x.elems && !modElems[x.addr] || !x.elems && !mod[x.addr] {
			continue
		}
		n++
		what := "queue"
		if _, ok := deref(x.addr.typ).Underlying().(*types.Map); ok {
			what = "table"
		}
		if x.write {
			c.ob(x.held == 2, "X03:write:"+what+":"+x.where, x.e.pos, "%s changes the shared %s without holding the lock exclusively", x.where, what)
		} else {
			c.ob(x.held > 0, "X03:read:"+what+":"+x.where, x.e.pos, "%s reads the shared %s without holding the lock", x.where, what)
		}
	}
	for _, r := range rets {
		c.ob(!mod[r.addr] && !modElems[r.addr], "X03:return:"+r.where, r.o.pos, "%s returns memory that later requests change while it is encoded", r.where)
	}
	c.count("accesses", n)
	c.count("handlers", len(handlers))
	c.ob(len(handlers) > 0 && n > 0, "X03:none", fn.Pos(), "no handler shares anything")
}

func isLock(t types.Type) bool { return isNamed(t, "sync", "Mutex") || isNamed(t, "sync", "RWMutex") }
