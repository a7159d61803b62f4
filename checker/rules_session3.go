package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// ---- A17: one slow request does not hold up its session

const spawnOpt = "SpawnGoroutine"

func init() {
	register("A17", "ServeHTTP of the WebSocket and HTTP/2 handlers is interpreted path by path, and so is every goroutine it starts: in the goroutine that reads, a message is fed to the actor in place only on paths whose facts say SpawnGoroutine is off, and in a goroutine started for it only on paths whose facts say it is on; the handlers the constructors and the gateway make have it on, and nothing but their maker sets it", checkA17)
}

func checkA17(c *Ctx) {
	for _, t := range []string{"WS", "H2"} {
		v := &sessView{c: c, id: "A17", typ: t}
		v.load()
		v.spawns()
		c.spawnDefault(t + "Handler")
	}
	c.spawnGateway()
	c.spawnStores()
}

func (v *sessView) spawns() {
	on := v.c.fieldOf(v.self, spawnOpt)
	spawned, inline := 0, 0
	for _, g := range v.gors {
		if !g.reads || g.start == nil || g.parent != nil {
			continue
		}
		for _, o := range g.outs {
			if stuckAway(g.outs, o) {
				continue
			}
			evs := o.evs
			if o.kind == OutLoop {
				evs = o.evs[o.loop.nev:]
			}
			read := false
			for _, e := range evs {
				switch {
				case v.isRead(e):
					read = true
				case read && e.kind == EvGo:
					spawned++
					v.ob("A17", o.facts.Val(on) == 1, "inorder", e.pos, "messages may be handled concurrently although %s is off", spawnOpt)
				case read && isFeed(e):
					inline++
					v.ob("A17", o.facts.Val(on) == 0, "slow", e.pos, "reading waits for the handler of a message although %s may be on", spawnOpt)
				}
			}
		}
	}
	v.c.count("spawned", spawned)
	v.ob("A17", spawned > 0, "spawns", v.first.pos, "no message is handled in a goroutine of its own")
	v.ob("A17", inline > 0, "inline", v.first.pos, "messages are never handled one at a time, whatever %s says", spawnOpt)
}

func (c *Ctx) ctorRun(name string) (*Analysis, []*Outcome, token.Pos) {
	fn := c.fn("jlibhttp", name)
	c.site(fn.Pos(), name)
	a := newAnalysis(c.w)
	return a, c.run(a, fn), fn.Pos()
}

func (c *Ctx) spawnDefault(typ string) {
	a, outs, pos := c.ctorRun("New" + typ)
	n := 0
	for _, o := range outs {
		if o.kind != OutReturn {
			continue
		}
		n++
		c.ob(o.facts.Val(c.fget(a, o, o.rets[0], spawnOpt)) == 1, "A17:default:"+typ, o.pos, "New%s makes a handler that handles one message of a session at a time", typ)
	}
	c.ob(n > 0, "A17:default:"+typ, pos, "New%s never returns", typ)
}

func (c *Ctx) spawnGateway() {
	a, outs, pos := c.ctorRun("NewGatewayHandler")
	gt := c.typ("jlibhttp", "GatewayHandler")
	n := 0
	for _, o := range outs {
		if o.kind != OutReturn {
			continue
		}
		st := structOf(gt)
		for i := 0; i < st.NumFields(); i++ {
			h, typ, _ := handlerOf(c.fget(a, o, o.rets[0], st.Field(i).Name()))
			if h == nil || typ == "H1Handler" {
				continue
			}
			n++
			c.ob(o.facts.Val(c.fget(a, o, h, spawnOpt)) == 1, "A17:gateway:"+typ, o.pos, "the gateway's %s handles one message of a session at a time", typ)
		}
	}
	c.ob(n >= 2, "A17:gateway", pos, "the gateway's streaming handlers are not found")
}

// spawnStores: only constructors set the option, on what they make.
func (c *Ctx) spawnStores() {
	fr := c.newFreshness()
	for _, fn := range c.w.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !isNamed(deref(fa.X.Type()), "jlibhttp", "WSHandler") && !isNamed(deref(fa.X.Type()), "jlibhttp", "H2Handler") || structOf(deref(fa.X.Type())).Field(fa.Field).Name() != spawnOpt {
					continue
				}
				c.count("option_stores", 1)
				c.ob(fr.fresh(fa.X, map[ssa.Value]bool{}), "A17:stores", s.Pos(), "%s changes %s of a handler it did not make", shortFn(fn), spawnOpt)
			}
		}
	}
}
