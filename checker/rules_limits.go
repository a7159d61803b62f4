package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- A20: connections without limits of their own

func init() {
	register("A20", "every function that the HTTP, WebSocket, HTTP/2, gateway and auth handlers, the sessions, ListenAndServe, the streaming clients and their transports, and their constructors can get to (calls, function values, goroutines) is scanned: none sets a deadline or read limit on a connection, cuts a body or stream short, sets a timeout of an http.Server that covers requests or of the http.Client of a streaming client, wraps a handler in a timeout, or derives a context with a deadline; ServeHTTP of the session handlers, interpreted path by path, returns only after the session, its connection's context or the server's context was seen to end", checkA20)
}

// calls that limit a connection or what is read from it
var limiting = map[string]string{
	"(*github.com/gorilla/websocket.Conn).SetReadLimit":     "limits the size of messages",
	"(*github.com/gorilla/websocket.Conn).SetReadDeadline":  "sets a deadline on a connection",
	"(*github.com/gorilla/websocket.Conn).SetWriteDeadline": "sets a deadline on a connection",
	"(*net/http.ResponseController).SetReadDeadline":        "sets a deadline on a connection",
	"(*net/http.ResponseController).SetWriteDeadline":       "sets a deadline on a connection",
	"io.LimitReader":            "reads only a part of what is sent",
	"net/http.MaxBytesReader":   "limits the size of messages",
	"net/http.MaxBytesHandler":  "limits the size of messages",
	"net/http.TimeoutHandler":   "limits the time of a request",
	"context.WithTimeout":       "ends a context after a time",
	"context.WithDeadline":      "ends a context after a time",
	"context.WithTimeoutCause":  "ends a context after a time",
	"context.WithDeadlineCause": "ends a context after a time",
	"time.AfterFunc":            "acts after a time",
}

// methods of net.Conn and its kin, called through an interface or not
var deadlines = map[string]bool{"SetDeadline": true, "SetReadDeadline": true, "SetWriteDeadline": true}

// fields that set a limit
var limitFields = map[string]bool{
	"net/http.Server.ReadTimeout": true, "net/http.Server.WriteTimeout": true,
	"net/http.Client.Timeout": true, "io.LimitedReader.N": true,
}

// gets: the functions of the module that f calls or mentions.
func (w *World) gets(roots []*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var q []*ssa.Function
	add := func(g *ssa.Function) {
		if g != nil && !seen[g] && inModule(g) {
			seen[g] = true
			q = append(q, g)
		}
	}
	for _, f := range roots {
		add(f)
	}
	for i := 0; i < len(q); i++ {
		for _, b := range q[i].Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
						// the method behind a method value
						if o := g.Object(); o != nil && g.Synthetic != "" {
							if m, ok := o.(*types.Func); ok {
								add(w.prog.FuncValue(m))
							}
						}
					}
				}
			}
		}
	}
	return seen
}

func (c *Ctx) methodsOf(typ string) []*ssa.Function {
	return c.methodsOfType(c.typ("jlibhttp", typ))
}

func (c *Ctx) methodsOfType(n *types.Named) []*ssa.Function {
	ms := c.w.prog.MethodSets.MethodSet(types.NewPointer(n))
	var r []*ssa.Function
	for i := 0; i < ms.Len(); i++ {
		m := ms.At(i).Obj().(*types.Func)
		if rt := m.Type().(*types.Signature).Recv(); !types.Identical(deref(rt.Type()), n) {
			continue // promoted: of another type
		}
		if f := c.w.prog.FuncValue(m); f != nil {
			r = append(r, f)
		}
	}
	return r
}

func checkA20(c *Ctx) {
	server := c.fnsOf("ListenAndServe", "NewGatewayHandler", "NewH1Handler", "NewH2Handler", "NewWSHandler")
	for _, t := range []string{"H1Handler", "H2Handler", "WSHandler", "GatewayHandler", "AuthHandler", "WSSession", "H2Session"} {
		server = append(server, c.methodsOf(t)...)
	}
	client := c.fnsOf("NewH2Client", "NewWSClient")
	for _, t := range []string{"WSClient", "H2Client"} {
		client = append(client, c.methodsOf(t)...)
	}
	for _, t := range (&cliView{c: c, id: "A20"}).transports() {
		client = append(client, c.methodsOfType(t)...)
	}
	client = append(client, c.method("jlibhttp", "StreamingClient", "Connect"))
	for _, t := range []string{"WS", "H2"} {
		v := &sessView{c: c, id: "A20", typ: t}
		v.load()
		v.early("A20")
	}
	c.limitScan("server", server)
	c.limitScan("client", client)
	whole := c.fnsOf("NewH1Client")
	whole = append(whole, c.methodsOf("H1Client")...)
	whole = append(whole, c.methodsOf("StreamingClient")...)
	c.limitScan("call", whole)
}

func (c *Ctx) fnsOf(names ...string) []*ssa.Function {
	var r []*ssa.Function
	for _, n := range names {
		r = append(r, c.fn("jlibhttp", n))
	}
	return r
}

func (c *Ctx) limitScan(what string, roots []*ssa.Function) {
	for _, f := range roots {
		c.site(f.Pos(), shortFn(f))
	}
	in := c.w.gets(roots)
	n := 0
	for _, f := range c.w.funcs {
		if !in[f] {
			continue
		}
		n++
		c.funcs[f.String()] = true
		bad := false
		note := func(pos token.Pos, msg string) {
			bad = true
			c.ob(false, "A20:"+what, pos, "%s %s", shortFn(f), msg)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					cc := x.Common()
					if cc.IsInvoke() {
						if deadlines[cc.Method.Name()] {
							note(x.Pos(), "sets a deadline on a connection")
						}
						continue
					}
					g := cc.StaticCallee()
					if g == nil || inModule(g) {
						continue
					}
					name := g.String()
					why := limiting[name]
					if why == "" && deadlines[g.Name()] && g.Signature.Recv() != nil {
						why = "sets a deadline on a connection"
					}
					if why == "" || what == "call" && timeLimit(name) || unlimited(cc, name) {
						continue
					}
					note(x.Pos(), why)
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					t := deref(fa.X.Type())
					key := types.TypeString(t, nil) + "." + structOf(t).Field(fa.Field).Name()
					if !limitFields[key] || what == "call" && strings.HasPrefix(key, "net/http.Client.") {
						continue
					}
					if k, ok := x.Val.(*ssa.Const); ok && k.Value != nil && constant.Sign(k.Value) == 0 {
						continue
					}
					note(x.Pos(), "sets "+key)
				}
			}
		}
		c.ob(!bad, "A20:"+what, f.Pos(), "%s sets a limit", shortFn(f))
	}
	c.count("functions_scanned", n)
	c.ob(n > len(roots)/2, "A20:vacuous:"+what, token.NoPos, "only %d functions are scanned", n)
}

// timeLimit: the call limits the time of something, not its size.
func timeLimit(name string) bool {
	return strings.HasPrefix(name, "context.") || strings.HasPrefix(name, "time.")
}

// unlimited: a limit of zero or less, which takes one away.
func unlimited(cc *ssa.CallCommon, name string) bool {
	if !strings.HasSuffix(name, ".SetReadLimit") {
		return false
	}
	k, ok := cc.Args[len(cc.Args)-1].(*ssa.Const)
	return ok && k.Value != nil && k.Value.Kind() == constant.Int && constant.Sign(k.Value) <= 0
}
