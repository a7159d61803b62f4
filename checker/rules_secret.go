package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// U06: credentials are not logged, echoed or put into errors.

func init() {
	register("U06", "taint analysis: the handlers' ServeHTTP, the actor's Feed and AuthConfig.ValidateValues are interpreted with every configured password, token and secret and every credential of the request (Authorization header, password, the raw JWT) as sources; on no path does a value built from one reach a log call, a response, an error, a panic or a package variable", checkU06)
}

type secretScan struct {
	c *Ctx
	a *Analysis
	n int
}

// secretType: printing a value of this type prints credentials.
func (s *secretScan) secretType(t types.Type) bool {
	for i := 0; i < 4; i++ {
		switch u := types.Unalias(t).(type) {
		case *types.Pointer:
			t = u.Elem()
			continue
		case *types.Slice:
			t = u.Elem()
			continue
		}
		break
	}
	for _, n := range []string{"BasicAuthConfig", "BearerAuthConfig", "JwtAuthConfig", "AuthConfig", "AuthHandler"} {
		if isNamed(t, "jlibhttp", n) {
			return true
		}
	}
	return isNamed(t, "http", "Header") || isNamed(t, "http", "Request") || isNamed(t, "jwt", "Token")
}

func (s *secretScan) secretField(base types.Type, f string) bool {
	base = deref(base)
	for _, n := range []string{"BasicAuthConfig", "BearerAuthConfig", "JwtAuthConfig"} {
		if isNamed(base, "jlibhttp", n) {
			return f != "Username" && f != "Settings"
		}
	}
	return isNamed(base, "jwt", "Token") && (f == "Raw" || f == "Signature")
}

// secret: what prints or contains a credential, with the memory at an event.
func (s *secretScan) secret(t *Term, h *Heap, seen map[*Term]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	rec := func() bool {
		for _, x := range t.args {
			if s.secret(x, h, seen) {
				return true
			}
		}
		return false
	}
	if t.typ != nil {
		if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Info()&(types.IsBoolean|types.IsNumeric) != 0 {
			return false
		}
		if isErrT(t.typ) {
			return false // errors are judged where they are made
		}
	}
	switch t.op {
	case OMkIface:
		return s.secretType(t.args[0].typ) && !isNamed(deref(t.args[0].typ), "jlibhttp", "AuthHandler") || rec()
	case ODeref:
		if a := t.args[0]; a.op == OFieldAddr {
			if s.secretField(a.args[0].typ, a.str) {
				return true
			}
			return false
		}
		if a := t.args[0]; a.op == OIndexAddr || a.op == OMapCell {
			return s.secret(a.args[0], h, seen)
		}
		return false
	case OField:
		if s.secretField(t.args[0].typ, t.str) {
			return true
		}
		return false
	case OLookup:
		return isNamed(t.args[0].typ, "http", "Header") || rec()
	case OCall:
		switch n := t.str2(); {
		case n == "(http.Header).Get" || n == "(http.Header).Values":
			k := t.args[len(t.args)-1]
			if k.op != OConst {
				return true
			}
			name := strings.ToLower(constStr(k))
			return name == "authorization" || name == "proxy-authorization" || name == "cookie"
		case n == "(*http.Request).BasicAuth":
			return true
		case n == "(*http.Request).Context", strings.HasPrefix(n, "jwt."), strings.HasPrefix(n, "(*lru."), strings.HasPrefix(n, "logrus."), strings.HasPrefix(n, "(*logrus."), strings.HasPrefix(n, "context."):
			return false
		}
		return rec()
	case OExtract:
		if c := t.args[0]; c.op == OCall && c.str2() == "(*http.Request).BasicAuth" {
			return t.n == 1
		}
		return rec()
	case OAlloc, OMake:
		if h != nil {
			for k, v := range h.m {
				if rootOf(k) == t && s.secret(v, h, seen) {
					return true
				}
			}
		}
		return false
	case OFieldAddr, OIndexAddr, OClosure, OFunc, OGlobal, OSym:
		return false
	}
	return rec()
}

func secretSink(e *Event) (string, []*Term) {
	if e.kind != EvCall {
		return "", nil
	}
	n := e.name
	switch {
	case strings.HasPrefix(n, "logrus.") || strings.HasPrefix(n, "(*logrus.") || strings.HasPrefix(n, "log.") || strings.HasPrefix(n, "(*log."):
		return "the log", e.args
	case strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "fmt.Fprint"):
		return "an output", e.args
	case n == "(http.ResponseWriter).Write" || n == "(io.Writer).Write" || n == "io.WriteString" || n == "http.Error" || n == "jlib.ErrorResponse":
		return "the response", e.args
	case n == "(http.Header).Set" || n == "(http.Header).Add":
		if x := e.args[0]; x.op == OCall && x.str2() == "(http.ResponseWriter).Header" {
			return "the response", e.args[1:]
		}
	case strings.HasPrefix(n, "errors.") && n != "errors.Is" && n != "errors.As" && n != "errors.Cause" || n == "fmt.Errorf" || n == "jlib.ParamsError":
		return "an error", e.args
	}
	return "", nil
}

func (s *secretScan) walk(who string, outs []*Outcome, depth int, seen map[string]bool) {
	for _, o := range outs {
		for _, e := range o.evs {
			what, args := secretSink(e)
			switch e.kind {
			case EvPanic:
				what, args = "a panic", e.args
			case EvStore:
				if rootOf(e.args[0]).op == OGlobal {
					what, args = "a package variable", e.args[1:]
				}
			}
			if what != "" {
				s.n++
				for _, x := range args {
					s.c.ob(!s.secret(x, e.heap, map[*Term]bool{}), "U06:leak:"+what, e.pos, "%s puts a credential into %s", who, what)
				}
			}
			// functions handed to libraries and goroutines
			var fs []*Term
			for _, x := range append(append([]*Term{}, e.args...), e.callee) {
				if x = unIface(x); x != nil && x.op == OClosure && (e.kind == EvCall || e.kind == EvGo) {
					fs = append(fs, x)
				}
			}
			if e.kind == EvGo && e.fn != nil && e.fn.Parent() == nil {
				s.enter(who, e.fn, e.args, nil, e.heap, depth, seen, e)
			}
			for _, x := range fs {
				s.enter(who, x.fn, nil, x.args, e.heap, depth, seen, e)
			}
		}
	}
}

func (s *secretScan) enter(who string, fn *ssa.Function, args, binds []*Term, h *Heap, depth int, seen map[string]bool, e *Event) {
	k := who + "/" + fn.String()
	if fn.Blocks == nil || depth > 3 || seen[k] {
		return
	}
	seen[k] = true
	a := newAnalysis(s.c.w, "(*jlibhttp.Actor).Feed", "jlib.ParseBytes", "jlib.DecodeMessage", "jlib.MessageBytes")
	a.heap0, a.binds = h, binds
	s.walk(shortFn(fn), s.c.run(a, fn, args...), depth+1, seen)
}

func checkU06(c *Ctx) {
	s := &secretScan{c: c}
	sc := c.w.pkgs["jlibhttp"].Pkg.Scope()
	entries := 0
	root := func(pt types.Type, m, name string) {
		fn := c.methOf(pt, m)
		if fn == nil || fn.Blocks == nil {
			return
		}
		var opaque []string
		for _, x := range []string{"(*jlibhttp.Actor).Feed", "jlib.ParseBytes", "jlib.DecodeMessage", "jlib.MessageBytes"} {
			if x != "(*jlibhttp.Actor)."+m {
				opaque = append(opaque, x)
			}
		}
		a := newAnalysis(c.w, opaque...)
		s.walk(name+"."+m, c.run(a, fn, tSym("self", pt)), 0, map[string]bool{})
		c.site(fn.Pos(), name+"."+m)
		entries++
	}
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		t, ok := tn.Type().(*types.Named)
		if !ok || structOf(t) == nil {
			continue
		}
		pt := types.NewPointer(t)
		for _, m := range []string{"ServeHTTP", "Feed", "ValidateValues", "TryAuth"} {
			if types.NewMethodSet(pt).Lookup(tn.Pkg(), m) != nil {
				root(pt, m, n)
			}
		}
	}
	c.count("entries", entries)
	c.count("sinks", s.n)
	c.ob(entries >= 7 && s.n > 10, "U06:entries", token.NoPos, "only %d entries and %d outputs were found", entries, s.n)
}
