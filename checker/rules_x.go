package main

// X01, X04, X05: the commands. X02: header flags. X03: the FIFO example.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("X01", "main of jsonrpc-call and jsonrpc-notify is interpreted with the client, the codec and the flag package opaque: a decision table over every path's facts about arguments, params, headers, URL, exchange and encoding", checkX01)
	register("X02", "HeaderFlags.Parse is interpreted with a loop summary: what each iteration adds, and the facts under which it fails, are compared with the splitting its own path's facts establish", checkX02)
}

// ---- X02

// trimmed: x without surrounding blanks removed by t, nil if t removes none.
func trimmed(t *Term) *Term {
	if t.op == OCall {
		switch t.str2() {
		case "strings.TrimSpace":
			return t.args[0]
		case "strings.Trim":
			if t.args[1].op == OConst && strings.Contains(constStr(t.args[1]), " ") && strings.Trim(constStr(t.args[1]), " \t\r\n") == "" {
				return t.args[0]
			}
		}
	}
	return nil
}

func untrim(t *Term) *Term {
	for {
		x := trimmed(t)
		if x == nil {
			return t
		}
		t = x
	}
}

// splitting: how a path cuts text at its first equals sign.
type splitting struct {
	name, value *Term // nil if not known by this way of cutting
	ok          int   // the text has an equals sign: 1, 0, -1 unknown
}

func (c *Ctx) splits(evs []*Event, f *Facts, text *Term) (r []splitting) {
	for _, e := range evs {
		if e.kind != EvCall || len(e.args) == 0 || untrim(e.args[0]) != text {
			continue
		}
		var s splitting
		isEq := func(i int) bool {
			return i < len(e.args) && e.args[i].op == OConst && (constStr(e.args[i]) == "=" || isByte(e.args[i], '='))
		}
		switch e.name {
		case "strings.SplitN":
			if n, k := tInt64(e.args[2]); !isEq(1) || !k || n != 2 {
				continue
			}
			g := f.with(lit(tLe(tLen(e.res), tInt(2)), true)).with(lit(tLe(tInt(1), tLen(e.res)), true))
			s = splitting{elem(e.res, tInt(0)), elem(e.res, tInt(1)), g.Val(tEq(tLen(e.res), tInt(2)))}
		case "strings.Cut":
			if !isEq(1) {
				continue
			}
			s = splitting{resAt(e.res, 0), resAt(e.res, 1), f.Val(resAt(e.res, 2))}
		case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.IndexAny":
			if !isEq(1) {
				continue
			}
			g := f.with(lit(tLe(tInt(-1), e.res), true))
			s = splitting{nil, nil, g.Val(tLe(tInt(0), e.res))}
			for _, x := range evs {
				for _, y := range x.args {
					if y == nil {
						continue
					}
					subterms(y, func(t *Term) bool {
						if t.op == OSlice && t.args[0] == e.args[0] {
							lo, hi := t.args[1], t.args[2]
							if zeroOrNone(lo) && hi == e.res {
								s.name = t
							}
							if lo == plus1(e.res) && (hi == nil || hi == tLen(e.args[0])) {
								s.value = t
							}
						}
						return true
					})
				}
			}
		case "strings.Contains", "strings.ContainsRune", "strings.ContainsAny":
			if !isEq(1) {
				continue
			}
			s = splitting{nil, nil, f.Val(e.res)}
		default:
			continue
		}
		r = append(r, s)
	}
	return r
}

func checkX02(c *Ctx) {
	fn := c.method("jlibhttp", "HeaderFlags", "Parse")
	c.site(fn.Pos(), "HeaderFlags.Parse")
	self := tSym("self", fn.Params[0].Type())
	S := self
	if p, ok := self.typ.Underlying().(*types.Pointer); ok {
		S = mk(ODeref, p.Elem(), "", 0, self)
	}
	a := newAnalysis(c.w)
	outs := c.run(a, fn, self)
	c.safeEvents("X02:index", outs, EvDeref, EvAssert)
	for _, o := range outs {
		for _, e := range o.evs {
			if e.kind == EvIndex {
				c.ob(e.ok || cutAtIndex(o, e), "X02:index", e.pos, "possible index out of range of %s", e.args[0])
			}
		}
	}
	nOK, nErr := 0, 0
	// the elements an event list speaks about
	flagOf := func(evs []*Event) (r []*Term) {
		seen := map[*Term]bool{}
		for _, e := range evs {
			for _, x := range e.args {
				if x == nil {
					continue
				}
				subterms(x, func(t *Term) bool {
					if t.op == OIndex && t.args[0] == S && !seen[t] {
						seen[t] = true
						r = append(r, t)
					}
					return true
				})
			}
		}
		return r
	}
	for _, o := range outs {
		if o.kind == OutLoop || stuckAway(outs, o) {
			continue
		}
		if !c.ob(o.kind == OutReturn, "X02:ends", o.pos, "Parse ends with a %s", kindName(o.kind)) {
			continue
		}
		f := o.facts
		if c.isErr(f, o.rets[1]) {
			nErr++
			why := false
			for _, x := range flagOf(o.evs) {
				for _, s := range c.splits(o.evs, f, x) {
					why = why || s.ok == 0
				}
			}
			c.ob(why, "X02:refused", o.pos, "Parse fails although no flag is known to lack an equals sign")
			continue
		}
		if !c.ob(isNil(f, o.rets[1]) == 1, "X02:verdict", o.pos, "whether Parse fails is not known") {
			continue
		}
		nOK++
		h := o.rets[0]
		if !c.ob(h.op == OMake, "X02:header", o.pos, "Parse returns %s, not the header it made", h) {
			continue
		}
		isH := func(t *Term) bool { return t == h }
		// outside of loops nothing is added
		for _, x := range hdrOps(o.evs, isH) {
			c.ob(false, "X02:extra", x.ev.pos, "Parse adds a header that no flag gives")
		}
		ok := forAll(outs, o, tLen(S), func(b *Outcome, idx *Term) bool {
			it := iteration(b)
			ops := hdrOps(it, isH)
			if len(ops) != 1 || !ops[0].add || !ascending(b, idx) {
				return false
			}
			x := ops[0]
			n, v := trimmed(x.name), trimmed(x.val)
			if n == nil || v == nil {
				return false
			}
			n, v = untrim(n), untrim(v)
			ss := c.splits(it, b.facts, elem(S, idx))
			known, parts := false, false
			for _, s := range ss {
				known = known || s.ok == 1
				parts = parts || s.name != nil && s.value != nil && untrim(s.name) == n && untrim(s.value) == v
			}
			return known && parts
		})
		c.ob(ok || f.Implies(lit(tLe(tLen(S), tInt(0)), true)), "X02:all", o.pos, "a path of Parse succeeds without adding the trimmed name and value of every flag, in order, each cut at its first equals sign")
	}
	c.ob(nOK > 0 && nErr > 0, "X02:cases", fn.Pos(), "Parse has no path that succeeds, or none that fails")
	c.count("succeeding", nOK)
	c.count("failing", nErr)
	// Set keeps every flag
	set := c.method("jlibhttp", "HeaderFlags", "Set")
	c.site(set.Pos(), "HeaderFlags.Set")
	p, v := tSym("self", set.Params[0].Type()), tSym("value", set.Params[1].Type())
	b := newAnalysis(c.w)
	for _, o := range c.run(b, set, p, v) {
		got := o.get(b, p, deref(p.typ))
		old := mk(ODeref, deref(p.typ), "", 0, p)
		parts := got.op == OAppend && got.str == "" && len(got.args) == 2 && got.args[0] == old && unConv(got.args[1]) == v
		c.ob(o.kind == OutReturn && parts && isNil(o.facts, o.rets[0]) == 1, "X02:set", o.pos, "Set does not append the flag to the flags before it")
	}
}

func zeroOrNone(t *Term) bool { return t == nil || t == tInt(0) }

func plus1(t *Term) *Term { return tBin(token.ADD, t, tInt(1), types.Typ[types.Int]) }

// ---- the commands

type cmdView struct {
	c    *Ctx
	id   string
	dir  string
	fn   *ssa.Function
	a    *Analysis
	outs []*Outcome
	seen map[string]int
}

// cmdPath is what one path of a command does.
type cmdPath struct {
	parse, guess, hparse, newc, enc *Event
	sethdr                          *Event
	sends                           []*Event
	stdout                          []*Event
	report                          bool
	flag                            map[string]*Term
	hdr                             *Term
	nargs                           []*Term
	many                            string
}

func (c *Ctx) cmd(id, dir string, opaque ...string) *cmdView {
	v := &cmdView{c: c, id: id, dir: dir, seen: map[string]int{}}
	v.fn = c.fn(modPath+"/cli/"+dir, "main")
	c.site(v.fn.Pos(), "cli/"+dir+" main")
	v.a = newAnalysis(c.w, append([]string{"jlib.GuessJsonArray", "(*jlibhttp.HeaderFlags).Parse", "jlibhttp.NewClient", "jlib.EncodePretty", "jlib.NewUuid"}, opaque...)...)
	v.a.loads = true
	v.outs = c.run(v.a, v.fn)
	return v
}

func (v *cmdView) ob(ok bool, key string, o *Outcome, f string, args ...interface{}) bool {
	return v.c.ob(ok, v.id+":"+v.dir+":"+key, o.pos, v.dir+": "+f, args...)
}

// flagCall: the arguments of a call of a flag function, without the set.
func flagCall(e *Event, name string) []*Term {
	if e.kind != EvCall {
		return nil
	}
	switch e.name {
	case "(*flag.FlagSet)." + name:
		return e.args[1:]
	case "flag." + name:
		if e.args == nil {
			return []*Term{}
		}
		return e.args
	}
	return nil
}

func isFlagCall(t *Term, name string) bool {
	return callTerm(t, "(*flag.FlagSet)."+name, "flag."+name)
}

func usesGlobal(e *Event, name string) bool {
	for _, x := range e.args {
		if x != nil && unIface(x).String() == name {
			return true
		}
	}
	return false
}

func toStdout(e *Event) bool {
	if e.kind != EvCall && e.kind != EvGo {
		return false
	}
	return e.name == "fmt.Printf" || e.name == "fmt.Println" || e.name == "fmt.Print" || usesGlobal(e, "os.Stdout")
}

func toStderr(e *Event) bool {
	if e.kind != EvCall {
		return false
	}
	if usesGlobal(e, "os.Stderr") && !strings.Contains(e.name, "SetOutput") {
		return true
	}
	for _, p := range []string{"logrus.", "(*logrus.Entry).", "(*logrus.Logger).", "log.", "(*log.Logger)."} {
		if strings.HasPrefix(e.name, p) {
			for _, l := range []string{"Print", "Info", "Warn", "Error", "Fatal", "Panic"} {
				if strings.HasPrefix(e.name[len(p):], l) {
					return true
				}
			}
		}
	}
	return e.name == "builtin.println" || e.name == "builtin.print"
}

var cmdSends = map[string]string{
	"(jlibhttp.Client).Call": "Call", "(jlibhttp.Streamable).Call": "Call",
	"(jlibhttp.Client).Send": "Send", "(jlibhttp.Streamable).Send": "Send",
	"(jlibhttp.Client).UnwrapCall": "UnwrapCall", "(jlibhttp.Streamable).UnwrapCall": "UnwrapCall",
}

func (v *cmdView) path(o *Outcome) *cmdPath {
	p := &cmdPath{flag: map[string]*Term{}}
	one := func(slot **Event, e *Event, what string) {
		if *slot != nil {
			p.many = what
		}
		*slot = e
	}
	for _, e := range o.evs {
		if e.kind == EvCall && (cmdSends[e.name] != "" || strings.HasSuffix(e.name, ".Connect")) {
			for _, x := range e.args {
				v.ob(!isNamed(x.typ, "context", "Context") && x != tNil || isNil(o.facts, x) != 1, "context", o, "calls the client with a nil context")
			}
		}
		if a := flagCall(e, "String"); len(a) == 3 {
			p.flag[constStr(a[0])] = mk(ODeref, types.Typ[types.String], "", 0, e.res)
			p.flag["default "+constStr(a[0])] = a[1]
		}
		if a := flagCall(e, "Uint"); len(a) == 3 {
			p.flag[constStr(a[0])] = mk(ODeref, types.Typ[types.Uint], "", 0, e.res)
			p.flag["default "+constStr(a[0])] = a[1]
		}
		if a := flagCall(e, "Int"); len(a) == 3 {
			p.flag[constStr(a[0])] = mk(ODeref, types.Typ[types.Int], "", 0, e.res)
			p.flag["default "+constStr(a[0])] = a[1]
		}
		if a := flagCall(e, "Var"); len(a) == 3 && constStr(a[1]) == "header" {
			p.hdr = unIface(a[0])
		}
		if a := flagCall(e, "Parse"); a != nil {
			one(&p.parse, e, "parses the flags")
		}
		if a := flagCall(e, "NArg"); a != nil {
			p.nargs = append(p.nargs, e.res)
		}
		if a := flagCall(e, "Args"); a != nil {
			p.nargs = append(p.nargs, tLen(e.res))
		}
		if e.kind != EvCall && e.kind != EvGo {
			continue
		}
		switch e.name {
		case "jlib.GuessJsonArray":
			one(&p.guess, e, "guesses the params")
		case "(*jlibhttp.HeaderFlags).Parse":
			one(&p.hparse, e, "parses the headers")
		case "jlibhttp.NewClient":
			one(&p.newc, e, "makes a client")
		case "jlib.EncodePretty":
			one(&p.enc, e, "encodes the reply")
		case "(jlibhttp.Client).SetExtraHeader", "(jlibhttp.Streamable).SetExtraHeader":
			one(&p.sethdr, e, "sets the headers")
		}
		if cmdSends[e.name] != "" {
			p.sends = append(p.sends, e)
		}
		if toStdout(e) {
			p.stdout = append(p.stdout, e)
		}
		if toStderr(e) {
			p.report = true
		}
	}
	return p
}

// few: the path knows that there is no argument (1) or that there is one (0).
func (p *cmdPath) few(f *Facts) int {
	for _, n := range p.nargs {
		if r := f.Val(tLe(n, tInt(0))); r >= 0 {
			return r
		}
	}
	return -1
}

// isArg: t is argument i.
func isArg(t *Term, i int64) bool {
	if t.op == OIndex && isFlagCall(t.args[0], "Args") {
		n, ok := tInt64(t.args[1])
		return ok && n == i
	}
	if isFlagCall(t, "Arg") {
		n, ok := tInt64(t.args[len(t.args)-1])
		return ok && n == i
	}
	return false
}

// isRest: t is the arguments from the second on.
func isRest(t *Term) bool {
	if t.op != OSlice || !isFlagCall(t.args[0], "Args") {
		return false
	}
	n, ok := tInt64(t.args[1])
	return ok && n == 1 && (t.args[2] == nil || t.args[2].op == OLen && isFlagCall(t.args[2].args[0], "Args"))
}

func errOf(e *Event) *Term {
	if _, ok := e.res.typ.(*types.Tuple); ok {
		return extractErr(e.res, e.res.typ.(*types.Tuple).Len()-1)
	}
	return e.res
}

// failedStep: what failed on the path ("" if nothing did); undecided names a
// step whose error the path does not know.
func (v *cmdView) failedStep(f *Facts, p *cmdPath) (failed, undecided string) {
	steps := []struct {
		n string
		e *Event
	}{{"params", p.guess}, {"headers", p.hparse}, {"client", p.newc}, {"encoding", p.enc}}
	for _, s := range p.sends {
		steps = append(steps, struct {
			n string
			e *Event
		}{"exchange", s})
	}
	for _, s := range steps {
		if s.e == nil {
			continue
		}
		switch isNil(f, errOf(s.e)) {
		case 0:
			failed = s.n
		case -1:
			undecided = s.n
		}
	}
	return
}

// setup checks what happens up to the client on a path that got there.
func (v *cmdView) setup(o *Outcome, p *cmdPath, def string) {
	f := o.facts
	e := p.newc
	v.ob(p.parse != nil, "flags", o, "does not parse its flags")
	if p.parse == nil {
		return
	}
	if args := flagCall(p.parse, "Parse"); len(args) == 1 {
		x := args[0]
		n, k := int64(0), false
		if x.op == OSlice && x.args[0].String() == "os.Args" {
			n, k = tInt64(x.args[1])
			k = k && x.args[2] == nil
		}
		v.ob(k && n == 1, "flags", o, "parses %s, not its arguments", x)
		set := p.parse.args[0]
		mode := int64(-1)
		if callTerm(set, "flag.NewFlagSet") {
			mode, _ = tInt64(set.args[1])
		}
		if set.String() == "flag.CommandLine" {
			mode = 1
		}
		v.ob(mode == 1 || mode == 2 || isNil(f, p.parse.res) == 1, "flags", o, "does not look at the flags' parse error")
	}
	// everything the flags give is read after they were parsed
	for _, x := range o.evs {
		if x == p.parse {
			break
		}
		early := x.kind == EvLoad && (isFlagCall(x.args[0], "String") || isFlagCall(x.args[0], "Int") || isFlagCall(x.args[0], "Uint")) ||
			flagCall(x, "Args") != nil || flagCall(x, "NArg") != nil || flagCall(x, "Arg") != nil || x == p.hparse
		v.ob(!early, "early", o, "reads a flag or argument before they are parsed")
	}
	// the URL
	url := e.args[0]
	cf := p.flag["c"]
	if v.ob(cf != nil && emptyConst(p.flag["default c"]), "flagc", o, "has no flag -c without a default of its own") {
		switch emptyText(f, cf) {
		case 0:
			v.seen["url:flag"]++
			v.ob(url == cf, "url:flag", o, "with -c connects to %s", url)
		case 1:
			var env, has *Term
			for _, x := range o.evs {
				if x.kind == EvCall && (x.name == "os.Getenv" || x.name == "os.LookupEnv") && constStr(x.args[0]) == "JSONRPC_CONNECT" {
					env = x.res
					if x.name == "os.LookupEnv" {
						env, has = resAt(x.res, 0), resAt(x.res, 1)
					}
				}
			}
			if !v.ob(env != nil, "env", o, "does not look at JSONRPC_CONNECT") {
				break
			}
			unset := emptyText(f, env)
			if has != nil && f.Val(has) == 0 {
				unset = 1
			}
			switch unset {
			case 0:
				v.seen["url:env"]++
				v.ob(url == env, "url:env", o, "with JSONRPC_CONNECT and no -c connects to %s", url)
			case 1:
				v.seen["url:default"]++
				v.ob(url.op == OConst && constStr(url) == def, "url:default", o, "without -c and JSONRPC_CONNECT connects to %s, not %s", url, def)
			default:
				v.ob(false, "url:env", o, "whether JSONRPC_CONNECT is set is not looked at")
			}
		default:
			v.ob(false, "url:flag", o, "whether -c is given is not looked at")
		}
	}
	v.ob(p.hdr != nil && p.hparse != nil && p.hparse.args[0] == p.hdr && isNil(f, extractErr(p.hparse.res, 1)) == 1, "header", o, "makes a client without the header flags parsed")
}

// usesClient: receiver t is the client made.
func (p *cmdPath) usesClient(t *Term) bool {
	c := resAt(p.newc.res, 0)
	t = unIface(t)
	for t != c && (t.op == OAssert || t.op == OMkIface || t.op == OExtract && t.n == 0 && t.args[0].op == OAssert) {
		t = unIface(t.args[0])
		if t.op == OAssert {
			t = t.args[0]
		}
	}
	return t == c
}

// headersSet: the flags' headers were set on the client before e.
func (v *cmdView) headersSet(o *Outcome, p *cmdPath, e *Event) {
	ok := p.sethdr != nil && p.usesClient(p.sethdr.args[0]) && p.hparse != nil && cloneOf(p.sethdr.args[1]) == resAt(p.hparse.res, 0) && (e == nil || before(o, p.sethdr, e))
	v.ob(ok, "headerset", o, "the headers given are not set on the client before it is used")
}

// message checks the message sent.
func (v *cmdView) message(o *Outcome, p *cmdPath, m *Term, kind int) {
	f := o.facts
	x := unIface(m)
	want := "RequestMessage"
	if kind == kNtf {
		want = "NotifyMessage"
	}
	if !v.ob(x.op == OAlloc && isPtrTo(x.typ, "jlib", want), "message", o, "sends %s, not a new %s", m, want) {
		return
	}
	meth := v.c.fget(v.a, o, x, "Method")
	v.ob(isArg(meth, 0), "method", o, "the method is %s, not the first argument", meth)
	ps := v.c.fget(v.a, o, x, "Params")
	if v.ob(p.guess != nil && isRest(p.guess.args[0]), "params", o, "the params are not parsed from the other arguments") {
		r := resAt(p.guess.res, 0)
		v.ob(isNil(f, extractErr(p.guess.res, 1)) == 1 && (ps == r || isNil(f, r) == 1 && isEmptyMake(ps)), "params", o, "the params are %s, not those given", ps)
	}
	if kind == kReq {
		id := v.c.fget(v.a, o, x, "Id")
		v.ob(wholeUuid(id), "id", o, "the id is %s, not a fresh one", id)
	}
}

func emptyConst(t *Term) bool { return t != nil && t.op == OConst && constStr(t) == "" }

// ending checks how a path that failed ends.
func (v *cmdView) failure(o *Outcome, p *cmdPath, what string) {
	if o.kind == OutPanic {
		v.ob(len(p.stdout) == 0, "printed", o, "prints although something failed (%s)", what)
		return
	}
	last := o.evs[len(o.evs)-1]
	for i := len(o.evs) - 1; i >= 0; i-- {
		if o.evs[i].kind == EvCall && exiting[o.evs[i].name] {
			last = o.evs[i]
			break
		}
	}
	ok := o.kind == OutExit
	if ok && last.name == "os.Exit" {
		n, k := tInt64(last.args[0])
		ok = k && n != 0
	}
	v.ob(ok, "status", o, "ends with status zero although something failed (%s)", what)
	v.ob(p.report, "report", o, "does not report a failure (%s)", what)
	v.ob(len(p.stdout) == 0, "printed", o, "prints to standard output although something failed (%s)", what)
}

func checkX01(c *Ctx) {
	c.newUuid()
	for _, dir := range []string{"call", "notify"} {
		v := c.cmd("X01", dir)
		kind, how := kReq, "Call"
		if dir == "notify" {
			kind, how = kNtf, "Send"
		}
		for _, o := range v.outs {
			if o.kind == OutLoop {
				for _, e := range iteration(o) {
					v.ob(cmdSends[e.name] == "", "again", o, "sends repeatedly")
				}
				continue
			}
			if stuckAway(v.outs, o) {
				continue
			}
			p := v.path(o)
			f := o.facts
			if p.parse != nil {
				if m := flagCall(p.parse, "Parse"); m != nil && len(m) == 1 && isNil(f, p.parse.res) == 0 {
					v.failure(o, p, "flags")
					continue
				}
			}
			v.ob(p.many == "", "twice", o, "%s twice", p.many)
			if !v.ob(len(p.sends) <= 1, "once", o, "sends %d messages", len(p.sends)) {
				continue
			}
			for _, e := range o.evs {
				if e.kind == EvIndex && !e.ok && len(e.args) > 0 && !strings.HasPrefix(e.args[0].String(), "os.Args") {
					v.ob(p.few(e.facts) == 0, "index", o, "an argument is used that may not be there")
				}
			}
			failed, undecided := v.failedStep(f, p)
			noMethod := false
			for _, l := range f.lits {
				subterms(l.t, func(t *Term) bool {
					if isArg(t, 0) && emptyText(f, t) == 1 {
						noMethod = true
					}
					return true
				})
			}
			if failed == "" && noMethod && o.kind != OutReturn {
				failed = "no method"
			}
			if failed == "" && p.few(f) == 1 {
				failed = "usage"
			}
			if failed != "" {
				v.seen["failed:"+failed]++
				v.failure(o, p, failed)
				continue
			}
			v.ob(undecided == "", "unseen", o, "does not look at an error (%s)", undecided)
			if !v.ob(o.kind == OutReturn || o.kind == OutExit && exitZero(o), "refused", o, "ends with a %s although nothing failed", kindName(o.kind)) {
				continue
			}
			v.ob(p.few(f) == 0, "usage", o, "goes on without a method")
			if !v.ob(p.newc != nil && p.newc.kind == EvCall, "client", o, "succeeds without a client") || !v.ob(len(p.sends) == 1 && p.sends[0].kind == EvCall, "sent", o, "succeeds without sending anything") {
				continue
			}
			v.seen["ok"]++
			e := p.sends[0]
			v.setup(o, p, "http://127.0.0.1:9990")
			v.headersSet(o, p, e)
			v.ob(cmdSends[e.name] == how, "how", o, "sends with %s", e.name)
			v.ob(p.usesClient(e.args[0]), "sender", o, "sends with %s, not the client made", e.args[0])
			v.message(o, p, e.args[2], kind)
			v.live(o, e)
			if how == "Call" {
				ok := p.enc != nil && unIface(p.enc.args[0]) == unIface(resAt(e.res, 0)) && len(p.stdout) == 1
				if ok {
					n := 0
					for _, x := range printed(p.stdout[0]) {
						if x == resAt(p.enc.res, 0) {
							n++
						} else if x.op != OConst && x.String() != "os.Stdout" {
							n = 9
						}
					}
					ok = n == 1
				}
				v.ob(ok, "reply", o, "does not print exactly the reply")
			}
		}
		want := []string{"ok", "failed:usage", "failed:params", "failed:headers", "failed:client", "failed:exchange", "url:flag", "url:env", "url:default"}
		for _, k := range want {
			c.count(dir+"_"+k, v.seen[k])
			c.ob(v.seen[k] > 0, "X01:"+dir+":none", v.fn.Pos(), "%s: no path handles the case %q", dir, k)
		}
	}
}

// live: the context of a call is not cancelled before it.
func (v *cmdView) live(o *Outcome, e *Event) {
	for cx := e.args[1]; cx != nil; {
		par, w := parentCtx(cx)
		if w != nil && w.op == OCall {
			for _, x := range o.evs {
				if x.kind == EvCall && x.callee == resAt(w, 1) && before(o, x, e) {
					v.ob(false, "cancelled", o, "the call's context is cancelled before it")
				}
			}
		}
		cx = par
	}
}

func exitZero(o *Outcome) bool {
	for i := len(o.evs) - 1; i >= 0; i-- {
		if e := o.evs[i]; e.kind == EvCall && e.name == "os.Exit" {
			n, k := tInt64(e.args[0])
			return k && n == 0
		}
	}
	return false
}

// printed: what a printing call prints or is printed with.
func printed(e *Event) (r []*Term) {
	var add func(*Term)
	add = func(x *Term) {
		x = unConv(unIface(x))
		switch {
		case x.op == OSliceLit || x.op == OBin && strings.HasPrefix(x.str, "+"):
			for _, y := range x.args {
				add(y)
			}
		default:
			r = append(r, x)
		}
	}
	for _, x := range e.args {
		add(x)
	}
	return r
}

func isByte(t *Term, b int64) bool {
	n, ok := tInt64(t)
	return ok && n == b
}

// cutAtIndex: e slices a text at the position strings.Index found in it.
func cutAtIndex(o *Outcome, e *Event) bool {
	for _, x := range upTo(o, e) {
		if x.kind == EvCall && strings.HasPrefix(x.name, "strings.Index") && x.args[0] == e.args[0] && len(e.args) == 3 &&
			e.facts.with(lit(tLe(tInt(-1), x.res), true)).Val(tLe(tInt(0), x.res)) == 1 {
			in := func(t *Term) bool { return t == tInt(0) || t == x.res || t == plus1(x.res) || t == tLen(x.args[0]) }
			if in(e.args[1]) && in(e.args[2]) && e.args[1] != tLen(x.args[0]) && e.args[2] != tInt(0) && !(e.args[1] == plus1(x.res) && e.args[2] == x.res) {
				return true
			}
		}
	}
	return false
}

// ascending: the iteration goes on to a greater index.
func ascending(b *Outcome, idx *Term) bool {
	lv, _ := linear(idx)
	next, ok := b.next[lv]
	if !ok {
		return false
	}
	nb, nc := linear(next)
	return nb == lv && nc > 0
}
