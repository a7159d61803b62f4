package main

// X04: jsonrpc-benchmark. X05: jsonrpc-watch.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

func init() {
	register("X04", "main of jsonrpc-benchmark is interpreted down to the goroutines it starts: loop summaries count the clients, the calls of each and the measurements received; the printed figures are traced back to the measurements", checkX04)
	register("X05", "main of jsonrpc-watch is interpreted with the client opaque: a transition table of its reconnection loop (what each iteration does, when it goes on, what it counts) read off the facts and loop variables of every path", checkX05)
}

// ---- X04

func checkX04(c *Ctx) {
	c.newUuid()
	v := c.cmd("X04", "benchmark")
	ok := 0
	for _, o := range v.outs {
		if o.kind == OutLoop || stuckAway(v.outs, o) {
			continue
		}
		p := v.path(o)
		f := o.facts
		for _, e := range o.evs {
			if e.kind == EvIndex && !e.ok && len(e.args) > 1 && isFlagCall(e.args[0], "Args") {
				v.ob(p.few(e.facts) == 0, "index", o, "an argument is used that may not be there")
			}
		}
		m, n := p.flag["m"], p.flag["n"]
		if !v.ob(m != nil && n != nil, "flags", o, "has no flags -m and -n") {
			continue
		}
		none := f.Val(tEq(m, tZero(m))) == 1 || f.Val(tEq(n, tZero(n))) == 1 || f.Val(tEq(times(m, n), tZero(m))) == 1 || f.Val(tEq(times(n, m), tZero(m))) == 1
		failed, undecided := v.failedStep(f, p)
		switch {
		case failed != "":
		case p.few(f) == 1:
			failed = "usage"
		case none:
			failed = "no calls"
		}
		if failed != "" {
			v.seen["failed:"+failed]++
			v.failure(o, p, failed)
			continue
		}
		v.ob(undecided == "", "unseen", o, "does not look at an error (%s)", undecided)
		if !v.ob(o.kind == OutReturn || o.kind == OutExit && exitZero(o), "refused", o, "ends with a %s although nothing failed", kindName(o.kind)) {
			continue
		}
		ok++
		v.ob(p.few(f) == 0, "usage", o, "goes on without a method")
		v.ob(p.newc == nil && len(p.sends) == 0, "extra", o, "makes calls besides those measured")
		// the clients
		var worker *Event
		good := exactly(v.outs, o, m, func(b *Outcome, idx *Term) bool {
			n := 0
			for _, e := range iteration(b) {
				if e.kind == EvGo {
					n++
					worker = e
				}
			}
			return n == 1
		})
		if !v.ob(good && worker != nil, "clients", o, "does not start exactly as many clients as -m says") {
			continue
		}
		for _, e := range o.evs {
			v.ob(e.kind != EvGo, "extra", o, "starts more goroutines than -m says")
		}
		ch := v.worker(o, p, worker, n)
		if ch != nil {
			v.figures(o, p, m, n, ch)
		}
	}
	for _, k := range []string{"failed:usage", "failed:params", "failed:headers"} {
		c.count(k, v.seen[k])
		c.ob(v.seen[k] > 0, "X04:none", v.fn.Pos(), "no path handles the case %q", k)
	}
	c.ob(ok > 0, "X04:none", v.fn.Pos(), "no path of the benchmark succeeds")
}

func tZero(t *Term) *Term { return zeroOf(t.typ) }

func times(a, b *Term) *Term { return tBin(token.MUL, a, b, a.typ) }

// worker checks a goroutine; the channel it reports to is returned.
func (v *cmdView) worker(o *Outcome, p *cmdPath, g *Event, n *Term) *Term {
	if g.fn == nil {
		v.ob(false, "worker", o, "what the goroutines run is not known")
		return nil
	}
	a := newAnalysis(v.c.w, "jlibhttp.NewClient", "jlib.NewUuid")
	a.heap0 = localHeap(g.heap)
	a.facts0 = o.facts.lits
	if g.callee != nil && g.callee.op == OClosure {
		a.binds = g.callee.args
	}
	outs := v.c.run(a, g.fn, g.args...)
	v.c.site(g.fn.Pos(), "benchmark client")
	var ch *Term
	ok := 0
	for _, w := range outs {
		if w.kind == OutLoop || stuckAway(outs, w) {
			continue
		}
		q := v.path(w)
		f := w.facts
		if q.newc != nil && isNil(f, errOf(q.newc)) == 0 {
			v.seen["client"]++
			if w.kind != OutPanic {
				v.failure(w, q, "client")
			}
			continue
		}
		if w.kind == OutPanic {
			// no method
			nm := false
			for _, l := range f.lits {
				subterms(l.t, func(t *Term) bool {
					nm = nm || isArg(t, 0) && emptyText(f, t) == 1
					return true
				})
			}
			v.ob(nm, "panic", w, "a client panics")
			continue
		}
		if !v.ob(w.kind == OutReturn && q.newc != nil && isNil(f, errOf(q.newc)) == 1, "client", w, "a client ends with a %s, or is not made", kindName(w.kind)) {
			continue
		}
		ok++
		// what main knows about the URL and headers holds here
		q.parse, q.flag, q.hdr, q.hparse, q.guess, q.nargs = p.parse, p.flag, p.hdr, p.hparse, p.guess, p.nargs
		both := *w
		both.facts = f
		both.evs = append(append([]*Event{}, o.evs...), w.evs...)
		v.setup(&both, q, "http://127.0.0.1:9990")
		v.headersSet(&both, q, nil)
		good := exactly(outs, w, n, func(b *Outcome, idx *Term) bool {
			it := iteration(b)
			var call *Event
			var sent *Event
			id := false
			for _, e := range it {
				if cmdSends[e.name] == "Call" && e.kind == EvCall && call == nil {
					call = e
				} else if cmdSends[e.name] != "" {
					return false
				}
				if e.kind == EvSend {
					if sent != nil {
						return false
					}
					sent = e
				}
				if e.kind == EvCall && (e.name == "jlib.NewUuid" || e.name == "uuid.New") && call == nil {
					id = true
				}
			}
			if call == nil || sent == nil {
				return false
			}
			ch = sent.args[0]
			v.ob(id && q.usesClient(call.args[0]), "fresh", b, "a call does not get a fresh id, or is not made by the client's own connection")
			v.message(b, q, call.args[2], kReq)
			v.ob(q.sethdr != nil && before2(b.evs, q.sethdr, call), "headerset", b, "the headers given are not set on the client before it is used")
			v.ob(elapsed(it, call, sent.args[1]), "time", b, "what is reported is not the time of the call")
			if isNil(b.facts, errOf(call)) == 0 {
				v.ob(v.path(&Outcome{evs: it, facts: b.facts}).report, "report", b, "a failed call is not reported")
			} else {
				v.ob(isNil(b.facts, errOf(call)) == 1, "report", b, "whether a call failed is not looked at")
			}
			return true
		})
		v.ob(good, "calls", w, "a client does not make exactly as many calls as -n says, each reported once")
		for _, e := range w.evs {
			v.ob(e.kind != EvSend && cmdSends[e.name] == "", "extra", w, "a client makes or reports more calls than -n says")
		}
	}
	v.c.ob(ok > 0 && v.seen["client"] > 0, "X04:none", g.pos, "no path of a client succeeds, or none handles a client that cannot be made")
	return ch
}

func before2(evs []*Event, x, y *Event) bool {
	for _, e := range evs {
		if e == x {
			return true
		}
		if e == y {
			return false
		}
	}
	return false
}

// elapsed: t is the time between a clock reading before the call and one
// after it.
func elapsed(it []*Event, call *Event, t *Term) bool {
	var start, end *Event
	for _, e := range it {
		if e.kind == EvCall && e.name == "time.Now" {
			if before2(it, e, call) {
				start = e
			} else if end == nil {
				end = e
			}
		}
	}
	t = unConv(t)
	if start == nil || t.op != OCall {
		return false
	}
	switch t.str2() {
	case "(time.Duration).Nanoseconds":
		t = unConv(t.args[0])
	}
	switch t.str2() {
	case "(time.Time).Sub":
		return end != nil && t.args[0] == end.res && t.args[1] == start.res
	case "time.Since":
		if t.args[0] != start.res {
			return false
		}
		for _, e := range it {
			if e.res == t {
				return before2(it, call, e)
			}
		}
	}
	return false
}

// figures checks what is printed.
func (v *cmdView) figures(o *Outcome, p *cmdPath, m, n, ch *Term) {
	N := times(m, n)
	var R *Term
	var loop *LoopInfo
	var recv *Term
	good, grown := false, false
	for _, cnt := range []*Term{N, times(n, m)} {
		good = good || exactly(v.outs, o, cnt, func(b *Outcome, idx *Term) bool {
			var rcv, st *Event
			for _, e := range iteration(b) {
				switch e.kind {
				case EvRecv:
					if rcv != nil || e.args[0] != ch {
						return false
					}
					rcv = e
				case EvStore:
					if e.args[0].op == OIndexAddr && e.args[0].args[1] == idx && rcv != nil && e.args[1] == rcv.res {
						st = e
					}
				}
			}
			if rcv != nil && st == nil {
				for _, t := range b.loop.vars {
					nx := b.next[t]
					if nx != nil && nx.op == OAppend && nx.str == "" && len(nx.args) == 2 && nx.args[0] == t && nx.args[1] == rcv.res && tLen(b.loop.init[t]) == tInt(0) && (R == nil || R == t) {
						// each measurement put behind those before
						R, loop, recv, grown = t, b.loop, rcv.res, true
						return true
					}
				}
			}
			if rcv == nil || st == nil {
				return false
			}
			R, loop, recv = st.args[0].args[0], b.loop, rcv.res
			return true
		})
	}
	if !v.ob(good && (grown || R.op == OMake && (tLen(R) == N || tLen(R) == times(n, m))), "results", o, "does not keep every measurement in its own place") {
		return
	}
	L := tLen(R)
	// nothing else changes them, they are sorted before they are used
	var sorted, print *Event
	for _, e := range o.evs {
		switch {
		case e.kind == EvStore && rootOf(e.args[0]) == R:
			v.ob(false, "changed", o, "measurements are changed")
		case e.kind == EvCall && e.name == "sort.Slice" && unIface(e.args[0]) == R:
			if v.ob(v.lessThan(e.args[1], R, e), "order", o, "the measurements are not sorted in ascending order") {
				sorted = e
			}
		case e.kind == EvCall && (e.name == "slices.Sort" || e.name == "slices.Sort[[]uint uint]") && e.args[0] == R:
			sorted = e
		case e.kind == EvIndex && e.args[0] == R:
			some := func(t *Term) bool {
				return e.facts.Val(tEq(t, tZero(t))) == 0 || e.facts.Implies(lit(tLt(tZero(t), t), true))
			}
			v.ob(some(m) && some(n) || some(L), "empty", o, "measurements are looked up although there may be none")
			v.ob(sorted != nil, "order", o, "a measurement is picked before they are sorted")
		}
	}
	if len(p.stdout) == 1 {
		print = p.stdout[0]
	}
	if !v.ob(print != nil, "print", o, "does not print one line of figures") {
		return
	}
	var figs []*Term
	for _, x := range printed(print) {
		if x.op != OConst {
			figs = append(figs, x)
		}
	}
	if !v.ob(len(figs) == 4, "print", o, "prints %d figures, not four", len(figs)) {
		return
	}
	for i, x := range figs {
		x = unConv(x)
		if x.op == OCall && x.str2() == "(time.Duration).Seconds" {
			x = unConv(x.args[0])
		} else if v.ob(x.op == OBin && x.str == "/" && isNumber(x.args[1], 1e9), "seconds", o, "figure %d is not in seconds", i+1) {
			x = unConv(x.args[0])
		}
		var ok bool
		what := ""
		switch i {
		case 0:
			what = "average"
			ok = x.op == OBin && x.str == "/" && unConv(x.args[1]) == L && (sumOf(v.outs, o, unConv(x.args[0]), loop, recv) || sumOfList(v.outs, o, unConv(x.args[0]), R))
		case 1:
			what = "minimum"
			ok = x == elem(R, tInt(0))
		case 2:
			what = "95th percentile"
			if x.op == OIndex && x.args[0] == R {
				k := unConv(x.args[1])
				ok = k.op == OBin && k.str == "*" && (isNumber2(k.args[0], 0.95) && unConv(k.args[1]) == L || isNumber2(k.args[1], 0.95) && unConv(k.args[0]) == L) ||
					k.op == OBin && k.str == "/" && isNumber(k.args[1], 100) && k.args[0].op == OBin && k.args[0].str == "*" && (unConv(k.args[0].args[0]) == L && isNumber(k.args[0].args[1], 95) || unConv(k.args[0].args[1]) == L && isNumber(k.args[0].args[0], 95))
			}
		case 3:
			what = "maximum"
			if x.op == OIndex && x.args[0] == R {
				b, k := linear(x.args[1])
				ok = b == L && k == -1
			}
		}
		v.ob(ok, "figure", o, "the %s is printed as %s", what, x)
	}
}

// sumOf: t is what the receiving loop added up.
func sumOf(outs []*Outcome, o *Outcome, t *Term, loop *LoopInfo, recv *Term) bool {
	n := 0
	for _, b := range backsOf(outs, o, loop) {
		next, ok := b.next[t]
		if !ok || next.op != OBin || next.str != "+" || !(next.args[0] == t || next.args[1] == t) {
			return false
		}
		x := next.args[0]
		if x == t {
			x = next.args[1]
		}
		if x.op != recv.op || x.typ != recv.typ {
			return false
		}
		got := false
		for _, e := range iteration(b) {
			got = got || e.kind == EvRecv && e.res == x
		}
		if z, k := tInt64(b.loop.init[t]); !got || !k || z != 0 {
			return false
		}
		n++
	}
	return n > 0
}

// sumOfList: t is what a loop over the whole list added up.
func sumOfList(outs []*Outcome, o *Outcome, t, list *Term) bool {
	for _, p := range passes(outs, o, tLen(list)) {
		ok := len(p.backs) > 0
		for _, b := range p.backs {
			nx := b.next[t]
			ok = ok && nx != nil && nx.op == OBin && nx.str == "+" && (nx.args[0] == t && nx.args[1] == elem(list, p.idx) || nx.args[1] == t && nx.args[0] == elem(list, p.idx))
		}
		if init := p.loop.init[t]; ok && init != nil {
			if z, k := tInt64(init); k && z == 0 {
				return true
			}
		}
	}
	return false
}

// lessThan: the function says whether one measurement is smaller.
func (v *cmdView) lessThan(fn, R *Term, e *Event) bool {
	if fn.fn == nil {
		return false
	}
	a := newAnalysis(v.c.w)
	a.heap0 = localHeap(e.heap)
	if fn.op == OClosure {
		a.binds = fn.args
	}
	i, j := tSym("i", types.Typ[types.Int]), tSym("j", types.Typ[types.Int])
	outs := v.c.run(a, fn.fn, i, j)
	for _, o := range outs {
		if o.kind != OutReturn {
			return false
		}
		want := tLt(elem(R, i), elem(R, j))
		if o.rets[0] != want && (o.facts.Val(want) < 0 || o.facts.Val(o.rets[0]) != o.facts.Val(want)) {
			return false
		}
	}
	return len(outs) > 0
}

func isNumber(t *Term, x float64) bool { return isNumber2(unConv(t), x) }

func isNumber2(t *Term, x float64) bool {
	t = unConv(t)
	if t.op != OConst || t.val == nil {
		return false
	}
	v, _ := constant.Float64Val(constant.ToFloat(t.val))
	return v == x
}

// ---- X05

var lostErrors = []string{"TransportConnectFailed", "TransportClosed", "EOF"}

// lost: the error is one of a failed or lost connection.
func lost(o *Outcome, evs []*Event, err *Term) int {
	known := map[string]bool{}
	for _, e := range evs {
		var g *Term
		var val int
		if e.kind == EvCall && e.name == "errors.Is" && e.args[0] == err {
			g, val = e.args[1], o.facts.Val(e.res)
		} else {
			continue
		}
		for _, n := range lostErrors {
			if globalName(g) == n {
				if val == 1 {
					return 1
				}
				if val == 0 {
					known[n] = true
				}
			}
		}
	}
	if len(known) == len(lostErrors) {
		return 0
	}
	return -1
}

// globalName: the name of the package variable a value is read from.
func globalName(t *Term) string {
	t = unIface(t)
	s := t.String()
	if i := strings.LastIndex(s, "."); i >= 0 {
		return s[i+1:]
	}
	return s
}

func checkX05(c *Ctx) {
	c.newUuid()
	v := c.cmd("X05", "watch")
	// the reconnection loop and its counter
	var counter *Term
	for _, o := range v.outs {
		if o.kind != OutLoop {
			continue
		}
		for lv, n := range o.next {
			b, k := linear(n)
			if z, isK := tInt64(o.loop.init[lv]); b == lv && k == 1 && isK && z == 0 && len(callsNamed(iteration(o), "(jlibhttp.Streamable).Connect")) > 0 {
				if counter == nil || counter == lv {
					counter = lv
				} else {
					v.ob(false, "counter", o, "counts several things while reconnecting")
				}
			}
		}
	}
	c.ob(counter != nil, "X05:counter", v.fn.Pos(), "failed connections are not counted")
	if counter == nil {
		return
	}
	for _, o := range v.outs {
		if stuckAway(v.outs, o) {
			continue
		}
		p := v.path(o)
		f := o.facts
		var seg []*Event
		for i := len(o.evs) - 1; i >= 0; i-- {
			if o.evs[i].kind == EvLoopEnter {
				seg = o.evs[i:]
				break
			}
		}
		cons := callsNamed(seg, "(jlibhttp.Streamable).Connect")
		if len(cons) == 0 {
			// before any connection
			v.ob(len(callsNamed(o.evs, "(jlibhttp.Streamable).Connect")) == 0, "outside", o, "connects outside of its loop")
			failed, _ := v.failedStep(f, p)
			if failed == "" {
				for _, l := range f.lits {
					if l.t.op == OTypeIs && !l.val && p.newc != nil && p.usesClient(l.t.args[0]) {
						failed = "not streaming"
					}
				}
			}
			if !v.ob(failed != "", "gaveup", o, "ends before connecting although nothing failed") {
				continue
			}
			v.seen["failed:"+failed]++
			v.failure(o, p, failed)
			continue
		}
		con := cons[0]
		if !v.ob(len(cons) == 1 && p.newc != nil && p.usesClient(con.args[0]), "connect", o, "an iteration connects %d times, or with another client", len(cons)) {
			continue
		}
		if v.seen["setup"] == 0 || o.kind != OutLoop {
			v.setup(o, p, "ws://127.0.0.1:9990")
			v.headersSet(o, p, con)
			v.handler(o, con, p)
		}
		v.seen["setup"]++
		v.live(o, con)
		waits := callsNamed(seg, "(jlibhttp.Streamable).Wait")
		var err *Term
		connected := isNil(f, con.res)
		v.ob(connected >= 0, "unseen", o, "does not look at whether connecting failed")
		var calls []*Event
		for _, e := range seg {
			if cmdSends[e.name] != "" {
				calls = append(calls, e)
			}
		}
		if connected == 0 {
			err = con.res
			v.seen["connectfailed"]++
			v.ob(len(calls) == 0 && len(waits) == 0, "unconnected", o, "uses a connection that failed")
		} else {
			// the request
			few := p.few(f)
			noMethod := false
			for _, l := range f.lits {
				subterms(l.t, func(t *Term) bool {
					noMethod = noMethod || isArg(t, 0) && emptyText(f, t) == 1
					return true
				})
			}
			if few == 1 || noMethod {
				v.ob(len(calls) == 0, "uncalled", o, "sends a request although none was given")
			} else if v.ob(few == 0 && len(calls) == 1 && cmdSends[calls[0].name] == "Call" && calls[0].kind == EvCall, "called", o, "does not send the request given exactly once per connection") {
				e := calls[0]
				v.ob(before(o, con, e) && p.usesClient(e.args[0]), "called", o, "sends the request before connecting, or with another client")
				v.live2(o, seg, con, e)
				id := false
				for _, x := range seg {
					id = id || x.kind == EvCall && (x.name == "jlib.NewUuid" || x.name == "uuid.New") && before(o, x, e)
				}
				v.ob(id, "id", o, "a request does not get a fresh id")
				v.message(o, p, e.args[2], kReq)
				cerr := isNil(f, errOf(e))
				if cerr == 0 {
					v.seen["callfailed"]++
					v.failure2(o, p, seg, "exchange")
					continue
				}
				v.ob(cerr == 1, "unseen", o, "does not look at whether the request failed")
				encs := callsNamed(seg, "jlib.EncodePretty")
				if !v.ob(len(encs) == 1 && unIface(encs[0].args[0]) == unIface(resAt(e.res, 0)), "reply", o, "does not print the reply") {
					continue
				}
				if isNil(f, errOf(encs[0])) == 0 {
					v.failure2(o, p, seg, "encoding")
					continue
				}
				n := 0
				for _, x := range seg {
					if toStdout(x) {
						n++
						v.ob(onlyPrints(x, resAt(encs[0].res, 0)), "reply", o, "does not print exactly the reply")
					}
				}
				v.ob(n == 1 && isNil(f, errOf(encs[0])) == 1, "reply", o, "prints the reply %d times", n)
				v.seen["called"]++
			}
			if !v.ob(len(waits) == 1 && p.usesClient(waits[0].args[0]), "wait", o, "does not wait for the connection to end") {
				continue
			}
			v.live2(o, seg, con, waits[0])
			err = waits[0].res
			v.seen["connected"]++
			if isNil(f, err) == 1 {
				v.seen["over"]++
				v.ob(o.kind == OutReturn || o.kind == OutExit && exitZero(o), "over", o, "goes on although the connection ended without an error")
				continue
			}
			v.ob(isNil(f, err) == 0, "unseen", o, "does not look at how the connection ended")
		}
		// what follows an error
		is := lost(o, seg, err)
		if !v.ob(is >= 0, "class", o, "what follows an error does not depend on whether the connection failed, was closed or ended") {
			continue
		}
		if is == 0 {
			v.seen["othererror"]++
			v.ob(o.kind != OutLoop, "other", o, "connects again after an error that is not one of the connection")
			rep := false
			for _, e := range seg {
				rep = rep || toStderr(e)
			}
			v.ob(rep || o.kind == OutPanic, "report", o, "does not report an error")
			continue
		}
		fails := tInt(1)
		if connected == 0 {
			fails = tBin(token.ADD, counter, tInt(1), counter.typ)
		}
		limit := p.flag["retry"]
		if !v.ob(limit != nil, "limit", o, "has no flag -retry") {
			continue
		}
		more := f.Val(tLt(fails, limit))
		if o.kind == OutLoop {
			v.seen["again"]++
			v.ob(more == 1, "limit", o, "connects again although the retry limit may be reached")
			next := o.next[counter]
			v.ob(next == fails || next != nil && f.Implies(lit(tEq(next, fails), true)), "count", o, "counts %s failures instead of %s", next, fails)
			slept := false
			for _, e := range seg {
				if e.kind == EvCall && e.name == "time.Sleep" && f.Implies(lit(tLe(e.args[0], tInt(0)), false)) {
					slept = true
				}
				if e.kind == EvRecv && e.args[0] != nil && callTerm(e.args[0], "time.After") {
					slept = true
				}
			}
			v.ob(slept, "pause", o, "connects again at once")
			continue
		}
		v.seen["limit"]++
		v.ob(more == 0, "gaveup", o, "gives up although the retry limit is not reached")
	}
	for _, k := range []string{"failed:params", "failed:headers", "failed:client", "failed:not streaming", "connectfailed", "connected", "over", "called", "callfailed", "again", "limit", "othererror", "message"} {
		c.count(k, v.seen[k])
		c.ob(v.seen[k] > 0, "X05:none", v.fn.Pos(), "no path handles the case %q", k)
	}
}

// live2: the connection's context is not cancelled before e.
func (v *cmdView) live2(o *Outcome, seg []*Event, con, e *Event) {
	for cx := con.args[1]; cx != nil; {
		par, w := parentCtx(cx)
		if w != nil && w.op == OCall {
			for _, x := range seg {
				if x.kind == EvCall && x.callee == resAt(w, 1) && before(o, x, e) {
					v.ob(false, "cancelled", o, "the connection's context is cancelled while it is used")
				}
			}
		}
		cx = par
	}
}

// failure2: a failure within an iteration ends the process loudly.
func (v *cmdView) failure2(o *Outcome, p *cmdPath, seg []*Event, what string) {
	q := *p
	q.stdout = nil
	for _, e := range seg {
		if toStdout(e) {
			q.stdout = append(q.stdout, e)
		}
	}
	v.failure(o, &q, what)
}

// onlyPrints: the printing call prints x, and nothing else that varies.
func onlyPrints(e *Event, x *Term) bool {
	n := 0
	for _, y := range printed(e) {
		if y == x {
			n++
		} else if y.op != OConst && y.String() != "os.Stdout" {
			return false
		}
	}
	return n == 1
}

// handler: the message handler set before connecting prints every message.
func (v *cmdView) handler(o *Outcome, con *Event, p *cmdPath) {
	var on *Event
	for _, e := range o.evs {
		if e.kind == EvCall && (e.name == "(jlibhttp.Streamable).OnMessage" || e.name == "(jlibhttp.Client).OnMessage") {
			v.ob(on == nil, "handler", o, "sets several message handlers")
			on = e
		}
	}
	if !v.ob(on != nil && before(o, on, con) && p.usesClient(on.args[0]), "handler", o, "does not set a message handler before connecting") {
		return
	}
	h := unConv(on.args[1])
	if !v.ob(h.fn != nil, "handler", o, "what handles messages is not known") {
		return
	}
	if v.seen["message"] > 0 {
		return
	}
	a := newAnalysis(v.c.w, "jlib.EncodePretty")
	a.heap0 = localHeap(on.heap)
	if h.op == OClosure {
		a.binds = h.args
	}
	msg := tSym("msg", v.c.typ("jlib", "Message"))
	outs := v.c.run(a, h.fn, msg)
	v.c.site(h.fn.Pos(), "watch message handler")
	for _, w := range outs {
		if w.kind == OutLoop || stuckAway(outs, w) {
			continue
		}
		encs := callsNamed(w.evs, "jlib.EncodePretty")
		var outp []*Event
		rep := w.kind == OutPanic || w.kind == OutExit
		for _, e := range w.evs {
			if toStdout(e) {
				outp = append(outp, e)
			}
			rep = rep || toStderr(e)
		}
		if !v.ob(len(encs) == 1 && unIface(encs[0].args[0]) == unIface(msg), "printed", w, "a message is not encoded to be printed") {
			continue
		}
		switch isNil(w.facts, errOf(encs[0])) {
		case 0:
			v.ob(rep && len(outp) == 0, "unprintable", w, "a message that cannot be encoded is not reported")
		case 1:
			v.seen["message"]++
			v.ob(w.kind == OutReturn && len(outp) == 1 && onlyPrints(outp[0], resAt(encs[0].res, 0)), "printed", w, "a message is not printed exactly once")
		default:
			v.ob(false, "unprintable", w, "whether a message can be encoded is not looked at")
		}
	}
}

// exactly: as forAll, and no iteration is outside of the range.
func exactly(outs []*Outcome, o *Outcome, n *Term, p func(b *Outcome, idx *Term) bool) bool {
	return forAll(outs, o, n, func(b *Outcome, idx *Term) bool {
		for _, r := range rawBacks(outs, o, b.loop) {
			if !r.facts.Implies(lit(tLt(idx, n), true)) || !r.facts.Implies(lit(tLe(tInt(0), idx), true)) {
				return false
			}
		}
		return p(b, idx)
	})
}
