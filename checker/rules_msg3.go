package main

// M12: CacheKey.

func init() {
	register("M12", "CacheKey is interpreted: on every path that returns, the result must be a concatenation in which the prefix, the method and the JSON encoding of all params occur exactly once each and nothing else that is not constant occurs; it may only panic when the params cannot be encoded", checkM12)
}

func concatParts(t *Term) []*Term {
	if t.op == OBin && t.str == "+s" {
		return append(concatParts(t.args[0]), concatParts(t.args[1])...)
	}
	return []*Term{t}
}

func checkM12(c *Ctx) {
	fn := c.method("jlib", "RequestMessage", "CacheKey")
	a := newAnalysis(c.w)
	outs := c.run(a, fn)
	self, prefix := a.Params[0], a.Params[1]
	method, params := c.fieldOf(self, "Method"), c.fieldOf(self, "Params")
	n := 0
	for _, o := range outs {
		es := callsNamed(o.evs, "json.Marshal")
		if o.kind != OutReturn {
			ok := o.kind == OutPanic && len(es) > 0 && isNil(o.facts, resAt(es[len(es)-1].res, 1)) == 0
			c.ob(ok, "M12:ends", o.pos, "CacheKey may end in a %s although the params can be encoded", kindName(o.kind))
			continue
		}
		n++
		count := map[string]int{}
		for _, p := range concatParts(o.rets[0]) {
			switch {
			case p.op == OConst:
			case p == prefix:
				count["prefix"]++
			case p == method:
				count["method"]++
			case isEncodingOf(o, p, params):
				count["params"]++
			default:
				c.ob(false, "M12:other", o.pos, "the cache key contains %s, which is neither the prefix, the method nor the encoded params", p)
			}
		}
		for _, k := range []string{"prefix", "method", "params"} {
			c.ob(count[k] == 1, "M12:"+k, o.pos, "the cache key contains the %s %d times", k, count[k])
		}
	}
	c.ob(n > 0, "M12:vacuous", fn.Pos(), "CacheKey never returns")
}

// isEncodingOf: p is the text of a successful json.Marshal of x.
func isEncodingOf(o *Outcome, p, x *Term) bool {
	for p.op == OConv || p.op == OCall && (p.str2() == "fmt%s" || p.str2() == "fmt%v") && len(p.args) == 1 {
		p = unIface(p.args[0])
	}
	for _, e := range callsNamed(o.evs, "json.Marshal") {
		if p == resAt(e.res, 0) && unIface(e.args[0]) == x && isNil(o.facts, resAt(e.res, 1)) == 1 {
			return true
		}
	}
	return false
}
