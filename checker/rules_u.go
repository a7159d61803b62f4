package main

func init() {
	register("U05", "ValidateValues: every error return is justified by an empty secret named by the property in the path's facts, and every success return has excluded one at every index of every list (loop-exhaustion over the symbolic list)", checkU05)
}

func checkU05(c *Ctx) {
	fn := c.method("jlibhttp", "AuthConfig", "ValidateValues")
	a := newAnalysis(c.w)
	a.derefs = true
	outs := c.run(a, fn)
	self := a.Params[0]
	bearer, basic, jwt := c.fieldOf(self, "Bearer"), c.fieldOf(self, "Basic"), c.fieldOf(self, "Jwt")
	secret := c.fieldOf(jwt, "Secret")
	empty := func(t *Term) *Term { return tEq(t, tStr("")) }
	c.safeEvents("U05:deref", outs, EvDeref, EvIndex)
	nok, nbad := 0, 0
	for _, o := range outs {
		switch o.kind {
		case OutLoop:
			continue
		case OutReturn:
		default:
			c.ob(false, "U05:config:ends", o.pos, "validation does not return on some path")
			continue
		}
		f := o.facts
		switch isNil(f, o.rets[0]) {
		case 1:
			nok++
			if f.Implies(lit(tEq(self, tNil), true)) {
				c.ob(true, "", o.pos, "")
				continue
			}
			c.ob(forAll(outs, o, tLen(bearer), func(b *Outcome, i *Term) bool {
				return b.facts.Implies(lit(empty(c.elemField(bearer, i, "Token")), false))
			}), "U05:bearer", o.pos, "validation succeeds although a bearer entry may have an empty token")
			c.ob(forAll(outs, o, tLen(basic), func(b *Outcome, i *Term) bool {
				return b.facts.Implies(lit(empty(c.elemField(basic, i, "Username")), false)) &&
					b.facts.Implies(lit(empty(c.elemField(basic, i, "Password")), false))
			}), "U05:basic", o.pos, "validation succeeds although a basic entry may have an empty user name or password")
			c.ob(f.Implies(lit(tEq(jwt, tNil), true)) || f.Implies(lit(empty(secret), false)),
				"U05:jwt", o.pos, "validation succeeds although the JWT secret may be empty")
		case 0:
			nbad++
			just := f.Implies(lit(tEq(self, tNil), false)) &&
				(existsIn(outs, o, bearer, func(b *Outcome, i *Term) bool {
					return b.facts.Implies(lit(empty(c.elemField(bearer, i, "Token")), true))
				}) ||
					existsIn(outs, o, basic, func(b *Outcome, i *Term) bool {
						return b.facts.Implies(lit(empty(c.elemField(basic, i, "Username")), true)) || b.facts.Implies(lit(empty(c.elemField(basic, i, "Password")), true))
					}) ||
					f.Implies(lit(tEq(jwt, tNil), false)) && f.Implies(lit(empty(secret), true)))
			c.ob(just, "U05:refused", o.pos, "validation fails without an empty secret")
		default:
			c.ob(false, "U05:config:unknown", o.pos, "validation result %s cannot be decided", o.rets[0])
		}
	}
	c.ob(nok > 0 && nbad > 0, "U05:vacuous", fn.Pos(), "validation never %s", map[bool]string{true: "fails", false: "succeeds"}[nok > 0])

	fn = c.method("jlibhttp", "TLSConfig", "ValidateValues")
	a = newAnalysis(c.w)
	a.derefs = true
	outs = c.run(a, fn)
	self = a.Params[0]
	cert, key := c.fieldOf(self, "Certfile"), c.fieldOf(self, "Keyfile")
	c.safeEvents("U05:tls:deref", outs, EvDeref)
	for _, o := range outs {
		if o.kind != OutReturn {
			c.ob(o.kind == OutLoop, "U05:tls:ends", o.pos, "validation does not return on some path")
			continue
		}
		f := o.facts
		none := f.Implies(lit(tEq(self, tNil), true))
		switch isNil(f, o.rets[0]) {
		case 1:
			c.ob(none || f.Implies(lit(empty(cert), false)) && f.Implies(lit(empty(key), false)), "U05:tls", o.pos, "validation succeeds although the certificate or key file may be missing")
		case 0:
			c.ob(!none && (f.Implies(lit(empty(cert), true)) || f.Implies(lit(empty(key), true))), "U05:tls:refused", o.pos, "validation fails although both files are given")
		default:
			c.ob(false, "U05:tls:unknown", o.pos, "validation result cannot be decided")
		}
	}
}
