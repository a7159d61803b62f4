package main

// M09: guessed values; M10: positional params; M11: method names.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp/syntax"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("M09", "category table over the paths of GuessJson: the value each path returns matches one documented category whose condition the path's facts imply (itself only when every other category is excluded, an error only when a document of the announced kind failed to parse); GuessJsonArray is the image of its arguments under it", checkM09)
	register("M10", "every iteration of DecodeParams' loop over the visible fields either stores the decoded params[k] in exactly that exported field and advances k by one, or stores nothing; every error return and every success return is justified by the path's facts; reflect calls that could panic are preceded by the test that excludes it", checkM10)
	register("M11", "product construction of the automata of all pattern, prefix and equality tests the validators make on their argument, compared at every reachable state with the automaton of the documented language", checkM11)
}

// firstIs: the string starts with the byte (1), does not (0), or that is open.
func firstIs(f *Facts, s *Term, b byte) int {
	B := types.Typ[types.Bool]
	lits := []*Term{
		mk(OCall, B, "strings.HasPrefix", 0, s, tStr(string(rune(b)))),
		tEq(mk(OIndex, types.Typ[types.Byte], "", 0, s, tInt(0)), mkConst(types.Typ[types.Byte], int64(b))),
		tEq(mk(OIndex, types.Universe.Lookup("byte").Type(), "", 0, s, tInt(0)), mkConst(types.Typ[types.Byte], int64(b))),
	}
	for _, l := range lits {
		if v := f.Val(l); v >= 0 {
			return v
		}
	}
	// excluded by another first byte
	for c := byte(0); c < 128; c++ {
		if c == b {
			continue
		}
		for _, l := range []*Term{
			mk(OCall, B, "strings.HasPrefix", 0, s, tStr(string(rune(c)))),
			tEq(mk(OIndex, types.Universe.Lookup("byte").Type(), "", 0, s, tInt(0)), mkConst(types.Typ[types.Byte], int64(c)))} {
			if f.Val(l) == 1 {
				return 0
			}
		}
	}
	return -1
}

func callTerm(t *Term, names ...string) bool {
	if t == nil || t.op != OCall {
		return false
	}
	for _, n := range names {
		if t.str2() == n {
			return true
		}
	}
	return false
}

func checkM09(c *Ctx) {
	fn := c.fn("jlib", "GuessJson")
	a := newAnalysis(c.w)
	outs := c.run(a, fn)
	in := a.Params[0]
	c.safeEvents("M09:safe", outs, EvIndex)
	parses := func(f *Facts, evs []*Event) (intNo bool, floatNo bool) {
		for _, e := range evs {
			if e.kind != EvCall || len(e.args) == 0 || e.args[0] != in || e.res == nil {
				continue
			}
			ex := func(n int) *Term { return tExtract(e.res, n, nil) }
			_ = ex
			switch e.name {
			case "strconv.ParseInt", "strconv.Atoi":
				if e.name == "strconv.ParseInt" && (e.args[1] != tInt(10) || e.args[2] != tInt(64)) {
					continue
				}
				intNo = intNo || isNil(f, extractErr(e.res, 1)) == 0
			case "strconv.ParseFloat":
				if isNil(f, extractErr(e.res, 1)) == 0 {
					floatNo = true
				}
				v := tExtract(e.res, 0, types.Typ[types.Float64])
				for _, l := range f.lits {
					if l.val && (callTerm(l.t, "math.IsNaN") || callTerm(l.t, "math.IsInf") && l.t.args[1] == tInt(0)) && l.t.args[0] == v {
						floatNo = true
					}
				}
			}
		}
		return
	}
	// a document of the kind announced by the first character that was decoded (ok) or failed to
	type doc struct {
		val *Term
		ok  bool
		at  byte
	}
	documents := func(o *Outcome) []doc {
		var r []doc
		for _, d := range decodesOn(o.evs) {
			st := isNil(o.facts, d.err)
			v := mk(OOut, deref(d.addr.typ), "", 0, d.err, d.addr)
			T := deref(d.addr.typ)
			if sameText(d.src, in) && d.src != nil {
				for b, want := range map[byte]func(types.Type) bool{
					'[': func(t types.Type) bool { return tkey(t) == tkey(tAnyList) || isEmptyIface(t) },
					'{': func(t types.Type) bool { return isStrMap(t) && isEmptyIface(elemType(t)) || isEmptyIface(t) },
					'"': func(t types.Type) bool {
						k, ok := t.Underlying().(*types.Basic)
						return ok && k.Kind() == types.String || isEmptyIface(t)
					},
				} {
					if firstIs(o.facts, in, b) == 1 && want(T) {
						r = append(r, doc{v, st == 1, b})
						if st < 0 {
							r[len(r)-1].val = nil
						}
					}
				}
				continue
			}
			if firstIs(o.facts, in, '@') == 1 && isEmptyIface(T) && fromFile(d, in) {
				r = append(r, doc{v, st == 1, '@'})
				if st < 0 {
					r[len(r)-1].val = nil
				}
			}
		}
		return r
	}
	n := map[string]int{}
	for _, o := range outs {
		if o.kind == OutLoop {
			continue
		}
		if !c.ob(o.kind == OutReturn, "M09:ends", o.pos, "GuessJson may end in a %s", kindName(o.kind)) {
			continue
		}
		f := o.facts
		is := func(s string) int { return f.Val(tEq(in, tStr(s))) }
		if isNil(f, o.rets[1]) == 0 {
			n["error"]++
			just := false
			for _, d := range documents(o) {
				just = just || !d.ok && d.val != nil
			}
			if firstIs(f, in, '@') == 1 {
				for _, e := range callsNamed(o.evs, "os.Open", "os.ReadFile", "ioutil.ReadFile", "io.ReadAll", "ioutil.ReadAll") {
					just = just || isNil(f, extractErr(e.res, 1)) == 0
				}
			}
			c.ob(just, "M09:error", o.pos, "GuessJson may fail on text that is no broken JSON document")
			continue
		}
		if !c.ob(isNil(f, o.rets[1]) == 1, "M09:error", o.pos, "whether GuessJson fails is not decided") {
			continue
		}
		v := o.rets[0]
		x := unIface(v)
		ok := false
		switch {
		case v == tNil || isNil(f, v) == 1:
			n["null"]++
			ok = is("null") == 1
		case x == tStr(""):
			n["empty"]++
			ok = is("") == 1
		case x == tTrue || x == tFalse:
			n["bool"]++
			ok = x == tTrue && is("true") == 1 || x == tFalse && is("false") == 1
		case x.op == OBin || x.op == ONot:
			// input == "true"
			n["bool"]++
			b := f.Val(x)
			ok = is("true") == 1 && b == 1 || is("false") == 1 && b == 0
			if !ok && x == tEq(in, tStr("true")) {
				ok = f.assume(lit(tEq(in, tStr("true")), false), lit(tEq(in, tStr("false")), false)).Consistent() == false
			}
		case x.op == OExtract && x.n == 0 && callTerm(x.args[0], "strconv.ParseBool"):
			n["bool"]++
			ok = x.args[0].args[0] == in && (is("true") == 1 || is("false") == 1 || !f.assume(lit(tEq(in, tStr("true")), false), lit(tEq(in, tStr("false")), false)).Consistent())
		case x.op == OExtract && x.n == 0 && callTerm(x.args[0], "strconv.ParseInt", "strconv.Atoi"):
			n["int"]++
			k := x.args[0]
			ok = k.args[0] == in && isNil(f, extractErr(k, 1)) == 1 && (k.str2() == "strconv.Atoi" || k.args[1] == tInt(10) && k.args[2] == tInt(64))
		case x.op == OExtract && x.n == 0 && callTerm(x.args[0], "strconv.ParseFloat"):
			n["float"]++
			k := x.args[0]
			intNo, _ := parses(f, o.evs)
			nan, inf := false, false
			for _, l := range f.lits {
				if !l.val && callTerm(l.t, "math.IsNaN") && l.t.args[0] == x {
					nan = true
				}
				if !l.val && callTerm(l.t, "math.IsInf") && l.t.args[0] == x && l.t.args[1] == tInt(0) {
					inf = true
				}
				if l.val && l.t == tEq(x, x) {
					nan = true
				}
			}
			c.ob(nan && inf, "M09:finite", o.pos, "GuessJson may return a NaN or an infinity")
			ok = k.args[0] == in && k.args[1] == tInt(64) && isNil(f, extractErr(k, 1)) == 1 && intNo
		case x == in:
			n["itself"]++
			intNo, floatNo := parses(f, o.evs)
			ok = is("") == 0 && is("true") == 0 && is("false") == 0 && is("null") == 0 && intNo && floatNo
			for _, b := range []byte{'@', '[', '{', '"'} {
				ok = ok && firstIs(f, in, b) == 0
			}
		default:
			for _, d := range documents(o) {
				if d.ok && x == d.val {
					n[string(rune(d.at))]++
					ok = true
				}
			}
		}
		c.ob(ok, "M09:value", o.pos, "GuessJson may return %s for text it does not stand for", v)
	}
	for _, k := range []string{"null", "empty", "bool", "int", "float", "itself", "[", "{", "\"", "@", "error"} {
		c.ob(n[k] > 0, "M09:vacuous:"+k, fn.Pos(), "GuessJson never takes the case %s", k)
	}

	fn2 := c.fn("jlib", "GuessJsonArray")
	b := newAnalysis(c.w)
	b.opaqueF = func(f *ssa.Function) bool { return f == fn }
	outs = c.run(b, fn2)
	arr := b.Params[0]
	guess := shortFn(fn)
	nok, nerr := 0, 0
	for _, o := range outs {
		if o.kind == OutLoop {
			continue
		}
		if !c.ob(o.kind == OutReturn, "M09:array:ends", o.pos, "GuessJsonArray may end in a %s", kindName(o.kind)) {
			continue
		}
		if isNil(o.facts, o.rets[1]) != 1 {
			nerr++
			just := false
			for _, e := range o.evs {
				if e.kind == EvCall && e.name == guess && e.args[0].op == OIndex && e.args[0].args[0] == arr {
					just = just || isNil(o.facts, extractErr(e.res, 1)) == 0
				}
			}
			if !just && len(loopsIn(o)) > 0 {
				// remembered in a variable
				just = existsIn(outs, o, arr, func(b *Outcome, i *Term) bool { return guessErr(b, guess, elem(arr, i)) == 0 })
			}
			c.ob(just, "M09:array:error", o.pos, "GuessJsonArray may fail although no argument fails")
			continue
		}
		nok++
		cl := c.coll(outs, o, o.rets[0])
		ok := cl != nil && (cl.empty && o.facts.Implies(lit(tLe(tLen(arr), tInt(0)), true)) ||
			!cl.empty && cl.src == arr && cl.key == nil && cl.val != nil && cl.val.op == OExtract && cl.val.n == 0 && callTerm(cl.val.args[0], guess) && cl.val.args[0].args[0] == elem(arr, phIdx))
		c.ob(ok, "M09:array:values", o.pos, "GuessJsonArray does not return the guesses of its arguments in order")
		c.ob(forAll(outs, o, tLen(arr), func(b *Outcome, i *Term) bool { return guessErr(b, guess, elem(arr, i)) == 1 }), "M09:array:error", o.pos, "GuessJsonArray may succeed although an argument fails")
	}
	c.ob(nok > 0 && nerr > 0, "M09:array:vacuous", fn2.Pos(), "GuessJsonArray never succeeds or never fails")
}

// guessErr: the guess of t made on the path has no error (1), an error (0).
func guessErr(o *Outcome, guess string, t *Term) int {
	for _, e := range o.evs {
		if e.kind == EvCall && e.name == guess && e.args[0] == t {
			if v := isNil(o.facts, extractErr(e.res, 1)); v >= 0 {
				return v
			}
		}
	}
	return -1
}

func extractErr(res *Term, n int) *Term {
	return tExtract(res, n, types.Universe.Lookup("error").Type())
}

// fromFile: what is decoded is the content of the file named after the @.
func fromFile(d decodeCall, in *Term) bool {
	name := func(t *Term) bool {
		if t.op == OSlice {
			return t.args[0] == in && t.args[1] == tInt(1) && (t.args[2] == nil || t.args[2] == tLen(in))
		}
		return callTerm(t, "strings.TrimPrefix") && t.args[0] == in && t.args[1] == tStr("@")
	}
	read := func(t *Term) bool {
		t = unIface(unConv(t))
		if t.op == OExtract && t.n == 0 && callTerm(t.args[0], "os.Open", "os.ReadFile", "ioutil.ReadFile") {
			return name(t.args[0].args[0])
		}
		return false
	}
	if d.src != nil {
		if read(d.src) {
			return true
		}
		t := unConv(d.src)
		return t.op == OExtract && t.n == 0 && callTerm(t.args[0], "io.ReadAll", "ioutil.ReadAll") && read(t.args[0].args[0])
	}
	if d.dec != nil && callTerm(d.dec, "json.NewDecoder") {
		r := unIface(d.dec.args[0])
		if callTerm(r, "bufio.NewReader") {
			r = r.args[0]
		}
		return read(r)
	}
	return false
}

// ---- M10

func checkM10(c *Ctx) {
	fn := c.fn("jlib", "DecodeParams")
	a := newAnalysis(c.w)
	outs := c.run(a, fn)
	params, out := a.Params[0], a.Params[1]
	rt := mkCallLike(outs, "reflect.TypeOf", out)
	rv := mkCallLike(outs, "reflect.ValueOf", out)
	isOut := func(t *Term) bool {
		return rt != nil && t == rt || rv != nil && callTerm(t, "(reflect.Value).Type") && t.args[0] == rv
	}
	// facts about the output
	kindIs := func(f *Facts, t *Term, k int64) int {
		for _, l := range f.lits {
			x := l.t
			if x.op != OBin || x.str != "==" {
				continue
			}
			for i := 0; i < 2; i++ {
				if callTerm(x.args[i], "(reflect.Type).Kind", "(reflect.Value).Kind") && x.args[i].args[0] == t && x.args[1-i].op == OConst {
					n, _ := constant.Int64Val(x.args[1-i].val)
					if n == k {
						if l.val {
							return 1
						}
						return 0
					}
					if l.val {
						return 0
					}
				}
			}
		}
		return -1
	}
	elemOf := func(t *Term) bool { // the struct type, or the struct value
		return callTerm(t, "(reflect.Type).Elem") && isOut(t.args[0]) ||
			callTerm(t, "(reflect.Value).Elem") && t.args[0] == rv ||
			callTerm(t, "reflect.Indirect") && t.args[0] == rv ||
			callTerm(t, "(reflect.Value).Type") && callTerm(t.args[0], "(reflect.Value).Elem") && t.args[0].args[0] == rv
	}
	kindOf := func(f *Facts, pred func(*Term) bool, k int64) int {
		r := -1
		for _, l := range f.lits {
			subterms(l.t, func(x *Term) bool {
				if callTerm(x, "(reflect.Type).Kind", "(reflect.Value).Kind") && pred(x.args[0]) {
					if v := kindIs(f, x.args[0], k); v >= 0 {
						r = v
					}
				}
				return true
			})
		}
		return r
	}
	isPtr := func(f *Facts) int {
		return kindOf(f, func(t *Term) bool { return t != nil && (isOut(t) || t == rv) }, 22)
	}
	isStruct := func(f *Facts) int { return kindOf(f, elemOf, 25) }
	nilType := func(f *Facts) int {
		if rt != nil {
			if v := isNil(f, rt); v >= 0 {
				return v
			}
		}
		if v := isNil(f, out); v >= 0 {
			return v
		}
		if rv != nil {
			if v := f.Val(mk(OCall, types.Typ[types.Bool], "(reflect.Value).IsValid", 0, rv)); v >= 0 {
				return 1 - v
			}
			// the kind of an absent value is Invalid
			if kindIs(f, rv, 22) == 1 {
				return 0
			}
		}
		return -1
	}
	nilPtr := func(f *Facts) int {
		if rv == nil {
			return -1
		}
		return f.Val(mk(OCall, types.Typ[types.Bool], "(reflect.Value).IsNil", 0, rv))
	}
	structVal := func(t *Term) bool {
		return callTerm(t, "(reflect.Value).Elem", "reflect.Indirect") && t.args[0] == rv
	}
	isFields := func(t *Term) bool { return callTerm(t, "reflect.VisibleFields") && elemOf(t.args[0]) }

	// what an iteration stores
	type set struct {
		ev    *Event
		field *Term // the StructField
		val   *Term
	}
	fieldOfTarget := func(t *Term) *Term { // reflect.Value of a field of the output -> its StructField
		if callTerm(t, "(reflect.Value).FieldByIndex") && structVal(t.args[0]) {
			return fieldBase(t.args[1], "Index")
		}
		return nil
	}
	setsOn := func(o *Outcome, from int) []set {
		var r []set
		for i, e := range o.evs {
			if i < from || e.kind != EvCall {
				continue
			}
			if strings.HasPrefix(e.name, "(reflect.Value).Set") {
				r = append(r, set{e, fieldOfTarget(e.args[0]), e.args[1]})
			}
		}
		return r
	}
	var loopStart = func(o *Outcome) int {
		for i, e := range o.evs {
			if e.kind == EvLoopEnter {
				return i
			}
		}
		return 0
	}
	// the decode of a param on the path
	type pdec struct {
		param, err, val *Term
		target          *Term // StructField decoded into directly
	}
	decs := func(o *Outcome) []pdec {
		var r []pdec
		for _, e := range callsNamed(o.evs, "(*mapstructure.Decoder).Decode") {
			for _, nd := range callsNamed(o.evs, "mapstructure.NewDecoder") {
				if e.args[0] != tExtract(nd.res, 0, e.args[0].typ) {
					continue
				}
				cfg := unIface(nd.args[0])
				s := structOf(deref(cfg.typ))
				mem := a.memOf(nd.heap, nil)
				c.plainDecoder("M10", a, o, nd)
				p := pdec{param: e.args[1], err: e.res}
				for i := 0; s != nil && i < s.NumFields(); i++ {
					g := s.Field(i)
					v := mem.get(tFieldAddr(cfg, g.Name(), types.NewPointer(g.Type())), g.Type())
					switch g.Name() {
					case "Result":
						x := unIface(v)
						if x.op == OAlloc {
							p.val = mk(OOut, deref(x.typ), "", 0, e.res, x)
						} else if callTerm(x, "(reflect.Value).Interface") && callTerm(x.args[0], "(reflect.Value).Addr") {
							p.target = fieldOfTarget(x.args[0].args[0])
						}
					}
				}
				r = append(r, p)
			}
		}
		return r
	}
	exported := func(f *Facts, fld *Term) int {
		r := -1
		for _, l := range f.lits {
			if callTerm(l.t, "(reflect.StructField).IsExported") && l.t.args[0] == fld {
				r = map[bool]int{true: 1, false: 0}[l.val]
			}
		}
		if r < 0 {
			if v := f.Val(tEq(tField(fld, "PkgPath", 1, types.Typ[types.String]), tStr(""))); v >= 0 {
				r = v
			}
		}
		return r
	}
	validVal := func(f *Facts, v *Term) int {
		r := -1
		for _, l := range f.lits {
			if callTerm(l.t, "(reflect.Value).IsValid") && l.t.args[0] == v {
				r = map[bool]int{true: 1, false: 0}[l.val]
			}
		}
		if r < 0 && callTerm(v, "reflect.ValueOf") {
			if n := isNil(f, v.args[0]); n >= 0 {
				r = 1 - n
			}
		}
		return r
	}
	assignable := func(f *Facts, v, fld *Term) int {
		for _, l := range f.lits {
			if callTerm(l.t, "(reflect.Type).AssignableTo") && callTerm(l.t.args[0], "(reflect.Value).Type") && l.t.args[0].args[0] == v &&
				fieldBase(l.t.args[1], "Type") == fld {
				return map[bool]int{true: 1, false: 0}[l.val]
			}
		}
		return -1
	}
	// reflect calls that panic
	for _, o := range outs {
		for _, e := range o.evs {
			if e.kind != EvCall || len(e.args) == 0 {
				continue
			}
			f := e.facts
			switch e.name {
			case "(reflect.Type).Kind", "(reflect.Type).Elem":
				if e.args[0] == rt {
					c.ob(nilType(f) == 0, "M10:panic:nil", e.pos, "a nil output makes DecodeParams panic")
					if e.name == "(reflect.Type).Elem" {
						c.ob(isPtr(f) == 1, "M10:panic:pointer", e.pos, "an output that is not a pointer makes DecodeParams panic")
					}
				}
			case "reflect.VisibleFields":
				c.ob(isStruct(f) == 1, "M10:panic:struct", e.pos, "an output that does not point to a struct makes DecodeParams panic")
			case "(reflect.Value).FieldByIndex", "(reflect.Value).Field":
				c.ob(nilPtr(f) == 0, "M10:panic:nilptr", e.pos, "a nil pointer as output makes DecodeParams panic")
			case "(reflect.Value).Type":
				if callTerm(e.args[0], "reflect.ValueOf") {
					c.ob(validVal(f, e.args[0]) == 1, "M10:panic:null", e.pos, "a null param may make DecodeParams panic")
				}
			case "(reflect.Value).Set":
				v := e.args[1]
				fld := fieldOfTarget(e.args[0])
				if fld == nil {
					continue
				}
				ok := callTerm(v, "reflect.Zero") && fieldBase(v.args[0], "Type") == fld || validVal(f, v) == 1 && assignable(f, v, fld) == 1
				c.ob(ok, "M10:panic:set", e.pos, "a param that does not fit its field may make DecodeParams panic")
			}
		}
	}
	nok, nerr, nset, nskip := 0, 0, 0, 0
	// filtered: t is the list of the exported fields, collected by an earlier
	// loop over all of them
	filtered := func(o *Outcome, t *Term) bool {
		for _, l := range loopsIn(o) {
			init := l.init[t]
			if init == nil || !(init.op == ONil || init == tNil || o.facts.Implies(lit(tEq(tLen(init), tInt(0)), true))) {
				continue
			}
			bs := rawBacks(outs, o, l)
			var all *Term
			for _, b := range bs {
				for _, e := range b.evs {
					if e.kind == EvIndex && isFields(e.args[0]) {
						all = e.args[0]
					}
				}
			}
			if all == nil {
				continue
			}
			idxs, asc := seqIndexes(l, bs, tLen(all))
			for i, idx := range idxs {
				if !asc[i] || !o.facts.Implies(lit(tLe(tLen(all), idx), true)) {
					continue
				}
				ok := len(bs) > 0
				for _, b := range bs {
					x := elem(all, idx)
					switch n := b.next[t]; {
					case n == t:
						ok = ok && exported(b.facts, x) == 0
						nskip++
					default:
						ok = ok && n.op == OAppend && n.str == "" && len(n.args) == 2 && n.args[0] == t && n.args[1] == x && exported(b.facts, x) == 1
					}
				}
				if ok {
					return true
				}
			}
		}
		return false
	}
	iteration := func(b *Outcome, fields, idx, k, nk *Term) {
		f := b.facts
		fld := elem(fields, idx)
		sets := setsOn(b, loopStart(b))
		have := f.Implies(lit(tLt(k, tLen(params)), true))
		none := f.Implies(lit(tLe(tLen(params), k), true))
		ex := exported(f, fld)
		if !isFields(fields) {
			ex = 1
		}
		var direct []pdec
		for _, d := range decs(b) {
			if d.target != nil {
				direct = append(direct, d)
			}
		}
		switch {
		case ex == 1 && have:
			nset++
			if len(direct) == 1 && len(sets) == 0 {
				d := direct[0]
				c.ob(d.target == fld && d.param == elem(params, k) && isNil(f, d.err) == 1, "M10:set", b.pos, "an exported field is not filled from the param of its position")
			} else if c.ob(len(sets) == 1, "M10:set", b.pos, "%d fields are set for one exported field", len(sets)) {
				s := sets[0]
				ok := s.field == fld
				good := false
				for _, d := range decs(b) {
					if d.param != elem(params, k) || d.val == nil || isNil(f, d.err) != 1 {
						continue
					}
					v := s.val
					good = good || callTerm(v, "reflect.ValueOf") && v.args[0] == d.val || callTerm(v, "reflect.Zero") && fieldBase(v.args[0], "Type") == fld && (zeroJust(f, d.val))
				}
				c.ob(ok, "M10:field", s.ev.pos, "the field set is %s, not the one of this position", s.field)
				c.ob(good, "M10:value", s.ev.pos, "the value set is %s, not the param of its position", s.val)
			}
			c.ob(nk == tBin(token.ADD, k, tInt(1), types.Typ[types.Int]), "M10:next", b.pos, "a param is used for more than one field or skipped")
		case ex == 0:
			nskip++
			c.ob(len(sets) == 0 && len(direct) == 0, "M10:unexported", b.pos, "an unexported field is set")
			c.ob(nk == k || nk == nil, "M10:next", b.pos, "an unexported field uses up a param")
		case none:
			c.ob(len(sets) == 0 && len(direct) == 0, "M10:untouched", b.pos, "a field without a param is set")
		default:
			c.ob(false, "M10:iteration", b.pos, "whether the field is exported and has a param is not decided")
		}
	}
	for _, o := range outs {
		if o.kind == OutLoop {
			continue
		}
		if !c.ob(o.kind == OutReturn, "M10:ends", o.pos, "DecodeParams may end in a %s", kindName(o.kind)) {
			continue
		}
		f := o.facts
		if isNil(f, o.rets[0]) == 0 {
			nerr++
			just := nilType(f) == 1 || isPtr(f) == 0 || nilPtr(f) == 1 || isStruct(f) == 0
			for _, e := range callsNamed(o.evs, "mapstructure.NewDecoder") {
				just = just || isNil(f, extractErr(e.res, 1)) == 0
			}
			for _, d := range decs(o) {
				just = just || isNil(f, d.err) == 0
			}
			for _, l := range f.lits {
				just = just || !l.val && callTerm(l.t, "(reflect.Type).AssignableTo") && derivesFrom(l.t.args[0], params)
			}
			c.ob(just, "M10:refuse", o.pos, "DecodeParams may fail although the output and the params fit")
			continue
		}
		nok++
		c.ob(isNil(f, o.rets[0]) == 1, "M10:result", o.pos, "whether DecodeParams fails is not decided")
		c.ob(isPtr(f) == 1 && isStruct(f) == 1 && nilPtr(f) == 0, "M10:accept", o.pos, "an output that is not a pointer to a struct is accepted")
		// the loop over the fields
		found := false
		for _, l := range loopsIn(o) {
			bs := rawBacks(outs, o, l)
			var fields *Term
			pick := func(x *Term) {
				if isFields(x) && fields == nil || x.op == OLoopVar && l.init[x] == nil && filtered(o, x) {
					fields = x
				}
			}
			for _, b := range bs {
				for _, e := range b.evs[loopStartOf(b, l):] {
					if e.kind == EvIndex {
						pick(e.args[0])
					}
				}
				for _, lt := range b.facts.lits {
					subterms(lt.t, func(x *Term) bool {
						if x.op == OLen {
							pick(x.args[0])
						}
						return true
					})
				}
			}
			if fields == nil {
				continue
			}
			all := isFields(fields)
			idxs, asc := seqIndexes(l, bs, tLen(fields))
			for i, idx := range idxs {
				if !asc[i] {
					continue
				}
				// the counter of params
				ks := append([]*Term(nil), l.vars...)
				if !all {
					ks = append(ks, idx)
				}
				for _, k := range ks {
					next := func(b *Outcome) *Term {
						if k == idx && b.next[k] == nil {
							return tBin(token.ADD, k, tInt(1), types.Typ[types.Int])
						}
						return b.next[k]
					}
					if !isIntType(k.typ) || l.init[k] != tInt(0) && (k != idx || all) {
						continue
					}
					okk := true
					for _, b := range bs {
						nb, nc := linear(next(b))
						kb, kc := linear(k)
						okk = okk && nb == kb && (nc == kc || nc == kc+1)
					}
					reads := false
					for _, b := range bs {
						for _, e := range b.evs {
							b0, i0 := baseIndex(e)
							reads = reads || b0 == params && i0 == k
						}
					}
					if !reads {
						continue
					}
					only := true // k only moves on some iterations
					for _, b := range bs {
						only = only && b.next[k] == tBin(token.ADD, k, tInt(1), types.Typ[types.Int])
					}
					if !okk || only && all {
						continue
					}
					done := f.Implies(lit(tLe(tLen(fields), idx), true)) || f.Implies(lit(tLe(tLen(params), k), true))
					if !c.ob(done, "M10:all", o.pos, "DecodeParams may end before the last field that has a param") {
						continue
					}
					found = true
					for _, b := range bs {
						iteration(b, fields, idx, k, next(b))
						for _, e := range b.evs {
							if b0, i0 := baseIndex(e); b0 == params {
								c.ob(i0 == k && e.facts.Implies(lit(tLt(k, tLen(params)), true)), "M10:index", e.pos, "a param that may not exist is read: %s", e)
							}
						}
					}
				}
			}
		}
		c.ob(found, "M10:loop", o.pos, "DecodeParams does not go over the fields in order, one param each")
	}
	c.ob(nok > 0 && nerr > 0 && nset > 0 && nskip > 0, "M10:vacuous", fn.Pos(), "DecodeParams never sets, skips, succeeds or fails")
}

func loopStartOf(o *Outcome, l *LoopInfo) int {
	for i, e := range o.evs {
		if e.kind == EvLoopEnter && e.loop.key == l.key {
			return i
		}
	}
	return 0
}

// baseIndex: which element of which list is indexed, through what is left of
// a list eaten from the front.
func baseIndex(e *Event) (*Term, *Term) {
	if e.kind != EvIndex || e.name != "index" {
		return nil, nil
	}
	b, i := e.args[0], e.args[1]
	for b.op == OSlice {
		if b.args[1] != nil {
			i = tBin(token.ADD, b.args[1], i, types.Typ[types.Int])
		}
		b = b.args[0]
	}
	return b, i
}

// fieldBase: the struct whose field t is, read from a copy or in place.
func fieldBase(t *Term, name string) *Term {
	if t.op == OField && t.str == name {
		return t.args[0]
	}
	if t.op == ODeref && t.args[0].op == OFieldAddr && t.args[0].str == name {
		if b := t.args[0].args[0]; b.op == OIndexAddr {
			return elem(b.args[0], b.args[1])
		} else {
			return tDerefOf(b)
		}
	}
	return nil
}

func tDerefOf(addr *Term) *Term { return mk(ODeref, deref(addr.typ), "", 0, addr) }

// zeroJust: a zero value stands for a param that decoded to a nil interface.
func zeroJust(f *Facts, v *Term) bool {
	if isNil(f, v) == 1 {
		return true
	}
	for _, l := range f.lits {
		if !l.val && callTerm(l.t, "(reflect.Value).IsValid") && callTerm(l.t.args[0], "reflect.ValueOf") && l.t.args[0].args[0] == v {
			return true
		}
	}
	return false
}

// mkCallLike: the term of a call made somewhere with the argument.
func mkCallLike(outs []*Outcome, name string, arg *Term) *Term {
	for _, o := range outs {
		for _, e := range callsNamed(o.evs, name) {
			if e.args[0] == arg {
				return e.res
			}
		}
	}
	return nil
}

// ---- M11

// patAtom is a test on a string that an automaton over its characters decides.
type patAtom struct {
	prog *syntax.Prog
	src  string
}

// patState: a state of the simulation of one atom.
type patState struct {
	pcs     []uint32
	matched bool
}

func newAtom(expr string) (*patAtom, error) {
	re, err := syntax.Parse(expr, syntax.Perl)
	if err != nil {
		return nil, err
	}
	p, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil, err
	}
	return &patAtom{p, expr}, nil
}

func (p *patAtom) closure(pcs []uint32, flag syntax.EmptyOp) (runes []uint32, match bool) {
	seen := map[uint32]bool{}
	var add func(pc uint32)
	add = func(pc uint32) {
		if seen[pc] {
			return
		}
		seen[pc] = true
		in := &p.prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(in.Out)
			add(in.Arg)
		case syntax.InstCapture, syntax.InstNop:
			add(in.Out)
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(in.Arg)&^flag == 0 {
				add(in.Out)
			}
		case syntax.InstMatch:
			match = true
		case syntax.InstFail:
		default:
			runes = append(runes, pc)
		}
	}
	for _, pc := range pcs {
		add(pc)
	}
	sort.Slice(runes, func(i, j int) bool { return runes[i] < runes[j] })
	return
}

// step: after reading r (the previous character was prev, -1 at the start).
func (p *patAtom) step(s patState, prev, r rune) patState {
	if s.matched {
		return s
	}
	runes, m := p.closure(append([]uint32{uint32(p.prog.Start)}, s.pcs...), syntax.EmptyOpContext(prev, r))
	if m {
		return patState{nil, true}
	}
	seen := map[uint32]bool{}
	var n patState
	for _, pc := range runes {
		in := &p.prog.Inst[pc]
		if in.MatchRune(r) && !seen[in.Out] {
			seen[in.Out] = true
			n.pcs = append(n.pcs, in.Out)
		}
	}
	sort.Slice(n.pcs, func(i, j int) bool { return n.pcs[i] < n.pcs[j] })
	return n
}

func (p *patAtom) end(s patState, prev rune) bool {
	if s.matched {
		return true
	}
	_, m := p.closure(append([]uint32{uint32(p.prog.Start)}, s.pcs...), syntax.EmptyOpContext(prev, -1))
	return m
}

func quoteMeta(s string) string {
	var b strings.Builder
	for _, r := range s {
		if strings.ContainsRune(`\.+*?()|[]{}^$`, r) {
			b.WriteByte('\\')
		}
		b.WriteRune(r)
	}
	return b.String()
}

// globalPattern: the constant pattern a package variable is compiled from.
func (c *Ctx) globalPattern(t *Term) (string, bool) {
	if t.op != ODeref || t.args[0].op != OGlobal {
		return "", false
	}
	name := t.args[0].str
	pat, n := "", 0
	for _, f := range c.w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok || g.RelString(nil) != name {
					continue
				}
				n++
				call, ok := st.Val.(*ssa.Call)
				if !ok || call.Common().StaticCallee() == nil || !strings.HasPrefix(call.Common().StaticCallee().String(), "regexp.MustCompile") {
					return "", false
				}
				k, ok := call.Common().Args[0].(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.String {
					return "", false
				}
				pat = constant.StringVal(k.Value)
			}
		}
	}
	return pat, n == 1
}

// atomOf: the pattern equivalent to a boolean term over the string; neg for its complement.
func (c *Ctx) atomOf(t, s *Term) (expr string, neg, ok bool) {
	switch {
	case t.op == OExtract && t.n == 0 && callTerm(t.args[0], "regexp.MatchString") && t.args[0].args[1] == s && t.args[0].args[0].op == OConst:
		return constStr(t.args[0].args[0]), false, true
	case callTerm(t, "(*regexp.Regexp).MatchString") && t.args[1] == s:
		r := t.args[0]
		if callTerm(r, "regexp.MustCompile") && r.args[0].op == OConst {
			return constStr(r.args[0]), false, true
		}
		if p, ok := c.globalPattern(r); ok {
			return p, false, true
		}
	case callTerm(t, "strings.HasPrefix") && t.args[0] == s && t.args[1].op == OConst:
		return `\A` + quoteMeta(constStr(t.args[1])), false, true
	case callTerm(t, "strings.HasSuffix") && t.args[0] == s && t.args[1].op == OConst:
		return quoteMeta(constStr(t.args[1])) + `\z`, false, true
	case callTerm(t, "strings.Contains") && t.args[0] == s && t.args[1].op == OConst:
		return quoteMeta(constStr(t.args[1])), false, true
	case callTerm(t, "strings.ContainsAny") && t.args[0] == s && t.args[1].op == OConst:
		var alts []string
		for _, r := range constStr(t.args[1]) {
			alts = append(alts, quoteMeta(string(r)))
		}
		return `(?:` + strings.Join(alts, "|") + `)`, false, len(alts) > 0
	case t.op == OBin && t.str == "==":
		for i := 0; i < 2; i++ {
			x, y := t.args[i], t.args[1-i]
			if x == s && y.op == OConst {
				return `\A` + quoteMeta(constStr(y)) + `\z`, false, true
			}
			if x == tLen(s) && y == tInt(0) {
				return `\A\z`, false, true
			}
			// s[:n] == const
			if x.op == OSlice && x.args[0] == s && (x.args[1] == nil || x.args[1] == tInt(0)) && y.op == OConst && x.args[2] == tInt(int64(len(constStr(y)))) {
				return `\A` + quoteMeta(constStr(y)), false, true
			}
			// s[n] == 'c'
			if x.op == OIndex && x.args[0] == s && x.args[1].op == OConst && y.op == OConst {
				n, _ := constant.Int64Val(x.args[1].val)
				ch, _ := constant.Int64Val(y.val)
				if ch < 128 && n < 16 {
					return fmt.Sprintf(`\A(?s:.){%d}%s`, n, quoteMeta(string(rune(ch)))), false, true
				}
			}
		}
	case t.op == OBin && (t.str == "<" || t.str == "<="):
		// lengths against small constants
		x, y := t.args[0], t.args[1]
		bound := func(k *Term) (int64, bool) {
			if k.op != OConst {
				return 0, false
			}
			n, ok := constant.Int64Val(k.val)
			return n, ok && n >= 0 && n < 64
		}
		if x == tLen(s) {
			if n, ok := bound(y); ok { // len < n, len <= n
				if t.str == "<" {
					n--
				}
				if n < 0 {
					return `\A\z`, true, false
				}
				return fmt.Sprintf(`\A(?s:.){0,%d}\z`, n), false, true
			}
		}
		if y == tLen(s) {
			if n, ok := bound(x); ok { // n < len, n <= len
				if t.str == "<" {
					n++
				}
				return fmt.Sprintf(`\A(?s:.){%d}`, n), false, true
			}
		}
	}
	return "", false, false
}

func checkM11(c *Ctx) {
	for _, v := range []struct{ name, spec string }{
		{"IsMethod", `\A[0-9A-Za-z\-_:+.]+\z`},
		{"IsPublicMethod", `\A[0-9A-Za-z][0-9A-Za-z\-_:+./\\&#]*\z`},
	} {
		c.validator(v.name, v.spec)
	}
}

func (c *Ctx) validator(name, specExpr string) {
	fn := c.fn("jlib", name)
	a := newAnalysis(c.w)
	outs := c.run(a, fn)
	s := a.Params[0]
	spec, _ := newAtom(specExpr)
	rpc, _ := newAtom(`\Arpc\.`)
	atoms := []*patAtom{spec, rpc}
	index := map[*Term]int{}
	neg := map[*Term]bool{}
	ok := true
	var need func(t *Term)
	need = func(t *Term) {
		if _, have := index[t]; have || t == tTrue || t == tFalse {
			return
		}
		if t.op == ONot {
			need(t.args[0])
			return
		}
		// errors of constant patterns that compile
		if t.op == OBin && t.str == "==" {
			for i := 0; i < 2; i++ {
				x := t.args[i]
				if t.args[1-i] == tNil && x.op == OExtract && x.n == 1 && callTerm(x.args[0], "regexp.MatchString") && x.args[0].args[0].op == OConst {
					if _, err := newAtom(constStr(x.args[0].args[0])); err == nil {
						index[t] = -1 // true
						return
					}
				}
			}
		}
		e, ng, y := c.atomOf(t, s)
		if !y {
			ok = false
			c.ob(false, "M11:"+name+":test", fn.Pos(), "%s makes a test that is not understood: %s", name, t)
			return
		}
		p, err := newAtom(e)
		if !c.ob(err == nil, "M11:"+name+":pattern", fn.Pos(), "the pattern %s of %s is not valid: %v", e, name, err) {
			ok = false
			return
		}
		index[t] = len(atoms)
		neg[t] = ng
		atoms = append(atoms, p)
	}
	var rets []*Outcome
	for _, o := range outs {
		if !c.ob(o.kind == OutReturn, "M11:"+name+":ends", o.pos, "%s may end in a %s", name, kindName(o.kind)) {
			ok = false
			continue
		}
		for _, l := range o.facts.lits {
			need(l.t)
		}
		need(o.rets[0])
		rets = append(rets, o)
	}
	if !ok {
		return
	}
	// characters that tell patterns apart
	alpha := map[rune]bool{0: true, '\n': true, 0x7f: true, 0x80: true, 0x17f: true, 0x212a: true, 0xfffd: true, 0x10ffff: true}
	for r := rune(0); r < 128; r++ {
		alpha[r] = true
	}
	for _, p := range atoms {
		for _, in := range p.prog.Inst {
			for _, r := range in.Rune {
				for _, x := range []rune{r - 1, r, r + 1} {
					if x >= 0 && x <= 0x10ffff {
						alpha[x] = true
					}
				}
			}
		}
	}
	var letters []rune
	for r := range alpha {
		letters = append(letters, r)
	}
	sort.Slice(letters, func(i, j int) bool { return letters[i] < letters[j] })
	type node struct {
		st   []patState
		prev rune
		text string
	}
	key := func(n node) string {
		k := fmt.Sprint(prevClass(n.prev))
		for _, s := range n.st {
			k += fmt.Sprint("|", s.pcs, s.matched)
		}
		return k
	}
	start := node{make([]patState, len(atoms)), -1, ""}
	seen := map[string]bool{key(start): true}
	queue := []node{start}
	states := 0
	for len(queue) > 0 && states < 200000 {
		n := queue[0]
		queue = queue[1:]
		states++
		vals := make([]bool, len(atoms))
		for i, p := range atoms {
			vals[i] = p.end(n.st[i], n.prev)
		}
		var eval func(t *Term) bool
		eval = func(t *Term) bool {
			switch {
			case t == tTrue:
				return true
			case t == tFalse:
				return false
			case t.op == ONot:
				return !eval(t.args[0])
			case index[t] < 0:
				return true
			}
			return vals[index[t]] != neg[t]
		}
		want := vals[0]
		if name == "IsPublicMethod" {
			want = want && !vals[1]
		}
		m := 0
		for _, o := range rets {
			hold := true
			for _, l := range o.facts.lits {
				hold = hold && eval(l.t) == l.val
			}
			if !hold {
				continue
			}
			m++
			got := eval(o.rets[0])
			if !c.ob(got == want, "M11:"+name, o.pos, "%s(%q) is %v", name, n.text, got) {
				return
			}
		}
		if !c.ob(m > 0, "M11:"+name, fn.Pos(), "%s(%q) has no outcome", name, n.text) {
			return
		}
		for _, r := range letters {
			x := node{make([]patState, len(atoms)), r, n.text + string(r)}
			for i, p := range atoms {
				x.st[i] = p.step(n.st[i], n.prev, r)
			}
			if k := key(x); !seen[k] {
				seen[k] = true
				queue = append(queue, x)
			}
		}
	}
	c.count("automaton_states", states)
	c.ob(len(queue) == 0, "M11:"+name+":size", fn.Pos(), "the automata of %s are too large", name)
}

// prevClass: what of the previous character empty-width tests can see.
func prevClass(r rune) int {
	switch {
	case r == -1:
		return 0
	case r == '\n':
		return 1
	case syntax.IsWordChar(r):
		return 2
	}
	return 3
}

// plainDecoder: the decoder made by nd names fields by their json tags and
// has none of the options that change what it accepts or does.
func (c *Ctx) plainDecoder(key string, a *Analysis, o *Outcome, nd *Event) *Term {
	cfg := unIface(nd.args[0])
	s := structOf(deref(cfg.typ))
	mem := a.memOf(nd.heap, nil)
	var result *Term
	for i := 0; s != nil && i < s.NumFields(); i++ {
		g := s.Field(i)
		x := mem.get(tFieldAddr(cfg, g.Name(), types.NewPointer(g.Type())), g.Type())
		switch g.Name() {
		case "Metadata":
		case "TagName":
			c.ob(x.op == OConst && constStr(x) == "json", key+":tag", nd.pos, "values are converted by the tag %s", x)
		case "Result":
			result = x
		case "WeaklyTypedInput":
			c.ob(x == tFalse, key+":weak", nd.pos, "values are converted loosely")
		case "DecodeHook":
			c.ob(isNil(o.facts, x) == 1, key+":hook", nd.pos, "values are converted by a hook")
		default:
			zero := x == tFalse || isEmptyStr(x) || isNil(o.facts, x) == 1 || x.op == OConst && x == zeroOf(g.Type())
			c.ob(zero, key+":option", nd.pos, "values are converted with the option %s", g.Name())
		}
	}
	return result
}

// checkDecodeInterface: the input is decoded into the output, once, and
// failing to is reported.
func (c *Ctx) checkDecodeInterface(key string) {
	fn := c.fn("jlib", "DecodeInterface")
	c.site(fn.Pos(), "DecodeInterface")
	a := newAnalysis(c.w)
	n := 0
	for _, o := range c.run(a, fn) {
		ds := callsNamed(o.evs, "(*mapstructure.Decoder).Decode")
		nds := callsNamed(o.evs, "mapstructure.NewDecoder")
		if o.kind == OutReturn && len(ds) == 0 {
			c.ob(len(nds) == 1 && isNil(o.facts, extractErr(nds[0].res, 1)) == 0 && isNil(o.facts, o.rets[0]) == 0, key+":undecoded", o.pos, "nothing is decoded and no error returned")
			continue
		}
		if !c.ob(o.kind == OutReturn && len(ds) == 1 && len(nds) == 1 && ds[0].args[0] == tExtract(nds[0].res, 0, ds[0].args[0].typ), key+":once", o.pos, "the input is not decoded exactly once") {
			continue
		}
		n++
		c.ob(isNil(ds[0].facts, extractErr(nds[0].res, 1)) == 1, key+":decoder", ds[0].pos, "a decoder that was not made is used")
		r := c.plainDecoder(key, a, o, nds[0])
		c.ob(r != nil && unIface(r) == unIface(a.Params[1]), key+":output", o.pos, "the input is decoded into %s, not the output", r)
		c.ob(unIface(ds[0].args[1]) == unIface(a.Params[0]), key+":input", o.pos, "%s is decoded, not the input", ds[0].args[1])
		er := ds[0].res
		switch isNil(o.facts, er) {
		case 1:
			c.ob(isNil(o.facts, o.rets[0]) == 1, key+":ok", o.pos, "a decoded input gives %s", o.rets[0])
		case 0:
			c.ob(c.isErr(o.facts, o.rets[0]), key+":failed", o.pos, "an input that cannot be decoded gives no error")
		default:
			c.ob(wraps(o.rets[0], er), key+":failed", o.pos, "the decoding error is not returned")
		}
	}
	c.ob(n > 0, key+":vacuous", fn.Pos(), "DecodeInterface never decodes")
}
