package main

// Hash-consed provenance terms: the abstract values of the interpreter.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Op uint8

const (
	OConst Op = iota
	ONil
	OZero
	OSym
	OGlobal
	OFunc
	OAlloc
	OFieldAddr
	OIndexAddr
	ODeref
	OField
	OIndex
	OCall
	OExtract
	OBin
	ONot
	OUn
	OConv
	OMkIface
	OAssert
	OTypeIs
	OSlice
	OLen
	OCap
	OClosure
	OMake
	OMapCell
	OMapInit
	OMapPut
	OMapDel
	OLookup
	OLookupOk
	OLoopVar
	ORecv
	ORecvOk
	ORangeOk
	ORKey
	ORVal
	OOut
	OStruct
	OSliceLit
	OAppend
	OTuple
	OPanicVal
	OKind
	OCell
)

var opNames = [...]string{"const", "nil", "zero", "sym", "global", "func", "alloc", "fieldaddr", "indexaddr", "deref", "field", "index", "call", "extract", "bin", "not", "un", "conv", "mkiface", "assert", "typeis", "slice", "len", "cap", "closure", "make", "mapcell", "mapinit", "mapput", "mapdel", "lookup", "lookupok", "loopvar", "recv", "recvok", "rangeok", "rkey", "rval", "out", "struct", "slicelit", "append", "tuple", "panicval", "kind", "cell"}

type Term struct {
	id   int
	op   Op
	typ  types.Type
	args []*Term
	str  string // name / token / site key
	n    int
	val  constant.Value
	fn   *ssa.Function
	pos  token.Pos
}

var (
	termTab = map[string]*Term{}
	termSeq int
)

func tstr(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

var tstrCache = map[types.Type]string{}

func tkey(t types.Type) string {
	if t == nil {
		return "?"
	}
	if s, ok := tstrCache[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	tstrCache[t] = s
	return s
}

func mk(op Op, typ types.Type, str string, n int, args ...*Term) *Term {
	var b strings.Builder
	b.WriteByte(byte(op) + 33)
	switch op {
	case OConv, OMkIface, OAssert, OTypeIs, OZero, OSym:
		b.WriteString(tkey(typ))
	}
	b.WriteByte('|')
	b.WriteString(str)
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(n))
	for _, a := range args {
		b.WriteByte(',')
		if a == nil {
			b.WriteString("_")
		} else {
			b.WriteString(strconv.Itoa(a.id))
		}
	}
	k := b.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	t := &Term{id: termSeq, op: op, typ: typ, args: args, str: str, n: n}
	termTab[k] = t
	return t
}

var tNil = mk(ONil, nil, "", 0)
var tTrue = tConstV(constant.MakeBool(true), types.Typ[types.Bool])
var tFalse = tConstV(constant.MakeBool(false), types.Typ[types.Bool])

func tConstV(v constant.Value, typ types.Type) *Term {
	k := v.ExactString()
	kind := "?"
	if typ != nil {
		if b, ok := typ.Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsString != 0:
				kind = "s"
			case b.Info()&types.IsBoolean != 0:
				kind = "b"
			case b.Info()&types.IsInteger != 0:
				kind = "i"
			case b.Info()&types.IsFloat != 0:
				kind = "f"
			}
		}
	}
	t := mk(OConst, typ, kind+":"+k, 0)
	t.val = v
	return t
}
func tInt(n int64) *Term  { return tConstV(constant.MakeInt64(n), types.Typ[types.Int]) }
func tStr(s string) *Term { return tConstV(constant.MakeString(s), types.Typ[types.String]) }
func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func tFuncT(f *ssa.Function) *Term {
	t := mk(OFunc, f.Signature, f.RelString(nil)+fmt.Sprintf("@%d", f.Pos()), 0)
	t.fn = f
	return t
}

func tSym(name string, typ types.Type) *Term { return mk(OSym, typ, name, 0) }

func isMsgPtr(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	return msgKindOf(p.Elem()) >= 0
}

// canonical base for pseudo field addresses of jlib messages
func stripMsg(b *Term) *Term {
	for {
		switch {
		case b.op == OAssert && isMsgPtr(b.typ):
			b = b.args[0]
		case b.op == OMkIface && isMsgPtr(b.typ):
			b = b.args[0]
		case b.op == OAssert && b.typ != nil && isIfaceNamed(b.typ, "Message"):
			b = b.args[0]
		default:
			return b
		}
	}
}

func isIfaceNamed(t types.Type, name string) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	_, ok = n.Underlying().(*types.Interface)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath
}

func tFieldAddr(base *Term, field string, typ types.Type) *Term {
	base = stripMsg(base)
	return mk(OFieldAddr, typ, field, 0, base)
}

func tIndexAddr(base, idx *Term, typ types.Type) *Term {
	if base.op == OSlice && base.args[1] != nil {
		return tIndexAddr(base.args[0], tBin(token.ADD, idx, base.args[1], types.Typ[types.Int]), typ)
	}
	if base.op == OSlice {
		return tIndexAddr(base.args[0], idx, typ)
	}
	return mk(OIndexAddr, typ, "", 0, base, idx)
}

func tExtract(x *Term, n int, typ types.Type) *Term {
	if x.op == OTuple {
		return x.args[n]
	}
	return mk(OExtract, typ, "", n, x)
}

func tMkIface(typ types.Type, x *Term) *Term {
	if x.op == OAssert && types.Identical(x.typ, typ) {
		return x.args[0]
	}
	return mk(OMkIface, typ, "", 0, x)
}

func tAssert(x *Term, typ types.Type) *Term {
	if x.op == OMkIface && types.Identical(x.typ, typ) {
		return x.args[0]
	}
	if _, ok := typ.Underlying().(*types.Interface); ok {
		// interface-to-interface: same value
		return x
	}
	return mk(OAssert, typ, "", 0, x)
}

func tTypeIs(x *Term, typ types.Type) *Term {
	if x.op == ONil {
		return tFalse
	}
	if x.op == OMkIface {
		if it, ok := typ.Underlying().(*types.Interface); ok {
			return tBool(types.Implements(x.typ, it))
		}
		return tBool(types.Identical(x.typ, typ))
	}
	return mk(OTypeIs, typ, "", 0, x)
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isOrdered(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsFloat) != 0
}
func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// keepsInt: converting changes no value (the sizes of a 64-bit machine)
func keepsInt(from, to types.Type) bool {
	sz := types.SizesFor("gc", "amd64")
	return sz.Sizeof(to.Underlying()) >= sz.Sizeof(from.Underlying())
}

// linear normal form base + c over ints
func linear(t *Term) (*Term, int64) {
	c := int64(0)
	for {
		switch {
		case t.op == OConst && t.val != nil && t.val.Kind() == constant.Int:
			if v, ok := constant.Int64Val(t.val); ok {
				return nil, c + v
			}
			return t, c
		case t.op == OConv && isIntType(t.typ) && isIntType(t.args[0].typ) && keepsInt(t.args[0].typ, t.typ):
			t = t.args[0]
		case t.op == OBin && t.str == "+" && isIntType(t.typ):
			if b, k := linear(t.args[1]); b == nil {
				c += k
				t = t.args[0]
				continue
			}
			if b, k := linear(t.args[0]); b == nil {
				c += k
				t = t.args[1]
				continue
			}
			return t, c
		case t.op == OBin && t.str == "-" && isIntType(t.typ):
			if b, k := linear(t.args[1]); b == nil {
				c -= k
				t = t.args[0]
				continue
			}
			return t, c
		default:
			return t, c
		}
	}
}

func mkLinear(b *Term, c int64, typ types.Type) *Term {
	if b == nil {
		return tInt(c)
	}
	if c == 0 {
		return b
	}
	return mk(OBin, typ, "+", 0, b, tInt(c))
}

func tNot(x *Term) *Term {
	switch {
	case x == tTrue:
		return tFalse
	case x == tFalse:
		return tTrue
	case x.op == ONot:
		return x.args[0]
	}
	return mk(ONot, types.Typ[types.Bool], "", 0, x)
}

func isConstLike(t *Term) bool {
	switch t.op {
	case OConst:
		return true
	case OMkIface:
		return isConstLike(t.args[0])
	}
	return false
}

func isEmptyStr(t *Term) bool {
	return t.op == OConst && t.val != nil && t.val.Kind() == constant.String && constant.StringVal(t.val) == ""
}

func tEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	// s == "" and len(s) == 0 are the same atom
	if isEmptyStr(a) && b.op != OConst && b.op != OMkIface {
		return tEq(tLen(b), tInt(0))
	}
	if isEmptyStr(b) && a.op != OConst && a.op != OMkIface {
		return tEq(tLen(a), tInt(0))
	}
	if a.op == OMkIface && b.op == OMkIface {
		if !types.Identical(a.typ, b.typ) {
			return tFalse
		}
		return tEq(a.args[0], b.args[0])
	}
	if isConstLike(a) && isConstLike(b) {
		return tFalse
	}
	if a == tTrue {
		return b
	}
	if b == tTrue {
		return a
	}
	if a == tFalse {
		return tNot(b)
	}
	if b == tFalse {
		return tNot(a)
	}
	if a.op == ONil || b.op == ONil {
		x := a
		if a.op == ONil {
			x = b
		}
		if madeOnce(x) {
			return tFalse
		}
		// wrapping nothing gives nothing
		if x.op == OCall && len(x.args) > 0 && (x.str == "errors.Wrap" || x.str == "errors.Wrapf" || x.str == "errors.WithMessage" || x.str == "errors.WithStack") {
			return tEq(x.args[0], tNil)
		}
		switch neverNil(x) {
		case 1:
			return tFalse
		case -1:
			return tTrue
		}
	}
	if isIntType(a.typ) || isIntType(b.typ) {
		a, b = balance(a, b)
		ba, ca := linear(a)
		bb, cb := linear(b)
		if ba == bb {
			return tBool(ca == cb)
		}
		// normalise: base = base + c
		if ba == nil {
			a, b = tInt(ca-cb), bb
		} else if bb == nil {
			a, b = ba, tInt(cb-ca)
		} else {
			d := cb - ca
			if d >= 0 {
				a, b = ba, mkLinear(bb, d, b.typ)
			} else {
				a, b = mkLinear(ba, -d, a.typ), bb
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OBin, types.Typ[types.Bool], "==", 0, a, b)
}

// 1 never nil, -1 always nil, 0 unknown
func neverNil(x *Term) int {
	switch x.op {
	case OAlloc, OFieldAddr, OIndexAddr, OMkIface, OClosure, OFunc, OGlobal, OMake, OSliceLit, OPanicVal:
		return 1
	case ONil:
		return -1
	case OAppend:
		if len(x.args) > 1 {
			return 1
		}
	case OSlice:
		if x.args[0].op == OAlloc {
			return 1
		}
	case OConst:
		return 1
	case OCall:
		if neverNilCall[x.str2()] {
			return 1
		}
	case OExtract:
		return 0
	}
	return 0
}

// monomials adds k·t to the linear combination m and returns the constant part.
func monomials(t *Term, k int64, m map[*Term]int64) int64 {
	b, c := linear(t)
	c *= k
	if b == nil {
		return c
	}
	if b.op == OBin && isIntType(b.typ) && (b.str == "+" || b.str == "-") {
		c += monomials(b.args[0], k, m)
		if b.str == "-" {
			k = -k
		}
		return c + monomials(b.args[1], k, m)
	}
	m[b] += k
	return c
}

// balance brings an integer comparison whose sides are sums into one form:
// common terms cancelled, terms with positive coefficient left.
func balance(a, b *Term) (*Term, *Term) {
	if !isIntType(a.typ) && !isIntType(b.typ) {
		return a, b
	}
	sum := func(t *Term) bool {
		x, _ := linear(t)
		return x != nil && x.op == OBin && (x.str == "+" || x.str == "-")
	}
	if !sum(a) && !sum(b) {
		return a, b
	}
	m := map[*Term]int64{}
	c := monomials(a, 1, m) + monomials(b, -1, m)
	set := map[*Term]bool{}
	for t, k := range m {
		if k > 8 || k < -8 {
			return a, b
		}
		if k != 0 {
			set[t] = true
		}
	}
	I := types.Typ[types.Int]
	var l, r *Term
	add := func(x **Term, t *Term, k int64) {
		for ; k > 0; k-- {
			if *x == nil {
				*x = t
			} else {
				*x = mk(OBin, I, "+", 0, *x, t)
			}
		}
	}
	for _, t := range sortedTerms(set) {
		add(&l, t, m[t])
		add(&r, t, -m[t])
	}
	if l == nil {
		return tInt(c), orZero(r)
	}
	return l, mkLinear(r, -c, I)
}

func orZero(t *Term) *Term {
	if t == nil {
		return tInt(0)
	}
	return t
}

func tLt(a, b *Term) *Term { // a<b
	a, b = balance(a, b)
	if ba, ca := linear(a); isIntType(a.typ) || isIntType(b.typ) {
		bb, cb := linear(b)
		if ba == bb {
			return tBool(ca < cb)
		}
	} else if a == b {
		return tFalse
	}
	if a.op == OConst && b.op == OConst {
		return tBool(constant.Compare(a.val, token.LSS, b.val))
	}
	return mk(OBin, types.Typ[types.Bool], "<", 0, a, b)
}
func tLe(a, b *Term) *Term {
	a, b = balance(a, b)
	if ba, ca := linear(a); isIntType(a.typ) || isIntType(b.typ) {
		bb, cb := linear(b)
		if ba == bb {
			return tBool(ca <= cb)
		}
	} else if a == b {
		return tTrue
	}
	if a.op == OConst && b.op == OConst {
		return tBool(constant.Compare(a.val, token.LEQ, b.val))
	}
	return mk(OBin, types.Typ[types.Bool], "<=", 0, a, b)
}

func tBin(op token.Token, a, b *Term, typ types.Type) *Term {
	switch op {
	case token.EQL:
		return tEq(a, b)
	case token.NEQ:
		return tNot(tEq(a, b))
	case token.LSS:
		return tLt(a, b)
	case token.LEQ:
		return tLe(a, b)
	case token.GTR:
		return tLt(b, a)
	case token.GEQ:
		return tLe(b, a)
	}
	if isIntType(typ) && (op == token.ADD || op == token.SUB) {
		ba, ca := linear(a)
		bb, cb := linear(b)
		if op == token.ADD {
			if ba == nil {
				return mkLinear(bb, ca+cb, typ)
			}
			if bb == nil {
				return mkLinear(ba, ca+cb, typ)
			}
			if ba.id > bb.id {
				ba, bb = bb, ba
			}
			return mkLinear(mk(OBin, typ, "+", 0, ba, bb), ca+cb, typ)
		}
		if ba == bb {
			return tInt(ca - cb)
		}
		if bb == nil {
			return mkLinear(ba, ca-cb, typ)
		}
		// (x+y)-y
		if ba != nil && ba.op == OBin && ba.str == "+" {
			if ba.args[0] == bb {
				return mkLinear(ba.args[1], ca-cb, typ)
			}
			if ba.args[1] == bb {
				return mkLinear(ba.args[0], ca-cb, typ)
			}
		}
		if ba == nil {
			ba = tInt(ca - cb)
			return mk(OBin, typ, "-", 0, ba, bb)
		}
		return mkLinear(mk(OBin, typ, "-", 0, ba, bb), ca-cb, typ)
	}
	if a.op == OConst && b.op == OConst && a.val != nil && b.val != nil {
		switch op {
		case token.ADD, token.SUB, token.MUL:
			if a.val.Kind() == b.val.Kind() {
				return tConstV(constant.BinaryOp(a.val, op, b.val), typ)
			}
		}
	}
	if op == token.ADD {
		// string concatenation, right-nested normal form
		if isEmptyStr(a) {
			return b
		}
		if isEmptyStr(b) {
			return a
		}
		if a.op == OConst && b.op == OBin && b.str == "+s" && b.args[0].op == OConst && a.val.Kind() == constant.String {
			return tBin(op, tConstV(constant.BinaryOp(a.val, token.ADD, b.args[0].val), typ), b.args[1], typ)
		}
		if a.op == OBin && a.str == "+s" {
			return tBin(op, a.args[0], tBin(op, a.args[1], b, typ), typ)
		}
		return mk(OBin, typ, "+s", 0, a, b)
	}
	return mk(OBin, typ, op.String(), 0, a, b)
}

func tLen(x *Term) *Term {
	I := types.Typ[types.Int]
	switch x.op {
	case ONil, OMapInit:
		return tInt(0)
	case OConst:
		if x.val != nil && x.val.Kind() == constant.String {
			return tInt(int64(len(constant.StringVal(x.val))))
		}
	case OSliceLit:
		return tInt(int64(len(x.args)))
	case OAppend:
		if x.str == "" {
			return tBin(token.ADD, tLen(x.args[0]), tInt(int64(len(x.args)-1)), I)
		}
		if x.str == "..." && len(x.args) == 2 {
			return tBin(token.ADD, tLen(x.args[0]), tLen(x.args[1]), I)
		}
	case OSlice:
		lo, hi := x.args[1], x.args[2]
		if hi == nil {
			base := x.args[0]
			if base.op == OAlloc {
				if at := arrayLen(base.typ); at >= 0 {
					hi = tInt(at)
				}
			}
			if hi == nil {
				hi = tLen(base)
			}
		}
		if lo == nil {
			return hi
		}
		return tBin(token.SUB, hi, lo, I)
	case OMake:
		if len(x.args) > 0 && x.args[0] != nil && x.str != "" && strings.HasPrefix(x.str, "slice") {
			return x.args[0]
		}
	case OConv:
		// string(bytes) has the same length, but []rune(text) has not
		if at := x.args[0].typ; at != nil && !isIntType(at) && isRunes(at) == isRunes(x.typ) {
			return tLen(x.args[0])
		}
	case OBin:
		if x.str == "+s" {
			return tBin(token.ADD, tLen(x.args[0]), tLen(x.args[1]), I)
		}
	}
	return mk(OLen, I, "", 0, x)
}

func isRunes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func arrayLen(t types.Type) int64 {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Len()
	}
	return -1
}

// subterms visits every subterm once.
func subterms(t *Term, f func(*Term) bool) {
	seen := map[*Term]bool{}
	var w func(*Term)
	w = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if !f(x) {
			return
		}
		for _, a := range x.args {
			w(a)
		}
	}
	w(t)
}

func contains(t, sub *Term) bool {
	found := false
	subterms(t, func(x *Term) bool {
		if x == sub {
			found = true
		}
		return !found
	})
	return found
}

func (t *Term) String() string { return t.show(0) }

func (t *Term) show(d int) string {
	if t == nil {
		return "_"
	}
	if d > 9 {
		return "…"
	}
	a := func(i int) string { return t.args[i].show(d + 1) }
	all := func(xs []*Term) string {
		var ss []string
		for _, x := range xs {
			ss = append(ss, x.show(d+1))
		}
		return strings.Join(ss, ", ")
	}
	switch t.op {
	case OConst:
		return strings.SplitN(t.str, ":", 2)[1]
	case ONil:
		return "nil"
	case OZero:
		return "zero(" + tstr(t.typ) + ")"
	case OSym:
		return t.str
	case OGlobal:
		return "&" + t.str
	case OFunc:
		return shortFn(t.fn)
	case OAlloc:
		return "new#" + fmt.Sprint(t.id) + "(" + tstr(deref(t.typ)) + ")"
	case OFieldAddr:
		return "&" + strings.TrimPrefix(a(0), "&") + "." + t.str
	case OIndexAddr:
		return "&" + strings.TrimPrefix(a(0), "&") + "[" + a(1) + "]"
	case ODeref:
		s := a(0)
		if strings.HasPrefix(s, "&") {
			s = s[1:]
		} else {
			s = "*" + s
		}
		if t.n > 0 {
			s += fmt.Sprintf("'%d", t.n)
		}
		return s
	case OField:
		return a(0) + "." + t.str
	case OIndex:
		return a(0) + "[" + a(1) + "]"
	case OCall:
		return t.str2() + "(" + all(t.args) + ")"
	case OExtract:
		return a(0) + "#" + fmt.Sprint(t.n)
	case OBin:
		return "(" + a(0) + " " + t.str + " " + a(1) + ")"
	case ONot:
		return "!" + a(0)
	case OUn:
		return t.str + a(0)
	case OConv:
		return tstr(t.typ) + "(" + a(0) + ")"
	case OMkIface:
		return "iface<" + tstr(t.typ) + ">(" + a(0) + ")"
	case OAssert:
		return a(0) + ".(" + tstr(t.typ) + ")"
	case OTypeIs:
		return a(0) + " is " + tstr(t.typ)
	case OSlice:
		return a(0) + "[" + t.args[1].show(d+1) + ":" + t.args[2].show(d+1) + "]"
	case OLen:
		return "len(" + a(0) + ")"
	case OClosure:
		return "closure " + shortFn(t.fn)
	case OLoopVar:
		return "loop#" + fmt.Sprint(t.id)
	case OMake:
		return "make#" + fmt.Sprint(t.id)
	case OStruct:
		return tstr(t.typ) + "{" + all(t.args) + "}"
	}
	return opNames[t.op] + ":" + t.str + "(" + all(t.args) + ")"
}

// callee name of a call term (site key stripped)
func (t *Term) str2() string {
	if i := strings.Index(t.str, "\x00"); i >= 0 {
		return t.str[:i]
	}
	return t.str
}

func deref(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func shortFn(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if f.Object() != nil {
		return shortObj(f.Object().(*types.Func))
	}
	if f.Parent() != nil {
		return shortFn(f.Parent()) + "." + strings.TrimPrefix(f.Name(), f.Parent().Name())
	}
	return f.Name()
}

// e.g. (*jlibhttp.Actor).Feed, jlib.ParseBytes, (http.ResponseWriter).Write
func shortObj(f *types.Func) string {
	f = f.Origin()
	sig := f.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		ptr := ""
		if p, ok := t.(*types.Pointer); ok {
			ptr = "*"
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			pk := ""
			if n.Obj().Pkg() != nil {
				pk = n.Obj().Pkg().Name() + "."
			}
			return "(" + ptr + pk + n.Obj().Name() + ")." + f.Name()
		}
		return "(" + ptr + tstr(t) + ")." + f.Name()
	}
	if f.Pkg() != nil {
		return f.Pkg().Name() + "." + f.Name()
	}
	return f.Name()
}

func sortedTerms(m map[*Term]bool) []*Term {
	var r []*Term
	for t := range m {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

// tSprintf normalises a formatted string with a constant format into a
// concatenation; nil if the format is not understood.
func tSprintf(args []*Term) *Term {
	if len(args) != 2 || args[0].op != OConst || args[0].val == nil || args[0].val.Kind() != constant.String {
		return nil
	}
	var vs []*Term
	switch args[1].op {
	case OSliceLit:
		vs = args[1].args
	case ONil:
	default:
		return nil
	}
	f := constant.StringVal(args[0].val)
	S := types.Typ[types.String]
	out := tStr("")
	add := func(t *Term) { out = tBin(token.ADD, out, t, S) }
	k := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			add(tStr(f[i:]))
			break
		}
		if j > 0 {
			add(tStr(f[i : i+j]))
		}
		i += j
		if i+1 >= len(f) {
			return nil
		}
		c := f[i+1]
		i += 2
		if c == '%' {
			add(tStr("%"))
			continue
		}
		if k >= len(vs) {
			return nil
		}
		v := vs[k]
		k++
		var x *Term
		if v.op == OMkIface {
			u := v.typ.Underlying()
			_, named := types.Unalias(v.typ).(*types.Named)
			if b, ok := u.(*types.Basic); ok && !named {
				switch {
				case b.Info()&types.IsString != 0 && (c == 's' || c == 'v'):
					x = v.args[0]
				case b.Info()&types.IsInteger != 0 && (c == 'd' || c == 'v'):
					x = tItoa(v.args[0])
				}
			}
		}
		if x == nil {
			x = mk(OCall, S, "fmt%"+string(c), 0, v)
		}
		add(x)
	}
	if k != len(vs) {
		return nil
	}
	return out
}

// tSprint: like Sprintf with one verb each, a space between two operands
// neither of which is a string.
func tSprint(args []*Term) *Term {
	if len(args) != 1 || args[0].op != OSliceLit {
		return nil
	}
	str := func(v *Term) (is, known bool) {
		if v.op != OMkIface {
			return false, false
		}
		b, ok := v.typ.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0, true
	}
	f := ""
	vs := args[0].args
	for i, v := range vs {
		if i > 0 {
			x, kx := str(vs[i-1])
			y, ky := str(v)
			switch {
			case x || y:
			case kx && ky:
				f += " "
			default:
				return nil
			}
		}
		f += "%v"
	}
	return tSprintf([]*Term{tStr(f), args[0]})
}

func tItoa(x *Term) *Term {
	if x.op == OConv && isIntType(x.typ) && isIntType(x.args[0].typ) {
		x = x.args[0]
	}
	if x.op == OConst {
		return tStr(x.val.ExactString())
	}
	return mk(OCall, types.Typ[types.String], "strconv.Itoa", 0, x)
}

const tokADD = token.ADD
