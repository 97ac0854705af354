package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the shape of an abstract value description.
type Op uint8

const (
	OConst     Op = iota
	ONil          // nil of any type
	OZero         // zero value of an aggregate or opaque type
	OSym          // unknown value produced at a site
	OAlloc        // address of an object created at a site
	OGlobal       // address of a package variable
	OFunc         // function value
	OClosure      // function value with bindings
	OFieldAddr    // address of a field
	OIndexAddr    // address of an element
	OLoad         // unknown content of an address
	OField        // field of a struct value
	OStruct       // struct value
	OIface        // interface value holding a concrete value
	OTA           // type assertion value
	OTAOk         // type assertion outcome
	OBin          // arithmetic
	OUn           // unary
	OConv         // conversion
	OLen
	OCap
	OAppend // append(base, elems...)
	OAppendSlice
	OSlice
	OLookup   // map element value
	OLookupOk // map element presence
	OIndex    // index of array/string value
	OEq
	OLt
	OLtC // a < constant (s)
	ONot
	OIs      // errors.Is
	OWrap    // error made by fmt.Errorf/errors.New with wrapped errors
	OCtx     // derived context
	OCtxErr  // error of a finished context
	ODoneCh  // done channel of a context
	OCancel  // cancel function of a context
	OIsDone  // context is finished
	OCall    // result of a deterministic external function
	OTuple   // multiple results
	OContent // heap key: content of a sequence equals that of another
	OMapElem // heap key: map element
	OMapFull // heap key: contents of a map completely known
	OAbsent  // map element known to be absent
	OBuild   // heap key: sequence under construction
	OBuiltin
	ORange // iterator
)

type Term struct {
	id    int
	op    Op
	a     []*Term
	s     string
	t     types.Type
	gen   int8
	c     constant.Value
	fn    *ssa.Function
	idx   int
	pos   token.Pos
	syms  []*Term // all symbolic subterms, itself included, sorted by id
	depth int
}

// TermTable interns terms.
type TermTable struct {
	m    map[string]*Term
	all  []*Term
	tstr map[types.Type]string
}

var tt = &TermTable{m: map[string]*Term{}, tstr: map[types.Type]string{}}

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	if s, ok := tt.tstr[t]; ok {
		return s
	}
	s := strings.ReplaceAll(types.TypeString(types.Unalias(t), nil), "interface{}", "any")
	tt.tstr[t] = s
	return s
}

func isSymOp(op Op) bool {
	switch op {
	case OSym, OAlloc, OLoad, OLookup, OLookupOk, OWrap, OCtx:
		return true
	}
	return false
}

func intern(op Op, s string, idx int, gen int8, t types.Type, c constant.Value, fn *ssa.Function, args ...*Term) *Term {
	var b strings.Builder
	b.WriteByte(byte(op) + 'A')
	b.WriteString(s)
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(idx))
	b.WriteByte('|')
	b.WriteByte('0' + byte(gen))
	switch op {
	case OConst:
		b.WriteString(constKey(c))
		b.WriteByte('|')
		if c.Kind() != constant.Bool {
			b.WriteString(constTypeKey(t))
		}
	case ONil, OStruct, OFieldAddr, OIndexAddr, OLoad, OField, OEq, OLt, ONot, OLen, OAppend:
	default:
		b.WriteString(typeKey(t))
	}
	if fn != nil {
		fmt.Fprintf(&b, "|%p", fn)
	}
	for _, x := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(x.id))
	}
	k := b.String()
	if x, ok := tt.m[k]; ok {
		if x.t == nil && t != nil {
			x.t = t
		}
		return x
	}
	x := &Term{id: len(tt.all), op: op, a: append([]*Term(nil), args...), s: s, t: t, gen: gen, c: c, fn: fn, idx: idx}
	set := map[*Term]bool{}
	for _, y := range args {
		for _, z := range y.syms {
			set[z] = true
		}
		if y.depth+1 > x.depth {
			x.depth = y.depth + 1
		}
	}
	if isSymOp(op) || op == OCall && s == "seq:sofar" {
		set[x] = true
	}
	for z := range set {
		x.syms = append(x.syms, z)
	}
	sort.Slice(x.syms, func(i, j int) bool { return x.syms[i].id < x.syms[j].id })
	tt.all = append(tt.all, x)
	tt.m[k] = x
	return x
}

func constKey(c constant.Value) string { return c.Kind().String() + c.ExactString() }

func constTypeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsInteger != 0:
			return "int"
		case b.Info()&types.IsString != 0:
			return "string"
		}
	}
	return typeKey(t)
}

var (
	TTrue  = intern(OConst, "", 0, 0, types.Typ[types.Bool], constant.MakeBool(true), nil)
	TFalse = intern(OConst, "", 0, 0, types.Typ[types.Bool], constant.MakeBool(false), nil)
	TNil   = intern(ONil, "", 0, 0, nil, nil, nil)
	TAbs   = intern(OAbsent, "", 0, 0, nil, nil, nil)
)

func mkBool(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}
func mkInt(n int64) *Term {
	return intern(OConst, "", 0, 0, types.Typ[types.Int], constant.MakeInt64(n), nil)
}
func mkStr(s string) *Term {
	return intern(OConst, "", 0, 0, types.Typ[types.String], constant.MakeString(s), nil)
}

func (x *Term) isConst() bool { return x.op == OConst }
func (x *Term) intVal() (int64, bool) {
	if x.op == OConst && x.c.Kind() == constant.Int {
		return constant.Int64Val(x.c)
	}
	return 0, false
}
func (x *Term) strVal() (string, bool) {
	if x.op == OConst && x.c.Kind() == constant.String {
		return constant.StringVal(x.c), true
	}
	return "", false
}

// mentions reports whether s is one of the symbolic subterms of x.
func (x *Term) mentions(s *Term) bool {
	i := sort.Search(len(x.syms), func(i int) bool { return x.syms[i].id >= s.id })
	return i < len(x.syms) && x.syms[i] == s
}

func (x *Term) String() string { return x.str(0) }
func (x *Term) str(d int) string {
	if d > 5 {
		return "…"
	}
	arg := func(i int) string { return x.a[i].str(d + 1) }
	args := func() string {
		var o []string
		for i := range x.a {
			o = append(o, arg(i))
		}
		return strings.Join(o, ", ")
	}
	g := ""
	if x.gen > 0 {
		g = "'"
	}
	switch x.op {
	case OConst:
		return x.c.String()
	case ONil:
		return "nil"
	case OZero:
		return "zero(" + shortType(x.t) + ")"
	case OSym, OAlloc:
		return x.s + g
	case OGlobal:
		return x.s
	case OFunc:
		return x.fn.String()
	case OClosure:
		return x.fn.String() + "{…}"
	case OFieldAddr:
		return "&" + arg(0) + "." + x.s
	case OIndexAddr:
		return "&" + arg(0) + "[" + arg(1) + "]"
	case OLoad:
		return "*" + arg(0) + g
	case OField:
		return arg(0) + "." + x.s
	case OStruct:
		return shortType(x.t) + "{" + args() + "}"
	case OIface:
		return arg(0)
	case OTA:
		return arg(0) + ".(" + shortType(x.t) + ")"
	case OTAOk:
		return arg(0) + " is " + x.s
	case OLtC:
		return arg(0) + " < " + x.s
	case OBin, OUn:
		return "(" + x.s + " " + args() + ")"
	case OEq:
		return arg(0) + "==" + arg(1)
	case OLt:
		return arg(0) + "<" + arg(1)
	case ONot:
		return "!" + arg(0)
	}
	return fmt.Sprintf("op%d:%s%s(%s)", x.op, x.s, g, args())
}

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// ---- constructors with simplification ----

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return TFalse
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return TNil
		}
		return intern(OZero, "", 0, 0, t, nil, nil)
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return TNil
	}
	return intern(OZero, "", 0, 0, t, nil, nil)
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func derefType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func mkFieldAddr(base *Term, i int, st *types.Struct) *Term {
	return intern(OFieldAddr, st.Field(i).Name(), i, 0, types.NewPointer(st.Field(i).Type()), nil, nil, base)
}

func mkIndexAddr(base, idx *Term, elem types.Type) *Term {
	// element addresses of a full or offset slice of a known sequence
	if base.op == OSlice {
		lo := base.a[1]
		if lo == TNil {
			base = base.a[0]
		} else {
			base, idx = base.a[0], mkAdd(idx, lo)
		}
	}
	var pt types.Type
	if elem != nil {
		pt = types.NewPointer(elem)
	}
	return intern(OIndexAddr, "", 0, 0, pt, nil, nil, base, idx)
}

func mkField(v *Term, i int, st *types.Struct) *Term {
	ft := st.Field(i).Type()
	switch v.op {
	case OStruct:
		return v.a[i]
	case OZero:
		return zeroOf(ft)
	case OLoad:
		if v.gen == 0 {
			return intern(OLoad, "", 0, 0, ft, nil, nil, mkFieldAddr(v.a[0], i, st))
		}
	case OConst, ONil:
		return zeroOf(ft)
	}
	return intern(OField, st.Field(i).Name(), i, 0, ft, nil, nil, v)
}

func mkStruct(t types.Type, fs []*Term) *Term {
	st := structOf(t)
	if len(fs) == 0 {
		return intern(OZero, "", 0, 0, t, nil, nil)
	}
	// all fields of one value: that value
	same := true
	var base *Term
	for i, f := range fs {
		var b *Term
		switch {
		case f.op == OField && f.idx == i && f.a[0].t != nil && types.Identical(f.a[0].t, t):
			b = f.a[0]
		case f.op == OLoad && f.gen == 0 && f.a[0].op == OFieldAddr && f.a[0].idx == i && types.Identical(derefType(f.a[0].a[0].t), t):
			b = intern(OLoad, "", 0, 0, t, nil, nil, f.a[0].a[0])
		}
		if b == nil || (base != nil && b != base) {
			same = false
			break
		}
		base = b
	}
	if same && base != nil {
		return base
	}
	zero := true
	for i, f := range fs {
		if f != zeroOf(st.Field(i).Type()) {
			zero = false
			break
		}
	}
	if zero {
		return intern(OZero, "", 0, 0, t, nil, nil)
	}
	return intern(OStruct, "", 0, 0, t, nil, nil, fs...)
}

func expandStruct(v *Term, t types.Type) []*Term {
	st := structOf(t)
	fs := make([]*Term, st.NumFields())
	for i := range fs {
		fs[i] = mkField(v, i, st)
	}
	return fs
}

func mkIface(t types.Type, x *Term) *Term {
	if x.op == OIface {
		return x
	}
	return intern(OIface, "", 0, 0, t, nil, nil, x)
}

// splitAdd splits x into base + k.
func splitAdd(x *Term) (*Term, int64) {
	if k, ok := x.intVal(); ok {
		return nil, k
	}
	if x.op == OBin && x.s == "+" {
		if k, ok := x.a[1].intVal(); ok {
			return x.a[0], k
		}
	}
	return x, 0
}

func mkAddK(x *Term, k int64) *Term {
	b, n := splitAdd(x)
	if b == nil {
		return mkInt(n + k)
	}
	if n+k == 0 {
		return b
	}
	return intern(OBin, "+", 0, 0, x.t, nil, nil, b, mkInt(n+k))
}

func mkAdd(x, y *Term) *Term {
	if k, ok := y.intVal(); ok {
		return mkAddK(x, k)
	}
	if k, ok := x.intVal(); ok {
		return mkAddK(y, k)
	}
	bx, kx := splitAdd(x)
	by, ky := splitAdd(y)
	if bx.id > by.id {
		bx, by = by, bx
	}
	return mkAddK(intern(OBin, "++", 0, 0, x.t, nil, nil, bx, by), kx+ky)
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func mkNot(x *Term) *Term {
	switch x {
	case TTrue:
		return TFalse
	case TFalse:
		return TTrue
	}
	if x.op == ONot {
		return x.a[0]
	}
	return intern(ONot, "", 0, 0, types.Typ[types.Bool], nil, nil, x)
}

func mkEq(x, y *Term) *Term {
	if x == y {
		return TTrue
	}
	if x.isConst() && y.isConst() {
		if x.c.Kind() == y.c.Kind() {
			return mkBool(constant.Compare(x.c, token.EQL, y.c))
		}
		return TFalse
	}
	if x.op == OIface && y.op == OIface {
		if !types.Identical(x.t, y.t) {
			return TFalse
		}
		return mkEq(x.a[0], y.a[0])
	}
	if y == TTrue {
		return x
	}
	if x == TTrue {
		return y
	}
	if y == TFalse {
		return mkNot(x)
	}
	if x == TFalse {
		return mkNot(y)
	}
	// x+k == c
	if c, ok := y.intVal(); ok {
		b, k := splitAdd(x)
		if b != nil && k != 0 {
			x, y = b, mkInt(c-k)
		}
	} else if c, ok := x.intVal(); ok {
		b, k := splitAdd(y)
		if b != nil && k != 0 {
			x, y = b, mkInt(c-k)
		}
	}
	if bx, kx := splitAdd(x); bx != nil {
		if by, ky := splitAdd(y); by == bx {
			return mkBool(kx == ky)
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return intern(OEq, "", 0, 0, types.Typ[types.Bool], nil, nil, x, y)
}

func mkLt(x, y *Term, t types.Type) *Term {
	if x == y {
		return TFalse
	}
	if x.isConst() && y.isConst() {
		return mkBool(constant.Compare(x.c, token.LSS, y.c))
	}
	if isIntType(t) {
		bx, kx := splitAdd(x)
		by, ky := splitAdd(y)
		const far = 1 << 61
		if kx > far || kx < -far || ky > far || ky < -far {
			// no arithmetic with these
			if k, ok := x.intVal(); ok {
				x = mkInt(k)
			}
			if k, ok := y.intVal(); ok {
				y = mkInt(k)
			}
			return intern(OLt, "", 0, 0, types.Typ[types.Bool], nil, nil, x, y)
		}
		switch {
		case bx == by && bx != nil:
			return mkBool(kx < ky)
		case by == nil: // bx+kx < ky
			return intern(OLtC, strconv.FormatInt(ky-kx, 10), 0, 0, types.Typ[types.Bool], nil, nil, bx)
		case bx == nil: // kx < by+ky  <=>  !(by < kx-ky+1)
			return mkNot(intern(OLtC, strconv.FormatInt(kx-ky+1, 10), 0, 0, types.Typ[types.Bool], nil, nil, by))
		}
		// a+k < b+l kept as a+(k-l) < b
		return intern(OLt, "", 0, 0, types.Typ[types.Bool], nil, nil, mkAddK(bx, kx-ky), by)
	}
	return intern(OLt, "", 0, 0, types.Typ[types.Bool], nil, nil, x, y)
}

func mkSub(x, y *Term) *Term {
	if k, ok := y.intVal(); ok {
		return mkAddK(x, -k)
	}
	bx, kx := splitAdd(x)
	by, ky := splitAdd(y)
	if bx != nil && bx == by {
		return mkInt(kx - ky)
	}
	return intern(OBin, "-", 0, 0, types.Typ[types.Int], nil, nil, x, y)
}

func mkLen(x *Term) *Term {
	switch x.op {
	case ONil:
		return mkInt(0)
	case OConst:
		if s, ok := x.strVal(); ok {
			return mkInt(int64(len(s)))
		}
	case OSlice:
		hi := x.a[2]
		if hi == TNil {
			hi = mkLen(x.a[0])
		}
		lo := x.a[1]
		if lo == TNil {
			return hi
		}
		return mkSub(hi, lo)
	case OAppend:
		return mkAddK(mkLen(x.a[0]), int64(len(x.a)-1))
	case OAppendSlice:
		return mkAdd(mkLen(x.a[0]), mkLen(x.a[1]))
	case OCall:
		if x.s == "perm" {
			return mkLen(x.a[0])
		}
		if x.s == "seq:all" && (x.a[1].a[0].op != OCall) {
			return mkAdd(mkLen(x.a[0]), x.a[1].a[0])
		}
		if x.s == "seq:all" && x.a[1].a[0].s == "keys" {
			return mkAdd(mkLen(x.a[0]), mkMapLen(x.a[1].a[0].a[0]))
		}
	case OAlloc:
		if len(x.a) > 0 { // make([]T, n)
			return x.a[0]
		}
		if p, ok := x.t.(*types.Pointer); ok {
			if ar, ok := p.Elem().Underlying().(*types.Array); ok {
				return mkInt(ar.Len())
			}
		}
	}
	return intern(OLen, "", 0, 0, types.Typ[types.Int], nil, nil, x)
}

func mkSlice(x, lo, hi *Term) *Term {
	if lo != TNil {
		if k, ok := lo.intVal(); ok && k == 0 {
			lo = TNil
		}
	}
	if hi != TNil && hi == mkLen(x) {
		hi = TNil
	}
	if x.op == OSlice {
		b, blo, bhi := x.a[0], x.a[1], x.a[2]
		if lo == TNil && hi == TNil {
			return x
		}
		nlo := blo
		if lo != TNil {
			if blo == TNil {
				nlo = lo
			} else {
				nlo = mkAdd(blo, lo)
			}
		}
		nhi := bhi
		if hi != TNil {
			if blo == TNil {
				nhi = hi
			} else {
				nhi = mkAdd(blo, hi)
			}
		}
		return intern(OSlice, "", 0, 0, x.t, nil, nil, b, nlo, nhi)
	}
	if lo == TNil && hi == TNil && x.t != nil {
		switch x.t.Underlying().(type) {
		case *types.Slice, *types.Basic:
			return x
		}
	}
	if x == TNil {
		return TNil
	}
	return intern(OSlice, "", 0, 0, x.t, nil, nil, x, lo, hi)
}

// substTerm replaces a symbolic subterm in x.
func substTerm(x, from, to *Term, memo map[*Term]*Term) *Term {
	if x == from {
		return to
	}
	if !x.mentions(from) {
		return x
	}
	if y, ok := memo[x]; ok {
		return y
	}
	args := make([]*Term, len(x.a))
	for i, y := range x.a {
		args[i] = substTerm(y, from, to, memo)
	}
	y := rebuilt(x, args)
	memo[x] = y
	return y
}

// rebuilt is x with other arguments.
func rebuilt(x *Term, args []*Term) *Term {
	if (x.op == OEq || x.op == OBin && x.s == "++") && len(args) == 2 && args[0].id > args[1].id {
		args[0], args[1] = args[1], args[0]
	}
	y := intern(x.op, x.s, x.idx, x.gen, x.t, x.c, x.fn, args...)
	if y.pos == 0 {
		y.pos = x.pos
	}
	return y
}

// substAny replaces any subterm.
func substAny(x, from, to *Term, memo map[*Term]*Term) *Term {
	if x == from {
		return to
	}
	if len(x.a) == 0 {
		return x
	}
	if y, ok := memo[x]; ok {
		return y
	}
	ch := false
	args := make([]*Term, len(x.a))
	for i, y := range x.a {
		args[i] = substAny(y, from, to, memo)
		if args[i] != y {
			ch = true
		}
	}
	y := x
	if ch {
		y = rebuilt(x, args)
	}
	memo[x] = y
	return y
}

func mkContent(x *Term) *Term { return intern(OContent, "", 0, 0, nil, nil, nil, x) }
func mkMapFull(m *Term) *Term { return intern(OMapFull, "", 0, 0, nil, nil, nil, m) }
func mkMapElem(m, k *Term) *Term {
	return intern(OMapElem, "", 0, 0, nil, nil, nil, m, k)
}

// root returns the object a value or address was reached from.
func (x *Term) root() *Term {
	for {
		switch x.op {
		case OFieldAddr, OIndexAddr, OLoad, OField, OLookup, OSlice, OTA, OIface, OIndex, OConv, OLookupOk, OMapElem, OContent, OMapFull, OBuild:
			x = x.a[0]
		default:
			return x
		}
	}
}

// rootedAt reports whether x was reached through obj.
func (x *Term) rootedAt(obj *Term) bool {
	for {
		if x == obj {
			return true
		}
		switch x.op {
		case OFieldAddr, OIndexAddr, OLoad, OField, OLookup, OSlice, OTA, OIface, OIndex, OConv, OLookupOk, OMapElem, OContent, OMapFull, OBuild:
			x = x.a[0]
		default:
			return false
		}
	}
}

func unwrapIface(x *Term) *Term {
	for x.op == OIface {
		x = x.a[0]
	}
	return x
}
