package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C02", "path-sensitive abstract interpretation of the record codec with a model of reflect",
		"Encode and Decode are explored with arbitrary registered types, records and attribute sets: every field of the registered type is handed to its own encoder or decoder with the value its index path leads to, its result is kept under the field's code, and only an unset optional attribute is passed over; registration lists every declared attribute; every attribute codec passes on the value and the errors of its field",
		runC02)
}

// encRun decides the completeness of the record codec.
type encRun struct {
	a              *Analysis
	p              *Program
	encI, decI     *types.Named
	selEnc, selDec *ssa.Function
	fieldT         types.Type // describes one attribute of a registered type
	fs             *types.Struct
	typT           types.Type // describes a registered type
	ts             *types.Struct
	code, required int // of fieldT
	index          int
	encF, decF     int
	list, tcode    int // of typT
	ttype          int
	byType, byCode *types.Map
	notSet         *Term
	lister         *ssa.Function // lists the attributes of a type
	listerT        int
	listerI        int
}

func oneField(s *types.Struct, pred func(t types.Type) bool) int {
	n := -1
	for i := 0; i < s.NumFields(); i++ {
		if pred(s.Field(i).Type()) {
			if n >= 0 {
				return -1
			}
			n = i
		}
	}
	return n
}

func isBasicKind(k types.BasicKind) func(types.Type) bool {
	return func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == k
	}
}

func runC02(a *Analysis) {
	p := a.program()
	r := &encRun{a: a, p: p}
	if !r.anchors() {
		return
	}
	a.rule("Encode: every field of the type's list is handed, with the value its index path leads to, to its own encoder; a result is kept under the field's code; only an unset optional field is passed over; the record type's code is kept under 0; errors are returned and have a cause")
	a.rule("Decode: every field whose code is present is handed, with that attribute and the place its index path leads to, to its own decoder; only an absent optional field is passed over; errors are returned and have a cause")
	r.encode()
	r.decode()
	a.rule("registration: every exported field with a vflow tag, and every such field of embedded structs, is listed with its code, required flag, own index path and the codec of its type; the registered type is entered under its type and its code")
	r.listing()
	r.registration()
	a.rule("attribute codecs: the encoder of a field yields the field's value or ErrAttributeNotSet when it is not set, the decoder leaves the attribute in the field or reports an error; pointers use the codec of what they point to, types with their own codec are asked")
	r.selection(false)
	r.selection(true)
}

// listing decides the function that lists the attributes of a type.
func (r *encRun) listing() {
	a := r.a
	pk := r.p.repoPkg("encoding")
	listT := r.ts.Field(r.list).Type()
	var fn *ssa.Function
	var tp, ip int
	for _, n := range sortedMembers(pk) {
		f, ok := pk.Members[n].(*ssa.Function)
		if !ok || f.Blocks == nil || f.Signature.Results().Len() != 1 || !types.Identical(f.Signature.Results().At(0).Type(), listT) {
			continue
		}
		t, i := -1, -1
		for k, pr := range f.Params {
			if isReflType(pr.Type()) {
				t = k
			} else if sl, ok := pr.Type().Underlying().(*types.Slice); ok && isBasicKind(types.Int)(sl.Elem()) {
				i = k
			}
		}
		if t >= 0 && i >= 0 {
			fn, tp, ip = f, t, i
		}
	}
	if !a.anchor(fn != nil, "the function that lists the attributes of a type below an index path") {
		return
	}
	r.lister, r.listerT, r.listerI = fn, tp, ip
	e, rf := r.engine()
	acc := intern(OSym, "the list so far", 0, 0, listT, nil, nil)
	e.persistent[acc] = true
	rep := func(st *State, in ssa.Instruction, f string, args ...any) { e.report(st, "listing", in, f, args...) }
	var t, index *Term
	e.h.Opaque = func(prev func(*ssa.Function) bool) func(*ssa.Function) bool {
		return func(f *ssa.Function) bool {
			return f == fn && e.states > 0 || f == r.selEnc || f == r.selDec || prev(f)
		}
	}(e.h.Opaque)
	sel := func(kind string, x *Term, rt types.Type) *Term { return rterm(kind, rt, rf.resolve(x)) }
	e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
		switch {
		case c.fn != nil && (c.fn == r.selEnc || c.fn == r.selDec):
			v := sel("rsel:"+c.fn.Name(), c.args[0], c.fn.Signature.Results().At(0).Type())
			res := e.freshRes(st, c)
			return []Outcome{
				{res: []*Term{v, TNil}, mod: func(s *State) bool { return s.assume(mkEq(v, TNil), false) }},
				{res: []*Term{v, res[1]}, mod: func(s *State) bool { return s.assume(mkEq(res[1], TNil), false) }},
			}, true
		case c.fn == fn && len(st.frames) > 0:
			a.count("obligations checked", 1)
			v := rterm("rlist", listT, rf.resolve(c.args[tp]), c.args[ip])
			f := fieldOfType(st, rf, t, rf.resolve(c.args[tp]))
			if f != nil {
				r.path(st, rep, c.instr, c.args[ip], index, f.a[1])
			}
			return rf.one(v)
		case c.method != nil && c.recv != nil && isReflType(c.common.Value.Type()) && c.method.Name() == "Field":
			return rf.one(rterm("rsfield", c.res.At(0).Type(), rf.resolve(unwrapIface(c.recv)), c.args[0]))
		case c.name == "(reflect.StructField).IsExported":
			return rf.one(mkEq(sfield(c.args[0], "PkgPath"), mkStr("")))
		case c.name == "(reflect.StructTag).Lookup":
			v := rterm("rtag", types.Typ[types.String], c.args[0], c.args[1])
			ok := rterm("rtagok", boolType, c.args[0], c.args[1])
			return []Outcome{
				{res: []*Term{v, TTrue}, mod: func(s *State) bool { return s.assume(ok, true) }},
				{res: []*Term{mkStr(""), TFalse}, mod: func(s *State) bool { return s.assume(ok, false) && s.assume(mkEq(v, mkStr("")), true) }},
			}, true
		case c.name == "(reflect.StructTag).Get":
			return rf.one(rterm("rtag", types.Typ[types.String], c.args[0], c.args[1]))
		}
		return rf.Call(st, c)
	}
	path := func(st *State, to *Term) {
		if st.get("p:new") != to {
			r.forgetPath(st)
			st.set("p:new", to)
		}
	}
	e.h.Copy = func(st *State, dst, src *Term, in ssa.Instruction) {
		path(st, dst)
		if st.get("p:copy") != nil || st.get("p:at") != nil {
			st.setFlag("p:bad", true)
		}
		st.set("p:copy", src)
	}
	e.h.Store = func(st *State, addr, val *Term, in ssa.Instruction) {
		if addr.op == OIndexAddr && isBasicKind(types.Int)(derefType(addr.t)) {
			path(st, addr.a[0])
			if st.get("p:at") != nil {
				st.setFlag("p:bad", true)
			}
			st.set("p:at", addr.a[1])
			st.set("p:val", val)
		}
	}
	isLoop := func(l *LoopEv) bool {
		return l.st.mode == 1 && l.st.exact && l.st.bound == numFields(t)
	}
	e.h.LoopEnter = func(st *State, l *LoopEv) {
		if isLoop(l) {
			st.set("over", l.st.over)
			st.set("full", nil)
		}
	}
	e.h.LoopBreak = func(st *State, l *LoopEv) {
		if st.get("over") != nil && st.get("over") == l.st.over {
			st.set("over", nil)
		}
	}
	e.h.LoopDone = func(st *State, l *LoopEv) {
		if st.get("over") != nil && st.get("over") == l.st.over {
			st.set("over", nil)
			st.setFlag("full", true)
		}
	}
	e.h.LoopBack = func(st *State, l *LoopEv) {
		if st.get("over") == nil || st.get("over") != l.st.over {
			return
		}
		a.count("obligations checked", 1)
		f := rterm("rsfield", structFieldT(r.p), rf.resolve(t), l.st.idx)
		known := func(name string) *Term { return st.evalBool(sfield(f, name)) }
		ft := rf.resolve(sfield(f, "Type"))
		isStruct := mkEq(rf.kind(ft), mkInt(int64(reflect.Struct)))
		tag := rterm("rtag", types.Typ[types.String], sfield(f, "Tag"), mkStr("vflow"))
		n := 0
		for v, x := range l.st.next {
			if x == nil || !types.Identical(v.Type(), listT) {
				continue
			}
			n++
			base, added := x, []*Term(nil)
			var sub *Term
			switch x.op {
			case OAppend:
				base, added = x.a[0], x.a[1:]
			case OAppendSlice:
				base, sub = x.a[0], x.a[1]
			}
			if base != acc && !(!l.st.iterated && (base == TNil || st.knownNil(base) || st.knownTrue(mkEq(mkLen(base), mkInt(0))))) {
				rep(st, nil, "attributes that were listed before may be lost")
			}
			l.st.next[v] = acc
			switch {
			case sub != nil:
				if sub.op != OCall || sub.s != "rlist" || sub.a[0] != ft {
					rep(st, nil, "the attributes of %s are listed for an embedded struct", sub)
				} else if known("Anonymous") != TTrue || !st.knownTrue(isStruct) {
					rep(st, nil, "the attributes of a field that is not an embedded struct may be listed")
				}
			case len(added) == 0:
				switch {
				case known("Anonymous") == TTrue && st.knownFalse(isStruct):
				case known("Anonymous") == TFalse && st.knownFalse(mkEq(sfield(f, "PkgPath"), mkStr(""))):
				case known("Anonymous") == TFalse && st.knownTrue(mkEq(tag, mkStr(""))):
				default:
					rep(st, nil, "a declared attribute may not be listed")
				}
			case len(added) == 1:
				if known("Anonymous") != TFalse || !st.knownTrue(mkEq(sfield(f, "PkgPath"), mkStr(""))) {
					rep(st, nil, "a field that is embedded or not exported may be listed as an attribute")
				}
				r.listed(st, rf, rep, added[0], index, l.st.idx, ft, tag)
			default:
				rep(st, nil, "a field is listed more than once")
			}
		}
		if n != 1 {
			rep(st, nil, "it is not known how the attributes are listed")
		}
		r.forgetPath(st)
	}
	e.h.Exit = func(st *State, res []*Term) {
		if len(res) != 1 {
			return
		}
		a.count("obligations checked", 1)
		if !st.flag("full") {
			rep(st, nil, "fields of a record type may not be looked at")
			return
		}
		if res[0] != acc && !(st.knownTrue(mkEq(numFields(t), mkInt(0))) || st.ivalOf(numFields(t)).hi == 0 || st.knownFalse(mkLt(mkInt(0), numFields(t), types.Typ[types.Int]))) {
			rep(st, nil, "%s is returned, not the attributes that were listed", res[0])
		}
	}
	root := e.addRoot(nil, fn, nil, nil)
	t, index = root.top().env[fn.Params[tp]], root.top().env[fn.Params[ip]]
	root.assume(mkEq(t, TNil), false)
	a.explore(e)
}

func (r *encRun) forgetPath(st *State) {
	for _, k := range []string{"p:new", "p:copy", "p:at", "p:val"} {
		st.set(k, nil)
	}
	st.setFlag("p:bad", false)
}

func structFieldT(p *Program) types.Type {
	for _, pk := range p.ssa.AllPackages() {
		if pk.Pkg.Path() == "reflect" {
			return pk.Pkg.Scope().Lookup("StructField").Type()
		}
	}
	return nil
}

func sfield(v *Term, name string) *Term {
	s := structOf(v.t)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return mkField(v, i, s)
		}
	}
	return TNil
}

// fieldOfType finds the struct field whose type is the given one.
func fieldOfType(st *State, rf *refl, t, ft *Term) *Term {
	if ft.op == OField && ft.a[0].op == OCall && ft.a[0].s == "rsfield" && ft.a[0].a[0] == rf.resolve(t) {
		return ft.a[0]
	}
	return nil
}

// path: the index path is the outer path followed by the field's index, and
// shares no storage with another.
func (r *encRun) path(st *State, rep func(st *State, in ssa.Instruction, f string, args ...any), in ssa.Instruction, p, index, i *Term) {
	r.a.count("obligations checked", 1)
	fresh := func(x *Term) bool { return x == TNil || x.op == OAlloc || st.knownNil(x) }
	same := func(x *Term) bool {
		for x != nil && x.op == OCall && strings.HasPrefix(x.s, "slices.Cl") && len(x.a) == 1 {
			return x.a[0] == index
		}
		return x.op == OAppendSlice && fresh(x.a[0]) && x.a[1] == index
	}
	switch {
	case p.op == OAppend && len(p.a) == 2 && p.a[1] == i && same(p.a[0]):
		return
	case st.get("p:new") == p && st.get("p:copy") == nil && !st.flag("p:bad") && st.get("p:val") == i && st.get("p:at") == mkInt(0) && st.knownTrue(mkEq(mkLen(index), mkInt(0))) && st.knownTrue(mkEq(mkLen(p), mkInt(1))):
		return
	case p.op == OAppend && len(p.a) == 2 && p.a[1] == i && fresh(p.a[0]) && st.knownTrue(mkEq(mkLen(index), mkInt(0))):
		return
	case st.get("p:new") == p && p.op == OAlloc && !st.flag("p:bad") && st.get("p:copy") == index && st.get("p:val") == i:
		at := st.get("p:at")
		if (at == mkLen(index) || st.knownTrue(mkEq(at, mkLen(index)))) && st.knownTrue(mkEq(mkLen(p), mkAddK(mkLen(index), 1))) {
			return
		}
	}
	rep(st, in, "the index path of an attribute is not known to be a path of its own: the outer path and the field's index")
}

// listed judges the description of one attribute.
func (r *encRun) listed(st *State, rf *refl, rep func(st *State, in ssa.Instruction, f string, args ...any), x, index, i, ft, tag *Term) {
	get := func(k int) *Term {
		if isPtr(x.t) || x.op == OAlloc {
			return st.peek(mkFieldAddr(x, k, r.fs), r.fs.Field(k).Type())
		}
		return mkField(x, k, r.fs)
	}
	r.a.count("obligations checked", 4)
	if c := get(r.code); !parsedCode(c, tag) {
		rep(st, nil, "an attribute is listed with code %s, not with that of its tag", c)
	}
	switch req := st.evalBool(get(r.required)); req {
	case TTrue, TFalse:
		if !optionKnown(st, tag, req == TTrue) {
			rep(st, nil, "whether an attribute is required does not follow from its tag")
		}
	default:
		opt := false
		if req.op == OEq {
			opt = (req.a[0] == mkStr("required") && isCut(req.a[1], tag)) || (req.a[1] == mkStr("required") && isCut(req.a[0], tag))
		}
		if !opt {
			rep(st, nil, "whether an attribute is required does not follow from its tag")
		}
	}
	r.path(st, rep, nil, get(r.index), index, i)
	for _, s := range []struct {
		f   int
		fn  *ssa.Function
		nam string
	}{{r.encF, r.selEnc, "encoder"}, {r.decF, r.selDec, "decoder"}} {
		if v := unwrapIface(get(s.f)); v.op != OCall || v.s != "rsel:"+s.fn.Name() || v.a[0] != ft {
			rep(st, nil, "an attribute is listed with the %s %s, not with that of its own type", s.nam, v)
		}
	}
}

// parsedCode: the number in front of the comma of the tag.
func parsedCode(c, tag *Term) bool {
	for c.op == OConv {
		if b, ok := c.t.Underlying().(*types.Basic); !ok || !is32(b) {
			return false
		}
		c = c.a[0]
	}
	return c.op == OCall && strings.HasPrefix(c.s, "strconv.Parse") && c.idx == 1 && isCut(c.a[0], tag) && firstPart(c.a[0]) && len(c.a) == 3 && c.a[1] == mkInt(10) && c.a[2] == mkInt(32)
}

func is32(b *types.Basic) bool {
	switch b.Kind() {
	case types.Uint32, types.Uint64, types.Int64, types.Uint, types.Int:
		return true
	}
	return false
}

// firstPart: what is in front of a separator.
func firstPart(x *Term) bool {
	switch x.op {
	case OIndex:
		return x.a[1] == mkInt(0)
	case OLoad:
		return x.a[0].op == OIndexAddr && x.a[0].a[1] == mkInt(0)
	}
	return x.op == OCall && (x.idx == 1 || x.idx == 0) && x.s != "rtag"
}

// isCut: a part of the tag.
func isCut(x, tag *Term) bool {
	for x.op == OConv || x.op == OCall && strings.HasPrefix(x.s, "strings.Trim") {
		x = x.a[0]
	}
	if x.op == OIndex || x.op == OLoad {
		return x.mentions(tag) || contains(x, tag)
	}
	return x == tag || x.op == OCall && strings.HasPrefix(x.s, "strings.") && contains(x, tag)
}

// optionKnown: the tag is known to say that the attribute is, or is not, required.
func optionKnown(st *State, tag *Term, req bool) bool {
	for f, v := range st.facts {
		if f.op == OCall && f.s == "strings.Cut" && f.idx == 3 && !v && !req && isCut(f, tag) {
			return true // there is nothing after the code
		}
		if f.op != OEq || !(isCut(f.a[0], tag) || isCut(f.a[1], tag)) {
			continue
		}
		is := func(s string) bool { return f.a[0] == mkStr(s) || f.a[1] == mkStr(s) }
		if is("required") && v == req {
			return true
		}
		if !req && v && is("") && f.a[0] != tag && f.a[1] != tag {
			return true
		}
	}
	for k, c := range st.eqc {
		if isCut(k, tag) {
			if s, ok := c.strVal(); ok && (s == "required") == req {
				return true
			}
		}
	}
	return false
}

// registration decides MustRegisterRecord.
func (r *encRun) registration() {
	a := r.a
	fn := r.p.fn("encoding", "MustRegisterRecord")
	if r.lister == nil || !a.anchor(fn != nil && len(fn.Params) == 2, "encoding.MustRegisterRecord") {
		return
	}
	e, rf := r.engine()
	rep := func(st *State, in ssa.Instruction, f string, args ...any) { e.report(st, "register", in, f, args...) }
	e.h.Opaque = func(prev func(*ssa.Function) bool) func(*ssa.Function) bool {
		return func(f *ssa.Function) bool { return f == r.lister || prev(f) }
	}(e.h.Opaque)
	listT := r.ts.Field(r.list).Type()
	e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
		if c.fn == r.lister {
			p := c.args[r.listerI]
			if p != TNil && !st.knownNil(p) && !st.knownTrue(mkEq(mkLen(p), mkInt(0))) {
				rep(st, c.instr, "the attributes of a registered type are listed below the path %s", p)
			}
			return rf.one(rterm("rlist", listT, rf.resolve(c.args[r.listerT])))
		}
		return rf.Call(st, c)
	}
	e.h.MapUpdate = func(st *State, m, k, v *Term, in ssa.Instruction) {
		if m.t == nil {
			return
		}
		switch {
		case types.Identical(m.t.Underlying(), r.byType):
			st.set("typeKey", rf.resolve(unwrapIface(k)))
			st.set("typeVal", v)
		case types.Identical(m.t.Underlying(), r.byCode):
			st.set("codeKey", k)
			st.set("codeVal", v)
		}
	}
	var code, rec *Term
	e.h.Exit = func(st *State, res []*Term) {
		if res == nil && st.panicking {
			return
		}
		a.count("obligations checked", 5)
		tk, tv, ck, cv := st.get("typeKey"), st.get("typeVal"), st.get("codeKey"), st.get("codeVal")
		if tk == nil || ck == nil {
			rep(st, nil, "a record type may not be entered under its type and its code")
			return
		}
		rt := rf.typeOf(rec)
		if tk != rt && tk != rf.elemType(rt) {
			rep(st, nil, "a record type is entered as %s, not as the type of the record given", tk)
		}
		if ck != code && !st.knownTrue(mkEq(ck, code)) {
			rep(st, nil, "a record type is entered under code %s, not under its own", ck)
		}
		for _, v := range []*Term{tv, cv} {
			get := func(k int) *Term { return st.peek(mkFieldAddr(v, k, r.ts), r.ts.Field(k).Type()) }
			if !isPtr(v.t) {
				get = func(k int) *Term { return mkField(v, k, r.ts) }
			}
			if t := rf.resolve(unwrapIface(get(r.ttype))); t != tk {
				rep(st, nil, "a registered type is described as %s", t)
			}
			if c := get(r.tcode); c != code && !st.knownTrue(mkEq(c, code)) {
				rep(st, nil, "a registered type is described with code %s, not its own", c)
			}
			if l := get(r.list); l.op != OCall || l.s != "rlist" || l.a[0] != tk {
				rep(st, nil, "a registered type is described with the attributes %s, not with all of its own", l)
			}
		}
	}
	root := e.addRoot(nil, fn, nil, nil)
	code, rec = root.top().env[fn.Params[0]], root.top().env[fn.Params[1]]
	a.explore(e)
}

// selection decides which codec is chosen for a type, and each codec.
func (r *encRun) selection(decode bool) {
	a, p := r.a, r.p
	sel, it, name := r.selEnc, r.encI, "RecordAttributeEncoder"
	what := "encoder"
	if decode {
		sel, it, name = r.selDec, r.decI, "RecordAttributeDecoder"
		what = "decoder"
	}
	ai := p.typ("encoding", name)
	if !a.anchor(ai != nil, "encoding."+name) {
		return
	}
	// pointers get the codec of what they point to
	{
		e, rf := r.engine()
		var t *Term
		e.h.Opaque = func(prev func(*ssa.Function) bool) func(*ssa.Function) bool {
			return func(f *ssa.Function) bool { return f == sel && e.states > 0 || prev(f) }
		}(e.h.Opaque)
		e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
			if c.fn == sel && len(st.frames) > 0 {
				res := e.freshRes(st, c)
				v := rterm("rsel", it, rf.resolve(c.args[0]))
				return []Outcome{{res: []*Term{v, TNil}}, {res: []*Term{v, res[1]}, mod: func(s *State) bool { return s.assume(mkEq(res[1], TNil), false) }}}, true
			}
			return rf.Call(st, c)
		}
		e.h.Exit = func(st *State, res []*Term) {
			if len(res) != 2 || st.knownNonNil(res[1]) {
				return
			}
			a.count("obligations checked", 1)
			v := res[0]
			if v.op != OIface {
				e.report(st, "select", nil, "it is not known which %s is chosen for a type: %s", what, v)
				return
			}
			x := v.a[0]
			s := structOf(derefType(v.t))
			for i := 0; s != nil && i < s.NumFields(); i++ {
				if !types.Identical(s.Field(i).Type(), it) {
					continue
				}
				sub := TNil
				if isPtr(v.t) {
					sub = st.peek(mkFieldAddr(x, i, s), it)
				} else {
					sub = mkField(x, i, s)
				}
				if sub.op != OCall || sub.s != "rsel" || sub.a[0] != rf.elemType(t) {
					e.report(st, "select", nil, "the %s chosen for a pointer type uses %s, not the %s of what it points to", what, sub, what)
				}
			}
		}
		root := e.addRoot(nil, sel, nil, nil)
		t = root.top().env[sel.Params[0]]
		root.assume(mkEq(t, TNil), false)
		a.explore(e)
	}
	sels := selections(a, p, sel, it, ai)
	n := 0
	for _, t := range p.implementers(it) {
		fn := p.method(t, it.Underlying().(*types.Interface).Method(0).Name())
		if fn == nil || fn.Blocks == nil {
			continue
		}
		for _, s := range sels[typeKey(t)] {
			if s.kind == reflect.Interface {
				continue // no registered record declares such an attribute
			}
			n++
			r.codec(t, fn, it, ai, s, decode)
		}
	}
	a.anchor(n >= 3, "attribute "+what+"s that are selected for some type")
}

// codec decides one attribute codec for one kind of type.
func (r *encRun) codec(t types.Type, fn *ssa.Function, it *types.Named, ai types.Type, s selection, decode bool) {
	a := r.a
	e, rf := r.engine()
	rf.ifaces = []types.Type{ai}
	var v, attr *Term
	args := make([]*Term, len(fn.Params))
	for i, pr := range fn.Params {
		switch {
		case i > 0 && isReflValue(pr.Type()):
			v = intern(OSym, "the field", 0, 0, pr.Type(), nil, nil)
			reflValueT = pr.Type()
			args[i] = v
		case i > 0 && isIfaceType(pr.Type()):
			attr = intern(OSym, "the attribute", 0, 0, pr.Type(), nil, nil)
			args[i] = attr
		}
	}
	if !a.anchor(v != nil && (attr != nil || !decode), "the field and attribute of "+fn.String()) {
		return
	}
	e.persistent[v] = true
	if attr != nil {
		e.persistent[attr] = true
	}
	rep := func(st *State, in ssa.Instruction, f string, args ...any) {
		e.report(st, "codec", in, "%s, for attributes of kind %s: "+f, append([]any{shortType(t), s.kind}, args...)...)
	}
	m := ai.Underlying().(*types.Interface).Method(0).Name()
	var self *Term
	isSub := func(x *Term) bool {
		x = unwrapIface(x)
		if self != nil && (x.op == OField || x.op == OLoad) && contains(x, self) {
			return true
		}
		return false
	}
	// place: the value whose codec is used is (what is pointed to by) the field
	place := func(st *State, x *Term) bool {
		if x == v || x.op == OCall && x.s == "raddr" && x.a[0] == v {
			return true
		}
		return x.op == OCall && x.s == "rnew" && rf.cur(st, v) == x
	}
	e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
		own := c.method != nil && c.method.Name() == m && c.recv != nil && types.Identical(c.common.Value.Type(), ai)
		if !own && !isInvoke(c, it) {
			return rf.Call(st, c)
		}
		a.count("obligations checked", 1)
		if st.get("used") != nil {
			rep(st, c.instr, "a value may be handed to a codec twice")
		}
		if own {
			x := c.recv
			for x.op == OTA || x.op == OIface {
				x = x.a[0]
			}
			if x.op != OCall || x.s != "riface" {
				rep(st, c.instr, "%s of %s is called, not of the field", m, x)
			} else {
				st.set("used", x.a[0])
			}
			st.setFlag("own", true)
			if decode && c.args[len(c.args)-1] != attr {
				rep(st, c.instr, "%s is called with %s, not with the attribute", m, c.args[len(c.args)-1])
			}
		} else {
			if !isSub(c.recv) {
				rep(st, c.instr, "the codec %s is used, not that of what the pointer points to", c.recv)
			}
			x := c.args[len(c.args)-1]
			if x.op != OCall || x.s != "relem" {
				rep(st, c.instr, "a codec is given %s, not what the pointer points to", x)
			} else {
				st.set("used", x.a[0])
			}
			if decode && c.args[len(c.args)-2] != attr {
				rep(st, c.instr, "a decoder is given %s, not the attribute", c.args[len(c.args)-2])
			}
		}
		res := e.freshRes(st, c)
		err := res[len(res)-1]
		ok := append([]*Term{}, res...)
		ok[len(res)-1] = TNil
		if !decode {
			st.set("out", res[0])
		}
		return []Outcome{
			{res: ok, mod: func(s *State) bool { s.set("err", TNil); return true }},
			{res: res, mod: func(s *State) bool { s.set("err", err); return s.assume(mkEq(err, TNil), false) }},
		}, true
	}
	isFalse := func(b *bool) bool { return b != nil && !*b }
	plain := isFalse(s.impl) && (!decode || isFalse(s.pim)) // no codec of its own
	isNotSet := func(st *State, err *Term) bool {
		return err == r.notSet || st.knownTrue(mkIs(err, r.notSet)) || st.knownTrue(mkEq(err, r.notSet))
	}
	e.h.Exit = func(st *State, res []*Term) {
		if res == nil {
			return // a panic: decided elsewhere
		}
		a.count("obligations checked", 1)
		err := res[len(res)-1]
		used, uerr := st.get("used"), st.get("err")
		if used != nil && !place(st, used) && (!decode || st.knownNil(uerr)) {
			rep(st, nil, "a codec is used for %s, not for the field", used)
		}
		switch {
		case used != nil && uerr != nil && !st.knownNil(uerr):
			if err != uerr && !st.errorCause(err, uerr) {
				rep(st, nil, "the error of the field's codec is not passed on")
			}
		case used != nil:
			if !st.knownNil(err) {
				rep(st, nil, "the field's codec succeeds, its caller may fail")
			} else if !decode && res[0] != st.get("out") {
				rep(st, nil, "%s is the value of the field instead of what its codec yields", res[0])
			}
		case !decode && st.knownNil(err):
			x := res[0]
			if s.kind == reflect.Pointer || !plain {
				rep(st, nil, "a value is encoded without asking the codec of its type")
			} else if !sameValue(x, v, s.kind) {
				rep(st, nil, "%s is the value of the field", x)
			}
		case !decode && isNotSet(st, err):
			zero := rterm("rIsZero", boolType, v)
			switch {
			case (s.kind == reflect.Pointer) && st.knownTrue(rf.isNil(st, v)):
			case s.kind != reflect.Pointer && plain && st.knownTrue(zero):
			default:
				rep(st, nil, "a value that is set may be taken for one that is not")
			}
		case !decode:
			rep(st, nil, "a value of a type that can be encoded may be refused")
		case st.knownNil(err):
			if s.kind == reflect.Pointer || !plain {
				rep(st, nil, "an attribute is decoded without asking the codec of the field's type")
				return
			}
			set := st.get(fmt.Sprintf("rset%d", v.id))
			if set == nil {
				set = st.get(fmt.Sprintf("rsetv%d", v.id))
			}
			if set == nil {
				rep(st, nil, "an attribute that its field can not take may be dropped without an error")
			} else if !attrIn(st, rf, set, attr, s.kind) {
				rep(st, nil, "the field is set to %s, not to the attribute", set)
			}
		default:
			if !st.factAbout(attr) {
				rep(st, nil, "any attribute may be refused")
			}
			if set := st.get(fmt.Sprintf("rset%d", v.id)); set != nil && s.kind != reflect.Pointer {
				rep(st, nil, "an error is reported for an attribute that was decoded")
			}
		}
	}
	root := e.addRoot(nil, fn, args, nil)
	self = root.top().env[fn.Params[0]]
	vt := rf.vtype(v)
	root.assume(rf.valid(root, v), true)
	if decode {
		root.assume(rf.settable(root, v), true)
	}
	root.assume(mkEq(rf.kind(vt), mkInt(int64(s.kind))), true)
	set := func(x *Term, b *bool) {
		if b != nil {
			root.assume(x, *b)
		}
	}
	iT := rf.static(ai)
	set(rf.implements(vt, iT), s.impl)
	set(rf.implements(rf.ptrTo(vt), iT), s.pim)
	a.explore(e)
}

// sameValue: the interface value holds the field's value.
// attrIn: a field of the kind is set to the attribute itself. Conversions that
// change the value, as from a number to a string, do not count.
func attrIn(st *State, rf *refl, set, attr *Term, k reflect.Kind) bool {
	is := func(x *Term) bool { return x.op == OCall && x.s == "rvalue" && x.a[0] == attr }
	switch {
	case set.op == OCall && set.s == "rconv":
		x := set.a[0]
		return is(x) && rf.kindIn(st, rf.vtype(x), k)
	case set.op == OCall:
		return is(set) || set.s == "rstring" && contains(set, attr)
	}
	for set.op == OConv {
		x := set.a[0]
		switch {
		case isIntType(set.t) && isIntType(x.t):
			if !widening(set) && !st.factAbout(x) {
				return false
			}
		case isIntType(x.t) || isIntType(set.t):
			return false
		}
		set = x
	}
	return contains(set, attr)
}

func sameValue(x, v *Term, k reflect.Kind) bool {
	if x.op == OCall && x.s == "riface" && x.a[0] == v {
		return true
	}
	if x.op != OIface {
		return false
	}
	kinds := map[types.BasicKind]reflect.Kind{types.String: reflect.String, types.Uint64: reflect.Uint64, types.Int64: reflect.Int64, types.Uint32: reflect.Uint32, types.Int32: reflect.Int32}
	if b, ok := x.t.Underlying().(*types.Basic); !ok || kinds[b.Kind()] != k {
		return false
	}
	x = strip(x.a[0])
	return x.op == OCall && len(x.a) > 0 && x.a[0] == v &&
		(x.s == "rstring" || strings.HasSuffix(x.s, ".Uint") || strings.HasSuffix(x.s, ".Int") || strings.HasSuffix(x.s, ".String"))
}

// errorCause: the error wraps another one.
func (st *State) errorCause(err, cause *Term) bool {
	if err == cause || st.knownTrue(mkIs(err, cause)) {
		return true
	}
	if err.op == OWrap {
		for _, x := range err.a {
			if st.errorCause(x, cause) {
				return true
			}
		}
	}
	return false
}

// factAbout: something is known about a term.
func (st *State) factAbout(x *Term) bool {
	for f := range st.facts {
		if contains(f, x) {
			return true
		}
	}
	return false
}

func (r *encRun) anchors() bool {
	a, p := r.a, r.p
	r.encI, r.selEnc = fieldCodec(p, false)
	r.decI, r.selDec = fieldCodec(p, true)
	pk := p.repoPkg("encoding")
	if !a.anchor(pk != nil && r.encI != nil && r.decI != nil && r.selEnc != nil && r.selDec != nil, "the interfaces of attribute encoders and decoders and the functions that select one") {
		return false
	}
	is := func(t types.Type) func(types.Type) bool {
		return func(x types.Type) bool { return types.Identical(x, t) }
	}
	for _, n := range sortedMembers(pk) {
		m, ok := pk.Members[n].(*ssa.Type)
		if !ok {
			continue
		}
		s, ok := m.Type().Underlying().(*types.Struct)
		if ok && oneField(s, is(r.encI)) >= 0 && oneField(s, is(r.decI)) >= 0 {
			r.fieldT, r.fs = m.Type(), s
		}
	}
	if !a.anchor(r.fieldT != nil, "the description of one attribute, with its encoder and decoder") {
		return false
	}
	isList := func(t types.Type) bool {
		l, ok := t.Underlying().(*types.Slice)
		return ok && (types.Identical(l.Elem(), r.fieldT) || types.Identical(derefType(l.Elem()), r.fieldT))
	}
	for _, n := range sortedMembers(pk) {
		m, ok := pk.Members[n].(*ssa.Type)
		if !ok {
			continue
		}
		if s, ok := m.Type().Underlying().(*types.Struct); ok && oneField(s, isList) >= 0 {
			r.typT, r.ts = m.Type(), s
		}
	}
	if !a.anchor(r.typT != nil, "the description of a registered type, with its list of attributes") {
		return false
	}
	r.code = oneField(r.fs, isBasicKind(types.Uint32))
	r.required = oneField(r.fs, isBasicKind(types.Bool))
	r.index = oneField(r.fs, func(t types.Type) bool {
		l, ok := t.Underlying().(*types.Slice)
		return ok && isBasicKind(types.Int)(l.Elem())
	})
	r.encF, r.decF = oneField(r.fs, is(r.encI)), oneField(r.fs, is(r.decI))
	r.list = oneField(r.ts, isList)
	r.tcode = oneField(r.ts, isBasicKind(types.Uint32))
	r.ttype = oneField(r.ts, isReflType)
	if !a.anchor(r.code >= 0 && r.required >= 0 && r.index >= 0 && r.list >= 0 && r.tcode >= 0 && r.ttype >= 0, "code, required flag and index path of an attribute; type and code of a registered type") {
		return false
	}
	for _, n := range sortedMembers(pk) {
		if g, ok := pk.Members[n].(*ssa.Global); ok {
			if mt, ok := derefType(g.Type()).Underlying().(*types.Map); ok && types.Identical(derefType(mt.Elem()), r.typT) {
				if isReflType(mt.Key()) {
					r.byType = mt
				} else if isBasicKind(types.Uint32)(mt.Key()) {
					r.byCode = mt
				}
			}
		}
	}
	if !a.anchor(r.byType != nil && r.byCode != nil, "the registries by type and by code") {
		return false
	}
	e0 := newEngine(p)
	switch o := pk.Pkg.Scope().Lookup("ErrAttributeNotSet").(type) {
	case *types.Const:
		r.notSet = mkIface(o.Type(), intern(OConst, "", 0, 0, o.Type(), o.Val(), nil))
	case *types.Var:
		r.notSet = intern(OLoad, "", 0, 0, o.Type(), nil, nil, e0.val(nil, nil, pk.Var("ErrAttributeNotSet")))
	}
	return a.anchor(r.notSet != nil, "encoding.ErrAttributeNotSet")
}

// fieldPart: a part of an element of a list of attribute descriptions.
func (r *encRun) fieldPart(x *Term) (list, idx *Term, f int) {
	f = -1
	for x != nil {
		switch x.op {
		case OField:
			f = x.idx
			x = x.a[0]
			continue
		case OLoad:
			ad := x.a[0]
			if ad.op == OFieldAddr {
				f = ad.idx
				ad = ad.a[0]
			}
			if ad.op == OIndexAddr {
				return ad.a[0], ad.a[1], f
			}
			if ad.op == OLoad {
				x = ad
				continue
			}
		}
		break
	}
	return nil, nil, -1
}

// entryOf finds the registration a list of attribute descriptions is from.
func (r *encRun) entryOf(list *Term) *Term {
	for list != nil && (list.op == OLoad || list.op == OField || list.op == OFieldAddr) {
		list = list.a[0]
	}
	if list != nil && list.op == OLookup {
		return list
	}
	return nil
}

func (r *encRun) entryField(lookup *Term, f int) *Term {
	return intern(OLoad, "", 0, 0, r.ts.Field(f).Type(), nil, nil, mkFieldAddr(lookup, f, r.ts))
}

// walks follows the loops that go from a value along an index path.
func (r *encRun) walks(e *Engine) {
	part := func(w, c *Term) *Term { return rterm("rpart", reflValueT, w, c) }
	e.h.LoopBack = chainLoop(e.h.LoopBack, func(st *State, l *LoopEv) {
		if l.st.mode != 1 || !l.st.exact || l.st.bound == nil || l.st.bound.op != OLen || l.st.idx == nil {
			return
		}
		c := l.st.bound.a[0]
		for v, x := range l.st.next {
			old := l.fr.env[v]
			if x == nil || old == nil || x.op != OCall || x.s != "rfield" || x.a[0] != old {
				continue
			}
			if x.a[1] != st.loadElem(c, l.st.idx, types.Typ[types.Int]) {
				continue
			}
			switch {
			case !l.st.iterated:
				l.st.next[v] = part(old, c)
			case old.op == OCall && old.s == "rpart" && old.a[1] == c:
				l.st.next[v] = old
			}
		}
	})
	e.h.LoopDone = chainLoop(e.h.LoopDone, func(st *State, l *LoopEv) {
		if l.st.mode != 1 || !l.st.exact || l.st.bound == nil || l.st.bound.op != OLen {
			return
		}
		c := l.st.bound.a[0]
		for v, x := range l.fr.env {
			if phi, ok := v.(*ssa.Phi); ok && l.loop.blocks[phi.Block()] && x != nil && x.op == OCall && x.s == "rpart" && x.a[1] == c {
				l.fr.env[v] = rterm("rwalk", reflValueT, x.a[0], c)
			}
		}
	})
}

func chainLoop(prev, next func(st *State, l *LoopEv)) func(st *State, l *LoopEv) {
	if prev == nil {
		return next
	}
	return func(st *State, l *LoopEv) {
		prev(st, l)
		next(st, l)
	}
}

// walked: the value is where an index path leads to from a root.
func (r *encRun) walked(st *State, v *Term) (root, path *Term) {
	if v.op == OCall && v.s == "rwalk" {
		return v.a[0], v.a[1]
	}
	return v, nil
}

// fieldOK: v is the place in root that the attribute's index path leads to.
func (r *encRun) fieldOK(st *State, v, list, idx *Term) (root *Term, ok bool) {
	want := r.part(st, list, idx, r.index)
	root, path := r.walked(st, v)
	if path == nil {
		return root, st.knownTrue(mkEq(mkLen(want), mkInt(0)))
	}
	return root, path == want
}

// part reads a part of an attribute description.
func (r *encRun) part(st *State, list, idx *Term, f int) *Term {
	el := list.t.Underlying().(*types.Slice).Elem()
	if isPtr(el) {
		return st.peek(mkFieldAddr(st.loadElem(list, idx, el), f, r.fs), r.fs.Field(f).Type())
	}
	return st.peek(mkFieldAddr(mkIndexAddr(list, idx, el), f, r.fs), r.fs.Field(f).Type())
}

// pass observes the traversals of a list of attribute descriptions.
func (r *encRun) pass(e *Engine, isList func(st *State, l *Term) bool, back func(st *State, list, idx *Term)) {
	e.h.LoopEnter = chainLoop(e.h.LoopEnter, func(st *State, l *LoopEv) {
		if l.st.mode == 1 && l.st.exact && l.st.bound != nil && l.st.bound.op == OLen && isList(st, l.st.bound.a[0]) {
			st.set("over", l.st.over)
			r.fresh(st)
		}
	})
	mine := func(st *State, l *LoopEv) bool { return st.get("over") != nil && st.get("over") == l.st.over }
	e.h.LoopBack = chainLoop(e.h.LoopBack, func(st *State, l *LoopEv) {
		if mine(st, l) {
			back(st, l.st.bound.a[0], l.st.idx)
			r.fresh(st)
		}
	})
	e.h.LoopDone = chainLoop(e.h.LoopDone, func(st *State, l *LoopEv) {
		if mine(st, l) {
			st.set("over", nil)
			st.set("full", l.st.bound.a[0])
		}
	})
	e.h.LoopBreak = chainLoop(e.h.LoopBreak, func(st *State, l *LoopEv) {
		if mine(st, l) {
			st.set("over", nil)
			st.setFlag("missing", st.missingRequired(r))
		}
	})
}

// fresh forgets what happened to the previous attribute.
func (r *encRun) fresh(st *State) {
	for _, k := range []string{"codec", "out", "err", "put", "place"} {
		st.set(k, nil)
	}
}

func (r *encRun) engine() (*Engine, *refl) {
	e := newEngine(r.p)
	followOnly(e, "encoding")
	rf := newRefl(r.a, e)
	rf.report = func(st *State, in ssa.Instruction, format string, args ...any) {}
	return e, rf
}

func isInvoke(c *Call, it *types.Named) bool {
	return c.method != nil && types.Identical(c.common.Value.Type(), it)
}

func (r *encRun) encode() {
	a := r.a
	fn := r.p.fn("encoding", "Encode")
	if !a.anchor(fn != nil && len(fn.Params) == 1, "encoding.Encode") {
		return
	}
	e, rf := r.engine()
	r.walks(e)
	rep := func(st *State, in ssa.Instruction, f string, args ...any) { e.report(st, "encode", in, f, args...) }
	var rec *Term
	isRec := func(v *Term) bool {
		if v.op == OCall && v.s == "relem" {
			v = v.a[0]
		}
		return v.op == OCall && v.s == "rvalue" && v.a[0] == rec
	}
	r.pass(e, func(st *State, l *Term) bool {
		return l.t != nil && r.entryOf(l) != nil && types.Identical(l.t, r.ts.Field(r.list).Type())
	}, func(st *State, list, idx *Term) {
		a.count("obligations checked", 1)
		err, out := st.get("err"), st.get("out")
		switch {
		case st.get("codec") == nil:
			rep(st, nil, "an attribute may be left out without asking its encoder")
		case st.knownNil(err):
			if !st.knownNil(out) && st.get("put") == nil {
				rep(st, nil, "the encoded value of an attribute may not be kept")
			}
		case st.knownNonNil(err):
			if !st.knownTrue(mkIs(err, r.notSet)) && !st.knownTrue(mkEq(err, r.notSet)) {
				rep(st, nil, "an attribute that can not be encoded may be left out silently")
			} else if !st.knownFalse(r.part(st, list, idx, r.required)) {
				rep(st, nil, "a required attribute that is not set may be left out silently")
			}
		default:
			rep(st, nil, "the error of an attribute's encoder may be ignored")
		}
	})
	e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
		if !isInvoke(c, r.encI) {
			return rf.Call(st, c)
		}
		a.count("obligations checked", 1)
		list, idx, f := r.fieldPart(c.recv)
		if list == nil || f != r.encF || r.entryOf(list) == nil {
			rep(st, c.instr, "an encoder is used that is not known to be that of an attribute of the record type")
			return []Outcome{{res: e.freshRes(st, c)}}, true
		}
		if st.get("codec") != nil {
			rep(st, c.instr, "an attribute may be encoded more than once")
		}
		root, ok := r.fieldOK(st, c.args[len(c.args)-1], list, idx)
		if !ok {
			rep(st, c.instr, "an attribute's encoder is not given the field that declares the attribute, but %s", c.args[len(c.args)-1])
		}
		lk := r.entryOf(list)
		if !isRec(root) || rf.resolve(unwrapIface(lk.a[1])) != rf.resolve(rf.vtype(root)) {
			rep(st, c.instr, "the attributes are those of another type than the record's")
		}
		res := e.freshRes(st, c)
		out, err := res[0], res[1]
		set := func(s *State, o, er *Term) {
			s.set("codec", idx)
			s.set("out", o)
			s.set("err", er)
		}
		return []Outcome{
			{res: []*Term{out, TNil}, mod: func(s *State) bool { set(s, out, TNil); return s.assume(mkEq(out, TNil), false) }},
			{res: []*Term{TNil, TNil}, mod: func(s *State) bool { set(s, TNil, TNil); return true }},
			{res: []*Term{TNil, r.notSet}, mod: func(s *State) bool { set(s, TNil, r.notSet); return true }},
			{res: []*Term{out, err}, mod: func(s *State) bool {
				set(s, out, err)
				return s.assume(mkEq(err, TNil), false) && s.assume(mkIs(err, r.notSet), false)
			}},
			{res: []*Term{out, err}, mod: func(s *State) bool {
				set(s, out, err)
				return s.assume(mkEq(err, TNil), false) && s.assume(mkIs(err, r.notSet), true)
			}},
		}, true
	}
	e.h.MapUpdate = func(st *State, m, k, v *Term, in ssa.Instruction) {
		if kt := m.t; kt != nil && (types.Identical(kt.Underlying(), r.byType) || types.Identical(kt.Underlying(), r.byCode)) {
			return
		}
		a.count("obligations checked", 1)
		if st.get("map") == nil {
			st.set("map", m)
		}
		if st.get("map") != m {
			return // some other map; Exit judges the one returned
		}
		kk := k
		if k.op == OIface {
			if !isBasicKind(types.Uint32)(k.t) || k.t != types.Typ[types.Uint32] {
				rep(st, in, "an attribute is kept under a key of type %s", shortType(k.t))
			}
			kk = k.a[0]
		}
		if n, ok := kk.intVal(); ok && n == 0 {
			st.set("type", unwrapIface(v))
			st.set("typeT", v)
			return
		}
		list, idx, f := r.fieldPart(kk)
		switch {
		case list == nil || f != r.code || st.get("over") == nil || st.get("codec") != idx:
			rep(st, in, "a value is kept under %s, not under the code of the attribute being encoded", kk)
		case v != st.get("out"):
			rep(st, in, "%s is kept for an attribute instead of its encoded value", v)
		case !st.knownNil(st.get("err")):
			rep(st, in, "a value is kept for an attribute although encoding it may have failed")
		default:
			st.set("put", v)
		}
	}
	e.h.MapDelete = func(st *State, m, k *Term, in ssa.Instruction) {
		rep(st, in, "an encoded attribute is removed")
	}
	e.h.Exit = func(st *State, res []*Term) {
		if len(res) != 2 {
			return
		}
		a.count("obligations checked", 1)
		err := res[1]
		if !st.knownNil(err) {
			if !st.knownNonNil(err) {
				rep(st, nil, "it is not known whether Encode reports an error")
			}
			why := st.knownNil(rec) || st.unregistered(r.byType) || rf.nilPointer(st, rec)
			if fe := st.get("err"); fe != nil && !st.knownNil(fe) {
				why = true
			}
			if !why {
				rep(st, nil, "Encode fails although the record and all its attributes can be encoded")
			}
			return
		}
		full := st.get("full")
		if full == nil {
			rep(st, nil, "Encode succeeds without having encoded every attribute of the record type")
			return
		}
		if fe := st.get("err"); fe != nil && !st.knownNil(fe) {
			rep(st, nil, "Encode succeeds although an attribute could not be encoded")
		}
		lk := r.entryOf(full)
		if !st.knownTrue(mkLookupOk(lk.a[0], lk.a[1])) && !st.knownNonNil(lk) {
			rep(st, nil, "a type that is not registered may be encoded")
		}
		if m := st.get("map"); m != res[0] {
			rep(st, nil, "Encode returns %s, not the attributes", res[0])
		}
		if t, want := st.get("type"), r.entryField(lk, r.tcode); t == nil || t != want && !st.knownTrue(mkEq(t, want)) {
			rep(st, nil, "the record type is not part of the encoded record: %s instead of %s", t, want)
		} else if tt := st.get("typeT"); tt.op == OIface && !types.Identical(tt.t, types.Typ[types.Uint32]) {
			rep(st, nil, "the record type is encoded as %s", shortType(tt.t))
		}
	}
	root := e.addRoot(nil, fn, nil, nil)
	rec = root.top().env[fn.Params[0]]
	a.explore(e)
}

// unregistered: a lookup in the registry is known to have failed.
func (st *State) unregistered(mt *types.Map) bool {
	for f, v := range st.facts {
		if f.op == OLookupOk && !v && f.a[0].t != nil && types.Identical(f.a[0].t.Underlying(), mt) {
			return true
		}
		if f.op == OEq && v && (f.a[0] == TNil && isRegLookup(f.a[1], mt) || f.a[1] == TNil && isRegLookup(f.a[0], mt)) {
			return true
		}
	}
	return false
}

func isRegLookup(x *Term, mt *types.Map) bool {
	return x.op == OLookup && x.a[0].t != nil && types.Identical(x.a[0].t.Underlying(), mt)
}

func (r *refl) nilPointer(st *State, rec *Term) bool {
	return st.knownTrue(r.isNil(st, rterm("rvalue", reflValueT, rec)))
}

func (r *encRun) decode() {
	a := r.a
	fn := r.p.fn("encoding", "Decode")
	if !a.anchor(fn != nil && len(fn.Params) == 1, "encoding.Decode") {
		return
	}
	e, rf := r.engine()
	r.walks(e)
	rep := func(st *State, in ssa.Instruction, f string, args ...any) { e.report(st, "decode", in, f, args...) }
	var set *Term
	u32 := types.Typ[types.Uint32]
	attrKey := func(st *State, list, idx *Term) *Term { return mkIface(u32, r.part(st, list, idx, r.code)) }
	anyT := fn.Params[0].Type().Underlying().(*types.Map).Elem()
	typeKeyT := mkIface(u32, intern(OConst, "", 0, 0, u32, mkInt(0).c, nil))
	typeAttr := func() *Term { return mkLookup(set, typeKeyT, anyT) }
	codeOf := func() *Term { return intern(OTA, shortType(u32), 0, 0, u32, nil, nil, typeAttr()) }
	absent := func(st *State, k *Term) bool { return st.knownFalse(mkLookupOk(set, k)) }
	r.pass(e, func(st *State, l *Term) bool {
		return l.t != nil && r.entryOf(l) != nil && types.Identical(l.t, r.ts.Field(r.list).Type())
	}, func(st *State, list, idx *Term) {
		a.count("obligations checked", 1)
		err := st.get("err")
		switch {
		case st.get("codec") == nil:
			switch {
			case !absent(st, attrKey(st, list, idx)):
				rep(st, nil, "an attribute that is present may not be decoded")
			case !st.knownFalse(r.part(st, list, idx, r.required)):
				rep(st, nil, "a required attribute may be missing without an error")
			}
		case !st.knownNil(err):
			rep(st, nil, "an attribute that its field can not take may be passed over silently")
		}
	})
	e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
		if !isInvoke(c, r.decI) {
			return rf.Call(st, c)
		}
		a.count("obligations checked", 1)
		res := e.freshRes(st, c)
		list, idx, f := r.fieldPart(c.recv)
		if list == nil || f != r.decF || r.entryOf(list) == nil {
			rep(st, c.instr, "a decoder is used that is not known to be that of an attribute of the record type")
			return []Outcome{{res: res}}, true
		}
		if st.get("codec") != nil {
			rep(st, c.instr, "an attribute may be decoded more than once")
		}
		attr, v := c.args[len(c.args)-2], c.args[len(c.args)-1]
		root, ok := r.fieldOK(st, v, list, idx)
		if !ok {
			rep(st, c.instr, "an attribute's decoder is not given the field that declares the attribute, but %s", v)
		}
		lk := r.entryOf(list)
		okRoot := root.op == OCall && root.s == "relem" && isNew(root.a[0], r.entryField(lk, r.ttype))
		if !okRoot {
			rep(st, c.instr, "the attribute is not decoded into a new record of the registered type, but into %s", root)
		} else {
			st.set("record", root.a[0])
		}
		if cp := unwrapIface(lk.a[1]); cp != codeOf() {
			rep(st, c.instr, "the attributes are those of the type with code %s, not of the record's type", cp)
		}
		if want := mkLookup(set, attrKey(st, list, idx), anyT); attr != want {
			rep(st, c.instr, "an attribute's decoder is given %s, not the attribute under its code", attr)
		}
		return []Outcome{
			{res: []*Term{TNil}, mod: func(s *State) bool { s.set("codec", idx); s.set("err", TNil); return true }},
			{res: res, mod: func(s *State) bool {
				s.set("codec", idx)
				s.set("err", res[0])
				return s.assume(mkEq(res[0], TNil), false)
			}},
		}, true
	}
	e.h.Exit = func(st *State, res []*Term) {
		if len(res) != 2 {
			return
		}
		a.count("obligations checked", 1)
		err := res[1]
		if !st.knownNil(err) {
			if !st.knownNonNil(err) {
				rep(st, nil, "it is not known whether Decode reports an error")
			}
			why := st.knownNil(set) || absent(st, typeKeyT) || st.knownFalse(mkTAOk(typeAttr(), u32)) || st.knownNil(typeAttr()) || st.unregistered(r.byCode)
			if fe := st.get("err"); fe != nil && !st.knownNil(fe) {
				why = true
			}
			if why || st.flag("missing") {
				return
			}
			rep(st, nil, "Decode fails although the attributes can be decoded")
			return
		}
		full := st.get("full")
		if full == nil {
			rep(st, nil, "Decode succeeds without having considered every attribute of the record type")
			return
		}
		lk := r.entryOf(full)
		if !st.knownTrue(mkLookupOk(lk.a[0], lk.a[1])) && !st.knownNonNil(lk) {
			rep(st, nil, "a record of a type that is not registered may be decoded")
		}
		got := res[0]
		if got.op == OCall && got.s == "riface" {
			got = got.a[0]
		}
		if want := st.get("record"); want != nil && rf.cur(st, want) != got || want == nil && !isNew(got, r.entryField(lk, r.ttype)) {
			rep(st, nil, "Decode returns %s, not the record it decoded into", res[0])
		}
	}
	root := e.addRoot(nil, fn, nil, nil)
	set = root.top().env[fn.Params[0]]
	a.explore(e)
}

func isNew(v, t *Term) bool { return v.op == OCall && v.s == "rnew" && v.a[0] == t }

// missingRequired: the attribute being considered is required and absent.
func (st *State) missingRequired(r *encRun) bool {
	for f, v := range st.facts {
		if f.op == OLookupOk && !v {
			if k := f.a[1]; k.op == OIface {
				if list, idx, p := r.fieldPart(k.a[0]); list != nil && p == r.code && st.knownTrue(r.part(st, list, idx, r.required)) {
					return true
				}
			}
		}
	}
	return false
}
