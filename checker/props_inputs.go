package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C03", "path-sensitive abstract interpretation with a model of reflect, taint from received messages",
		"The message decoders, the record decoder, every attribute decoder and the loops that receive messages are explored with arbitrary messages; each pointer dereference, type assertion, map operation, comparison, index and reflective operation that can be reached with received data must be safe on every path",
		runC03)
}

// ---- a theory of reflect ----

// refl gives the results of the reflect package terms whose identities can be
// related, and lists what each operation requires.
type refl struct {
	a       *Analysis
	e       *Engine
	kinds   map[string]int64
	statics map[*Term]types.Type
	ifaces  []types.Type // interface types attribute types are tested against
	report  func(st *State, in ssa.Instruction, format string, args ...any)
}

func rterm(kind string, t types.Type, args ...*Term) *Term {
	return intern(OCall, kind, 0, 0, t, nil, nil, args...)
}

var boolType = types.Typ[types.Bool]

func newRefl(a *Analysis, e *Engine) *refl {
	r := &refl{a: a, e: e, statics: map[*Term]types.Type{}}
	return r
}

func isReflType(t types.Type) bool {
	return t != nil && typeKey(t) == "reflect.Type"
}

func isReflValue(t types.Type) bool {
	return t != nil && typeKey(t) == "reflect.Value"
}

// static is the term of a type known at compile time.
func (r *refl) static(t types.Type) *Term {
	x := intern(OCall, "rstatic", 0, 0, t, nil, nil)
	r.statics[x] = t
	return x
}

// typeVar resolves a package variable of type reflect.Type to the type it
// was initialised with.
func (r *refl) resolve(x *Term) *Term {
	if x.op == OLoad && x.a[0].op == OGlobal {
		var val ssa.Value
		n := 0
		for _, pk := range r.e.p.spkgs {
			for _, m := range pk.Members {
				g, ok := m.(*ssa.Global)
				if !ok || typeKey(g.Type()) != "*reflect.Type" || !strings.HasSuffix(x.a[0].s, g.String()) && g.String() != x.a[0].s {
					continue
				}
				fns := []*ssa.Function{pk.Func("init")}
				for _, f := range pk.Members {
					if fn, ok := f.(*ssa.Function); ok {
						fns = append(fns, fn)
					}
				}
				seen := map[*ssa.Function]bool{}
				for _, fn := range fns {
					if fn == nil || seen[fn] {
						continue
					}
					seen[fn] = true
					for _, b := range fn.Blocks {
						for _, in := range b.Instrs {
							if s, ok := in.(*ssa.Store); ok && s.Addr == g {
								val = s.Val
								n++
							}
						}
					}
				}
			}
		}
		if n == 1 {
			if t := staticTypeValue(val); t != nil {
				return r.static(t)
			}
		}
	}
	if x.op == OIface {
		return r.resolve(x.a[0])
	}
	return x
}

// staticTypeValue evaluates reflect.TypeOf expressions of known types.
func staticTypeValue(v ssa.Value) types.Type {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if c.Call.IsInvoke() {
		t := staticTypeValue(c.Call.Value)
		if t == nil || c.Call.Method.Name() != "Elem" {
			return nil
		}
		return derefType(t)
	}
	f := c.Call.StaticCallee()
	if f == nil {
		return nil
	}
	switch normName(f.String()) {
	case "reflect.TypeOf":
		if m, ok := c.Call.Args[0].(*ssa.MakeInterface); ok {
			return m.X.Type()
		}
	case "reflect.TypeFor":
		if ta := f.TypeArgs(); len(ta) == 1 {
			return ta[0]
		}
	case "reflect.PointerTo", "reflect.PtrTo":
		if t := staticTypeValue(c.Call.Args[0]); t != nil {
			return types.NewPointer(t)
		}
	}
	return nil
}

var reflTypeT, reflValueT types.Type

func (r *refl) setTypes(c *Call) {
	for i := 0; c.res != nil && i < c.res.Len(); i++ {
		if t := c.res.At(i).Type(); isReflType(t) {
			reflTypeT = t
		} else if isReflValue(t) {
			reflValueT = t
		}
	}
}

func (r *refl) ptrTo(t *Term) *Term {
	t = r.resolve(t)
	if st, ok := r.statics[t]; ok {
		return r.static(types.NewPointer(st))
	}
	return rterm("rptr", reflTypeT, t)
}

func (r *refl) elemType(t *Term) *Term {
	t = r.resolve(t)
	if t.op == OCall && t.s == "rptr" {
		return t.a[0]
	}
	if st, ok := r.statics[t]; ok {
		if p, ok := st.Underlying().(*types.Pointer); ok {
			return r.static(p.Elem())
		}
	}
	return rterm("rtelem", reflTypeT, t)
}

// cur is the value a settable reflect.Value holds now.
func (r *refl) cur(st *State, v *Term) *Term {
	if x := st.get(fmt.Sprintf("rset%d", v.id)); x != nil {
		return x
	}
	return v
}

func (r *refl) vtype(v *Term) *Term {
	if v.op == OCall {
		switch v.s {
		case "rnew":
			return r.ptrTo(v.a[0])
		case "raddr":
			return r.ptrTo(r.vtype(v.a[0]))
		case "relem":
			return r.elemType(r.vtype(v.a[0]))
		case "rvalue":
			return r.typeOf(v.a[0])
		case "rconv":
			return v.a[1]
		case "rzero":
			return v.a[0]
		}
	}
	return rterm("rtype", reflTypeT, v)
}

func (r *refl) typeOf(x *Term) *Term {
	if x.op == OIface && x.t != nil {
		return r.static(x.t)
	}
	if x.op == OCall && x.s == "riface" {
		return r.vtype(x.a[0])
	}
	return rterm("rtypeof", reflTypeT, x)
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return reflect.Pointer
	case *types.Struct:
		return reflect.Struct
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Basic:
		m := map[types.BasicKind]reflect.Kind{types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16, types.Int32: reflect.Int32, types.Int64: reflect.Int64,
			types.Uint: reflect.Uint, types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr, types.Float32: reflect.Float32,
			types.Float64: reflect.Float64, types.Complex64: reflect.Complex64, types.Complex128: reflect.Complex128, types.String: reflect.String, types.UnsafePointer: reflect.UnsafePointer}
		return m[u.Kind()]
	}
	return reflect.Invalid
}

var kindT types.Type = types.Typ[types.Uint]

func (r *refl) kind(t *Term) *Term {
	t = r.resolve(t)
	if st, ok := r.statics[t]; ok {
		return mkInt(int64(kindOf(st)))
	}
	if t.op == OCall && t.s == "rptr" {
		return mkInt(int64(reflect.Pointer))
	}
	return rterm("rkind", kindT, t)
}

// kindIn: the kind is known to be one of the given.
func (r *refl) kindIn(st *State, t *Term, ks ...reflect.Kind) bool {
	k := r.kind(t)
	in := map[int64]bool{}
	for _, x := range ks {
		in[int64(x)] = true
	}
	if n, ok := k.intVal(); ok {
		return in[n]
	}
	eq := append(st.sameKinds(k), k)
	for i := int64(0); i <= int64(reflect.UnsafePointer); i++ {
		if !in[i] && !anyTerm(eq, func(k *Term) bool { return st.knownFalse(mkEq(k, mkInt(i))) }) {
			return false
		}
	}
	return true
}

// sameKinds lists the kinds that are known to be the same as one.
func (st *State) sameKinds(k *Term) (out []*Term) {
	for f, v := range st.facts {
		if !v || f.op != OEq {
			continue
		}
		for i := range f.a {
			if f.a[i] == k && f.a[1-i].op == OCall && f.a[1-i].s == "rkind" {
				out = append(out, f.a[1-i])
			}
		}
	}
	return
}

// kindsOf lists the kinds a type may have.
func (r *refl) kindsOf(st *State, t *Term) (out []reflect.Kind) {
	k := r.kind(t)
	for i := int64(1); i <= int64(reflect.UnsafePointer); i++ {
		if n, ok := k.intVal(); ok && n != i || st.knownFalse(mkEq(k, mkInt(i))) {
			continue
		}
		out = append(out, reflect.Kind(i))
	}
	return
}

func (r *refl) implements(t, i *Term) *Term {
	t, i = r.resolve(t), r.resolve(i)
	if x, ok := r.statics[t]; ok {
		if y, ok := r.statics[i]; ok {
			if it, ok := y.Underlying().(*types.Interface); ok {
				return mkBool(types.Implements(x, it))
			}
		}
	}
	return rterm("rimpl", boolType, t, i)
}

// numFields is the number of fields of a struct type.
func numFields(t *Term) *Term { return rterm("rnumfield", types.Typ[types.Int], t) }

// valid tells whether a reflect.Value holds something.
func (r *refl) valid(st *State, v *Term) *Term {
	switch {
	case v.op == OZero:
		return TFalse
	case v.op == OCall && v.s == "rvalue":
		if v.a[0].op == OIface {
			return TTrue
		}
		return mkNot(mkEq(v.a[0], TNil))
	case v.op == OCall && v.s == "relem":
		return mkNot(r.isNil(st, v.a[0]))
	case v.op == OCall && (v.s == "rnew" || v.s == "raddr" || v.s == "rconv" || v.s == "rzero"):
		return TTrue
	}
	return rterm("rvalid", boolType, v)
}

func (r *refl) isNil(st *State, v *Term) *Term {
	v = r.cur(st, v)
	if v.op == OCall {
		switch v.s {
		case "rnew", "raddr":
			return TFalse
		case "rvalue":
			if v.a[0].op == OCall && v.a[0].s == "riface" {
				return r.isNil(st, v.a[0].a[0])
			}
		case "rzero":
			return TTrue
		}
	}
	return rterm("rnil", boolType, v)
}

func (r *refl) settable(st *State, v *Term) *Term {
	if v.op == OCall {
		switch v.s {
		case "relem":
			if r.kindIn(st, r.vtype(v.a[0]), reflect.Pointer) {
				return mkNot(r.isNil(st, v.a[0]))
			}
		case "rvalue", "rnew", "raddr", "rconv", "rzero":
			return TFalse
		}
	}
	return rterm("rsettable", boolType, v)
}

var signedKinds = []reflect.Kind{reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64}
var unsignedKinds = []reflect.Kind{reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr}
var basicKinds = append(append([]reflect.Kind{reflect.Bool, reflect.String, reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128}, signedKinds...), unsignedKinds...)
var nilKinds = []reflect.Kind{reflect.Pointer, reflect.Interface, reflect.Map, reflect.Slice, reflect.Func, reflect.Chan, reflect.UnsafePointer}

func (r *refl) need(st *State, c *Call, ok bool, format string, args ...any) {
	r.a.count("obligations checked", 1)
	if !ok {
		r.report(st, c.instr, format, args...)
	}
}

func (r *refl) needValid(st *State, c *Call, v *Term) {
	r.need(st, c, st.knownTrue(r.valid(st, v)), "%s of a reflect.Value that may be empty", c.name)
}

func (r *refl) needKind(st *State, c *Call, v *Term, ks ...reflect.Kind) {
	r.need(st, c, st.knownTrue(r.valid(st, v)) && r.kindIn(st, r.vtype(v), ks...), "%s of a value whose kind is not known to allow it", c.name)
}

func (r *refl) needSet(st *State, c *Call, v *Term) {
	r.need(st, c, st.knownTrue(r.settable(st, v)), "%s of a value that is not known to be settable", c.name)
}

// assignable: a value of type from can be assigned to a place of type to.
func (r *refl) assignable(st *State, from, to *Term) bool {
	from, to = r.resolve(from), r.resolve(to)
	if from == to || st.knownTrue(mkEq(from, to)) || st.knownTrue(rterm("rassign", boolType, from, to)) {
		return true
	}
	if st.knownTrue(rterm("rassign", boolType, to, from)) && r.kindIn(st, to, basicKinds...) {
		return true // dynamic types are not interfaces: the types are the same
	}
	if from.op == OCall && from.s == "rptr" && from.a[0] == r.elemType(to) && r.kindIn(st, to, reflect.Pointer) {
		return true
	}
	if x, ok := r.statics[from]; ok {
		if y, ok := r.statics[to]; ok {
			return types.AssignableTo(x, y)
		}
	}
	return false
}

func (r *refl) convertible(st *State, from, to *Term) bool {
	if r.assignable(st, from, to) || st.knownTrue(rterm("rconvible", boolType, r.resolve(from), r.resolve(to))) {
		return true
	}
	for _, k := range basicKinds {
		if r.kindIn(st, to, k) && r.kindIn(st, from, k) {
			return true
		}
	}
	return false
}

func (r *refl) one(x ...*Term) ([]Outcome, bool) { return []Outcome{{res: x}}, true }

func (r *refl) Call(st *State, c *Call) ([]Outcome, bool) {
	r.setTypes(c)
	if c.method != nil && c.recv != nil && isReflType(c.common.Value.Type()) {
		t := r.resolve(unwrapIface(c.recv))
		if t.op == OCall && t.s == "rtypeof" {
			r.need(st, c, st.knownNonNil(t.a[0]), "type of a value that may be null")
		}
		arg := func() *Term {
			x := r.resolve(c.args[len(c.args)-1])
			if x.op == OCall && x.s == "rtypeof" {
				r.need(st, c, st.knownNonNil(x.a[0]), "type of a value that may be null")
			}
			return x
		}
		switch c.method.Name() {
		case "Kind":
			kindT = c.res.At(0).Type()
			return r.one(r.kind(t))
		case "NumField":
			return r.one(numFields(c.recv))
		case "Elem":
			r.need(st, c, r.kindIn(st, t, reflect.Pointer, reflect.Slice, reflect.Array, reflect.Map, reflect.Chan), "Elem of a type whose kind is not known to allow it")
			return r.one(r.elemType(t))
		case "Implements":
			return r.one(r.implements(t, arg()))
		case "AssignableTo":
			x := arg()
			return r.one(rterm("rassign", boolType, t, x))
		case "ConvertibleTo":
			x := arg()
			return r.one(rterm("rconvible", boolType, t, x))
		}
		return nil, false
	}
	name, ok := strings.CutPrefix(c.name, "(reflect.Value).")
	if !ok {
		switch c.name {
		case "reflect.TypeOf":
			return r.one(r.typeOf(c.args[0]))
		case "reflect.TypeFor":
			if c.fn != nil && len(c.fn.TypeArgs()) == 1 {
				return r.one(r.static(c.fn.TypeArgs()[0]))
			}
		case "reflect.PointerTo", "reflect.PtrTo":
			return r.one(r.ptrTo(c.args[0]))
		case "reflect.ValueOf":
			x := c.args[0]
			if x.op == OCall && x.s == "riface" && x.a[0].op == OCall {
				return r.one(x.a[0])
			}
			return r.one(rterm("rvalue", reflValueT, x))
		case "reflect.New":
			// one object per site
			s := st.sym("rnew", c.instr, c.ctx, 0, reflValueT)
			_ = s
			return r.one(rterm("rnew", reflValueT, r.resolve(c.args[0]), mkInt(int64(c.instr.Pos()))))
		case "reflect.Zero":
			return r.one(rterm("rzero", reflValueT, r.resolve(c.args[0])))
		case "reflect.Indirect":
			v := c.args[0]
			var outs []Outcome
			k := r.kind(r.vtype(v))
			isPtr := mkEq(k, mkInt(int64(reflect.Pointer)))
			outs = append(outs, Outcome{res: []*Term{rterm("relem", reflValueT, r.cur(st, v))}, mod: func(s *State) bool { return s.assume(isPtr, true) }})
			outs = append(outs, Outcome{res: []*Term{v}, mod: func(s *State) bool { return s.assume(isPtr, false) }})
			return outs, true
		}
		return nil, false
	}
	v := c.args[0]
	switch name {
	case "Kind":
		kindT = c.res.At(0).Type()
		if st.knownTrue(r.valid(st, v)) {
			return r.one(r.kind(r.vtype(v)))
		}
		val := r.valid(st, v)
		return []Outcome{
			{res: []*Term{r.kind(r.vtype(v))}, mod: func(s *State) bool { return s.assume(val, true) }},
			{res: []*Term{mkInt(0)}, mod: func(s *State) bool { return s.assume(val, false) }},
		}, true
	case "Type":
		r.needValid(st, c, v)
		return r.one(r.vtype(v))
	case "IsValid":
		return r.one(r.valid(st, v))
	case "CanSet", "CanAddr":
		return r.one(r.settable(st, v))
	case "CanInterface", "IsZero":
		r.needValid(st, c, v)
		return r.one(rterm("r"+name, boolType, r.cur(st, v)))
	case "IsNil":
		r.needKind(st, c, v, nilKinds...)
		return r.one(r.isNil(st, v))
	case "Elem":
		r.needKind(st, c, v, reflect.Pointer, reflect.Interface)
		return r.one(rterm("relem", reflValueT, r.cur(st, v)))
	case "Addr":
		r.need(st, c, st.knownTrue(r.settable(st, v)), "Addr of a value that is not known to be addressable")
		return r.one(rterm("raddr", reflValueT, v))
	case "Interface":
		r.needValid(st, c, v)
		x := rterm("riface", types.NewInterfaceType(nil, nil), r.cur(st, v))
		for _, i := range r.ifaces {
			im := r.implements(r.vtype(v), r.static(i))
			switch {
			case st.knownTrue(im):
				st.assume(mkTAOk(x, i), true)
			case st.knownFalse(im):
				st.assume(mkTAOk(x, i), false)
			}
		}
		st.assume(mkEq(x, TNil), false)
		return r.one(x)
	case "Field":
		r.need(st, c, st.flag("fieldsKnown") || r.kindIn(st, r.vtype(v), reflect.Struct), "field of a value that is not known to be a struct")
		x := rterm("rfield", reflValueT, v, c.args[1])
		return r.one(x)
	case "FieldByIndex":
		r.need(st, c, st.flag("fieldsKnown") || r.kindIn(st, r.vtype(v), reflect.Struct), "field of a value that is not known to be a struct")
		return r.one(rterm("rwalk", reflValueT, v, c.args[1]))
	case "Set":
		x := c.args[1]
		r.needSet(st, c, v)
		r.needValid(st, c, x)
		r.need(st, c, r.assignable(st, r.vtype(x), r.vtype(v)), "a value is set whose type is not known to be assignable to the field's")
		st.set(fmt.Sprintf("rset%d", v.id), x)
		return r.one()
	case "SetZero":
		r.needSet(st, c, v)
		st.set(fmt.Sprintf("rset%d", v.id), rterm("rzero", reflValueT, r.vtype(v)))
		return r.one()
	case "SetString", "SetInt", "SetUint", "SetBool", "SetFloat", "SetBytes", "SetLen", "SetCap":
		r.needSet(st, c, v)
		ks := map[string][]reflect.Kind{"SetString": {reflect.String}, "SetInt": signedKinds, "SetUint": unsignedKinds, "SetBool": {reflect.Bool}, "SetFloat": {reflect.Float32, reflect.Float64}}
		r.needKind(st, c, v, ks[name]...)
		st.set(fmt.Sprintf("rsetv%d", v.id), c.args[1])
		return r.one()
	case "String":
		if r.kindIn(st, r.vtype(v), reflect.String) {
			return r.one(rterm("rstring", types.Typ[types.String], r.cur(st, v)))
		}
		return nil, false
	case "Int", "OverflowInt":
		r.needKind(st, c, v, signedKinds...)
	case "Uint", "OverflowUint":
		r.needKind(st, c, v, unsignedKinds...)
	case "Float", "OverflowFloat":
		r.needKind(st, c, v, reflect.Float32, reflect.Float64)
	case "Bool":
		r.needKind(st, c, v, reflect.Bool)
	case "Len":
		r.needKind(st, c, v, reflect.Array, reflect.Chan, reflect.Map, reflect.Slice, reflect.String)
	case "MapRange", "MapKeys", "MapIndex":
		r.needKind(st, c, v, reflect.Map)
	case "NumField", "FieldByName":
		r.needKind(st, c, v, reflect.Struct)
	case "Convert":
		r.needValid(st, c, v)
		to := r.resolve(c.args[1])
		r.need(st, c, r.convertible(st, r.vtype(v), to), "a value is converted to a type it may not be convertible to")
		return r.one(rterm("rconv", reflValueT, v, to))
	case "CanConvert":
		r.needValid(st, c, v)
		return r.one(rterm("rconvible", boolType, r.resolve(r.vtype(v)), r.resolve(c.args[1])))
	case "Comparable", "CanInt", "CanUint", "CanFloat", "CanComplex":
		return r.one(rterm("r"+name, boolType, r.cur(st, v)))
	default:
		r.need(st, c, false, "%s is not known to be safe", c.name)
	}
	return nil, false
}

// ---- C03 ----

type inputRun struct {
	a      *Analysis
	p      *Program
	msgT   types.Type
	fieldD *types.Named // interface of the attribute decoders
	attrI  types.Type   // RecordAttributeDecoder
}

func runC03(a *Analysis) {
	p := a.program()
	r := &inputRun{a: a, p: p, msgT: p.typ("session", "Receiver"), attrI: p.typ("encoding", "RecordAttributeDecoder")}
	if !a.anchor(r.msgT != nil && r.attrI != nil, "session.Receiver, encoding.RecordAttributeDecoder") {
		return
	}
	a.rule("no pointer, interface, function or map lookup result that depends on a received message is dereferenced unless it is known not to be nil")
	a.rule("no type assertion on received data without the comma-ok form unless the type is known; no index, slice or allocation with bounds taken from received data unless they are known to be in range")
	a.rule("received values of unknown type are not compared with each other, nor used as keys of maps")
	a.rule("reflect operations meet their preconditions for the kinds of types each attribute decoder is selected for; explicit panics are unreachable")
	r.messages()
	r.records()
	r.consumers()
}

// engine returns one that checks everything tainted mentions.
func (r *inputRun) engine(what string, tainted func(st *State, t *Term) bool, rels ...string) *Engine {
	e := newEngine(r.p)
	followOnly(e, rels...)
	bad := func(st *State, in ssa.Instruction, format string, args ...any) {
		e.report(st, "crash", in, what+": "+format, args...)
	}
	e.h.Oblig = func(st *State, kind string, t, arg *Term, in ssa.Instruction) {
		if t == nil {
			return
		}
		tn := tainted(st, t) || arg != nil && tainted(st, arg)
		switch kind {
		case "deref":
			found := t.op == OLookup && tainted(st, t.a[1])
			if (tn || found || st.knownNil(t)) && !isReflType(t.t) {
				r.a.count("obligations checked", 1)
				ok := st.knownNonNil(t)
				if !ok && found {
					ok = st.knownTrue(mkLookupOk(t.a[0], t.a[1])) && !tainted(st, t.a[0])
				}
				if !ok {
					bad(st, in, "%s may be nil when it is used", t)
				}
			}
		case "assert":
			if tn || st.knownFalse(arg) {
				r.a.count("obligations checked", 1)
				if !st.knownTrue(arg) {
					bad(st, in, "%s may be of another type than asserted", t)
				}
			}
		case "index":
			r.a.count("obligations checked", 1)
			if !r.inRange(st, t, arg) {
				bad(st, in, "index %s of %s is not known to be in range", arg, t)
			}
		case "slice":
			lo, hi := arg.a[0], arg.a[1]
			r.a.count("obligations checked", 1)
			if lo != TNil && lo != mkInt(0) || hi != TNil {
				up := hi
				if up == TNil {
					up = mkLen(t)
				}
				low := lo
				if low == TNil {
					low = mkInt(0)
				}
				in64 := types.Typ[types.Int]
				if st.knownFalse(mkLt(up, low, in64)) && (hi == TNil || st.knownFalse(mkLt(mkLen(t), hi, in64))) && (st.ivalOf(low).lo >= 0) {
					return
				}
				if t.op == OAlloc {
					return
				}
				bad(st, in, "slice bounds of %s are not known to be in range", t)
			}
		case "makelen":
			if tn {
				r.a.count("obligations checked", 1)
				if t.op != OLen && st.ivalOf(t).lo < 0 || st.ivalOf(t).hi > 1<<32 && t.op != OLen && t.op != OCap {
					bad(st, in, "an allocation of %s elements", t)
				}
			}
		case "mapupdate":
			r.a.count("obligations checked", 1)
			if st.knownNil(t) || tainted(st, t) && !st.knownNonNil(t) {
				bad(st, in, "the map %s may be nil when it is written", t)
			}
			if arg != nil && r.badKey(st, arg, tainted) {
				bad(st, in, "%s is used as the key of a map and may not be hashable", arg)
			}
		case "div":
			if tn {
				r.a.count("obligations checked", 1)
				if !st.knownFalse(mkEq(t, mkInt(0))) {
					bad(st, in, "division by %s", t)
				}
			}
		case "ifacecmp":
			if isReflType(t.t) || isReflType(arg.t) {
				return
			}
			r.a.count("obligations checked", 1)
			if r.badKey(st, t, tainted) && r.unknownDyn(arg) || r.badKey(st, arg, tainted) && r.unknownDyn(t) {
				bad(st, in, "%s and %s are compared and may not be comparable", t, arg)
			}
		}
	}
	e.h.MapRead = func(st *State, m, k *Term, in ssa.Instruction) {
		if k != nil && r.badKey(st, k, tainted) {
			bad(st, in, "%s is looked up in a map and may not be hashable", k)
		}
	}
	e.h.Panic = func(st *State, v *Term, in ssa.Instruction) {
		r.a.count("obligations checked", 1)
		bad(st, in, "panics")
	}
	return e
}

func (r *inputRun) unknownDyn(t *Term) bool {
	return !(t == TNil || t.op == OIface && types.Comparable(t.t) && !isIfaceType(t.t))
}

// badKey: an interface value of received data whose type is not known.
func (r *inputRun) badKey(st *State, k *Term, tainted func(st *State, t *Term) bool) bool {
	if !tainted(st, k) {
		return false
	}
	if k.op == OIface {
		return !types.Comparable(k.t)
	}
	if k.t == nil || !isIfaceType(k.t) {
		return false
	}
	// the type was tested
	for f, v := range st.facts {
		if v && f.op == OTAOk && f.a[0] == k && f.t != nil && !isIfaceType(f.t) && types.Comparable(f.t) {
			return false
		}
	}
	return true
}

func (r *inputRun) inRange(st *State, s, i *Term) bool {
	if s.op == OAlloc && !isSliceT(s.t) || s.t != nil && isArrayPtr(s.t) {
		return true // arrays and literals of fixed length, checked by the compiler
	}
	in := types.Typ[types.Int]
	low := st.ivalOf(i).lo >= 0 || st.knownFalse(mkLt(i, mkInt(0), in))
	return low && st.knownTrue(mkLt(i, mkLen(s), in))
}

func isArrayPtr(t types.Type) bool {
	_, ok := derefType(t).Underlying().(*types.Array)
	return ok
}

// messages explores the decoders of messages.
func (r *inputRun) messages() {
	pk := r.p.repoPkg("")
	n := 0
	for _, name := range sortedMembers(pk) {
		fn, ok := pk.Members[name].(*ssa.Function)
		if !ok || fn.Object() == nil || !fn.Object().Exported() || len(fn.Params) != 1 || !isAmqp(derefType(fn.Params[0].Type()), "Message") {
			continue
		}
		n++
		msgT := fn.Params[0].Type()
		var msg *Term
		e := r.engine(fn.Name(), func(st *State, t *Term) bool { return t.mentions(msg) || r.fromDecode(t) }, "")
		e.h.Call = r.decodeCall
		msg = intern(OSym, "message:"+fn.String(), 0, 0, msgT, nil, nil)
		e.persistent[msg] = true
		root := e.addRoot(nil, fn, []*Term{msg}, nil)
		if isMsgDecoder(fn) {
			root.assume(mkEq(msg, TNil), false)
		}
		r.a.explore(e)
	}
	r.a.anchor(n >= 2, "the message decoders of package vanflow")
}

// madeOf: x is part of t, other than as the key of a lookup.
func madeOf(t, x *Term) bool {
	if t == x {
		return true
	}
	if !t.mentions(x) {
		return false
	}
	if t.op == OLookup || t.op == OLookupOk {
		return madeOf(t.a[0], x)
	}
	for _, a := range t.a {
		if madeOf(a, x) {
			return true
		}
	}
	return false
}

func (r *inputRun) fromDecode(t *Term) bool {
	for _, s := range t.syms {
		if s.op == OSym && strings.HasPrefix(s.s, "decoded") {
			return true
		}
	}
	return false
}

// decodeCall: the record decoder returns something or an error.
func (r *inputRun) decodeCall(st *State, c *Call) ([]Outcome, bool) {
	if c.fn != nil && c.fn.Pkg != nil && strings.HasSuffix(c.fn.Pkg.Pkg.Path(), "/encoding") && c.fn.Name() == "Decode" {
		v := st.sym("decoded", c.instr, c.ctx, 0, c.res.At(0).Type())
		symSites[v] = symSite{c.instr, c.ctx}
		err := st.sym("ret:err", c.instr, c.ctx, 1, c.res.At(1).Type())
		symSites[err] = symSite{c.instr, c.ctx}
		return []Outcome{
			{res: []*Term{v, TNil}, mod: func(s *State) bool { return s.assume(mkEq(v, TNil), false) }},
			{res: []*Term{TNil, err}, mod: func(s *State) bool { return s.assume(mkEq(err, TNil), false) }},
		}, true
	}
	return nil, false
}

// isMsgDecoder: an exported decoder of one kind of message, explored on its own.
func isMsgDecoder(f *ssa.Function) bool {
	return f.Object() != nil && f.Object().Exported() && pkgPath(f) == modPath && len(f.Params) == 1 && f.Signature.Recv() == nil && isAmqp(derefType(f.Params[0].Type()), "Message") &&
		f.Signature.Results().Len() > 0 && !isIfaceType(f.Signature.Results().At(0).Type())
}

func sortedMembers(pk *ssa.Package) []string {
	var out []string
	if pk == nil {
		return nil
	}
	for n := range pk.Members {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// fieldCodec finds the interface of the attribute encoders or decoders and the
// function that selects one for a type.
func fieldCodec(p *Program, decode bool) (it *types.Named, sel *ssa.Function) {
	pk := p.repoPkg("encoding")
	if pk == nil {
		return nil, nil
	}
	for _, name := range sortedMembers(pk) {
		m, ok := pk.Members[name].(*ssa.Type)
		if !ok {
			continue
		}
		n, ok := m.Type().(*types.Named)
		if !ok {
			continue
		}
		i, ok := n.Underlying().(*types.Interface)
		if !ok || i.NumMethods() != 1 {
			continue
		}
		sig := i.Method(0).Type().(*types.Signature)
		np := sig.Params().Len()
		if np == 0 || !isReflValue(sig.Params().At(np-1).Type()) && !isReflValue(sig.Params().At(0).Type()) {
			continue
		}
		if decode == (np == 2) {
			it = n
		}
	}
	if it == nil {
		return
	}
	for _, name := range sortedMembers(pk) {
		fn, ok := pk.Members[name].(*ssa.Function)
		if !ok {
			continue
		}
		s := fn.Signature
		if s.Params().Len() == 1 && isReflType(s.Params().At(0).Type()) && s.Results().Len() == 2 && types.Identical(s.Results().At(0).Type(), it) {
			sel = fn
		}
	}
	return
}

// selection: what is known about the types a codec is selected for.
type selection struct {
	kind      reflect.Kind
	impl, pim *bool
}

// selections explores the function that selects a codec for a type.
func selections(a *Analysis, p *Program, sel *ssa.Function, it *types.Named, attrI types.Type) map[string][]selection {
	out := map[string][]selection{}
	seen := map[string]bool{}
	e := newEngine(p)
	followOnly(e, "encoding")
	rf := newRefl(a, e)
	rf.ifaces = []types.Type{attrI}
	rf.report = func(st *State, in ssa.Instruction, format string, args ...any) {}
	var t *Term
	e.h.Call = func(st *State, c *Call) ([]Outcome, bool) { return rf.Call(st, c) }
	e.h.Opaque = func(prev func(*ssa.Function) bool) func(*ssa.Function) bool {
		return func(f *ssa.Function) bool { return f == sel && len(e.work) >= 0 && e.states > 0 || prev(f) }
	}(e.h.Opaque)
	e.h.Exit = func(st *State, res []*Term) {
		if len(res) != 2 || st.knownNonNil(res[1]) || res[0].op != OIface {
			return
		}
		name := typeKey(res[0].t)
		im, pi := rf.implements(t, rf.static(attrI)), rf.implements(rf.ptrTo(t), rf.static(attrI))
		for _, k := range rf.kindsOf(st, t) {
			s := selection{kind: k}
			tr, fa := true, false
			set := func(x *Term) *bool {
				switch {
				case st.knownTrue(x):
					return &tr
				case st.knownFalse(x):
					return &fa
				}
				return nil
			}
			s.impl, s.pim = set(im), set(pi)
			str := func(b *bool) string {
				if b == nil {
					return "?"
				}
				return fmt.Sprint(*b)
			}
			key := name + "|" + k.String() + "|" + str(s.impl) + "|" + str(s.pim)
			if !seen[key] {
				seen[key] = true
				out[name] = append(out[name], s)
			}
		}
	}
	root := e.addRoot(nil, sel, nil, nil)
	t = root.top().env[sel.Params[0]]
	root.assume(mkEq(t, TNil), false)
	e.run()
	return out
}

// records explores the record decoder and the attribute decoders.
func (r *inputRun) records() {
	p, a := r.p, r.a
	dec := p.fn("encoding", "Decode")
	it, sel := fieldCodec(p, true)
	if !a.anchor(dec != nil && it != nil && sel != nil, "encoding.Decode, the interface of attribute decoders and the function that selects one") {
		return
	}
	isSub := func(c *Call) bool {
		return c.method != nil && types.Identical(c.common.Value.Type(), it)
	}
	{
		var set *Term
		e := r.engine("record decoder", func(st *State, t *Term) bool { return madeOf(t, set) }, "encoding")
		rf := newRefl(a, e)
		rf.report = func(st *State, in ssa.Instruction, format string, args ...any) {
			e.report(st, "reflect", in, format, args...)
		}
		e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
			if isSub(c) {
				return []Outcome{{res: e.freshRes(st, c)}}, true
			}
			// the structure of registered types is not received data
			if strings.HasPrefix(c.name, "(reflect.Value).") {
				if !madeOf(c.args[0], set) {
					return nil, false
				}
			}
			return rf.Call(st, c)
		}
		root := e.addRoot(nil, dec, nil, nil)
		set = root.top().env[dec.Params[0]]
		a.explore(e)
	}
	sels := selections(a, p, sel, it, r.attrI)
	n := 0
	for _, t := range p.implementers(it) {
		fn := p.method(t, it.Underlying().(*types.Interface).Method(0).Name())
		if fn == nil || fn.Blocks == nil {
			continue
		}
		ss := sels[typeKey(t)]
		for _, s := range ss {
			if s.kind == reflect.Interface {
				continue // no registered record declares such an attribute
			}
			n++
			r.attribute(t, fn, it, s, isSub)
		}
	}
	a.anchor(n >= 3, "attribute decoders that are selected for some type")
	r.attrTypes()
}

// attribute explores an attribute decoder for one kind of type it is selected for.
func (r *inputRun) attribute(t types.Type, fn *ssa.Function, it *types.Named, s selection, isSub func(c *Call) bool) {
	var attr, v *Term
	e := r.engine(shortType(t), func(st *State, x *Term) bool {
		return x.mentions(attr) || contains(x, v) || r.fromDecode(x)
	}, "encoding")
	rf := newRefl(r.a, e)
	rf.ifaces = []types.Type{r.attrI}
	rf.report = func(st *State, in ssa.Instruction, format string, args ...any) {
		e.report(st, "reflect", in, "%s, for attributes of kind %s: "+format, append([]any{shortType(t), s.kind}, args...)...)
	}
	for i, pr := range fn.Params {
		if i > 0 || !isPtr(pr.Type()) {
			_ = i
		}
		switch {
		case isReflValue(pr.Type()):
			v = intern(OSym, "the field", 0, 0, pr.Type(), nil, nil)
			reflValueT = pr.Type()
		case isIfaceType(pr.Type()) && i > 0:
			attr = intern(OSym, "the received value", 0, 0, pr.Type(), nil, nil)
		}
	}
	if !r.a.anchor(attr != nil && v != nil, "the received value and the field of "+fn.String()) {
		return
	}
	e.persistent[attr], e.persistent[v] = true, true
	attrM := r.attrI.Underlying().(*types.Interface).Method(0).Name()
	e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
		if isSub(c) {
			for _, x := range c.args {
				if x.op == OCall && strings.HasPrefix(x.s, "r") && isReflValue(x.t) || x == v {
					r.a.count("obligations checked", 1)
					if !st.knownTrue(rf.valid(st, x)) || !st.knownTrue(rf.settable(st, x)) {
						e.report(st, "reflect", c.instr, "an attribute decoder is given a value that may be empty or not settable")
					}
				}
			}
			return []Outcome{{res: e.freshRes(st, c)}}, true
		}
		if c.method != nil && c.method.Name() == attrM && c.recv != nil {
			x := c.recv
			if x.op == OCall && x.s == "riface" {
				r.a.count("obligations checked", 1)
				ok := !rf.kindMay(st, rf.vtype(x.a[0]), reflect.Pointer) || st.knownFalse(rf.isNil(st, x.a[0]))
				if !ok {
					e.report(st, "reflect", c.instr, "an attribute is decoded into a pointer that may be nil")
				}
			}
			return []Outcome{{res: e.freshRes(st, c)}}, true
		}
		return rf.Call(st, c)
	}
	args := make([]*Term, len(fn.Params))
	for i, pr := range fn.Params {
		switch {
		case i > 0 && isReflValue(pr.Type()):
			args[i] = v
		case i > 0 && isIfaceType(pr.Type()):
			args[i] = attr
		}
	}
	root := e.addRoot(nil, fn, args, nil)
	vt := rf.vtype(v)
	root.assume(rf.valid(root, v), true)
	root.assume(rf.settable(root, v), true)
	root.assume(mkEq(rf.kind(vt), mkInt(int64(s.kind))), true)
	set := func(x *Term, b *bool) {
		if b != nil {
			root.assume(x, *b)
		}
	}
	iT := rf.static(r.attrI)
	set(rf.implements(vt, iT), s.impl)
	set(rf.implements(rf.ptrTo(vt), iT), s.pim)
	r.a.explore(e)
}

func (r *refl) kindMay(st *State, t *Term, k reflect.Kind) bool {
	for _, x := range r.kindsOf(st, t) {
		if x == k {
			return true
		}
	}
	return false
}

// attrTypes explores the attribute types that decode themselves.
func (r *inputRun) attrTypes() {
	m := r.attrI.Underlying().(*types.Interface).Method(0).Name()
	n := 0
	for _, t := range r.p.implementers(r.attrI) {
		fn := r.p.method(t, m)
		if fn == nil || fn.Blocks == nil || len(fn.Params) != 2 {
			continue
		}
		n++
		var attr *Term
		e := r.engine(shortType(t), func(st *State, x *Term) bool { return x.mentions(attr) }, "", "encoding")
		rf := newRefl(r.a, e)
		rf.report = func(st *State, in ssa.Instruction, format string, args ...any) {
			e.report(st, "reflect", in, format, args...)
		}
		e.h.Call = rf.Call
		root := e.addRoot(nil, fn, nil, nil)
		attr = root.top().env[fn.Params[1]]
		root.assume(mkEq(root.top().env[fn.Params[0]], TNil), false)
		r.a.explore(e)
	}
	r.a.anchor(n >= 1, "an attribute type that decodes itself")
}

// consumers explores the loops that receive messages.
func (r *inputRun) consumers() {
	dT, cT, mT := r.p.typ("eventsource", "Discovery"), r.p.typ("eventsource", "Client"), r.p.typ("eventsource", "Manager")
	if !r.a.anchor(dT != nil && cT != nil && mT != nil, "eventsource.Discovery, Client and Manager") {
		return
	}
	roots := receivingRoots(r.p)
	for _, fn := range []*ssa.Function{r.p.method(types.NewPointer(dT), "NewWatchClient")} {
		r.a.anchor(fn != nil, "Discovery.NewWatchClient")
		roots = append(roots, fn)
	}
	r.a.anchor(len(roots) >= 4, "loops receiving messages in the discovery, the client and the manager")
	for _, fn := range roots {
		if fn == nil {
			continue
		}
		isMsg := func(t *Term) bool {
			for _, s := range t.syms {
				if s.op == OSym && (strings.HasPrefix(s.s, "received") || strings.HasPrefix(s.s, "decoded") || strings.HasPrefix(s.s, "nullable")) {
					return true
				}
			}
			return false
		}
		var handlers *Term
		received := 0
		e := r.engine(fn.Name(), func(st *State, t *Term) bool {
			return isMsg(t) || handlers != nil && t.mentions(handlers)
		}, "eventsource", "")
		e.h.Go = goAll
		e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
			if o, done := r.decodeCall(st, c); done {
				return o, done
			}
			if c.fn != nil && isMsgDecoder(c.fn) {
				r.a.count("obligations checked", 1)
				if !st.knownNonNil(c.args[0]) {
					e.report(st, "crash", c.instr, "a message that may be nil is decoded")
				}
				return nil, false
			}
			if c.res != nil && c.res.Len() == 2 && isAmqp(derefType(c.res.At(0).Type()), "Message") {
				received++
				m := st.sym("received", c.instr, c.ctx, 0, c.res.At(0).Type())
				symSites[m] = symSite{c.instr, c.ctx}
				err := st.sym("ret:err", c.instr, c.ctx, 1, c.res.At(1).Type())
				symSites[err] = symSite{c.instr, c.ctx}
				return []Outcome{
					{res: []*Term{m, TNil}, mod: func(s *State) bool { return s.assume(mkEq(m, TNil), false) }},
					{res: []*Term{TNil, err}, mod: func(s *State) bool { return s.assume(mkEq(err, TNil), false) }},
				}, true
			}
			// nothing may have been stored yet
			if strings.HasPrefix(c.name, "(*sync/atomic.Pointer).") && c.fn != nil && c.fn.Name() == "Load" {
				v := st.sym("nullable", c.instr, c.ctx, 0, c.res.At(0).Type())
				symSites[v] = symSite{c.instr, c.ctx}
				return []Outcome{{res: []*Term{v}}}, true
			}
			// methods of pointers that are nil
			if c.fn != nil && c.fn.Signature.Recv() != nil && len(c.args) > 0 && isPtr(c.fn.Signature.Recv().Type()) {
				r.a.count("obligations checked", 1)
				if st.knownNil(c.args[0]) {
					e.report(st, "crash", c.instr, "%s is called with a nil receiver", c.name)
				}
			}
			return nil, false
		}
		prev := e.h.Opaque
		e.h.Opaque = func(f *ssa.Function) bool { return isMsgDecoder(f) || prev(f) }
		root := e.addRoot(nil, fn, nil, nil)
		for _, pr := range fn.Params {
			if s := structOf(pr.Type()); s != nil {
				for i := 0; i < s.NumFields(); i++ {
					if _, ok := s.Field(i).Type().Underlying().(*types.Signature); ok {
						handlers = root.top().env[pr]
					}
				}
			}
		}
		r.a.explore(e)
		if fn.Name() != "NewWatchClient" {
			r.a.anchor(received > 0, "reception of messages in "+fn.String())
		}
	}
}

// receivingRoots lists the exported functions and goroutines of the event
// source package that receive messages.
func receivingRoots(p *Program) []*ssa.Function {
	pk := p.repoPkg("eventsource")
	if pk == nil {
		return nil
	}
	var all []*ssa.Function
	for _, fn := range p.funcs {
		if fn.Blocks != nil && pkgPath(fn) == pk.Pkg.Path() && fn.Synthetic == "" {
			all = append(all, fn)
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].Pos() < all[j].Pos() })
	callees := func(fn *ssa.Function) (sync, async []*ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := c.Common().StaticCallee()
				if f == nil {
					continue
				}
				if _, ok := in.(*ssa.Go); ok {
					async = append(async, f)
				} else {
					sync = append(sync, f)
				}
			}
		}
		return
	}
	reach := map[*ssa.Function]bool{}
	for _, fn := range all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					if rs := c.Common().Signature().Results(); rs.Len() == 2 && isAmqp(derefType(rs.At(0).Type()), "Message") {
						reach[fn] = true
					}
				}
			}
		}
	}
	for again := true; again; {
		again = false
		for _, fn := range all {
			sync, _ := callees(fn)
			for _, f := range sync {
				if reach[f] && !reach[fn] {
					reach[fn], again = true, true
				}
			}
		}
	}
	var out []*ssa.Function
	add := func(fn *ssa.Function) {
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		for _, x := range out {
			if x == fn {
				return
			}
		}
		out = append(out, fn)
	}
	called := map[*ssa.Function]bool{}
	for _, fn := range all {
		sync, _ := callees(fn)
		for _, f := range sync {
			called[f] = true
		}
	}
	for _, fn := range all {
		if reach[fn] && (fn.Object() != nil && fn.Object().Exported() || !called[fn] && fn.Parent() == nil) {
			add(fn)
		}
		_, async := callees(fn)
		for _, f := range async {
			if reach[f] {
				add(f)
			}
		}
	}
	return out
}

func anyTerm(ts []*Term, f func(*Term) bool) bool {
	for _, t := range ts {
		if f(t) {
			return true
		}
	}
	return false
}

func isSliceT(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}
