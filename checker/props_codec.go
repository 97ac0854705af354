package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", "type-level check of the record structs and constant propagation through package initialisation and the type metadata methods, against the protocol's record table",
		"Package initialisation is interpreted abstractly to find every registration; struct tags and field types of every registered type are compared with the protocol's table, and the result of GetTypeMeta and Identity is computed for each type the library can decode",
		runC01)
	register("C05", "path-sensitive value-flow and range analysis of the timestamp attribute's encoder and decoder",
		"Every path of EncodeRecordAttribute and DecodeRecordAttribute of the time type is explored with an arbitrary instant or received value; order facts between instants and the microsecond count decide whether a conversion can wrap and whether a refusal is justified",
		runC05)
	register("C04", "value-flow analysis by abstract interpretation of the message encoders and decoders against the protocol's envelope table",
		"Encode of every message type and the decoders are explored with arbitrary messages; each property, application property and record is followed from the field to its place in the message and back, including the traversals of record batches",
		runC04)
}

type attrSpec struct {
	name string
	code uint32
	wire string
}

// the record types of the protocol: code, type, attributes besides the base
// attributes 1 (identity), 3 and 4 (times)
var wireTable = []struct {
	code  uint32
	typ   string
	attrs string
}{
	{0, "SiteRecord", "Location 9 string,Provider 10 string,Platform 11 string,Namespace 12 string,Name 30 string,Version 52 string,Policy 53 string"},
	{1, "RouterRecord", "Parent 2 string,Namespace 12 string,Mode 13 string,ImageName 20 string,ImageVersion 21 string,Hostname 22 string,Name 30 string,BuildVersion 32 string"},
	{2, "LinkRecord", "Parent 2 string,Mode 13 string,Name 30 string,LinkCost 33 uint64,Direction 34 string"},
	{3, "ControllerRecord", "Parent 2 string,ImageName 20 string,ImageVersion 21 string,Hostname 22 string,Name 30 string,BuildVersion 32 string"},
	{4, "ListenerRecord", "Parent 2 string,DestHost 15 string,Protocol 16 string,DestPort 18 string,Address 19 string,FlowCountL4 40 uint64,FlowCountL7 41 uint64,FlowRateL4 42 uint64,FlowRateL7 43 uint64"},
	{5, "ConnectorRecord", "Parent 2 string,DestHost 15 string,Protocol 16 string,DestPort 18 string,Address 19 string,FlowCountL4 40 uint64,FlowCountL7 41 uint64,FlowRateL4 42 uint64,FlowRateL7 43 uint64"},
	{6, "FlowRecord", "Parent 2 string,Counterflow 5 string,SourceHost 14 string,SourcePort 17 string,Octets 23 uint64,Latency 24 uint64,Reason 29 string,Trace 31 string,OctetRate 35 uint64,OctetsOut 36 uint64,OctetsUnacked 37 uint64,WindowClosures 38 uint64,WindowSize 39 uint64,Method 27 string,Result 28 string"},
	{7, "ProcessRecord", "Parent 2 string,Mode 13 string,SourceHost 14 string,ImageName 20 string,ImageVersion 21 string,Hostname 22 string,Name 30 string,Group 46 string"},
	{8, "ImageRecord", ""},
	{9, "IngressRecord", ""},
	{10, "EgressRecord", ""},
	{11, "CollectorRecord", ""},
	{12, "ProcessGroupRecord", ""},
	{13, "HostRecord", "Provider 10 string,Name 30 string"},
	{14, "LogRecord", "LogSeverity 48 uint64,LogText 49 string,SourceFile 50 string,SourceLine 51 uint64"},
}

const baseAttrs = "ID 1 required,StartTime 3 time,EndTime 4 time"

func parseAttrs(s string) []attrSpec {
	var out []attrSpec
	for _, f := range strings.Split(s, ",") {
		if f == "" {
			continue
		}
		var a attrSpec
		fmt.Sscanf(f, "%s %d %s", &a.name, &a.code, &a.wire)
		out = append(out, a)
	}
	return out
}

type taggedField struct {
	name     string
	code     uint32
	required bool
	wire     string
	ptr      bool
	path     []int
}

// taggedFields reads the attributes a struct declares, embedded structs included.
func taggedFields(t types.Type, path []int) (out []taggedField, bad []string) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, []string{"is not a struct"}
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		p := append(append([]int(nil), path...), i)
		if f.Anonymous() {
			if _, ok := f.Type().Underlying().(*types.Struct); ok {
				o, b := taggedFields(f.Type(), p)
				out, bad = append(out, o...), append(bad, b...)
			}
			continue
		}
		tag := reflect.StructTag(s.Tag(i)).Get("vflow")
		if tag == "" {
			continue
		}
		if !f.Exported() {
			bad = append(bad, fmt.Sprintf("attribute field %s is not exported", f.Name()))
			continue
		}
		code, opt, _ := strings.Cut(tag, ",")
		n, err := strconv.ParseUint(code, 10, 32)
		if err != nil {
			bad = append(bad, fmt.Sprintf("tag %q of field %s", tag, f.Name()))
			continue
		}
		ft := f.Type()
		tf := taggedField{name: f.Name(), code: uint32(n), required: opt == "required", path: p}
		if pt, ok := ft.(*types.Pointer); ok {
			ft, tf.ptr = pt.Elem(), true
		}
		switch {
		case hasMethod(ft, "EncodeRecordAttribute") && hasMethod(ft, "DecodeRecordAttribute"):
			tf.wire = "time"
			if structOf(ft) == nil {
				tf.wire = typeKey(ft)
			}
		default:
			tf.wire = typeKey(ft)
		}
		out = append(out, tf)
	}
	return out, bad
}

const encPkg = modPath + "/encoding"

func runC01(a *Analysis) {
	p := a.program()
	root := p.repoPkg("")
	if !a.anchor(root != nil && root.Func("init") != nil, "the root package's initialisation") {
		return
	}
	a.rule("each record type of the protocol is registered exactly once, under its own record code")
	a.rule("each attribute of a record type is declared once, by a pointer to (or for the required identity: a value of) its protocol value type, under its protocol attribute code")
	a.rule("*T and the record interface: every registered type has Identity and GetTypeMeta, which return attribute 1 and flow/v1/<type name>")
	regs := map[uint32][]types.Type{}
	e := newEngine(p)
	e.unroll = 128
	followOnly(e, "")
	e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
		if c.name != encPkg+".MustRegisterRecord" {
			return nil, false
		}
		a.count("registrations", 1)
		code, rec := c.args[0], c.args[1]
		// registration from a table
		if k := strip(code); k.op == OSym || k.op == OLoad || k.op == OLookup {
			if st.tableRegs(k, rec, regs) {
				return []Outcome{{}}, true
			}
		}
		n, ok := strip(code).intVal()
		if !ok || rec.op != OIface {
			e.undecided(st, c.instr, "a record type is registered with a code or type that is not known: %s, %s", code, rec)
			return []Outcome{{}}, true
		}
		regs[uint32(n)] = append(regs[uint32(n)], derefType(rec.t))
		return []Outcome{{}}, true
	}
	e.addRoot(nil, root.Func("init"), nil, nil)
	a.explore(e)
	for _, fn := range p.funcs {
		if pkgPath(fn) == root.Pkg.Path() || pkgPath(fn) == encPkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil && f.String() == encPkg+".MustRegisterRecord" {
						a.violate(p, "register", in.Pos(), fn.String(), "a record type is registered outside of the protocol package")
					}
				}
			}
		}
	}
	recT := p.typ("", "Record")
	if !a.anchor(recT != nil, "vanflow.Record") {
		return
	}
	recI := recT.Underlying().(*types.Interface)
	want := map[uint32]string{}
	for _, w := range wireTable {
		want[w.code] = w.typ
		a.count("obligations checked", 1)
		ts := uniqTypes(regs[w.code])
		t := p.typ("", w.typ)
		if t == nil {
			a.violate(p, "register", 0, w.typ, "the protocol's record type %s does not exist", w.typ)
			continue
		}
		pos := root.Pkg.Scope().Lookup(w.typ).Pos()
		switch {
		case len(ts) == 0:
			a.violate(p, "register", pos, w.typ, "no record type is registered under code %d (%s)", w.code, w.typ)
		case len(ts) > 1 || !types.Identical(ts[0], t):
			a.violate(p, "register", pos, w.typ, "%s is registered under code %d of %s", typeKey(ts[len(ts)-1]), w.code, w.typ)
		}
		for c, l := range regs {
			for _, x := range l {
				if c != w.code && types.Identical(x, t) {
					a.violate(p, "register", pos, w.typ, "%s is registered under code %d, its code is %d", w.typ, c, w.code)
				}
			}
		}
		fields, bad := taggedFields(t, nil)
		for _, b := range bad {
			a.violate(p, "attribute", pos, w.typ, "%s: %s", w.typ, b)
		}
		byCode := map[uint32]taggedField{}
		for _, f := range fields {
			if o, dup := byCode[f.code]; dup {
				a.violate(p, "attribute", pos, w.typ, "%s: %s and %s share attribute code %d", w.typ, o.name, f.name, f.code)
			}
			byCode[f.code] = f
		}
		for _, s := range append(parseAttrs(baseAttrs), parseAttrs(w.attrs)...) {
			a.count("obligations checked", 1)
			f, ok := byCode[s.code]
			switch {
			case !ok:
				a.violate(p, "attribute", pos, w.typ, "%s has no attribute %d (%s)", w.typ, s.code, s.name)
			case f.name != s.name:
				a.violate(p, "attribute", pos, w.typ, "%s: attribute code %d is used by %s, it belongs to %s", w.typ, s.code, f.name, s.name)
			case s.wire == "required":
				if !f.required || f.wire != "string" {
					a.violate(p, "attribute", pos, w.typ, "%s: the identity is not a required string", w.typ)
				}
			case f.wire != s.wire:
				a.violate(p, "attribute", pos, w.typ, "%s: attribute %s travels as %s, the protocol says %s", w.typ, s.name, f.wire, s.wire)
			case f.required || !f.ptr:
				a.violate(p, "attribute", pos, w.typ, "%s: attribute %s is not optional", w.typ, s.name)
			}
		}
	}
	var codes []int
	for c := range regs {
		codes = append(codes, int(c))
	}
	sort.Ints(codes)
	for _, c := range codes {
		for _, t := range uniqTypes(regs[uint32(c)]) {
			a.count("obligations checked", 1)
			n, ok := t.(*types.Named)
			if !ok {
				a.violate(p, "record", 0, typeKey(t), "%s can be decoded but is not a named record type", t)
				continue
			}
			pos := n.Obj().Pos()
			if !types.Implements(types.NewPointer(t), recI) {
				a.violate(p, "record", pos, n.Obj().Name(), "%s can be decoded but is not a Record: messages with it are refused", n.Obj().Name())
				continue
			}
			checkMeta(a, p, n)
		}
	}
}

// tableRegs resolves registrations made while going through a map literal.
func (st *State) tableRegs(k, rec *Term, regs map[uint32][]types.Type) bool {
	r := rec
	if r.op != OLookup && r.op != OSym {
		return false
	}
	n := 0
	for _, other := range []*Term{k, r} {
		_ = other
	}
	for key, v := range st.heap {
		if key.op != OMapElem {
			continue
		}
		c, ok := strip(key.a[1]).intVal()
		if !ok || v.op != OIface {
			continue
		}
		regs[uint32(c)] = append(regs[uint32(c)], derefType(v.t))
		n++
	}
	return n > 0
}

func uniqTypes(l []types.Type) []types.Type {
	var out []types.Type
	for _, t := range l {
		dup := false
		for _, o := range out {
			dup = dup || types.Identical(o, t)
		}
		if !dup {
			out = append(out, t)
		}
	}
	return out
}

// checkMeta computes what a type says about itself.
func checkMeta(a *Analysis, p *Program, n *types.Named) {
	pt := types.NewPointer(n)
	name := n.Obj().Name()
	for _, m := range []string{"GetTypeMeta", "Identity"} {
		fn := p.method(pt, m)
		if fn == nil {
			a.violate(p, "record", n.Obj().Pos(), name, "%s of %s not found", m, name)
			continue
		}
		e := newEngine(p)
		followOnly(e, "")
		var self *Term
		e.h.Exit = func(st *State, res []*Term) {
			a.count("obligations checked", 1)
			if len(res) != 1 {
				return
			}
			if m == "GetTypeMeta" {
				ms := structOf(res[0].t)
				if ms == nil {
					return
				}
				got := map[string]string{}
				for i := 0; i < ms.NumFields(); i++ {
					s, ok := mkField(res[0], i, ms).strVal()
					if !ok {
						s = "?"
					}
					got[ms.Field(i).Name()] = s
				}
				if got["APIVersion"] != "flow/v1" || got["Type"] != name {
					e.report(st, "type-name", nil, "%s calls itself %s/%s", name, got["APIVersion"], got["Type"])
				}
				return
			}
			fields, _ := taggedFields(n, nil)
			for _, f := range fields {
				if f.code != 1 {
					continue
				}
				addr, t := self, types.Type(n)
				for _, i := range f.path {
					s := structOf(t)
					addr, t = mkFieldAddr(addr, i, s), s.Field(i).Type()
				}
				if res[0] != st.peek(addr, t) {
					e.report(st, "identity", nil, "Identity of %s is not its attribute 1", name)
				}
			}
		}
		root := e.addRoot(nil, fn, nil, nil)
		self = root.top().env[fn.Params[0]]
		if !isPtr(fn.Params[0].Type()) {
			// a value method: through its own copy
			self = nil
		}
		if self == nil {
			e.work = nil
			obj := intern(OSym, "record", 0, 0, pt, nil, nil)
			st := newState(e)
			st.assume(mkEq(obj, TNil), false)
			root = e.addRoot(st, fn, []*Term{st.peek(obj, n)}, nil)
			self = obj
		} else {
			root.assume(mkEq(self, TNil), false)
		}
		a.explore(e)
	}
}

// ---- C05 ----

func mkInstant(t *Term) *Term {
	return intern(OCall, "instant", 0, 0, types.Typ[types.Int], nil, nil, t)
}

func runC05(a *Analysis) {
	p := a.program()
	a.rule("a time is encoded as uint64(UnixMicro) only where it is known to be neither zero, nor before the epoch, nor outside of the range UnixMicro is defined for")
	a.rule("a zero time is reported as not set; no other time is, and only times that have no unsigned microsecond count are refused")
	a.rule("a received value is turned into time.UnixMicro of it only where it is known to be a uint64 of at most 2^63-1; every such value is accepted")
	found := 0
	for _, pk := range p.pkgs {
		if pk.PkgPath != modPath {
			continue
		}
		sc := pk.Types.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok || !hasMethod(tn.Type(), "EncodeRecordAttribute") && !hasMethod(tn.Type(), "DecodeRecordAttribute") {
				continue
			}
			if _, isI := tn.Type().Underlying().(*types.Interface); isI {
				continue
			}
			found++
			c05encode(a, p, tn.Type())
			c05decode(a, p, tn.Type())
		}
	}
	a.anchor(found > 0, "a timestamp attribute type")
}

// timeOf finds the instant inside a value of the attribute's type.
func timeOf(v *Term, t types.Type) *Term {
	if typeIs(t, "time.Time") {
		return v
	}
	s := structOf(t)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if typeIs(s.Field(i).Type(), "time.Time") {
			return mkField(v, i, s)
		}
	}
	return nil
}

const maxInt64 = int64(^uint64(0) >> 1)

func c05encode(a *Analysis, p *Program, t types.Type) {
	fn := p.method(t, "EncodeRecordAttribute")
	if fn == nil {
		fn = p.method(types.NewPointer(t), "EncodeRecordAttribute")
	}
	if !a.anchor(fn != nil, "EncodeRecordAttribute of "+typeKey(t)) {
		return
	}
	e := newEngine(p)
	followOnly(e, "", "encoding")
	var inst *Term
	consts := map[int64]bool{0: true, maxInt64: true, -maxInt64 - 1: true}
	num := func(x *Term) *Term { // time.UnixMicro(k)
		return mkInstant(x)
	}
	bound := func(k int64) *Term {
		return num(intern(OCall, "time.UnixMicro", 0, 0, inst.t, nil, nil, mkInt64(k)))
	}
	e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
		args := make([]*Term, len(c.args))
		for i, x := range c.args {
			args[i] = sameInstant(x)
			if args[i].op == OCall && args[i].s == "time.UnixMicro" {
				if k, ok := strip(args[i].a[0]).intVal(); ok {
					consts[k] = true
					args[i] = intern(OCall, "time.UnixMicro", 0, 0, inst.t, nil, nil, mkInt64(k))
				}
			}
		}
		one := func(t *Term) ([]Outcome, bool) { return []Outcome{{res: []*Term{t}}}, true }
		switch c.name {
		case "(time.Time).Before":
			return one(mkLt(num(args[0]), num(args[1]), types.Typ[types.Int]))
		case "(time.Time).After":
			return one(mkLt(num(args[1]), num(args[0]), types.Typ[types.Int]))
		case "(time.Time).Equal":
			return one(mkEq(num(args[0]), num(args[1])))
		case "(time.Time).IsZero":
			return one(mkEq(num(args[0]), num(zeroOf(inst.t))))
		case "(time.Time).UnixMicro", "(time.Time).Unix", "(time.Time).UnixNano", "(time.Time).UnixMilli", "(time.Time).Nanosecond", "(time.Time).Year":
			return one(intern(OCall, c.name, 0, 0, c.res.At(0).Type(), nil, nil, args...))
		}
		return nil, false
	}
	e.h.Exit = func(st *State, res []*Term) {
		if len(res) != 2 {
			return
		}
		a.count("obligations checked", 1)
		v, err := res[0], res[1]
		isZero := mkEq(num(inst), num(zeroOf(inst.t)))
		micro := intern(OCall, "(time.Time).UnixMicro", 0, 0, types.Typ[types.Int64], nil, nil, inst)
		sec := intern(OCall, "(time.Time).Unix", 0, 0, types.Typ[types.Int64], nil, nil, inst)
		iv := st.ivals2(sec)
		notBelow, notAbove, below, above := false, false, false, false // the range of UnixMicro
		early, late, nonNeg := false, false, false
		const lim = maxInt64 / 1000000
		if iv.lo >= -lim {
			notBelow = true
		}
		if iv.hi < lim {
			notAbove = true
		}
		if iv.lo >= 0 {
			nonNeg = true
		}
		if iv.hi < 0 {
			early = true
		}
		if iv.lo > lim {
			late = true
		}
		for k := range consts {
			if st.knownFalse(mkLt(num(inst), bound(k), types.Typ[types.Int])) {
				notBelow = true
				if k >= 0 {
					nonNeg = true
				}
				if k == maxInt64 {
					_ = k
				}
			}
			if st.knownFalse(mkLt(bound(k), num(inst), types.Typ[types.Int])) {
				notAbove = true
			}
			if st.knownTrue(mkLt(num(inst), bound(k), types.Typ[types.Int])) && k <= 0 {
				below, early = true, true
			}
			if st.knownTrue(mkLt(bound(k), num(inst), types.Typ[types.Int])) && k == maxInt64 {
				above, late = true, true
			}
		}
		_, _ = below, above
		if notBelow && notAbove {
			mi := st.ivals2(micro)
			if mi.lo >= 0 {
				nonNeg = true
			}
			if mi.hi < 0 {
				early = true
			}
		}
		notSet := isNotSet(st, err)
		switch {
		case st.knownNil(err):
			if v.op == OIface && v.t != nil && typeKey(v.t) != "uint64" {
				e.report(st, "encode", nil, "a time is sent as %s", v.t)
				return
			}
			if v.op != OIface || strip(v) != micro {
				e.report(st, "encode", nil, "the value sent for a time is %s, not its count of microseconds", v)
				return
			}
			if !st.knownFalse(isZero) {
				e.report(st, "encode-zero", nil, "a zero time may be sent as a value")
			}
			if !notBelow || !notAbove {
				e.report(st, "encode-wrap", nil, "a time outside of the range of microsecond counts may be sent as another time")
			} else if !nonNeg {
				e.report(st, "encode-early", nil, "a time before the epoch may be sent as a wrapped count")
			}
		case notSet:
			if !st.knownTrue(isZero) {
				e.report(st, "encode-unset", nil, "a time that is not zero may be left out")
			}
		default:
			if !st.knownFalse(isZero) {
				e.report(st, "encode-zero", nil, "a zero time may be reported as an error instead of as not set")
			}
			if !early && !late {
				e.report(st, "encode-refuse", nil, "a time that can be sent may be refused")
			}
		}
	}
	root := e.addRoot(nil, fn, nil, nil)
	self := root.top().env[fn.Params[0]]
	if isPtr(fn.Params[0].Type()) {
		root.assume(mkEq(self, TNil), false)
		self = root.peek(self, t)
	}
	inst = timeOf(self, t)
	if !a.anchor(inst != nil, "the instant in "+typeKey(t)) {
		return
	}
	a.explore(e)
}

func mkInt64(k int64) *Term { return mkInt(k) }

// sameInstant removes conversions between locations.
func sameInstant(x *Term) *Term {
	for x.op == OCall {
		switch x.s {
		case "(time.Time).UTC", "(time.Time).Local", "(time.Time).In":
			x = x.a[0]
			continue
		}
		break
	}
	return x
}

// isMicros: a time is x microseconds after the epoch.
func isMicros(got, x *Term) bool {
	if got == nil || got.op != OCall {
		return false
	}
	by := func(t *Term, op string, k int64) *Term {
		if t.op == OBin && t.s == op {
			if c, ok := strip(t.a[1]).intVal(); ok && c == k {
				return strip(t.a[0])
			}
		}
		return nil
	}
	switch got.s {
	case "time.UnixMicro":
		return strip(got.a[0]) == x
	case "time.Unix": // whole seconds, and the rest in nanoseconds
		rest := by(strip(got.a[1]), "*", 1000)
		return rest != nil && by(strip(got.a[0]), "/", 1_000_000) == x && by(rest, "%", 1_000_000) == x
	}
	return false
}

// isNotSet: the error says that the attribute is not set.
func isNotSet(st *State, err *Term) bool {
	if err.op == OIface {
		s, ok := err.a[0].strVal()
		return ok && s == "record attribute not set"
	}
	if err.op == OWrap {
		for _, w := range err.a {
			if isNotSet(st, w) {
				return true
			}
		}
	}
	return false
}

func (st *State) ivals2(x *Term) ival { return st.ivalOf(x) }

func c05decode(a *Analysis, p *Program, t types.Type) {
	fn := p.method(types.NewPointer(t), "DecodeRecordAttribute")
	if !a.anchor(fn != nil && len(fn.Params) == 2, "DecodeRecordAttribute of "+typeKey(t)) {
		return
	}
	e := newEngine(p)
	followOnly(e, "", "encoding")
	var self, attr *Term
	e.h.Oblig = func(st *State, kind string, x, arg *Term, in ssa.Instruction) {
		if kind == "assert" {
			a.count("obligations checked", 1)
			if !st.knownTrue(arg) {
				e.report(st, "decode-type", in, "a received value of another type panics")
			}
		}
	}
	e.h.Exit = func(st *State, res []*Term) {
		if len(res) != 1 {
			return
		}
		a.count("obligations checked", 1)
		u64 := types.Typ[types.Uint64]
		ok := mkTAOk(attr, u64)
		x := intern(OTA, shortType(u64), 0, 0, u64, nil, nil, attr)
		big := mkLt(mkInt(maxInt64), x, u64)
		isU := st.evalBool(ok)
		tooBig := st.knownTrue(big) || isU == TTrue && st.ivalOf(x).lo > maxInt64-1 && false
		fits := st.knownFalse(big)
		if !fits {
			// compared after conversion: negative means too large
			cx := e.convert(x, u64, types.Typ[types.Int64])
			neg := mkLt(cx, mkInt(0), types.Typ[types.Int64])
			fits = fits || st.knownFalse(neg)
			tooBig = tooBig || st.knownTrue(neg)
		}
		if !st.knownNil(res[0]) {
			if !(isU == TFalse || tooBig || st.knownNil(attr)) {
				e.report(st, "decode-refuse", nil, "a valid count of microseconds may be refused")
			}
			return
		}
		if isU != TTrue {
			e.report(st, "decode-type", nil, "a value that is not a uint64 may be taken for a timestamp")
			return
		}
		got := timeOf(st.peek(self, t), t)
		if got != nil {
			got = sameInstant(got)
		}
		if !isMicros(got, x) {
			e.report(st, "decode", nil, "a received count of microseconds is turned into %s", got)
			return
		}
		if !fits {
			e.report(st, "decode-wrap", nil, "a count too large for a time may be turned into another time")
		}
	}
	root := e.addRoot(nil, fn, nil, nil)
	self, attr = root.top().env[fn.Params[0]], root.top().env[fn.Params[1]]
	root.assume(mkEq(self, TNil), false)
	a.explore(e)
}

// ---- C04 ----

type envField struct{ prop, field, typ string }

type envelope struct {
	typ, subject, decode string
	to                   string // "" for the field To, otherwise a literal prefix
	toField              string
	replyTo              bool
	props                []envField
}

var envelopes = []envelope{
	{typ: "BeaconMessage", subject: "BEACON", decode: "DecodeBeacon", to: "mc/sfe.all", props: []envField{{"v", "Version", "uint32"}, {"sourceType", "SourceType", "string"}, {"address", "Address", "string"}, {"direct", "Direct", "string"}, {"id", "Identity", "string"}}},
	{typ: "HeartbeatMessage", subject: "HEARTBEAT", decode: "DecodeHeartbeat", to: "mc/sfe.", toField: "Identity", props: []envField{{"v", "Version", "uint32"}, {"now", "Now", "uint64"}, {"id", "Identity", "string"}}},
	{typ: "FlushMessage", subject: "FLUSH", decode: "DecodeFlush", toField: "To", replyTo: true},
	{typ: "RecordMessage", subject: "RECORD", decode: "DecodeRecord", toField: "To"},
}

func basicNamed(n string) types.Type { return types.Universe.Lookup(n).Type() }

// fieldByName finds a possibly promoted field of a struct value.
func fieldByName(v *Term, t types.Type, name string) *Term {
	s := structOf(t)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return mkField(v, i, s)
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Anonymous() {
			if f := fieldByName(mkField(v, i, s), s.Field(i).Type(), name); f != nil {
				return f
			}
		}
	}
	return nil
}

// partOf reads a field of the object at an address.
func (st *State) partOf(addr *Term, t types.Type, name string) *Term {
	s := structOf(t)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return st.peek(mkFieldAddr(addr, i, s), s.Field(i).Type())
		}
	}
	return nil
}

func runC04(a *Analysis) {
	p := a.program()
	a.rule("every message type is encoded with its protocol subject, destination and application properties, each holding the field it stands for with its protocol type")
	a.rule("every field of a decoded message is what the message carries in that place if it is there with the protocol type, otherwise its zero value")
	a.rule("Decode dispatches on the subject alone and refuses every other subject")
	a.rule("record messages: the traversal of the records is complete and in order on both sides, each element is encoded or decoded once, and a failure ends it with an error")
	for i := range envelopes {
		env := &envelopes[i]
		t := p.typ("", env.typ)
		if !a.anchor(t != nil, env.typ) {
			continue
		}
		c04encode(a, p, env, t)
		c04decode(a, p, env, t)
	}
	c04dispatch(a, p)
}

func c04encode(a *Analysis, p *Program, env *envelope, t types.Type) {
	fn := p.method(t, "Encode")
	if fn == nil {
		fn = p.method(types.NewPointer(t), "Encode")
	}
	if !a.anchor(fn != nil, "Encode of "+env.typ) {
		return
	}
	e := newEngine(p)
	followOnly(e, "")
	var self *Term
	isRec := env.subject == "RECORD"
	recs := func() *Term { return fieldByName(self, t, "Records") }
	e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
		if c.name != encPkg+".Encode" {
			return nil, false
		}
		// what a record is encoded to
		v := mkCoded("encoded", unwrapIface(c.args[0]))
		err := intern(OCall, "encode error", 0, 0, errType(), nil, nil, unwrapIface(c.args[0]))
		return []Outcome{
			{res: []*Term{v, TNil}, mod: func(s *State) bool {
				return s.assume(mkEq(err, TNil), true) && s.assume(mkEq(v, TNil), false)
			}},
			{res: []*Term{mkCoded("partial", unwrapIface(c.args[0])), err}, mod: func(s *State) bool { return s.assume(mkEq(err, TNil), false) }},
		}, true
	}
	e.h.Exit = func(st *State, res []*Term) {
		a.count("obligations checked", 1)
		if isRec && len(res) == 2 {
			if !st.knownNil(res[1]) {
				if !st.knownNonNil(res[1]) {
					e.report(st, "encode", nil, "%s: an error may be lost", env.typ)
				}
				return
			}
		}
		msg := res[0]
		mt := derefType(fn.Signature.Results().At(0).Type())
		pr := st.partOf(msg, mt, "Properties")
		if pr == nil || st.knownNil(pr) || !isPtr(pr.t) {
			e.report(st, "encode-properties", nil, "%s is encoded without properties", env.typ)
			return
		}
		pt := derefType(pr.t)
		str := func(n string) *Term {
			x := st.partOf(pr, pt, n)
			if x == nil || x == TNil || st.knownNil(x) {
				return nil
			}
			return st.peek(x, types.Typ[types.String])
		}
		if s := str("Subject"); s != mkStr(env.subject) {
			e.report(st, "encode-subject", nil, "%s is encoded with subject %s", env.typ, s)
		}
		want := mkStr(env.to)
		if env.toField != "" {
			want = mkCat(mkStr(env.to), fieldByName(self, t, env.toField))
		}
		if s := str("To"); s != want {
			e.report(st, "encode-to", nil, "%s is encoded with destination %s, not %s", env.typ, s, want)
		}
		if env.replyTo {
			a.count("obligations checked", 1)
			if s := str("ReplyTo"); s != fieldByName(self, t, "ReplyTo") {
				e.report(st, "encode-reply", nil, "%s is encoded with reply address %s", env.typ, s)
			}
		}
		ap := st.partOf(msg, mt, "ApplicationProperties")
		for _, f := range env.props {
			a.count("obligations checked", 1)
			var v *Term
			if ap != nil && !st.knownNil(ap) {
				v = st.mapGet(ap, mkStr(f.prop), ap.t.Underlying().(*types.Map).Elem())
			}
			src := fieldByName(self, t, f.field)
			if v == nil || v.op != OIface || v.a[0] != src || typeKey(v.t) != f.typ {
				e.report(st, "encode-property", nil, "%s: property %s is %s, not %s as %s", env.typ, f.prop, v, f.field, f.typ)
			}
		}
		if isRec {
			val := st.partOf(msg, mt, "Value")
			c04batch(e, st, env, val, recs(), func(x *Term) *Term {
				return mkCoded("encoded", unwrapIface(x))
			}, "encoded")
		}
	}
	root := e.addRoot(nil, fn, nil, nil)
	self = root.top().env[fn.Params[0]]
	if isPtr(fn.Params[0].Type()) {
		root.assume(mkEq(self, TNil), false)
		self = root.peek(self, t)
	}
	a.explore(e)
}

var anySlice = types.NewSlice(types.NewInterfaceType(nil, nil))
var anyMap = types.NewMap(types.NewInterfaceType(nil, nil), types.NewInterfaceType(nil, nil))

func mkCoded(kind string, x *Term) *Term {
	t := types.Type(anyMap)
	if kind == "decoded" {
		t = types.NewInterfaceType(nil, nil)
	}
	return intern(OCall, kind, 0, 0, t, nil, nil, x)
}

// c04batch: val holds one element per element of src, in order.
func c04batch(e *Engine, st *State, env *envelope, val, src *Term, f func(*Term) *Term, kind string) {
	e.count("obligations checked")
	val = unwrapIface(val)
	empty := st.knownTrue(mkEq(mkLen(src), mkInt(0))) || st.knownNil(src)
	n := mkLen(val)
	if n == mkInt(0) && empty || empty && (val == TNil || st.knownNil(val) || st.knownTrue(mkEq(n, mkInt(0)))) {
		return
	}
	bound, el, i := st.seqView(val)
	if bound == nil {
		e.report(st, "batch", nil, "%s: it is not known that every record is %s, in order (%s)", env.typ, kind, val)
		return
	}
	if bound != mkLen(src) {
		e.report(st, "batch", nil, "%s: not every record is %s", env.typ, kind)
		return
	}
	want := f(st.loadElem(src, i, src.t.Underlying().(*types.Slice).Elem()))
	if unwrapIface(el) != unwrapIface(want) {
		e.report(st, "batch", nil, "%s: a record is %s as %s, not as %s", env.typ, kind, el, want)
	}
}

func c04decode(a *Analysis, p *Program, env *envelope, t types.Type) {
	fn := p.fn("", env.decode)
	if !a.anchor(fn != nil && len(fn.Params) == 1, env.decode) {
		return
	}
	e := newEngine(p)
	followOnly(e, "")
	c04hook(a, e)
	var msg *Term
	e.h.Exit = func(st *State, res []*Term) {
		if env.subject == "RECORD" && !st.knownNil(res[1]) {
			if !st.knownNonNil(res[1]) {
				e.report(st, "decode", nil, "%s: an error may be lost", env.typ)
			}
			return
		}
		c04fields(a, e, st, env, t, msg, res[0])
	}
	root := e.addRoot(nil, fn, nil, nil)
	msg = root.top().env[fn.Params[0]]
	root.assume(mkEq(msg, TNil), false)
	a.explore(e)
}

func c04hook(a *Analysis, e *Engine) {
	e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
		if c.name != encPkg+".Decode" {
			return nil, false
		}
		v := mkCoded("decoded", c.args[0])
		err := intern(OCall, "decode error", 0, 0, errType(), nil, nil, c.args[0])
		return []Outcome{
			{res: []*Term{v, TNil}, mod: func(s *State) bool {
				return s.assume(mkEq(err, TNil), true) && s.assume(mkEq(v, TNil), false)
			}},
			{res: []*Term{TNil, err}, mod: func(s *State) bool { return s.assume(mkEq(err, TNil), false) }},
		}, true
	}
}

func c04fields(a *Analysis, e *Engine, st *State, env *envelope, t types.Type, msg, res *Term) {
	a.count("obligations checked", 1)
	mt := derefType(msg.t)
	pr := st.partOf(msg, mt, "Properties")
	ap := st.partOf(msg, mt, "ApplicationProperties")
	if pr == nil || ap == nil {
		a.anchor(false, "the sections of an AMQP message")
		return
	}
	reads := []string{"To", "Subject"}
	if env.replyTo {
		reads = append(reads, "ReplyTo")
	}
	for _, n := range []string{"To", "Subject", "ReplyTo"} {
		a.count("obligations checked", 1)
		got := fieldByName(res, t, n)
		must := inStrings(reads, n)
		if st.knownNil(pr) {
			if got != mkStr("") {
				e.report(st, "decode-property", nil, "%s: %s is %s for a message without properties", env.typ, n, got)
			}
			continue
		}
		ptr := st.partOf(pr, derefType(pr.t), n)
		want := st.peek(ptr, types.Typ[types.String])
		switch {
		case got == want:
		case got == mkStr("") && (st.knownNil(ptr) || !must):
		case st.knownTrue(mkEq(got, want)):
		default:
			e.report(st, "decode-property", nil, "%s: %s is %s, not the message's", env.typ, n, got)
		}
	}
	for _, f := range env.props {
		a.count("obligations checked", 1)
		ft := basicNamed(f.typ)
		got := fieldByName(res, t, f.field)
		raw := mkLookup(ap, mkStr(f.prop), ap.t.Underlying().(*types.Map).Elem())
		okT := mkTAOk(raw, ft)
		val := intern(OTA, shortType(ft), 0, 0, ft, nil, nil, raw)
		switch {
		case got == val:
		case got == zeroOf(ft) && (st.knownFalse(okT) || st.knownNil(ap) || st.knownFalse(mkLookupOk(ap, mkStr(f.prop))) || st.knownNil(raw)):
		default:
			e.report(st, "decode-property", nil, "%s: %s is %s, not property %s as %s", env.typ, f.field, got, f.prop, f.typ)
		}
	}
	if env.subject != "RECORD" {
		return
	}
	raw := st.partOf(msg, mt, "Value")
	anyT := types.NewSlice(types.NewInterfaceType(nil, nil))
	if st.evalBool(mkTAOk(raw, anyT)) != TTrue {
		e.report(st, "decode-body", nil, "%s: a message whose body is not a list may be taken for one", env.typ)
		return
	}
	list := intern(OTA, shortType(anyT), 0, 0, anyT, nil, nil, raw)
	mapT := types.NewMap(types.NewInterfaceType(nil, nil), types.NewInterfaceType(nil, nil))
	c04batch(e, st, env, fieldByName(res, t, "Records"), list, func(x *Term) *Term {
		m := intern(OTA, shortType(mapT), 0, 0, mapT, nil, nil, x)
		return mkCoded("decoded", m)
	}, "decoded")
}

func inStrings(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func c04dispatch(a *Analysis, p *Program) {
	fn := p.fn("", "Decode")
	if !a.anchor(fn != nil && len(fn.Params) == 1, "vanflow.Decode") {
		return
	}
	e := newEngine(p)
	followOnly(e, "")
	c04hook(a, e)
	var msg *Term
	seen := map[string]bool{}
	e.h.Exit = func(st *State, res []*Term) {
		if len(res) != 2 {
			return
		}
		a.count("obligations checked", 1)
		mt := derefType(msg.t)
		pr := st.partOf(msg, mt, "Properties")
		var subj *Term
		if !st.knownNil(msg) && !st.knownNil(pr) {
			if x := st.partOf(pr, derefType(pr.t), "Subject"); !st.knownNil(x) {
				subj = st.peek(x, types.Typ[types.String])
			}
		}
		var env *envelope
		maybe := false
		for i := range envelopes {
			if subj == nil {
				break
			}
			switch st.evalBool(mkEq(subj, mkStr(envelopes[i].subject))) {
			case TTrue:
				env = &envelopes[i]
			case TFalse:
			default:
				maybe = true
			}
		}
		if env == nil {
			if maybe && st.knownNonNil(res[1]) {
				e.report(st, "dispatch", nil, "a message may be refused although its subject is known")
			}
			if !st.knownNonNil(res[1]) {
				e.report(st, "dispatch", nil, "a message is decoded without its subject naming its kind")
			}
			return
		}
		t := p.typ("", env.typ)
		seen[env.subject] = true
		if !st.knownNil(res[1]) && env.subject == "RECORD" {
			return
		}
		if !st.knownNil(res[1]) {
			e.report(st, "dispatch", nil, "a %s message is refused", env.subject)
			return
		}
		if res[0].op != OIface || !types.Identical(res[0].t, t) {
			e.report(st, "dispatch", nil, "a %s message is decoded as %s", env.subject, res[0].t)
			return
		}
		c04fields(a, e, st, env, t, msg, res[0].a[0])
	}
	root := e.addRoot(nil, fn, nil, nil)
	msg = root.top().env[fn.Params[0]]
	a.explore(e)
	for _, env := range envelopes {
		a.anchor(seen[env.subject], "the decoding of "+env.subject+" messages")
	}
}
