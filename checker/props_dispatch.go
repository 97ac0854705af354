package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C26", "path-sensitive dataflow of the routing key from registration to dispatch, typestate of one traversal of the message's records",
		"RegisterStore, NewDispatcher and Dispatch are explored with arbitrary registries and messages; the key a store is registered under and the key a record is looked up by must be the same function of the record's type, and every step of the traversal must hand the record to what was found, once",
		runDispatch)
}

type dispatchRun struct {
	a       *Analysis
	p       *Program
	e       *Engine
	regT    types.Type // registry
	dspT    types.Type
	regMap  int
	dspMap  int
	dspSrc  int
	regKey  *Term // key of a store as a function of typemeta(hole)
	typeRec types.Type
}

func mapFieldWith(t types.Type, method string) int {
	ss := structOf(t)
	if ss == nil {
		return -1
	}
	for i := 0; i < ss.NumFields(); i++ {
		m, ok := ss.Field(i).Type().Underlying().(*types.Map)
		if !ok {
			continue
		}
		if it, ok := m.Elem().Underlying().(*types.Interface); ok {
			for j := 0; j < it.NumMethods(); j++ {
				if it.Method(j).Name() == method {
					return i
				}
			}
		}
	}
	return -1
}

func runDispatch(a *Analysis) {
	p := a.program()
	d := &dispatchRun{a: a, p: p, regT: p.typ("store", "DispatchRegistry"), dspT: p.typ("store", "Dispatcher"), typeRec: p.typ("", "Record")}
	if !a.anchor(d.regT != nil && d.dspT != nil && d.typeRec != nil, "store.DispatchRegistry, store.Dispatcher, vanflow.Record") {
		return
	}
	d.regMap, d.dspMap, d.dspSrc = mapFieldWith(d.regT, "Accumulate"), mapFieldWith(d.dspT, "Accumulate"), -1
	if ds := structOf(d.dspT); ds != nil {
		for i := 0; i < ds.NumFields(); i++ {
			if types.Identical(ds.Field(i).Type(), p.typ("store", "SourceRef")) {
				d.dspSrc = i
			}
		}
	}
	if !a.anchor(d.regMap >= 0 && d.dspMap >= 0 && d.dspSrc >= 0, "the stores by type of the registry and the dispatcher, and the dispatcher's source") {
		return
	}
	a.rule("RegisterStore keeps the store under a key made of the record's whole type, in a usable map, and forgets no other store")
	a.rule("NewDispatcher gives a dispatcher the source and a copy of the whole registry that shares no map with it")
	a.rule("Dispatch goes through all records in order; each is handed once to the store registered under its type's key, with the dispatcher's source, and to nothing if there is none; a failure does not end the traversal")
	d.register()
	d.create()
	d.dispatch()
}

func (d *dispatchRun) engine() *Engine {
	e := newEngine(d.p)
	followOnly(e, "store", "")
	return e
}

func (d *dispatchRun) methodOf(t types.Type, name string) *ssa.Function {
	for _, x := range []types.Type{t, types.NewPointer(t)} {
		if f := d.p.method(x, name); f != nil && f.Blocks != nil && f.Synthetic == "" {
			return f
		}
	}
	return nil
}

func typemetaOf(rec *Term, t types.Type) *Term {
	return intern(OCall, "typemeta", 0, 0, t, nil, nil, rec)
}

// common gives GetTypeMeta a name.
func (d *dispatchRun) common(st *State, c *Call) ([]Outcome, bool) {
	if c.method != nil && c.method.Name() == "GetTypeMeta" && c.recv != nil {
		return []Outcome{{res: []*Term{typemetaOf(unwrapIface(c.recv), c.res.At(0).Type())}}}, true
	}
	return nil, false
}

func (d *dispatchRun) hole() *Term {
	return intern(OSym, "the record", 0, 0, d.typeRec, nil, nil)
}

func keyFn(k, rec, hole *Term) *Term { return substTerm(k, rec, hole, map[*Term]*Term{}) }

func (d *dispatchRun) register() {
	fn := d.methodOf(d.regT, "RegisterStore")
	if !d.a.anchor(fn != nil && len(fn.Params) == 3, "DispatchRegistry.RegisterStore(record, store)") {
		return
	}
	e := d.engine()
	d.e = e
	e.h.Call = d.common
	var self, rec, stor *Term
	ss := structOf(d.regT)
	e.h.MapUpdate = func(st *State, m, k, v *Term, in ssa.Instruction) {
		if m.t == nil || !sameMap(m.t, ss.Field(d.regMap).Type()) {
			return
		}
		d.a.count("obligations checked", 1)
		if v == stor {
			st.addTo("registered", tupleOf(m, k))
		} else if m.op != OAlloc {
			e.report(st, "register", in, "something other than the store given is registered")
		}
	}
	e.h.MapDelete = func(st *State, m, k *Term, in ssa.Instruction) {
		if m.t != nil && sameMap(m.t, ss.Field(d.regMap).Type()) {
			e.report(st, "register", in, "a registered store is removed")
		}
	}
	e.h.Oblig = func(st *State, kind string, t, arg *Term, in ssa.Instruction) {
		if kind == "mapupdate" && t.t != nil && sameMap(t.t, ss.Field(d.regMap).Type()) {
			d.a.count("obligations checked", 1)
			if !st.knownNonNil(t) {
				e.report(st, "nil-map", in, "the registry's map may be nil when a store is registered")
			}
		}
	}
	e.h.Exit = func(st *State, res []*Term) {
		d.a.count("obligations checked", 1)
		regs := st.list("registered")
		if len(regs) != 1 {
			e.report(st, "register", nil, "the store is registered %d times", len(regs))
			return
		}
		m, k := regs[0].a[0], regs[0].a[1]
		cur := st.peek(mkFieldAddr(self, d.regMap, ss), ss.Field(d.regMap).Type())
		if cur != m {
			e.report(st, "register", nil, "the store is registered in a map that is not the registry's")
		}
		old := intern(OLoad, "", 0, 0, ss.Field(d.regMap).Type(), nil, nil, mkFieldAddr(self, d.regMap, ss))
		if m.op == OAlloc && !st.knownNil(old) {
			// a copy of what was there?
			c := st.heap[mkContent(m)]
			if !(c != nil && isSeq(c) && c.s == "seq:all" && seqBound(c).op == OCall && seqBound(c).a[0] == old && strip(c.a[2]) == mkLookup(old, mkBeta(c.a[1]), c.a[2].t)) && !st.knownTrue(mkEq(st.mapLen(old), mkInt(0))) {
				e.report(st, "register", nil, "stores registered before may be lost")
			}
		}
		tm := d.p.typ("", "TypeMeta")
		key := keyFn(k, rec, d.hole())
		whole := typemetaOf(d.hole(), tm)
		if !contains(key, whole) {
			e.report(st, "register-key", nil, "stores are registered under %s, which is not made of the record's type", k)
			return
		}
		if ts := structOf(tm); ts != nil {
			used := map[int]bool{}
			all := usesFields(key, whole, used)
			for i := 0; i < ts.NumFields() && !all; i++ {
				if !used[i] {
					e.report(st, "register-key", nil, "the key a store is registered under leaves out %s of the record's type", ts.Field(i).Name())
				}
			}
		}
		if d.regKey == nil {
			d.regKey = key
		} else if d.regKey != key {
			e.report(st, "register-key", nil, "stores are registered under different kinds of keys")
		}
	}
	root := e.addRoot(nil, fn, nil, nil)
	self, rec, stor = root.top().env[fn.Params[0]], root.top().env[fn.Params[1]], root.top().env[fn.Params[2]]
	d.a.explore(e)
}

// usesFields: how a value enters a term; true if as a whole.
func usesFields(t, v *Term, used map[int]bool) bool {
	whole := false
	var walk func(x *Term)
	walk = func(x *Term) {
		if x == v {
			whole = true
			return
		}
		if x.op == OField && x.a[0] == v {
			used[x.idx] = true
			return
		}
		for _, a := range x.a {
			walk(a)
		}
	}
	walk(t)
	return whole
}

func (d *dispatchRun) create() {
	fn := d.methodOf(d.regT, "NewDispatcher")
	if !d.a.anchor(fn != nil && len(fn.Params) == 2, "DispatchRegistry.NewDispatcher(source)") {
		return
	}
	e := d.engine()
	e.h.Call = d.common
	rs, ds := structOf(d.regT), structOf(d.dspT)
	var self, src *Term
	e.h.Exit = func(st *State, res []*Term) {
		if len(res) != 1 {
			return
		}
		d.a.count("obligations checked", 1)
		v := unwrapIface(res[0])
		part := func(i int) *Term {
			if isPtr(fn.Signature.Results().At(0).Type()) {
				return st.peek(mkFieldAddr(v, i, ds), ds.Field(i).Type())
			}
			return mkField(v, i, ds)
		}
		if part(d.dspSrc) != src {
			e.report(st, "source", nil, "the dispatcher does not have the source it is created for")
		}
		var reg *Term
		if isPtr(fn.Params[0].Type()) {
			reg = st.peek(mkFieldAddr(self, d.regMap, rs), rs.Field(d.regMap).Type())
		} else {
			reg = mkField(self, d.regMap, rs)
		}
		m := part(d.dspMap)
		if m == reg || strip(m) == reg {
			e.report(st, "shared", nil, "the dispatcher shares the registry's map: stores registered later change it")
			return
		}
		none := st.knownNil(reg) || st.knownTrue(mkEq(st.mapLen(reg), mkInt(0)))
		if c := st.heap[mkContent(m)]; c != nil && isSeq(c) && c.s == "seq:all" && c.a[0] == TNil {
			b := seqBound(c)
			if b.op == OCall && b.s == "keys" && b.a[0] == reg && strip(c.a[2]).op == OLookup && strip(c.a[2]).a[0] == reg && strip(c.a[2]).a[1] == mkBeta(c.a[1]) {
				return
			}
		}
		if none && (m == TNil || st.knownNil(m) || st.heap[mkMapFull(m)] != nil && st.knownTrue(mkEq(st.mapLen(m), mkInt(0)))) {
			return
		}
		e.report(st, "copy", nil, "the dispatcher is not known to have every store of the registry under its key")
	}
	root := e.addRoot(nil, fn, nil, nil)
	self, src = root.top().env[fn.Params[0]], root.top().env[fn.Params[1]]
	d.a.explore(e)
}

func (d *dispatchRun) dispatch() {
	fn := d.methodOf(d.dspT, "Dispatch")
	if !d.a.anchor(fn != nil && len(fn.Params) == 2, "Dispatcher.Dispatch(message)") {
		return
	}
	e := d.engine()
	ds := structOf(d.dspT)
	var self, msg, recs *Term
	field := func(st *State, i int) *Term {
		if isPtr(fn.Params[0].Type()) {
			return st.peek(mkFieldAddr(self, i, ds), ds.Field(i).Type())
		}
		return mkField(self, i, ds)
	}
	// traversal of the records in progress
	at := func(st *State) *loopSt {
		for _, f := range st.frames {
			for i := range f.loops {
				l := &f.loops[i]
				if l.mode == 1 && l.bound == mkLen(recs) {
					return l
				}
			}
		}
		return nil
	}
	elem := func(st *State, l *loopSt) *Term {
		if l == nil || l.idx == nil {
			return nil
		}
		return st.loadElem(recs, l.idx, d.typeRec)
	}
	isAcc := func(st *State, m *Term) bool { return m == field(st, d.dspMap) }
	e.h.MapRead = func(st *State, m, k *Term, in ssa.Instruction) {
		if !isAcc(st, m) {
			return
		}
		st.set("key", k)
	}
	e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
		if o, done := d.common(st, c); done {
			return o, done
		}
		if c.method == nil || c.method.Name() != "Accumulate" || c.recv == nil {
			return nil, false
		}
		d.a.count("obligations checked", 1)
		l := at(st)
		rec := elem(st, l)
		if rec == nil {
			e.report(st, "order", c.instr, "a record is handed to a store outside of the traversal of the message's records")
			return okOrErr(e, st, c, nil), true
		}
		if unwrapIface(c.args[len(c.args)-1]) != rec {
			e.report(st, "other-record", c.instr, "something other than the record at hand is given to the store")
		}
		if len(c.args) < 2 || c.args[len(c.args)-2] != field(st, d.dspSrc) {
			e.report(st, "source", c.instr, "the store is not given the dispatcher's source")
		}
		k := st.get("key")
		if r := strip(c.recv); k == nil || r.op != OLookup || !isAcc(st, r.a[0]) || r.a[1] != k {
			e.report(st, "route", c.instr, "the record is not handed to the store found for its key")
		}
		st.setNum("handed", st.num("handed")+1)
		return okOrErr(e, st, c, nil), true
	}
	e.h.Go = func(st *State, c *Call) bool {
		e.report(st, "order", c.instr, "a goroutine is started while dispatching: records may reach their stores out of order")
		return false
	}
	e.h.LoopEnter = func(st *State, l *LoopEv) {
		if l.st.mode == 1 && l.st.bound == mkLen(recs) {
			if !l.st.exact {
				e.report(st, "order", l.loop.header.Instrs[0], "not all records are gone through")
			}
			st.setNum("traversals", st.num("traversals")+1)
		}
	}
	e.h.LoopIter = func(st *State, l *LoopEv) bool {
		if l.st.mode == 1 && l.st.bound == mkLen(recs) {
			st.set("key", nil)
			st.setNum("handed", 0)
		}
		return true
	}
	e.h.LoopBack = func(st *State, l *LoopEv) {
		if l.st.mode != 1 || l.st.bound != mkLen(recs) {
			return
		}
		d.a.count("obligations checked", 1)
		in := l.loop.header.Instrs[0]
		rec := elem(st, l.st)
		k, n := st.get("key"), st.num("handed")
		switch {
		case rec != nil && st.knownNil(rec) && n == 0:
		case k == nil:
			e.report(st, "route", in, "a record is passed over without looking for its store")
		case d.regKey == nil || keyFn(k, rec, d.hole()) != d.regKey:
			e.report(st, "route", in, "the store is looked for under %s, which is not the key it is registered under", k)
		default:
			m := field(st, d.dspMap)
			found := st.mapGet(m, k, ds.Field(d.dspMap).Type().Underlying().(*types.Map).Elem())
			val := mkLookup(m, k, ds.Field(d.dspMap).Type().Underlying().(*types.Map).Elem())
			switch {
			case n > 1:
				e.report(st, "twice", in, "a record is handed to its store %d times", n)
			case n == 0 && !(found == TAbs || st.knownNil(val)):
				e.report(st, "skipped", in, "a record is not handed to the store registered for its type")
			}
		}
		st.set("key", nil)
		st.setNum("handed", 0)
	}
	e.h.LoopBreak = func(st *State, l *LoopEv) {
		if l.st.mode == 1 && l.st.bound == mkLen(recs) {
			e.report(st, "left", l.loop.header.Instrs[0], "the traversal of the records is left before its end")
		}
	}
	e.h.Exit = func(st *State, res []*Term) {
		d.a.count("obligations checked", 1)
		if st.num("traversals") != 1 && !st.knownTrue(mkEq(mkLen(recs), mkInt(0))) {
			e.report(st, "order", nil, "the message's records are gone through %d times", st.num("traversals"))
		}
		if at(st) != nil {
			e.report(st, "left", nil, "Dispatch returns before all records were gone through")
		}
	}
	root := e.addRoot(nil, fn, nil, nil)
	self, msg = root.top().env[fn.Params[0]], root.top().env[fn.Params[1]]
	ms := structOf(derefType(fn.Params[1].Type()))
	for i := 0; ms != nil && i < ms.NumFields(); i++ {
		if sl, ok := ms.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), d.typeRec) {
			if isPtr(fn.Params[1].Type()) {
				recs = root.peek(mkFieldAddr(msg, i, ms), ms.Field(i).Type())
			} else {
				recs = mkField(msg, i, ms)
			}
		}
	}
	if !d.a.anchor(recs != nil, "the records of the message given to Dispatch") {
		return
	}
	d.a.explore(e)
}
