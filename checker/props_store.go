package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21", "path-sensitive dataflow through the critical sections of the store: facts about the looked-up version at the write, freshness of versions, agreement of the ETag codec",
		"Every store operation is explored from an arbitrary state; a write to the entries needs the write lock, the condition established by a lookup in the same critical section, a version from a counter that only grows, and the entry the caller passed",
		func(a *Analysis) { runStore(a, "C21") })
	register("C22", "abstract interpretation of index maintenance as nested universal traversals tied to the entry change of the same critical section",
		"Every critical section that changes entries must remove the key from every index value of the previous entry and add it for every index value of the new one, for all indexers, before the lock is released; queries must traverse all index values and all keys",
		func(a *Analysis) { runStore(a, "C22") })
	register("C23", "path-sensitive dataflow of attribute sets through the merge of a partial record",
		"Every path of Accumulate is explored with arbitrary attribute sets; the merge loop must leave every partial attribute in the set that is decoded, and everything else of the entry untouched",
		func(a *Analysis) { runStore(a, "C23") })
	register("C24", "path-sensitive typestate of entry changes and handler calls",
		"Every path of every store operation is explored; the changes made in the critical section are compared with the handler calls on that path, their arguments, and the locks held at them",
		func(a *Analysis) { runStore(a, "C24") })
}

// storeParts is what identifies the store's implementation, by type and role.
type storeParts struct {
	p         *Program
	ifaceT    types.Type
	entryT    types.Type
	ctor      *ssa.Function
	cacheT    types.Type
	storT     types.Type // struct with the lock and the entries
	items     int
	elemT     types.Type // struct stored per key
	res, ver  int
	counter   int
	indexers  int
	indices   int
	mutex     int
	handlersT types.Type
}

func sameMap(a, b types.Type) bool {
	if a == nil || b == nil {
		return false
	}
	x, ok := a.Underlying().(*types.Map)
	y, ok2 := b.Underlying().(*types.Map)
	return ok && ok2 && types.Identical(x, y)
}

func isIndexerFunc(t types.Type, entry types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	if !ok || s.Params().Len() != 1 || s.Results().Len() != 1 || !types.Identical(s.Params().At(0).Type(), entry) {
		return false
	}
	sl, ok := s.Results().At(0).Type().Underlying().(*types.Slice)
	return ok && isString(sl.Elem())
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isKeyFunc(t types.Type, entry types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Signature)
	return ok && s.Params().Len() == 1 && s.Results().Len() == 2 && types.Identical(s.Params().At(0).Type(), entry) &&
		isString(s.Results().At(0).Type()) && isErrorType(s.Results().At(1).Type())
}

func findStore(a *Analysis) *storeParts {
	p := a.program()
	s := &storeParts{p: p, ifaceT: p.typ("store", "Interface"), entryT: p.typ("store", "Entry"), ctor: p.fn("store", "NewDefaultCachingStore"), handlersT: p.typ("store", "EventHandlerFuncs")}
	if !a.anchor(s.ifaceT != nil && s.entryT != nil && s.ctor != nil && s.handlersT != nil, "store.Interface, Entry, EventHandlerFuncs and NewDefaultCachingStore") {
		return nil
	}
	s.cacheT = concreteResult(s.ctor, 0)
	if !a.anchor(s.cacheT != nil && structOf(derefType(s.cacheT)) != nil, "the store's implementation") {
		return nil
	}
	var cands []types.Type
	cands = append(cands, derefType(s.cacheT))
	cs := structOf(derefType(s.cacheT))
	for i := 0; i < cs.NumFields(); i++ {
		cands = append(cands, derefType(cs.Field(i).Type()))
	}
	for _, t := range cands {
		ss := structOf(t)
		if ss == nil {
			continue
		}
		s.items, s.indexers, s.indices, s.mutex, s.counter = -1, -1, -1, -1, -1
		for i := 0; i < ss.NumFields(); i++ {
			ft := ss.Field(i).Type()
			if isMutexType(ft) {
				s.mutex = i
			}
			m, ok := ft.Underlying().(*types.Map)
			if !ok {
				continue
			}
			if isIndexerFunc(m.Elem(), s.entryT) {
				s.indexers = i
				continue
			}
			if m2, ok := m.Elem().Underlying().(*types.Map); ok {
				if _, ok := m2.Elem().Underlying().(*types.Map); ok {
					s.indices = i
				}
				continue
			}
			if es := structOf(m.Elem()); es != nil {
				s.res, s.ver = -1, -1
				for j := 0; j < es.NumFields(); j++ {
					if types.Identical(es.Field(j).Type(), s.entryT) {
						s.res = j
					} else if isIntType(es.Field(j).Type()) {
						s.ver = j
					}
				}
				if s.res >= 0 && s.ver >= 0 {
					s.items, s.elemT = i, m.Elem()
				}
			}
		}
		if s.items < 0 {
			continue
		}
		vt := structOf(s.elemT).Field(s.ver).Type()
		for i := 0; i < ss.NumFields(); i++ {
			if types.Identical(ss.Field(i).Type(), vt) {
				s.counter = i
			}
		}
		s.storT = t
		break
	}
	if !a.anchor(s.storT != nil, "the struct holding the store's entries with their versions") {
		return nil
	}
	if !a.anchor(s.mutex >= 0 && s.indexers >= 0 && s.indices >= 0, "the lock, indexers and indices of the store") {
		return nil
	}
	return s
}

// storeOps are the operations of the interface.
func (s *storeParts) ops() []*ssa.Function {
	var out []*ssa.Function
	it := s.ifaceT.Underlying().(*types.Interface)
	for i := 0; i < it.NumMethods(); i++ {
		if f := s.p.method(s.cacheT, it.Method(i).Name()); f != nil {
			out = append(out, f)
		}
	}
	return out
}

func (s *storeParts) fieldOf(st *State, base *Term, i int) *Term {
	ss := structOf(s.storT)
	return st.peek(mkFieldAddr(base, i, ss), ss.Field(i).Type())
}

func (s *storeParts) isItems(t *Term) bool {
	return t.t != nil && sameMap(t.t, structOf(s.storT).Field(s.items).Type())
}

// base finds the storage a live entry or index map belongs to.
func (s *storeParts) base(t *Term) *Term {
	for t != nil {
		if t.op == OFieldAddr && sameNamed(t.a[0].t, s.storT) {
			return t.a[0]
		}
		if len(t.a) == 0 {
			return nil
		}
		switch t.op {
		case OLoad, OFieldAddr, OLookup, OConv, OField:
			t = t.a[0]
		default:
			return nil
		}
	}
	return nil
}

func (s *storeParts) resOf(v *Term) *Term { return mkField(v, s.res, structOf(s.elemT)) }
func (s *storeParts) verOf(v *Term) *Term { return mkField(v, s.ver, structOf(s.elemT)) }

// tokens: how values travel through the ETag and continue encodings.
// serial(order, v) are the bytes of v, enc(e, b) the text of b.
func tokenCall(e *Engine, st *State, c *Call) ([]Outcome, bool) {
	mk := func(name string, t types.Type, as ...*Term) *Term {
		return intern(OCall, name, 0, 0, t, nil, nil, as...)
	}
	res := func(i int) types.Type { return c.res.At(i).Type() }
	switch c.name {
	case "encoding/binary.Write":
		w := unwrapIface(c.args[0])
		v := c.args[2]
		k := "buf:" + w.String()
		if prev := st.get(k); prev != nil {
			st.set(k, mk("serial+", nil, prev, c.args[1], v))
		} else {
			st.set(k, mk("serial", nil, c.args[1], v))
		}
		return []Outcome{{res: []*Term{TNil}}}, true
	case "(*bytes.Buffer).Bytes":
		if v := st.get("buf:" + c.args[0].String()); v != nil {
			return []Outcome{{res: []*Term{v}}}, true
		}
	case "(*encoding/base64.Encoding).EncodeToString":
		return []Outcome{{res: []*Term{mk("enc", res(0), c.args[0], c.args[1])}}}, true
	case "(*encoding/base64.Encoding).DecodeString":
		err := st.sym("decodeerr", c.instr, c.ctx, 1, res(1))
		symSites[err] = symSite{c.instr, c.ctx}
		ok := mk("dec", res(0), c.args[0], c.args[1])
		return []Outcome{{res: []*Term{ok, TNil}}, {res: []*Term{mk("decbad", res(0), c.args[1]), err}, mod: func(s *State) bool {
			s.setFlag("tokenbad", true)
			return s.assume(mkEq(err, TNil), false)
		}}}, true
	case "bytes.NewReader", "bytes.NewBuffer", "strings.NewReader":
		r := mk("reader", res(0), c.args[0])
		st.facts[mkEq(r, TNil)] = false
		return []Outcome{{res: []*Term{r}}}, true
	case "encoding/binary.Read":
		r, ptr := unwrapIface(c.args[0]), unwrapIface(c.args[2])
		if r.op != OCall || r.s != "reader" || ptr.t == nil {
			return nil, false
		}
		t := derefType(ptr.t)
		v := mk("unserial:"+typeKey(t), t, c.args[1], r.a[0])
		err := st.sym("readerr", c.instr, c.ctx, 1, res(0))
		symSites[err] = symSite{c.instr, c.ctx}
		part := mk("partial:"+typeKey(t), t, c.args[1], r.a[0])
		return []Outcome{{res: []*Term{TNil}, mod: func(s *State) bool {
			s.store(ptr, v)
			s.set("token", v)
			return true
		}}, {res: []*Term{err}, mod: func(s *State) bool {
			s.store(ptr, part)
			s.setFlag("tokenbad", true)
			return s.assume(mkEq(err, TNil), false)
		}}}, true
	}
	return nil, false
}

// tokenOf splits an encoded text: encoding, byte order, value.
func tokenOf(x *Term) (enc, order, v *Term) {
	if x.op == OCall && x.s == "enc" && x.a[1].op == OCall && x.a[1].s == "serial" {
		return x.a[0], x.a[1].a[0], unwrapIface(x.a[1].a[1])
	}
	return nil, nil, nil
}

// tokenFrom splits a decoded value: encoding, byte order, text.
func tokenFrom(v *Term) (enc, order, text *Term) {
	if v.op == OCall && strings.HasPrefix(v.s, "unserial:") && v.a[1].op == OCall && v.a[1].s == "dec" {
		return v.a[1].a[0], v.a[0], v.a[1].a[1]
	}
	return nil, nil, nil
}

// storeRun is one exploration of store operations with all observers.
type storeRun struct {
	replIn ssa.Instruction // where the content was replaced
	a      *Analysis
	s      *storeParts
	e      *Engine
	prop   string
	op     string
	self   *Term
	params []*Term
	res    *types.Tuple
	plain  bool // no condition in the context
	etag   *Term
	seen   map[ssa.Instruction]bool
	ix     *indexObs
	issued func(tokT types.Type) (enc, order *Term, field int, ok bool)
}

func (r *storeRun) rep(prop string, st *State, rule string, in ssa.Instruction, format string, args ...any) {
	if prop == r.prop {
		r.e.report(st, rule, in, format, args...)
	}
}

func (r *storeRun) ob(prop string) {
	if prop == r.prop {
		r.a.count("obligations checked", 1)
	}
}

const (
	chNew = iota
	chMod
	chDel
	chSet // replaced as a whole
)

func chg(kind int, k, prev, next *Term) *Term {
	n := func(t *Term) *Term {
		if t == nil {
			return TNil
		}
		return t
	}
	return tupleOf(mkInt(int64(kind)), n(k), n(prev), n(next))
}

// entryEq compares entries, leaving out times of update.
func (s *storeParts) entryEq(st *State, x, y *Term, t types.Type, skip func(f *types.Var, path string) bool, path string) bool {
	if x == y {
		return true
	}
	if ss := structOf(t); ss != nil && !isTimeType(t) {
		for i := 0; i < ss.NumFields(); i++ {
			f := ss.Field(i)
			fp := path + "." + f.Name()
			if skip != nil && skip(f, fp) {
				continue
			}
			if !s.entryEq(st, mkField(x, i, ss), mkField(y, i, ss), f.Type(), skip, fp) {
				return false
			}
		}
		return true
	}
	return st.knownTrue(mkEq(x, y))
}

func isTimeType(t types.Type) bool { return typeIs(t, "time.Time") }

func skipUpdated(f *types.Var, path string) bool { return isTimeType(f.Type()) }

func (r *storeRun) lockedFor(st *State, base *Term, write bool) bool {
	n := st.locks[mkFieldAddr(base, r.s.mutex, structOf(r.s.storT))]
	if write {
		return n == -1
	}
	return n != 0
}

// current finds what is stored under a key now: TAbs, the value, or nil.
func (r *storeRun) current(st *State, m, k *Term) *Term {
	return st.mapGet(m, k, r.s.elemT)
}

func (r *storeRun) knownVersions(st *State, m, k *Term) {
	// versions given out are positive: the counter starts at zero and each
	// entry gets the value after an increment
	v := r.s.verOf(mkLookup(m, k, r.s.elemT))
	st.ivals[v] = ival{1, fullIval.hi}
}

func newStoreRun(a *Analysis, s *storeParts, prop, op string) *storeRun {
	r := &storeRun{a: a, s: s, prop: prop, op: op, seen: map[ssa.Instruction]bool{}}
	e := newEngine(s.p)
	r.e = e
	followOnly(e, "store", "store/internal")
	r.ix = &indexObs{r: r}
	ss := structOf(s.storT)
	ctrAddr := func(base *Term) *Term { return mkFieldAddr(base, s.counter, ss) }

	e.h.MapRead = func(st *State, m, k *Term, in ssa.Instruction) {
		if s.isItems(m) && s.base(m) != nil {
			r.knownVersions(st, m, k)
			if r.prop == "C22" && r.op == "Index" && r.ix.collected(st, k) {
				// what the update operations are judged by: every key listed in
				// an index is that of a stored entry
				st.assume(mkLookupOk(m, k), true)
			}
		}
	}
	e.h.MapUpdate = func(st *State, m, k, v *Term, in ssa.Instruction) {
		r.ix.mapUpdate(st, m, k, v, in)
		r.mergeUpdate(st, m, k, v, in)
		if !s.isItems(m) {
			if b := m.root(); b.op != OAlloc || st.facts[mkEscaped(b)] {
				return
			}
			// a map made here
			if m.t != nil && types.Identical(m.t.Underlying().(*types.Map).Elem(), s.entryT) {
				r.batchUpdate(st, m, k, v, in)
			}
			return
		}
		r.seen[in] = true
		b := s.base(m)
		var base *Term
		if b != nil {
			base = b
		} else {
			base = r.storage(st)
		}
		// the version given to the entry
		if s.counter >= 0 && base != nil {
			r.ob("C21")
			cur := st.peek(ctrAddr(base), ss.Field(s.counter).Type())
			if s.verOf(v) != cur || !st.flag("bumped") || !r.lockedFor(st, base, true) {
				r.rep("C21", st, "version-reused", in, "the entry is stored with version %s, which is not known to be one never given to an entry before", s.verOf(v))
			}
			st.setFlag("bumped", false)
		} else {
			r.rep("C21", st, "no-counter", in, "there is no counter that gives every stored entry a version of its own")
		}
		if b == nil {
			return // being built; judged when it becomes the store's content
		}
		r.ob("C21")
		if m != s.fieldOf(st, b, s.items) {
			r.rep("C21", st, "stale-map", in, "the entry is written to a map that is no longer the store's content")
		}
		if !r.lockedFor(st, b, true) {
			r.rep("C21", st, "unlocked-write", in, "entries are changed without holding the store's lock")
		}
		cur := r.current(st, m, k)
		kind := chMod
		var prev *Term
		switch {
		case cur == TAbs:
			kind = chNew
		case cur != nil:
			prev = s.resOf(cur)
		default:
			r.rep("C21", st, "blind-write", in, "an entry is overwritten without having been looked up in the same critical section")
			r.rep("C22", st, "blind-write", in, "an entry is overwritten without having been looked up in the same critical section, so its index values can not be removed")
			prev = s.resOf(mkLookup(m, k, s.elemT))
		}
		r.written(st, m, k, cur, v, kind, in)
		st.addTo("changes", chg(kind, k, prev, s.resOf(v)))
		r.ix.entrySet(st, k, prev, s.resOf(v))
	}
	e.h.MapDelete = func(st *State, m, k *Term, in ssa.Instruction) {
		r.ix.mapDelete(st, m, k, in)
		r.mergeDelete(st, m, k, in)
		if !s.isItems(m) {
			return
		}
		if k == nil {
			r.rep("C21", st, "cleared", in, "the store's content is cleared in place")
			return
		}
		r.seen[in] = true
		b := s.base(m)
		if b == nil {
			return
		}
		r.ob("C21")
		if !r.lockedFor(st, b, true) {
			r.rep("C21", st, "unlocked-write", in, "entries are deleted without holding the store's lock")
		}
		if r.op != "Delete" {
			r.rep("C21", st, "unexpected-delete", in, "%s deletes an entry", r.op)
		} else if k != st.get("K") {
			r.rep("C21", st, "wrong-key", in, "an entry is deleted under a key that is not the one of the entry given")
		}
		cur := r.current(st, m, k)
		if cur == TAbs {
			return
		}
		prev := s.resOf(mkLookup(m, k, s.elemT))
		if cur != nil {
			prev = s.resOf(cur)
		} else {
			r.rep("C22", st, "blind-delete", in, "an entry is deleted without having been looked up in the same critical section, so its index values can not be removed")
		}
		st.addTo("changes", chg(chDel, k, prev, nil))
		r.ix.entryGone(st, k, prev)
	}
	e.h.Store = func(st *State, addr, val *Term, in ssa.Instruction) {
		if addr.op != OFieldAddr || !sameNamed(addr.a[0].t, s.storT) {
			return
		}
		base := addr.a[0]
		fresh := base.op == OAlloc && !st.facts[mkEscaped(base)]
		switch addr.idx {
		case s.counter:
			if fresh {
				if k, ok := val.intVal(); !ok || k < 0 {
					r.rep("C21", st, "counter", in, "the version counter does not start at zero")
				}
				return
			}
			r.seen[in] = true
			r.ob("C21")
			old := st.peek(addr, ss.Field(s.counter).Type())
			b1, k1 := splitAdd(val)
			b0, k0 := splitAdd(old)
			if b1 == nil || b1 != b0 || k1 <= k0 {
				r.rep("C21", st, "counter", in, "the version counter is set to a value that is not known to be larger than all before")
			} else {
				st.setFlag("bumped", true)
			}
			if !r.lockedFor(st, base, true) {
				r.rep("C21", st, "unlocked-write", in, "the version counter is changed without the store's lock")
			}
		case s.items:
			r.seen[in] = true
			if fresh {
				if val.op != OAlloc || st.heap[mkMapFull(val)] == nil || !st.knownTrue(mkEq(st.mapLen(val), mkInt(0))) {
					r.rep("C21", st, "initial", in, "a new store does not start empty")
				}
				return
			}
			r.ob("C21")
			if !r.lockedFor(st, base, true) {
				r.rep("C21", st, "unlocked-write", in, "the content is replaced without holding the store's lock")
			}
			if r.op != "Replace" {
				r.rep("C21", st, "unexpected-replace", in, "%s replaces the content of the store", r.op)
			}
			st.set("newitems", tupleOf(base, val))
			r.replIn = in
			st.addTo("changes", chg(chSet, nil, nil, nil))
		case s.indices:
			if !fresh {
				r.ix.replaceIndices(st, base, val, in)
			}
		}
	}
	e.h.Unlock = func(st *State, mu *Term, write bool, in ssa.Instruction) {
		if mu.op == OFieldAddr && sameNamed(mu.a[0].t, s.storT) && mu.idx == s.mutex {
			if write {
				if n := st.get("newitems"); n != nil {
					r.replaced(st, n.a[0], n.a[1], r.replIn)
					st.set("newitems", nil)
				}
				r.ix.endSection(st, mu.a[0], in)
			}
		}
	}
	e.h.Lock = func(st *State, mu *Term, write bool, in ssa.Instruction) {
		if mu.op == OFieldAddr && sameNamed(mu.a[0].t, s.storT) {
			st.setFlag("bumped", false)
			r.ix.beginSection(st)
		}
	}
	e.h.Call = r.call
	e.h.LoopEnter = func(st *State, l *LoopEv) {
		r.ix.loopEnter(st, l)
		r.batchLoop(st, l, "enter")
		r.mergeLoop(st, l, "enter")
	}
	e.h.LoopIter = func(st *State, l *LoopEv) bool {
		r.ix.loopIter(st, l)
		r.batchLoop(st, l, "iter")
		r.mergeLoop(st, l, "iter")
		return true
	}
	e.h.LoopBack = func(st *State, l *LoopEv) {
		r.ix.loopBack(st, l)
		r.batchLoop(st, l, "back")
		r.mergeLoop(st, l, "back")
	}
	e.h.LoopDone = func(st *State, l *LoopEv) {
		r.ix.loopDone(st, l)
		r.batchLoop(st, l, "done")
		r.mergeLoop(st, l, "done")
	}
	e.h.LoopBreak = func(st *State, l *LoopEv) {
		r.ix.loopBreak(st, l)
		r.batchLoop(st, l, "break")
		r.mergeLoop(st, l, "break")
	}
	e.h.Go = func(st *State, c *Call) bool { return true }
	e.h.Oblig = r.oblig
	return r
}

// storage gives the storage of the store under analysis.
func (r *storeRun) storage(st *State) *Term {
	for m := range st.locks {
		if m.op == OFieldAddr && sameNamed(m.a[0].t, r.s.storT) {
			return m.a[0]
		}
	}
	return nil
}

// param gives the argument of the root of some type.
func (r *storeRun) param(t types.Type) *Term {
	for _, x := range r.params {
		if types.Identical(x.t, t) {
			return x
		}
	}
	return nil
}

// written judges a write to the live content against the operation.
func (r *storeRun) written(st *State, m, k, cur, v *Term, kind int, in ssa.Instruction) {
	s := r.s
	r.ob("C21")
	if n := len(st.list("changes")); n > 0 {
		r.rep("C21", st, "second-write", in, "%s writes a second time", r.op)
	}
	if k != st.get("K") {
		r.rep("C21", st, "wrong-key", in, "an entry is written under a key that is not the one of the entry given")
	}
	if st.flag("keyfailed") {
		r.rep("C21", st, "key-failed", in, "%s changes the store although no key could be determined", r.op)
	}
	obj := r.param(s.entryT)
	switch r.op {
	case "Add":
		r.ob("C21")
		if kind != chNew {
			r.rep("C21", st, "condition", in, "an entry is added under a key that is not known to be absent in this critical section")
		}
	case "Update":
		if r.plain {
			break
		}
		r.ob("C21")
		r.needVersion(st, cur, in)
	case "Accumulate":
		r.accumulated(st, cur, v, in)
		return
	default:
		r.rep("C21", st, "unexpected-write", in, "%s writes an entry", r.op)
		return
	}
	if obj == nil || !s.entryEq(st, s.resOf(v), obj, s.entryT, skipUpdated, "") {
		r.rep("C21", st, "other-entry", in, "the entry stored is not the one given")
	}
}

// needVersion: the looked-up entry has the version of the caller's ETag.
func (r *storeRun) needVersion(st *State, cur *Term, in ssa.Instruction) {
	tok := r.tokenVersion(st)
	if tok == nil {
		r.rep("C21", st, "condition", in, "the update is made without decoding the ETag in the context")
		return
	}
	if cur == nil || cur == TAbs {
		r.rep("C21", st, "condition", in, "an entry that is not stored is updated although an ETag was given")
		return
	}
	if !st.knownTrue(mkEq(r.s.verOf(cur), tok)) {
		r.rep("C21", st, "condition", in, "the entry is updated although its version is not known to be the one of the ETag at this point")
	}
}

// tokenVersion gives the version the decoded ETag stands for.
func (r *storeRun) tokenVersion(st *State) *Term {
	v := st.get("token")
	if v == nil || r.issued == nil {
		return nil
	}
	enc, order, text := tokenFrom(v)
	if text == nil || strip(text) != r.etag {
		return nil
	}
	we, wo, f, ok := r.issued(v.t)
	if !ok || we != enc || strip(wo) != strip(order) {
		return nil
	}
	return mkField(v, f, structOf(v.t))
}

func (r *storeRun) call(st *State, c *Call) ([]Outcome, bool) {
	s := r.s
	if o, done := tokenCall(r.e, st, c); done {
		if st.get("token") == nil {
			// a token given out stands for a positive version
			for i := range o {
				prev := o[i].mod
				o[i].mod = func(x *State) bool {
					if prev != nil && !prev(x) {
						return false
					}
					if t := r.tokenVersion(x); t != nil {
						x.ivals[t] = ival{1, fullIval.hi}
					}
					return true
				}
			}
		}
		return o, true
	}
	if c.fnval != nil && c.fnval.op != OCancel {
		t := c.fnval.t
		if t == nil {
			return nil, false
		}
		switch {
		case isKeyFunc(t, s.entryT):
			k := intern(OCall, "keyof", 0, 0, types.Typ[types.String], nil, nil, c.fnval, c.args[0])
			err := st.sym("keyerr", c.instr, c.ctx, 1, errType())
			symSites[err] = symSite{c.instr, c.ctx}
			return []Outcome{{res: []*Term{k, TNil}, mod: func(x *State) bool {
				r.keyed(x, c, k)
				return true
			}}, {res: []*Term{mkStr(""), err}, mod: func(x *State) bool {
				x.setFlag("keyfailed", true)
				return x.assume(mkEq(err, TNil), false)
			}}}, true
		case isIndexerFunc(t, s.entryT):
			v := intern(OCall, "indexvals", 0, 0, c.res.At(0).Type(), nil, nil, c.fnval, c.args[0])
			return []Outcome{{res: []*Term{v}}}, true
		}
		if f, ok := r.handlerField(c.fnval); ok {
			r.handlerCall(st, c, f)
			return []Outcome{{}}, true
		}
	}
	switch c.name {
	case "(context.Context).Value":
		if r.plain {
			return []Outcome{{res: []*Term{TNil}}}, true
		}
	}
	return r.mergeCall(st, c)
}

// keyed notes the key of the entry an operation was given.
func (r *storeRun) keyed(st *State, c *Call, k *Term) {
	s := r.s
	arg := c.args[0]
	switch r.op {
	case "Add", "Update", "Delete", "Get":
		if obj := r.param(s.entryT); obj != nil && s.entryEq(st, arg, obj, s.entryT, skipUpdated, "") {
			st.set("K", k)
		}
	case "Accumulate":
		rec, src := r.param(r.recordT()), r.param(r.sourceT())
		if rec != nil && src != nil && contains(arg, rec) && r.entryPart(arg, r.recordT()) == rec && r.entryPart(arg, r.sourceT()) == src {
			st.set("K", k)
		}
	}
	st.set("lastkey", k)
}

func (r *storeRun) recordT() types.Type { return r.s.p.typ("", "Record") }
func (r *storeRun) sourceT() types.Type { return r.s.p.typ("store", "SourceRef") }

// entryPart finds the part of an entry that has some type.
func (r *storeRun) entryPart(v *Term, t types.Type) *Term {
	return partOf(v, r.s.entryT, t)
}

func partOf(v *Term, vt, t types.Type) *Term {
	if types.Identical(vt, t) {
		return v
	}
	ss := structOf(vt)
	if ss == nil || isTimeType(vt) {
		return nil
	}
	for i := 0; i < ss.NumFields(); i++ {
		if x := partOf(mkField(v, i, ss), ss.Field(i).Type(), t); x != nil {
			return x
		}
	}
	return nil
}

// exit judges the end of an operation.
func (r *storeRun) exit(st *State, res []*Term) {
	s := r.s
	if res == nil {
		return // panics are judged elsewhere
	}
	ch := st.list("changes")
	var err *Term
	if n := len(res); n > 0 && isErrorType(res[n-1].typeOr(r.res, n-1)) {
		err = res[n-1]
	}
	r.ob("C21")
	if err != nil && !st.knownNil(err) && len(ch) > 0 {
		r.rep("C21", st, "failed-but-changed", nil, "%s reports a failure after having changed the store", r.op)
	}
	ok := err == nil || st.knownNil(err)
	failed := err != nil && st.knownNonNil(err)
	switch r.op {
	case "Add", "Update":
		if ok && len(ch) == 0 {
			r.rep("C21", st, "not-stored", nil, "%s succeeds without storing the entry", r.op)
		}
		if st.flag("keyfailed") && !failed {
			r.rep("C21", st, "not-reported", nil, "%s does not report that the key could not be determined", r.op)
		}
		if !ok && !st.flag("keyfailed") {
			r.ob("C21")
			cur := r.currentK(st)
			switch {
			case r.op == "Add" && cur != nil && cur != TAbs:
			case r.op == "Update" && !r.plain && (st.flag("tokenbad") || cur == TAbs):
			case r.op == "Update" && !r.plain && cur != nil && r.tokenVersion(st) != nil && st.knownFalse(mkEq(s.verOf(cur), r.tokenVersion(st))):
			default:
				r.rep("C21", st, "refused", nil, "%s can fail although its condition holds", r.op)
			}
		}
	case "Delete":
		if st.flag("keyfailed") && !failed {
			r.rep("C21", st, "not-reported", nil, "Delete does not report that the key could not be determined")
		}
		if ok && len(ch) == 0 && !st.flag("keyfailed") {
			if cur := r.currentK(st); cur != TAbs {
				r.rep("C21", st, "not-deleted", nil, "Delete succeeds although the entry may still be stored")
			}
		}
	case "Replace":
		if st.flag("keyfailed") && !failed {
			r.rep("C21", st, "not-reported", nil, "Replace does not report that a key could not be determined")
		}
		if ok && len(ch) != 1 {
			r.rep("C21", st, "not-replaced", nil, "Replace succeeds without having replaced the content")
		}
		if !ok && !st.flag("keyfailed") {
			r.rep("C21", st, "refused", nil, "Replace fails although every key is known")
		}
	}
	r.exitEvents(st, ok)
	r.exitMerge(st, res, ok, failed)
}

// typeOr gives a result's type.
func (t *Term) typeOr(res *types.Tuple, i int) types.Type {
	if res != nil && i < res.Len() {
		return res.At(i).Type()
	}
	return t.t
}

// currentK gives what was found under the operation's key.
func (r *storeRun) currentK(st *State) *Term {
	k := st.get("K")
	b := r.self
	if k == nil || b == nil {
		return nil
	}
	m := st.get("M")
	if m == nil {
		return nil
	}
	return r.current(st, m, k)
}

// batchUpdate: the entries given to Replace, by key.
func (r *storeRun) batchUpdate(st *State, m, k, v *Term, in ssa.Instruction) {
	if r.op != "Replace" {
		return
	}
	st.set("batch", m)
	// the entry at the traversal's position under its own key
	if st.get("lastkey") == k && k.op == OCall && k.s == "keyof" && k.a[1] == v && r.atElement(st, v) {
		st.setNum("batched", st.num("batched")+1)
	} else {
		r.rep("C21", st, "batch", in, "Replace stores something other than the entry given under its key")
	}
}

// atElement: the value is the element of the argument's traversal in progress.
func (r *storeRun) atElement(st *State, v *Term) bool {
	for _, p := range r.params {
		if v.op == OLoad && v.a[0].op == OIndexAddr && v.a[0].a[0] == p {
			for _, f := range st.frames {
				for i := range f.loops {
					if f.loops[i].idx != nil && f.loops[i].idx == v.a[0].a[1] {
						return true
					}
				}
			}
		}
	}
	return false
}

func (r *storeRun) batchLoop(st *State, l *LoopEv, ev string) {
	if r.op != "Replace" || l.st.mode != 1 || l.st.bound == nil || l.st.bound.op != OLen || !inTerms(r.params, l.st.bound.a[0]) {
		return
	}
	switch ev {
	case "enter":
		if l.st.exact {
			st.set("batchover", l.st.over)
		}
	case "iter":
		st.setNum("batched", 0)
		st.set("lastkey", nil)
	case "back":
		if st.num("batched") != 1 {
			st.setFlag("batchskip", true)
		}
		st.setNum("batched", 0)
		st.set("lastkey", nil)
	case "done":
		if st.get("batchover") == l.st.over && !st.flag("batchskip") {
			st.setFlag("batchall", true)
		}
	}
}

// replaced judges a map that becomes the store's content.
func (r *storeRun) replaced(st *State, base, val *Term, in ssa.Instruction) {
	r.ob("C21")
	src := r.sourceOf(st, val)
	if src == nil {
		r.rep("C21", st, "replace", in, "the new content is not known to hold every given entry under its key")
		return
	}
	if !st.flag("batchall") || src != st.get("batch") && !(st.get("batch") == nil) {
		r.rep("C21", st, "replace", in, "the new content is not built from all entries given")
	}
	r.ix.newContent(st, val, src)
}

// sourceOf finds the map all of whose entries a new content holds.
func (r *storeRun) sourceOf(st *State, val *Term) *Term {
	s := r.s
	if val.op != OAlloc {
		return nil
	}
	c := st.heap[mkContent(val)]
	if c == nil {
		if st.heap[mkMapFull(val)] != nil && st.knownTrue(mkEq(st.mapLen(val), mkInt(0))) {
			// empty: the source must be
			if b := st.get("batch"); b != nil {
				if st.knownTrue(mkEq(st.mapLen(b), mkInt(0))) {
					return b
				}
				return nil
			}
			return val
		}
		return nil
	}
	if !isSeq(c) || c.s != "seq:all" || c.a[0] != TNil {
		return nil
	}
	b := seqBound(c)
	if b.op != OCall || b.s != "keys" {
		return nil
	}
	beta := mkBeta(c.a[1])
	if s.resOf(c.a[2]) != mkLookup(b.a[0], beta, s.entryT) {
		return nil
	}
	return b.a[0]
}

// runStore explores the operations of the store for one property.
func runStore(a *Analysis, prop string) {
	s := findStore(a)
	if s == nil {
		return
	}
	storeRules(a, prop)
	p := a.program()
	if prop == "C21" || prop == "C22" || prop == "C24" {
		storeCtor(a, s, prop)
	}
	var issue issued
	if prop == "C21" {
		issue = storeGet(a, s)
	}
	seen := map[ssa.Instruction]bool{}
	for _, fn := range s.ops() {
		name := fn.Name()
		if prop == "C23" && name != "Accumulate" {
			continue
		}
		variants := []bool{true}
		if name == "Update" {
			variants = append(variants, false)
		}
		for _, plain := range variants {
			r := newStoreRun(a, s, prop, name)
			r.plain = plain
			r.res = fn.Signature.Results()
			r.issued = issue.lookup
			start := func(st *State, args []*Term) {
				root := r.e.addRoot(st, fn, args, nil)
				fr := root.top()
				r.self = fr.env[fn.Params[0]]
				for _, x := range fn.Params[1:] {
					r.params = append(r.params, fr.env[x])
				}
			}
			r.e.h.Load = func(st *State, addr *Term, in ssa.Instruction) {
				if addr.op == OFieldAddr && sameNamed(addr.a[0].t, s.storT) && addr.idx == s.items {
					st.set("M", s.fieldOf(st, addr.a[0], s.items))
				}
			}
			r.e.h.Exit = func(st *State, res []*Term) { r.exit(st, res) }
			if plain {
				start(nil, nil)
			} else if !r.conditional(fn, start) {
				continue
			}
			a.explore(r.e)
			for in := range r.seen {
				seen[in] = true
			}
		}
	}
	if prop == "C21" {
		// nothing else changes entries
		for _, fn := range p.funcs {
			if len(fn.TypeArgs()) == 0 && fn.TypeParams() != nil && fn.TypeParams().Len() > 0 || fn.Parent() != nil && fn.Parent().TypeParams().Len() > 0 && len(fn.Parent().TypeArgs()) == 0 {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					u, ok := in.(*ssa.MapUpdate)
					if !ok || !sameMap(u.Map.Type(), structOf(s.storT).Field(s.items).Type()) || seen[in] {
						continue
					}
					a.violate(p, "unexplored-write", in.Pos(), fn.String(), "entries are written outside of the store's operations")
				}
			}
		}
	}
}

// conditional explores with the context that WithIfMatch makes.
func (r *storeRun) conditional(fn *ssa.Function, start func(*State, []*Term)) bool {
	p := r.s.p
	w := p.fn("store", "WithIfMatch")
	if !r.a.anchor(w != nil && len(w.Params) == 2, "WithIfMatch") {
		return false
	}
	e := newEngine(p)
	followOnly(e, "store", "store/internal")
	var ctx *Term
	var got *State
	n := 0
	e.h.Exit = func(st *State, res []*Term) {
		n++
		if len(res) == 1 {
			ctx = res[0]
			got = st.clone()
		}
	}
	root := e.addRoot(nil, w, nil, nil)
	etag := root.top().env[w.Params[1]]
	e.run()
	if n != 1 || ctx == nil {
		r.a.violate(p, "ifmatch", w.Pos(), w.String(), "WithIfMatch does not always return a context that carries the ETag")
		return false
	}
	r.etag = etag
	st := newState(r.e)
	for k, v := range got.heap {
		st.heap[k] = v
	}
	for k, v := range got.facts {
		st.facts[k] = v
	}
	r.e.persistent[etag] = true
	start(st, []*Term{nil, ctx})
	return true
}

// issued is how Get encodes the version of an entry into its ETag.
type issued struct {
	ok         bool
	enc, order *Term
	t          types.Type
	field      int
}

func (i issued) lookup(t types.Type) (enc, order *Term, field int, ok bool) {
	if !i.ok || !types.Identical(i.t, t) {
		return nil, nil, 0, false
	}
	return i.enc, i.order, i.field, true
}

// storeGet judges Get and finds out how ETags are made.
func storeGet(a *Analysis, s *storeParts) issued {
	var is issued
	p := a.program()
	fn := p.method(s.cacheT, "Get")
	if !a.anchor(fn != nil, "the store's Get") {
		return is
	}
	r := newStoreRun(a, s, "C21", "Get")
	r.plain = true
	r.res = fn.Signature.Results()
	bad := func(st *State, f string, args ...any) { r.e.report(st, "get", nil, f, args...) }
	r.e.h.Load = func(st *State, addr *Term, in ssa.Instruction) {
		if addr.op == OFieldAddr && sameNamed(addr.a[0].t, s.storT) && addr.idx == s.items {
			st.set("M", s.fieldOf(st, addr.a[0], s.items))
		}
	}
	r.e.h.Exit = func(st *State, res []*Term) {
		if len(res) != 2 {
			return
		}
		r.ob("C21")
		single, err := res[0], res[1]
		ss := structOf(res[0].typeOr(r.res, 0))
		if ss == nil {
			return
		}
		if st.flag("keyfailed") {
			if !st.knownNonNil(err) {
				bad(st, "Get does not report that the key could not be determined")
			}
			return
		}
		if !st.knownNil(err) {
			bad(st, "Get can fail although the key is known")
			return
		}
		var found, etag, entry *Term
		for i := 0; i < ss.NumFields(); i++ {
			v := mkField(single, i, ss)
			switch {
			case types.Identical(ss.Field(i).Type(), s.entryT):
				entry = v
			case isBoolType(ss.Field(i).Type()):
				found = v
			case isString(ss.Field(i).Type()):
				etag = v
			}
		}
		if found == nil || etag == nil || entry == nil {
			return
		}
		cur := r.currentK(st)
		switch {
		case cur == nil:
			bad(st, "Get returns without having looked the entry up")
		case cur == TAbs:
			if !st.knownFalse(found) {
				bad(st, "Get reports an entry as found that is not stored")
			}
		default:
			if !st.knownTrue(found) {
				bad(st, "Get does not report a stored entry as found")
			}
			if !s.entryEq(st, entry, s.resOf(cur), s.entryT, nil, "") {
				bad(st, "Get returns something other than the stored entry")
			}
			enc, order, v := tokenOf(etag)
			if v == nil || structOf(v.t) == nil {
				bad(st, "the ETag is not an encoding of the entry's version")
				return
			}
			vs := structOf(v.t)
			f := -1
			for i := 0; i < vs.NumFields(); i++ {
				if stripWide(mkField(v, i, vs)) == s.verOf(cur) {
					f = i
				}
			}
			if f < 0 {
				bad(st, "the ETag does not contain the version of the entry that is returned with it")
				return
			}
			is = issued{true, enc, order, v.t, f}
		}
	}
	root := r.e.addRoot(nil, fn, nil, nil)
	r.self = root.top().env[fn.Params[0]]
	for _, x := range fn.Params[1:] {
		r.params = append(r.params, root.top().env[x])
	}
	a.explore(r.e)
	return is
}

// storeCtor judges how the configuration reaches the store.
func storeCtor(a *Analysis, s *storeParts, prop string) {
	p := a.program()
	e := newEngine(p)
	followOnly(e, "store", "store/internal")
	var cfg *Term
	cs := structOf(derefType(s.cacheT))
	e.h.Exit = func(st *State, res []*Term) {
		if len(res) != 1 {
			return
		}
		a.count("obligations checked", 1)
		c := unwrapIface(res[0])
		if c.op != OAlloc {
			e.report(st, "constructor", nil, "the constructor does not return a new store")
			return
		}
		ct := structOf(cfg.t)
		part := func(want types.Type, f func(t types.Type) bool) *Term {
			for i := 0; i < ct.NumFields(); i++ {
				if f != nil && f(ct.Field(i).Type()) || want != nil && types.Identical(ct.Field(i).Type(), want) {
					return mkField(cfg, i, ct)
				}
			}
			return nil
		}
		own := func(f func(t types.Type) bool) *Term {
			for i := 0; i < cs.NumFields(); i++ {
				if f(cs.Field(i).Type()) {
					return st.peek(mkFieldAddr(c, i, cs), cs.Field(i).Type())
				}
			}
			return nil
		}
		switch prop {
		case "C21":
			want := part(nil, func(t types.Type) bool { return isKeyFunc(t, s.entryT) })
			got := own(func(t types.Type) bool { return isKeyFunc(t, s.entryT) })
			if want == nil || got == nil {
				return
			}
			if !(got == want && !st.knownNil(got)) && !(got.op == OFunc && st.knownNil(want)) {
				e.report(st, "constructor", nil, "the configured key function is not the one the store uses")
			}
		case "C24":
			want := part(s.handlersT, nil)
			got := own(func(t types.Type) bool { return types.Identical(t, s.handlersT) })
			if want == nil || got == nil {
				return
			}
			if !s.entryEq(st, got, want, s.handlersT, nil, "") {
				e.report(st, "constructor", nil, "the configured event handlers are not the ones the store uses")
			}
		case "C22":
			want := part(nil, func(t types.Type) bool {
				m, ok := t.Underlying().(*types.Map)
				return ok && isIndexerFunc(m.Elem(), s.entryT)
			})
			stor := own(func(t types.Type) bool { return sameNamed(t, s.storT) })
			if sameNamed(c.t, s.storT) {
				stor = c
			}
			if want == nil || stor == nil {
				e.report(st, "constructor", nil, "the store's indexers are not found")
				return
			}
			got := s.fieldOf(st, stor, s.indexers)
			if got == want {
				return
			}
			okc := false
			if c := st.heap[mkContent(got)]; c != nil && isSeq(c) && c.s == "seq:all" && c.a[0] == TNil {
				b := seqBound(c)
				if b.op == OCall && b.s == "keys" && strip(c.a[2]) == mkLookup(b.a[0], mkBeta(c.a[1]), strip(c.a[2]).t) {
					okc = b.a[0] == want || st.knownNil(want) && b.a[0].op == OAlloc
				}
			} else if st.heap[mkMapFull(got)] != nil && st.knownTrue(mkEq(st.mapLen(got), mkInt(0))) {
				okc = st.knownTrue(mkEq(st.mapLen(want), mkInt(0))) && !st.knownNil(want)
			}
			if !okc {
				e.report(st, "constructor", nil, "the store does not use every configured indexer under its name")
			}
			ind := s.fieldOf(st, stor, s.indices)
			if ind.op != OAlloc || st.heap[mkMapFull(ind)] == nil || !st.knownTrue(mkEq(st.mapLen(ind), mkInt(0))) {
				e.report(st, "constructor", nil, "a new store does not start with an empty, usable set of indices")
			}
		}
	}
	root := e.addRoot(nil, s.ctor, nil, nil)
	cfg = root.top().env[s.ctor.Params[0]]
	a.explore(e)
}

func storeRules(a *Analysis, prop string) {
	switch prop {
	case "C21":
		a.rule("entries are changed only with the store's write lock held")
		a.rule("Add writes only where the key was looked up and known to be absent in the same critical section; Update with an ETag only where the looked-up entry has the version decoded from that very ETag")
		a.rule("every entry stored gets a version from a counter incremented in the same critical section that is never reset, so no version is given twice")
		a.rule("the ETag given out encodes the version of the entry returned with it, and is decoded by the inverse of that encoding")
		a.rule("success is reported exactly when the entry given was stored under its key (or deleted); a failure leaves the entries untouched")
	case "C22":
		a.rule("at the end of every critical section: for every entry changed, a complete traversal of the indexers removed the key from every index value of the previous entry (deleting empty sets, and only those) and then added it for every index value of the new entry")
		a.rule("index maps are changed only under the write lock and only in such traversals")
		a.rule("Index collects every key under every index value of the exemplar into a set and returns the entry of each key of the set; an unknown index is an error")
	case "C23":
		a.rule("an unknown key stores the partial record with its source, type and time")
		a.rule("for a known key the set decoded into the stored record is the encoding of the stored record with every attribute of the partial record's encoding assigned, nothing else changed; other parts of the entry are kept and the time is now")
		a.rule("something is stored if and only if an attribute was found absent or different; every encoding or decoding error is returned with nothing stored")
	case "C24":
		a.rule("on every path the handler calls made are exactly those the entry changes on it require: add(new), change(previous, new), delete(deleted); none otherwise; only a handler known to be nil may be skipped")
		a.rule("handlers are called after the critical section, with no lock held, and only when known to be set")
	}
}
