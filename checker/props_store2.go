package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- C22: index maintenance ----

type indexObs struct{ r *storeRun }

func (o *indexObs) on() bool { return o.r.prop == "C22" }

func (o *indexObs) isIndices(t *Term) bool {
	return t != nil && t.t != nil && sameMap(t.t, structOf(o.r.s.storT).Field(o.r.s.indices).Type())
}

func (o *indexObs) indexT() types.Type {
	return structOf(o.r.s.storT).Field(o.r.s.indices).Type().Underlying().(*types.Map).Elem()
}

func (o *indexObs) setT() types.Type { return o.indexT().Underlying().(*types.Map).Elem() }

func (o *indexObs) isIndex(t *Term) bool { return t != nil && t.t != nil && sameMap(t.t, o.indexT()) }
func (o *indexObs) isSet(t *Term) bool {
	return t != nil && t.t != nil && sameMap(t.t, o.setT()) && !o.isIndex(t) && !o.isIndices(t)
}

// now gives the content of a map under a key, as far as it can be named.
func (o *indexObs) now(st *State, m, k *Term) *Term {
	if m == nil || m == TNil {
		return TNil
	}
	t := m.t.Underlying().(*types.Map).Elem()
	v := st.mapGet(m, k, t)
	if c := st.heap[mkContent(m)]; v == nil && c != nil && isSeq(c) && c.s == "seq:all" && c.a[0] == TNil {
		if b := seqBound(c); b.op == OCall && b.s == "keys" {
			return seqElem(c, k)
		}
	}
	if v == nil {
		return mkLookup(m, k, t)
	}
	if v == TAbs {
		return TNil
	}
	return v
}

// collected: the key comes from a set of keys made here.
func (o *indexObs) collected(st *State, k *Term) bool {
	for _, f := range st.frames {
		for i := range f.loops {
			l := &f.loops[i]
			if l.mode == 2 && l.key == k && l.coll != nil && o.isSet(l.coll) && l.coll.op == OAlloc {
				return true
			}
		}
	}
	return false
}

// position of the traversals in progress
type ixPos struct {
	outer, inner *loopSt
	name, val    *Term
	vals         *Term
	base         *Term
}

func (o *indexObs) pos(st *State) ixPos {
	var p ixPos
	for _, f := range st.frames {
		for i := range f.loops {
			l := &f.loops[i]
			if o.isOuter(l) {
				p.outer, p.name, p.base = l, l.key, o.r.s.base(l.coll)
			} else if v := o.innerVals(l); v != nil {
				p.inner, p.vals = l, v
				if l.idx != nil {
					p.val = st.loadElem(v, l.idx, types.Typ[types.String])
				}
			}
		}
	}
	return p
}

func (o *indexObs) isOuter(l *loopSt) bool {
	return l.mode == 2 && l.coll != nil && l.coll.t != nil && sameMap(l.coll.t, structOf(o.r.s.storT).Field(o.r.s.indexers).Type()) && o.r.s.base(l.coll) != nil
}

// innerVals gives the index values a traversal goes through.
func (o *indexObs) innerVals(l *loopSt) *Term {
	if l.mode == 1 && l.bound != nil && l.bound.op == OLen {
		if v := l.bound.a[0]; v.op == OCall && v.s == "indexvals" {
			return v
		}
	}
	return nil
}

// cands are the entry keys index changes may concern.
func (o *indexObs) cands(st *State) []*Term {
	var out []*Term
	if k := st.get("K"); k != nil {
		out = append(out, k)
	}
	for _, f := range st.frames {
		for i := range f.loops {
			l := &f.loops[i]
			if l.mode == 2 && l.key != nil && !o.isOuter(l) && l.key.t != nil && isString(l.key.t) {
				out = append(out, l.key)
			}
		}
	}
	return out
}

func (o *indexObs) beginSection(st *State) {
	for _, k := range []string{"ix:un", "ix:in", "ix:need"} {
		st.setList(k, nil)
	}
	for _, k := range []string{"ix:unall", "ix:inall", "ix:fresh"} {
		st.setFlag(k, false)
	}
	st.set("ix:allof", nil)
}

func (o *indexObs) entrySet(st *State, k, prev, next *Term) {
	if prev != nil {
		st.addTo("ix:need", tupleOf(mkInt(0), k, prev))
	}
	st.addTo("ix:need", tupleOf(mkInt(1), k, next))
}

func (o *indexObs) entryGone(st *State, k, prev *Term) {
	st.addTo("ix:need", tupleOf(mkInt(0), k, prev))
}

func (o *indexObs) newContent(st *State, val, src *Term) {
	st.addTo("ix:need", tupleOf(mkInt(2), val, src))
}

func (o *indexObs) replaceIndices(st *State, base, val *Term, in ssa.Instruction) {
	if !o.on() {
		return
	}
	o.r.ob("C22")
	if !o.r.lockedFor(st, base, true) {
		o.r.rep("C22", st, "unlocked-index", in, "the indices are replaced without holding the store's lock")
	}
	if val.op == OAlloc && st.heap[mkMapFull(val)] != nil && st.knownTrue(mkEq(st.mapLen(val), mkInt(0))) {
		st.setFlag("ix:fresh", true)
		st.set("ix:allof", nil)
		st.setList("ix:in", nil)
		st.addTo("ix:need", tupleOf(mkInt(3), val, val))
		return
	}
	o.r.rep("C22", st, "index-replaced", in, "the indices are replaced by something that is not known to be empty")
}

func (o *indexObs) has(st *State, list string, k, obj *Term) bool {
	for _, x := range st.list(list) {
		if x.a[0] == k && (x.a[1] == obj || o.r.s.entryEq(st, x.a[1], obj, o.r.s.entryT, nil, "")) {
			return true
		}
	}
	return false
}

func (o *indexObs) endSection(st *State, base *Term, in ssa.Instruction) {
	if !o.on() {
		return
	}
	set := false
	for _, n := range st.list("ix:need") {
		o.r.ob("C22")
		kind, _ := n.a[0].intVal()
		switch kind {
		case 0:
			if !st.flag("ix:unall") && !o.has(st, "ix:un", n.a[1], n.a[2]) {
				o.r.rep("C22", st, "stale-key", in, "the lock is released although the key was not removed from every index value of the entry it had")
			}
		case 1:
			if !st.flag("ix:inall") && !o.has(st, "ix:in", n.a[1], n.a[2]) {
				o.r.rep("C22", st, "missing-key", in, "the lock is released although the key was not added for every index value of the new entry")
			}
		case 2:
			set = true
			x := st.get("ix:allof")
			whole := x != nil && (x == n.a[1] || x == n.a[2]) || st.knownTrue(mkEq(st.mapLen(n.a[1]), mkInt(0)))
			if !st.flag("ix:fresh") || !whole {
				o.r.rep("C22", st, "missing-key", in, "the lock is released after replacing the content without rebuilding the indices from all of it")
			}
		}
	}
	for _, n := range st.list("ix:need") {
		if kind, _ := n.a[0].intVal(); kind == 3 && !set {
			o.r.rep("C22", st, "missing-key", in, "the indices are emptied although the content is kept")
		}
	}
	o.beginSection(st)
}

func (o *indexObs) guard(st *State, m *Term, in ssa.Instruction) {
	if b := o.r.s.base(m); b != nil && !o.r.lockedFor(st, b, true) {
		o.r.rep("C22", st, "unlocked-index", in, "an index is changed without holding the store's lock")
	}
}

func (o *indexObs) mapUpdate(st *State, m, k, v *Term, in ssa.Instruction) {
	if !o.on() {
		return
	}
	p := o.pos(st)
	switch {
	case o.isIndices(m):
		o.r.ob("C22")
		o.guard(st, m, in)
		if old := o.now(st, m, k); old != v && !st.knownNil(old) {
			o.r.rep("C22", st, "index-lost", in, "an index is replaced that is not known to be missing")
		}
		if p.name == nil || k != p.name {
			o.r.rep("C22", st, "index-name", in, "an index is created under another name than its indexer's")
		}
	case o.isIndex(m):
		o.r.ob("C22")
		o.guard(st, m, in)
		if old := o.now(st, m, k); old != v && !st.knownNil(old) {
			o.r.rep("C22", st, "set-lost", in, "the keys of an index value are replaced although some may be listed")
		}
		if p.val == nil || k != p.val || !o.ownIndex(st, p, m) {
			o.r.rep("C22", st, "index-value", in, "keys are listed under something that is not an index value of the entry")
		}
	case o.isSet(m):
		if o.query(st, m, k, in) {
			return
		}
		o.r.ob("C22")
		o.guard(st, m, in)
		if p.val == nil || !o.ownSet(st, p, m) {
			o.r.rep("C22", st, "index-value", in, "a key is listed under something that is not an index value of the entry")
		}
		if !inTerms(o.cands(st), k) {
			o.r.rep("C22", st, "wrong-key", in, "a key is listed that is not the one of the entry")
		}
	}
}

// ownIndex: m is the index of the indexer the traversal is at.
func (o *indexObs) ownIndex(st *State, p ixPos, m *Term) bool {
	if p.base == nil || p.name == nil {
		return false
	}
	if m.op == OAlloc && !st.facts[mkEscaped(m)] {
		return true
	}
	return o.now(st, o.r.s.fieldOf(st, p.base, o.r.s.indices), p.name) == m
}

func (o *indexObs) ownSet(st *State, p ixPos, m *Term) bool {
	if p.base == nil || p.name == nil || p.val == nil {
		return false
	}
	if m.op == OAlloc && !st.facts[mkEscaped(m)] {
		return true
	}
	ix := o.now(st, o.r.s.fieldOf(st, p.base, o.r.s.indices), p.name)
	if ix == TNil {
		return false
	}
	return o.now(st, ix, p.val) == m
}

func (o *indexObs) mapDelete(st *State, m, k *Term, in ssa.Instruction) {
	if !o.on() {
		return
	}
	p := o.pos(st)
	if k == nil {
		if o.isIndices(m) && o.r.s.base(m) != nil {
			o.guard(st, m, in)
			st.setFlag("ix:fresh", true)
			st.set("ix:allof", nil)
			st.setList("ix:in", nil)
			st.addTo("ix:need", tupleOf(mkInt(3), m, m))
		} else if o.isIndex(m) || o.isSet(m) {
			o.r.rep("C22", st, "index-lost", in, "an index is cleared")
		}
		return
	}
	switch {
	case o.isIndices(m):
		o.guard(st, m, in)
		old := o.now(st, m, k)
		if !st.knownNil(old) && !st.knownTrue(mkEq(st.mapLen(old), mkInt(0))) {
			o.r.rep("C22", st, "index-lost", in, "an index is dropped that is not known to be empty")
		}
	case o.isIndex(m):
		o.r.ob("C22")
		o.guard(st, m, in)
		old := o.now(st, m, k)
		if !st.knownNil(old) && !st.knownTrue(mkEq(st.mapLen(old), mkInt(0))) {
			o.r.rep("C22", st, "set-lost", in, "an index value is dropped although keys may be listed under it")
		}
	case o.isSet(m):
		if b := m.root(); b.op == OAlloc && !st.facts[mkEscaped(b)] {
			return
		}
		o.r.ob("C22")
		o.guard(st, m, in)
		if p.val == nil || !o.ownSet(st, p, m) {
			o.r.rep("C22", st, "index-value", in, "a key is removed from something that is not an index value of the entry")
		}
		if !inTerms(o.cands(st), k) {
			o.r.rep("C22", st, "wrong-key", in, "a key is removed that is not the one of the entry")
		}
		st.setFlag("ix:deleted", true)
	}
}

func (o *indexObs) loopEnter(st *State, l *LoopEv) {
	if !o.on() {
		return
	}
	if o.isOuter(l.st) {
		for _, k := range []string{"ix:accun", "ix:accin", "ix:itun", "ix:itin"} {
			st.setList(k, nil)
		}
		st.setFlag("ix:univun", true)
		st.setFlag("ix:univin", true)
		return
	}
	if o.innerVals(l.st) != nil && l.st.exact {
		c := o.cands(st)
		st.setList("ix:rem", c)
		st.setList("ix:add", c)
		st.setFlag("ix:realrem", false)
	}
	if o.innerVals(l.st) != nil {
		st.setFlag("q:bad", false)
		st.setFlag("q:valsbad", false)
		st.set("q:done", nil)
	}
	if l.st.mode == 2 && l.st.coll != nil && o.isSet(l.st.coll) {
		st.setFlag("q:skip", false)
	}
	if o.isContentLoop(l.st) {
		st.setFlag("ix:contentbad", false)
	}
}

// isContentLoop: a traversal of entries by key.
func (o *indexObs) isContentLoop(l *loopSt) bool {
	if l.mode != 2 || l.coll == nil || l.coll.t == nil {
		return false
	}
	m, ok := l.coll.t.Underlying().(*types.Map)
	return ok && (types.Identical(m.Elem(), o.r.s.entryT) || types.Identical(m.Elem(), o.r.s.elemT))
}

func (o *indexObs) loopIter(st *State, l *LoopEv) {
	if !o.on() {
		return
	}
	if o.isOuter(l.st) {
		st.setList("ix:itun", nil)
		st.setList("ix:itin", nil)
	}
	if o.innerVals(l.st) != nil {
		st.setFlag("ix:deleted", false)
		st.set("q:done", nil)
	}
	if l.st.mode == 2 && l.st.coll != nil && o.isSet(l.st.coll) {
		st.setFlag("q:added", false)
	}
}

func (o *indexObs) loopBack(st *State, l *LoopEv) {
	if !o.on() {
		return
	}
	s := o.r.s
	switch {
	case o.isOuter(l.st):
		p := o.pos(st)
		gone := false
		if p.base != nil && p.name != nil {
			gone = st.knownNil(o.now(st, s.fieldOf(st, p.base, s.indices), p.name))
		}
		if !gone {
			o.meet(st, "un")
		}
		o.meet(st, "in")
		st.setList("ix:itun", nil)
		st.setList("ix:itin", nil)
	case o.innerVals(l.st) != nil:
		p := o.pos(st)
		if p.outer != nil && p.name != nil && p.base != nil && p.val != nil {
			o.innerBack(st, p)
		} else {
			o.queryBack(st, p)
		}
		st.setFlag("ix:deleted", false)
	case l.st.mode == 2 && l.st.coll != nil && o.isSet(l.st.coll):
		if !st.flag("q:added") {
			st.setFlag("q:skip", true)
		}
		st.setFlag("q:added", false)
	case o.isContentLoop(l.st):
		k := l.st.key
		if k == nil {
			return
		}
		v := mkLookup(l.st.coll, k, l.st.coll.t.Underlying().(*types.Map).Elem())
		if c := st.heap[mkContent(l.st.coll)]; c != nil && isSeq(c) && c.s == "seq:all" {
			v = seqElem(c, k)
		}
		if types.Identical(v.t, s.elemT) {
			v = s.resOf(v)
		}
		if !st.flag("ix:inall") && !o.has(st, "ix:in", k, v) {
			st.setFlag("ix:contentbad", true)
		}
		st.setList("ix:in", nil)
		st.setList("ix:un", nil)
		st.setFlag("ix:inall", false)
		st.setFlag("ix:unall", false)
	}
}

func (o *indexObs) meet(st *State, which string) {
	it := st.list("ix:it" + which)
	if st.flag("ix:univ" + which) {
		st.setFlag("ix:univ"+which, false)
		st.setList("ix:acc"+which, it)
		return
	}
	var keep []*Term
	for _, x := range st.list("ix:acc" + which) {
		if inTerms(it, x) {
			keep = append(keep, x)
		}
	}
	st.setList("ix:acc"+which, keep)
}

// innerBack judges what one step of an index value traversal left behind.
func (o *indexObs) innerBack(st *State, p ixPos) {
	s := o.r.s
	I := s.fieldOf(st, p.base, s.indices)
	ix := o.now(st, I, p.name)
	set := TNil
	if !st.knownNil(ix) {
		set = o.now(st, ix, p.val)
	}
	var rem, add []*Term
	for _, k := range o.cands(st) {
		removed, added := false, false
		if st.knownNil(ix) || st.knownNil(set) {
			removed = true
		} else {
			e := st.mapGet(set, k, nil)
			if set.t != nil {
				e = st.mapGet(set, k, set.t.Underlying().(*types.Map).Elem())
			}
			if e == TAbs {
				removed = !st.flag("ix:deleted") || st.knownFalse(mkEq(st.mapLen(set), mkInt(0)))
			} else if e != nil && st.knownNonNil(set) && st.knownNonNil(ix) {
				added = true
			}
		}
		if removed && st.inList("ix:rem", k) {
			rem = append(rem, k)
		}
		if added && st.inList("ix:add", k) {
			add = append(add, k)
		}
	}
	st.setList("ix:rem", rem)
	st.setList("ix:add", add)
	if st.flag("ix:deleted") {
		st.setFlag("ix:realrem", true)
	}
}

func (o *indexObs) loopDone(st *State, l *LoopEv) {
	if !o.on() {
		return
	}
	switch {
	case o.isOuter(l.st):
		for _, w := range []string{"un", "in"} {
			if st.flag("ix:univ" + w) {
				st.setFlag("ix:"+w+"all", true)
			} else {
				for _, x := range st.list("ix:acc" + w) {
					st.addTo("ix:"+w, x)
				}
			}
			st.setList("ix:acc"+w, nil)
			st.setList("ix:it"+w, nil)
			st.setFlag("ix:univ"+w, false)
		}
	case o.innerVals(l.st) != nil:
		v := o.innerVals(l.st)
		p := o.pos(st)
		if p.outer == nil || p.name == nil || !l.st.exact {
			if !st.flag("q:valsbad") && l.st.exact {
				st.set("q:allvals", v)
			}
			return
		}
		// the values of this indexer?
		ft := p.outer.coll.t.Underlying().(*types.Map).Elem()
		if v.a[0] != mkLookup(p.outer.coll, p.name, ft) && v.a[0] != o.now(st, p.outer.coll, p.name) {
			return
		}
		for _, k := range st.list("ix:rem") {
			st.addTo("ix:itun", tupleOf(k, v.a[1]))
			if st.flag("ix:realrem") {
				for _, x := range append(append([]*Term(nil), st.list("ix:in")...), st.list("ix:itin")...) {
					if x.a[0] == k && !(x.a[1] == v.a[1]) {
						o.r.rep("C22", st, "removed-after-added", l.loop.header.Instrs[0], "index values of the previous entry are removed after those of the new one were added; shared ones are lost")
					}
				}
			}
		}
		for _, k := range st.list("ix:add") {
			st.addTo("ix:itin", tupleOf(k, v.a[1]))
		}
		st.setList("ix:rem", nil)
		st.setList("ix:add", nil)
		st.setFlag("ix:realrem", false)
	case l.st.mode == 2 && l.st.coll != nil && o.isSet(l.st.coll):
		if !st.flag("q:skip") {
			st.set("q:done", l.st.coll)
		}
	case o.isContentLoop(l.st):
		if !st.flag("ix:contentbad") {
			st.set("ix:allof", l.st.coll)
		}
	}
}

func (o *indexObs) loopBreak(st *State, l *LoopEv) {
	if !o.on() {
		return
	}
	if o.isOuter(l.st) || o.innerVals(l.st) != nil {
		st.setList("ix:rem", nil)
		st.setList("ix:add", nil)
		st.setList("ix:accun", nil)
		st.setList("ix:accin", nil)
		st.setFlag("ix:univun", false)
		st.setFlag("ix:univin", false)
	}
}

// query: keys collected for an answer.
func (o *indexObs) query(st *State, m, k *Term, in ssa.Instruction) bool {
	if o.r.op != "Index" {
		return false
	}
	b := m.root()
	if b.op != OAlloc || st.facts[mkEscaped(b)] {
		return false
	}
	for _, f := range st.frames {
		for i := range f.loops {
			l := &f.loops[i]
			if l.mode == 2 && l.coll != nil && o.isSet(l.coll) && l.key == k {
				st.setFlag("q:added", true)
				st.set("q:set", b)
				return true
			}
		}
	}
	o.r.rep("C22", st, "query-key", in, "a key is collected that is not listed under an index value of the exemplar")
	return true
}

// queryBack: one index value of the exemplar was dealt with.
func (o *indexObs) queryBack(st *State, p ixPos) {
	if o.r.op != "Index" {
		return
	}
	name := o.nameParam()
	base := o.storBase(st)
	if p.val == nil || base == nil || name == nil {
		st.setFlag("q:valsbad", true)
		return
	}
	ix := o.now(st, o.r.s.fieldOf(st, base, o.r.s.indices), name)
	if st.knownNil(ix) {
		return
	}
	set := o.now(st, ix, p.val)
	if st.knownNil(set) || st.get("q:done") == set {
		return
	}
	st.setFlag("q:valsbad", true)
}

func (o *indexObs) nameParam() *Term { return o.r.param(types.Typ[types.String]) }

func (o *indexObs) storBase(st *State) *Term {
	cs := structOf(derefType(o.r.s.cacheT))
	for i := 0; i < cs.NumFields(); i++ {
		if sameNamed(cs.Field(i).Type(), o.r.s.storT) {
			return st.peek(mkFieldAddr(o.r.self, i, cs), cs.Field(i).Type())
		}
	}
	return o.r.self
}

// seqView describes a list that holds one element per step of a traversal.
func (st *State) seqView(x *Term) (bound, tmpl, beta *Term) {
	if x == nil {
		return nil, nil, nil
	}
	for i := 0; i < 4; i++ {
		if c := st.heap[mkContent(x)]; c != nil {
			x = c
			continue
		}
		if x.op == OCall && x.s == "contentof" || x.op == OAppendSlice && st.knownTrue(mkEq(mkLen(x.a[0]), mkInt(0))) {
			x = x.a[len(x.a)-1]
			continue
		}
		break
	}
	if isSeq(x) && x.s == "seq:all" && (x.a[0] == TNil || st.knownTrue(mkEq(mkLen(x.a[0]), mkInt(0)))) {
		return seqBound(x), x.a[2], mkBeta(x.a[1])
	}
	return nil, nil, nil
}

// elementOf: the term is (a part of) the element at an index of a list.
func elementOf(x *Term) (list, idx *Term, part bool) {
	for x != nil {
		switch x.op {
		case OField:
			x = x.a[0]
			part = true
			continue
		case OLoad:
			a := x.a[0]
			for a.op == OFieldAddr {
				a = a.a[0]
				part = true
			}
			if a.op == OIndexAddr {
				return a.a[0], a.a[1], part
			}
		}
		break
	}
	return nil, nil, false
}

// exitQuery judges the answer of Index, IndexValues and List.
func (o *indexObs) exitQuery(st *State, res []*Term) {
	if !o.on() || len(res) == 0 {
		return
	}
	r, s := o.r, o.r.s
	err := res[len(res)-1]
	bad := func(f string, args ...any) { r.rep("C22", st, "query", nil, f, args...) }
	switch r.op {
	case "Index", "IndexValues":
	default:
		return
	}
	r.ob("C22")
	base, name := o.storBase(st), o.nameParam()
	if base == nil || name == nil {
		return
	}
	ixr := s.fieldOf(st, base, s.indexers)
	known := o.now(st, ixr, name)
	if st.knownNil(known) {
		if !st.knownNonNil(err) {
			bad("%s does not report an index that is not configured", r.op)
		}
		return
	}
	if !st.knownNonNil(known) && st.mapGet(ixr, name, known.t) == nil {
		bad("%s does not check that the index is configured", r.op)
		return
	}
	if !st.knownNil(err) {
		if sel := r.selector(); sel != nil && st.knownNonNil(sel) {
			return // the selector may be unusable
		}
		bad("%s can fail although the index is configured", r.op)
		return
	}
	ix := o.now(st, s.fieldOf(st, base, s.indices), name)
	switch r.op {
	case "IndexValues":
		b, tmpl, beta := st.seqView(res[0])
		if b == nil || tmpl != beta || b.op != OCall || b.s != "keys" || b.a[0] != ix {
			if st.knownTrue(mkEq(mkLen(res[0]), mkInt(0))) && (st.knownNil(ix) || st.knownTrue(mkEq(st.mapLen(ix), mkInt(0)))) {
				return
			}
			bad("IndexValues does not return exactly the values of the index")
		}
	case "Index":
		entries := o.entriesOf(res[0])
		if entries == nil {
			bad("the entries of the answer are not found")
			return
		}
		// only without a selector is the answer the plain list
		if sel := r.selector(); sel != nil && !st.knownNil(sel) {
			return
		}
		b, tmpl, _ := st.seqView(entries)
		if b == nil {
			if st.knownTrue(mkEq(mkLen(entries), mkInt(0))) {
				o.emptyAnswer(st, entries, bad)
				return
			}
			bad("the answer is not known to hold one entry for each key found")
			return
		}
		o.judgeAnswer(st, b, tmpl, known, bad)
	}
}

func (o *indexObs) emptyAnswer(st *State, entries *Term, bad func(string, ...any)) {
	set := st.get("q:set")
	if v := st.get("q:allvals"); v == nil {
		bad("an empty answer is given without having gone through all index values of the exemplar")
	} else if set != nil && !st.knownTrue(mkEq(st.mapLen(set), mkInt(0))) {
		bad("an empty answer is given although keys may have been found")
	}
}

func (o *indexObs) judgeAnswer(st *State, b, tmpl, indexer *Term, bad func(string, ...any)) {
	s := o.r.s
	// entries copied from a list of looked-up values
	if l, _, _ := elementOf(tmpl); b.op != OCall && l != nil {
		if b != mkLen(l) || !types.Identical(tmpl.t, s.entryT) {
			bad("the answer is not made of the entries found")
			return
		}
		b, tmpl, _ = st.seqView(l)
		if b == nil {
			bad("the answer is not known to hold one entry for each key found")
			return
		}
	}
	if b.op != OCall || b.s != "keys" {
		bad("the answer is not made of the entries of the keys found")
		return
	}
	set := b.a[0]
	m := tmpl
	if m.op == OField {
		m = m.a[0]
	}
	base := o.storBase(st)
	if m.op != OLookup || m.a[0] != s.fieldOf(st, base, s.items) {
		bad("the answer is not made of the stored entries")
		return
	}
	v := st.get("q:allvals")
	obj := o.r.param(s.entryT)
	if v == nil || v.a[0] != indexer || obj == nil || v.a[1] != obj {
		bad("the keys are not collected from all index values of the exemplar")
		return
	}
	if q := st.get("q:set"); q != nil && q != set {
		bad("the answer is not made of the keys collected")
	}
}

func (o *indexObs) entriesOf(v *Term) *Term {
	ss := structOf(v.typeOr(o.r.res, 0))
	if ss == nil {
		return nil
	}
	for i := 0; i < ss.NumFields(); i++ {
		if sl, ok := ss.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), o.r.s.entryT) {
			return mkField(v, i, ss)
		}
	}
	return nil
}

// selector gives the selector argument of the operation.
func (r *storeRun) selector() *Term {
	sel := r.s.p.typ("store", "Selector")
	for _, x := range r.params {
		if x.t != nil && isPtr(x.t) && sameNamed(x.t, sel) {
			return x
		}
	}
	return nil
}

// ---- C24: events ----

func (r *storeRun) handlerField(f *Term) (string, bool) {
	owner, name, _ := fieldLoad(f)
	if owner != nil && sameNamed(owner, r.s.handlersT) {
		return name, true
	}
	return "", false
}

func (r *storeRun) handlerCall(st *State, c *Call, name string) {
	r.ob("C24")
	if c.fnval != nil {
		if l := anyLock(st); l != nil {
			r.rep("C24", st, "locked", c.instr, "%s is called while %s is held", name, l)
		}
	}
	st.addTo("events", tupleOf(append([]*Term{mkStr(name)}, c.args...)...))
	found := false
	for _, ch := range st.list("changes") {
		if r.matches(st, ch, name, c.args) {
			found = true
		}
	}
	if !found {
		r.rep("C24", st, "wrong-event", c.instr, "%s is called with something that does not report the change made", name)
	}
	for _, x := range st.list("called") {
		if x == mkStr(name) {
			r.rep("C24", st, "twice", c.instr, "%s is called a second time", name)
		}
	}
	st.addTo("called", mkStr(name))
}

func (r *storeRun) matches(st *State, ch *Term, name string, args []*Term) bool {
	kind, _ := ch.a[0].intVal()
	eq := func(a, b *Term) bool { return r.s.entryEq(st, a, b, r.s.entryT, nil, "") }
	switch kind {
	case chNew:
		return name == "OnAdd" && len(args) == 1 && eq(args[0], ch.a[3])
	case chMod:
		return name == "OnChange" && len(args) == 2 && eq(args[0], ch.a[2]) && eq(args[1], ch.a[3])
	case chDel:
		return name == "OnDelete" && len(args) == 1 && eq(args[0], ch.a[2])
	}
	return false
}

// handlerNow gives the configured handler.
func (r *storeRun) handlerNow(st *State, name string) *Term {
	cs := structOf(derefType(r.s.cacheT))
	hs := structOf(r.s.handlersT)
	for i := 0; i < cs.NumFields(); i++ {
		if types.Identical(cs.Field(i).Type(), r.s.handlersT) {
			for j := 0; j < hs.NumFields(); j++ {
				if hs.Field(j).Name() == name {
					return st.peek(mkFieldAddr(mkFieldAddr(r.self, i, cs), j, hs), hs.Field(j).Type())
				}
			}
		}
	}
	return nil
}

func (r *storeRun) exitEvents(st *State, ok bool) {
	r.ob("C24")
	want := map[string]bool{}
	for _, ch := range st.list("changes") {
		kind, _ := ch.a[0].intVal()
		switch kind {
		case chNew:
			want["OnAdd"] = true
		case chMod:
			want["OnChange"] = true
		case chDel:
			want["OnDelete"] = true
		}
	}
	for _, n := range []string{"OnAdd", "OnChange", "OnDelete"} {
		if !want[n] {
			continue
		}
		called := false
		for _, x := range st.list("called") {
			called = called || x == mkStr(n)
		}
		if called {
			continue
		}
		if h := r.handlerNow(st, n); h != nil && st.knownNil(h) {
			continue
		}
		r.rep("C24", st, "no-event", nil, "%s changes the store without calling %s", r.op, n)
	}
}

func (r *storeRun) oblig(st *State, kind string, t, arg *Term, in ssa.Instruction) {
	if kind == "deref" && r.prop == "C24" {
		if n, ok := r.handlerField(t); ok && !st.knownNonNil(t) {
			if _, isCall := in.(ssa.CallInstruction); isCall {
				r.rep("C24", st, "nil-handler", in, "%s is called although it may not be configured", n)
			}
		}
	}
}

// ---- C23: merging ----

func (r *storeRun) mergeCall(st *State, c *Call) ([]Outcome, bool) {
	enc := modPath + "/encoding."
	switch {
	case c.method != nil && c.method.Name() == "GetTypeMeta" && c.recv != nil:
		return []Outcome{{res: []*Term{intern(OCall, "typemeta", 0, 0, c.res.At(0).Type(), nil, nil, c.recv)}}}, true
	case c.name == "time.Now":
		n := st.sym("now", c.instr, c.ctx, 0, c.res.At(0).Type())
		symSites[n] = symSite{c.instr, c.ctx}
		st.addTo("nows", n)
		return []Outcome{{res: []*Term{n}}}, true
	case c.name == enc+"Encode":
		m := st.sym("attrs", c.instr, c.ctx, 0, c.res.At(0).Type())
		symSites[m] = symSite{c.instr, c.ctx}
		err := st.sym("lib:encode", c.instr, c.ctx, 1, errType())
		rec := c.args[0]
		return []Outcome{{res: []*Term{m, TNil}, mod: func(x *State) bool {
			x.addTo("encoded", tupleOf(m, rec))
			return x.assume(mkEq(m, TNil), false)
		}}, {res: []*Term{TNil, err}, mod: func(x *State) bool {
			x.setFlag("encfail", true)
			return x.assume(mkEq(err, TNil), false)
		}}}, true
	case c.name == enc+"Decode":
		out := st.sym("decoded", c.instr, c.ctx, 0, c.res.At(0).Type())
		symSites[out] = symSite{c.instr, c.ctx}
		err := st.sym("lib:decode", c.instr, c.ctx, 1, errType())
		attrs := c.args[0]
		return []Outcome{{res: []*Term{out, TNil}, mod: func(x *State) bool {
			x.addTo("decoded", tupleOf(out, attrs, boolTerm(x.get("merged") == attrs)))
			return x.assume(mkEq(out, TNil), false)
		}}, {res: []*Term{TNil, err}, mod: func(x *State) bool {
			x.setFlag("encfail", true)
			return x.assume(mkEq(err, TNil), false)
		}}}, true
	}
	return nil, false
}

func boolTerm(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}

// encodingOf gives the record whose attributes the set holds.
func (r *storeRun) encodingOf(st *State, m *Term) *Term {
	for _, x := range st.list("encoded") {
		if x.a[0] == m {
			return x.a[1]
		}
	}
	return nil
}

func (r *storeRun) mergeUpdate(st *State, m, k, v *Term, in ssa.Instruction) {
	if r.op != "Accumulate" {
		return
	}
	rec := r.encodingOf(st, m)
	if rec == nil {
		return
	}
	r.ob("C23")
	if rec == r.param(r.recordT()) {
		r.rep("C23", st, "partial-changed", in, "the attributes of the partial record are changed before they are merged")
		return
	}
	for _, f := range st.frames {
		for i := range f.loops {
			l := &f.loops[i]
			if l.mode == 2 && l.key == k && l.coll != nil && r.encodingOf(st, l.coll) == r.param(r.recordT()) && v == mkLookup(l.coll, k, v.t) {
				switch cur := st.mapGet(m, k, v.t); {
				case cur == TAbs, cur != nil && st.knownFalse(mkEq(cur, v)):
					st.setFlag("m:diff", true)
				case cur != nil && st.knownTrue(mkEq(cur, v)):
				default:
					st.setFlag("m:maybe", true)
				}
				return
			}
		}
	}
	r.rep("C23", st, "foreign-attribute", in, "an attribute is set to something other than what the partial record has for it")
}

func (r *storeRun) mergeDelete(st *State, m, k *Term, in ssa.Instruction) {
	if r.op == "Accumulate" && r.encodingOf(st, m) != nil {
		r.rep("C23", st, "attribute-lost", in, "an attribute is removed while merging")
	}
}

func (r *storeRun) mergeLoop(st *State, l *LoopEv, ev string) {
	if r.op != "Accumulate" || l.st.mode != 2 || l.st.coll == nil || r.encodingOf(st, l.st.coll) == nil || r.encodingOf(st, l.st.coll) != r.param(r.recordT()) {
		return
	}
	switch ev {
	case "enter":
		st.setFlag("m:skip", false)
	case "back":
		k := l.st.key
		B := l.st.coll
		ok := false
		for _, x := range st.list("encoded") {
			if x.a[0] == B {
				continue
			}
			et := B.t.Underlying().(*types.Map).Elem()
			if cur := st.mapGet(x.a[0], k, et); cur != nil && cur != TAbs && st.knownTrue(mkEq(cur, mkLookup(B, k, et))) {
				ok = true
			}
		}
		if !ok {
			st.setFlag("m:skip", true)
		}
	case "done":
		if !st.flag("m:skip") {
			for _, x := range st.list("encoded") {
				if x.a[0] != l.st.coll {
					st.set("merged", x.a[0])
				}
			}
		}
	}
}

// accumulated judges what Accumulate stores.
func (r *storeRun) accumulated(st *State, cur, v *Term, in ssa.Instruction) {
	r.ob("C23")
	s := r.s
	e := s.resOf(v)
	rec, src := r.param(r.recordT()), r.param(r.sourceT())
	bad := func(rule, f string, args ...any) { r.rep("C23", st, rule, in, f, args...) }
	upd := r.timeOf(e)
	if upd == nil || !st.inList("nows", upd) {
		bad("time", "the entry's time of update is not the current time")
	}
	tm := r.s.p.typ("", "TypeMeta")
	if cur == TAbs {
		if r.entryPart(e, r.recordT()) != rec {
			bad("new-record", "a new entry does not hold the record given")
		}
		if !s.entryEq(st, r.entryPart(e, r.sourceT()), src, r.sourceT(), nil, "") {
			bad("new-source", "a new entry does not hold the source given")
		}
		if t := r.entryPart(e, tm); t == nil || !s.entryEq(st, t, intern(OCall, "typemeta", 0, 0, tm, nil, nil, rec), tm, nil, "") {
			bad("new-type", "a new entry does not hold the record's type")
		}
		return
	}
	prev := s.resOf(mkLookup(st.get("M"), st.get("K"), s.elemT))
	if cur != nil {
		prev = s.resOf(cur)
	}
	recT := r.recordT()
	if !s.entryEq(st, e, prev, s.entryT, func(f *types.Var, path string) bool {
		return isTimeType(f.Type()) || types.Identical(f.Type(), recT)
	}, "") {
		bad("kept", "the source, annotations or type of the entry are not kept")
	}
	nr := r.entryPart(e, recT)
	for nr != nil && nr.op == OTA {
		nr = nr.a[0]
	}
	ok := false
	for _, d := range st.list("decoded") {
		if d.a[0] == nr {
			ok = true
			if d.a[2] != TTrue {
				bad("merge", "the record stored is decoded from attributes that do not have all attributes of the partial record")
			}
			if r.encodingOf(st, d.a[1]) != r.entryPart(prev, recT) {
				bad("merge", "the record stored is not decoded from the attributes of the record it replaces")
			}
		}
	}
	if !ok {
		bad("merge", "the record stored is not the merged record")
	}
	if !st.flag("m:diff") {
		bad("no-difference", "an entry is stored although no attribute is known to differ")
	}
}

func (r *storeRun) timeOf(e *Term) *Term {
	t := r.s.p.typ("store", "Metadata")
	ms := structOf(t)
	m := r.entryPart(e, t)
	if m == nil || ms == nil {
		return nil
	}
	for i := 0; i < ms.NumFields(); i++ {
		if isTimeType(ms.Field(i).Type()) {
			return mkField(m, i, ms)
		}
	}
	return nil
}

func (r *storeRun) exitMerge(st *State, res []*Term, ok, failed bool) {
	r.ix.exitQuery(st, res)
	if r.op != "Accumulate" {
		return
	}
	r.ob("C23")
	n := len(st.list("changes"))
	bad := func(rule, f string, args ...any) { r.rep("C23", st, rule, nil, f, args...) }
	if st.flag("encfail") || st.flag("keyfailed") {
		if n > 0 {
			bad("failed-but-changed", "something is stored although comparing or merging failed")
		}
		if !failed {
			bad("not-reported", "a failure to compare or merge is not reported")
		}
		return
	}
	if n > 0 {
		if !ok {
			bad("failed-but-changed", "a failure is reported after the record was stored")
		}
		return
	}
	if failed {
		for _, d := range st.list("decoded") {
			if st.knownFalse(mkTAOk(d.a[0], r.recordT())) {
				return // the merged value is not a record
			}
		}
		bad("refused", "a record is refused although nothing failed")
		return
	}
	cur := r.currentK(st)
	if cur == nil || cur == TAbs {
		bad("not-stored", "a record with an unknown key is not stored")
		return
	}
	if st.flag("m:diff") || st.flag("m:maybe") || st.get("merged") == nil {
		bad("not-stored", "nothing is stored although an attribute may differ")
	}
}
