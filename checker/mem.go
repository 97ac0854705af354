package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func mkEscaped(a *Term) *Term {
	return intern(OCall, "escaped", 0, 0, types.Typ[types.Bool], nil, nil, a)
}
func mkVolatile(a *Term) *Term {
	return intern(OCall, "volatile", 0, 0, types.Typ[types.Bool], nil, nil, a)
}

func (st *State) clearCells(a *Term) {
	for k := range st.heap {
		if k.op != OContent && k.op != OMapFull && k.op != OMapElem && !addrRootedAt(k, a) {
			continue
		}
		if addrRootedAt(k, a) {
			delete(st.heap, k)
		}
	}
}

// addrRootedAt: k is a or a part of the object at a (without following pointers).
func addrRootedAt(k, a *Term) bool {
	for {
		if k == a {
			return true
		}
		switch k.op {
		case OFieldAddr, OIndexAddr, OContent, OMapFull, OMapElem:
			k = k.a[0]
		default:
			return false
		}
	}
}

// distinct reports whether two values certainly differ.
func (st *State) distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	return st.evalBool(mkEq(a, b)) == TFalse
}

// cell gives the value known to be stored at an address.
func (st *State) cell(a *Term, t types.Type) *Term {
	if v, ok := st.heap[a]; ok {
		return v
	}
	switch a.op {
	case OFieldAddr:
		base := a.a[0]
		if base.op == OFieldAddr || base.op == OAlloc || base.op == OIndexAddr || base.op == OSym || base.op == OLoad || base.op == OGlobal || base.op == OCall {
			bt := derefType(base.t)
			if sv := st.cellUp(base, bt); sv != nil {
				if s := structOf(bt); s != nil {
					return mkField(sv, a.idx, s)
				}
			}
		}
	case OIndexAddr:
		if v := st.elemCell(a.a[0], a.a[1], t); v != nil {
			return v
		}
	}
	return nil
}

// cellUp looks for a cell covering the whole object at a.
func (st *State) cellUp(a *Term, t types.Type) *Term {
	if v, ok := st.heap[a]; ok {
		return v
	}
	switch a.op {
	case OFieldAddr:
		bt := derefType(a.a[0].t)
		if sv := st.cellUp(a.a[0], bt); sv != nil {
			if s := structOf(bt); s != nil {
				return mkField(sv, a.idx, s)
			}
		}
	case OIndexAddr:
		return st.elemCell(a.a[0], a.a[1], t)
	}
	return nil
}

// elemCell gives the element at index i of a sequence value or array address.
func (st *State) elemCell(base, i *Term, t types.Type) *Term {
	if c, ok := st.heap[mkContent(base)]; ok {
		if v := st.seqAt(c, i, t); v != nil {
			return v
		}
	}
	return st.seqAt(base, i, t)
}

func (st *State) seqAt(s, i *Term, t types.Type) *Term {
	switch {
	case isSeq(s):
		if s.s == "seq:all" && s.a[0] == TNil || s.s == "seq:all" && st.knownTrue(mkEq(mkLen(s.a[0]), mkInt(0))) {
			if b := seqBound(s); b.op != OCall || b.s != "keys" {
				return seqElem(s, i)
			}
		}
		return nil
	case s.op == OAppendSlice:
		if st.knownTrue(mkEq(mkLen(s.a[0]), mkInt(0))) {
			return st.loadElem(s.a[1], i, t)
		}
		if b, _ := splitAdd(mkLen(s.a[0])); b == nil {
			n, _ := mkLen(s.a[0]).intVal()
			if k, ok := i.intVal(); ok {
				if k < n {
					return st.loadElem(s.a[0], i, t)
				}
				return st.loadElem(s.a[1], mkInt(k-n), t)
			}
		}
	case s.op == OAppend:
		n := mkLen(s.a[0])
		if n0, ok := n.intVal(); ok {
			if k, ok := i.intVal(); ok {
				if k < n0 {
					return st.loadElem(s.a[0], i, t)
				}
				if int(k-n0) < len(s.a)-1 {
					return s.a[1+k-n0]
				}
			}
		}
		if i == n && len(s.a) == 2 {
			return s.a[1]
		}
		if st.knownTrue(mkLt(i, n, types.Typ[types.Int])) {
			return st.loadElem(s.a[0], i, t)
		}
	case s.op == OCall && s.s == "contentof":
		return st.loadElem(s.a[0], i, t)
	}
	return nil
}

func (st *State) loadElem(base, i *Term, t types.Type) *Term {
	a := mkIndexAddr(base, i, t)
	if v := st.cell(a, t); v != nil {
		return v
	}
	if base.op == OAlloc && structNonNil(base) == 1 {
		if k, ok := i.intVal(); ok && t != nil {
			if !st.hasSymbolicElem(base) && st.heap[mkContent(base)] == nil && !st.facts[mkEscaped(base)] {
				_ = k
				return zeroOf(t)
			}
		}
	}
	return st.loadSym(a, t)
}

func (st *State) hasSymbolicElem(base *Term) bool {
	for k := range st.heap {
		if k.op == OIndexAddr && k.a[0] == base {
			if _, ok := k.a[1].intVal(); !ok {
				return true
			}
		}
	}
	return false
}

func (st *State) loadSym(a *Term, t types.Type) *Term {
	if a.op == OGlobal {
		if g := globalOf[a]; g != nil {
			if c := st.eng.p.constGlob[g]; c != nil {
				return st.eng.val(st, nil, c)
			}
		}
	}
	s := intern(OLoad, "", 0, 0, t, nil, nil, a)
	usedSyms[s] = true
	return s
}

// peek reads without treating the location as volatile.
func (st *State) peek(a *Term, t types.Type) *Term {
	if v := st.cell(a, t); v != nil {
		return v
	}
	if s := structOf(t); s != nil && st.hasSubCells(a) {
		return st.gather(a, t, s)
	}
	return st.loadSym(a, t)
}

func (st *State) hasSubCells(a *Term) bool {
	for k := range st.heap {
		if k != a && k.op == OFieldAddr && addrRootedAt(k, a) {
			return true
		}
	}
	return false
}

func (st *State) gather(a *Term, t types.Type, s *types.Struct) *Term {
	fs := make([]*Term, s.NumFields())
	for i := range fs {
		fs[i] = st.peek(mkFieldAddr(a, i, s), s.Field(i).Type())
	}
	return mkStruct(t, fs)
}

func (st *State) load(a *Term, t types.Type) *Term {
	if vp := st.volatileParts(a); len(vp) > 0 {
		for _, x := range vp {
			st.havocAt(x)
		}
		if len(vp) == 1 && vp[0] == a {
			return st.loadSym(a, t)
		}
	}
	if a.op == OIndexAddr {
		return st.loadElem(a.a[0], a.a[1], t)
	}
	return st.peek(a, t)
}

// holdsLockOf reports whether some lock of the object at base is held.
func (st *State) holdsLockOf(base *Term) bool {
	for m, n := range st.locks {
		if n != 0 && m.op == OFieldAddr && m.a[0] == base {
			return true
		}
	}
	return false
}

// volatileParts lists the parts of the location that may be changed by another
// goroutine at any moment.
func (st *State) volatileParts(a *Term) []*Term {
	path := ""
	for x := a; ; {
		switch x.op {
		case OFieldAddr:
			base := x.a[0]
			bt := derefType(base.t)
			if path == "" {
				path = x.s
			} else {
				path = x.s + "." + path
			}
			if hasMutexField(bt) {
				if base.op == OAlloc && !st.facts[mkEscaped(base)] {
					return nil
				}
				if st.holdsLockOf(base) {
					return nil
				}
				return st.eng.mutatedParts(a, typeKey(bt)+"."+path)
			}
			x = base
		case OAlloc:
			if st.facts[mkVolatile(x)] {
				return []*Term{a}
			}
			return nil
		case OGlobal:
			g := globalOf[x]
			if g != nil && st.eng.p.mutGlobal[g] {
				for m, n := range st.locks {
					if n != 0 && m.op == OGlobal && globalOf[m] != nil && globalOf[m].Pkg == g.Pkg {
						return nil
					}
				}
				return []*Term{a}
			}
			return nil
		default:
			return nil
		}
	}
}

// mutatedParts gives the parts of the field at a (known by its path) that are
// written after construction.
func (e *Engine) mutatedParts(a *Term, path string) []*Term {
	for p := path; ; {
		if e.p.mutFields[p] {
			return []*Term{a}
		}
		i := strings.LastIndexByte(p, '.')
		if i < 0 {
			break
		}
		p = p[:i]
	}
	var out []*Term
	s := structOf(derefType(a.t))
	if s == nil {
		return nil
	}
	deeper := false
	for k := range e.p.mutFields {
		if strings.HasPrefix(k, path+".") {
			deeper = true
		}
	}
	if !deeper {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		out = append(out, e.mutatedParts(mkFieldAddr(a, i, s), path+"."+s.Field(i).Name())...)
	}
	return out
}

// havocAt forgets the content of a location and everything reached through it.
func (st *State) havocAt(a *Term) {
	if len(st.eng.mono) > 0 && a.op == OFieldAddr {
		if v := st.eng.mono[typeKey(derefType(a.a[0].t))+"."+a.s]; v != nil {
			if st.knownTrue(mkEq(st.peek(a, v.t), v)) {
				// once it has this value it keeps it
				st.heap[a] = v
				return
			}
		}
	}
	// ancestors that hold the location by value
	if a.op == OFieldAddr {
		if pv := st.cellUp(a.a[0], derefType(a.a[0].t)); pv != nil {
			st.ageTerm(intern(OLoad, "", 0, 0, derefType(a.t), nil, nil, a))
			st.store(a, st.loadSym(a, derefType(a.t)))
		}
	}
	for k := range st.heap {
		if addrRootedAt(k, a) {
			delete(st.heap, k)
		}
	}
	for p := a; p.op == OFieldAddr; {
		p = p.a[0]
		st.ageTerm(intern(OLoad, "", 0, 0, derefType(p.t), nil, nil, p))
	}
	st.ageWhere(func(s *Term) bool { return s.op == OLoad && s.gen == 0 && addrRootedAt(s.a[0], a) })
	// contents of maps found there
	st.ageMaps(func(m *Term) bool { return m.op == OLoad && addrRootedAt(m.a[0], a) })
}

func (st *State) ageTerm(s *Term) {
	if usedSyms[s] {
		st.age(s)
	}
}

// ageWhere renames every current symbol that satisfies the condition.
func (st *State) ageWhere(f func(s *Term) bool) {
	for {
		var found *Term
		st.forTerms(func(t *Term) bool {
			for _, s := range t.syms {
				if s.gen == 0 && f(s) {
					if found == nil || s.id < found.id {
						found = s
					}
				}
			}
			return true
		})
		if found == nil {
			return
		}
		usedSyms[found] = true
		st.age(found)
		if st.mentions(found) {
			return
		}
	}
}

// ageMaps forgets what maps contain.
func (st *State) ageMaps(f func(m *Term) bool) {
	for k := range st.heap {
		if (k.op == OMapElem || k.op == OMapFull || k.op == OContent) && f(k.a[0]) {
			delete(st.heap, k)
		}
	}
	st.ageWhere(func(s *Term) bool { return (s.op == OLookup || s.op == OLookupOk) && f(s.a[0]) })
}

func (st *State) store(a, v *Term) {
	if a.op == OFieldAddr {
		base := a.a[0]
		bt := derefType(base.t)
		if s := structOf(bt); s != nil {
			if sv := st.cellUp(base, bt); sv != nil {
				fs := expandStruct(sv, bt)
				fs[a.idx] = v
				st.store(base, mkStruct(bt, fs))
				return
			}
		}
	}
	if a.op == OIndexAddr {
		for k := range st.heap {
			if k != a && (k.op == OIndexAddr && k.a[0] == a.a[0] && !st.distinct(k.a[1], a.a[1])) {
				delete(st.heap, k)
			} else if k.op == OFieldAddr && addrRootedAt(k, a.a[0]) {
				delete(st.heap, k)
			}
		}
		if ck := mkContent(a.a[0]); st.heap[ck] != nil && !st.atLoopIndex(a.a[1]) {
			delete(st.heap, ck)
		}
		if a.a[0].op != OAlloc {
			st.ageWhere(func(s *Term) bool {
				return s.op == OLoad && s != nil && s.a[0].op == OIndexAddr && s.a[0].a[0] == a.a[0]
			})
		}
	}
	for k := range st.heap {
		if k != a && addrRootedAt(k, a) && k.op != OMapElem && k.op != OMapFull && k.op != OContent {
			delete(st.heap, k)
		}
	}
	// struct copies named after the location keep their old meaning
	if a.root().op != OAlloc {
		for p := a; ; {
			if s := intern(OLoad, "", 0, 0, derefType(p.t), nil, nil, p); p != a && usedSyms[s] && st.mentions(s) {
				st.age(s)
			}
			if p.op != OFieldAddr {
				break
			}
			p = p.a[0]
		}
	}
	st.heap[a] = v
}

// atLoopIndex: the index is the one of a traversal in progress.
func (st *State) atLoopIndex(i *Term) bool {
	for _, f := range st.frames {
		for j := range f.loops {
			if x := f.loops[j].idx; x != nil && i.mentions(x) {
				return true
			}
		}
	}
	return false
}

func mkLookup(m, k *Term, t types.Type) *Term {
	s := intern(OLookup, "", 0, 0, t, nil, nil, m, k)
	usedSyms[s] = true
	return s
}

func mkLookupOk(m, k *Term) *Term {
	s := intern(OLookupOk, "", 0, 0, types.Typ[types.Bool], nil, nil, m, k)
	usedSyms[s] = true
	return s
}

// mapGet gives what is known of m[k]: value (nil if unknown), TAbs if absent.
func (st *State) mapGet(m, k *Term, t types.Type) *Term {
	if m == TNil || st.knownNil(m) {
		return TAbs
	}
	if v, ok := st.heap[mkMapElem(m, k)]; ok {
		return v
	}
	if st.heap[mkMapFull(m)] != nil {
		known := st.heap[mkContent(m)] == nil
		for x := range st.heap {
			if known && x.op == OMapElem && x.a[0] == m && !st.distinct(x.a[1], k) {
				known = false
			}
		}
		if known {
			return TAbs
		}
	}
	if v, ok := st.facts[mkLookupOk(m, k)]; ok {
		if !v {
			return TAbs
		}
		return mkLookup(m, k, t)
	}
	return nil
}

func (st *State) mapStore(m, k, v *Term) {
	e := mkMapElem(m, k)
	for x := range st.heap {
		if x != e && x.op == OMapElem && x.a[0] == m && !st.distinct(x.a[1], k) {
			if st.heap[x] == v {
				continue
			}
			delete(st.heap, x)
			delete(st.heap, mkMapFull(m))
		}
	}
	// set first: the value may be named after what the map held before
	st.heap[e] = v
	st.ageWhere(func(s *Term) bool {
		return (s.op == OLookup || s.op == OLookupOk) && s.a[0] == m && !st.distinct(s.a[1], k)
	})
	if v == TAbs {
		if c := st.heap[mkContent(m)]; c != nil {
			delete(st.heap, mkContent(m))
			delete(st.heap, mkMapFull(m))
		}
	}
}

func (e *Engine) lookup(st *State, fr *Frame, x *ssa.Lookup) {
	m, k := e.val(st, fr, x.X), e.val(st, fr, x.Index)
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok { // byte of a string
		e.oblig(st, "index", m, k, x)
		e.set(fr, x, intern(OIndex, "", 0, 0, x.Type(), nil, nil, m, k))
		return
	}
	if e.h.MapRead != nil {
		e.h.MapRead(st, m, k, x)
	}
	el := mt.Elem()
	put := func(s *State, v *Term, okv *Term) {
		if x.CommaOk {
			e.set(s.top(), x, tupleOf(v, okv))
		} else {
			e.set(s.top(), x, v)
		}
	}
	if c := st.heap[mkContent(m)]; c != nil && isSeq(c) && c.s == "seq:all" && c.a[0] == TNil {
		if b := seqBound(c); b.op == OCall && b.s == "keys" {
			// same keys as the map it was filled from
			src := b.a[0]
			v := seqElem(c, k)
			switch g := st.mapGet(src, k, el); {
			case g == TAbs:
				put(st, zeroOf(el), TFalse)
			case g != nil:
				put(st, v, TTrue)
			default:
				e.fork(st, func(s *State) bool {
					if !s.assume(mkLookupOk(src, k), true) {
						return false
					}
					put(s, v, TTrue)
					return true
				}, func(s *State) bool {
					if !s.assume(mkLookupOk(src, k), false) {
						return false
					}
					put(s, zeroOf(el), TFalse)
					return true
				})
			}
			return
		}
	}
	g := st.mapGet(m, k, el)
	if g == TAbs {
		put(st, zeroOf(el), TFalse)
		return
	}
	if g != nil {
		put(st, g, TTrue)
		return
	}
	if !x.CommaOk && nilable(el) && st.heap[mkMapFull(m)] == nil {
		put(st, mkLookup(m, k, el), nil)
		return
	}
	e.fork(st, func(s *State) bool {
		if !s.assume(mkLookupOk(m, k), true) {
			return false
		}
		s.note(instrPos(x), "key %s present", k)
		put(s, mkLookup(m, k, el), TTrue)
		return true
	}, func(s *State) bool {
		if !s.assume(mkLookupOk(m, k), false) {
			return false
		}
		s.note(instrPos(x), "key %s absent", k)
		put(s, zeroOf(el), TFalse)
		return true
	})
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return false
}

// next advances a map or string iterator.
func (e *Engine) next(st *State, fr *Frame, x *ssa.Next) {
	it := e.val(st, fr, x.Iter)
	kt := x.Type().(*types.Tuple).At(1).Type()
	vt := x.Type().(*types.Tuple).At(2).Type()
	var l *loopSt
	if n := len(fr.loops); n > 0 && fr.loops[n-1].loop.next == x {
		l = &fr.loops[n-1]
	}
	iterated := l != nil && l.iterated
	if x.IsString || it.op != ORange {
		e.fork(st, func(s *State) bool {
			f := s.top()
			k := s.sym("pos", x, f.ctx, 0, types.Typ[types.Int])
			v := s.sym("rune", x, f.ctx, 1, types.Typ[types.Rune])
			e.set(f, x, tupleOf(TTrue, k, v))
			return e.iterHook(s, f)
		}, func(s *State) bool {
			e.set(s.top(), x, tupleOf(TFalse, mkInt(0), mkInt(0)))
			return true
		})
		return
	}
	m := it.a[0]
	if e.h.MapScan != nil {
		e.h.MapScan(st, m, x)
	}
	if keys := literalMap(x); keys != nil && l == nil {
		// in the order in which they are written
		if it.idx >= len(keys) {
			e.set(fr, x, tupleOf(TFalse, zeroOf2(kt), zeroOf2(vt)))
			return
		}
		k := e.val(st, fr, keys[it.idx])
		et := elemType(m, vt)
		v := st.mapGet(m, k, et)
		if v == nil || v == TAbs {
			v = mkLookup(m, k, et)
		}
		fr.env[x.Iter] = intern(ORange, "", it.idx+1, 0, it.t, nil, nil, m)
		e.set(fr, x, tupleOf(TTrue, k, v))
		return
	}
	empty := false
	if st.knownNil(m) {
		empty = true
	}
	if st.heap[mkMapFull(m)] != nil && st.heap[mkContent(m)] == nil {
		some := false
		for k, v := range st.heap {
			if k.op == OMapElem && k.a[0] == m && v != TAbs {
				some = true
			}
		}
		if !some {
			empty = true
		}
	}
	var alts []func(s *State) bool
	if !empty {
		alts = append(alts, func(s *State) bool {
			f := s.top()
			if !iterated && !s.assume(mkEq(s.mapLen(m), mkInt(0)), false) {
				return false
			}
			k := s.sym("key", x, f.ctx, 0, keyType(m, kt))
			symSites[k] = symSite{x, f.ctx}
			// a cell under the previous key is not this one
			if n := len(f.loops); n > 0 && f.loops[n-1].loop.next == x {
				f.loops[n-1].key = k
				if cnt := f.loops[n-1].loop.cnt; cnt != nil {
					idx := s.sym("idx", cnt, f.ctx, 0, types.Typ[types.Int])
					symSites[idx] = symSite{cnt, f.ctx}
					f.loops[len(f.loops)-1].idx = idx
					f.env[cnt] = idx
					if !s.assume(mkLt(idx, s.mapLen(m), types.Typ[types.Int]), true) {
						return false
					}
				}
			}
			delete(s.heap, mkMapElem(m, k))
			var v *Term
			if c := s.heap[mkContent(m)]; c != nil && isSeq(c) && c.s == "seq:all" && c.a[0] == TNil {
				v = seqElem(c, k)
			} else {
				et := elemType(m, vt)
				s.facts[mkLookupOk(m, k)] = true
				v = mkLookup(m, k, et)
			}
			e.set(f, x, tupleOf(TTrue, k, v))
			return e.iterHook(s, f)
		})
	}
	alts = append(alts, func(s *State) bool {
		if !iterated {
			if !s.assume(mkEq(s.mapLen(m), mkInt(0)), true) {
				return false
			}
		}
		f := s.top()
		if n := len(f.loops); n > 0 && f.loops[n-1].loop.next == x {
			f.loops[n-1].key = nil
			if cnt := f.loops[n-1].loop.cnt; cnt != nil {
				f.loops[n-1].idx = nil
				f.env[cnt] = s.mapLen(m)
			}
		}
		e.set(f, x, tupleOf(TFalse, zeroOf2(kt), zeroOf2(vt)))
		return true
	})
	e.fork(st, alts...)
}

func (e *Engine) iterHook(s *State, f *Frame) bool {
	if e.h.LoopIter == nil || len(f.loops) == 0 {
		return true
	}
	l := &f.loops[len(f.loops)-1]
	return e.h.LoopIter(s, &LoopEv{fr: f, loop: l.loop, st: l})
}

func zeroOf2(t types.Type) *Term {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return TNil
	}
	return zeroOf(t)
}

func keyType(m *Term, t types.Type) types.Type {
	if m.t != nil {
		if mt, ok := m.t.Underlying().(*types.Map); ok {
			return mt.Key()
		}
	}
	return t
}

func elemType(m *Term, t types.Type) types.Type {
	if m.t != nil {
		if mt, ok := m.t.Underlying().(*types.Map); ok {
			return mt.Elem()
		}
	}
	return t
}

// lockHavoc: after acquiring a lock everything it protects may have changed.
func (st *State) lockHavoc(mu *Term) {
	e := st.eng
	switch mu.op {
	case OFieldAddr:
		base := mu.a[0]
		if base.op == OAlloc && !st.facts[mkEscaped(base)] {
			return
		}
		bt := derefType(base.t)
		s := structOf(bt)
		if s == nil {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if isSyncType(derefType(ft)) {
				continue
			}
			fa := mkFieldAddr(base, i, s)
			parts := e.mutatedParts(fa, typeKey(bt)+"."+s.Field(i).Name())
			for _, x := range parts {
				st.havocAt(x)
			}
			if _, ok := ft.Underlying().(*types.Map); ok && len(parts) == 0 && !e.p.mutMaps[typeKey(bt)+"."+s.Field(i).Name()] {
				continue // nobody changes this map
			}
			if len(parts) != 1 || parts[0] != fa {
				st.ageMaps(func(m *Term) bool { return m.op == OLoad && addrRootedAt(m.a[0], fa) })
			}
		}
	case OGlobal:
		g := globalOf[mu]
		if g == nil {
			return
		}
		st.ageWhere(func(s *Term) bool {
			if s.op == OLoad && s.a[0].op == OGlobal {
				o := globalOf[s.a[0]]
				return o != nil && o.Pkg == g.Pkg && e.p.mutGlobal[o]
			}
			return false
		})
		st.ageMaps(func(m *Term) bool {
			if m.op == OLoad && m.a[0].op == OGlobal {
				o := globalOf[m.a[0]]
				return o != nil && o.Pkg == g.Pkg
			}
			return false
		})
	}
}

// havocPointee: an unknown function may write through the pointer.
func (st *State) havocPointee(v *Term) {
	v = unwrapIface(v)
	if v.op == OSlice {
		v = v.a[0]
	}
	if v.t == nil {
		return
	}
	switch v.t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map:
	default:
		return
	}
	switch v.op {
	case OAlloc, OFieldAddr, OIndexAddr, OSym, OLoad:
	default:
		return
	}
	if isSyncType(derefType(v.t)) || st.eng.p.frozen(derefType(v.t)) {
		return
	}
	if v.op == OFieldAddr && st.cellUp(v.a[0], derefType(v.a[0].t)) != nil {
		el := derefType(v.t)
		s := intern(OLoad, "", 0, 0, el, nil, nil, v)
		if usedSyms[s] {
			st.age(s)
		}
		usedSyms[s] = true
		st.store(v, s)
		return
	}
	st.havocAt(v)
	for k := range st.heap {
		if addrRootedAt(k, v) {
			delete(st.heap, k)
		}
	}
}

// frozen: values of a type of the repository that no other code can name, of
// which no field changes once they are made.
func (p *Program) frozen(t types.Type) bool {
	if p.frozenT == nil {
		p.frozenT = map[types.Type]bool{}
	}
	v, ok := p.frozenT[t]
	if !ok {
		v = p.isFrozen(t)
		p.frozenT[t] = v
	}
	return v
}

func (p *Program) isFrozen(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Exported() || n.Obj().Pkg() == nil || p.spkgs[n.Obj().Pkg().Path()] == nil {
		return false
	}
	s := structOf(t)
	if s == nil || s.NumFields() == 0 {
		return false
	}
	if !hasMethod(t, "Error") {
		// a decoder may fill in exported fields
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Exported() || s.Field(i).Embedded() {
				return false
			}
		}
	}
	key := typeKey(t) + "."
	for k := range p.mutFields {
		if strings.HasPrefix(k, key) {
			return false
		}
	}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.Store); ok && sameNamed(derefType(x.Addr.Type()), t) && !isFreshLocal(x.Addr, 0) {
					return false
				}
			}
		}
	}
	return true
}

// escape: other code may now reach the objects in v.
func (e *Engine) escape(st *State, v *Term, in ssa.Instruction) {
	for _, s := range v.syms {
		if s.op == OAlloc && s.gen == 0 && !st.facts[mkEscaped(s)] {
			st.facts[mkEscaped(s)] = true
			// objects its fields hold
			if c, ok := st.heap[s]; ok {
				e.escape(st, c, in)
			}
		}
	}
	e.escapeClosures(st, v, in, 0)
}

func (e *Engine) escapeClosures(st *State, v *Term, in ssa.Instruction, d int) {
	if d > 6 {
		return
	}
	if v.op == OClosure {
		e.markVolatile(st, v)
	}
	if v.op == OClosure || v.op == OFunc {
		if e.h.Escape != nil && e.h.Escape(st, v, in) {
			e.spawn(st, v, "callback "+v.fn.String())
		}
		return
	}
	switch v.op {
	case OIface, OStruct, OAppend, OTuple:
		for _, a := range v.a {
			e.escapeClosures(st, a, in, d+1)
		}
	}
}

// markVolatile: captured variables that are assigned again after the closure
// escaped can change at any time.
func (e *Engine) markVolatile(st *State, cl *Term) {
	for _, b := range cl.a {
		if b.op != OAlloc {
			continue
		}
		si, ok := symSites[b]
		if !ok {
			continue
		}
		al, ok := si.in.(*ssa.Alloc)
		if !ok {
			continue
		}
		if reassigned(al) {
			st.facts[mkVolatile(b)] = true
			delete(st.heap, b)
		}
	}
}

var reassignedMemo = map[*ssa.Alloc]bool{}

func reassigned(al *ssa.Alloc) bool {
	if r, ok := reassignedMemo[al]; ok {
		return r
	}
	inner := 0
	var stores, made []ssa.Instruction
	var visit func(v ssa.Value, closure bool)
	visit = func(v ssa.Value, closure bool) {
		if v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			switch u := r.(type) {
			case *ssa.Store:
				if u.Addr == v {
					if closure {
						inner++
					} else {
						stores = append(stores, u)
					}
				}
			case *ssa.FieldAddr:
				// assignments to parts of a captured struct
				for _, rr := range *u.Referrers() {
					if s, ok := rr.(*ssa.Store); ok && s.Addr == u {
						if closure {
							inner++
						}
					}
				}
			case *ssa.MakeClosure:
				if !closure {
					made = append(made, u)
				}
				for i, b := range u.Bindings {
					if b == v {
						visit(u.Fn.(*ssa.Function).FreeVars[i], true)
					}
				}
			}
		}
	}
	visit(al, false)
	r := inner > 0
	for _, c := range made {
		for _, s := range stores {
			r = r || reaches(c, s, al)
		}
	}
	reassignedMemo[al] = r
	return r
}

// reaches: can b be executed after a, without al being executed in between?
func reaches(a, b ssa.Instruction, al *ssa.Alloc) bool {
	after := func(blk *ssa.BasicBlock, from int) (found, stop bool) {
		for _, in := range blk.Instrs[from:] {
			if in == ssa.Instruction(al) {
				return false, true
			}
			if in == b {
				return true, true
			}
		}
		return false, false
	}
	ia := 0
	for i, in := range a.Block().Instrs {
		if in == a {
			ia = i + 1
		}
	}
	found, stop := after(a.Block(), ia)
	if found || stop {
		return found
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), a.Block().Succs...)
	for len(work) > 0 {
		blk := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[blk] {
			continue
		}
		seen[blk] = true
		found, stop := after(blk, 0)
		if found {
			return true
		}
		if !stop {
			work = append(work, blk.Succs...)
		}
	}
	return false
}

// spawn follows a function on a goroutine of its own.
func (e *Engine) spawn(st *State, fv *Term, name string, args ...*Term) {
	if fv.fn == nil || fv.fn.Blocks == nil {
		return
	}
	c := st.clone()
	c.locks = map[*Term]int{}
	c.panicking = false
	fr := &Frame{fn: fv.fn, ctx: mkCtx(nil, nil, fv.fn), env: map[ssa.Value]*Term{}}
	for i, p := range fv.fn.FreeVars {
		if i < len(fv.a) {
			fr.env[p] = fv.a[i]
		}
	}
	for i, p := range fv.fn.Params {
		if i < len(args) && args[i] != nil {
			fr.env[p] = args[i]
		} else {
			s := intern(OSym, "param:"+fv.fn.String()+":"+p.Name(), i, 0, p.Type(), nil, nil)
			fr.env[p] = s
			if isContextType(p.Type()) {
				c.assume(mkEq(s, TNil), false)
			}
		}
	}
	fr.block = fv.fn.Blocks[0]
	c.frames = []*Frame{fr}
	c.thread = name
	if i := strings.LastIndex(name, "/"); i > 0 {
		c.thread = name
	}
	if e.h.Thread != nil {
		e.h.Thread(c)
	}
	c.gc()
	h := c.hash()
	if e.spawned[h] {
		return
	}
	e.spawned[h] = true
	e.roots = append(e.roots, name)
	e.push(c)
}
