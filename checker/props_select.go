package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C25", "path-sensitive dataflow with linear relations between offsets, limits and lengths; the comparator judged under every order of two keys; agreement of the continue token's codec",
		"List and Index are explored with an arbitrary selector; every index and slice bound must be entailed by the path, the entries returned must be the window of the sorted answer the selector asks for, and the continue token must encode its end",
		runSelect)
}

// tokUse is how continue tokens are written.
type tokUse struct {
	enc, order *Term
	t          types.Type
	field      int
}

type selectRun struct {
	*storeRun
	fn      *ssa.Function
	sel     *Term
	issued  *tokUse
	pass    int
	cmps    map[string]*cmpUse
	hadCont bool
}

type cmpUse struct {
	st   *State
	f    *Term
	list *Term
	in   ssa.Instruction
	name string
}

func selField(ss *types.Struct, name string) int {
	for i := 0; i < ss.NumFields(); i++ {
		if ss.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (r *selectRun) part(st *State, name string) *Term {
	ss := structOf(derefType(r.sel.t))
	i := selField(ss, name)
	if i < 0 {
		return nil
	}
	return st.peek(mkFieldAddr(r.sel, i, ss), ss.Field(i).Type())
}

func runSelect(a *Analysis) {
	s := findStore(a)
	if s == nil {
		return
	}
	p := a.program()
	a.rule("every index and slice expression reached with a selector is in bounds, for all offsets, limits and tokens")
	a.rule("entries returned = sorted answer [offset : min(offset+limit, length)], offset from the token if there is one, negatives as zero")
	a.rule("a continue token is returned exactly when entries remain, encodes the end of the window, and is read back with the same codec; an unreadable token is reported")
	a.rule("the comparator says key(i) < key(j), or the opposite when descending, on the list being sorted; offset and limit apply afterwards")
	a.rule("a list without selector holds every stored entry exactly once")
	selT := p.typ("store", "Selector")
	if !a.anchor(selT != nil && structOf(selT) != nil, "store.Selector") {
		return
	}
	for _, n := range []string{"Offset", "Limit", "Continue", "Ordering"} {
		if !a.anchor(selField(structOf(selT), n) >= 0, "store.Selector."+n) {
			return
		}
	}
	var use *tokUse
	for pass := 0; pass < 2; pass++ {
		for _, name := range []string{"List", "Index"} {
			fn := p.method(s.cacheT, name)
			if !a.anchor(fn != nil, "the store's "+name) {
				return
			}
			r := &selectRun{storeRun: newStoreRun(a, s, "C25", name), fn: fn, pass: pass, issued: use, cmps: map[string]*cmpUse{}}
			r.plain = true
			r.res = fn.Signature.Results()
			r.run(a)
			if pass == 0 && use == nil {
				use = r.issued
			}
		}
		if pass == 0 && use == nil {
			a.violate(p, "continue", s.ctor.Pos(), "store", "no path returns a continue token that encodes an offset")
			return
		}
	}
}

func (r *selectRun) run(a *Analysis) {
	e := r.e
	prevCall := e.h.Call
	e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
		switch c.name {
		case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
			x := unwrapIface(c.args[0])
			st.set("sorted", x)
			r.whole(st, x, c.instr)
			key := c.name + x.String() + c.args[1].String()
			if r.cmps[key] == nil {
				r.cmps[key] = &cmpUse{st.clone(), unwrapIface(c.args[1]), x, c.instr, c.name}
			}
		case "sort.Sort", "sort.Stable", "slices.Sort", "sort.Strings":
			r.bad(st, "sort", c.instr, "the answer is sorted in a way that is not modelled")
		}
		return prevCall(st, c)
	}
	e.h.Oblig = func(st *State, kind string, t, arg *Term, in ssa.Instruction) {
		if kind != "index" && kind != "slice" {
			return
		}
		if r.pass == 0 {
			return
		}
		a.count("obligations checked", 1)
		if why := st.boundsOK(kind, t, arg); why != "" {
			e.report(st, "bounds", in, "%s: %s", r.op, why)
		}
	}
	e.h.Load = func(st *State, addr *Term, in ssa.Instruction) {
		if addr.op == OFieldAddr && sameNamed(addr.a[0].t, r.s.storT) && addr.idx == r.s.items {
			st.set("M", r.s.fieldOf(st, addr.a[0], r.s.items))
		}
	}
	e.h.Exit = func(st *State, res []*Term) { r.exitSel(st, res) }
	root := e.addRoot(nil, r.fn, nil, nil)
	fr := root.top()
	r.self = fr.env[r.fn.Params[0]]
	for _, x := range r.fn.Params[1:] {
		r.params = append(r.params, fr.env[x])
	}
	r.sel = r.selector()
	if !a.anchor(r.sel != nil, r.op+" takes a *Selector") {
		return
	}
	if r.pass == 0 {
		e.run()
		return
	}
	a.explore(e)
	for _, c := range r.cmps {
		r.comparator(a, c)
	}
}

func (r *selectRun) bad(st *State, rule string, in ssa.Instruction, f string, args ...any) {
	if r.pass > 0 {
		r.e.report(st, rule, in, f, args...)
	}
}

// whole: a list holds every stored entry once (List only).
func (r *selectRun) whole(st *State, x *Term, in ssa.Instruction) {
	if r.op != "List" || r.pass == 0 {
		return
	}
	r.a.count("obligations checked", 1)
	b, tmpl, _ := st.seqView(x)
	if b == nil && st.knownTrue(mkEq(mkLen(x), mkInt(0))) {
		if m := st.get("M"); m != nil && st.knownTrue(mkEq(st.mapLen(m), mkInt(0))) {
			return
		}
		// nothing stored: the copied list was empty
		for f, v := range st.facts {
			if f.op == OEq && v && (f.a[0].isConst() || f.a[1].isConst()) && mentionsItems(r.s, f) {
				return
			}
		}
		r.bad(st, "incomplete", in, "the list is empty although entries may be stored")
		return
	}
	for i := 0; b != nil && i < 3; i++ {
		l, _, _ := elementOf(tmpl)
		if l == nil {
			break
		}
		if b != mkLen(l) {
			r.bad(st, "incomplete", in, "the list is not known to hold every stored entry exactly once")
			return
		}
		b, tmpl, _ = st.seqView(l)
	}
	items := st.get("M")
	ok := b != nil && b.op == OCall && b.s == "keys" && items != nil && b.a[0] == items && contains(tmpl, items)
	if !ok {
		r.bad(st, "incomplete", in, "the list is not known to hold every stored entry exactly once")
	}
}

func mentionsItems(s *storeParts, f *Term) bool {
	found := false
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || found {
			return
		}
		if t.t != nil && s.isItems(t) {
			found = true
		}
		for _, a := range t.a {
			walk(a)
		}
	}
	walk(f)
	return found
}

func (r *selectRun) exitSel(st *State, res []*Term) {
	if len(res) != 2 {
		return
	}
	a := r.a
	a.count("obligations checked", 1)
	set, err := res[0], res[1]
	ss := structOf(r.res.At(0).Type())
	if ss == nil {
		return
	}
	var entries, cont *Term
	for i := 0; i < ss.NumFields(); i++ {
		switch {
		case ss.Field(i).Name() == "Continue":
			cont = mkField(set, i, ss)
		case ss.Field(i).Name() == "Entries":
			entries = mkField(set, i, ss)
		}
	}
	if entries == nil || cont == nil {
		return
	}
	if r.op == "Index" && st.knownNonNil(err) && !st.flag("tokenbad") && st.get("token") == nil {
		return // the index may be unknown
	}
	if st.knownNil(r.sel) {
		if r.op == "List" {
			if !st.knownNil(err) {
				r.bad(st, "refused", nil, "List can fail without a selector")
				return
			}
			r.whole(st, entries, nil)
		}
		return
	}
	if !st.knownNonNil(r.sel) {
		r.bad(st, "selector", nil, "%s returns without considering the selector", r.op)
		return
	}
	given := st.evalBool(mkEq(r.part(st, "Continue"), mkStr("")))
	if !st.knownNil(err) {
		if !st.knownNonNil(err) {
			r.bad(st, "refused", nil, "it is not known whether %s fails", r.op)
			return
		}
		if given == TFalse {
			return // the token may be unusable
		}
		if r.op == "Index" {
			return // the index may be unknown
		}
		r.bad(st, "refused", nil, "List can fail with a usable selector")
		return
	}
	if st.flag("tokenbad") {
		r.bad(st, "token-ignored", nil, "an unreadable continue token is not reported")
		return
	}
	// the offset asked for
	var off *Term
	switch given {
	case TTrue:
		off = r.part(st, "Offset")
	case TFalse:
		tok := st.get("token")
		if tok == nil {
			r.bad(st, "token-ignored", nil, "the continue token is not read")
			return
		}
		if r.issued == nil {
			return
		}
		enc, order, text := tokenFrom(tok)
		if text == nil || strip(text) != r.part(st, "Continue") {
			r.bad(st, "token", nil, "what is read is not the continue token")
			return
		}
		if enc != r.issued.enc || strip(order) != strip(r.issued.order) || !types.Identical(tok.t, r.issued.t) {
			r.bad(st, "token", nil, "continue tokens are not read the way they are written")
			return
		}
		off = mkField(tok, r.issued.field, structOf(tok.t))
	default:
		r.bad(st, "token-ignored", nil, "it is not considered whether there is a continue token")
		return
	}
	if st.entailsLT(off, mkInt(0)) {
		off = mkInt(0)
	}
	list := entries
	lo, hi := mkInt(0), (*Term)(nil)
	if list.op == OSlice {
		if list.a[1] != TNil {
			lo = list.a[1]
		}
		if list.a[2] != TNil {
			hi = list.a[2]
		}
		list = list.a[0]
	}
	n := mkLen(list)
	if hi == nil {
		hi = n
	}
	empty := st.entailsEQ(lo, hi) || st.knownTrue(mkEq(mkLen(entries), mkInt(0)))
	if !(list.op == OCall && list.s == "perm" && st.get("sorted") == list) && !st.entailsLE(n, mkInt(1)) {
		r.bad(st, "unsorted", nil, "the entries are not known to be taken from the sorted answer")
		return
	}
	limit := r.part(st, "Limit")
	noToken := cont == mkStr("") || st.knownTrue(mkEq(cont, mkStr("")))
	if empty {
		if so := st.get("sorted"); so != nil {
			n = mkLen(so)
		}
		if !st.entailsLE(n, off) && !st.entailsLE(n, mkInt(0)) {
			r.bad(st, "window", nil, "no entries are returned although there may be some at the offset")
		}
		if !noToken {
			r.bad(st, "continue", nil, "a continue token is returned although no entries remain")
		}
		return
	}
	if !st.entailsEQ(lo, off) {
		r.bad(st, "window", nil, "the entries returned do not start at the offset asked for")
		return
	}
	limited := st.entailsLT(mkInt(0), limit)
	unlimited := st.entailsLE(limit, mkInt(0))
	hl, ll, nl := st.linOf(hi, 3), st.linOf(lo, 3), st.linOf(n, 3)
	size := hl.add(ll, -1)
	lim := st.linOf(limit, 3)
	all := st.entails(nl.add(hl, -1)) // n <= hi
	rest := st.entails(hl.add(nl, -1).add(linConst(1), 1))
	if !all && !rest {
		r.bad(st, "continue", nil, "it is not known whether entries remain")
		return
	}
	switch {
	case rest && !limited:
		r.bad(st, "window", nil, "entries are left out although no limit is known to be set")
	case rest && !(st.entails(size.add(lim, -1)) && st.entails(lim.add(size, -1))):
		r.bad(st, "window", nil, "entries are left out although the limit is not reached")
	case all && !unlimited && !st.entails(size.add(lim, -1)):
		r.bad(st, "window", nil, "more entries may be returned than the limit")
	}
	if all {
		if !noToken {
			r.bad(st, "continue", nil, "a continue token is returned although no entries remain")
		}
		return
	}
	enc, order, v := tokenOf(cont)
	if v == nil || structOf(v.t) == nil {
		r.bad(st, "continue", nil, "no continue token is returned although entries remain")
		return
	}
	vs := structOf(v.t)
	found := -1
	for i := 0; i < vs.NumFields(); i++ {
		f := mkField(v, i, vs)
		if !isIntType(vs.Field(i).Type()) {
			continue
		}
		g := stripWide(f)
		if st.entails(st.linOf(g, 3).add(hl, -1)) && st.entails(hl.add(st.linOf(g, 3), -1)) {
			found = i
		}
	}
	if found < 0 {
		r.bad(st, "continue", nil, "the continue token does not encode where the entries returned end")
		return
	}
	r.hadCont = true
	u := &tokUse{enc, order, v.t, found}
	if r.issued == nil {
		r.issued = u
	} else if r.pass > 0 && (u.enc != r.issued.enc || strip(u.order) != strip(r.issued.order) || !types.Identical(u.t, r.issued.t) || u.field != r.issued.field) {
		r.bad(st, "continue", nil, "continue tokens are written in different ways")
	}
}

// comparator judges the order for each relation two keys can have.
func (r *selectRun) comparator(a *Analysis, c *cmpUse) {
	fn, binds := closureOf(c.f)
	if fn == nil || len(fn.Params) != 2 {
		r.e.report(c.st, "sort", c.in, "the order of the answer is not found")
		return
	}
	ints := isIntType(fn.Signature.Results().At(0).Type())
	for _, ord := range []int64{0, 1} {
		for _, rel := range []int{-1, 0, 1} {
			e := newEngine(r.s.p)
			followOnly(e, "store", "store/internal")
			st := c.st.clone()
			st.frames = nil
			st.locks = map[*Term]int{}
			st.thread = fn.String()
			st.eng = e
			for t := range r.e.persistent {
				e.persistent[t] = true
			}
			var ka, kb *Term
			elem := func(x *State, p *Term) *Term {
				if isIntType(p.t) {
					return x.loadElem(c.list, p, r.s.entryT)
				}
				return p
			}
			root := e.addRoot(st, fn, nil, binds)
			fr := root.top()
			pa, pb := fr.env[fn.Params[0]], fr.env[fn.Params[1]]
			if isIntType(pa.t) {
				ok := true
				for _, p := range []*Term{pa, pb} {
					root.ivals[p] = ival{0, fullIval.hi}
					ok = ok && root.assume(mkLt(p, mkLen(c.list), types.Typ[types.Int]), true)
				}
				if !ok || !root.assume(mkEq(pa, pb), false) {
					continue // nothing to compare
				}
			}
			if !root.assume(mkEq(r.part(root, "Ordering"), mkInt(ord)), true) {
				continue
			}
			e.h.Oblig = func(st *State, kind string, t, arg *Term, in ssa.Instruction) {
				if kind == "index" || kind == "slice" {
					a.count("obligations checked", 1)
					if why := st.boundsOK(kind, t, arg); why != "" {
						e.report(st, "bounds", in, "while sorting, %s", why)
					}
				}
			}
			sign := func(x, y *Term) (int, bool) {
				switch {
				case x == y && x != nil:
					return 0, true
				case x == ka && y == kb && ka != nil:
					return rel, true
				case x == kb && y == ka && ka != nil:
					return -rel, true
				}
				return 0, false
			}
			e.h.Call = func(st *State, cc *Call) ([]Outcome, bool) {
				if cc.fnval != nil && cc.fnval.t != nil && isKeyFunc(cc.fnval.t, r.s.entryT) {
					k := intern(OCall, "keyof", 0, 0, types.Typ[types.String], nil, nil, cc.fnval, cc.args[0])
					mk := func(p *Term) *Term {
						return intern(OCall, "keyof", 0, 0, types.Typ[types.String], nil, nil, cc.fnval, elem(st, p))
					}
					ka, kb = mk(pa), mk(pb)
					if ka == kb {
						e.report(st, "sort", cc.instr, "the elements compared are not told apart")
						return nil, false
					}
					return []Outcome{{res: []*Term{k, TNil}, mod: func(x *State) bool {
						return x.assume(mkEq(ka, kb), rel == 0) && x.assume(mkLt(ka, kb, types.Typ[types.String]), rel < 0) && x.assume(mkLt(kb, ka, types.Typ[types.String]), rel > 0)
					}}}, true
				}
				switch cc.name {
				case "strings.Compare", "cmp.Compare", "cmp.Less":
					if n, ok := sign(cc.args[0], cc.args[1]); ok {
						if cc.name == "cmp.Less" {
							return []Outcome{{res: []*Term{mkBool(n < 0)}}}, true
						}
						return []Outcome{{res: []*Term{mkInt(int64(n))}}}, true
					}
				}
				if cc.fn != nil && cc.fn.Origin() != nil && len(cc.args) == 2 && (cc.fn.Origin().String() == "cmp.Compare" || cc.fn.Origin().String() == "cmp.Less") {
					if n, ok := sign(cc.args[0], cc.args[1]); ok {
						if cc.fn.Origin().Name() == "Less" {
							return []Outcome{{res: []*Term{mkBool(n < 0)}}}, true
						}
						return []Outcome{{res: []*Term{mkInt(int64(n))}}}, true
					}
				}
				return nil, false
			}
			e.h.Exit = func(st *State, res []*Term) {
				if len(res) != 1 {
					return
				}
				a.count("obligations checked", 1)
				want := rel
				if ord == 1 {
					want = -rel
				}
				ok := false
				if ints {
					switch {
					case want < 0:
						ok = st.entailsLT(res[0], mkInt(0))
					case want > 0:
						ok = st.entailsLT(mkInt(0), res[0])
					default:
						ok = st.entailsEQ(res[0], mkInt(0))
					}
				} else if want < 0 {
					ok = st.knownTrue(res[0])
				} else {
					ok = st.knownFalse(res[0])
				}
				if !ok {
					names := map[int]string{-1: "less than", 0: "equal to", 1: "greater than"}
					e.report(st, "order", nil, "the comparison is wrong or unknown when the first key is %s the second and the ordering is %d", names[rel], ord)
				}
			}
			a.explore(e)
		}
	}
}

// closureOf splits a function value.
func closureOf(f *Term) (*ssa.Function, []*Term) {
	f = strip(f)
	switch f.op {
	case OFunc:
		return f.fn, nil
	case OClosure:
		return f.fn, f.a
	}
	return nil, nil
}
