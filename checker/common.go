package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pkgPath gives the package a function belongs to, closures and instances included.
func pkgPath(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// followOnly restricts an engine to functions of some packages.
func followOnly(e *Engine, rels ...string) {
	ok := map[string]bool{modPath + "/vfmodels": true, "": true}
	for _, r := range rels {
		if r == "" {
			ok[modPath] = true
		} else {
			ok[modPath+"/"+r] = true
		}
	}
	prev := e.h.Opaque
	e.h.Opaque = func(fn *ssa.Function) bool {
		if prev != nil && prev(fn) {
			return true
		}
		return !ok[pkgPath(fn)]
	}
}

// concreteResult finds the concrete type a constructor returns as an interface.
func concreteResult(fn *ssa.Function, depth int) types.Type {
	if fn == nil || fn.Blocks == nil || depth > 5 {
		return nil
	}
	var out types.Type
	ok := true
	var add func(v ssa.Value, d int)
	add = func(v ssa.Value, d int) {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			t := x.X.Type()
			if out != nil && !types.Identical(out, t) {
				ok = false
			}
			out = t
		case *ssa.ChangeInterface:
			add(x.X, d)
		case *ssa.Phi:
			if d < 5 {
				for _, e := range x.Edges {
					add(e, d+1)
				}
			}
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil {
				if t := concreteResult(f, depth+1); t != nil {
					if out != nil && !types.Identical(out, t) {
						ok = false
					}
					out = t
				}
			}
		case *ssa.UnOp:
			if a, is := x.X.(*ssa.Alloc); is && x.Op == token.MUL {
				for _, r := range *a.Referrers() {
					if s, is := r.(*ssa.Store); is && s.Addr == a {
						add(s.Val, d+1)
					}
				}
			}
		default:
			if _, isI := v.Type().Underlying().(*types.Interface); !isI {
				out = v.Type()
			}
		}
	}
	for _, b := range fn.Blocks {
		if r, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is && len(r.Results) > 0 {
			add(r.Results[0], 0)
		}
	}
	if !ok {
		return nil
	}
	return out
}

// chain continues after an exploration with a call on what it left behind.
func (e *Engine) chain(st *State, fn *ssa.Function, args []*Term) *State {
	n := st.clone()
	n.frames = nil
	n.locks = map[*Term]int{}
	n.panicking = false
	n.dead = false
	n.thread = fn.String()
	for _, a := range args {
		if a != nil {
			e.escape(n, a, nil)
		}
	}
	return e.addRoot(n, fn, args, nil)
}

// strip removes conversions.
func strip(t *Term) *Term {
	for t != nil && (t.op == OConv || t.op == OIface) {
		t = t.a[0]
	}
	return t
}

// stripWide removes conversions that keep 31 bit values.
func stripWide(t *Term) *Term { return stripTo(t, 32) }

// stripTo removes conversions other than those to integers of fewer bits.
func stripTo(t *Term, bits int) *Term {
	for t != nil && (t.op == OConv || t.op == OIface) {
		if t.op == OConv && isIntType(t.t) && intSize(t.t) < bits {
			return t
		}
		t = t.a[0]
	}
	return t
}

// fieldLoad reports whether t is the content of a field of the given struct
// type, and which.
func fieldLoad(t *Term) (owner types.Type, field string, base *Term) {
	if t.op == OLoad && t.a[0].op == OFieldAddr {
		b := t.a[0].a[0]
		return derefType(b.t), t.a[0].s, b
	}
	if t.op == OField {
		return t.a[0].t, t.s, t.a[0]
	}
	return nil, "", nil
}

func fieldAddrOf(t *Term) (owner types.Type, field string, base *Term) {
	if t.op == OFieldAddr {
		return derefType(t.a[0].t), t.s, t.a[0]
	}
	return nil, "", nil
}

func sameNamed(a, b types.Type) bool {
	if a == nil || b == nil {
		return false
	}
	return types.Identical(derefType(a), derefType(b))
}

// contains reports whether x occurs in t.
func contains(t, x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.a {
		if contains(a, x) {
			return true
		}
	}
	return false
}

// occurs also looks through objects of the heap.
func (st *State) occurs(t, x *Term, depth int) bool {
	if contains(t, x) {
		return true
	}
	if depth > 3 {
		return false
	}
	for _, s := range t.syms {
		if s.op == OAlloc {
			for k, v := range st.heap {
				if addrRootedAt(k, s) && v != t && st.occurs(v, x, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

func hasMethod(t types.Type, name string) bool {
	if t == nil {
		return false
	}
	for _, x := range []types.Type{t, types.NewPointer(t)} {
		ms := types.NewMethodSet(x)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return true
			}
		}
	}
	return false
}

// forEach observes that every element of a list of functions is called exactly
// once, in order, in every region.
type forEach struct {
	e      *Engine
	name   string
	isList func(st *State, t *Term) bool
}

func (f *forEach) k(s string) string { return f.name + ":" + s }

// begin starts a region.
func (f *forEach) begin(st *State) {
	for _, s := range []string{"over", "n", "full", "list", "bad", "stale"} {
		st.set(f.k(s), nil)
	}
	st.setFlag(f.k("on"), true)
}

func (f *forEach) on(st *State) bool { return st.flag(f.k("on")) }

// listOf finds the handler list whose length bounds a traversal.
func (f *forEach) listOf(st *State, bound *Term) *Term {
	if bound == nil {
		return nil
	}
	if bound.op == OLen && f.isList(st, bound.a[0]) {
		return bound.a[0]
	}
	return nil
}

func (f *forEach) loopEnter(st *State, l *LoopEv) {
	if !f.on(st) || l.st.mode != 1 || !l.st.exact {
		return
	}
	if f.listOf(st, l.st.bound) != nil {
		st.set(f.k("over"), l.st.over)
		st.setNum(f.k("n"), 0)
		if st.get(f.k("list")) == nil {
			st.setFlag(f.k("stale"), true) // read before the region
		}
	}
}

func (f *forEach) cur(st *State, l *LoopEv) bool {
	return f.on(st) && st.get(f.k("over")) == l.st.over
}

func (f *forEach) loopIter(st *State, l *LoopEv) {
	if f.cur(st, l) {
		st.setNum(f.k("n"), 0)
	}
}

func (f *forEach) loopBack(st *State, l *LoopEv) {
	if f.cur(st, l) && st.num(f.k("n")) != 1 {
		st.setFlag(f.k("skipped"), true)
	}
}

func (f *forEach) loopDone(st *State, l *LoopEv) {
	if f.cur(st, l) {
		if !st.flag(f.k("skipped")) {
			st.setNum(f.k("full"), st.num(f.k("full"))+1)
		}
		st.setFlag(f.k("skipped"), false)
		st.set(f.k("over"), nil)
	}
}

func (f *forEach) loopBreak(st *State, l *LoopEv) {
	if f.cur(st, l) {
		st.set(f.k("over"), nil)
		st.setFlag(f.k("skipped"), false)
	}
}

// element reports whether the function value is an element of the list, and
// whether it is the one the traversal is at.
func (f *forEach) element(st *State, fv *Term) (isElem, inOrder bool) {
	if fv == nil {
		return false, false
	}
	x := fv
	if x.op == OLoad && x.a[0].op == OIndexAddr && f.isList(st, x.a[0].a[0]) {
		i := x.a[0].a[1]
		for _, fr := range st.frames {
			for j := range fr.loops {
				l := &fr.loops[j]
				if l.over == st.get(f.k("over")) && l.idx != nil && l.idx == i {
					return true, true
				}
			}
		}
		return true, false
	}
	return false, false
}

// called notes a call of an element. It returns a complaint.
func (f *forEach) called(st *State, fv *Term) string {
	_, ok := f.element(st, fv)
	if !f.on(st) {
		return "called outside of its occasion"
	}
	if !ok {
		return "not called from a traversal of all of them in order"
	}
	n := st.num(f.k("n")) + 1
	st.setNum(f.k("n"), n)
	if n > 1 {
		return "called more than once"
	}
	return ""
}

// end closes a region and returns a complaint.
func (f *forEach) end(st *State) string {
	st.setFlag(f.k("on"), false)
	n := st.num(f.k("full"))
	st.setNum(f.k("full"), 0)
	l := st.get(f.k("list"))
	st.set(f.k("list"), nil)
	switch {
	case n == 1:
		return ""
	case n == 0 && l != nil && st.knownTrue(mkEq(mkLen(l), mkInt(0))):
		return ""
	case n == 0:
		return "are not all called"
	}
	return "are called more than once"
}

// loaded notes that the list was read in the region.
func (f *forEach) loaded(st *State, addr *Term, t types.Type) {
	if !f.on(st) {
		return
	}
	v := st.peek(addr, t)
	if f.isList(st, v) {
		st.set(f.k("list"), v)
	}
}

// hookLoops installs the loop hooks of several observers.
func (e *Engine) hookLoops(fs ...*forEach) {
	e.h.LoopEnter = func(st *State, l *LoopEv) {
		for _, f := range fs {
			f.loopEnter(st, l)
		}
	}
	e.h.LoopIter = func(st *State, l *LoopEv) bool {
		for _, f := range fs {
			f.loopIter(st, l)
		}
		return true
	}
	e.h.LoopBack = func(st *State, l *LoopEv) {
		for _, f := range fs {
			f.loopBack(st, l)
		}
	}
	e.h.LoopDone = func(st *State, l *LoopEv) {
		for _, f := range fs {
			f.loopDone(st, l)
		}
	}
	e.h.LoopBreak = func(st *State, l *LoopEv) {
		for _, f := range fs {
			f.loopBreak(st, l)
		}
	}
}

const amqpPkg = "github.com/Azure/go-amqp"

func amqpName(typ, m string) string { return "(*" + amqpPkg + "." + typ + ")." + m }

func isAmqp(t types.Type, name string) bool {
	return strings.TrimPrefix(typeKey(t), "*") == amqpPkg+"."+name
}

// fieldsOf lists the fields of a struct that satisfy a condition.
func fieldsOf(t types.Type, f func(v *types.Var) bool) []int {
	s := structOf(derefType(t))
	var out []int
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if f(s.Field(i)) {
			out = append(out, i)
		}
	}
	return out
}
