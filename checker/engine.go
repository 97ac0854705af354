package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Call describes a call at the point where it is about to happen.
type Call struct {
	instr  ssa.Instruction
	common *ssa.CallCommon
	fn     *ssa.Function // statically known callee
	method *types.Func   // interface method
	recv   *Term         // receiver of an interface call
	fnval  *Term         // called function value when not known
	args   []*Term       // arguments, the receiver of a static method included
	name   string
	res    *types.Tuple
	defer_ bool
	ctx    *Ctx
}

func (c *Call) pos() token.Pos { return instrPos(c.instr) }

// Outcome is one way an external call can end.
type Outcome struct {
	res []*Term
	mod func(st *State) bool
}

type ChanOp struct {
	ch   *Term
	send bool
	val  *Term
}

type LoopEv struct {
	fr    *Frame
	loop  *Loop
	st    *loopSt
	first bool
}

// Hooks is what a property analysis sees.
type Hooks struct {
	Call      func(st *State, c *Call) ([]Outcome, bool) // every call not analysed further; true: outcomes are complete
	Enter     func(st *State, c *Call)                   // call that is followed
	Opaque    func(fn *ssa.Function) bool                // do not follow
	Return    func(st *State, fn *ssa.Function, c ssa.Instruction, res *Term)
	Store     func(st *State, addr, val *Term, in ssa.Instruction)
	Load      func(st *State, addr *Term, in ssa.Instruction)
	MapUpdate func(st *State, m, k, v *Term, in ssa.Instruction)
	MapDelete func(st *State, m, k *Term, in ssa.Instruction)
	Copy      func(st *State, dst, src *Term, in ssa.Instruction) // the copy builtin
	MapRead   func(st *State, m, k *Term, in ssa.Instruction)
	MapScan   func(st *State, m *Term, in ssa.Instruction) // traversal or length
	Loaded    func(st *State, addr, v *Term, in ssa.Instruction)
	Block     func(st *State, ops []ChanOp, hasDefault bool, in ssa.Instruction) bool // before a channel operation; false kills the path
	Chan      func(st *State, op ChanOp, in ssa.Instruction)                          // operation that took place
	ChanPick  func(st *State, ops []ChanOp, i int, in ssa.Instruction) bool           // may this case be chosen
	Close     func(st *State, ch *Term, in ssa.Instruction)
	Lock      func(st *State, mu *Term, write bool, in ssa.Instruction)
	Locked    func(st *State, mu *Term, write bool, in ssa.Instruction) // the lock is held now
	Thread    func(st *State)                                           // a goroutine begins
	Unlock    func(st *State, mu *Term, write bool, in ssa.Instruction)
	Go        func(st *State, c *Call) bool // follow as a new thread
	Escape    func(st *State, fn *Term, in ssa.Instruction) bool
	LoopEnter func(st *State, l *LoopEv)
	LoopIter  func(st *State, l *LoopEv) bool            // about to start an iteration
	LoopBack  func(st *State, l *LoopEv)                 // an iteration ended
	LoopDone  func(st *State, l *LoopEv)                 // left through the header
	LoopBreak func(st *State, l *LoopEv)                 // left from inside
	LoopGen   func(st *State, l *LoopEv, from, to *Term) // value carried to the next iteration, and how it is named there
	Oblig     func(st *State, kind string, t, arg *Term, in ssa.Instruction)
	Panic     func(st *State, v *Term, in ssa.Instruction)
	Exit      func(st *State, res []*Term)
	Tail      func(st *State, c *Call) // self call in tail position, handled like a loop
	Append    func(st *State, base *Term, elems []*Term, in ssa.Instruction)
}

// Violation is a reported construct.
type Violation struct {
	rule  string
	pos   token.Pos
	fn    string
	msg   string
	trail []string
	key   string
	where string
}

// Engine explores abstract states of one analysis.
type Engine struct {
	p          *Program
	h          Hooks
	infos      map[*ssa.Function]*FnInfo
	work       []*State
	seen       map[[2]uint64]bool
	persistent map[*Term]bool
	violations []Violation
	vkeys      map[string]bool
	maxStates  int
	states     int
	steps      int
	paths      int
	roots      []string
	counts     map[string]int
	undec      map[string]bool
	spawned    map[[2]uint64]bool
	chanCap    map[*Term]*Term
	sameCtxErr bool // a context and those derived from it end with the same error
	trace      bool
	unroll     int64
	mono       map[string]*Term // fields that keep this value once they have it
}

func newEngine(p *Program) *Engine {
	return &Engine{p: p, infos: map[*ssa.Function]*FnInfo{}, seen: map[[2]uint64]bool{}, persistent: map[*Term]bool{}, vkeys: map[string]bool{},
		maxStates: 150000, unroll: 10, counts: map[string]int{}, undec: map[string]bool{}, spawned: map[[2]uint64]bool{}, chanCap: map[*Term]*Term{}}
}

func (e *Engine) info(fn *ssa.Function) *FnInfo {
	fi := e.infos[fn]
	if fi == nil {
		fi = buildInfo(fn)
		e.infos[fn] = fi
	}
	return fi
}

var siteIDs = map[ssa.Instruction]int{}

func (e *Engine) siteID(in ssa.Instruction) int {
	if in == nil {
		return 0
	}
	id, ok := siteIDs[in]
	if !ok {
		id = len(siteIDs) + 1
		siteIDs[in] = id
	}
	return id
}

type symSite struct {
	in  ssa.Instruction
	ctx *Ctx
}

var symSites = map[*Term]symSite{}

func (e *Engine) count(k string) { e.counts[k]++ }

func (e *Engine) trailOf(st *State) []string {
	var out []string
	n := 0
	for t := st.trail; t != nil && n < 60; t = t.prev {
		out = append(out, e.p.pos(t.pos)+": "+t.note)
		n++
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	if st != nil && st.thread != "" {
		out = append([]string{"in " + st.thread}, out...)
	}
	return out
}

// report records a violation of rule at a construct.
func (e *Engine) report(st *State, rule string, in ssa.Instruction, format string, args ...any) {
	fn := ""
	pos := instrPos(in)
	if in != nil && in.Parent() != nil {
		fn = in.Parent().String()
	} else if st != nil && len(st.frames) > 0 {
		fn = st.top().fn.String()
		pos = st.top().fn.Pos()
	}
	key := rule + "|" + fn + "|" + fmt.Sprint(pos)
	if e.vkeys[key] || st != nil && st.infeasible() {
		return
	}
	v := Violation{rule: rule, pos: pos, fn: fn, key: key, msg: fmt.Sprintf(format, args...)}
	e.vkeys[v.key] = true
	if st != nil {
		v.trail = e.trailOf(st)
	}
	e.violations = append(e.violations, v)
}

// undecided: the analysis can not judge the construct.
func (e *Engine) undecided(st *State, in ssa.Instruction, format string, args ...any) {
	e.report(st, "undecided", in, format, args...)
}

func (e *Engine) push(st *State) { e.work = append(e.work, st) }

// addRoot starts an analysis at a function with the given arguments.
func (e *Engine) addRoot(st *State, fn *ssa.Function, args []*Term, bindings []*Term) *State {
	if fn == nil {
		return nil
	}
	if st == nil {
		st = newState(e)
	}
	if st.thread == "" {
		st.thread = fn.String()
	}
	fr := &Frame{fn: fn, ctx: mkCtx(nil, nil, fn), env: map[ssa.Value]*Term{}}
	for i, p := range fn.Params {
		if args != nil && i < len(args) && args[i] != nil {
			fr.env[p] = args[i]
		} else {
			s := intern(OSym, "param:"+fn.String()+":"+p.Name(), i, 0, p.Type(), nil, nil)
			s.pos = p.Pos()
			fr.env[p] = s
			e.persistent[s] = true
		}
		if i == 0 && fn.Signature.Recv() != nil {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				st.assume(mkEq(fr.env[p], TNil), false)
			}
		}
		if isContextType(p.Type()) {
			st.assume(mkEq(fr.env[p], TNil), false)
		}
	}
	for i, p := range fn.FreeVars {
		if bindings != nil && i < len(bindings) {
			fr.env[p] = bindings[i]
		} else {
			s := intern(OSym, "free:"+fn.String()+":"+p.Name(), i, 0, p.Type(), nil, nil)
			fr.env[p] = s
			e.persistent[s] = true
			st.assume(mkEq(s, TNil), false)
		}
	}
	st.frames = append(st.frames, fr)
	fr.block = fn.Blocks[0]
	e.roots = append(e.roots, st.thread)
	e.push(st)
	return st
}

func (e *Engine) run() {
	defer showVisits()
	for len(e.work) > 0 {
		st := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.states++
		if e.states > e.maxStates {
			e.undecided(st, nil, "state limit of %d reached", e.maxStates)
			e.work = nil
			return
		}
		if countVisits && len(st.frames) > 0 {
			if fr := st.top(); fr.block != nil {
				visits[fmt.Sprintf("%s %d %s", fr.fn, fr.block.Index, fr.block.Comment)]++
			}
		}
		if dumpAt > 0 && e.states%dumpAt == 0 {
			e.dump(st)
		}
		e.exec(st)
	}
}

func (e *Engine) exec(st *State) {
	for !st.dead {
		if len(st.frames) == 0 {
			return
		}
		fr := st.top()
		if fr.pc >= len(fr.block.Instrs) {
			e.undecided(st, nil, "ran off the end of a block in %s", fr.fn)
			return
		}
		in := fr.block.Instrs[fr.pc]
		e.steps++
		if e.steps > 30_000_000 {
			e.undecided(st, in, "step limit reached")
			e.work = nil
			return
		}
		fr.pc++
		e.step(st, fr, in)
	}
}

// kill ends a path.
func (st *State) kill() { st.dead = true }

// fork continues with each of the alternatives instead of st.
func (e *Engine) fork(st *State, alts ...func(s *State) bool) {
	var live []*State
	for i, f := range alts {
		var s *State
		if i == len(alts)-1 {
			s = st.clone()
		} else {
			s = st.clone()
		}
		if f(s) && !s.dead {
			live = append(live, s)
		}
	}
	st.dead = true
	for i := len(live) - 1; i >= 0; i-- {
		e.push(live[i])
	}
}

func (e *Engine) val(st *State, fr *Frame, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroOf(x.Type())
		}
		return intern(OConst, "", 0, 0, x.Type(), normConst(x.Value, x.Type()), nil)
	case *ssa.Global:
		return e.globalAddr(x)
	case *ssa.Function:
		return intern(OFunc, x.String(), 0, 0, x.Type(), nil, x)
	case *ssa.Builtin:
		return intern(OBuiltin, x.Name(), 0, 0, nil, nil, nil)
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	e.undecided(st, nil, "no value for %s in %s", v.Name(), fr.fn)
	st.dead = true
	return intern(OSym, "undef:"+v.Name(), 0, 0, v.Type(), nil, nil)
}

func normConst(c constant.Value, t types.Type) constant.Value {
	if isIntType(t) && c.Kind() == constant.Float {
		return constant.ToInt(c)
	}
	return c
}

var globalOf = map[*Term]*ssa.Global{}

func (e *Engine) globalAddr(g *ssa.Global) *Term {
	t := intern(OGlobal, g.String(), 0, 0, g.Type(), nil, nil)
	globalOf[t] = g
	return t
}

func (e *Engine) finalErrGlobal(addr *Term) bool {
	g := globalOf[addr]
	if g == nil {
		return false
	}
	if !isErrorType(derefType(g.Type())) {
		return false
	}
	if sp := g.Pkg; sp != nil {
		if _, ours := e.p.spkgs[sp.Pkg.Path()]; !ours {
			return true
		}
	}
	return e.p.finalErr[g]
}

func (e *Engine) dynType(x *Term) types.Type { return nil }

func (e *Engine) wrapsNothing(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "Unwrap", "Is":
			return false
		}
	}
	return true
}

func (e *Engine) set(fr *Frame, v ssa.Value, t *Term) {
	fr.env[v] = t
}

func tupleOf(ts ...*Term) *Term { return intern(OTuple, "", 0, 0, nil, nil, nil, ts...) }

func (e *Engine) oblig(st *State, kind string, t, arg *Term, in ssa.Instruction) {
	if e.h.Oblig != nil {
		e.h.Oblig(st, kind, t, arg, in)
	}
}

func (e *Engine) derefCheck(st *State, base *Term, in ssa.Instruction) {
	switch structNonNil(base) {
	case 1:
		return
	}
	e.oblig(st, "deref", base, nil, in)
	if !st.assume(mkEq(base, TNil), false) {
		st.dead = true // certainly nil: the path panics here
	}
}

func (e *Engine) step(st *State, fr *Frame, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		// evaluated on entry of the block
	case *ssa.Alloc:
		a := st.alloc("new:"+x.Comment, in, fr.ctx, x.Type())
		symSites[a] = symSite{in, fr.ctx}
		el := derefType(x.Type())
		if _, ok := el.Underlying().(*types.Array); ok {
			st.clearCells(a)
		} else {
			st.clearCells(a)
			st.heap[a] = zeroOf(el)
		}
		e.set(fr, x, a)
	case *ssa.MakeChan:
		a := st.alloc("chan", in, fr.ctx, x.Type())
		symSites[a] = symSite{in, fr.ctx}
		e.chanCap[a] = e.val(st, fr, x.Size)
		e.set(fr, x, a)
	case *ssa.MakeMap:
		a := st.alloc("map", in, fr.ctx, x.Type())
		symSites[a] = symSite{in, fr.ctx}
		st.clearCells(a)
		st.heap[mkMapFull(a)] = TTrue
		e.set(fr, x, a)
	case *ssa.MakeSlice:
		n := e.val(st, fr, x.Len)
		c := e.val(st, fr, x.Cap)
		e.oblig(st, "makelen", n, c, in)
		a := st.alloc("slice", in, fr.ctx, x.Type(), n)
		symSites[a] = symSite{in, fr.ctx}
		st.clearCells(a)
		e.set(fr, x, a)
	case *ssa.MakeInterface:
		e.set(fr, x, mkIface(x.X.Type(), e.val(st, fr, x.X)))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, e.val(st, fr, b))
		}
		f := x.Fn.(*ssa.Function)
		if i := justCalls(x); i >= 0 {
			v := bs[i]
			if _, ok := x.Bindings[i].(*ssa.Alloc); ok {
				v = st.peek(v, derefType(x.Bindings[i].Type()))
			}
			if v != nil && v != TNil {
				e.set(fr, x, v)
				return
			}
		}
		e.set(fr, x, intern(OClosure, f.String(), 0, 0, x.Type(), nil, f, bs...))
	case *ssa.ChangeType:
		e.set(fr, x, e.val(st, fr, x.X))
	case *ssa.ChangeInterface:
		e.set(fr, x, e.val(st, fr, x.X))
	case *ssa.Convert:
		e.set(fr, x, e.convert(e.val(st, fr, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		e.set(fr, x, e.convert(e.val(st, fr, x.X), x.X.Type(), x.Type()))
	case *ssa.SliceToArrayPointer:
		e.set(fr, x, intern(OConv, typeKey(x.Type()), 0, 0, x.Type(), nil, nil, e.val(st, fr, x.X)))
	case *ssa.BinOp:
		e.set(fr, x, e.binop(st, x, e.val(st, fr, x.X), e.val(st, fr, x.Y)))
	case *ssa.UnOp:
		e.unop(st, fr, x)
	case *ssa.FieldAddr:
		b := e.val(st, fr, x.X)
		e.derefCheck(st, b, in)
		e.set(fr, x, mkFieldAddr(b, x.Field, structOf(derefType(x.X.Type()))))
	case *ssa.Field:
		e.set(fr, x, mkField(e.val(st, fr, x.X), x.Field, structOf(x.X.Type())))
	case *ssa.IndexAddr:
		b, i := e.val(st, fr, x.X), e.val(st, fr, x.Index)
		e.oblig(st, "index", b, i, in)
		var el types.Type
		if p, ok := x.Type().(*types.Pointer); ok {
			el = p.Elem()
		}
		// afterwards the index is within bounds
		if !st.assume(mkLt(i, mkLen(b), types.Typ[types.Int]), true) {
			st.dead = true
			return
		}
		e.set(fr, x, mkIndexAddr(b, i, el))
	case *ssa.Index:
		b, i := e.val(st, fr, x.X), e.val(st, fr, x.Index)
		e.oblig(st, "index", b, i, in)
		e.set(fr, x, intern(OIndex, "", 0, 0, x.Type(), nil, nil, b, i))
	case *ssa.Slice:
		b := e.val(st, fr, x.X)
		lo, hi := TNil, TNil
		if x.Low != nil {
			lo = e.val(st, fr, x.Low)
		}
		if x.High != nil {
			hi = e.val(st, fr, x.High)
		}
		e.oblig(st, "slice", b, tupleOf(lo, hi), in)
		if x.High == nil && x.Max == nil && lo != TNil {
			// afterwards lo <= len
			if !st.assume(mkLt(mkLen(b), lo, types.Typ[types.Int]), false) {
				st.dead = true
				return
			}
		}
		s := mkSlice(b, lo, hi)
		if s.t == nil {
			s.t = x.Type()
		}
		e.set(fr, x, s)
	case *ssa.Store:
		addr, v := e.val(st, fr, x.Addr), e.val(st, fr, x.Val)
		e.derefCheck(st, addr, in)
		if st.dead {
			return
		}
		if e.h.Store != nil {
			e.h.Store(st, addr, v, in)
		}
		st.store(addr, v)
		if addr.root().op != OAlloc {
			e.escape(st, v, in)
		}
	case *ssa.MapUpdate:
		m, k, v := e.val(st, fr, x.Map), e.val(st, fr, x.Key), e.val(st, fr, x.Value)
		e.oblig(st, "mapupdate", m, k, in)
		if !st.assume(mkEq(m, TNil), false) {
			st.dead = true
			return
		}
		if e.h.MapUpdate != nil {
			e.h.MapUpdate(st, m, k, v, in)
		}
		st.mapStore(m, k, v)
		if m.root().op != OAlloc {
			e.escape(st, v, in)
		}
	case *ssa.Lookup:
		e.lookup(st, fr, x)
	case *ssa.Extract:
		t := e.val(st, fr, x.Tuple)
		if t.op == OTuple {
			e.set(fr, x, t.a[x.Index])
		} else {
			e.set(fr, x, intern(OField, fmt.Sprintf("#%d", x.Index), x.Index, 0, x.Type(), nil, nil, t))
		}
	case *ssa.TypeAssert:
		e.typeAssert(st, fr, x)
	case *ssa.Range:
		e.set(fr, x, intern(ORange, "", 0, 0, x.X.Type(), nil, nil, e.val(st, fr, x.X)))
	case *ssa.Next:
		e.next(st, fr, x)
	case *ssa.If:
		e.branch(st, fr, x)
	case *ssa.Jump:
		e.jump(st, fr, fr.block.Succs[0])
	case *ssa.Return:
		e.ret(st, fr, x)
	case *ssa.RunDefers:
		if n := len(fr.defers); n > 0 {
			fr.pc-- // come back for the rest
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			e.doCall(st, fr, d.instr, d.call, d.fn, d.recv, d.args, true)
		}
	case *ssa.Panic:
		v := e.val(st, fr, x.X)
		if e.h.Panic != nil {
			e.h.Panic(st, v, in)
		}
		e.unwind(st)
	case *ssa.Call:
		fnv, recv, args := e.callOperands(st, fr, &x.Call)
		if st.dead {
			return
		}
		e.doCall(st, fr, x, &x.Call, fnv, recv, args, false)
	case *ssa.Defer:
		fnv, recv, args := e.callOperands(st, fr, &x.Call)
		for _, d := range fr.defers {
			if d.instr == x && d.fn == fnv && d.recv == recv && sameTerms(d.args, args) {
				return // the same call again (defer in a loop)
			}
		}
		n := 0
		for _, d := range fr.defers {
			if d.instr == x {
				n++
			}
		}
		if n < 3 {
			fr.defers = append(fr.defers, deferred{instr: x, fn: fnv, recv: recv, args: args, call: &x.Call})
		}
	case *ssa.Go:
		e.goStmt(st, fr, x)
	case *ssa.Send:
		ch, v := e.val(st, fr, x.Chan), e.val(st, fr, x.X)
		op := ChanOp{ch: ch, send: true, val: v}
		if e.h.Block != nil && !e.h.Block(st, []ChanOp{op}, false, in) {
			st.dead = true
			return
		}
		if st.dead {
			return
		}
		e.escape(st, v, in)
		if e.h.Chan != nil {
			e.h.Chan(st, op, in)
		}
	case *ssa.Select:
		e.selectStmt(st, fr, x)
	default:
		e.undecided(st, in, "unsupported instruction %T", in)
		st.dead = true
	}
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (e *Engine) unwind(st *State) {
	// deferred calls of the panicking frames run innermost first
	st.panicking = true
	for len(st.frames) > 0 {
		fr := st.top()
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			e.doCall(st, fr, d.instr, d.call, d.fn, d.recv, d.args, true)
			if st.dead {
				return
			}
			if len(st.frames) > 0 && st.top() != fr {
				// run the deferred function to its end; ret() resumes unwinding
				st.top().onReturn = func(s *State, _ *Term) { e.unwind(s) }
				return
			}
			continue
		}
		st.frames = st.frames[:len(st.frames)-1]
	}
	if e.h.Exit != nil {
		e.h.Exit(st, nil)
	}
	st.dead = true
}

func (e *Engine) convert(v *Term, from, to types.Type) *Term {
	if v.isConst() && isIntType(to) && v.c.Kind() == constant.Int {
		return intern(OConst, "", 0, 0, to, v.c, nil)
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	if v.isConst() {
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && v.c.Kind() == constant.String {
			return v
		}
	}
	if isIntType(from) && isIntType(to) {
		fs, ts := intSize(from), intSize(to)
		if ts > fs && (isUnsigned(from) || !isUnsigned(to)) || (ts == fs && isUnsigned(from) == isUnsigned(to)) {
			return intern(OConv, "widen:"+typeKey(to), 0, 0, to, nil, nil, v)
		}
	}
	return intern(OConv, typeKey(to), 0, 0, to, nil, nil, v)
}

func intSize(t types.Type) int {
	b := t.Underlying().(*types.Basic)
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func (e *Engine) binop(st *State, in *ssa.BinOp, x, y *Term) *Term {
	xt := in.X.Type()
	switch in.Op {
	case token.EQL, token.NEQ:
		if isIfaceType(xt) || isIfaceType(in.Y.Type()) {
			e.oblig(st, "ifacecmp", x, y, in)
		}
		if in.Op == token.NEQ {
			return mkNot(mkEq(x, y))
		}
		return mkEq(x, y)
	case token.LSS:
		return mkLt(x, y, xt)
	case token.GTR:
		return mkLt(y, x, xt)
	case token.LEQ:
		return mkNot(mkLt(y, x, xt))
	case token.GEQ:
		return mkNot(mkLt(x, y, xt))
	}
	if x.isConst() && y.isConst() {
		switch in.Op {
		case token.SHL, token.SHR:
			if n, ok := y.intVal(); ok && n >= 0 && n < 64 {
				return intern(OConst, "", 0, 0, in.Type(), constant.Shift(x.c, in.Op, uint(n)), nil)
			}
		case token.QUO, token.REM:
			if n, ok := y.intVal(); ok && n != 0 && x.c.Kind() == constant.Int {
				op := in.Op
				if op == token.QUO {
					op = token.QUO_ASSIGN
				}
				return intern(OConst, "", 0, 0, in.Type(), constant.BinaryOp(x.c, op, y.c), nil)
			}
		default:
			return intern(OConst, "", 0, 0, in.Type(), constant.BinaryOp(x.c, in.Op, y.c), nil)
		}
	}
	if isIntType(xt) {
		switch in.Op {
		case token.ADD:
			return mkAdd(x, y)
		case token.SUB:
			if k, ok := y.intVal(); ok {
				return mkAddK(x, -k)
			}
			bx, kx := splitAdd(x)
			by, ky := splitAdd(y)
			if bx != nil && bx == by {
				return mkInt(kx - ky)
			}
			// (a+b)-b
			if x.op == OBin && x.s == "++" {
				if x.a[0] == y {
					return x.a[1]
				}
				if x.a[1] == y {
					return x.a[0]
				}
			}
		case token.QUO, token.REM:
			e.oblig(st, "div", y, nil, in)
		}
	}
	if b, ok := xt.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && in.Op == token.ADD {
		return mkCat(x, y)
	}
	return intern(OBin, in.Op.String(), 0, 0, in.Type(), nil, nil, x, y)
}

// mkCat concatenates strings.
func mkCat(ts ...*Term) *Term {
	var parts []*Term
	for _, t := range ts {
		if t.op == OBin && t.s == "cat" {
			parts = append(parts, t.a...)
		} else {
			parts = append(parts, t)
		}
	}
	var out []*Term
	for _, p := range parts {
		if s, ok := p.strVal(); ok {
			if s == "" {
				continue
			}
			if n := len(out); n > 0 {
				if q, ok := out[n-1].strVal(); ok {
					out[n-1] = mkStr(q + s)
					continue
				}
			}
		}
		out = append(out, p)
	}
	switch len(out) {
	case 0:
		return mkStr("")
	case 1:
		return out[0]
	}
	return intern(OBin, "cat", 0, 0, types.Typ[types.String], nil, nil, out...)
}

func (e *Engine) unop(st *State, fr *Frame, x *ssa.UnOp) {
	v := e.val(st, fr, x.X)
	switch x.Op {
	case token.MUL:
		e.derefCheck(st, v, x)
		if st.dead {
			return
		}
		if e.h.Load != nil {
			e.h.Load(st, v, x)
		}
		r := st.load(v, derefType(x.X.Type()))
		if e.h.Loaded != nil {
			e.h.Loaded(st, v, r, x)
		}
		e.set(fr, x, r)
	case token.NOT:
		e.set(fr, x, mkNot(v))
	case token.SUB:
		if n, ok := v.intVal(); ok {
			e.set(fr, x, mkInt(-n))
			return
		}
		e.set(fr, x, intern(OUn, "-", 0, 0, x.Type(), nil, nil, v))
	case token.ARROW:
		e.recv(st, fr, x, v)
	default:
		e.set(fr, x, intern(OUn, x.Op.String(), 0, 0, x.Type(), nil, nil, v))
	}
}

// recvValue gives the value received from a channel.
func (e *Engine) recvValue(st *State, fr *Frame, in ssa.Instruction, k int, ch *Term, t types.Type) *Term {
	if ch.op == ODoneCh {
		return zeroOf(t)
	}
	s := st.sym("recv", in, fr.ctx, k, t)
	symSites[s] = symSite{in, fr.ctx}
	return s
}

func chanElem(t types.Type) types.Type {
	if c, ok := t.Underlying().(*types.Chan); ok {
		return c.Elem()
	}
	return nil
}

func (e *Engine) afterRecv(st *State, ch *Term) bool {
	if ch.op == ODoneCh {
		return st.assume(mkIsDone(ch.a[0]), true)
	}
	return true
}

func (e *Engine) recv(st *State, fr *Frame, x *ssa.UnOp, ch *Term) {
	op := ChanOp{ch: ch}
	if e.h.Block != nil && !e.h.Block(st, []ChanOp{op}, false, x) {
		st.dead = true
		return
	}
	if st.dead {
		return
	}
	if st.knownNil(ch) || !e.afterRecv(st, ch) {
		st.dead = true // blocks for ever
		return
	}
	v := e.recvValue(st, fr, x, 0, ch, chanElem(x.X.Type()))
	if x.CommaOk {
		ok := st.sym("recvok", x, fr.ctx, 1, types.Typ[types.Bool])
		e.set(fr, x, tupleOf(v, ok))
	} else {
		e.set(fr, x, v)
	}
	if e.h.Chan != nil {
		e.h.Chan(st, ChanOp{ch: ch, val: v}, x)
	}
}

func (e *Engine) selectStmt(st *State, fr *Frame, x *ssa.Select) {
	var ops []ChanOp
	for _, s := range x.States {
		op := ChanOp{ch: e.val(st, fr, s.Chan), send: s.Dir == types.SendOnly}
		if op.send {
			op.val = e.val(st, fr, s.Send)
		}
		ops = append(ops, op)
	}
	if e.h.Block != nil && !e.h.Block(st, ops, !x.Blocking, x) {
		st.dead = true
		return
	}
	var alts []func(s *State) bool
	mk := func(idx int) func(s *State) bool {
		return func(s *State) bool {
			f := s.top()
			if e.h.ChanPick != nil && !e.h.ChanPick(s, ops, idx, x) {
				return false
			}
			if idx < 0 { // a finished context's channel would have been ready
				for _, op := range ops {
					if op.ch.op == ODoneCh {
						if !s.assume(mkIsDone(op.ch.a[0]), false) {
							return false
						}
						// only at this moment
						delete(s.facts, mkIsDone(op.ch.a[0]))
					}
				}
			}
			parts := []*Term{mkInt(int64(idx)), TFalse}
			if idx >= 0 {
				op := ops[idx]
				if s.knownNil(op.ch) {
					return false
				}
				if !op.send && !e.afterRecv(s, op.ch) {
					return false
				}
			}
			k := 2
			var got *Term
			for i, ss := range x.States {
				if ss.Dir == types.SendOnly {
					continue
				}
				if i == idx {
					got = e.recvValue(s, f, x, k, ops[i].ch, chanElem(ss.Chan.Type()))
					parts = append(parts, got)
					parts[1] = s.sym("recvok", x, f.ctx, 100, types.Typ[types.Bool])
				} else {
					parts = append(parts, zeroOf(chanElem(ss.Chan.Type())))
				}
				k++
			}
			e.set(f, x, tupleOf(parts...))
			if idx >= 0 {
				op := ops[idx]
				s.note(instrPos(x), "select case %d", idx)
				if op.send {
					e.escape(s, op.val, x)
				} else {
					op.val = got
				}
				if e.h.Chan != nil {
					e.h.Chan(s, op, x)
				}
			} else {
				s.note(instrPos(x), "select default")
			}
			return true
		}
	}
	for i := range ops {
		alts = append(alts, mk(i))
	}
	if !x.Blocking {
		alts = append(alts, mk(-1))
	}
	e.fork(st, alts...)
}

func (e *Engine) typeAssert(st *State, fr *Frame, x *ssa.TypeAssert) {
	v := e.val(st, fr, x.X)
	if v.op == OIface {
		holds := taHolds(v.t, x.AssertedType)
		var r *Term
		if holds {
			if isIfaceType(x.AssertedType) {
				r = v
			} else {
				r = v.a[0]
			}
		} else {
			r = zeroOf(x.AssertedType)
		}
		if x.CommaOk {
			e.set(fr, x, tupleOf(r, mkBool(holds)))
			return
		}
		e.oblig(st, "assert", v, mkBool(holds), x)
		if !holds {
			st.dead = true
			return
		}
		e.set(fr, x, r)
		return
	}
	okT := mkTAOk(v, x.AssertedType)
	var r *Term
	if isIfaceType(x.AssertedType) {
		r = v // same dynamic value
		if st.evalBool(okT) == TFalse {
			r = TNil
		}
	} else {
		r = intern(OTA, shortType(x.AssertedType), 0, 0, x.AssertedType, nil, nil, v)
	}
	if x.CommaOk {
		switch st.evalBool(okT) {
		case TTrue:
			e.set(fr, x, tupleOf(r, TTrue))
		case TFalse:
			e.set(fr, x, tupleOf(zeroOf(x.AssertedType), TFalse))
		default:
			e.fork(st, func(s *State) bool {
				if !s.assume(okT, true) {
					return false
				}
				e.set(s.top(), x, tupleOf(r, TTrue))
				return true
			}, func(s *State) bool {
				if !s.assume(okT, false) {
					return false
				}
				e.set(s.top(), x, tupleOf(zeroOf(x.AssertedType), TFalse))
				return true
			})
		}
		return
	}
	e.oblig(st, "assert", v, okT, x)
	if !st.assume(okT, true) {
		st.dead = true
		return
	}
	e.set(fr, x, r)
}

func (e *Engine) branch(st *State, fr *Frame, x *ssa.If) {
	// traversal loops decide at the header
	if n := len(fr.loops); n > 0 {
		l := &fr.loops[n-1]
		if l.loop.header == fr.block && l.mode == 1 && l.phase != 0 {
			c := e.val(st, fr, x.Cond)
			enter := l.phase == phIter
			l.phase = 0
			if !enter {
				if l.bound != nil && l.exact {
					if t, ok := fr.env[l.loop.test]; ok {
						st.assume(mkEq(t, l.bound), true)
					}
				}
			}
			in, out := 0, 1
			if l.loop.negated {
				in, out = 1, 0
			}
			if !st.assume(c, enter != l.loop.negated) {
				st.dead = true
				return
			}
			if enter {
				if e.h.LoopIter != nil && !e.h.LoopIter(st, &LoopEv{fr: fr, loop: l.loop, st: l}) {
					st.dead = true
					return
				}
				e.jump(st, fr, fr.block.Succs[in])
			} else {
				e.jump(st, fr, fr.block.Succs[out])
			}
			return
		}
	}
	c := e.val(st, fr, x.Cond)
	if st.dead {
		return
	}
	switch st.evalBool(c) {
	case TTrue:
		e.jump(st, fr, fr.block.Succs[0])
	case TFalse:
		e.jump(st, fr, fr.block.Succs[1])
	default:
		pos := instrPos(x)
		if v, ok := x.Cond.(ssa.Instruction); ok {
			pos = instrPos(v)
		}
		e.fork(st, func(s *State) bool {
			if !s.assume(c, true) {
				return false
			}
			s.note(pos, "condition %s holds", c)
			e.jump(s, s.top(), s.top().block.Succs[0])
			return !s.dead
		}, func(s *State) bool {
			if !s.assume(c, false) {
				return false
			}
			s.note(pos, "condition %s does not hold", c)
			e.jump(s, s.top(), s.top().block.Succs[1])
			return !s.dead
		})
	}
}

func (e *Engine) ret(st *State, fr *Frame, x *ssa.Return) {
	var rs []*Term
	for _, r := range x.Results {
		rs = append(rs, e.val(st, fr, r))
	}
	if st.dead {
		return
	}
	for i := len(fr.loops) - 1; i >= 0; i-- {
		st.leaveLoop(&fr.loops[i], false, rs...)
	}
	if len(st.frames) == 1 && fr.onReturn == nil {
		e.paths++
		if e.h.Exit != nil {
			e.h.Exit(st, rs)
		}
		st.dead = true
		return
	}
	var res *Term
	if len(rs) == 1 {
		res = rs[0]
	} else {
		res = tupleOf(rs...)
	}
	if e.h.Return != nil {
		e.h.Return(st, fr.fn, fr.call, res)
		if st.dead {
			return
		}
	}
	for i := len(fr.loops) - 1; i >= 0; i-- {
		if e.h.LoopBreak != nil {
			e.h.LoopBreak(st, &LoopEv{fr: fr, loop: fr.loops[i].loop, st: &fr.loops[i]})
		}
	}
	st.frames = st.frames[:len(st.frames)-1]
	if fr.onReturn != nil {
		fr.onReturn(st, res)
		return
	}
	caller := st.top()
	if v, ok := fr.call.(ssa.Value); ok && !fr.isDefer {
		e.set(caller, v, res)
	}
	if fr.call != nil && !fr.isDefer {
		live := e.info(caller.fn).liveAfter(fr.call)
		for v := range caller.env {
			if cv, _ := fr.call.(ssa.Value); !live[v] && v != cv {
				delete(caller.env, v)
			}
		}
		st.gc()
		e.dedupe(st)
	} else {
		st.gc()
	}
}

func (e *Engine) dedupe(st *State) {
	h := st.hash()
	if e.seen[h] {
		st.dead = true
		return
	}
	e.seen[h] = true
}

// jump moves to another block of the same function.
func (e *Engine) jump(st *State, fr *Frame, to *ssa.BasicBlock) {
	from := fr.block
	fi := e.info(fr.fn)
	// leave loops
	for len(fr.loops) > 0 {
		l := &fr.loops[len(fr.loops)-1]
		if l.loop.blocks[to] {
			break
		}
		st.leaveLoop(l, from == l.loop.header)
		if from == l.loop.header {
			if e.h.LoopDone != nil {
				e.h.LoopDone(st, &LoopEv{fr: fr, loop: l.loop, st: l})
			}
		} else if e.h.LoopBreak != nil {
			e.h.LoopBreak(st, &LoopEv{fr: fr, loop: l.loop, st: l})
		}
		if st.dead {
			return
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	// phi values
	edge := -1
	for i, p := range to.Preds {
		if p == from {
			edge = i
			break
		}
	}
	// two edges from the same block carry the same phi operands for If; pick by position
	if from.Succs[0] == to && len(from.Succs) == 2 && from.Succs[1] == to {
		// ambiguous, operands may differ
		if v := fr.env; v != nil {
			_ = v
		}
	}
	var phis []*ssa.Phi
	var vals []*Term
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !liveOrHeader(fi, phi) {
			continue
		}
		phis = append(phis, phi)
		vals = append(vals, e.val(st, fr, phi.Edges[edge]))
	}
	if st.dead {
		return
	}
	loop := fi.loops[to]
	if loop != nil && loop.literal() {
		// one pass for each of the few elements
		for i, p := range phis {
			fr.env[p] = vals[i]
		}
		e.arrive(st, fr, to, true)
		return
	}
	if loop != nil {
		e.enterHeader(st, fr, loop, from, to, phis, vals)
		return
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
	e.arrive(st, fr, to, len(to.Preds) > 1)
}

// justCalls tells which captured function a closure passes its arguments on to,
// and the results back, doing nothing else; -1 if it is not that simple.
func justCalls(x *ssa.MakeClosure) int {
	f := x.Fn.(*ssa.Function)
	if len(f.Blocks) != 1 || f.Recover != nil {
		return -1
	}
	which := func(v ssa.Value) int {
		for {
			if c, ok := v.(*ssa.ChangeType); ok {
				v = c.X
				continue
			}
			break
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			for i, fv := range f.FreeVars {
				if u.X != ssa.Value(fv) {
					continue
				}
				// assigned once, before the closure is made
				a, ok := x.Bindings[i].(*ssa.Alloc)
				if !ok {
					return -1
				}
				n := 0
				for _, r := range *a.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr != ssa.Value(a) || !before(r, x) {
							return -1
						}
						n++
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.MakeClosure:
						if r != x {
							return -1
						}
					default:
						return -1
					}
				}
				if n == 1 {
					return i
				}
				return -1
			}
			return -1
		}
		for i, fv := range f.FreeVars {
			if v == ssa.Value(fv) {
				return i
			}
		}
		return -1
	}
	var call *ssa.Call
	at := -1
	ext := map[int]ssa.Value{}
	for _, in := range f.Blocks[0].Instrs {
		switch in := in.(type) {
		case *ssa.UnOp, *ssa.ChangeType, *ssa.DebugRef:
			if u, ok := in.(*ssa.UnOp); ok && u.Op != token.MUL {
				return -1
			}
		case *ssa.Call:
			if call != nil || in.Call.IsInvoke() || len(in.Call.Args) != len(f.Params) {
				return -1
			}
			for i, p := range f.Params {
				if in.Call.Args[i] != ssa.Value(p) {
					return -1
				}
			}
			if at = which(in.Call.Value); at < 0 {
				return -1
			}
			call = in
		case *ssa.Extract:
			if call == nil || in.Tuple != ssa.Value(call) {
				return -1
			}
			ext[in.Index] = in
		case *ssa.Return:
			if call == nil {
				return -1
			}
			for i, r := range in.Results {
				if len(in.Results) == 1 && r != ssa.Value(call) || len(in.Results) > 1 && r != ext[i] {
					return -1
				}
			}
			if len(in.Results) != call.Call.Signature().Results().Len() {
				return -1
			}
		default:
			return -1
		}
	}
	return at
}

// before: one instruction is always executed before another.
func before(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

// literal: the loop goes through the elements of a short list that is written
// out where it begins.
func (l *Loop) literal() bool {
	if l.next != nil {
		keys := literalMap(l.next)
		return keys != nil && !l.blocks[l.next.Iter.(*ssa.Range).Block()]
	}
	x := l.boundOf
	if l.ind == nil || x == nil || l.init == nil {
		return false
	}
	if c, ok := l.init.(*ssa.Const); !ok || c.Value == nil {
		return false
	}
	sl, ok := x.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil || sl.Max != nil {
		return false
	}
	a, ok := sl.X.(*ssa.Alloc)
	if !ok || a.Comment != "slicelit" {
		return false
	}
	arr, ok := derefType(a.Type()).Underlying().(*types.Array)
	if !ok || arr.Len() > 4 {
		return false
	}
	for _, p := range l.header.Preds {
		if !l.blocks[p] && p != sl.Block() {
			return false
		}
	}
	return !l.blocks[sl.Block()]
}

// literalMap: the keys of a short map, written out and used for nothing but
// going through it.
func literalMap(x *ssa.Next) []*ssa.Const {
	r, ok := x.Iter.(*ssa.Range)
	if !ok {
		return nil
	}
	m, ok := r.X.(*ssa.MakeMap)
	if !ok || m.Block() != r.Block() {
		return nil
	}
	var keys []*ssa.Const
	for _, u := range *m.Referrers() {
		switch u := u.(type) {
		case *ssa.MapUpdate:
			c, ok := u.Key.(*ssa.Const)
			if !ok || u.Map != ssa.Value(m) || u.Value == ssa.Value(m) || c.Value == nil || u.Block() != r.Block() || !before(u, r) {
				return nil
			}
			for _, k := range keys {
				if k.Value.ExactString() == c.Value.ExactString() {
					return nil
				}
			}
			keys = append(keys, c)
		case *ssa.Range:
			if u != r {
				return nil
			}
		case *ssa.DebugRef:
		default:
			return nil
		}
	}
	if len(keys) > 6 || len(*r.Referrers()) != 1 {
		return nil
	}
	return keys
}

func liveOrHeader(fi *FnInfo, phi *ssa.Phi) bool {
	return len(*phi.Referrers()) > 0
}

func (e *Engine) arrive(st *State, fr *Frame, to *ssa.BasicBlock, join bool) {
	fi := e.info(fr.fn)
	live := fi.liveIn[to]
	for v := range fr.env {
		if live[v] {
			continue
		}
		if phi, ok := v.(*ssa.Phi); ok && phi.Block() == to {
			continue
		}
		delete(fr.env, v)
	}
	fr.prev = fr.block
	fr.block = to
	fr.pc = 0
	for fr.pc < len(to.Instrs) {
		if _, ok := to.Instrs[fr.pc].(*ssa.Phi); !ok {
			break
		}
		fr.pc++
	}
	if join {
		st.gc()
		e.dedupe(st)
	}
}

const (
	phZero = 1
	phIter = 2
	phExit = 3
)

// enterHeader handles arrival at a loop header.
func (e *Engine) enterHeader(st *State, fr *Frame, loop *Loop, from, to *ssa.BasicBlock, phis []*ssa.Phi, vals []*Term) {
	back := len(fr.loops) > 0 && fr.loops[len(fr.loops)-1].loop == loop
	if !back {
		ls := loopSt{loop: loop, mode: 3}
		fr.loops = append(fr.loops, ls)
		l := &fr.loops[len(fr.loops)-1]
		for i, p := range phis {
			fr.env[p] = vals[i]
		}
		if loop.ind != nil {
			e.setupCounted(st, fr, loop, l, phis, vals)
		} else if loop.next != nil {
			l.mode = 2
			if r := e.val(st, fr, loop.next.Iter); r.op == ORange {
				l.coll = r.a[0]
				l.bound = mkKeys(r.a[0])
			}
		}
		b := l.bound
		if b == nil {
			b = intern(OCall, "iterations", 0, 0, types.Typ[types.Int], nil, nil)
		}
		l.over = intern(OCall, fmt.Sprintf("over@%d", fr.ctx.id), e.siteID(to.Instrs[0]), 0, types.Typ[types.Int], nil, nil, b)
		st.ageOver(l.over)
		l.prev = e.snapshot(st, fr, loop)
		if e.h.LoopEnter != nil {
			e.h.LoopEnter(st, &LoopEv{fr: fr, loop: loop, st: l, first: true})
		}
		if st.dead {
			return
		}
		if l.mode == 1 {
			e.forkPhases(st, fr, loop, true)
			return
		}
		e.arrive(st, fr, to, true)
		if !st.dead && l.mode == 3 && e.h.LoopIter != nil {
			if !e.h.LoopIter(st, &LoopEv{fr: fr, loop: loop, st: &fr.loops[len(fr.loops)-1]}) {
				st.dead = true
			}
		}
		return
	}
	l := &fr.loops[len(fr.loops)-1]
	// the iteration that just ended
	old := make(map[*ssa.Phi]*Term, len(phis))
	for i, p := range phis {
		old[p] = fr.env[p]
		_ = i
	}
	l.next = map[ssa.Value]*Term{}
	for i, p := range phis {
		l.next[p] = vals[i]
	}
	if e.h.LoopBack != nil {
		e.h.LoopBack(st, &LoopEv{fr: fr, loop: loop, st: l})
		if st.dead {
			return
		}
		for i, p := range phis {
			vals[i] = l.next[p]
		}
	}
	vals = e.summarise(st, fr, loop, l, phis, vals)
	l.next = nil
	l.iter++
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
	// registers of the body are dead now
	fi := e.info(fr.fn)
	for v := range fr.env {
		if in, ok := v.(ssa.Instruction); ok && loop.blocks[in.Block()] && !fi.liveIn[to][v] {
			if phi, ok := v.(*ssa.Phi); ok && phi.Block() == to {
				continue
			}
			delete(fr.env, v)
		}
	}
	l.iterated = true
	l.prev = e.snapshot(st, fr, loop)
	if l.mode == 1 {
		e.forkPhases(st, fr, loop, false)
		return
	}
	e.arrive(st, fr, to, true)
	if !st.dead && l.mode == 3 && e.h.LoopIter != nil {
		if !e.h.LoopIter(st, &LoopEv{fr: fr, loop: loop, st: &fr.loops[len(fr.loops)-1]}) {
			st.dead = true
		}
	}
}

func mkKeys(m *Term) *Term {
	return intern(OCall, "keys", 0, 0, types.Typ[types.Int], nil, nil, m)
}

// setupCounted decides how to treat a counted traversal.
func (e *Engine) setupCounted(st *State, fr *Frame, loop *Loop, l *loopSt, phis []*ssa.Phi, vals []*Term) {
	var init *Term
	for i, p := range phis {
		if p == loop.ind {
			init = vals[i]
		}
	}
	var bound, coll *Term
	if loop.boundOf != nil {
		if t, ok := e.evalInvariant(st, fr, loop, loop.boundOf); ok {
			coll = t
			bound = mkLen(coll)
		}
	}
	if loop.fieldsOf != nil {
		bound = numFields(e.val(st, fr, loop.fieldsOf))
	}
	if bound == nil && loop.definedOutside(loop.bound) {
		bound = e.val(st, fr, loop.bound)
	} else if bound == nil && loop.boundOf == nil && loop.fieldsOf == nil {
		if t, ok := e.evalInvariant(st, fr, loop, loop.bound); ok {
			bound = t
		}
	}
	if bound == nil || init == nil {
		return
	}
	if k, ok := st.eqc[bound]; ok {
		bound = k
	}
	off := int64(0)
	if loop.test != ssa.Value(loop.ind) {
		off = 1
	}
	if n, ok := bound.intVal(); ok {
		if k, ok := init.intVal(); ok && n-k <= e.unroll {
			l.unrolled = true
			return // short: follow every iteration
		}
	}
	l.mode = 1
	l.coll, l.bound = coll, bound
	l.init = mkAddK(init, off) // first value of the tested index
	l.off = off
	if k, ok := l.init.intVal(); ok && k == 0 {
		if coll != nil {
			l.exact = true
		} else if iv := st.ivalOf(bound); iv.lo >= 0 {
			l.exact = true
		}
	}
}

// evalInvariant evaluates a loop invariant expression before its block is reached.
func (e *Engine) evalInvariant(st *State, fr *Frame, loop *Loop, v ssa.Value) (*Term, bool) {
	if loop.definedOutside(v) {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function:
			return e.val(st, fr, v), true
		}
		t, ok := fr.env[v]
		return t, ok
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			a, ok := e.evalInvariant(st, fr, loop, x.X)
			if !ok {
				return nil, false
			}
			return st.peek(a, derefType(x.X.Type())), true
		}
	case *ssa.FieldAddr:
		a, ok := e.evalInvariant(st, fr, loop, x.X)
		if !ok {
			return nil, false
		}
		return mkFieldAddr(a, x.Field, structOf(derefType(x.X.Type()))), true
	}
	return nil, false
}

func (e *Engine) forkPhases(st *State, fr *Frame, loop *Loop, first bool) {
	mk := func(phase int8) func(s *State) bool {
		return func(s *State) bool {
			f := s.top()
			l := &f.loops[len(f.loops)-1]
			l.phase = phase
			if phase == phZero {
				f.env[loop.ind] = mkAddK(l.init, -l.off)
				e.arrive(s, f, loop.header, true)
				return !s.dead
			}
			// idx counts from 0; tested index = init + idx
			idx := s.sym("idx", loop.ind, f.ctx, 0, types.Typ[types.Int])
			symSites[idx] = symSite{loop.ind, f.ctx}
			l = &f.loops[len(f.loops)-1]
			l.idx = idx
			f.env[loop.ind] = mkAddK(mkAdd(idx, l.init), -l.off)
			if phase == phExit {
				l.idx = nil
			}
			e.arrive(s, f, loop.header, true)
			return !s.dead
		}
	}
	l := &fr.loops[len(fr.loops)-1]
	if first {
		e.fork(st, mk(phZero), mk(phIter))
	} else if n, ok := l.bound.intVal(); ok && l.exact && int64(l.iter) >= n {
		e.fork(st, mk(phExit))
	} else {
		e.fork(st, mk(phExit), mk(phIter))
	}
}

func (e *Engine) snapshot(st *State, fr *Frame, loop *Loop) *snap {
	s := &snap{heap: make(map[*Term]*Term, len(st.heap)), env: map[ssa.Value]*Term{}}
	for k, v := range st.heap {
		s.heap[k] = v
	}
	for v, t := range fr.env {
		if phi, ok := v.(*ssa.Phi); ok && phi.Block() == loop.header {
			s.env[v] = t
		}
	}
	return s
}

func sortedCells(m map[*Term]*Term) []*Term {
	ks := make([]*Term, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks
}

// inLoop reports whether the symbol was made by the loop's body.
func (e *Engine) inLoop(s *Term, fr *Frame, loop *Loop) bool {
	si, ok := symSites[s]
	if !ok {
		return false
	}
	if si.ctx == fr.ctx {
		return si.in != nil && loop.blocks[si.in.Block()]
	}
	for c := si.ctx; c != nil; c = c.parent {
		if c.parent == fr.ctx && c.call != nil && c.call.Block() != nil && c.call.Block().Parent() == fr.fn {
			return loop.blocks[c.call.Block()]
		}
	}
	return false
}

var boundVars = map[*Term]*Term{}

// template rewrites an element made in one iteration into a function of the
// iteration.
func (e *Engine) template(st *State, fr *Frame, loop *Loop, l *loopSt, v *Term) *Term {
	beta := mkBeta(l.over)
	memo := map[*Term]*Term{}
	if l.idx != nil {
		v = substTerm(v, l.idx, beta, memo)
	}
	if l.key != nil {
		v = substTerm(v, l.key, beta, map[*Term]*Term{})
	}
	for i := 0; i < 40; i++ {
		var found *Term
		for _, s := range v.syms {
			if e.inLoop(s, fr, loop) {
				found = s
				break
			}
		}
		if found == nil {
			break
		}
		if found.op == OAlloc {
			// an object made in the iteration: its content as of now
			if c, ok := st.heap[found]; ok && c.op != OZero {
				_ = c
			}
		}
		r := intern(OCall, "each:"+found.s, found.idx, 0, found.t, nil, nil, beta)
		v = substTerm(v, found, r, map[*Term]*Term{})
	}
	return v
}

func mkSeq(kind string, base, bound, tmpl *Term, t types.Type) *Term {
	return intern(OCall, "seq:"+kind, 0, 0, t, nil, nil, base, bound, tmpl)
}

func mkBeta(over *Term) *Term {
	return intern(OCall, "β", 0, 0, types.Typ[types.Int], nil, nil, over)
}

// seqBound gives the number of iterations (a length, a number or keys(map))
// that produced the sequence.
func seqBound(x *Term) *Term { return x.a[1].a[0] }

// seqElem gives the element a complete sequence holds at an index or key.
func seqElem(x, i *Term) *Term {
	return substAny(x.a[2], mkBeta(x.a[1]), i, map[*Term]*Term{})
}

// leaveLoop settles what is known about the sequences a loop was building: they
// are complete when the loop ended by itself.
func (st *State) leaveLoop(l *loopSt, done bool, more ...*Term) {
	if l.over == nil {
		return
	}
	kind := "some"
	if done {
		kind = "all"
	}
	for {
		var found *Term
		see := func(t *Term) bool {
			for _, x := range t.syms {
				if x.op == OCall && x.a[1] == l.over {
					found = x
					return false
				}
			}
			return true
		}
		st.forTerms(see)
		for _, t := range more {
			if t != nil && found == nil {
				see(t)
			}
		}
		if found == nil {
			return
		}
		to := mkSeq(kind, found.a[0], found.a[1], found.a[2], found.t)
		st.subst(found, to)
		if n := found.a[1].a[0]; !done && isSeq(to) && n.op != OCall {
			// one element for each iteration begun, at most
			st.assume(mkLt(mkAdd(mkLen(to.a[0]), n), mkLen(to), types.Typ[types.Int]), false)
		}
		for i, t := range more {
			if t != nil {
				more[i] = substTerm(t, found, to, map[*Term]*Term{})
			}
		}
	}
}

func isSeq(x *Term) bool { return x.op == OCall && strings.HasPrefix(x.s, "seq:") }

// summarise generalises what changed during an iteration so that the loop
// reaches a fixpoint.
func (e *Engine) summarise(st *State, fr *Frame, loop *Loop, l *loopSt, phis []*ssa.Phi, vals []*Term) []*Term {
	var gen0 func(prev, nv *Term, name string, pin ssa.Instruction, k int, t types.Type) *Term
	gen := func(prev, nv *Term, name string, pin ssa.Instruction, k int, t types.Type) *Term {
		g := gen0(prev, nv, name, pin, k, t)
		if g != nv && isSeq(g) && g.a[1] == l.over {
			st.forget(g)
		}
		if e.h.LoopGen != nil && g != nv {
			p := g
			if g.op == OSlice {
				p = g.a[1]
			}
			if p.op == OSym && nv.mentions(p) {
				// the earlier position was renamed
				nv = substTerm(nv, p, intern(p.op, p.s, p.idx, p.gen+1, p.t, p.c, p.fn, p.a...), map[*Term]*Term{})
			}
			e.h.LoopGen(st, &LoopEv{fr: fr, loop: loop, st: l}, nv, g)
		}
		return g
	}
	gen0 = func(prev, nv *Term, name string, pin ssa.Instruction, k int, t types.Type) *Term {
		if prev == nil || nv == prev {
			if prev != nil && isSeq(prev) && prev.s == "seq:sofar" && prev.a[1] == l.over {
				return mkSeq("some", prev.a[0], prev.a[1], prev.a[2], prev.t)
			}
			return nv
		}
		// appended in this iteration
		if nv.op == OAppend && nv.a[0] == prev && len(nv.a) == 2 {
			tm := e.template(st, fr, loop, l, nv.a[1])
			if isSeq(prev) && prev.a[1] == l.over {
				return mkSeq(prev.s[4:], prev.a[0], l.over, mergeTmpl(prev.a[2], tm, l.over), prev.t)
			}
			kind := "sofar"
			if l.iterated || l.mode == 3 {
				kind = "some"
			}
			return mkSeq(kind, prev, l.over, tm, nv.t)
		}
		// consumed from the front
		if nv.op == OSlice && nv.a[2] == TNil {
			lo := nv.a[1]
			_, isC := lo.intVal()
			b, kk := splitAdd(lo)
			if isC && l.iter >= 1 || !isC && b != nil && b.op == OSym && strings.HasPrefix(b.s, "idxpos") && kk > 0 {
				if b != nil {
					st.dropIval(b)
				}
				pos := intern(OSym, fmt.Sprintf("idxpos#%d@%d", e.siteID(pin), fr.ctx.id), k, 0, types.Typ[types.Int], nil, nil)
				if pos != b {
					usedSyms[pos] = true
					st.dropFactsAbout(pos)
				} else {
					st.age(pos)
				}
				st.ivals[pos] = ival{1, fullIval.hi}
				return mkSlice(nv.a[0], pos, TNil)
			}
			return nv
		}
		if n, ok := nv.intVal(); ok && (n > 6 || n < -6 || l.iter > 8) && !l.unrolled {
			w := st.sym("w"+name, pin, fr.ctx, 50+k, t)
			symSites[w] = symSite{pin, fr.ctx}
			if p, ok := prev.intVal(); ok {
				if n > p {
					st.ivals[w] = ival{p, fullIval.hi}
				}
			}
			return w
		}
		if b, kk := splitAdd(nv); b != nil && kk != 0 && (b == prev || l.iter > 8) && isIntType(t) && !l.unrolled {
			iv := st.ivalOf(prev)
			w := st.sym("w"+name, pin, fr.ctx, 50+k, t)
			symSites[w] = symSite{pin, fr.ctx}
			if kk > 0 && iv.lo > fullIval.lo {
				st.ivals[w] = ival{iv.lo, fullIval.hi}
			}
			return w
		}
		grown := nv.op == OAppendSlice && !l.unrolled && (nv.a[0] == prev || nv.a[1] == prev) || nv.op == OAppend && len(nv.a) > 8 && !l.unrolled
		if grown || nv.depth > 14 || (l.iter > 10 && nv.depth > prev.depth && nv.depth > 5) {
			w := st.sym("w"+name, pin, fr.ctx, 50+k, t)
			symSites[w] = symSite{pin, fr.ctx}
			return w
		}
		return nv
	}
	out := make([]*Term, len(vals))
	copy(out, vals)
	for i, p := range phis {
		if l.mode == 1 && p == loop.ind || l.mode == 2 && p == loop.cnt {
			continue
		}
		out[i] = gen(l.prev.env[p], out[i], "phi", p, i, p.Type())
	}
	hdr := loop.header.Instrs[0]
	// element stores at the traversal index
	if (l.mode == 1 || l.mode == 2) && l.idx != nil {
		at := l.idx
		if l.mode == 1 {
			at = mkAdd(l.idx, l.init)
		}
		for _, k := range sortedCells(st.heap) {
			if k.op == OIndexAddr && k.a[1].mentions(l.idx) && !k.a[0].mentions(l.idx) {
				v := st.heap[k]
				delete(st.heap, k)
				ck := mkContent(k.a[0])
				if k.a[1] != at {
					delete(st.heap, ck)
					continue
				}
				tm := e.template(st, fr, loop, l, v)
				cur := st.heap[ck]
				switch {
				case cur != nil && isSeq(cur) && cur.a[1] == l.over:
					st.heap[ck] = mkSeq(cur.s[4:], cur.a[0], l.over, mergeTmpl(cur.a[2], tm, l.over), cur.t)
				case cur == nil && !l.iterated:
					st.heap[ck] = mkSeq("sofar", TNil, l.over, tm, k.a[0].t)
				default:
					st.heap[ck] = mkSeq("some", TNil, l.over, unknownTmpl(l.over, tm.t), k.a[0].t)
				}
				l.filled = append(l.filled, ck)
			}
		}
	}
	if l.mode == 2 && l.key != nil {
		for _, k := range sortedCells(st.heap) {
			if k.op == OMapElem && k.a[1] == l.key && !k.a[0].mentions(l.key) && k.a[0] != l.coll {
				v := st.heap[k]
				delete(st.heap, k)
				ck := mkContent(k.a[0])
				tm := e.template(st, fr, loop, l, v)
				cur := st.heap[ck]
				full := st.heap[mkMapFull(k.a[0])]
				switch {
				case cur != nil && isSeq(cur) && cur.a[1] == l.over:
					st.heap[ck] = mkSeq(cur.s[4:], cur.a[0], l.over, mergeTmpl(cur.a[2], tm, l.over), cur.t)
				case cur == nil && !l.iterated && full != nil:
					st.heap[ck] = mkSeq("sofar", TNil, l.over, tm, k.a[0].t)
				default:
					st.heap[ck] = mkSeq("some", TNil, l.over, unknownTmpl(l.over, tm.t), k.a[0].t)
				}
				l.filled = append(l.filled, ck)
			}
		}
	}
	if l.mode == 1 && l.idx != nil || l.mode == 2 && l.key != nil {
		for _, k := range sortedCells(st.heap) {
			if k.op == OContent {
				v := st.heap[k]
				if isSeq(v) && v.a[1] == l.over && v.s == "seq:sofar" && v.a[0] == TNil && l.iterated && !inTerms(l.filled, k) && l.fills(k) {
					st.heap[k] = mkSeq("some", TNil, v.a[1], v.a[2], v.t)
				}
			}
		}
		for _, f := range l.filled {
			l.everFilled = addTerm(l.everFilled, f)
		}
		l.filled = nil
	}
	j := 100
	for _, k := range sortedCells(st.heap) {
		v, ok := st.heap[k]
		if !ok {
			continue
		}
		prev := l.prev.heap[k]
		if prev == nil || k.op == OContent || k.op == OMapFull {
			continue
		}
		if prev != v || (isSeq(v) && l.mode != 3) {
			j++
			var t types.Type = v.t
			if k.t != nil {
				t = derefType(k.t)
			}
			if t != nil && structOf(t) != nil {
				nf := expandStruct(v, t)
				pf := expandStruct(prev, t)
				ch := false
				for i := range nf {
					j++
					g := gen(pf[i], nf[i], "cell", hdr, j, structOf(t).Field(i).Type())
					if g != nf[i] {
						nf[i] = g
						ch = true
					}
				}
				if ch {
					st.heap[k] = mkStruct(t, nf)
				}
				continue
			}
			st.heap[k] = gen(prev, v, "cell", hdr, j, t)
		}
	}
	return out
}

func (l *loopSt) fills(k *Term) bool { return inTerms(l.everFilled, k) }

func inTerms(l []*Term, t *Term) bool {
	for _, x := range l {
		if x == t {
			return true
		}
	}
	return false
}

func addTerm(l []*Term, t *Term) []*Term {
	if inTerms(l, t) {
		return l
	}
	return append(append([]*Term(nil), l...), t)
}

// mergeTmpl describes elements that are like one or the other.
func mergeTmpl(a, b *Term, over *Term) *Term {
	if a == b {
		return a
	}
	if s := structOf(a.t); s != nil && a.t != nil && b.t != nil && types.Identical(a.t, b.t) {
		x, y := expandStruct(a, a.t), expandStruct(b, a.t)
		same := 0
		for i := range x {
			if x[i] == y[i] {
				same++
				continue
			}
			x[i] = intern(OCall, fmt.Sprintf("anyelem.%d", i), 0, 0, s.Field(i).Type(), nil, nil, over)
		}
		if same > 0 {
			return mkStruct(a.t, x)
		}
	}
	return unknownTmpl(over, a.t)
}

func unknownTmpl(bound *Term, t types.Type) *Term {
	return intern(OCall, "anyelem", 0, 0, t, nil, nil, bound)
}

func (st *State) dropIval(t *Term) { delete(st.ivals, t) }
