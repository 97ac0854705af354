package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C13", "effect and progress analysis of everything that runs under a context: what can block, and which loops go on, once it is cancelled",
		"Every function of eventsource and session that is given a context, and every goroutine it starts, is explored with the context being cancelled at any call or wait; each wait must be one that the cancellation ends, and no loop may begin another round after a round in which the context was cancelled from its start",
		runC13)
}

// timed: a channel that something arrives on after a while.
func timed(ch *Term) bool {
	if ch.op == OLoad {
		o, f, _ := fieldLoad(ch)
		return f == "C" && o != nil && (isTimeT(o, "Timer") || isTimeT(o, "Ticker"))
	}
	return ch.op == OSym && strings.HasPrefix(ch.s, "res:time.") || ch.op == OCall && (strings.HasPrefix(ch.s, "time.After") || strings.HasPrefix(ch.s, "time.Tick")) || ch.t != nil && chanElem(ch.t) != nil && isTimeT(chanElem(ch.t), "Time")
}

// ctxRoots lists the functions of a package that are given a context from
// outside: exported ones and methods of exported interfaces.
func (p *Program) ctxRoots(rels ...string) []*ssa.Function {
	var out []*ssa.Function
	ifaces := map[string]bool{}
	for _, rel := range rels {
		if pkg := p.repoPkg(rel); pkg != nil {
			for _, n := range pkg.Pkg.Scope().Names() {
				if tn, ok := pkg.Pkg.Scope().Lookup(n).(*types.TypeName); ok && tn.Exported() {
					if it, ok := tn.Type().Underlying().(*types.Interface); ok {
						for i := 0; i < it.NumMethods(); i++ {
							ifaces[it.Method(i).Name()] = true
						}
					}
				}
			}
		}
	}
	in := map[string]bool{}
	for _, rel := range rels {
		in[modPath+"/"+rel] = true
	}
	for _, fn := range p.funcs {
		if fn.Parent() != nil || fn.Blocks == nil || !in[pkgPath(fn)] || fn.Synthetic != "" || fn.TypeParams().Len() > 0 || len(fn.TypeArgs()) > 0 {
			continue
		}
		if o, ok := fn.Object().(*types.Func); !ok || !o.Exported() {
			continue
		}
		has := false
		for _, pr := range fn.Params {
			has = has || isContextType(pr.Type())
		}
		if !has {
			continue
		}
		if rc := fn.Signature.Recv(); rc != nil {
			n, ok := derefType(rc.Type()).(*types.Named)
			if !ok || !n.Obj().Exported() && !ifaces[fn.Name()] {
				continue
			}
		}
		out = append(out, fn)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func runC13(a *Analysis) {
	p := a.program()
	a.rule("every wait includes the context's end, is for a moment in time, or is for a channel that the goroutine started with the context closes when it ends")
	a.rule("every call that may wait is given a context that ends with the one given, or has a timeout")
	a.rule("a loop without bound looks at the context in every round, and after a round during all of which the context was cancelled there is no further one")
	a.rule("an operation of the session that fails because its context ended returns an error that wraps the context's")
	roots := p.ctxRoots("session", "eventsource")
	for _, want := range []string{"eventsource.Manager).Run", "eventsource.Client).Listen", "eventsource.Discovery).Run", "eventsource.Discovery).NewWatchClient", "eventsource.FlushOnFirstMessage", "eventsource.Client).SendFlush", ").Start", ").Next", ").Send", ").Accept"} {
		found := false
		for _, r := range roots {
			found = found || strings.HasSuffix(r.String(), want)
		}
		a.anchor(found, want)
	}
	for _, fn := range roots {
		closed := map[*Term]bool{}
		e := cancelEngine(a, p, fn, closed)
		e.run()
		e = cancelEngine(a, p, fn, closed)
		a.explore(e)
	}
}

func cancelEngine(a *Analysis, p *Program, fn *ssa.Function, closed map[*Term]bool) *Engine {
	e := newEngine(p)
	e.sameCtxErr = true
	rel := strings.TrimPrefix(pkgPath(fn), modPath+"/")
	followOnly(e, rel)
	e.h.Go = goAll
	e.unroll = 0
	idle := map[*ssa.Function]bool{}
	prev := e.h.Opaque
	e.h.Opaque = func(f *ssa.Function) bool {
		if prev(f) {
			return true
		}
		v, ok := idle[f]
		if !ok {
			v = f != fn && f.Parent() == nil && pkgPath(f) == pkgPath(fn) && unconcerned(e, f, map[*ssa.Function]bool{})
			idle[f] = v
		}
		return v
	}
	ob := func() { a.count("obligations checked", 1) }
	var ctx *Term
	within := func(c *Term) bool { return ctxWithin(stripValueCtx(c), []*Term{ctx}) }
	isOp := rel == "session" && fn.Signature.Recv() != nil && (fn.Name() == "Next" || fn.Name() == "Send" || fn.Name() == "Accept")
	done := func(st *State) bool {
		if st.knownTrue(mkIsDone(ctx)) {
			return true
		}
		for f, v := range st.facts {
			if v && f.op == OIsDone && f.a[0] != background && within(f.a[0]) && !timeoutCtx(f.a[0]) {
				return true
			}
		}
		return false
	}
	// a moment at which the context may have been cancelled by now
	point := func(st *State) {
		for f, v := range st.facts {
			if !v && f.op == OIsDone && f.a[0] != background {
				delete(st.facts, f)
			}
		}
		for _, fr := range st.frames {
			for i := range fr.loops {
				st.setFlag(fmt.Sprintf("point:%s:%d", fr.fn, fr.loops[i].loop.header.Index), true)
			}
		}
	}
	pointKey := func(l *LoopEv) string { return fmt.Sprintf("point:%s:%d", l.fr.fn, l.loop.header.Index) }
	loopKey := func(l *LoopEv) string { return fmt.Sprintf("round:%s:%d", l.fr.fn, l.loop.header.Index) }
	atEntry := map[*Term]bool{}
	// rounds that are still running have now seen the context
	e.h.LoopEnter = func(st *State, l *LoopEv) {
		if l.st.mode == 3 && outermost(st, l) {
			st.learnt(atEntry)
		}
		st.setNum(loopKey(l), 0)
		st.setFlag(pointKey(l), false)
	}
	e.h.Tail = func(st *State, c *Call) {
		if c.fn == nil {
			return
		}
		ob()
		k := "round:" + c.fn.String()
		if done(st) {
			if st.num(k) > 0 {
				e.report(st, "goes-on", c.instr, "the function calls itself again although its context has been cancelled")
				st.dead = true
				return
			}
			st.setNum(k, 1)
		}
	}
	e.h.LoopBack = func(st *State, l *LoopEv) {
		if l.st.mode != 3 || ranked(l) {
			return
		}
		ob()
		in := l.loop.header.Instrs[0]
		k := loopKey(l)
		if !st.flag(pointKey(l)) && !st.flag("served") {
			e.report(st, "unaware", in, "a loop goes round without looking at its context: it does not end when that is cancelled")
			st.dead = true
			return
		}
		st.setFlag("served", false)
		st.setFlag(pointKey(l), false)
		if done(st) {
			if st.num(k) > 0 {
				e.report(st, "goes-on", in, "a loop begins another round although its context was cancelled before the last one: it spins for ever")
				st.dead = true
				return
			}
			st.setNum(k, 1)
		}
		if outermost(st, l) {
			st.unlearn(atEntry)
		}
	}
	// breaking out of an inner loop counts as a round seen by the outer one
	leave := func(st *State, l *LoopEv) {
		st.setNum(loopKey(l), 0)
		st.setFlag(pointKey(l), false)
	}
	e.h.LoopBreak, e.h.LoopDone = leave, leave
	e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
		if c.name == "(context.Context).Err" || c.name == "context.Cause" {
			point(st)
			return nil, false
		}
		if c.common == nil || strings.HasPrefix(c.name, "context.") || strings.HasPrefix(c.name, "(context.") || strings.Contains(c.name, "vfmodels") {
			return nil, false
		}
		var x *Term
		for _, ar := range c.args {
			if ar.t != nil && isContextType(ar.t) {
				x = ar
				break
			}
		}
		if x == nil {
			return nil, false
		}
		if c.fn != nil && (pkgPath(c.fn) == modPath || strings.HasPrefix(c.name, "github.com/cenkalti/backoff") || strings.HasPrefix(c.name, "log/slog") || strings.HasPrefix(c.name, "os/signal")) {
			return nil, false
		}
		ob()
		point(st)
		if !within(x) && !timeoutCtx(stripValueCtx(x)) {
			e.report(st, "context", c.instr, "%s is called with a context that the one given does not end", shortName(c.name))
			return nil, false
		}
		if c.res == nil || c.res.Len() == 0 || !isErrT(c.res.At(c.res.Len()-1).Type()) {
			return nil, false
		}
		rs := e.freshRes(st, c)
		n := len(rs) - 1
		var wrapped []*Term
		for y := stripValueCtx(x); y != nil; y = y.a[0] {
			wrapped = append(wrapped, mkCtxErr(y))
			if y.op != OCtx {
				break
			}
		}
		cerr := st.wrapErr(c.instr, c.ctx, wrapped)
		cancelled := Outcome{res: append(append([]*Term(nil), rs[:n]...), cerr), mod: func(s *State) bool {
			s.note(c.pos(), "cancelled during %s", shortName(c.name))
			if within(x) && !s.assume(mkIsDone(ctx), true) {
				return false
			}
			if !within(x) && !s.assume(mkIsDone(stripValueCtx(x)), true) {
				return false
			}
			s.setFlag("ctxfailed", true)
			return true
		}}
		if st.knownTrue(mkIsDone(stripValueCtx(x))) || within(x) && done(st) {
			return []Outcome{cancelled}, true
		}
		outs := okOrErr(e, st, c, nil)
		for i := range outs {
			i, f := i, outs[i].mod
			outs[i].mod = func(s *State) bool {
				s.setFlag("ctxfailed", false)
				s.setFlag("failed", i == 1)
				return f == nil || f(s)
			}
		}
		return append(outs, cancelled), true
	}
	e.h.Block = func(st *State, ops []ChanOp, hasDefault bool, in ssa.Instruction) bool {
		isDone, onlyTimed := false, len(ops) > 0
		for _, op := range ops {
			switch {
			case op.ch.op == ODoneCh && (within(op.ch.a[0]) || timeoutCtx(op.ch.a[0])):
				isDone = true
			case !op.send && timed(op.ch):
			case !op.send && closed[op.ch]:
				st.setFlag("served", true)
			default:
				onlyTimed = false
			}
		}
		if isDone {
			ob()
			point(st)
			return true
		}
		if hasDefault {
			return true
		}
		ob()
		anyTimed := false
		for _, op := range ops {
			anyTimed = anyTimed || !op.send && (timed(op.ch) || closed[op.ch])
		}
		if onlyTimed || anyTimed {
			return true
		}
		e.report(st, "blocked", in, "the wait does not end when the context is cancelled")
		return false
	}
	e.h.ChanPick = func(st *State, ops []ChanOp, i int, in ssa.Instruction) bool {
		for j, op := range ops {
			if op.ch.op == ODoneCh && st.knownTrue(mkIsDone(op.ch.a[0])) {
				// one of the ready cases is picked; sooner or later this one
				return i >= 0 && (j == i || ops[i].ch.op == ODoneCh)
			}
		}
		return true
	}
	// something that there is a finite amount of has become less
	drained := func(st *State) {
		for _, fr := range st.frames {
			for i := range fr.loops {
				st.setFlag(fmt.Sprintf("point:%s:%d", fr.fn, fr.loops[i].loop.header.Index), true)
			}
		}
	}
	e.h.Store = func(st *State, addr, val *Term, in ssa.Instruction) {
		if addr.op == OFieldAddr && shorter(val, st.peek(addr, derefType(addr.t))) {
			drained(st)
		}
	}
	e.h.Chan = func(st *State, op ChanOp, in ssa.Instruction) {
		if sel, ok := in.(*ssa.Select); ok && !sel.Blocking && !op.send && op.ch.op != ODoneCh && !timed(op.ch) {
			drained(st)
		}
		st.setFlag("ctxfailed", op.ch.op == ODoneCh && within(op.ch.a[0]) && !st.flag("failed"))
	}
	e.h.Close = func(st *State, ch *Term, in ssa.Instruction) {
		closed[ch] = true
	}
	e.h.Exit = func(st *State, res []*Term) {
		ob()
		if !isOp || len(res) == 0 || st.thread != fn.String() || !st.flag("ctxfailed") || !done(st) {
			return
		}
		err := res[len(res)-1]
		if st.errorsIs(err, mkCtxErr(ctx), mkIs(err, mkCtxErr(ctx))) != TTrue {
			e.report(st, "error", nil, "the operation fails because its context ended but the error it returns does not say so: callers go on")
		}
	}
	root := e.addRoot(nil, fn, nil, nil)
	for _, pr := range fn.Params {
		if isContextType(pr.Type()) {
			ctx = root.top().env[pr]
		}
	}
	return e
}

// unconcerned: the function neither waits nor loops without bound nor has
// anything to do with contexts or errors.
func unconcerned(e *Engine, fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return true
	}
	seen[fn] = true
	if fn.Blocks == nil || fn.Parent() != nil {
		return false
	}
	sig := fn.Signature
	for _, tup := range []*types.Tuple{sig.Params(), sig.Results()} {
		for i := 0; i < tup.Len(); i++ {
			t := tup.At(i).Type()
			if isContextType(t) || isErrT(t) || chanElem(t) != nil {
				return false
			}
			if _, ok := t.Underlying().(*types.Signature); ok {
				return false
			}
		}
	}
	fi := e.info(fn)
	for _, l := range fi.loops {
		if l.bound == nil && l.next == nil {
			return false
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Select, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.MakeClosure:
				return false
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				for _, ar := range x.Call.Args {
					if isContextType(ar.Type()) {
						return false
					}
				}
				if f := x.Call.StaticCallee(); f != nil && pkgPath(f) == pkgPath(fn) && !unconcerned(e, f, seen) {
					return false
				}
			}
		}
	}
	return true
}

func isErrT(t types.Type) bool { return types.Identical(t, errType()) }

// ranked: something the loop's condition depends on gets smaller each round.
func ranked(l *LoopEv) bool {
	var cond ssa.Value
	for _, in := range l.loop.header.Instrs {
		if i, ok := in.(*ssa.If); ok {
			cond = i.Cond
		}
	}
	if cond == nil {
		return false
	}
	uses := map[ssa.Value]bool{}
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if d > 4 || uses[v] {
			return
		}
		uses[v] = true
		if in, ok := v.(ssa.Instruction); ok && in.Block() == l.loop.header {
			if _, phi := v.(*ssa.Phi); phi {
				return
			}
			for _, op := range in.Operands(nil) {
				walk(*op, d+1)
			}
		}
	}
	walk(cond, 0)
	for _, in := range l.loop.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok || !uses[phi] {
			continue
		}
		old, now := l.fr.env[phi], l.st.next[phi]
		if old == nil || now == nil || old == now {
			continue
		}
		if shorter(now, old) {
			return true
		}
		if b, ok := cond.(*ssa.BinOp); ok && isIntType(phi.Type()) && (b.Op == token.LSS || b.Op == token.LEQ || b.Op == token.GTR || b.Op == token.GEQ || b.Op == token.NEQ) {
			if now.op == OBin && strings.HasPrefix(now.s, "+") && len(now.a) == 2 {
				if _, ok := now.a[1].intVal(); ok && now.a[0] == old {
					return true
				}
			}
		}
	}
	return false
}

// shorter: now is what is left of the slice old when its first elements are
// taken away.
func shorter(now, old *Term) bool {
	if now == nil || old == nil || now.op != OSlice {
		return false
	}
	olo := mkInt(0)
	base := old
	if old.op == OSlice {
		if base = old.a[0]; old.a[1] != TNil {
			olo = old.a[1]
		}
		if now.a[0] == old {
			base, olo = old, mkInt(0)
		}
	}
	if now.a[0] != base || now.a[1] == TNil {
		return false
	}
	nlo := now.a[1]
	if n, ok := nlo.intVal(); ok {
		o, ok := olo.intVal()
		return ok && n > o
	}
	if nlo.op == OBin && strings.HasPrefix(nlo.s, "+") && len(nlo.a) == 2 {
		k, ok := nlo.a[1].intVal()
		if ok && k >= 1 && nlo.a[0] == olo {
			return true
		}
		if olo.op == OBin && olo.s == nlo.s && olo.a[0] == nlo.a[0] {
			o, ok2 := olo.a[1].intVal()
			return ok && ok2 && k > o
		}
	}
	return false
}
