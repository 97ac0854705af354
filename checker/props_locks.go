package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C28", "path-sensitive lock typestate and effect analysis of every operation, with a global lock-order graph",
		"Every exported operation, every function other code is given a reference to and every goroutine they start is explored on all paths with the set of held locks as typestate; calls through interfaces are replaced by a summary of what any implementation in the repository may lock, wait for or call",
		runC28)
}

// lockClass names a lock by where it is declared.
func lockClass(mu *Term) string {
	switch mu.op {
	case OFieldAddr:
		if mu.a[0].t != nil {
			if n, ok := derefType(mu.a[0].t).(*types.Named); ok {
				return typeKey(n) + "." + mu.s
			}
			if mu.a[0].op == OGlobal {
				return mu.a[0].s + "." + mu.s
			}
			return typeKey(derefType(mu.a[0].t)) + "." + mu.s
		}
	case OGlobal:
		return "var " + mu.s
	}
	if mu.t != nil {
		return typeKey(derefType(mu.t))
	}
	return mu.String()
}

// lockEffects is what a function may do, itself or through what it calls.
type lockEffects struct {
	acquires map[string]token.Pos
	waits    token.Pos // waits for a channel, a wait group or a timer
	handler  token.Pos // calls a function it was given
	dynamic  bool      // calls functions that are not known
	locks    bool      // takes or releases a lock, not counting calls through interfaces
	external bool      // calls something outside that is given a context or does I/O
}

type lockSummaries struct {
	p   *Program
	m   map[*ssa.Function]*lockEffects
	out map[*ssa.Function][]*ssa.Function
	dyn map[*ssa.Function][]*ssa.Function // possible callees of calls through interfaces
}

func (p *Program) lockSummaries() *lockSummaries {
	s := &lockSummaries{p: p, m: map[*ssa.Function]*lockEffects{}, out: map[*ssa.Function][]*ssa.Function{}, dyn: map[*ssa.Function][]*ssa.Function{}}
	for _, fn := range p.funcs {
		s.direct(fn)
	}
	for changed := true; changed; {
		changed = false
		for fn, e := range s.m {
			static := len(s.out[fn])
			for i, c := range append(append([]*ssa.Function(nil), s.out[fn]...), s.dyn[fn]...) {
				o := s.m[c]
				if o == nil {
					continue
				}
				for k, pos := range o.acquires {
					if _, ok := e.acquires[k]; !ok {
						e.acquires[k], changed = pos, true
					}
				}
				if o.waits != 0 && e.waits == 0 {
					e.waits, changed = o.waits, true
				}
				if o.handler != 0 && e.handler == 0 {
					e.handler, changed = o.handler, true
				}
				for _, b := range []struct{ from, to *bool }{{&o.dynamic, &e.dynamic}, {&o.locks, &e.locks}, {&o.external, &e.external}} {
					if i < static && (b.to != &e.locks || sameGroup(fn, c)) && *b.from && !*b.to {
						*b.to, changed = true, true
					}
				}
			}
		}
	}
	return s
}

// sameGroup: packages that are explored together.
func sameGroup(f, g *ssa.Function) bool {
	x, y := pkgPath(f), pkgPath(g)
	return x == y || strings.TrimSuffix(x, "/internal") == strings.TrimSuffix(y, "/internal")
}

func mutexMethod(f *ssa.Function) (lock, acquire bool) {
	if f == nil || f.Signature.Recv() == nil {
		return false, false
	}
	n, ok := derefType(f.Signature.Recv().Type()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync" || n.Obj().Name() != "Mutex" && n.Obj().Name() != "RWMutex" {
		return false, false
	}
	return true, strings.HasSuffix(f.Name(), "Lock") && !strings.HasSuffix(f.Name(), "Unlock")
}

// staticLockClass names the lock that an SSA value points to.
func staticLockClass(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		t := derefType(x.X.Type())
		if st, ok := t.Underlying().(*types.Struct); ok {
			if n, ok := t.(*types.Named); ok {
				return typeKey(n) + "." + st.Field(x.Field).Name()
			}
			if g, ok := x.X.(*ssa.Global); ok {
				return g.String() + "." + st.Field(x.Field).Name()
			}
			return typeKey(t) + "." + st.Field(x.Field).Name()
		}
	case *ssa.Global:
		return "var " + x.String()
	}
	return typeKey(derefType(v.Type()))
}

// isHandlerSig: a callback that is told about something.
func isHandlerSig(sig *types.Signature) bool {
	return sig != nil && sig.Results().Len() == 0 && sig.Params().Len() > 0
}

// amqpIO: talks to the peer without a context that ends it.
func amqpIO(f *types.Func) bool {
	sig := f.Type().(*types.Signature)
	if f.Pkg() == nil || !strings.Contains(f.Pkg().Path(), "go-amqp") || sig.Recv() == nil {
		return false
	}
	n, ok := derefType(sig.Recv().Type()).(*types.Named)
	if !ok {
		return false
	}
	switch n.Obj().Name() {
	case "Conn", "Session", "Sender", "Receiver":
	default:
		return false
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if isContextType(sig.Params().At(i).Type()) {
			return false
		}
	}
	return sig.Results().Len() > 0 && isErrT(sig.Results().At(sig.Results().Len()-1).Type())
}

func (s *lockSummaries) direct(fn *ssa.Function) {
	e := &lockEffects{acquires: map[string]token.Pos{}}
	s.m[fn] = e
	spawned := map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if g, ok := in.(*ssa.Go); ok {
				spawned[g.Call.Value] = true
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Select:
				if x.Blocking && e.waits == 0 {
					e.waits = instrPos(in)
				}
			case *ssa.Send:
				e.waits = instrPos(in)
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					e.waits = instrPos(in)
				}
			case *ssa.MakeClosure:
				if f, ok := x.Fn.(*ssa.Function); ok && !spawned[x] {
					s.out[fn] = append(s.out[fn], f)
				}
			case *ssa.Go:
			case ssa.CallInstruction:
				c := x.Common()
				if c.IsInvoke() {
					if c.Method.Pkg() != nil && strings.HasPrefix(c.Method.Pkg().Path(), modPath) || s.p.isRepoIface(c.Value.Type()) {
						for _, t := range s.p.implementers(c.Value.Type()) {
							if m := s.p.method(t, c.Method.Name()); m != nil {
								s.dyn[fn] = append(s.dyn[fn], m)
							}
						}
					} else if n := c.Method.Name(); n == "Lock" || n == "Unlock" {
						e.locks = true
					} else {
						e.external = e.external || hasCtxArg(c)
					}
					continue
				}
				switch f := c.Value.(type) {
				case *ssa.Builtin:
				default:
					callee := c.StaticCallee()
					if callee == nil {
						e.dynamic = true
						if isHandlerSig(c.Signature()) && e.handler == 0 {
							e.handler = instrPos(in)
						}
						continue
					}
					_ = f
					if lk, acq := mutexMethod(callee); lk {
						e.locks = true
						if acq && len(c.Args) > 0 {
							e.acquires[staticLockClass(c.Args[0])] = instrPos(in)
						}
						continue
					}
					switch callee.String() {
					case "(*sync.WaitGroup).Wait", "time.Sleep", "(*sync.Cond).Wait":
						e.waits = instrPos(in)
					}
					if o, ok := callee.Object().(*types.Func); ok && amqpIO(o) {
						e.external = true
					}
					if strings.HasPrefix(pkgPath(callee), modPath) {
						s.out[fn] = append(s.out[fn], callee)
					} else {
						e.external = e.external || hasCtxArg(c)
						for _, a := range c.Args {
							if _, ok := a.Type().Underlying().(*types.Signature); ok {
								if f, ok := a.(*ssa.Function); ok {
									s.out[fn] = append(s.out[fn], f)
								} else if _, ok := a.(*ssa.MakeClosure); !ok {
									e.dynamic = true
								}
							}
						}
					}
				}
			}
		}
	}
}

func hasCtxArg(c *ssa.CallCommon) bool {
	for _, a := range c.Args {
		if isContextType(a.Type()) {
			return true
		}
	}
	return false
}

func (p *Program) isRepoIface(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}

// of sums up what a call may do that is not followed.
func (s *lockSummaries) of(c *Call) []*lockEffects {
	var out []*lockEffects
	switch {
	case c.fn != nil:
		if e := s.m[c.fn]; e != nil {
			out = append(out, e)
		}
	case c.method != nil && c.common != nil && c.common.IsInvoke():
		t := c.common.Value.Type()
		if s.p.isRepoIface(t) {
			for _, i := range s.p.implementers(t) {
				if m := s.p.method(i, c.method.Name()); m != nil && s.m[m] != nil {
					out = append(out, s.m[m])
				}
			}
		}
	}
	return out
}

func runC28(a *Analysis) {
	p := a.program()
	a.rule("every lock taken is released when the operation or goroutine that took it ends, no lock is released that is not held")
	a.rule("no lock is taken while the same lock is held, and the order in which locks are taken while others are held has no cycle")
	a.rule("while a lock of the library is held there is no wait for a channel, a wait group or a moment, no network operation that the caller's context does not end, and no call of a handler")
	sums := p.lockSummaries()
	order := map[string]map[string]token.Pos{}
	edge := func(from, to string, pos token.Pos) {
		if order[from] == nil {
			order[from] = map[string]token.Pos{}
		}
		if _, ok := order[from][to]; !ok {
			order[from][to] = pos
		}
	}
	n := 0
	for _, group := range [][]string{{"store", "store/internal"}, {"session"}, {"eventsource"}, {"encoding"}, {""}, {"cmd/vanflow-tool"}} {
		lib := group[0] != "cmd/vanflow-tool"
		in := map[string]bool{}
		for _, rel := range group {
			if rel == "" {
				in[modPath] = true
			} else {
				in[modPath+"/"+rel] = true
			}
		}
		entered := map[*ssa.Function]bool{}
		busy := func(fn *ssa.Function) bool {
			e := sums.m[fn]
			return e != nil && e.locks
		}
		explore := func(fn *ssa.Function) {
			n++
			a.explore(lockEngine(a, p, sums, fn, lib, group, in, entered, edge))
		}
		var rest []*ssa.Function
		for _, fn := range p.funcs {
			if !in[pkgPath(fn)] || fn.Blocks == nil || fn.TypeParams().Len() > 0 || !busy(fn) {
				continue
			}
			o, _ := fn.Object().(*types.Func)
			if fn.Parent() == nil && fn.Synthetic == "" && o != nil && (o.Exported() || fn.Name() == "main") {
				explore(fn)
			} else {
				rest = append(rest, fn)
			}
		}
		// what those do not reach: called by others through a reference; outer
		// functions before those declared within
		sort.SliceStable(rest, func(i, j int) bool {
			d := func(f *ssa.Function) (n int) {
				for ; f.Parent() != nil; f = f.Parent() {
					n++
				}
				return
			}
			if x, y := d(rest[i]), d(rest[j]); x != y {
				return x < y
			}
			return callees(sums, rest[i])[rest[j]] && !callees(sums, rest[j])[rest[i]]
		})
		for _, fn := range rest {
			if !entered[fn] && fn.Synthetic == "" {
				explore(fn)
			}
		}
	}
	a.anchor(n > 20, "operations that take locks")
	// cycles
	var nodes []string
	for k := range order {
		nodes = append(nodes, k)
	}
	sort.Strings(nodes)
	for _, from := range nodes {
		seen := map[string]bool{}
		var tos []string
		for to := range order[from] {
			tos = append(tos, to)
		}
		sort.Strings(tos)
		for _, to := range tos {
			a.count("obligations checked", 1)
			var reach func(x string) bool
			reach = func(x string) bool {
				if x == from {
					return true
				}
				if seen[x] {
					return false
				}
				seen[x] = true
				for y := range order[x] {
					if reach(y) {
						return true
					}
				}
				return false
			}
			if reach(to) {
				a.violate(p, "order", order[from][to], "", "%s is taken while %s is held, and elsewhere the other way round: two goroutines can wait for each other", shortName(to), shortName(from))
			}
		}
	}
}

func callees(s *lockSummaries, fn *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		for _, c := range s.out[f] {
			if !seen[c] {
				seen[c] = true
				walk(c)
			}
		}
	}
	walk(fn)
	return seen
}

func lockEngine(a *Analysis, p *Program, sums *lockSummaries, fn *ssa.Function, lib bool, group []string, in map[string]bool, entered map[*ssa.Function]bool, edge func(from, to string, pos token.Pos)) *Engine {
	e := newEngine(p)
	followOnly(e, group...)
	e.h.Go = func(st *State, c *Call) bool { return false } // a root of its own
	e.unroll = 0
	prev := e.h.Opaque
	e.h.Opaque = func(f *ssa.Function) bool {
		if prev(f) {
			return true
		}
		s := sums.m[f]
		return s != nil && f != fn && !s.locks && s.waits == 0 && !s.dynamic && !s.external && f.Parent() == nil && !handsOut(f)
	}
	ob := func() { a.count("obligations checked", 1) }
	entered[fn] = true
	e.h.Enter = func(st *State, c *Call) { entered[c.fn] = true }
	held := func(st *State) []*Term {
		var l []*Term
		for m, n := range st.locks {
			if n != 0 {
				l = append(l, m)
			}
		}
		sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
		return l
	}
	e.h.Lock = func(st *State, mu *Term, write bool, in ssa.Instruction) {
		ob()
		if k := st.locks[mu]; k != 0 {
			how := "the lock %s is taken again while it is held: the goroutine waits for itself"
			if !write && k > 0 {
				how = "the lock %s is taken for reading again while it is held for reading: a writer that waits in between blocks both for ever"
			}
			e.report(st, "twice", in, how, lockName(mu))
			st.dead = true
			return
		}
		for _, m := range held(st) {
			if lockClass(m) == lockClass(mu) {
				e.report(st, "order", in, "%s is taken while the same lock of another value is held", lockName(mu))
				continue
			}
			edge(lockClass(m), lockClass(mu), instrPos(in))
		}
	}
	e.h.Unlock = func(st *State, mu *Term, write bool, in ssa.Instruction) {
		ob()
		k := st.locks[mu]
		if k == 0 || write != (k < 0) {
			e.report(st, "unheld", in, "the lock %s is released although it is not held%s", lockName(mu), map[bool]string{true: "", false: " that way"}[k == 0])
			st.dead = true
		}
	}
	e.h.Exit = func(st *State, res []*Term) {
		ob()
		for _, m := range held(st) {
			e.report(st, "kept", nil, "ends with the lock %s held", lockName(m))
		}
	}
	wait := func(st *State, in ssa.Instruction, what string) {
		if !lib {
			return
		}
		ob()
		if m := anyLock(st); m != nil {
			e.report(st, "wait", in, "%s while %s is held", what, lockName(m))
		}
	}
	e.h.Block = func(st *State, ops []ChanOp, hasDefault bool, in ssa.Instruction) bool {
		if !hasDefault {
			wait(st, in, "waits for a channel")
		}
		return true
	}
	e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
		if !lib && c.fn == nil && c.method == nil || c.common == nil {
			return nil, false
		}
		locks := held(st)
		if len(locks) == 0 {
			return nil, false
		}
		switch c.name {
		case "(*sync.WaitGroup).Wait", "time.Sleep", "(*sync.Cond).Wait":
			wait(st, c.instr, "waits")
			return nil, false
		case "func":
			ob()
			sig, _ := c.fnval.t.Underlying().(*types.Signature)
			if isHandlerSig(sig) {
				e.report(st, "handler", c.instr, "a handler is called while %s is held: it may call back", lockName(locks[0]))
			}
			return nil, false
		}
		if c.fn != nil && strings.HasPrefix(pkgPath(c.fn), modPath) && in[pkgPath(c.fn)] && !e.h.Opaque(c.fn) {
			return nil, false
		}
		for _, s := range sums.of(c) {
			ob()
			for k := range s.acquires {
				for _, m := range locks {
					if lockClass(m) != k {
						edge(lockClass(m), k, c.pos())
					} else if lib {
						e.report(st, "twice", c.instr, "%s may take the lock %s, which is held", shortName(c.name), lockName(m))
					}
				}
			}
			if s.waits != 0 {
				wait(st, c.instr, shortName(c.name)+" may wait for a channel")
			}
			if s.handler != 0 && lib {
				e.report(st, "handler", c.instr, "%s may call a handler while %s is held", shortName(c.name), lockName(locks[0]))
			}
		}
		if !lib {
			return nil, false
		}
		var f *types.Func
		if c.fn != nil {
			f, _ = c.fn.Object().(*types.Func)
		} else {
			f = c.method
		}
		if f == nil || f.Pkg() == nil || strings.HasPrefix(c.name, "context.") || strings.HasPrefix(c.name, "(context.") || strings.HasPrefix(c.name, "log/slog") {
			return nil, false
		}
		if amqpIO(f) {
			ob()
			e.report(st, "io", c.instr, "%s waits for the peer while %s is held, whatever the caller's context", shortName(c.name), lockName(locks[0]))
			return nil, false
		}
		for _, x := range c.args {
			if x.t == nil || !isContextType(x.t) {
				continue
			}
			ob()
			x = stripValueCtx(x)
			if timeoutCtx(x) {
				continue
			}
			for x.op == OCtx {
				x = x.a[0]
			}
			if x == background {
				e.report(st, "io", c.instr, "%s is called with a context that never ends while %s is held", shortName(c.name), lockName(locks[0]))
			}
		}
		return nil, false
	}
	e.addRoot(nil, fn, nil, nil)
	return e
}

// handsOut: returns a function.
func handsOut(f *ssa.Function) bool {
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if _, ok := f.Signature.Results().At(i).Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

func lockName(mu *Term) string {
	c := lockClass(mu)
	return strings.TrimPrefix(c[strings.LastIndexByte(c, '/')+1:], "*")
}
