package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C06", "typestate analysis of the link: monotone closed mark, ownership of AMQP ends, exploration of every operation on a closed link",
		"Close is explored from an arbitrary state of the link and must leave a mark that is never taken back and close every AMQP receiver and sender the link holds; opening an AMQP link requires the mark to be known absent in the same critical section; every operation explored on a closed link must end with an error without waiting, looping or opening anything",
		runC06)
	register("C07", "path-sensitive dataflow of session/generation pairs through link and container critical sections",
		"Every path of Next, Accept, Send, the constructor and the container's goroutine is explored; pairs of session and generation are followed through the critical sections that read and write them, failures to their report, reports to the container's decision",
		runC07)
}

// storesTo lists the stores to a field of objects that are not being built.
func (p *Program) storesTo(t types.Type, field string) []*ssa.Store {
	var out []*ssa.Store
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !sameNamed(fa.X.Type(), t) || structOf(derefType(fa.X.Type())).Field(fa.Field).Name() != field {
					continue
				}
				if isFreshLocal(fa.X, 0) {
					continue
				}
				out = append(out, s)
			}
		}
	}
	return out
}

func ptrFields(t types.Type, amqpType string) []int {
	return fieldsOf(t, func(v *types.Var) bool { return isPtr(v.Type()) && isAmqp(v.Type(), amqpType) })
}

// ends lists the fields that hold AMQP receivers and senders.
func endFields(t types.Type) []int {
	return append(ptrFields(t, "Receiver"), ptrFields(t, "Sender")...)
}

func opensLink(name string) bool {
	return name == amqpName("Session", "NewReceiver") || name == amqpName("Session", "NewSender")
}

func linkTypes(s *sessionParts) []types.Type {
	ts := []types.Type{s.rcvT}
	if !sameNamed(s.rcvT, s.sndT) {
		ts = append(ts, s.sndT)
	}
	return ts
}

// lastingMarks finds boolean fields that, outside of constructors, are only
// ever given one value.
func (p *Program) lastingMarks(t types.Type) map[int]*Term {
	out := map[int]*Term{}
	s := structOf(derefType(t))
	for _, i := range fieldsOf(t, func(v *types.Var) bool { return isBoolType(v.Type()) }) {
		var val *Term
		ok := true
		for _, x := range p.storesTo(t, s.Field(i).Name()) {
			c, is := x.Val.(*ssa.Const)
			if !is || c.Value == nil {
				ok = false
				break
			}
			v := intern(OConst, "", 0, 0, c.Type(), normConst(c.Value, c.Type()), nil)
			if v == mkBool(true) || v.String() == TTrue.String() {
				v = TTrue
			} else {
				v = TFalse
			}
			if val != nil && val != v {
				ok = false
			}
			val = v
		}
		if ok && val != nil {
			out[i] = val
		}
	}
	return out
}

// linkMark finds the field by which a link knows that it is closed.
func linkMark(a *Analysis, t types.Type, quiet bool) (mark int, val *Term) {
	p := a.program()
	s := structOf(derefType(t))
	cl := p.method(t, "Close")
	if !a.anchor(cl != nil && s != nil, "the link's Close") {
		return -1, nil
	}
	marks := p.lastingMarks(t)
	best := -1
	for i := range s.NumFields() {
		v := marks[i]
		if v == nil {
			continue
		}
		e := newEngine(p)
		e.mono = map[string]*Term{typeKey(derefType(t)) + "." + s.Field(i).Name(): v}
		followOnly(e, "session")
		var self *Term
		ok, exits := true, 0
		e.h.Exit = func(st *State, res []*Term) {
			exits++
			if !st.knownTrue(mkEq(st.peek(mkFieldAddr(self, i, s), s.Field(i).Type()), v)) {
				ok = false
			}
		}
		r := e.addRoot(nil, cl, nil, nil)
		self = r.top().env[cl.Params[0]]
		e.run()
		if ok && exits > 0 {
			best = i
			break
		}
	}
	if best < 0 {
		if !quiet {
			a.violate(p, "no-mark", cl.Pos(), cl.String(), "closing leaves no mark that is set on every path and never taken back")
		}
		return -1, nil
	}
	return best, marks[best]
}

func runC06(a *Analysis) {
	s := findSession(a)
	if s == nil {
		return
	}
	p := a.program()
	a.rule("Close sets a mark on every path that nothing outside of constructors takes back")
	a.rule("every AMQP receiver or sender held when the mark is set is closed on every path (or known to be absent)")
	a.rule("an AMQP link is opened only with the link's lock held and the mark known to be absent in that critical section, only when no usable one is held, and is kept in the link before the lock is released")
	a.rule("on a closed link every operation returns a non-nil error without blocking, looping or AMQP calls")
	ob := func() { a.count("obligations checked", 1) }
	for _, t := range linkTypes(s) {
		ls := structOf(derefType(t))
		mark, mv := linkMark(a, t, false)
		if mark < 0 {
			continue
		}
		mono := map[string]*Term{typeKey(derefType(t)) + "." + ls.Field(mark).Name(): mv}
		markOf := func(st *State, self *Term) *Term {
			return st.evalBool(mkEq(st.peek(mkFieldAddr(self, mark, ls), ls.Field(mark).Type()), mv))
		}
		ends := endFields(t)
		if !a.anchor(len(ends) > 0, "the AMQP ends a link holds") {
			continue
		}
		cl := p.method(t, "Close")
		var ops []*ssa.Function
		for _, n := range []string{"Next", "Accept", "Send"} {
			if m := p.method(t, n); m != nil {
				ops = append(ops, m)
			}
		}
		a.anchor(len(ops) > 0, "the operations of a link")

		// Close, and everything afterwards
		e := newEngine(p)
		e.mono = mono
		followOnly(e, "session")
		var self *Term
		isOp := func(st *State) bool { return st.thread != cl.String() || st.flag("after") }
		// an end of a session the link no longer uses has ended with it
		lp := p.pairFields(t, "Session")
		var gens []pairing
		if len(lp) == 1 {
			gens = append(p.pairFields(t, "Receiver"), p.pairFields(t, "Sender")...)
		}
		held := func(st *State, base *Term, i int) {
			h := st.peek(mkFieldAddr(base, i, ls), ls.Field(i).Type())
			st.addTo("held", h)
			for _, g := range gens {
				if g.ptr == i {
					num := func(j int) *Term { return st.peek(mkFieldAddr(base, j, ls), ls.Field(j).Type()) }
					st.addTo("heldgen", tup(h, num(g.num), num(lp[0].num)))
				}
			}
		}
		outlived := func(st *State, h *Term) bool {
			for _, x := range st.list("heldgen") {
				if x.a[0] == h && st.knownFalse(mkEq(x.a[1], x.a[2])) {
					return true
				}
			}
			return false
		}
		e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
			if isOp(st) {
				switch {
				case opensLink(c.name), c.name == amqpName("Receiver", "Receive"), c.name == amqpName("Receiver", "AcceptMessage"), c.name == amqpName("Sender", "Send"):
					ob()
					e.report(st, "used-after-close", c.instr, "%s is called on a closed link", shortName(c.name))
				}
			}
			if c.name == amqpName("Receiver", "Close") || c.name == amqpName("Sender", "Close") {
				st.addTo("released", c.args[0])
			}
			return nil, false
		}
		e.h.Store = func(st *State, addr, val *Term, in ssa.Instruction) {
			o, f, base := fieldAddrOf(addr)
			if o == nil || !sameNamed(o, t) || f != ls.Field(mark).Name() || base != self {
				return
			}
			ob()
			if !st.holdsLockOf(base) {
				e.report(st, "mark-unlocked", in, "the link is marked closed without holding its lock")
			}
			for _, i := range ends {
				held(st, base, i)
			}
		}
		e.h.Load = func(st *State, addr *Term, in ssa.Instruction) {
			o, f, base := fieldAddrOf(addr)
			if o == nil || !sameNamed(o, t) || base != self || isOp(st) {
				return
			}
			// what was held before it is forgotten
			for _, i := range ends {
				if ls.Field(i).Name() == f {
					held(st, base, i)
				}
			}
		}
		e.h.Block = func(st *State, bo []ChanOp, hasDefault bool, in ssa.Instruction) bool {
			if isOp(st) && !hasDefault {
				ob()
				e.report(st, "wait-after-close", in, "an operation on a closed link waits")
			}
			return true
		}
		e.h.Tail = func(st *State, c *Call) {
			if isOp(st) {
				ob()
				e.report(st, "retry-after-close", c.instr, "an operation on a closed link tries again")
			}
		}
		e.h.LoopBack = func(st *State, l *LoopEv) {
			if isOp(st) && l.st.mode == 3 {
				ob()
				e.report(st, "retry-after-close", l.loop.header.Instrs[0], "an operation on a closed link tries again")
			}
		}
		after := 0
		e.h.Exit = func(st *State, res []*Term) {
			if isOp(st) {
				ob()
				after++
				if len(res) > 0 && st.thread != cl.String() && !st.knownNonNil(res[len(res)-1]) {
					e.report(st, "no-error-after-close", nil, "an operation on a closed link may succeed")
				}
				return
			}
			ob()
			for _, h := range st.list("held") {
				if !st.inList("released", h) && !st.knownNil(h) && !outlived(st, h) {
					e.report(st, "end-not-closed", nil, "closing leaves %s open", h)
				}
			}
			for _, op := range append(append([]*ssa.Function(nil), ops...), cl) {
				args := []*Term{self}
				for len(args) < len(op.Params) {
					args = append(args, nil)
				}
				n := e.chain(st, op, args)
				n.setFlag("after", true)
				n.setList("held", nil)
				n.setList("heldgen", nil)
			}
		}
		r := e.addRoot(nil, cl, nil, nil)
		self = r.top().env[cl.Params[0]]
		a.explore(e)
		a.anchor(after > 0, "an operation after Close")

		// opening
		opened := 0
		for _, op := range ops {
			e := newEngine(p)
			e.mono = mono
			followOnly(e, "session")
			var self *Term
			e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
				if !opensLink(c.name) {
					return nil, false
				}
				opened++
				ob()
				if !st.holdsLockOf(self) || markOf(st, self) != TFalse {
					e.report(st, "open-unguarded", c.instr, "an AMQP link is opened without knowing, under the lock, that the link is not closed")
				}
				kind := "Receiver"
				if shortName(c.name) == "NewSender" {
					kind = "Sender"
				}
				ok := false
				for _, i := range ptrFields(t, kind) {
					if st.knownNil(st.peek(mkFieldAddr(self, i, ls), ls.Field(i).Type())) {
						ok = true
					}
				}
				for f, v := range st.facts {
					if !v && f.op == OEq {
						ox, _, bx := fieldLoad(f.a[0])
						oy, _, by := fieldLoad(f.a[1])
						if ox != nil && oy != nil && bx == self && by == self && isIntType(f.a[0].t) {
							ok = true
						}
					}
				}
				if !ok {
					e.report(st, "open-again", c.instr, "an AMQP link is opened while a usable one may be held, which is then never closed")
				}
				return okOrErr(e, st, c, func(s *State, v *Term) { s.addTo("fresh", v) }), true
			}
			e.h.Store = func(st *State, addr, val *Term, in ssa.Instruction) {
				if st.inList("fresh", val) && addr.op == OFieldAddr && addr.a[0] == self && st.holdsLockOf(self) {
					st.removeFrom("fresh", val)
				}
			}
			e.h.Unlock = func(st *State, mu *Term, w bool, in ssa.Instruction) {
				if mu.op == OFieldAddr && mu.a[0] == self {
					ob()
					if len(st.list("fresh")) > 0 {
						e.report(st, "open-not-kept", in, "a new AMQP link is not kept in the link when its lock is released: Close can not close it")
					}
				}
			}
			r := e.addRoot(nil, op, nil, nil)
			self = r.top().env[op.Params[0]]
			a.explore(e)
		}
		a.anchor(opened > 0, "the opening of AMQP links")
	}
}

// a field holding an identity next to the field holding what it identifies
type pairing struct{ ptr, num int }

// pairFields finds, for each pointer field of the given AMQP type, the integer
// field assigned together with it.
func (p *Program) pairFields(t types.Type, amqpType string) []pairing {
	s := structOf(derefType(t))
	var out []pairing
	if s == nil {
		return nil
	}
	for _, i := range ptrFields(t, amqpType) {
		// functions that store a non-nil value
		best := -1
		votes := map[int]int{}
		for _, fn := range p.funcs {
			stores := map[int]bool{}
			set := false
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					x, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok || !sameNamed(fa.X.Type(), t) {
						continue
					}
					if fa.Field == i {
						if c, is := x.Val.(*ssa.Const); !is || c.Value != nil {
							if !is {
								set = true
							}
						}
					}
					if isIntType(s.Field(fa.Field).Type()) {
						stores[fa.Field] = true
					}
				}
			}
			if set {
				for f := range stores {
					votes[f]++
				}
			}
		}
		for f, n := range votes {
			if best < 0 || n > votes[best] || n == votes[best] && f < best {
				best = f
			}
		}
		if best >= 0 {
			out = append(out, pairing{i, best})
		}
	}
	return out
}

// errReportField finds the channel over which failures are reported: its
// element is a struct with an error and an integer.
func isReportChan(t types.Type) bool {
	el := chanElem(t)
	s := structOf(el)
	if s == nil {
		return false
	}
	e, n := false, false
	for i := 0; i < s.NumFields(); i++ {
		e = e || isErrorType(s.Field(i).Type())
		n = n || isIntType(s.Field(i).Type())
	}
	return e && n
}

func reportGen(v *Term) *Term {
	s := structOf(v.t)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if isIntType(s.Field(i).Type()) {
			return mkField(v, i, s)
		}
	}
	return nil
}

func tup(ts ...*Term) *Term { return tupleOf(ts...) }

func runC07(a *Analysis) {
	s := findSession(a)
	if s == nil {
		return
	}
	p := a.program()
	a.rule("after a failed receive, send or attach the generation of the session it was made on is sent to the container (or the context ended or the link is closed) before the operation returns or tries again")
	a.rule("a link drops its session, under its lock, exactly when the generation that failed is its current one; it never drops a newer one")
	a.rule("messages are received and sent only on an AMQP receiver or sender known, under the lock, to belong to the link's current session (unless none can outlive its session in the link)")
	a.rule("session and generation are read from the container, and kept in the link, as a pair from one critical section; a link that waits does so on the channel read together with the generation it already had")
	a.rule("the container closes the announcement channel, replaces it and stores the new session with a new generation in one critical section, once per session")
	a.rule("the container's operation ends for a report exactly if the report's generation is that of its current session")
	ob := func() { a.count("obligations checked", 1) }
	cs := structOf(derefType(s.cont))
	cp := p.pairFields(s.cont, "Session")
	if !a.anchor(len(cp) == 1, "the container's session and its generation") {
		return
	}
	csess, cgen := cp[0].ptr, cp[0].num
	chs := fieldsOf(s.cont, func(v *types.Var) bool {
		el := chanElem(v.Type())
		if el == nil {
			return false
		}
		st, ok := el.Underlying().(*types.Struct)
		return ok && st.NumFields() == 0
	})
	if !a.anchor(len(chs) == 1, "the container's announcement channel") {
		return
	}
	cch := chs[0]
	reps := fieldsOf(s.cont, func(v *types.Var) bool { return isReportChan(v.Type()) })
	if !a.anchor(len(reps) == 1, "the container's failure channel") {
		return
	}
	crep := reps[0]
	cfield := func(st *State, base *Term, i int) *Term {
		return st.peek(mkFieldAddr(base, i, cs), cs.Field(i).Type())
	}
	isCont := func(mu *Term) *Term {
		if mu.op == OFieldAddr && sameNamed(mu.a[0].t, s.cont) {
			return mu.a[0]
		}
		return nil
	}
	// everything read in a critical section of the container belongs together
	contUnlock := func(st *State, mu *Term) {
		if b := isCont(mu); b != nil {
			st.addTo("pairs", tup(cfield(st, b, csess), cfield(st, b, cgen), cfield(st, b, cch)))
		}
	}
	paired := func(st *State, sess, gen *Term) bool {
		for _, t := range st.list("pairs") {
			if t.a[0] == sess && t.a[1] == gen {
				return true
			}
		}
		return false
	}

	for _, t := range linkTypes(s) {
		ls := structOf(derefType(t))
		lp := p.pairFields(t, "Session")
		if !a.anchor(len(lp) == 1, "the link's session and its generation") {
			continue
		}
		ends := append(p.pairFields(t, "Receiver"), p.pairFields(t, "Sender")...)
		if !a.anchor(len(ends) > 0, "the link's receivers or senders and their generation") {
			continue
		}
		mark, mv := linkMark(a, t, true)
		mono := map[string]*Term{}
		if mark >= 0 {
			mono[typeKey(derefType(t))+"."+ls.Field(mark).Name()] = mv
		}
		lsess, lgen := lp[0].ptr, lp[0].num
		field := func(st *State, base *Term, i int) *Term {
			return st.peek(mkFieldAddr(base, i, ls), ls.Field(i).Type())
		}
		var ops []*ssa.Function
		for _, n := range []string{"Next", "Accept", "Send"} {
			if m := p.method(t, n); m != nil {
				ops = append(ops, m)
			}
		}
		failures, reports, stores := 0, 0, 0
		// uses of an AMQP end not known to be of the current session count if
		// a link may keep such an end when it takes a new session
		stale, mayKeep := map[ssa.Instruction]string{}, false
		for _, op := range ops {
			e := newEngine(p)
			e.mono = mono
			followOnly(e, "session")
			var self *Term
			excused := func(st *State) bool {
				if ctxDone(st) {
					return true
				}
				for _, v := range st.list("marks") {
					if st.knownTrue(mkEq(v, mv)) {
						return true
					}
				}
				return false
			}
			e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
				var on *Term
				switch {
				case opensLink(c.name), c.name == amqpName("Receiver", "Receive"), c.name == amqpName("Sender", "Send"):
					on = c.args[0]
				default:
					return nil, false
				}
				if !opensLink(c.name) && !st.inList("live", on) {
					stale[c.instr] = shortName(c.name)
				}
				outs := okOrErr(e, st, c, nil)
				last := len(outs) - 1
				f := outs[last].mod
				outs[last].mod = func(s *State) bool {
					if !f(s) {
						return false
					}
					failures++
					s.set("failed", TTrue)
					s.setList("failgen", nil)
					// the generations known to belong to what failed
					if opensLink(c.name) {
						if s.holdsLockOf(self) && field(s, self, lsess) == on {
							s.addTo("failgen", field(s, self, lgen))
						}
						for _, x := range s.list("lp") {
							if x.a[0] == on {
								s.addTo("failgen", x.a[1])
							}
						}
					} else {
						for _, x := range s.list("lp") {
							if x.a[0] == on {
								s.addTo("failgen", x.a[1])
							}
						}
						if s.holdsLockOf(self) {
							for _, en := range ends {
								if field(s, self, en.ptr) == on {
									s.addTo("failgen", field(s, self, en.num))
								}
							}
						}
					}
					s.setFlag("dropped", false)
					s.setList("differs", nil)
					return true
				}
				return outs, true
			}
			e.h.Load = func(st *State, addr *Term, in ssa.Instruction) {
				if mark >= 0 && addr.op == OFieldAddr && addr.a[0] == self && addr.idx == mark {
					st.addTo("marks", st.peek(addr, ls.Field(mark).Type()))
				}
				if addr.op == OFieldAddr && addr.a[0] == self && addr.idx == lgen && st.holdsLockOf(self) {
					st.addTo("seengen", st.peek(addr, ls.Field(lgen).Type()))
				}
			}
			e.h.Store = func(st *State, addr, val *Term, in ssa.Instruction) {
				if addr.op != OFieldAddr || addr.a[0] != self {
					return
				}
				switch addr.idx {
				case lsess:
					stores++
					ob()
					if st.knownNil(val) {
						cur := field(st, self, lgen)
						ok := false
						for _, g := range st.list("failgen") {
							ok = ok || st.knownTrue(mkEq(cur, g))
						}
						if !ok || !st.holdsLockOf(self) {
							e.report(st, "drops-session", in, "the link drops a session that is not known to be the one that failed")
						}
					} else {
						st.setFlag("newsess", true)
					}
				}
			}
			e.h.Unlock = func(st *State, mu *Term, w bool, in ssa.Instruction) {
				contUnlock(st, mu)
				if mu.op != OFieldAddr || mu.a[0] != self {
					return
				}
				cur, g := field(st, self, lsess), field(st, self, lgen)
				for _, en := range append([]pairing{{lsess, lgen}}, ends...) {
					x, n := field(st, self, en.ptr), field(st, self, en.num)
					if !st.knownNil(x) {
						st.addTo("lp", tup(x, n))
					}
				}
				if st.flag("newsess") {
					st.setFlag("newsess", false)
					st.setList("live", nil)
					for _, en := range ends {
						if x, n := field(st, self, en.ptr), field(st, self, en.num); !st.knownNil(x) && !st.knownTrue(mkEq(n, g)) {
							mayKeep = true
						}
					}
					ob()
					if !paired(st, cur, g) {
						e.report(st, "mixed-pair", in, "the link keeps a session with a generation that was not read together with it")
					}
					newer := false
					for _, x := range st.list("seengen") {
						newer = newer || st.knownFalse(mkEq(x, g))
					}
					if !newer {
						e.report(st, "not-newer", in, "the link takes a session without knowing that it is newer than the one it had")
					}
				}
				for _, en := range ends {
					if st.knownTrue(mkEq(field(st, self, en.num), g)) {
						st.addTo("live", field(st, self, en.ptr))
					}
				}
				if st.get("failed") != nil {
					if st.knownNil(cur) {
						st.setFlag("dropped", true)
					} else {
						for _, f := range st.list("failgen") {
							if st.knownFalse(mkEq(g, f)) {
								st.setFlag("dropped", true)
							}
						}
					}
				}
			}
			e.h.Chan = func(st *State, o ChanOp, in ssa.Instruction) {
				if !o.send || o.val == nil || !isReportChan(o.ch.t) {
					return
				}
				reports++
				ob()
				v := o.val
				if v.op == OLoad {
					v = st.peek(v.a[0], v.t)
				}
				g := reportGen(v)
				ok := false
				for _, f := range st.list("failgen") {
					ok = ok || g == f || st.knownTrue(mkEq(g, f))
				}
				if !ok {
					e.report(st, "report-generation", in, "the generation reported is not the one of the session that failed")
				}
				if !st.flag("dropped") {
					e.report(st, "keeps-session", in, "a failure is reported while the link may go on using the failed session")
				}
				st.set("failed", nil)
			}
			e.h.Block = func(st *State, bo []ChanOp, hasDefault bool, in ssa.Instruction) bool {
				for _, o := range bo {
					if o.send {
						continue
					}
					if cf, fn, _ := fieldLoad(o.ch); cf != nil && sameNamed(cf, s.cont) && fn == cs.Field(cch).Name() {
						ob()
						ok := false
						for _, x := range st.list("pairs") {
							if x.a[2] == o.ch {
								for _, sg := range st.list("seengen") {
									ok = ok || st.knownTrue(mkEq(x.a[1], sg)) || x.a[1] == sg
								}
							}
						}
						if !ok {
							e.report(st, "stale-wait", in, "waits for a session on a channel that was not read together with the generation compared")
						}
					}
				}
				return true
			}
			done := func(st *State, in ssa.Instruction) {
				if st.get("failed") == nil {
					return
				}
				ob()
				if !excused(st) {
					e.report(st, "not-reported", in, "a failure is not reported to the container before the operation ends or tries again")
				}
				st.set("failed", nil)
			}
			reset := func(st *State) {
				for _, k := range []string{"failgen", "marks", "seengen", "pairs", "lp", "live", "differs"} {
					st.setList(k, nil)
				}
				st.setFlag("dropped", false)
			}
			e.h.Tail = func(st *State, c *Call) {
				st.setList("pairs", nil)
				if c.fn == op {
					done(st, c.instr)
					reset(st)
				}
			}
			e.h.LoopBack = func(st *State, l *LoopEv) {
				if l.st.mode == 3 {
					st.setList("pairs", nil)
				}
				if l.fr.fn == op && l.st.mode == 3 {
					done(st, l.loop.header.Instrs[0])
					reset(st)
				}
			}
			e.h.Exit = func(st *State, res []*Term) { done(st, nil) }
			r := e.addRoot(nil, op, nil, nil)
			self = r.top().env[op.Params[0]]
			a.explore(e)
		}
		if mayKeep {
			for in, n := range stale {
				a.violate(p, "stale-end", in.Pos(), in.Parent().String(), "%s is called on an AMQP link that may belong to an earlier session than the link's current one: its failure would never end the use of it", n)
			}
		}
		a.anchor(failures > 0 && reports > 0 && stores > 0, "failures of AMQP operations, their report and the link's session")

		// the constructor
		for _, mk := range []*ssa.Function{s.newRcv, s.newSnd} {
			if !sameNamed(concreteResult(mk, 0), t) {
				continue
			}
			e := newEngine(p)
			followOnly(e, "session")
			var c *Term
			e.h.Unlock = func(st *State, mu *Term, w bool, in ssa.Instruction) { contUnlock(st, mu) }
			e.h.Exit = func(st *State, res []*Term) {
				l := unwrapIface(res[0])
				ob()
				sess, gen := field(st, l, lsess), field(st, l, lgen)
				if !paired(st, sess, gen) && !(st.knownNil(sess) && gen == zeroOf(gen.t)) {
					e.report(st, "mixed-pair", nil, "a new link starts with a session and a generation that were not read together")
				}
				for _, i := range fieldsOf(t, func(v *types.Var) bool { return isReportChan(v.Type()) }) {
					ob()
					if strip(field(st, l, i)) != cfield(st, c, crep) {
						e.report(st, "report-channel", nil, "a new link does not report to its container")
					}
				}
				for _, i := range fieldsOf(t, func(v *types.Var) bool { return sameNamed(v.Type(), s.cont) }) {
					ob()
					if strip(field(st, l, i)) != c {
						e.report(st, "other-container", nil, "a new link belongs to another container")
					}
				}
			}
			r := e.addRoot(nil, mk, nil, nil)
			c = r.top().env[mk.Params[0]]
			a.explore(e)
		}
	}

	// the container
	e := newEngine(p)
	followOnly(e, "session")
	e.h.Go = goAll
	var self *Term
	published, received := 0, 0
	inModel := func(in ssa.Instruction) bool {
		return in != nil && in.Parent() != nil && (in.Parent() == p.models["RetryNotify"])
	}
	e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
		if c.name == amqpName("Conn", "NewSession") {
			return okOrErr(e, st, c, func(s *State, v *Term) {
				s.set("pending", v)
				s.set("evt", nil)
				s.set("pubgen", nil)
			}), true
		}
		return nil, false
	}
	e.h.Close = func(st *State, ch *Term, in ssa.Instruction) {
		if o, f, _ := fieldLoad(ch); o != nil && sameNamed(o, s.cont) && f == cs.Field(cch).Name() || ch == st.get("curch") {
			st.set("closedch", ch)
		}
	}
	e.h.Store = func(st *State, addr, val *Term, in ssa.Instruction) {
		if isIntType(derefType(addr.t)) {
			// a counter that moves on
			cur := st.peek(addr, derefType(addr.t))
			if base, k := splitAdd(val); k > 0 && base == cur {
				st.addTo("bumped", val)
			}
			if x, ok := val.intVal(); ok {
				if y, ok := cur.intVal(); ok && x > y {
					st.addTo("bumped", val)
				}
			}
		}
		if addr.op == OFieldAddr && addr.a[0] == self {
			switch addr.idx {
			case csess:
				st.set("setsess", val)
				st.setNum("nsess", st.num("nsess")+1)
			case cgen:
				st.set("setgen", val)
			case cch:
				st.set("oldch", st.peek(addr, cs.Field(cch).Type()))
				st.set("setch", val)
			}
		}
	}
	e.h.Lock = func(st *State, mu *Term, w bool, in ssa.Instruction) {
		if isCont(mu) != nil {
			for _, k := range []string{"setsess", "setgen", "setch", "oldch", "closedch", "nsess"} {
				st.set(k, nil)
			}
		}
	}
	e.h.Unlock = func(st *State, mu *Term, w bool, in ssa.Instruction) {
		if isCont(mu) == nil {
			return
		}
		sess := st.get("setsess")
		if sess == nil {
			if st.get("closedch") != nil || st.get("setgen") != nil || st.get("setch") != nil {
				ob()
				e.report(st, "announce", in, "the announcement of a session is not made in one step with the session")
			}
			return
		}
		published++
		ob()
		gen := st.get("setgen")
		switch {
		case sess != st.get("pending"):
			e.report(st, "announce", in, "announces a session that is not the newly established one")
		case gen == nil || !st.inList("bumped", gen):
			e.report(st, "same-generation", in, "a new session is announced without a new generation")
		case st.get("closedch") == nil || st.get("setch") == nil || st.get("closedch") != st.get("oldch"):
			e.report(st, "announce", in, "a new session is stored without waking up everything that waits for it")
		case st.get("setch").op != OAlloc || st.get("setch") == st.get("closedch"):
			e.report(st, "announce", in, "the channel to wait for the next session is not a new one")
		}
		st.set("pending", nil)
		st.set("pubgen", gen)
		st.setList("bumped", nil)
		for _, k := range []string{"setsess", "setgen", "setch", "oldch", "closedch", "nsess"} {
			st.set(k, nil)
		}
	}
	matches := func(st *State) *Term {
		g := reportGen(st.get("evt"))
		if st.get("pubgen") == nil {
			return intern(OSym, "unknown", 0, 0, nil, nil, nil)
		}
		return st.evalBool(mkEq(g, st.get("pubgen")))
	}
	e.h.Chan = func(st *State, o ChanOp, in ssa.Instruction) {
		if o.send {
			return
		}
		if isReportChan(o.ch.t) {
			received++
			st.set("evt", o.val)
			if of, f, _ := fieldLoad(o.ch); of == nil || !sameNamed(of, s.cont) || f != cs.Field(crep).Name() {
				e.report(st, "report-channel", in, "reports are taken from another channel than the links'")
			}
		} else {
			st.set("evt", nil)
		}
	}
	e.h.Block = func(st *State, bo []ChanOp, hasDefault bool, in ssa.Instruction) bool {
		ob()
		if st.get("pending") != nil {
			e.report(st, "announce", in, "waits without having announced the new session")
		}
		if st.get("evt") != nil {
			if matches(st) != TFalse {
				e.report(st, "keeps-failed", in, "goes on with a session whose failure may have been reported")
			}
			st.set("evt", nil)
		}
		return true
	}
	e.h.Return = func(st *State, fn *ssa.Function, c ssa.Instruction, res *Term) {
		if !inModel(c) || fn == p.models["RetryNotify"] || st.get("pubgen") == nil {
			return
		}
		if cl, ok := c.(*ssa.Call); !ok || len(cl.Call.Args) != 0 || !isErrorType(cl.Type()) {
			return
		}
		ob()
		if ctxDone(st) {
			return
		}
		if st.get("evt") == nil {
			e.report(st, "ends-session", nil, "the session is ended without a reported failure")
		} else {
			if matches(st) != TTrue {
				e.report(st, "ends-session", nil, "the session is ended for a failure that is not known to be its own")
			}
			if st.knownNil(res) {
				e.report(st, "ends-session", nil, "a failed session is not replaced: the operation reports success")
			}
		}
		st.set("evt", nil)
		st.set("pubgen", nil)
	}
	r := e.addRoot(nil, s.start, nil, nil)
	self = r.top().env[s.start.Params[0]]
	a.explore(e)
	a.anchor(published > 0 && received > 0, "the publication of sessions and the reception of reports")
}
