package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C16", "typestate analysis of the watch's timer and of the activity it has noticed, over every path of its goroutine",
		"Discovery.NewWatchClient, the goroutine it starts and the handlers it registers are explored; the timer, the activity last read and the activity last noticed are followed through every iteration",
		runC16)
}

type watchRun struct {
	a      *Analysis
	p      *Program
	e      *Engine
	d      *discRun
	fn     *ssa.Function
	cfg    *Term
	cs     *types.Struct
	client types.Type
}

func isTimeT(t types.Type, n string) bool {
	return t != nil && strings.TrimPrefix(typeKey(t), "*") == "time."+n
}

func runC16(a *Analysis) {
	d := findDiscovery(a, "C16")
	if d == nil {
		return
	}
	p := a.program()
	r := &watchRun{a: a, p: p, d: d, client: p.typ("eventsource", "Client")}
	pt := types.NewPointer(d.t)
	r.fn = p.method(pt, "NewWatchClient")
	forget := p.method(pt, "Forget")
	ct := p.typ("eventsource", "WatchConfig")
	if !a.anchor(r.fn != nil && forget != nil && ct != nil && r.client != nil, "Discovery.NewWatchClient, Discovery.Forget, WatchConfig, Client") {
		return
	}
	r.cs = structOf(ct)
	a.rule("handlers for records and for heartbeats are registered with the watched client, and each notes the current time on every path")
	a.rule("a timer is armed only with a timeout configured: first with grace period plus timeout, later with the timeout, exactly in the iterations in which new activity is noticed, and never with an expiry left in its channel")
	a.rule("activity is new if it is later than the activity noticed last; noticing it records it with the discovery")
	a.rule("the source is forgotten only after the timer was received from and the activity read after that is not new; the watch ends then, or when its context does, with its client closed")
	e := newEngine(p)
	r.e = e
	followOnly(e, "eventsource")
	prev := e.h.Opaque
	e.h.Opaque = func(f *ssa.Function) bool {
		if f == forget {
			return true
		}
		if rc := f.Signature.Recv(); rc != nil && sameNamed(rc.Type(), r.client) {
			return true
		}
		return prev(f)
	}
	ob := func() { a.count("obligations checked", 1) }
	field := func(n string) *Term { return fieldNamed(r.cfg, r.cs, n) }
	isWatch := func(st *State) bool { return st.thread != r.fn.String() && !st.flag("handler") }
	e.h.Go = func(st *State, c *Call) bool {
		if isWatch(st) {
			e.report(st, "async", c.instr, "the watch starts another goroutine")
			return false
		}
		ob()
		st.setNum("watches", min(st.num("watches")+1, 2))
		return true
	}
	zero := zeroOf(d.is.Field(func() int {
		for i := 0; i < d.is.NumFields(); i++ {
			if d.is.Field(i).Name() == "LastSeen" {
				return i
			}
		}
		return 0
	}()).Type())
	timeouts := 0
	// the moment most recently read
	seen := func(st *State) *Term {
		pt := st.get("read")
		if pt == nil || st.knownNil(pt) {
			return nil
		}
		return st.peek(pt, derefType(pt.t))
	}
	last := func(st *State) *Term {
		if l := st.get("last"); l != nil {
			return l
		}
		return zero
	}
	// is what was read new? nil: unknown
	fresh := func(st *State) *Term {
		if st.get("read") == nil {
			return nil
		}
		v := seen(st)
		if v == nil {
			return TFalse
		}
		return st.after(v, last(st))
	}
	hasTimer := func(st *State) *Term { return st.get("timer") }
	isTimerC := func(st *State, ch *Term) bool {
		t := hasTimer(st)
		if t == nil || ch.op != OLoad {
			return false
		}
		_, f, base := fieldLoad(ch)
		return f == "C" && base == t
	}
	notice := func(st *State, in ssa.Instruction) {
		// called when an iteration ends
		f := fresh(st)
		ob()
		timed := hasTimer(st) != nil
		if !timed && st.knownTrue(mkLt(mkInt(0), field("Timeout"), field("Timeout").t)) {
			e.report(st, "no-timer", in, "a timeout is configured but the watch has no timer")
		}
		switch {
		case f == TTrue:
			if timed && !st.flag("reset") {
				e.report(st, "not-reset", in, "new activity is noticed but the timer is not armed again with the timeout")
			}
			if !st.flag("recorded") {
				e.report(st, "not-recorded", in, "new activity is noticed but not recorded with the discovery")
			}
			st.set("last", seen(st))
		case st.flag("reset"):
			e.report(st, "reset", in, "the timer is armed again although no new activity was noticed")
		case st.flag("fired"):
			e.report(st, "fired", in, "the timeout has run out, but the watch neither forgets the source nor finds new activity: it never forgets it any more")
		}
		st.set("read", nil)
		for _, n := range []string{"reset", "fired", "recorded", "stopped", "draining"} {
			st.setFlag(n, false)
		}
	}
	e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
		if o, done := hookNow(st, c); done {
			return o, done
		}
		if c.fn == forget {
			ob()
			if !isWatch(st) {
				e.report(st, "forget", c.instr, "the source is forgotten outside of the watch")
				return nil, false
			}
			if len(c.args) != 2 || c.args[1] != field("ID") {
				e.report(st, "forget", c.instr, "the watch forgets a source other than the one it watches")
			}
			if hasTimer(st) == nil || !st.flag("fired") {
				e.report(st, "forget", c.instr, "the source is forgotten although its timeout has not run out")
			} else if st.get("read") == nil {
				e.report(st, "forget", c.instr, "the source is forgotten without looking for activity after the timeout has run out")
			} else if f := fresh(st); f != TFalse {
				e.report(st, "forget", c.instr, "the source is forgotten although there may be activity later than that noticed last")
			}
			st.setFlag("forgotten", true)
			return nil, false
		}
		if c.fn != nil && c.fn.Signature.Recv() != nil && sameNamed(c.fn.Signature.Recv().Type(), r.client) {
			cl := c.args[0]
			ours := cl == field("Client")
			switch n := c.fn.Name(); n {
			case "Close":
				if ours {
					st.setFlag("closed", true)
				}
			case "OnRecord", "OnHeartbeat":
				ob()
				if !ours {
					e.report(st, "register", c.instr, "a handler is registered with another client")
				}
				if st.num("watches") > 0 && !isWatch(st) {
					e.report(st, "register", c.instr, "a handler is registered after the watch was started")
				}
				st.setFlag("registered:"+n, true)
				if f := c.args[1]; f.fn != nil && f.fn.Blocks != nil {
					h := e.chain(st, f.fn, nil)
					for i, fv := range f.fn.FreeVars {
						if i < len(f.a) {
							h.top().env[fv] = f.a[i]
						}
					}
					h.setFlag("handler", true)
					h.setList("nows", nil)
				} else {
					e.undecided(st, c.instr, "registers a handler that is not understood: %s", f)
				}
			}
			return nil, false
		}
		switch c.name {
		case "(*sync/atomic.Pointer).Load":
			v := st.sym("seen", c.instr, c.ctx, 0, c.res.At(0).Type())
			symSites[v] = symSite{c.instr, c.ctx}
			if st.get("mark") == nil || st.get("mark") == c.args[0] {
				st.set("mark", c.args[0])
				if isWatch(st) {
					st.set("read", v)
				}
			}
			return []Outcome{{res: []*Term{v}}}, true
		case "(*sync/atomic.Pointer).Store":
			ob()
			if !st.flag("handler") {
				e.report(st, "mark", c.instr, "the time of the last activity is set outside of the handlers")
				return nil, false
			}
			v := st.peek(c.args[1], derefType(c.args[1].t))
			if !inTerms(st.list("nows"), v) {
				e.report(st, "mark", c.instr, "activity is noted with %s, not with the time read when it happened", v)
			}
			st.setFlag("noted", true)
			return nil, false
		case "time.NewTimer":
			ob()
			if !isWatch(st) {
				return nil, false
			}
			timeouts++
			if !st.knownTrue(mkLt(mkInt(0), field("Timeout"), field("Timeout").t)) {
				e.report(st, "timer", c.instr, "a timer is armed although no timeout may be configured")
			}
			if x := c.args[0]; x.op != OBin || !strings.HasPrefix(x.s, "+") || len(x.a) != 2 || !inTerms(x.a, field("GracePeriod")) || !inTerms(x.a, field("Timeout")) {
				e.report(st, "timer", c.instr, "the timer is first armed with %s, not with the grace period and the timeout", c.args[0])
			}
			rs := e.freshRes(st, c)
			if st.get("timer") != nil {
				e.report(st, "timer", c.instr, "a second timer is armed")
			}
			st.set("timer", rs[0])
			return []Outcome{{res: rs, mod: func(s *State) bool { return s.assume(mkEq(rs[0], TNil), false) }}}, true
		case "(*time.Timer).Stop":
			if c.args[0] != st.get("timer") {
				break
			}
			rs := e.freshRes(st, c)
			return []Outcome{
				{res: []*Term{TTrue}, mod: func(s *State) bool { s.setFlag("stopped", true); return true }},
				{res: []*Term{TFalse}, mod: func(s *State) bool {
					_ = rs
					if s.flag("fired") {
						s.setFlag("stopped", true)
						return true
					}
					s.setFlag("expired", true)
					return true
				}},
			}, true
		case "(*time.Timer).Reset":
			if c.args[0] != st.get("timer") {
				break
			}
			ob()
			if c.args[1] != field("Timeout") {
				e.report(st, "timer", c.instr, "the timer is armed again with %s, not with the timeout", c.args[1])
			}
			if !st.flag("fired") && !st.flag("stopped") {
				e.report(st, "timer-drain", c.instr, "the timer is armed again although its last expiry may still be in its channel: the source is then forgotten early")
			}
			st.setFlag("reset", true)
			st.setFlag("expired", false)
		}
		return nil, false
	}
	e.h.MapUpdate = func(st *State, m, k, v *Term, in ssa.Instruction) {
		if !d.isMap(m) {
			return
		}
		if _, _, k = d.entry(st, m, k); isWatch(st) && k == field("ID") && d.infoField(v, "LastSeen") == seen(st) {
			st.setFlag("recorded", true)
		}
	}
	e.h.Unlock = func(st *State, mu *Term, write bool, in ssa.Instruction) {
		// looked up, but nothing to record
		if s := seen(st); s != nil && isWatch(st) {
			_, _, base := fieldAddrOf(mu)
			if base == nil || !sameNamed(base.t, d.t) {
				return
			}
			m := st.peek(mkFieldAddr(base, d.mapF, d.s), d.s.Field(d.mapF).Type())
			cur := st.mapGet(m, field("ID"), d.mapElem())
			if cur == TAbs || cur != nil && st.after(s, d.infoField(cur, "LastSeen")) == TFalse {
				st.setFlag("recorded", true)
			}
		}
	}
	e.h.Block = func(st *State, ops []ChanOp, hasDefault bool, in ssa.Instruction) bool {
		if isWatch(st) && hasDefault && len(ops) == 1 && isTimerC(st, ops[0].ch) && st.flag("expired") {
			// the channel is empty afterwards either way
			st.setFlag("expired", false)
			st.setFlag("stopped", true)
			st.setFlag("draining", true)
			return true
		}
		if !isWatch(st) || hasDefault {
			return true
		}
		ob()
		if len(ops) == 1 && isTimerC(st, ops[0].ch) && st.flag("expired") {
			return true // emptying the channel of an expired timer
		}
		timer, done := false, false
		for _, op := range ops {
			if isTimerC(st, op.ch) {
				timer = true
			}
			if op.ch.op == ODoneCh {
				done = true
			}
		}
		if st.flag("forgotten") {
			e.report(st, "ends", in, "the watch goes on although it has forgotten its source")
		}
		if !done {
			e.report(st, "context", in, "the watch waits for something that its context does not end")
		}
		if hasTimer(st) != nil && !timer {
			e.report(st, "no-timer", in, "the watch waits without noticing that its timeout runs out")
		}
		return true
	}
	e.h.Chan = func(st *State, op ChanOp, in ssa.Instruction) {
		if !isWatch(st) || op.send || !isTimerC(st, op.ch) {
			return
		}
		if st.flag("draining") {
			st.setFlag("draining", false)
			return
		}
		if st.flag("expired") {
			st.setFlag("expired", false)
			st.setFlag("stopped", true)
			return
		}
		st.setFlag("fired", true)
		st.set("read", nil)
	}
	e.h.LoopEnter = func(st *State, l *LoopEv) {
		if isWatch(st) && l.st.mode == 3 && !st.flag("looping") {
			st.setFlag("looping", true)
			// activity before the first wait
			switch fresh(st) {
			case TTrue:
				st.set("last", seen(st))
			}
			st.set("read", nil)
			st.setFlag("recorded", false)
		}
	}
	e.h.LoopBack = func(st *State, l *LoopEv) {
		if isWatch(st) && l.st.mode == 3 {
			notice(st, l.loop.header.Instrs[0])
		}
	}
	e.h.Exit = func(st *State, res []*Term) {
		ob()
		switch {
		case st.flag("handler"):
			if !st.flag("noted") {
				e.report(st, "mark", nil, "a message is handled without noting the time of the activity")
			}
		case isWatch(st):
			if !st.flag("forgotten") && !ctxDone(st) {
				e.report(st, "ends", nil, "the watch ends although it has neither forgotten its source nor its context is finished")
			}
			if !st.flag("closed") {
				e.report(st, "not-closed", nil, "the watch ends without closing the client it watches")
			}
		default:
			failed := len(res) == 1 && st.knownNonNil(res[0])
			if !failed && st.num("watches") != 1 {
				e.report(st, "start", nil, "%d watches are started", st.num("watches"))
			}
			if failed && st.num("watches") != 0 {
				e.report(st, "start", nil, "a watch is started although an error is returned")
			}
			if !failed && !(st.flag("registered:OnRecord") && st.flag("registered:OnHeartbeat")) {
				e.report(st, "register", nil, "the watch does not notice both records and heartbeats of its client")
			}
		}
	}
	root := e.addRoot(nil, r.fn, nil, nil)
	d.self = root.top().env[r.fn.Params[0]]
	for _, pr := range r.fn.Params {
		if sameNamed(pr.Type(), ct) {
			r.cfg = root.top().env[pr]
		}
	}
	if !a.anchor(r.cfg != nil && !isPtr(r.cfg.t), "the WatchConfig given to NewWatchClient") {
		return
	}
	a.explore(e)
	a.anchor(timeouts > 0, "the timer of a watch")
}
