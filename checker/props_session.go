package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sessionParts are the AMQP implementations behind the session package.
type sessionParts struct {
	newC   *ssa.Function
	cont   types.Type // container implementation
	link   []types.Type
	start  *ssa.Function
	onErr  *ssa.Function
	newRcv *ssa.Function
	newSnd *ssa.Function
	rcvT   types.Type
	sndT   types.Type
}

func findSession(a *Analysis) *sessionParts {
	p := a.program()
	s := &sessionParts{newC: p.fn("session", "NewContainer")}
	if !a.anchor(s.newC != nil, "session.NewContainer") {
		return nil
	}
	s.cont = concreteResult(s.newC, 0)
	if !a.anchor(s.cont != nil, "the container implementation") {
		return nil
	}
	s.start = p.method(s.cont, "Start")
	s.onErr = p.method(s.cont, "OnSessionError")
	s.newRcv = p.method(s.cont, "NewReceiver")
	s.newSnd = p.method(s.cont, "NewSender")
	if !a.anchor(s.start != nil && s.onErr != nil && s.newRcv != nil && s.newSnd != nil, "the container's methods") {
		return nil
	}
	s.rcvT = concreteResult(s.newRcv, 0)
	s.sndT = concreteResult(s.newSnd, 0)
	if !a.anchor(s.rcvT != nil && s.sndT != nil, "the link implementation") {
		return nil
	}
	return s
}

func goAll(*State, *Call) bool { return true }

// ctxCallFails adds the usual outcomes of a call that establishes something.
func okOrErr(e *Engine, st *State, c *Call, okv func(s *State, v *Term)) []Outcome {
	rs := e.freshRes(st, c)
	n := len(rs)
	return []Outcome{
		{res: append(append([]*Term(nil), rs[:n-1]...), TNil), mod: func(s *State) bool {
			for _, r := range rs[:n-1] {
				if nilable(r.t) && !s.assume(mkEq(r, TNil), false) {
					return false
				}
			}
			if okv != nil && n > 1 {
				okv(s, rs[0])
			}
			return true
		}},
		{res: rs, mod: func(s *State) bool {
			s.note(c.pos(), "%s fails", shortName(c.name))
			return s.assume(mkEq(rs[n-1], TNil), false)
		}},
	}
}

func shortName(n string) string { return n[strings.LastIndexByte(n, '.')+1:] }

func init() {
	register("C08", "path-sensitive resource typestate analysis (abstract interpretation of Start and its goroutine)",
		"Every abstract path through Container.Start, its retry loop and its teardown is explored; each connection returned by amqp.Dial is tracked until Conn.Close, and whatever waits or ends while a connection that must be closed is still open is reported",
		func(a *Analysis) {
			s := findSession(a)
			if s == nil {
				return
			}
			a.rule("a connection on which no session could be established is closed before anything else is waited for")
			a.rule("while waiting for session events at most the newest connection is open")
			a.rule("when the container's goroutine ends no connection is open")
			p := a.program()
			e := newEngine(p)
			followOnly(e, "session")
			dials := 0
			e.h.Go = goAll
			e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
				switch c.name {
				case amqpPkg + ".Dial":
					dials++
					return okOrErr(e, st, c, func(s *State, v *Term) {
						s.addTo("open", v)
						s.note(c.pos(), "connection opened")
					}), true
				case amqpPkg + ".NewConn":
					dials++
					return okOrErr(e, st, c, func(s *State, v *Term) { s.addTo("open", v) }), true
				case amqpName("Conn", "NewSession"):
					conn := c.args[0]
					outs := okOrErr(e, st, c, nil)
					fail := outs[1].mod
					outs[1].mod = func(s *State) bool {
						if s.inList("open", conn) {
							s.addTo("useless", conn)
						}
						return fail(s)
					}
					return outs, true
				case amqpName("Conn", "Close"):
					st.removeFrom("open", c.args[0])
					st.removeFrom("useless", c.args[0])
				}
				return nil, false
			}
			e.h.Block = func(st *State, ops []ChanOp, hasDefault bool, in ssa.Instruction) bool {
				if hasDefault || st.get("boundary") != nil {
					return true
				}
				a.count("obligations checked", 1)
				if len(st.list("useless")) > 0 {
					e.report(st, "conn-without-session", in, "waits while a connection without a session is still open")
				}
				if len(st.list("open")) > 1 {
					e.report(st, "replaced-conn-open", in, "waits while %d connections are open", len(st.list("open")))
				}
				return true
			}
			e.h.Exit = func(st *State, res []*Term) {
				a.count("obligations checked", 1)
				if len(st.list("open")) > 0 {
					e.report(st, "conn-leak", nil, "ends with an open connection")
				}
			}
			e.addRoot(nil, s.start, nil, nil)
			a.explore(e)
			a.anchor(dials > 0, "a call of amqp.Dial reachable from Container.Start")
		})

	register("C09", "value-flow analysis by abstract interpretation (constructor to AMQP call)",
		"The values given to NewContainer, NewReceiver and NewSender are followed through the heap of the abstract machine to the arguments of amqp.Dial, Session.NewReceiver and Session.NewSender on every path",
		runC09)

	register("C10", "path-sensitive analysis of the handler traversals in the retry callback and at the end of the container goroutine",
		"The library's RetryNotify is represented by a source model; on every path the traversal of the registered handlers is checked to be complete, in order, exactly once, with the error the property demands and without a lock",
		runC10)
}

func runC09(a *Analysis) {
	s := findSession(a)
	if s == nil {
		return
	}
	p := a.program()
	a.rule("amqp.Dial receives the address given to NewContainer")
	a.rule("ConnOptions.ContainerID, MaxFrameSize and TLSConfig are the configured values, or unset where the configured value is unset")
	a.rule("ConnOptions.SASLType is the EXTERNAL mechanism exactly when it is configured")
	a.rule("Session.NewReceiver and NewSender receive the address of their link; a positive credit is passed on unchanged")
	ob := func() { a.count("obligations checked", 1) }

	// container: NewContainer(address, config) then Start
	e := newEngine(p)
	followOnly(e, "session")
	e.h.Go = goAll
	var addr, cfg *Term
	dials := 0
	unset := func(st *State, want, got *Term) bool {
		// the option is not set because the configured value is the zero value
		return st.knownTrue(mkEq(want, zeroOf(want.t))) && got == zeroOf(got.t)
	}
	e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
		if c.name != amqpPkg+".Dial" {
			return nil, false
		}
		dials++
		ob()
		if c.args[1] != addr {
			e.report(st, "dial-address", c.instr, "dials %s, not the configured address", c.args[1])
		}
		opts := c.args[2]
		ot := derefType(opts.t)
		os, cs := structOf(ot), structOf(cfg.t)
		if os == nil || cs == nil {
			e.undecided(st, c.instr, "connection options of an unknown shape")
			return nil, false
		}
		get := func(n string) *Term {
			for i := 0; i < os.NumFields(); i++ {
				if os.Field(i).Name() == n {
					if opts == TNil || st.knownNil(opts) {
						return zeroOf(os.Field(i).Type())
					}
					return st.peek(mkFieldAddr(opts, i, os), os.Field(i).Type())
				}
			}
			return nil
		}
		conf := func(n string) *Term {
			for i := 0; i < cs.NumFields(); i++ {
				if cs.Field(i).Name() == n {
					return mkField(cfg, i, cs)
				}
			}
			return nil
		}
		for _, n := range []string{"ContainerID", "MaxFrameSize", "TLSConfig"} {
			want, got := conf(n), get(n)
			if want == nil || got == nil {
				a.anchor(false, "configuration option "+n)
				continue
			}
			ob()
			if stripWide(got) != want && !unset(st, want, got) {
				e.report(st, "dial-option-"+n, c.instr, "dials with %s %s, not the configured value", n, got)
			}
		}
		if want, got := conf("SASLType"), get("SASLType"); want != nil && got != nil {
			ob()
			isExt := st.evalBool(mkEq(want, mkStr("EXTERNAL")))
			ext := strip(got).op == OSym && strings.Contains(strip(got).s, "SASLTypeExternal")
			switch {
			case isExt == TTrue && !ext:
				e.report(st, "dial-sasl", c.instr, "SASL EXTERNAL is configured but not used")
			case isExt == TFalse && !st.knownNil(got):
				e.report(st, "dial-sasl", c.instr, "a SASL mechanism is used that is not configured")
			case isExt != TTrue && isExt != TFalse:
				e.report(st, "dial-sasl", c.instr, "the configured SASL mechanism is not consulted")
			}
		} else {
			a.anchor(false, "the SASL configuration")
		}
		return nil, false
	}
	chained := false
	e.h.Exit = func(st *State, res []*Term) {
		if st.thread != s.newC.String() || len(res) != 1 {
			return
		}
		chained = true
		obj := unwrapIface(res[0])
		e.chain(st, s.start, []*Term{obj, nil})
	}
	root := e.addRoot(nil, s.newC, nil, nil)
	fr := root.top()
	if len(s.newC.Params) != 2 {
		a.anchor(false, "NewContainer(address, config)")
		return
	}
	addr, cfg = fr.env[s.newC.Params[0]], fr.env[s.newC.Params[1]]
	a.explore(e)
	a.anchor(chained && dials > 0, "a call of amqp.Dial reachable from a new container")

	// links
	for _, x := range []struct {
		mk   *ssa.Function
		t    types.Type
		op   string
		call string
	}{{s.newRcv, s.rcvT, "Next", "NewReceiver"}, {s.newRcv, s.rcvT, "Accept", "NewReceiver"}, {s.newSnd, s.sndT, "Send", "NewSender"}} {
		e := newEngine(p)
		followOnly(e, "session")
		opened := 0
		var addr, opts *Term
		use := p.method(x.t, x.op)
		if !a.anchor(use != nil, x.op) {
			continue
		}
		e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
			if c.name != amqpName("Session", "NewReceiver") && c.name != amqpName("Session", "NewSender") {
				return nil, false
			}
			ob()
			if shortName(c.name) == x.call {
				opened++
			} else {
				e.report(st, "link-kind", c.instr, "opens the wrong kind of link")
			}
			if c.args[2] != addr {
				e.report(st, "link-address", c.instr, "attaches to %s, not to the address the link was created for", c.args[2])
			}
			if x.call == "NewReceiver" {
				ob()
				want := mkField(opts, 0, structOf(opts.t))
				for i := 0; i < structOf(opts.t).NumFields(); i++ {
					if structOf(opts.t).Field(i).Name() == "Credit" {
						want = mkField(opts, i, structOf(opts.t))
					}
				}
				o := c.args[3]
				ot := structOf(derefType(o.t))
				var got *Term
				if o == TNil || st.knownNil(o) {
					got = mkInt(0)
				} else if ot != nil {
					for i := 0; i < ot.NumFields(); i++ {
						if ot.Field(i).Name() == "Credit" {
							got = st.peek(mkFieldAddr(o, i, ot), ot.Field(i).Type())
						}
					}
				}
				if got == nil {
					e.undecided(st, c.instr, "receiver options of an unknown shape")
				} else if stripWide(got) != want && !st.knownFalse(mkLt(mkInt(0), want, types.Typ[types.Int])) {
					e.report(st, "link-credit", c.instr, "opens a receiver with credit %s where a positive credit may be configured", got)
				}
			}
			return nil, false
		}
		chained := false
		e.h.Exit = func(st *State, res []*Term) {
			if st.thread != x.mk.String() || len(res) != 1 {
				return
			}
			chained = true
			args := []*Term{unwrapIface(res[0])}
			for len(args) < len(use.Params) {
				args = append(args, nil)
			}
			e.chain(st, use, args)
		}
		root := e.addRoot(nil, x.mk, nil, nil)
		fr := root.top()
		if len(x.mk.Params) != 3 {
			a.anchor(false, x.mk.String()+"(address, options)")
			continue
		}
		addr, opts = fr.env[x.mk.Params[1]], fr.env[x.mk.Params[2]]
		a.explore(e)
		a.anchor(chained && opened > 0, "a call of amqp "+x.call+" reachable from "+x.op)
	}
}

// isErrHandlerList: the container's list of error handlers.
func isErrHandlerList(owner types.Type) func(st *State, t *Term) bool {
	return func(st *State, t *Term) bool {
		o, _, _ := fieldLoad(t)
		if o == nil || !sameNamed(o, owner) || t.t == nil {
			return false
		}
		sl, ok := t.t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		sig, ok := sl.Elem().Underlying().(*types.Signature)
		return ok && sig.Params().Len() == 1 && isErrorType(sig.Params().At(0).Type())
	}
}

func anyLock(st *State) *Term {
	for m, n := range st.locks {
		if n != 0 {
			return m
		}
	}
	return nil
}

func runC10(a *Analysis) {
	s := findSession(a)
	if s == nil {
		return
	}
	p := a.program()
	a.rule("whenever the retry strategy is about to retry, the registered handlers are traversed completely, in order, each called exactly once")
	a.rule("the error of a retry implements Retry and carries the delay and the cause")
	a.rule("when the retry strategy ends with an error other than the container's cancellation, every handler is called exactly once with an error that does not implement Retry and carries the cause")
	a.rule("no lock is held while a handler runs; OnSessionError appends the handler to the list under the lock")
	ob := func() { a.count("obligations checked", 1) }
	e := newEngine(p)
	followOnly(e, "session")
	e.h.Go = goAll
	isList := isErrHandlerList(s.cont)
	fe := &forEach{e: e, name: "h", isList: isList}
	e.hookLoops(fe)
	retries := 0
	isRetry := func(in ssa.Instruction) bool {
		return in != nil && in.Parent() != nil && in.Parent() == p.models["RetryNotify"]
	}
	e.h.Enter = func(st *State, c *Call) {
		if c.fn != nil && c.fn == p.models["RetryNotify"] {
			return
		}
		if isRetry(c.instr) && len(c.args) == 2 {
			retries++
			fe.begin(st)
			st.set("cause", c.args[0])
			st.set("delay", c.args[1])
			st.set("region", mkStr("retry"))
		}
	}
	e.h.Return = func(st *State, fn *ssa.Function, c ssa.Instruction, res *Term) {
		if fn == p.models["RetryNotify"] {
			// the retry strategy is done
			fe.begin(st)
			st.set("region", mkStr("final"))
			st.set("cause", res)
			return
		}
		if isRetry(c) && st.get("region") != nil && fe.on(st) {
			if cl, ok := c.(*ssa.Call); ok && len(cl.Call.Args) == 2 {
				ob()
				if msg := fe.end(st); msg != "" {
					e.report(st, "retry-handlers", c, "a failure is retried but the error handlers %s", msg)
				}
				st.set("region", nil)
			}
		}
	}
	e.h.Load = func(st *State, addr *Term, in ssa.Instruction) { fe.loaded(st, addr, derefType(addr.t)) }
	e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
		if c.name == "github.com/cenkalti/backoff/v4.Retry" || c.name == "github.com/cenkalti/backoff/v4.RetryNotify" && st.knownNil(c.args[2]) {
			e.report(st, "retry-handlers", c.instr, "failures are retried without telling the error handlers")
		}
		if c.name != "func" || c.fnval == nil {
			return nil, false
		}
		el, _ := fe.element(st, c.fnval)
		if !el {
			sig, ok := c.fnval.t.Underlying().(*types.Signature)
			if ok && sig.Params().Len() == 1 && isErrorType(sig.Params().At(0).Type()) {
				e.undecided(st, c.instr, "calls an error handler whose origin is not understood: %s", c.fnval)
			}
			return nil, false
		}
		ob()
		if msg := fe.called(st, c.fnval); msg != "" {
			e.report(st, "handler-call", c.instr, "an error handler is %s", msg)
		}
		if m := anyLock(st); m != nil {
			e.report(st, "handler-lock", c.instr, "an error handler is called while %s is held", m)
		}
		arg := c.args[0]
		cause := st.get("cause")
		region := st.get("region")
		if region == nil {
			return nil, false
		}
		if cause != nil && !st.occurs(arg, cause, 0) {
			e.report(st, "handler-cause", c.instr, "the error given to the handlers does not carry the cause")
		}
		retryable := arg.op == OIface && hasMethod(arg.t, "Retry")
		if n, _ := region.strVal(); n == "retry" {
			if !retryable {
				e.report(st, "handler-retryable", c.instr, "the error of a retry does not tell the delay")
			} else if d := st.get("delay"); d != nil && !tellsDelay(st, arg, d) {
				e.report(st, "handler-delay", c.instr, "the error given to the handlers does not carry the retry delay")
			}
		} else {
			if retryable {
				e.report(st, "handler-final", c.instr, "the final error is retryable")
			} else if arg == cause {
				// the operation's own error: may it be retryable?
				_ = arg
			}
		}
		return nil, false
	}
	e.h.Exit = func(st *State, res []*Term) {
		r := st.get("region")
		if r == nil {
			return
		}
		if n, _ := r.strVal(); n != "final" {
			return
		}
		ob()
		cause := st.get("cause")
		full := fe.end(st)
		if cause == TNil || st.knownNil(cause) {
			return
		}
		if cause.op == OCtxErr || ctxDone(st) {
			return
		}
		if full != "" {
			e.report(st, "final-handlers", nil, "the container gives up but the error handlers %s", full)
		}
	}
	e.addRoot(nil, s.start, nil, nil)
	a.explore(e)
	a.anchor(retries > 0, "the notification of a retry")
	// the retry error tells its delay and cause
	checkRetryError(a, s)

	// registration
	e2 := newEngine(p)
	followOnly(e2, "session")
	var h *Term
	e2.h.Store = func(st *State, addr, val *Term, in ssa.Instruction) {
		o, f, _ := fieldAddrOf(addr)
		if o == nil || !sameNamed(o, s.cont) {
			return
		}
		cur := st.peek(addr, derefType(addr.t))
		if !isList(st, cur) && !isList(st, st.loadSym(addr, derefType(addr.t))) {
			return
		}
		ob()
		if val.op == OAppend && val.a[0] == cur && len(val.a) == 2 && val.a[1] == h {
			st.setFlag("added", true)
			return
		}
		if val.op == OAppend && len(val.a) == 2 && val.a[1] == h && val.a[0].op == OAppendSlice && st.knownTrue(mkEq(mkLen(val.a[0].a[0]), mkInt(0))) && val.a[0].a[1] == cur {
			st.setFlag("added", true)
			return
		}
		e2.report(st, "register", in, "field %s is changed to something other than the registered handlers with the new one at the end", f)
	}
	e2.h.Exit = func(st *State, res []*Term) {
		ob()
		if !st.flag("added") {
			e2.report(st, "register", nil, "the handler is not added to the registered ones")
		}
	}
	r := e2.addRoot(nil, s.onErr, nil, nil)
	h = r.top().env[s.onErr.Params[1]]
	a.explore(e2)
}

// ctxDone: some context is known to be finished, other than by a timeout of
// its own.
func ctxDone(st *State) bool {
	for f, v := range st.facts {
		if v && f.op == OIsDone && !timeoutCtx(f.a[0]) {
			return true
		}
	}
	return false
}

// timeoutCtx: the context has a deadline set here, or is derived from one.
func timeoutCtx(c *Term) bool {
	for c.op == OCtx {
		if strings.HasPrefix(c.s, "timeout#") {
			return true
		}
		c = c.a[0]
	}
	return false
}

// tellsDelay: the error holds exactly the given delay.
func tellsDelay(st *State, err, d *Term) bool {
	x := err.a[0]
	if s := structOf(derefType(x.t)); s != nil && isPtr(x.t) {
		for i := 0; i < s.NumFields(); i++ {
			if typeIs(s.Field(i).Type(), "time.Duration") {
				return strip(st.peek(mkFieldAddr(x, i, s), s.Field(i).Type())) == strip(d)
			}
		}
	} else if s := structOf(x.t); s != nil {
		if x.op == OLoad {
			x = st.peek(x.a[0], x.t)
		}
		for i := 0; i < s.NumFields(); i++ {
			if typeIs(s.Field(i).Type(), "time.Duration") {
				return strip(mkField(x, i, s)) == strip(d)
			}
		}
	}
	return st.occurs(err, d, 0)
}

// checkRetryError: the Retry method of the error types returns the delay they
// were made with, and their message contains the cause.
func checkRetryError(a *Analysis, s *sessionParts) {
	p := a.program()
	it := p.typ("session", "RetryableError")
	if !a.anchor(it != nil, "session.RetryableError") {
		return
	}
	for _, t := range p.implementers(it) {
		rt, er := p.method(t, "Retry"), p.method(t, "Error")
		if rt == nil || er == nil {
			continue
		}
		for _, m := range []*ssa.Function{rt, er} {
			m := m
			e := newEngine(p)
			followOnly(e, "session")
			var recv *Term
			e.h.Exit = func(st *State, res []*Term) {
				if len(res) != 1 {
					return
				}
				a.count("obligations checked", 1)
				var want *Term
				rs := structOf(derefType(t))
				if rs == nil {
					e.undecided(st, nil, "error type of an unknown shape")
					return
				}
				for i := 0; i < rs.NumFields(); i++ {
					ft := rs.Field(i).Type()
					if m == rt && typeIs(ft, "time.Duration") || m == er && isErrorType(ft) {
						if isPtr(recv.t) {
							want = st.peek(mkFieldAddr(recv, i, rs), ft)
						} else {
							want = mkField(recv, i, rs)
						}
					}
				}
				if want == nil || !contains(res[0], want) || m == rt && strip(res[0]) != strip(want) {
					e.report(st, "retry-error", nil, "%s does not tell the %s", m.Name(), map[bool]string{true: "delay", false: "cause"}[m == rt])
				}
			}
			r := e.addRoot(nil, m, nil, nil)
			recv = r.top().env[m.Params[0]]
			a.explore(e)
		}
	}
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}
