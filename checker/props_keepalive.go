package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C19", "typestate analysis of the manager's senders, tickers and flush receiver, over every path of its goroutines",
		"Manager.Run and the goroutines it starts for announcing the source and for receiving flush requests are explored, every send and receive failing or not; the tickers, what each tick is answered with, the content and the destination of each message and the bound of each send are followed",
		runC19)
	register("C20", "typestate analysis of the first-message signal and of the flush sent after it, over every path and every sequence of handler calls",
		"FlushOnFirstMessage, the handlers it registers (called any number of times, in any order) and Client.SendFlush are explored; the channel the handlers signal on, the wait for it and the flush that follows are related",
		runC20)
}

// message gives the content of a message of the root package being encoded.
func (p *Program) encoded(st *State, c *Call, t types.Type) *Term {
	if c.fn == nil || pkgPath(c.fn) != modPath || c.fn.Name() != "Encode" || len(c.args) != 1 || t == nil || !types.Identical(derefType(c.args[0].t), t) {
		return nil
	}
	m := c.args[0]
	if isPtr(m.t) {
		m = st.peek(m, t)
	}
	return m
}

func promoted(v *Term, s *types.Struct, name string) *Term {
	if f := fieldNamed(v, s, name); f != nil {
		return f
	}
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if f := s.Field(i); f.Embedded() && structOf(f.Type()) != nil {
			if x := promoted(mkField(v, i, s), structOf(f.Type()), name); x != nil {
				return x
			}
		}
	}
	return nil
}

// newSender models the container's NewSender, newReceiver: the term carries the address.
func newLink(e *Engine, c *Call, kind string) (*Term, bool) {
	if c.method == nil || c.res == nil || c.res.Len() != 1 {
		return nil, false
	}
	addr := c.args[0]
	if c.recv == nil && len(c.args) > 1 {
		addr = c.args[1]
	}
	return intern(OCall, fmt.Sprintf("%s#%d@%d", kind, e.siteID(c.instr), c.ctx.id), 0, 0, c.res.At(0).Type(), nil, nil, addr), true
}

func linkAddr(t *Term, kind string) *Term {
	if t != nil && t.op == OCall && strings.HasPrefix(t.s, kind+"#") {
		return t.a[0]
	}
	return nil
}

func runC19(a *Analysis) {
	r := findManager(a)
	if r == nil {
		return
	}
	r.prop = "C19"
	p := r.p
	bt, ht := p.typ("", "BeaconMessage"), p.typ("", "HeartbeatMessage")
	if !a.anchor(bt != nil && ht != nil, "BeaconMessage and HeartbeatMessage") {
		return
	}
	a.rule("a beacon is sent, again and again until it succeeds, before tickers are waited for")
	a.rule("the tickers run at the configured intervals, 10 and 2 seconds if none are configured; every wait includes all of them and every tick is answered with exactly one message of its kind before the next wait")
	a.rule("beacons carry the source's version, type, addresses and identity and go to the beacon address; heartbeats carry its version, identity and the time read since the wait, and go to the source's address or its heartbeat variant as configured")
	a.rule("each send is bounded by a timeout that none of the intervals is shorter than")
	a.rule("every message received on the source's direct address is accepted and offered to the flush queue exactly once without waiting for room, a receive error offers nothing; the queue has room for at least one request")
	a.rule("these goroutines are started once, on every path, and end only with their context")
	e := newEngine(p)
	r.e = e
	followOnly(e, "eventsource")
	memo := map[*ssa.Function]bool{}
	other := func(fn *ssa.Function) bool {
		if fn == r.run {
			return false
		}
		v, ok := memo[fn]
		if !ok {
			v = pkgPath(fn) == modPath+"/eventsource" && r.touches(fn, map[*ssa.Function]bool{})
			memo[fn] = v
		}
		return v
	}
	prev := e.h.Opaque
	e.h.Opaque = func(fn *ssa.Function) bool { return prev(fn) || other(fn) }
	ob := func() { a.count("obligations checked", 1) }
	kinds := []string{"beacon", "heartbeat"}
	cfgName := map[string]string{"beacon": "BeaconInterval", "heartbeat": "HeartbeatInterval"}
	dflt := map[string]int64{"beacon": 10e9, "heartbeat": 2e9}
	// interval gives the configured interval, nil as long as it is not settled
	interval := func(st *State, k string) *Term {
		c := r.cfg(st, cfgName[k])
		switch st.evalBool(mkLt(mkInt(0), c, c.t)) {
		case TTrue:
			return c
		case TFalse:
			return mkInt(dflt[k])
		}
		return nil
	}
	sameDur := func(x, y *Term) bool {
		if x == y {
			return true
		}
		i, ok := x.intVal()
		j, ok2 := y.intVal()
		return ok && ok2 && i == j
	}
	kindOf := func(st *State, d *Term) string {
		for _, k := range kinds {
			c := r.cfg(st, cfgName[k])
			if d == c {
				if st.knownTrue(mkLt(mkInt(0), c, c.t)) || st.entailsLE(mkInt(1), c) {
					return k
				}
				return ""
			}
			if v, ok := d.intVal(); ok && v == dflt[k] && (st.knownFalse(mkLt(mkInt(0), c, c.t)) || st.entailsLE(c, mkInt(0))) {
				return k
			}
		}
		return ""
	}
	src := func(st *State, n string) *Term {
		s := r.cfg(st, "Source")
		return promoted(s, structOf(s.t), n)
	}
	role := map[*ssa.Function]map[string]bool{} // what the goroutines were seen doing
	mark := func(st *State, what string) {
		fn := threadFn(st)
		if role[fn] == nil {
			role[fn] = map[string]bool{}
		}
		role[fn][what] = true
	}
	type gone struct {
		done bool
		fns  map[string]int
	}
	var exits []gone
	goNames, inner := map[string]bool{}, map[string]bool{}
	snapshot := func(st *State) {
		g := gone{done: ctxDone(st), fns: map[string]int{}}
		for n := range goNames {
			g.fns[n] = st.num("go:" + n)
		}
		exits = append(exits, g)
	}
	tickKind := func(st *State, ch *Term) string {
		for _, k := range kinds {
			t := st.get("tick:" + k)
			if t == nil {
				continue
			}
			if ch == t {
				return k
			}
			if ch.op == OLoad {
				if _, f, base := fieldLoad(ch); f == "C" && base == t {
					return k
				}
			}
		}
		return ""
	}
	ticking := func(st *State) bool {
		return st.get("tick:beacon") != nil || st.get("tick:heartbeat") != nil
	}
	// every tick has been answered
	answered := func(st *State, in ssa.Instruction) {
		for _, k := range kinds {
			if st.flag("due:" + k) {
				ob()
				if !st.flag("try:"+k) && !ctxDone(st) {
					e.report(st, "not-sent", in, "a %s is due but none is sent", k)
				}
			}
			st.setFlag("due:"+k, false)
			st.setFlag("try:"+k, false)
			st.setFlag("sent:"+k, false)
		}
	}
	// every flush request has been passed on
	passed := func(st *State, in ssa.Instruction) {
		m := st.get("request")
		if m == nil && st.num("offered") == 0 {
			return
		}
		ob()
		if m != nil {
			if !st.flag("accepted") {
				e.report(st, "not-accepted", in, "a message received on the source's direct address is not accepted")
			}
			if st.num("offered") == 0 && !ctxDone(st) {
				e.report(st, "not-offered", in, "a message received on the source's direct address requests no flush")
			}
		}
		st.set("request", nil)
		st.setFlag("accepted", false)
		st.setNum("offered", 0)
	}
	offer := func(st *State, in ssa.Instruction) {
		if threadFn(st) == r.run && st.get("request") == nil && st.num("go") > 0 {
			return
		}
		ob()
		if st.get("request") == nil {
			e.report(st, "offered", in, "a flush is requested although no message was received")
		}
		st.setNum("offered", min(st.num("offered")+1, 2))
		if st.num("offered") > 1 {
			e.report(st, "offered", in, "one message received requests several flushes")
		}
	}
	e.h.Go = func(st *State, c *Call) bool {
		if c.fn == nil {
			return true
		}
		if st.flag("due:beacon") || st.flag("due:heartbeat") || st.get("request") != nil {
			e.report(st, "async", c.instr, "the goroutine that sends or receives for the source starts another one each time")
			return false
		}
		st.setNum("go", 1)
		goNames[c.fn.String()] = true
		if st.thread != r.run.String() {
			inner[c.fn.String()] = true
		}
		st.setNum("go:"+c.fn.String(), min(st.num("go:"+c.fn.String())+1, 2))
		return !other(c.fn)
	}
	e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
		if o, done := hookNow(st, c); done {
			return o, done
		}
		if c.fn != nil && other(c.fn) && st.thread == r.run.String() && serves(c.fn, 0) {
			// returns when the context is finished
			snapshot(st)
			return []Outcome{{res: e.freshRes(st, c), mod: func(s *State) bool { return s.assume(mkIsDone(stripValueCtx(r.ctx)), true) }}}, true
		}
		for i, mt := range []types.Type{bt, ht} {
			if m := p.encoded(st, c, mt); m != nil {
				v := intern(OCall, kinds[i]+":msg", 0, 0, c.res.At(0).Type(), nil, nil, m)
				return []Outcome{{res: []*Term{v}, mod: func(s *State) bool { return s.assume(mkEq(v, TNil), false) }}}, true
			}
		}
		name := ""
		if c.method != nil {
			name = c.method.Name()
		}
		switch {
		case name == "NewSender" || name == "NewReceiver":
			v, ok := newLink(e, c, strings.ToLower(name))
			if !ok {
				break
			}
			st.setFlag("closed:"+v.String(), false)
			return []Outcome{{res: []*Term{v}, mod: func(s *State) bool { return s.assume(mkEq(v, TNil), false) }}}, true
		case name == "Close" && c.recv != nil && (linkAddr(c.recv, "newsender") != nil || linkAddr(c.recv, "newreceiver") != nil):
			st.setFlag("closed:"+c.recv.String(), true)
		case name == "Send" && c.recv != nil && len(c.args) == 2:
			return r.keepaliveSend(st, c, bt, ht, interval, src, mark), true
		case name == "Next" && linkAddr(c.recv, "newreceiver") != nil:
			if linkAddr(c.recv, "newreceiver") != src(st, "Direct") {
				e.report(st, "receiver", c.instr, "messages are received from %s, not from the source's direct address", linkAddr(c.recv, "newreceiver"))
				return nil, false
			}
			ob()
			if st.flag("closed:" + c.recv.String()) {
				e.report(st, "receiver", c.instr, "messages are received with a receiver that was closed")
			}
			passed(st, c.instr)
			mark(st, "flushes")
			st.setFlag("listens", true)
			return okOrErr(e, st, c, func(s *State, v *Term) { s.set("request", v) }), true
		case name == "Accept" && linkAddr(c.recv, "newreceiver") != nil:
			ob()
			if m := c.args[len(c.args)-1]; m != st.get("request") {
				e.report(st, "accept", c.instr, "what is accepted is not the message received")
			} else if st.flag("accepted") {
				e.report(st, "accept", c.instr, "a message is accepted twice")
			}
			st.setFlag("accepted", true)
		case c.name == "time.NewTicker" || c.name == "time.Tick" || c.name == "time.NewTimer":
			k := kindOf(st, c.args[0])
			rs := e.freshRes(st, c)
			if k == "" {
				if !st.flag("announced") && c.name == "time.NewTimer" {
					return []Outcome{{res: rs}}, true
				}
				ob()
				e.report(st, "interval", c.instr, "a ticker runs at %s, which is neither the interval for beacons nor the one for heartbeats", c.args[0])
				return []Outcome{{res: rs}}, true
			}
			ob()
			if st.get("tick:"+k) != nil && st.get("tick:"+k) != rs[0] {
				e.report(st, "interval", c.instr, "two tickers run at the interval for %ss", k)
			}
			st.set("tick:"+k, rs[0])
			st.setFlag("timer:"+k, c.name == "time.NewTimer")
			return []Outcome{{res: rs, mod: func(s *State) bool { return s.assume(mkEq(rs[0], TNil), false) }}}, true
		case c.name == "(*time.Ticker).Stop" || c.name == "(*time.Timer).Stop":
			for _, k := range kinds {
				if c.args[0] == st.get("tick:"+k) {
					st.setFlag("stopped:"+k, true)
				}
			}
		case c.name == "(*time.Ticker).Reset" || c.name == "(*time.Timer).Reset":
			for _, k := range kinds {
				if c.args[0] != st.get("tick:"+k) {
					continue
				}
				ob()
				if w := interval(st, k); w == nil || !sameDur(w, c.args[1]) {
					e.report(st, "interval", c.instr, "the ticker for %ss is set to %s", k, c.args[1])
				}
				if c.name == "(*time.Ticker).Reset" && !st.flag("due:"+k) {
					e.report(st, "interval", c.instr, "the ticker for %ss starts over although it has not run out", k)
				}
				st.setFlag("stopped:"+k, false)
			}
		case c.name == "time.Sleep" && ticking(st):
			e.report(st, "waits", c.instr, "the goroutine sleeps instead of answering its tickers")
		}
		return nil, false
	}
	e.h.Thread = func(st *State) {
		// what the goroutine starting it was doing is not its business
		for _, k := range kinds {
			for _, n := range []string{"due:", "try:", "sent:", "stopped:", "timer:"} {
				st.setFlag(n+k, false)
			}
			st.set("tick:"+k, nil)
		}
		for _, n := range []string{"listens", "tried", "accepted"} {
			st.setFlag(n, false)
		}
		st.set("request", nil)
		st.setNum("offered", 0)
	}
	e.h.Block = func(st *State, ops []ChanOp, hasDefault bool, in ssa.Instruction) bool {
		for _, op := range ops {
			if op.send && r.queueOf(op.ch) == "flushes" {
				ob()
				room := hasDefault
				for f := range st.facts {
					// its length was looked at
					room = room || contains(f, op.ch)
				}
				if !room {
					e.report(st, "not-dropped", in, "a flush request waits for room in the queue, which keeps messages on the source's direct address from being received")
				}
				offer(st, in)
				return true
			}
		}
		if !ticking(st) || hasDefault {
			for _, op := range ops {
				if !op.send && op.ch.op != ODoneCh && tickKind(st, op.ch) == "" && role[threadFn(st)]["beacon"] && !st.flag("announced") {
					return true
				}
			}
			return true
		}
		ob()
		answered(st, in)
		for _, k := range kinds {
			t := st.get("tick:" + k)
			if t == nil {
				continue
			}
			in2 := false
			for _, op := range ops {
				in2 = in2 || tickKind(st, op.ch) == k
			}
			if !in2 {
				e.report(st, "waits", in, "the goroutine waits without noticing that a %s is due", k)
			}
			if st.flag("stopped:" + k) {
				e.report(st, "waits", in, "the goroutine waits for its next %s with a ticker that has stopped", k)
			}
		}
		if !st.flag("announced") {
			e.report(st, "announce", in, "tickers are waited for although no beacon has been sent yet")
		}
		st.setList("nows", nil)
		return true
	}
	e.h.Chan = func(st *State, op ChanOp, in ssa.Instruction) {
		if op.send {
			return
		}
		if k := tickKind(st, op.ch); k != "" {
			st.setFlag("due:"+k, true)
			if st.flag("timer:" + k) {
				st.setFlag("stopped:"+k, true)
			}
			mark(st, "tick:"+k)
		}
	}
	e.h.LoopIter = func(st *State, l *LoopEv) bool {
		if l.st.mode == 3 && !ticking(st) {
			st.setFlag("try:beacon", false)
		}
		return true
	}
	e.h.LoopBack = func(st *State, l *LoopEv) {
		if l.st.mode != 3 {
			return
		}
		in := l.loop.header.Instrs[0]
		if outermost(st, l) {
			if st.flag("listens") {
				passed(st, in)
			}
			if ticking(st) {
				answered(st, in)
			}
			st.setList("nows", nil)
		}
		if !ticking(st) && !st.flag("announced") && !st.flag("listens") && threadFn(st) != r.run && !st.flag("try:beacon") && !ctxDone(st) {
			e.report(st, "announce", in, "the goroutine goes on without trying to send a beacon")
		}
		if !ticking(st) {
			st.setFlag("try:beacon", false)
		}
	}
	e.h.Exit = func(st *State, res []*Term) {
		ob()
		if st.thread == r.run.String() {
			snapshot(st)
		}
		if st.flag("listens") && st.thread != r.run.String() {
			passed(st, nil)
		}
		if ctxDone(st) {
			return
		}
		if st.flag("listens") || ticking(st) || st.flag("tried") {
			e.report(st, "ends", nil, "a goroutine that sends or receives for the source ends although its context is not finished")
		}
	}
	root := e.addRoot(nil, r.run, nil, nil)
	r.self = root.top().env[r.run.Params[0]]
	for _, pr := range r.run.Params {
		if strings.HasSuffix(typeKey(pr.Type()), "context.Context") {
			r.ctx = root.top().env[pr]
		}
	}
	if !a.anchor(r.ctx != nil, "the context given to Manager.Run") {
		return
	}
	a.explore(e)
	for _, what := range []string{"beacon", "heartbeat", "tick:beacon", "tick:heartbeat", "flushes"} {
		var by []*ssa.Function
		for fn, m := range role {
			if m[what] {
				by = append(by, fn)
			}
		}
		if !a.anchor(len(by) > 0, "Manager.Run starting what handles: "+what) {
			continue
		}
		for _, fn := range by {
			if fn == r.run || fn == nil {
				continue
			}
			for _, g := range exits {
				n := g.fns[fn.String()]
				if n > 1 {
					a.violate(p, "started", r.run.Pos(), r.run.String(), "%s is started several times", fn)
				} else if n == 0 && !g.done && !inner[fn.String()] {
					a.violate(p, "started", r.run.Pos(), r.run.String(), "%s is not started on every path", fn)
				}
			}
		}
		if strings.HasPrefix(what, "tick:") && len(by) > 1 {
			a.violate(p, "started", r.run.Pos(), r.run.String(), "several goroutines handle: %s", what)
		}
	}
	r.newManager()
}

// serves: the function takes things from channels in a loop.
func serves(fn *ssa.Function, d int) bool {
	if d > 4 || fn == nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Select:
				return true
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return true
				}
			case *ssa.Call:
				if f := x.Call.StaticCallee(); f != nil && pkgPath(f) == pkgPath(fn) && serves(f, d+1) {
					return true
				}
			}
		}
	}
	return false
}

func (r *mgrRun) keepaliveSend(st *State, c *Call, bt, ht types.Type, interval func(*State, string) *Term, src func(*State, string) *Term, mark func(*State, string)) []Outcome {
	e, a := r.e, r.a
	a.count("obligations checked", 1)
	rs := okOrErr(e, st, c, nil)
	to := linkAddr(c.recv, "newsender")
	msg := c.args[1]
	if to == nil {
		e.report(st, "sender", c.instr, "a message is sent with something other than a sender made for it: %s", c.recv)
		return rs
	}
	if st.flag("closed:" + c.recv.String()) {
		e.report(st, "sender", c.instr, "a message is sent with a sender that was closed")
	}
	want := func(m *Term, s *types.Struct, f string, v *Term, alsoVal bool) {
		got := promoted(m, s, f)
		if got == v {
			return
		}
		if got != nil && v != nil && stripWide(got) == stripWide(v) && alsoVal {
			return
		}
		e.report(st, "content", c.instr, "the message sent carries %s as its %s", got, f)
	}
	var k string
	switch {
	case msg.op == OCall && msg.s == "beacon:msg":
		k = "beacon"
		m, s := msg.a[0], structOf(bt)
		want(m, s, "Version", src(st, "Version"), true)
		want(m, s, "SourceType", src(st, "Type"), false)
		want(m, s, "Address", src(st, "Address"), false)
		want(m, s, "Direct", src(st, "Direct"), false)
		want(m, s, "Identity", src(st, "ID"), false)
		if v, ok := to.strVal(); !ok || v != "mc/sfe.all" {
			e.report(st, "address", c.instr, "a beacon is sent to %s, not to the beacon address", to)
		}
	case msg.op == OCall && msg.s == "heartbeat:msg":
		k = "heartbeat"
		m, s := msg.a[0], structOf(ht)
		want(m, s, "Version", src(st, "Version"), true)
		want(m, s, "Identity", src(st, "ID"), false)
		now := stripTo(promoted(m, s, "Now"), 64)
		ok := false
		if now.op == OCall && strings.HasSuffix(now.s, "Time).UnixMicro") {
			ok = inTerms(st.list("nows"), now.a[0])
		}
		if !ok {
			e.report(st, "now", c.instr, "the heartbeat carries %s as the current time, not the microseconds of a time read for it", now)
		}
		addr := src(st, "Address")
		switch alt := r.cfg(st, "UseAlternateHeartbeatAddress"); st.evalBool(alt) {
		case TTrue:
			addr = mkCat(addr, mkStr(".heartbeats"))
		case TFalse:
		default:
			addr = nil
		}
		if to != addr {
			e.report(st, "address", c.instr, "a heartbeat is sent to %s: not the address configured", to)
		}
	default:
		e.report(st, "content", c.instr, "what is sent is neither a beacon nor a heartbeat: %s", msg)
		return rs
	}
	mark(st, k)
	st.setFlag("tried", true)
	if st.flag("announced") {
		if !st.flag("due:" + k) {
			e.report(st, "extra", c.instr, "a %s is sent although none is due", k)
		} else if st.flag("sent:" + k) {
			e.report(st, "extra", c.instr, "a %s is sent twice", k)
		}
	} else if k != "beacon" {
		e.report(st, "announce", c.instr, "a heartbeat is sent although no beacon has been sent yet")
	}
	// the bound
	ctx := stripValueCtx(c.args[0])
	if !ctxWithin(ctx, []*Term{r.ctx}) {
		e.report(st, "bound", c.instr, "a %s is sent with a context other than the manager's", k)
	}
	var ds []*Term
	for x := ctx; x != nil && x.op == OCtx; x = x.a[0] {
		if strings.HasPrefix(x.s, "timeout#") && len(x.a) > 1 {
			ds = append(ds, x.a[1])
		}
	}
	for _, o := range []string{"beacon", "heartbeat"} {
		if !st.flag("announced") && o != "beacon" {
			continue
		}
		if st.get("tick:"+o) == nil && o != k {
			continue
		}
		ok := false
		w := interval(st, o)
		for _, d := range ds {
			ok = ok || w != nil && st.atMost(d, w)
		}
		if !ok {
			e.report(st, "bound", c.instr, "a %s that stalls is not given up before the next %s is due", k, o)
		}
	}
	st.setFlag("try:"+k, true)
	f := rs[0].mod
	rs[0].mod = func(s *State) bool {
		s.setFlag("sent:"+k, true)
		if k == "beacon" {
			s.setFlag("announced", true)
		}
		return f == nil || f(s)
	}
	return rs
}

// newManager: the queues and the configuration a manager is made with.
func (r *mgrRun) newManager() {
	a, p := r.a, r.p
	fn := p.fn("eventsource", "NewManager")
	if !a.anchor(fn != nil && len(fn.Params) == 2, "NewManager") {
		return
	}
	e := newEngine(p)
	followOnly(e, "eventsource")
	var cont, cfg *Term
	e.h.Exit = func(st *State, res []*Term) {
		a.count("obligations checked", 1)
		if len(res) != 1 || st.knownNil(res[0]) {
			e.report(st, "made", nil, "NewManager gives no manager")
			return
		}
		m := unwrapIface(res[0])
		base := mkFieldAddr(m, r.cfgF, r.s)
		if isPtr(r.s.Field(r.cfgF).Type()) {
			base = st.peek(base, r.s.Field(r.cfgF).Type())
		}
		ct := p.typ("eventsource", "ManagerConfig")
		got := st.peek(base, ct)
		for i := 0; i < r.cs.NumFields(); i++ {
			g, w := mkField(got, i, r.cs), mkField(cfg, i, r.cs)
			if g != w && stripWide(g) != stripWide(w) {
				switch r.cs.Field(i).Name() {
				case "Source", "HeartbeatInterval", "BeaconInterval", "UseAlternateHeartbeatAddress":
					e.report(st, "made", nil, "the manager is made with %s as its %s, not with what was configured", g, r.cs.Field(i).Name())
				}
			}
		}
		found := false
		for i := 0; i < r.s.NumFields(); i++ {
			f := r.s.Field(i)
			v := st.peek(mkFieldAddr(m, i, r.s), f.Type())
			if types.Identical(f.Type(), cont.t) && v == cont {
				found = true
			}
			if el := chanElem(f.Type()); el != nil && structOf(el) != nil && structOf(el).NumFields() == 0 {
				c := e.chanCap[v]
				if c == nil {
					e.report(st, "made", nil, "the manager is made without its queue of flush requests")
				} else if n, ok := c.intVal(); !ok || n < 1 {
					e.report(st, "made", nil, "the queue of flush requests has no room: requests arriving while the manager is busy are lost")
				}
			}
		}
		if !found {
			e.report(st, "made", nil, "the manager is made without the container given")
		}
	}
	root := e.addRoot(nil, fn, nil, nil)
	cont, cfg = root.top().env[fn.Params[0]], root.top().env[fn.Params[1]]
	a.explore(e)
}

func runC20(a *Analysis) {
	p := a.program()
	fn := p.fn("eventsource", "FlushOnFirstMessage")
	ct := p.typ("eventsource", "Client")
	ft := p.typ("", "FlushMessage")
	var sendFlush *ssa.Function
	if ct != nil {
		sendFlush = p.method(types.NewPointer(ct), "SendFlush")
	}
	if !a.anchor(fn != nil && ct != nil && ft != nil && sendFlush != nil, "FlushOnFirstMessage, Client, Client.SendFlush and FlushMessage") {
		return
	}
	a.rule("handlers for records and for heartbeats are registered with the client before the wait; each signals the channel waited on, whenever it is the first called, closes it at most once, and never waits")
	a.rule("the wait ends with that signal or the context; after the signal exactly one flush goes to the source's direct address and the result is nil exactly if it was sent; otherwise nothing is sent and an error is returned")
	// which flag, if any, tells under which lock that the signal was given
	guards := map[*Term]*Term{}
	flushRun(a, p, fn, ct, ft, guards, true)
	flushRun(a, p, fn, ct, ft, guards, false)
	flushRun(a, p, sendFlush, ct, ft, nil, false)
}

func flushRun(a *Analysis, p *Program, fn *ssa.Function, ct, ft types.Type, guards map[*Term]*Term, trial bool) {
	e := newEngine(p)
	followOnly(e, "eventsource")
	direct := fn.Signature.Recv() != nil // SendFlush itself
	ob := func() { a.count("obligations checked", 1) }
	cs := structOf(ct)
	it := p.typ("eventsource", "Info")
	var client, ctx *Term
	want := func(st *State) *Term {
		for i := 0; i < cs.NumFields(); i++ {
			if it != nil && types.Identical(derefType(cs.Field(i).Type()), it) {
				v := st.peek(mkFieldAddr(client, i, cs), cs.Field(i).Type())
				if isPtr(v.t) {
					v = st.peek(v, it)
				}
				return fieldNamed(v, structOf(it), "Direct")
			}
		}
		return nil
	}
	waits, signals := map[*Term]bool{}, map[string]map[*Term]bool{"OnRecord": {}, "OnHeartbeat": {}}
	handlers := map[string]*Term{}
	var handlerSig map[string]ssa.Instruction = map[string]ssa.Instruction{}
	chain := func(st *State) {
		for n, f := range handlers {
			if f.fn == nil || f.fn.Blocks == nil {
				e.undecided(st, handlerSig[n], "registers a handler that is not understood: %s", f)
				continue
			}
			h := e.chain(st, f.fn, nil)
			for i, fv := range f.fn.FreeVars {
				if i < len(f.a) {
					h.top().env[fv] = f.a[i]
				}
			}
			h.set("handler", mkStr(n))
			h.setFlag("signalled", false)
		}
	}
	name := func(st *State) string {
		if h := st.get("handler"); h != nil {
			s, _ := h.strVal()
			return s
		}
		return ""
	}
	excl := func(st *State) bool {
		if anyLock(st) != nil || st.flag("cas") {
			return true
		}
		for f, v := range st.facts {
			if v && f.op == OCall && f.s == "oncedone" {
				return true
			}
		}
		return false
	}
	e.h.Go = func(st *State, c *Call) bool {
		if name(st) == "" {
			e.report(st, "async", c.instr, "the flush is not sent by the caller")
		}
		return true
	}
	e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
		if m := p.encoded(st, c, ft); m != nil {
			v := intern(OCall, "flush:msg", 0, 0, c.res.At(0).Type(), nil, nil, m)
			return []Outcome{{res: []*Term{v}, mod: func(s *State) bool { return s.assume(mkEq(v, TNil), false) }}}, true
		}
		mn := ""
		if c.method != nil {
			mn = c.method.Name()
		}
		switch {
		case mn == "NewSender":
			if v, ok := newLink(e, c, "newsender"); ok {
				st.setFlag("closed:"+v.String(), false)
				return []Outcome{{res: []*Term{v}, mod: func(s *State) bool { return s.assume(mkEq(v, TNil), false) }}}, true
			}
		case mn == "Close" && linkAddr(c.recv, "newsender") != nil:
			st.setFlag("closed:"+c.recv.String(), true)
		case mn == "Send" && len(c.args) == 2:
			ob()
			to, msg := linkAddr(c.recv, "newsender"), c.args[1]
			if name(st) != "" {
				e.report(st, "handler", c.instr, "a handler sends, which keeps the client from receiving")
			}
			if to == nil || to != want(st) {
				e.report(st, "address", c.instr, "the flush is sent to %s, not to the source's direct address", to)
			}
			if to != nil && st.flag("closed:"+c.recv.String()) {
				e.report(st, "sender", c.instr, "the flush is sent with a sender that was closed")
			}
			if msg.op != OCall || msg.s != "flush:msg" {
				e.report(st, "content", c.instr, "what is sent is not a flush: %s", msg)
			} else if t := promoted(msg.a[0], structOf(ft), "To"); t != want(st) {
				e.report(st, "content", c.instr, "the flush is addressed to %s, not to the source's direct address", t)
			}
			if !direct && !st.flag("got") {
				e.report(st, "early", c.instr, "a flush is sent although no message was received")
			}
			if st.flag("sent") {
				e.report(st, "twice", c.instr, "a flush is sent again after it was sent")
			}
			if !ctxWithin(stripValueCtx(c.args[0]), []*Term{ctx}) {
				e.report(st, "context", c.instr, "the flush is sent with a context other than the one given")
			}
			if st.flag("tried") {
				e.report(st, "twice", c.instr, "a flush is sent again after an attempt that may have reached the source")
			}
			st.setFlag("tried", true)
			rs := okOrErr(e, st, c, nil)
			f := rs[0].mod
			rs[0].mod = func(s *State) bool {
				s.setFlag("sent", true)
				return f == nil || f(s)
			}
			return rs, true
		case c.fn != nil && c.fn.Signature.Recv() != nil && sameNamed(c.fn.Signature.Recv().Type(), ct) && (c.fn.Name() == "OnRecord" || c.fn.Name() == "OnHeartbeat"):
			n := c.fn.Name()
			ob()
			if c.args[0] != client {
				e.report(st, "register", c.instr, "a handler is registered with another client")
			}
			if st.flag("registered:" + n) {
				e.report(st, "register", c.instr, "several handlers are registered for the same messages")
			}
			handlers[n], handlerSig[n] = c.args[1], c.instr
			e.escape(st, c.args[1], c.instr)
			st.setFlag("registered:"+n, true)
			st.set("keep:"+n, c.args[1])
			return []Outcome{{res: e.freshRes(st, c)}}, true
		case strings.HasPrefix(c.name, "(*sync/atomic.") && strings.HasSuffix(c.name, ".CompareAndSwap") || strings.HasPrefix(c.name, "sync/atomic.CompareAndSwap"):
			if name(st) == "" {
				break
			}
			k := "swapped:" + c.args[0].String()
			if st.flag(k) {
				return []Outcome{{res: []*Term{TFalse}}}, true
			}
			return []Outcome{
				{res: []*Term{TTrue}, mod: func(s *State) bool { s.setFlag(k, true); s.setFlag("cas", true); return true }},
				{res: []*Term{TFalse}, mod: func(s *State) bool { s.setFlag(k, true); s.setFlag("signalled", true); return true }},
			}, true
		}
		return nil, false
	}
	e.h.Locked = func(st *State, mu *Term, write bool, in ssa.Instruction) {
		if name(st) == "" {
			return
		}
		st.set("raised", nil)
		st.setFlag("gave", false)
		if g := guards[mu]; g != nil && !trial {
			if !st.assume(mkEq(st.peek(g, types.Typ[types.Bool]), mkBool(st.flag("given:"+g.String()))), true) {
				st.dead = true
			}
		}
	}
	e.h.Unlock = func(st *State, mu *Term, write bool, in ssa.Instruction) {
		if name(st) == "" {
			return
		}
		up := st.get("raised")
		if up != nil && st.flag("gave") {
			guards[mu] = up
			st.setFlag("given:"+up.String(), true)
		} else if g := guards[mu]; g != nil && up == g && !st.flag("given:"+g.String()) {
			e.report(st, "signal", in, "it is noted that the wait was ended although it was not")
		}
		if g := guards[mu]; g != nil && st.flag("given:"+g.String()) {
			st.setFlag("signalled", true)
		}
	}
	e.h.Store = func(st *State, addr, val *Term, in ssa.Instruction) {
		if name(st) != "" && val == TTrue && anyLock(st) != nil {
			st.set("raised", addr)
		}
	}
	prev := e.h.Opaque
	e.h.Opaque = func(f *ssa.Function) bool {
		if rc := f.Signature.Recv(); rc != nil && sameNamed(rc.Type(), ct) && (f.Name() == "OnRecord" || f.Name() == "OnHeartbeat") {
			return true
		}
		return prev(f)
	}
	e.h.Close = func(st *State, ch *Term, in ssa.Instruction) {
		n := name(st)
		if n == "" {
			return
		}
		ob()
		k := "closed:" + ch.String()
		if st.flag(k) {
			e.report(st, "closed", in, "the channel is closed a second time when another message arrives: the process crashes")
		}
		if !excl(st) {
			e.report(st, "closed", in, "nothing keeps two handlers from closing the channel at the same time: the process crashes")
		}
		st.setFlag(k, true)
		st.setFlag("gave", true)
		st.setFlag("signalled", true)
		signals[n][ch] = true
	}
	e.h.Block = func(st *State, ops []ChanOp, hasDefault bool, in ssa.Instruction) bool {
		n := name(st)
		if n != "" {
			for _, op := range ops {
				if !op.send {
					continue
				}
				ob()
				if st.flag("closed:" + op.ch.String()) {
					e.report(st, "closed", in, "a handler sends on a channel that is closed: the process crashes")
				}
				c := e.chanCap[op.ch]
				room := false
				if c != nil {
					if k, ok := c.intVal(); ok && k >= 1 {
						room = true
					}
				}
				if !room {
					if hasDefault {
						e.report(st, "lost", in, "a message arriving before the wait begins is not noticed")
					}
				}
				st.setFlag("signalled", true)
				signals[n][op.ch] = true
			}
			if !hasDefault {
				e.report(st, "handler", in, "a handler waits, which keeps the client from receiving")
			}
			return true
		}
		if hasDefault || direct {
			return true
		}
		done := false
		for _, op := range ops {
			switch {
			case op.send:
			case op.ch.op == ODoneCh:
				done = done || ctxWithin(op.ch.a[0], []*Term{ctx})
			default:
				waits[op.ch] = true
			}
		}
		ob()
		if !done {
			e.report(st, "context", in, "the wait does not end with the context given")
		}
		if !(st.flag("registered:OnRecord") && st.flag("registered:OnHeartbeat")) {
			e.report(st, "register", in, "the wait begins without handlers for both records and heartbeats")
		} else if !st.flag("chained") {
			st.setFlag("chained", true)
			chain(st)
		}
		return true
	}
	e.h.Chan = func(st *State, op ChanOp, in ssa.Instruction) {
		if name(st) == "" && !op.send && op.ch.op != ODoneCh {
			st.setFlag("got", true)
		}
	}
	e.h.Exit = func(st *State, res []*Term) {
		ob()
		if n := name(st); n != "" {
			sig := st.flag("signalled")
			if !sig {
				for f, v := range st.facts {
					sig = sig || v && f.op == OCall && f.s == "oncedone"
				}
			}
			if !sig && st.num("runs") == 0 {
				e.report(st, "signal", nil, "the first message is handled without ending the wait")
			}
			if st.num("runs") < 2 {
				st.setNum("runs", st.num("runs")+1)
				st.setFlag("cas", false)
				chain(st)
			}
			return
		}
		if len(res) != 1 {
			return
		}
		ok, failed := st.knownNil(res[0]), st.knownNonNil(res[0]) || res[0].op == OCtxErr
		switch {
		case st.flag("sent"):
			if !ok {
				e.report(st, "result", nil, "an error is returned although the flush was sent")
			}
		case st.flag("tried"):
			if !failed {
				e.report(st, "result", nil, "sending the flush failed but no error is returned")
			}
		case !direct && st.flag("got") && !ctxDone(st) || direct && !ctxDone(st):
			e.report(st, "not-sent", nil, "no flush is sent")
		case !direct && !st.flag("got") && !ctxDone(st):
			e.report(st, "ends", nil, "the wait ends although no message was received and the context is not finished")
		default:
			if !failed {
				e.report(st, "result", nil, "no error is returned although no flush was sent")
			}
		}
	}
	root := e.addRoot(nil, fn, nil, nil)
	for _, pr := range fn.Params {
		switch {
		case sameNamed(pr.Type(), ct):
			client = root.top().env[pr]
		case strings.HasSuffix(typeKey(pr.Type()), "context.Context"):
			ctx = root.top().env[pr]
		}
	}
	if !a.anchor(client != nil && ctx != nil, "the client and context given to "+fn.Name()) {
		return
	}
	if trial {
		e.run()
		return
	}
	a.explore(e)
	if direct {
		return
	}
	if !a.anchor(len(waits) > 0, "the wait for the first message") {
		return
	}
	for n, m := range signals {
		if !a.anchor(len(m) > 0, "the signal given by the handler registered with "+n) {
			continue
		}
		for ch := range m {
			if !waits[ch] {
				a.violate(p, "signal", handlerSig[n].Pos(), fn.String(), "the handler registered with %s signals a channel that is not waited on", n)
			}
		}
	}
}
