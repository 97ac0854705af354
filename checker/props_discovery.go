package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C14", "typestate analysis of the discovery's critical sections and of its event queue from producer to handler",
		"Every exported operation of the discovery is explored over arbitrary contents; in every critical section the changes of the set of known sources must match the events appended to the queue, and the goroutine that takes events must hand each to exactly the handler of its kind, in order, without a lock, and sleep only when it saw the queue empty",
		func(a *Analysis) { runDiscovery(a, "C14") })
	register("C15", "path-sensitive dataflow of source descriptions between beacons, the discovery's map and its results",
		"Every exported operation of the discovery is explored over arbitrary contents; what is written to the map of sources is compared field by field with what the operation was given and what the map held, times with the clock readings of the same critical section, and results with the map",
		func(a *Analysis) { runDiscovery(a, "C15") })
}

type discRun struct {
	a      *Analysis
	p      *Program
	prop   string
	t      types.Type
	infoT  types.Type
	bcnT   types.Type
	mapF   int // sources by identity
	queueF int // events
	evT    types.Type
	evInfo int
	s      *types.Struct
	is     *types.Struct
	// what the events of each kind look like, by the other fields
	kinds map[bool]map[int]*Term
	e     *Engine
	self  *Term
	fn    *ssa.Function
	kind  string // operation explored
	given *Term  // source or identity given to the operation
	wakeF map[int]bool
}

func (r *discRun) rep(prop string, st *State, rule string, in ssa.Instruction, f string, args ...any) {
	if prop == r.prop {
		r.e.report(st, rule, in, f, args...)
	}
}

func (r *discRun) ob(prop string) {
	if prop == r.prop {
		r.a.count("obligations checked", 1)
	}
}

func findDiscovery(a *Analysis, prop string) *discRun {
	p := a.program()
	r := &discRun{a: a, p: p, prop: prop, t: p.typ("eventsource", "Discovery"), infoT: p.typ("eventsource", "Info"), bcnT: p.typ("", "BeaconMessage"), mapF: -1, queueF: -1, kinds: map[bool]map[int]*Term{}, wakeF: map[int]bool{}}
	if !a.anchor(r.t != nil && r.infoT != nil && r.bcnT != nil, "eventsource.Discovery, eventsource.Info and BeaconMessage") {
		return nil
	}
	r.s, r.is = structOf(r.t), structOf(r.infoT)
	for i := 0; r.s != nil && i < r.s.NumFields(); i++ {
		switch u := r.s.Field(i).Type().Underlying().(type) {
		case *types.Map:
			if types.Identical(u.Elem(), r.infoT) {
				r.mapF = i
			}
		case *types.Slice:
			if es := structOf(u.Elem()); es != nil && !isPtr(u.Elem()) {
				for j := 0; j < es.NumFields(); j++ {
					if types.Identical(es.Field(j).Type(), r.infoT) {
						r.queueF, r.evT, r.evInfo = i, u.Elem(), j
					}
				}
			}
		case *types.Chan:
			r.wakeF[i] = true
		}
	}
	if !a.anchor(r.mapF >= 0, "the discovery's map of known sources") {
		return nil
	}
	return r
}

func (r *discRun) isMap(m *Term) bool {
	o, f, _ := fieldLoad(m)
	return o != nil && sameNamed(o, r.t) && f == r.s.Field(r.mapF).Name()
}

// entry gives what is known of the entry a key stands for: whether there is
// one, what it is and under which key. The identity of an entry stands for the
// key it is stored under.
func (r *discRun) entry(st *State, m, k *Term) (okT, prior, key *Term) {
	if k.op == OField && k.s == "ID" && k.a[0].op == OLookup && k.a[0].a[0] == m && st.evalBool(mkLookupOk(m, k.a[0].a[1])) == TTrue {
		k = k.a[0].a[1]
	}
	okT, prior = mkLookupOk(m, k), mkLookup(m, k, r.mapElem())
	switch cur := st.mapGet(m, k, r.mapElem()); {
	case cur == TAbs:
		okT = TFalse
	case cur != nil:
		okT, prior = TTrue, cur
	}
	return okT, prior, k
}

// infoField gives a field of a source description.
func (r *discRun) infoField(v *Term, name string) *Term { return fieldNamed(v, r.is, name) }

func fieldNamed(v *Term, s *types.Struct, name string) *Term {
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return mkField(v, i, s)
		}
	}
	return nil
}

func hookNow(st *State, c *Call) ([]Outcome, bool) {
	if c.name != "time.Now" {
		return nil, false
	}
	n := st.sym("now", c.instr, c.ctx, 0, c.res.At(0).Type())
	symSites[n] = symSite{c.instr, c.ctx}
	st.addTo("nows", n)
	return []Outcome{{res: []*Term{n}}}, true
}

// after gives what is known of x being later than y.
func (st *State) after(x, y *Term) *Term {
	for f, v := range st.facts {
		if f.op != OCall || len(f.a) != 2 {
			continue
		}
		switch {
		case f.s == "(time.Time).After" && f.a[0] == x && f.a[1] == y, f.s == "(time.Time).Before" && f.a[0] == y && f.a[1] == x:
			return boolTerm(v)
		case f.s == "(time.Time).Before" && f.a[0] == x && f.a[1] == y && v, f.s == "(time.Time).After" && f.a[0] == y && f.a[1] == x && v, f.s == "(time.Time).Equal" && v && (f.a[0] == x && f.a[1] == y || f.a[0] == y && f.a[1] == x):
			return TFalse
		}
	}
	return nil
}

func runDiscovery(a *Analysis, prop string) {
	r := findDiscovery(a, prop)
	if r == nil {
		return
	}
	if prop == "C14" {
		a.rule("in every critical section of the discovery's lock each source that becomes known, and each that stops being known, has exactly one event of its kind appended to the queue, with the source as it was recorded last, and nothing else appends events")
		a.rule("every operation that appended events attempts, before it ends or waits, to wake the delivering goroutine through a buffered channel, never waits itself and runs no handler")
		a.rule("the delivering goroutine takes events from the front of the queue under the lock, hands each exactly once to the handler of its kind (if configured) without a lock, and waits only after it saw the queue empty; Run starts exactly one")
		a.rule("Add reports whether the source was unknown, Forget whether it was known")
	} else {
		a.rule("what is stored for a source is stored under its identity; a first beacon's identity, version, type, address and direct address are recorded, Add records what it is given, and an update changes nothing but the time last seen")
		a.rule("a time last seen is replaced only by a clock reading of the same critical section or by one known to be later")
		a.rule("a source becomes known only through a beacon or Add; a watch's update never adds one")
		a.rule("every beacon received is accepted, decoded and recorded")
		a.rule("Get returns the entry stored under the identity exactly if there is one, List one element for every entry")
	}
	if prop == "C14" && !a.anchor(r.queueF >= 0, "the discovery's queue of events") {
		return
	}
	pt := types.NewPointer(r.t)
	run, watch := r.p.method(pt, "Run"), r.p.method(pt, "NewWatchClient")
	if !a.anchor(run != nil && watch != nil, "Discovery.Run and NewWatchClient") {
		return
	}
	ms := types.NewMethodSet(pt)
	ops := 0
	for i := 0; i < ms.Len(); i++ {
		o := ms.At(i).Obj()
		fn := r.p.method(pt, o.Name())
		if !o.Exported() || fn == nil || fn.Blocks == nil {
			continue
		}
		ops++
		r.producer(fn)
	}
	a.anchor(ops >= 5, "the discovery's operations")
	if prop == "C14" {
		if a.anchor(len(r.kinds) == 2, "the events of sources discovered and forgotten") {
			same := true
			for f, v := range r.kinds[true] {
				if o := r.kinds[false][f]; o == nil || o != v {
					same = false
				}
			}
			if same {
				a.violate(r.p, "kinds", run.Pos(), run.String(), "events of sources discovered and forgotten look the same")
			}
			r.consumer(run)
		}
	}
}

func (r *discRun) queueAddr() *Term { return mkFieldAddr(r.self, r.queueF, r.s) }
func (r *discRun) queue(st *State) *Term {
	return st.peek(r.queueAddr(), r.s.Field(r.queueF).Type())
}
func (r *discRun) mapElem() types.Type {
	return r.s.Field(r.mapF).Type().Underlying().(*types.Map).Elem()
}

// producer explores an operation.
func (r *discRun) producer(fn *ssa.Function) {
	e := newEngine(r.p)
	followOnly(e, "eventsource", "")
	prev := e.h.Opaque
	clientT := r.p.typ("eventsource", "Client")
	e.h.Opaque = func(f *ssa.Function) bool {
		if isMsgDecoder(f) || pkgPath(f) == modPath {
			return true
		}
		if rc := f.Signature.Recv(); rc != nil && clientT != nil && sameNamed(rc.Type(), clientT) {
			return true
		}
		return prev(f)
	}
	r.e, r.fn, r.kind = e, fn, fn.Name()
	// deliveries are explored on their own
	consumer := func(st *State) bool { return st.flag("consumer") }
	background := r.kind == "Run" || r.kind == "NewWatchClient"
	e.h.Go = func(st *State, c *Call) bool {
		if !background {
			r.rep("C14", st, "async", c.instr, "%s starts a goroutine: changes and their announcements may be reordered", r.kind)
			return false
		}
		return true
	}
	var hands *Term
	e.h.Lock = func(st *State, mu *Term, write bool, in ssa.Instruction) {
		st.setList("nows", nil)
		st.setFlag("woke", false)
	}
	e.h.MapUpdate = func(st *State, m, k, v *Term, in ssa.Instruction) {
		if !r.isMap(m) {
			return
		}
		r.ob(r.prop)
		_, _, base := fieldLoad(m)
		if !st.holdsLockOf(base) {
			r.rep(r.prop, st, "unlocked", in, "the known sources are changed without the lock")
		}
		okT, prior, k := r.entry(st, m, k)
		st.addTo("changes", tupleOf(okT, prior, v, k))
		r.stored(st, okT, prior, k, v, in)
	}
	e.h.MapDelete = func(st *State, m, k *Term, in ssa.Instruction) {
		if !r.isMap(m) {
			return
		}
		r.ob(r.prop)
		if k == nil {
			r.rep(r.prop, st, "clear", in, "all known sources are removed at once")
			return
		}
		_, _, base := fieldLoad(m)
		if !st.holdsLockOf(base) {
			r.rep(r.prop, st, "unlocked", in, "the known sources are changed without the lock")
		}
		okT, prior, k := r.entry(st, m, k)
		if r.kind == "Forget" && k != r.given {
			r.rep("C15", st, "forget-other", in, "Forget removes something other than the source it is given")
		}
		st.addTo("changes", tupleOf(okT, prior, TNil, k))
	}
	e.h.Store = func(st *State, addr, val *Term, in ssa.Instruction) {
		o, f, base := fieldAddrOf(addr)
		if o == nil || !sameNamed(o, r.t) || base != r.self {
			return
		}
		if f == r.s.Field(r.mapF).Name() {
			r.rep(r.prop, st, "map-replaced", in, "the map of known sources is replaced")
			return
		}
		if r.queueF < 0 || f != r.s.Field(r.queueF).Name() || consumer(st) {
			return
		}
		r.ob("C14")
		cur := r.queue(st)
		if val.op != OAppend || val.a[0] != cur && !(cur.op == OAppend && val.a[0] == cur.a[0] && len(val.a) > len(cur.a)) {
			if val == TNil || val.op == OSlice || r.kind == "Run" {
				// the delivering goroutine, looked at on its own
				if r.kind == "Run" && st.thread != fn.String() {
					st.setFlag("consumer", true)
					return
				}
			}
			r.rep("C14", st, "queue", in, "the queue of events is changed to something other than what it was with more at the end")
			return
		}
		if !st.holdsLockOf(base) {
			r.rep("C14", st, "queue", in, "an event is appended without the lock")
		}
		n := 1
		if cur.op == OAppend && val.a[0] == cur.a[0] {
			n = len(cur.a)
		}
		for _, ev := range val.a[n:] {
			st.addTo("events", ev)
		}
		if !st.flag("woke") {
			st.setFlag("asleep", true)
		}
	}
	section := func(st *State, in ssa.Instruction) {
		changes, events := st.list("changes"), st.list("events")
		st.setList("changes", nil)
		st.setList("events", nil)
		if len(changes) == 0 && len(events) == 0 {
			return
		}
		r.ob("C14")
		final := map[*Term][]*Term{}
		var want [][2]*Term
		for _, c := range changes {
			okT, prior, v, k := st.evalBool(c.a[0]), c.a[1], c.a[2], c.a[3]
			if v != TNil {
				final[k] = append(final[k], v)
			}
			switch {
			case okT != TTrue && okT != TFalse:
				if v == TNil && len(events) == 0 || v != TNil && len(events) == 0 {
					r.rep("C14", st, "unannounced", in, "a source is %s without it being known whether that changes the known sources, and nothing is announced", map[bool]string{true: "removed", false: "recorded"}[v == TNil])
				} else {
					r.rep("C14", st, "announced", in, "an event is announced without it being known whether the known sources changed")
				}
				return
			case okT == TFalse && v != TNil:
				want = append(want, [2]*Term{TTrue, k})
				st.setFlag("was-new", true)
			case okT == TTrue && v == TNil:
				want = append(want, [2]*Term{TFalse, prior})
				st.setFlag("was-known", true)
			}
		}
		if len(want) > len(events) {
			r.rep("C14", st, "unannounced", in, "a source %s but nothing is announced in the same critical section", map[bool]string{true: "becomes known", false: "is forgotten"}[want[len(events)][0] == TTrue])
			return
		}
		if len(want) < len(events) {
			r.rep("C14", st, "announced", in, "%d events are announced for %d changes of the known sources", len(events), len(want))
			return
		}
		es := structOf(r.evT)
		for i, w := range want {
			isNew := w[0] == TTrue
			src := mkField(events[i], r.evInfo, es)
			if isNew && !inTerms(final[w[1]], src) || !isNew && src != w[1] {
				r.rep("C14", st, "event-source", in, "the announced source is %s, not the one recorded", src)
			}
			kind := map[int]*Term{}
			for j := 0; j < es.NumFields(); j++ {
				if v := mkField(events[i], j, es); j != r.evInfo && (v.isConst() || v == TTrue || v == TFalse || v == TNil) {
					kind[j] = v
				}
			}
			if old := r.kinds[isNew]; old == nil {
				r.kinds[isNew] = kind
			} else {
				for j, v := range old {
					if kind[j] != v {
						delete(old, j)
					}
				}
			}
		}
	}
	e.h.Unlock = func(st *State, mu *Term, write bool, in ssa.Instruction) {
		st.setFlag("woke", false)
		r.stale(st)
		held := 0
		for m, n := range st.locks {
			if n != 0 && m != mu {
				held++
			}
		}
		if held == 0 {
			section(st, in)
		}
	}
	asleep := func(st *State, in ssa.Instruction) {
		if st.flag("asleep") {
			st.setFlag("asleep", false)
			r.rep("C14", st, "not-woken", in, "an event was appended but the delivering goroutine is not woken")
		}
	}
	e.h.Block = func(st *State, ops []ChanOp, hasDefault bool, in ssa.Instruction) bool {
		for _, op := range ops {
			if op.send && r.isWake(op.ch) && hasDefault {
				r.ob("C14")
				st.setFlag("asleep", false)
				st.setFlag("woke", anyLock(st) != nil)
				return true
			}
		}
		if !hasDefault {
			r.ob("C14")
			asleep(st, in)
			if !background {
				r.rep("C14", st, "blocks", in, "%s waits on a channel", r.kind)
			}
			if anyLock(st) != nil {
				r.rep("C14", st, "blocks", in, "the discovery's lock is held while waiting: its operations block")
			}
		}
		return true
	}
	e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
		if o, done := hookNow(st, c); done {
			return o, done
		}
		if c.name == "func" && c.fnval != nil && !consumer(st) {
			if (hands == nil || !contains(c.fnval, hands)) && c.fnval.op != OCancel {
				r.rep("C14", st, "handler", c.instr, "%s calls %s: a slow handler blocks it", r.kind, c.fnval)
			} else if anyLock(st) != nil {
				r.rep("C14", st, "handler", c.instr, "a handler is called while the lock is held")
			} else if st.thread == fn.String() {
				r.rep("C14", st, "handler", c.instr, "%s calls a handler itself: a slow handler keeps beacons from being noticed", r.kind)
			}
		}
		if r.kind == "Run" {
			if o, done := r.receive(st, c); done {
				return o, done
			}
		}
		switch c.name {
		case "(*sync/atomic.Pointer).Load":
			v := st.sym("seen", c.instr, c.ctx, 0, c.res.At(0).Type())
			symSites[v] = symSite{c.instr, c.ctx}
			return []Outcome{{res: []*Term{v}}}, true
		}
		return nil, false
	}
	e.h.LoopBack = func(st *State, l *LoopEv) {
		if l.st.mode == 3 {
			asleep(st, l.loop.header.Instrs[0])
			st.setList("nows", nil)
			st.setFlag("was-new", false)
			st.setFlag("was-known", false)
		}
	}
	e.h.Exit = func(st *State, res []*Term) {
		section(st, nil)
		asleep(st, nil)
		if st.thread != fn.String() {
			return
		}
		r.results(st, res)
		if r.kind == "Run" {
			r.settleBeacon(st, nil, true)
		}
	}
	root := e.addRoot(nil, fn, nil, nil)
	r.self = root.top().env[fn.Params[0]]
	r.given = nil
	for _, pr := range fn.Params[1:] {
		if types.Identical(pr.Type(), r.infoT) || isStringType(pr.Type()) {
			r.given = root.top().env[pr]
		}
		if hs := structOf(pr.Type()); hs != nil {
			for i := 0; i < hs.NumFields(); i++ {
				if _, ok := hs.Field(i).Type().Underlying().(*types.Signature); ok {
					hands = root.top().env[pr]
				}
			}
		}
	}
	r.a.explore(e)
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

func (r *discRun) isWake(ch *Term) bool {
	o, f, _ := fieldLoad(ch)
	if o == nil || !sameNamed(o, r.t) {
		return false
	}
	for i := range r.wakeF {
		if r.s.Field(i).Name() == f {
			return true
		}
	}
	return false
}

// stored checks what is recorded for a source.
func (r *discRun) stored(st *State, okT, prior, k, v *Term, in ssa.Instruction) {
	if r.prop != "C15" {
		return
	}
	if id := r.infoField(v, "ID"); id == nil || id != k && !(st.evalBool(okT) == TTrue && id == r.infoField(prior, "ID")) && !st.knownTrue(mkEq(id, k)) {
		r.rep("C15", st, "key", in, "a source is recorded under %s although its identity is %s", k, id)
	}
	seen := r.infoField(v, "LastSeen")
	isNow := inTerms(st.list("nows"), seen)
	for _, b := range st.list("decoded") {
		if k == fieldNamed(b, structOf(b.t), "Identity") {
			st.setFlag("observed", true)
			if !isNow {
				r.rep("C15", st, "last-seen", in, "the time last seen is set to %s, which is not the time read while the lock was held", seen)
			}
		}
	}
	switch st.evalBool(okT) {
	case TTrue:
		for i := 0; i < r.is.NumFields(); i++ {
			n := r.is.Field(i).Name()
			nv, ov := mkField(v, i, r.is), mkField(prior, i, r.is)
			if n != "LastSeen" {
				if nv != ov {
					r.rep("C15", st, "changed", in, "the %s recorded for a known source is changed to %s", n, nv)
				}
				continue
			}
			if nv == ov || isNow || st.after(nv, ov) == TTrue || st.after(ov, nv) == TFalse {
				continue
			}
			r.rep("C15", st, "last-seen", in, "the time last seen may move backwards: %s is neither the current time read while the lock was held nor known to be later", nv)
		}
	case TFalse:
		switch r.kind {
		case "Add":
			if v != r.given {
				r.rep("C15", st, "added", in, "what is recorded is not the source given")
			}
		case "Run":
			b := st.get("beacon")
			if b == nil {
				r.rep("C15", st, "unasked", in, "a source becomes known without a beacon")
				return
			}
			bs := structOf(b.t)
			for to, from := range map[string]string{"ID": "Identity", "Version": "Version", "Type": "SourceType", "Address": "Address", "Direct": "Direct"} {
				want, got := fieldNamed(b, bs, from), r.infoField(v, to)
				if want == nil || got == nil || stripWide(got) != stripWide(want) {
					r.rep("C15", st, "beacon", in, "the %s recorded for a new source is %s, not the %s of its beacon", to, got, from)
				}
			}
		default:
			r.rep("C15", st, "unasked", in, "a source becomes known through %s", r.kind)
		}
	default:
		r.rep("C15", st, "unasked", in, "a source is recorded without knowing whether it is known")
	}
}

// stale: the beacon is not news of its source.
func (r *discRun) stale(st *State) {
	for _, b := range st.list("decoded") {
		id := fieldNamed(b, structOf(b.t), "Identity")
		m := st.peek(mkFieldAddr(r.self, r.mapF, r.s), r.s.Field(r.mapF).Type())
		if id == nil {
			continue
		}
		ok, cur, _ := r.entry(st, m, id)
		if st.evalBool(ok) != TTrue {
			continue
		}
		for _, now := range st.list("nows") {
			if st.after(now, r.infoField(cur, "LastSeen")) == TFalse {
				st.setFlag("observed", true)
			}
		}
	}
}

// receive follows the messages of Run.
func (r *discRun) receive(st *State, c *Call) ([]Outcome, bool) {
	e := r.e
	if c.method != nil && c.recv != nil && c.res.Len() == 2 && isAmqp(derefType(c.res.At(0).Type()), "Message") {
		r.settleBeacon(st, c.instr, false)
		if r.prop == "C14" {
			r.ob("C14")
			if n := st.num("goroutines"); n != 0 {
				_ = n
			}
		}
		return okOrErr(e, st, c, func(s *State, v *Term) { s.set("msg", v) }), true
	}
	if c.method != nil && c.method.Name() == "Accept" && len(c.args) == 2 {
		if st.get("msg") == c.args[1] {
			st.setNum("accepts", min(st.num("accepts")+1, 2))
		}
		outs := okOrErr(e, st, c, nil)
		f := outs[1].mod
		outs[1].mod = func(s *State) bool {
			s.setFlag("acceptfailed", true)
			return f(s)
		}
		return outs, true
	}
	if c.fn != nil && pkgPath(c.fn) == modPath && len(c.args) == 1 && isAmqp(derefType(c.args[0].t), "Message") {
		if c.args[0] != st.get("msg") {
			r.rep("C15", st, "other-message", c.instr, "something other than the received message is decoded")
		}
		note := func(s *State, v *Term) {
			if isIfaceType(v.t) {
				v = intern(OTA, shortType(r.bcnT), 0, 0, r.bcnT, nil, nil, v)
			}
			s.addTo("decoded", v)
			s.set("beacon", v)
		}
		if c.res.Len() == 2 {
			outs := okOrErr(e, st, c, note)
			f := outs[1].mod
			outs[1].mod = func(s *State) bool {
				s.setFlag("notbeacon", true)
				return f(s)
			}
			return outs, true
		}
		if c.res.Len() == 1 {
			rs := e.freshRes(st, c)
			return []Outcome{{res: rs, mod: func(s *State) bool { note(s, rs[0]); return true }}}, true
		}
	}
	return nil, false
}

// settleBeacon: what became of the last message.
func (r *discRun) settleBeacon(st *State, in ssa.Instruction, ending bool) {
	m := st.get("msg")
	observed, af, nb, acc := st.flag("observed"), st.flag("acceptfailed"), st.flag("notbeacon"), st.num("accepts")
	d := st.list("decoded")
	st.set("msg", nil)
	st.set("beacon", nil)
	st.setList("decoded", nil)
	st.setFlag("observed", false)
	st.setFlag("acceptfailed", false)
	st.setFlag("notbeacon", false)
	st.setNum("accepts", 0)
	if m == nil || ending && ctxDone(st) {
		return
	}
	r.ob("C15")
	if acc != 1 {
		r.rep("C15", st, "accept", in, "a received message is accepted %d times", acc)
	}
	if observed || af || nb {
		return
	}
	for _, b := range d {
		if b.op == OTA && st.knownFalse(mkTAOk(b.a[0], b.t)) {
			return
		}
	}
	if len(d) == 0 {
		// not a beacon?
		ms := structOf(derefType(m.t))
		for i := 0; ms != nil && i < ms.NumFields(); i++ {
			if ms.Field(i).Name() != "Properties" {
				continue
			}
			pr := st.peek(mkFieldAddr(m, i, ms), ms.Field(i).Type())
			if st.knownNil(pr) {
				return
			}
			ps := structOf(derefType(pr.t))
			for j := 0; ps != nil && j < ps.NumFields(); j++ {
				if ps.Field(j).Name() != "Subject" {
					continue
				}
				sub := st.peek(mkFieldAddr(pr, j, ps), ps.Field(j).Type())
				if st.knownNil(sub) || st.knownFalse(mkEq(st.peek(sub, derefType(sub.t)), mkStr("BEACON"))) {
					return
				}
			}
		}
	}
	r.rep("C15", st, "beacon-lost", in, "a message that may be a beacon is passed over without recording its source")
}

// results checks what an operation returns.
func (r *discRun) results(st *State, res []*Term) {
	m := st.peek(mkFieldAddr(r.self, r.mapF, r.s), r.s.Field(r.mapF).Type())
	switch r.kind {
	case "Add", "Forget":
		r.ob("C14")
		if len(res) != 1 {
			return
		}
		want := st.flag("was-new")
		if r.kind == "Forget" {
			want = st.flag("was-known")
		}
		if st.evalBool(res[0]) != boolTerm(want) {
			r.rep("C14", st, "result", nil, "%s returns %s although the source was %s", r.kind, st.evalBool(res[0]), map[bool]string{true: "added or removed", false: "neither added nor removed"}[want])
		}
	case "Get":
		r.ob("C15")
		if len(res) != 2 {
			return
		}
		ok := st.evalBool(res[1])
		if ok == mkLookupOk(m, r.given) && res[0] == mkLookup(m, r.given, r.mapElem()) {
			return
		}
		switch cur := st.mapGet(m, r.given, r.mapElem()); {
		case cur == TAbs && ok == TFalse:
		case cur != nil && cur != TAbs && ok == TTrue && res[0] == cur:
		default:
			r.rep("C15", st, "get", nil, "Get returns %s, %s where the entry stored under the identity is %v", res[0], ok, cur)
		}
	case "List":
		r.ob("C15")
		if len(res) != 1 {
			return
		}
		none := st.knownTrue(mkEq(st.mapLen(m), mkInt(0)))
		if none && (res[0] == TNil || st.knownTrue(mkEq(mkLen(res[0]), mkInt(0)))) {
			return
		}
		if s := res[0]; isSeq(s) && s.s == "seq:all" && st.knownTrue(mkEq(mkLen(s.a[0]), mkInt(0))) {
			b := seqBound(s)
			if b.op == OCall && b.s == "keys" && b.a[0] == m && strip(s.a[2]) == mkLookup(m, mkBeta(s.a[1]), r.mapElem()) {
				return
			}
		}
		r.rep("C15", st, "list", nil, "List is not known to return one element for each known source: %s", res[0])
	}
}

// consumer explores Run and the goroutine that delivers events.
func (r *discRun) consumer(run *ssa.Function) {
	stops := map[*Term]bool{} // channels that Run closes when it returns
	r.consume(run, stops, false)
	r.consume(run, stops, true)
}

func (r *discRun) consume(run *ssa.Function, stops map[*Term]bool, last bool) {
	e := newEngine(r.p)
	followOnly(e, "eventsource")
	r.e, r.fn, r.kind = e, run, "Run"
	var hands *Term
	handler := func(fv *Term) string {
		if fv == nil || hands == nil {
			return ""
		}
		if fv.op == OField && fv.a[0] == hands {
			return fv.s
		}
		if o, f, _ := fieldLoad(fv); o != nil && sameNamed(o, hands.t) {
			return f
		}
		return ""
	}
	hs := (*types.Struct)(nil)
	for _, pr := range run.Params {
		if x := structOf(pr.Type()); x != nil {
			for i := 0; i < x.NumFields(); i++ {
				if _, ok := x.Field(i).Type().Underlying().(*types.Signature); ok {
					hs = x
				}
			}
		}
	}
	if !r.a.anchor(hs != nil, "the handlers given to Run") {
		return
	}
	es := structOf(r.evT)
	could := func(st *State, ev *Term, isNew bool) bool {
		for j, v := range r.kinds[isNew] {
			if st.knownFalse(mkEq(mkField(ev, j, es), v)) {
				return false
			}
			f := mkField(ev, j, es)
			if isBoolType(f.t) && st.evalBool(f) != f && st.evalBool(f) != v {
				return false
			}
		}
		return true
	}
	names := map[bool]string{true: "Discovered", false: "Forgotten"}
	settleEv := func(st *State, ev *Term, in ssa.Instruction) {
		r.ob("C14")
		for _, isNew := range []bool{true, false} {
			n := st.num("called:" + names[isNew])
			st.setNum("called:"+names[isNew], 0)
			is, other := could(st, ev, isNew), could(st, ev, !isNew)
			h := fieldNamed(hands, hs, names[isNew])
			switch {
			case !is && n > 0:
				e.report(st, "wrong-handler", in, "an event is handed to %s although it is of the other kind", names[isNew])
			case n > 1:
				e.report(st, "twice", in, "%s is called %d times for one event", names[isNew], n)
			case is && other && n > 0:
				e.report(st, "wrong-handler", in, "an event is handed to %s without looking at its kind", names[isNew])
			case is && n == 0 && !ctxDone(st) && !(h != nil && st.knownNil(h)):
				e.report(st, "undelivered", in, "an event is taken from the queue but not handed to %s", names[isNew])
			}
		}
	}
	settle := func(st *State, in ssa.Instruction) {
		if ev := st.get("event"); ev != nil {
			st.set("event", nil)
			settleEv(st, ev, in)
		}
	}
	batchLoop := func(st *State, l *loopSt) bool {
		b := st.get("batch")
		return b != nil && l.mode == 1 && l.bound == mkLen(b)
	}
	current := func(st *State) *Term {
		if ev := st.get("event"); ev != nil {
			return ev
		}
		b := st.get("batch")
		if b == nil {
			return nil
		}
		for _, fr := range st.frames {
			for i := range fr.loops {
				if l := &fr.loops[i]; batchLoop(st, l) && l.idx != nil {
					return st.loadElem(b, l.idx, r.evT)
				}
			}
		}
		return nil
	}
	e.h.Store = func(st *State, addr, val *Term, in ssa.Instruction) {
		o, f, base := fieldAddrOf(addr)
		if o == nil || !sameNamed(o, r.t) || f != r.s.Field(r.queueF).Name() {
			return
		}
		cur := r.queue(st)
		if val.op == OAppend && (val.a[0] == cur || cur.op == OAppend && val.a[0] == cur.a[0]) {
			return // a producer
		}
		r.ob("C14")
		if !st.holdsLockOf(base) {
			e.report(st, "queue", in, "events are taken without the lock")
		}
		settle(st, in)
		if st.get("batch") != nil {
			e.report(st, "undelivered", in, "more events are taken before those taken earlier are all handed on")
		}
		switch {
		case val.op == OSlice && val.a[0] == cur && val.a[1] == mkInt(1) && (val.a[2] == TNil || val.a[2] == mkLen(cur)):
			if st.knownTrue(mkEq(mkLen(cur), mkInt(0))) {
				return
			}
			st.set("event", st.loadElem(cur, mkInt(0), r.evT))
		case val == TNil || st.knownNil(val) || st.knownTrue(mkEq(mkLen(val), mkInt(0))):
			if st.knownTrue(mkEq(mkLen(cur), mkInt(0))) {
				return
			}
			if val.op == OSlice && val.a[0] == cur {
				e.report(st, "queue", in, "the queue keeps the memory of the events that are about to be handed on")
			}
			st.set("batch", cur)
		default:
			e.report(st, "queue", in, "the queue is changed to something other than what remains after its first event")
		}
	}
	e.h.Lock = func(st *State, mu *Term, write bool, in ssa.Instruction) {
		st.setFlag("empty", false)
		st.setFlag("stale", st.get("batch") != nil)
	}
	// nothing was taken
	noBatch := func(st *State) {
		b := st.get("batch")
		if b != nil && (b == TNil || st.knownNil(b) || st.knownTrue(mkEq(mkLen(b), mkInt(0)))) {
			st.set("batch", nil)
			if !st.flag("stale") {
				st.setFlag("empty", true)
			}
		}
	}
	e.h.Unlock = func(st *State, mu *Term, write bool, in ssa.Instruction) {
		q := r.queue(st)
		if q == TNil || st.knownNil(q) || st.knownTrue(mkEq(mkLen(q), mkInt(0))) {
			st.setFlag("empty", true)
		}
	}
	e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
		if c.method != nil && c.recv != nil && c.res.Len() == 2 && isAmqp(derefType(c.res.At(0).Type()), "Message") && st.thread == run.String() {
			r.ob("C14")
			if st.flag("stopping") {
				e.report(st, "ends", c.instr, "beacons are received after the delivering goroutine was told to end")
			}
			if n := st.num("goroutines"); n != 1 {
				e.report(st, "start", c.instr, "%d goroutines deliver events while beacons are received", n)
			}
			return okOrErr(e, st, c, nil), true
		}
		if c.name != "func" {
			return nil, false
		}
		h := handler(c.fnval)
		if h == "" {
			return nil, false
		}
		r.ob("C14")
		if m := anyLock(st); m != nil {
			e.report(st, "handler-lock", c.instr, "%s is called while %s is held", h, m)
		}
		st.setFlag("empty", false)
		ev := current(st)
		if ev == nil {
			e.report(st, "handler", c.instr, "%s is called without an event taken from the queue", h)
			return nil, false
		}
		if len(c.args) != 1 || c.args[0] != mkField(ev, r.evInfo, es) {
			e.report(st, "handler-arg", c.instr, "%s is given %s, not the source of the event", h, c.args[0])
		}
		st.setNum("called:"+h, min(st.num("called:"+h)+1, 2))
		return nil, false
	}
	delivery := map[*ssa.Function]bool{}
	e.h.Go = func(st *State, c *Call) bool {
		if st.thread == run.String() {
			if c.fn != nil && r.takes(c.fn, 0) {
				delivery[c.fn] = true
				st.setNum("goroutines", min(st.num("goroutines")+1, 2))
			}
			return true
		}
		e.report(st, "async", c.instr, "the delivering goroutine starts another one: handlers may run out of order")
		return false
	}
	e.h.LoopIter = func(st *State, l *LoopEv) bool {
		if batchLoop(st, l.st) {
			for _, n := range names {
				st.setNum("called:"+n, 0)
			}
		}
		return true
	}
	e.h.LoopEnter = func(st *State, l *LoopEv) {
		if batchLoop(st, l.st) && !l.st.exact {
			e.report(st, "undelivered", l.loop.header.Instrs[0], "not all events taken are gone through")
		}
	}
	e.h.LoopBack = func(st *State, l *LoopEv) {
		in := l.loop.header.Instrs[0]
		if batchLoop(st, l.st) {
			if ev := current(st); ev != nil {
				settleEv(st, ev, in)
			}
			return
		}
		if l.st.mode == 3 {
			if st.num("called:Discovered")+st.num("called:Forgotten") > 0 {
				settle(st, in) // else it may have been taken for the next round
			}
			noBatch(st)
			if b := st.get("batch"); b != nil && !ctxDone(st) {
				e.report(st, "undelivered", in, "events taken from the queue are not handed on")
			}
			st.set("batch", nil)
		}
	}
	e.h.LoopDone = func(st *State, l *LoopEv) {
		if batchLoop(st, l.st) {
			st.set("batch", nil)
		}
	}
	e.h.LoopBreak = func(st *State, l *LoopEv) {
		if batchLoop(st, l.st) {
			if !ctxDone(st) {
				e.report(st, "undelivered", l.loop.header.Instrs[0], "the events taken are not all gone through")
			}
			st.set("batch", nil)
		}
	}
	waits := 0
	e.h.Block = func(st *State, ops []ChanOp, hasDefault bool, in ssa.Instruction) bool {
		if hasDefault || st.thread == run.String() || !delivery[threadFn(st)] {
			return true
		}
		waits++
		r.ob("C14")
		settle(st, in)
		noBatch(st)
		if st.get("batch") != nil {
			e.report(st, "undelivered", in, "waits before all events taken are handed on")
		}
		wake := false
		for _, op := range ops {
			if !op.send && r.isWake(op.ch) {
				wake = true
			}
			if !op.send && strings.HasPrefix(typeKey(op.ch.t), "<-chan time.") {
				wake = true
			}
		}
		if !wake {
			e.report(st, "sleep", in, "the delivering goroutine waits for something that appending an event does not end")
		} else if !st.flag("empty") && !ctxDone(st) && !st.flag("stopped") {
			e.report(st, "sleep", in, "the delivering goroutine waits for more events without having seen the queue empty: what is queued is delivered late or never")
		}
		st.setFlag("empty", false)
		return true
	}
	e.h.Exit = func(st *State, res []*Term) {
		if st.thread == run.String() || !delivery[threadFn(st)] {
			return
		}
		r.ob("C14")
		if !ctxDone(st) && !st.flag("stopped") {
			e.report(st, "ends", nil, "the delivering goroutine ends although its context is not finished")
		}
	}
	e.h.Close = func(st *State, ch *Term, in ssa.Instruction) {
		if st.thread == run.String() {
			stops[ch] = true
			st.setFlag("stopping", true)
		}
	}
	e.h.Chan = func(st *State, op ChanOp, in ssa.Instruction) {
		if !op.send && stops[op.ch] && delivery[threadFn(st)] {
			st.setFlag("stopped", true)
		}
	}
	root := e.addRoot(nil, run, nil, nil)
	r.self = root.top().env[run.Params[0]]
	for _, pr := range run.Params {
		if x := structOf(pr.Type()); x != nil && x == hs {
			hands = root.top().env[pr]
		}
	}
	if !last {
		e.run()
		return
	}
	r.a.explore(e)
	r.a.anchor(len(delivery) > 0 && waits > 0, "the goroutine delivering events")
	r.a.anchor(r.wakeBuffered(), "a buffered channel by which the delivering goroutine is woken")
}

// threadFn gives the function a thread runs.
func threadFn(st *State) *ssa.Function {
	if len(st.frames) > 0 {
		return st.frames[0].fn
	}
	return nil
}

// takes: the function takes events off the queue.
func (r *discRun) takes(fn *ssa.Function, depth int) bool {
	if depth > 4 || fn.Blocks == nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && sameNamed(fa.X.Type(), r.t) && fa.Field == r.queueF {
					if _, isCall := x.Val.(*ssa.Call); !isCall {
						return true
					}
				}
			case *ssa.Call:
				if f := x.Call.StaticCallee(); f != nil && pkgPath(f) == pkgPath(fn) && r.takes(f, depth+1) {
					return true
				}
			case *ssa.Defer:
				if f := x.Call.StaticCallee(); f != nil && pkgPath(f) == pkgPath(fn) && r.takes(f, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// wakeBuffered: the channels a discovery is made with hold at least one element.
func (r *discRun) wakeBuffered() bool {
	nd := r.p.fn("eventsource", "NewDiscovery")
	if nd == nil {
		return false
	}
	e := newEngine(r.p)
	followOnly(e, "eventsource")
	ok, n := true, 0
	e.h.Exit = func(st *State, res []*Term) {
		if len(res) != 1 {
			return
		}
		for i := range r.wakeF {
			ch := st.peek(mkFieldAddr(unwrapIface(res[0]), i, r.s), r.s.Field(i).Type())
			n++
			c := e.chanCap[ch]
			if c == nil {
				ok = false
				continue
			}
			if k, isInt := c.intVal(); !isInt || k < 1 {
				ok = false
			}
		}
	}
	e.addRoot(nil, nd, nil, nil)
	r.a.explore(e)
	return ok && n > 0
}
