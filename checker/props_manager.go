package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17", "dataflow of updates from the publisher's queue through batching and comparison to the messages sent, over every path",
		"Manager.Run, everything it starts and Manager.PublishUpdate are explored; every update taken from the queue is followed into the batch it is part of, through the comparison with the previous record attribute by attribute, into the message put together and to the sender",
		func(a *Analysis) { runManager(a, "C17") })
	register("C18", "typestate analysis of the flush loop: which store, which page, which entries have been sent",
		"Manager.Run and everything it starts is explored with stores that list any number of pages or fail; the store listed, its continue token and the entries of the page are followed from each flush request until the next one is taken",
		func(a *Analysis) { runManager(a, "C18") })
}

type mgrRun struct {
	a    *Analysis
	p    *Program
	prop string
	e    *Engine
	t    types.Type
	s    *types.Struct
	cfgF int // embedded configuration
	cs   *types.Struct
	updT types.Type
	us   *types.Struct
	msgT types.Type
	ms   *types.Struct
	recT types.Type
	self *Term
	run  *ssa.Function
	ctx  *Term
	// loops whose bound on what is taken holds only weakly, or not at all
	weak    map[*ssa.BasicBlock]int
	weakNew bool
	atEntry map[*Term]bool
	takers  map[*ssa.Function]bool
	senders map[*ssa.Function]bool
	gos     map[*ssa.Function]int
	sends   int
	lists   int
	diffs   int
}

func findManager(a *Analysis) *mgrRun {
	p := a.program()
	r := &mgrRun{a: a, p: p, t: p.typ("eventsource", "Manager"), updT: p.typ("eventsource", "RecordUpdate"), msgT: p.typ("", "RecordMessage"), recT: p.typ("", "Record"), cfgF: -1, weak: map[*ssa.BasicBlock]int{}, gos: map[*ssa.Function]int{}, takers: map[*ssa.Function]bool{}, senders: map[*ssa.Function]bool{}}
	ct := p.typ("eventsource", "ManagerConfig")
	if !a.anchor(r.t != nil && r.updT != nil && r.msgT != nil && r.recT != nil && ct != nil, "eventsource.Manager, ManagerConfig, RecordUpdate and RecordMessage") {
		return nil
	}
	r.s, r.cs, r.us, r.ms = structOf(r.t), structOf(ct), structOf(r.updT), structOf(r.msgT)
	for i := 0; r.s != nil && i < r.s.NumFields(); i++ {
		if types.Identical(derefType(r.s.Field(i).Type()), ct) {
			r.cfgF = i
		}
	}
	r.run = p.method(types.NewPointer(r.t), "Run")
	if !a.anchor(r.cfgF >= 0 && r.cs != nil && r.us != nil && r.ms != nil && r.run != nil, "the manager's configuration and Manager.Run") {
		return nil
	}
	return r
}

// cfg gives a field of the manager's configuration.
func (r *mgrRun) cfg(st *State, name string) *Term {
	base := mkFieldAddr(r.self, r.cfgF, r.s)
	if isPtr(r.s.Field(r.cfgF).Type()) {
		base = st.peek(base, r.s.Field(r.cfgF).Type())
	}
	for i := 0; i < r.cs.NumFields(); i++ {
		if r.cs.Field(i).Name() == name {
			return st.peek(mkFieldAddr(base, i, r.cs), r.cs.Field(i).Type())
		}
	}
	return nil
}

// queueOf tells which of the manager's channels a channel is, by its element type.
func (r *mgrRun) queueOf(ch *Term) string {
	o, _, base := fieldLoad(ch)
	if o == nil || !sameNamed(o, r.t) || base != r.self {
		return ""
	}
	switch el := chanElem(ch.t); {
	case el == nil:
	case types.Identical(el, r.updT):
		return "updates"
	case types.Identical(derefType(el), r.msgT):
		return "messages"
	case structOf(el) != nil && structOf(el).NumFields() == 0:
		return "flushes"
	}
	return ""
}

// touches: does the function, or what it calls in this package, use the queues
// the property is about?
func (r *mgrRun) touches(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if fn == nil || seen[fn] || pkgPath(fn) != modPath+"/eventsource" {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			var f *types.Var
			switch x := in.(type) {
			case *ssa.FieldAddr:
				if s := structOf(derefType(x.X.Type())); s != nil {
					f = s.Field(x.Field)
				}
			case *ssa.Field:
				if s := structOf(x.X.Type()); s != nil {
					f = s.Field(x.Field)
				}
			case *ssa.MakeClosure:
				if r.touches(x.Fn.(*ssa.Function), seen) {
					return true
				}
			}
			if f != nil && r.ownField(f) {
				if el := chanElem(f.Type()); el != nil {
					isUpd := types.Identical(el, r.updT)
					isMsg := types.Identical(derefType(el), r.msgT)
					if r.prop != "C18" && (isUpd || isMsg) || r.prop == "C18" && !isUpd && !isMsg {
						return true
					}
				}
			}
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok && r.touches(g, seen) {
					return true
				}
			}
		}
	}
	return false
}

func (r *mgrRun) ownField(f *types.Var) bool {
	for i := 0; i < r.s.NumFields(); i++ {
		if r.s.Field(i) == f {
			return true
		}
	}
	return false
}

// about: is the function given stores, pages, selectors or queues?
func (r *mgrRun) about(fn *ssa.Function) bool {
	sig := fn.Signature
	for _, tup := range []*types.Tuple{sig.Params(), sig.Results()} {
		for i := 0; i < tup.Len(); i++ {
			t := tup.At(i).Type()
			if el := chanElem(t); el != nil {
				return true
			}
			for {
				if s, ok := t.Underlying().(*types.Slice); ok {
					t = s.Elem()
					continue
				}
				break
			}
			if n, ok := derefType(t).(*types.Named); ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == modPath+"/store" || types.Identical(n, r.msgT) || types.Identical(n, r.t)) {
				return true
			}
		}
	}
	return false
}

// outermost: the loop a thread's function runs for ever.
func outermost(st *State, l *LoopEv) bool {
	for _, fr := range st.frames {
		if len(fr.loops) > 0 {
			return &fr.loops[0] == l.st || fr.loops[0].loop == l.loop && fr == l.fr
		}
	}
	return false
}

// parts lists what a slice is put together from, those of held as a whole.
func (st *State) parts(t *Term, held []*Term) []*Term {
	if t == TNil || st.knownNil(t) && isSliceOrMap(t.t) {
		return nil
	}
	if inTerms(held, t) {
		return []*Term{t}
	}
	if isSliceOrMap(t.t) && st.knownTrue(mkEq(mkLen(t), mkInt(0))) {
		return nil
	}
	switch t.op {
	case OAppend:
		return append(st.parts(t.a[0], held), t.a[1:]...)
	case OAppendSlice:
		return append(st.parts(t.a[0], held), st.parts(t.a[1], held)...)
	}
	if el, ok := st.sliceElems(t); ok {
		return el
	}
	return []*Term{t}
}

// replaceRun replaces a run of consecutive elements.
func replaceRun(l, run []*Term, by *Term) ([]*Term, bool) {
	if len(run) == 0 {
		return l, false
	}
	for i := 0; i+len(run) <= len(l); i++ {
		if sameTerms(l[i:i+len(run)], run) {
			n := append([]*Term(nil), l[:i]...)
			if by != nil {
				n = append(n, by)
			}
			return append(n, l[i+len(run):]...), true
		}
	}
	return l, false
}

// nonEmpty leaves out slices known to be empty.
func (st *State) nonEmpty(l []*Term) []*Term {
	var out []*Term
	for _, x := range l {
		if isSliceOrMap(x.t) && x.op != OSym && (st.knownNil(x) || st.knownTrue(mkEq(mkLen(x), mkInt(0)))) {
			continue
		}
		out = append(out, x)
	}
	return out
}

func (r *mgrRun) isUpdates(t *Term) bool {
	s, ok := t.t.(*types.Slice)
	return t.t != nil && ok && types.Identical(s.Elem(), r.updT)
}

// total gives the number of updates held.
func (r *mgrRun) total(held []*Term) *Term {
	n := mkInt(0)
	k := int64(0)
	for _, h := range held {
		if h.t != nil && types.Identical(h.t, r.updT) {
			k++
		} else if i, ok := mkLen(h).intVal(); ok {
			k += i
		} else if n == mkInt(0) {
			n = mkLen(h)
		} else {
			n = mkAdd(n, mkLen(h))
		}
	}
	return mkAddK(n, k)
}

func runManager(a *Analysis, prop string) {
	r := findManager(a)
	if r == nil {
		return
	}
	r.prop = prop
	if prop == "C17" {
		a.rule("every update taken from the queue becomes part of exactly one batch, in the order taken, and a batch holds at most the configured number (one if none is configured)")
		a.rule("each update of a batch without a previous record contributes the current record; with one it contributes nothing if no attribute differs or one of the records can not be encoded, and otherwise the record decoded from the attributes that are new or differ and those that identify it")
		a.rule("what the updates of a batch contribute is sent, in their order, in messages that are not changed afterwards; each message is encoded and sent once, in order, to the source's address")
		a.rule("PublishUpdate puts its update into the queue, exactly once, and exactly one goroutine takes updates")
	} else {
		a.rule("after a flush request is taken every store configured is listed, each from its beginning with the configured limit and no other restriction, each further page with the token of the one before, until a page has no token or listing fails")
		a.rule("a page with entries is followed by exactly one message holding the record of every entry, before the next page is listed")
		a.rule("a request taken after listing began is answered by listing again; the goroutine ends only with its context")
	}
	for pass := 0; pass < 4; pass++ {
		r.weakNew = false
		e := r.engine()
		if pass < 3 {
			e.run()
			if r.weakNew {
				continue
			}
		}
		r.takers, r.senders, r.gos, r.sends, r.lists, r.diffs = map[*ssa.Function]bool{}, map[*ssa.Function]bool{}, map[*ssa.Function]int{}, 0, 0, 0
		e = r.engine()
		a.explore(e)
		break
	}
	if prop == "C18" {
		a.anchor(r.lists > 0, "the listing of stores after a flush request")
		return
	}
	for _, k := range []struct {
		what string
		by   map[*ssa.Function]bool
	}{{"updates", r.takers}, {"messages", r.senders}} {
		for fn := range k.by {
			if fn != r.run && r.gos[fn] != 1 || fn == r.run && r.gos[fn] > 0 {
				a.violate(r.p, "takers", fn.Pos(), fn.String(), "several goroutines take %s from the queue: their order is lost", k.what)
			}
		}
		if a.anchor(len(k.by) > 0, "a goroutine that takes "+k.what+" from the queue") && len(k.by) > 1 {
			a.violate(r.p, "takers", r.run.Pos(), r.run.String(), "several goroutines take %s from the queue: their order is lost", k.what)
		}
	}
	a.anchor(r.diffs > 0, "the comparison of the attributes of two records")
	a.anchor(r.sends > 0, "the goroutine that sends messages")
	r.publish()
}

// publish explores PublishUpdate.
func (r *mgrRun) publish() {
	fn := r.p.method(types.NewPointer(r.t), "PublishUpdate")
	if !r.a.anchor(fn != nil && len(fn.Params) == 2, "Manager.PublishUpdate") {
		return
	}
	e := newEngine(r.p)
	followOnly(e, "eventsource")
	var upd *Term
	e.h.Go = func(st *State, c *Call) bool {
		e.report(st, "publish", c.instr, "updates are put into the queue from another goroutine: their order is lost")
		return false
	}
	e.h.Chan = func(st *State, op ChanOp, in ssa.Instruction) {
		if op.send && r.queueOf(op.ch) == "updates" {
			r.a.count("obligations checked", 1)
			if op.val != upd {
				e.report(st, "publish", in, "%s is published, not the update given", op.val)
			}
			st.setNum("put", min(st.num("put")+1, 2))
		}
	}
	e.h.Exit = func(st *State, res []*Term) {
		r.a.count("obligations checked", 1)
		if n := st.num("put"); n != 1 {
			e.report(st, "publish", nil, "the update given is put into the queue %d times", n)
		}
	}
	root := e.addRoot(nil, fn, nil, nil)
	r.self, upd = root.top().env[fn.Params[0]], root.top().env[fn.Params[1]]
	r.a.explore(e)
}

func (r *mgrRun) rep(prop string, st *State, rule string, in ssa.Instruction, f string, args ...any) {
	if prop == "C18" && ctxDone(st) {
		return // nothing is promised once the context has ended
	}
	if prop == r.prop {
		r.e.report(st, rule, in, f, args...)
	}
}

func (r *mgrRun) ob(prop string) {
	if prop == r.prop {
		r.a.count("obligations checked", 1)
	}
}

func (r *mgrRun) engine() *Engine {
	e := newEngine(r.p)
	followOnly(e, "eventsource")
	e.unroll = 0
	r.e = e
	hdr := func(l *LoopEv) ssa.Instruction { return l.loop.header.Instrs[0] }
	batch := func(st *State, l *loopSt) bool {
		b := st.get("batch")
		return b != nil && l.mode == 1 && l.bound == mkLen(b)
	}
	diffLoop := func(st *State, l *loopSt) bool {
		return l.mode == 2 && l.coll != nil && l.coll == st.get("currMap")
	}
	storesLoop := func(st *State, l *loopSt) bool {
		if l.mode != 1 || l.bound == nil {
			return false
		}
		s := r.cfg(st, "Stores")
		return l.bound == mkLen(s) && l.init == mkInt(0)
	}
	// the update being looked at
	current := func(st *State) *Term {
		if st.get("batch") != nil {
			for _, fr := range st.frames {
				for i := range fr.loops {
					if l := &fr.loops[i]; batch(st, l) && l.idx != nil {
						return st.loadElem(st.get("batch"), l.idx, r.updT)
					}
				}
			}
			return nil
		}
		if h := st.list("held"); len(h) > 0 && h[0].t != nil && types.Identical(h[0].t, r.updT) {
			return h[0]
		}
		return nil
	}
	tooMany := func(st *State, held []*Term) bool {
		n, max := r.total(held), r.cfg(st, "UpdateBatchSize")
		if k, ok := n.intVal(); ok && k <= 1 {
			return false
		}
		return !st.atMost(n, max)
	}
	// what became of an update
	settle := func(st *State, u *Term, in ssa.Instruction) {
		r.ob("C17")
		out := st.list("emitted")
		encErr, decErr, compared, differs := st.flag("encErr"), st.flag("decErr"), st.flag("compared"), st.flag("differs")
		decoded := st.get("decoded")
		for _, f := range []string{"encErr", "decErr", "compared", "differs"} {
			st.setFlag(f, false)
		}
		for _, f := range []string{"decoded", "delta", "prevMap", "currMap"} {
			st.set(f, nil)
		}
		st.setList("emitted", nil)
		prev, curr := fieldNamed(u, r.us, "Prev"), fieldNamed(u, r.us, "Curr")
		if prev == nil || curr == nil {
			r.rep("C17", st, "update", in, "updates have no previous and current record")
			return
		}
		is := func(got, want *Term) bool {
			return got == want || want != nil && got.op == OTA && got.a[0] == want || want != nil && strip(got) == strip(want)
		}
		switch {
		case len(out) > 1:
			r.rep("C17", st, "twice", in, "an update contributes %d records", len(out))
		case st.knownNil(prev):
			if len(out) == 0 {
				r.rep("C17", st, "not-sent", in, "an update without a previous record contributes nothing")
			} else if !is(out[0], curr) {
				r.rep("C17", st, "not-current", in, "an update without a previous record contributes %s, not the current record", out[0])
			}
		case !st.knownNonNil(prev):
			r.rep("C17", st, "not-compared", in, "what an update contributes does not depend on whether it has a previous record")
		case encErr || decErr || decoded != nil && st.knownFalse(mkTAOk(decoded, r.recT)):
			if len(out) > 0 {
				r.rep("C17", st, "error", in, "an update whose records can not be compared contributes %s", out[0])
			}
		case !compared:
			r.rep("C17", st, "not-compared", in, "the attributes of an update's previous and current record are not all compared")
		case differs && len(out) == 0:
			r.rep("C17", st, "not-sent", in, "an attribute of an update is new or differs but the update contributes nothing")
		case differs && !is(out[0], decoded):
			r.rep("C17", st, "not-delta", in, "an update contributes %s, not the record made of the attributes that differ", out[0])
		case !differs && len(out) > 0:
			r.rep("C17", st, "no-change", in, "an update whose attributes are all the same contributes %s", out[0])
		}
	}
	// the updates that were taken without a batch
	settleHeld := func(st *State, in ssa.Instruction) {
		held := st.nonEmpty(st.list("held"))
		st.setList("held", nil)
		if ctxDone(st) {
			for _, f := range []string{"encErr", "decErr", "compared", "differs"} {
				st.setFlag(f, false)
			}
			st.setList("emitted", nil)
			return
		}
		switch {
		case st.get("batch") != nil:
			r.rep("C17", st, "lost", in, "not all updates of a batch are gone through")
			st.set("batch", nil)
		case len(held) == 1 && held[0].t != nil && types.Identical(held[0].t, r.updT):
			settle(st, held[0], in)
		case len(held) > 0:
			r.rep("C17", st, "lost", in, "updates taken from the queue are not all gone through")
		}
		if out := st.nonEmpty(st.list("out")); len(out) > 0 {
			r.rep("C17", st, "lost", in, "records that updates contribute are not sent: %s", out[0])
		}
		st.setList("out", nil)
	}
	// flush: the store being listed is done, or has further pages
	advance := func(st *State, in ssa.Instruction) {
		if !st.flag("listed") {
			return
		}
		st.setFlag("listed", false)
		lo := st.get("restLo")
		cont := st.get("cont")
		next := func() {
			st.set("restLo", mkAddK(lo, 1))
			st.set("cont", nil)
		}
		if st.flag("listErr") {
			st.setFlag("listErr", false)
			next()
			return
		}
		switch st.evalBool(mkEq(cont, mkStr(""))) {
		case TTrue:
			next()
		case TFalse:
		default:
			if !ctxDone(st) {
				r.rep("C18", st, "pages", in, "it is not looked at whether the store has further pages")
			}
		}
	}
	unsent := func(st *State, in ssa.Instruction) {
		pg := st.get("page")
		st.set("page", nil)
		if pg == nil || ctxDone(st) || st.knownNil(pg) || st.knownTrue(mkEq(mkLen(pg), mkInt(0))) {
			return
		}
		r.rep("C18", st, "page-lost", in, "the entries of a page are not sent")
	}
	settleFlush := func(st *State, in ssa.Instruction) {
		owed, begun := st.flag("owed"), st.get("restLo") != nil

		if !owed && !begun {
			return
		}
		r.ob("C18")
		unsent(st, in)
		advance(st, in)
		lo, cont := st.get("restLo"), st.get("cont")
		st.setFlag("owed", false)
		st.set("restLo", nil)
		st.set("cont", nil)
		if ctxDone(st) {
			return
		}
		if begun && owed {
			r.rep("C18", st, "request", in, "a flush request that was taken while stores are being listed is not answered")
		}
		if lo == nil {
			lo = mkInt(0)
		}
		if cont != nil {
			r.rep("C18", st, "pages", in, "listing ends although the store has further pages")
			return
		}
		stores := r.cfg(st, "Stores")
		n := mkLen(stores)
		if st.atMost(n, lo) {
			return
		}
		r.rep("C18", st, "stores", in, "listing ends although there are further stores")
	}
	if r.prop == "C18" {
		// what has nothing to do with flushing need not be looked into
		e.h.Opaque = func(fn *ssa.Function) bool {
			return pkgPath(fn) == modPath+"/eventsource" && fn.Parent() == nil && fn != r.run && fn.Signature.Recv() == nil && len(fn.TypeArgs()) == 0 && !r.touches(fn, map[*ssa.Function]bool{}) && !r.about(fn)
		}
	}
	e.h.Go = func(st *State, c *Call) bool {
		if c.fn != nil {
			n := st.num("go:" + c.fn.String())
			st.setNum("go:"+c.fn.String(), min(n+1, 2))
			r.gos[c.fn] = max(r.gos[c.fn], min(n+1, 2))
			return r.touches(c.fn, map[*ssa.Function]bool{})
		}
		return true
	}
	e.h.Append = func(st *State, base *Term, el []*Term, in ssa.Instruction) {
		if st.num("sending") == 0 && base.t != nil && sentBase(st, base) != nil {
			r.rep(r.prop, st, "reused", in, "the records of a message that was already handed on are overwritten")
		}
		if st.get("page") != nil || current(st) == nil {
			return
		}
		if v, ok := in.(ssa.Value); !ok || !types.Identical(seqElemType(v.Type()), r.recT) {
			return
		}
		for _, x := range el {
			st.setList("emitted", append(append([]*Term(nil), st.list("emitted")...), x))
			st.setList("out", append(append([]*Term(nil), st.list("out")...), x))
		}
	}
	e.h.Store = func(st *State, addr, val *Term, in ssa.Instruction) {
		if addr.op == OIndexAddr && sentBase(st, addr.a[0]) != nil {
			r.rep(r.prop, st, "reused", in, "the records of a message that was already handed on are overwritten")
		}
	}
	e.h.MapUpdate = func(st *State, m, k, v *Term, in ssa.Instruction) {
		for i := range st.top().loops {
			l := &st.top().loops[i]
			if !diffLoop(st, l) || l.key != k {
				continue
			}
			r.ob("C17")
			if d := st.get("delta"); d != nil && d != m {
				r.rep("C17", st, "delta", in, "attributes are put into several sets")
			}
			if v != mkLookup(l.coll, k, v.t) && strip(v) != strip(mkLookup(l.coll, k, nil)) {
				if x := st.mapGet(l.coll, k, v.t); x != v {
					r.rep("C17", st, "delta", in, "the value put for a changed attribute is %s, not that of the current record", v)
				}
			}
			st.set("delta", m)
			st.setFlag("put", true)
		}
	}
	r.atEntry = map[*Term]bool{}
	e.h.LoopEnter = func(st *State, l *LoopEv) {
		if l.st.mode == 3 && outermost(st, l) {
			st.learnt(r.atEntry)
		}
		if l.st.mode == 1 && l.st.coll != nil && len(st.list("held")) > 0 && st.get("batch") == nil {
			held := st.nonEmpty(st.list("held"))
			if sameTerms(st.parts(l.st.coll, held), held) {
				r.ob("C17")
				if !l.st.exact {
					r.rep("C17", st, "lost", hdr(l), "not all updates of a batch are gone through")
				}
				if tooMany(st, held) {
					r.rep("C17", st, "batch-size", hdr(l), "a batch may hold more updates than configured")
				}
				st.set("batch", l.st.coll)
				return
			}
		}
		if len(st.list("held")) > 0 {
			n, lim := r.total(st.list("held")), r.cfg(st, "UpdateBatchSize")
			switch l.st.mode {
			case 1:
				st.set("taken@"+l.loop.header.String()+l.fr.fn.String(), n)
			case 3:
				if r.weak[l.loop.header] == 0 && !st.less(n, lim) {
					r.weaken(l, 1)
				}
				if r.weak[l.loop.header] == 1 && !st.atMost(n, lim) {
					r.weaken(l, 2)
				}
			}
		}
	}
	assumeBound := func(st *State, l *LoopEv) bool {
		held := st.list("held")
		if len(held) == 0 {
			return true
		}
		n, lim := r.total(held), r.cfg(st, "UpdateBatchSize")
		switch {
		case l.st.mode == 3 && r.weak[l.loop.header] == 0:
			return st.assume(mkLt(n, lim, types.Typ[types.Int]), true)
		case l.st.mode == 3 && r.weak[l.loop.header] == 1:
			return st.assume(mkLt(lim, n, types.Typ[types.Int]), false)
		case l.st.mode == 1 && r.weak[l.loop.header] == 0 && l.st.idx != nil:
			if t0 := st.get("taken@" + l.loop.header.String() + l.fr.fn.String()); t0 != nil {
				return st.assume(mkLt(mkAdd(l.st.idx, t0), n, types.Typ[types.Int]), false)
			}
		}
		return true
	}
	e.h.LoopIter = func(st *State, l *LoopEv) bool {
		if storesLoop(st, l.st) && st.flag("owed") && st.get("restLo") == nil || storesLoop(st, l.st) && st.get("restLo") != nil {
			if lo := st.get("restLo"); lo == nil {
				st.set("restLo", l.st.idx)
				st.setFlag("owed", false)
			} else {
				st.set("restLo", l.st.idx)
			}
		}
		if l.st.mode == 2 {
			st.setFlag("put", false)
		}
		if l.st.iterated {
			return assumeBound(st, l)
		}
		return true
	}
	e.h.LoopBack = func(st *State, l *LoopEv) {
		switch {
		case batch(st, l.st):
			if u := current(st); u != nil {
				settle(st, u, hdr(l))
			}
			return
		case diffLoop(st, l.st):
			r.attribute(st, l)
			return
		case storesLoop(st, l.st) && st.get("restLo") != nil:
			r.ob("C18")
			unsent(st, hdr(l))
			advance(st, hdr(l))
			if st.get("cont") != nil {
				r.rep("C18", st, "pages", hdr(l), "the next store is listed although this one has further pages")
				st.set("cont", nil)
			} else if l.st.idx != nil && st.get("restLo") != mkAddK(l.st.idx, 1) {
				r.rep("C18", st, "stores", hdr(l), "a store is passed over")
			}
			return
		}
		if l.st.mode == 3 {
			if outermost(st, l) {
				defer st.unlearn(r.atEntry)
				settleHeld(st, hdr(l))
				settleFlush(st, hdr(l))
				st.keepSent()
				r.settleSend(st, hdr(l))
				return
			}
			if st.get("restLo") != nil {
				unsent(st, hdr(l))
				if c := st.get("cont"); st.flag("listErr") || c != nil && st.evalBool(mkEq(c, mkStr(""))).isConst() {
					advance(st, hdr(l))
				}
			}
		}
		if held := st.list("held"); len(held) > 0 {
			n, lim := r.total(held), r.cfg(st, "UpdateBatchSize")
			switch {
			case l.st.mode == 3 && r.weak[l.loop.header] == 0:
				if !st.less(n, lim) {
					r.weaken(l, 1)
				}
			case l.st.mode == 3 && r.weak[l.loop.header] == 1:
				if !st.atMost(n, lim) {
					r.weaken(l, 2)
				}
			case l.st.mode == 1 && l.st.idx != nil && r.weak[l.loop.header] == 0:
				t0 := st.get("taken@" + l.loop.header.String() + l.fr.fn.String())
				if t0 == nil || !st.atMost(n, mkAddK(mkAdd(l.st.idx, t0), 1)) {
					r.weaken(l, 1)
				}
			}
		}
	}
	e.h.LoopGen = func(st *State, l *LoopEv, from, to *Term) {
		for _, k := range []string{"held", "out", "sent"} {
			cur := st.list(k)
			if n, ok := replaceRun(cur, st.parts(from, cur), to); ok {
				st.setList(k, n)
			} else if inTerms(cur, from) {
				n, _ := replaceRun(cur, []*Term{from}, to)
				st.setList(k, n)
			}
		}
		if st.get("cont") == from {
			st.set("cont", to)
		}
		if lo := st.get("restLo"); lo != nil {
			switch {
			case from == lo:
				st.set("restLo", to)
			case from.op == OSlice && from.a[1] == lo && to.op == OSlice && to.a[0] == from.a[0] && r.ofStores(st, from.a[0]):
				st.set("restLo", to.a[1])
			}
		}
	}
	e.h.LoopDone = func(st *State, l *LoopEv) {
		switch {
		case batch(st, l.st):
			st.set("batch", nil)
			st.setList("held", nil)
		case diffLoop(st, l.st):
			st.setFlag("compared", true)
		case storesLoop(st, l.st) && (st.get("restLo") != nil || st.flag("owed")) && l.st.exact:
			// a loop over all stores that lists: nothing left
			if st.get("restLo") != nil {
				st.set("restLo", l.st.bound)
			}
		default:
			held := st.list("held")
			if t0 := st.get("taken@" + l.loop.header.String() + l.fr.fn.String()); t0 != nil && l.st.mode == 1 && l.st.exact && r.weak[l.loop.header] == 0 && len(held) > 0 {
				st.assume(mkLt(mkAdd(l.st.bound, t0), r.total(held), types.Typ[types.Int]), false)
			}
		}
	}
	e.h.LoopBreak = func(st *State, l *LoopEv) {
		switch {
		case batch(st, l.st):
			if !ctxDone(st) {
				r.rep("C17", st, "lost", hdr(l), "not all updates of a batch are gone through")
			}
			st.set("batch", nil)
			st.setList("held", nil)
			st.setList("emitted", nil)
		}
	}
	e.h.Chan = func(st *State, op ChanOp, in ssa.Instruction) {
		switch q := r.queueOf(op.ch); {
		case q == "updates" && !op.send:
			if r.prop != "C17" {
				return
			}
			r.ob("C17")
			r.takers[threadFn(st)] = true
			if st.get("batch") != nil {
				r.rep("C17", st, "lost", in, "an update is taken while others are being gone through")
			}
			st.setList("held", append(append([]*Term(nil), st.list("held")...), op.val))
		case q == "flushes" && !op.send:
			if r.prop != "C18" {
				return
			}
			r.ob("C18")
			st.setFlag("owed", true)
		case q == "messages" && op.send:
			r.message(st, op.val, in)
		case q == "messages":
			if r.prop == "C17" {
				r.senders[threadFn(st)] = true
			}
			r.settleSend(st, in)
			st.set("msg", op.val)
			r.sends++
		}
	}
	e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
		switch {
		case r.prop == "C18" && c.fn != nil && pkgPath(c.fn) != modPath+"/eventsource":
			return nil, false
		case c.fn != nil && pkgPath(c.fn) == modPath+"/encoding" && c.fn.Name() == "Encode" && len(c.args) == 1:
			x := c.args[0]
			for x.op == OConv {
				x = x.a[0]
			}
			u := current(st)
			role := ""
			if u != nil {
				switch strip(x) {
				case strip(fieldNamed(u, r.us, "Prev")):
					role = "prevMap"
				case strip(fieldNamed(u, r.us, "Curr")):
					role = "currMap"
				}
			}
			if role == "" {
				r.rep("C17", st, "encode", c.instr, "something other than a record of the update is encoded for comparison: %s", x)
				return nil, false
			}
			outs := okOrErr(e, st, c, func(s *State, v *Term) { s.set(role, v) })
			f := outs[1].mod
			outs[1].mod = func(s *State) bool {
				s.setFlag("encErr", true)
				return f(s)
			}
			return outs, true
		case c.fn != nil && pkgPath(c.fn) == modPath+"/encoding" && c.fn.Name() == "Decode" && len(c.args) == 1:
			r.ob("C17")
			if d := st.get("delta"); !st.flag("compared") || d == nil || strip(c.args[0]) != strip(d) {
				r.rep("C17", st, "decode", c.instr, "a record is decoded from something other than the set of attributes that differ")
			}
			outs := okOrErr(e, st, c, func(s *State, v *Term) { s.set("decoded", v) })
			f := outs[1].mod
			outs[1].mod = func(s *State) bool {
				s.setFlag("decErr", true)
				return f(s)
			}
			return outs, true
		case c.fn != nil && pkgPath(c.fn) == modPath && c.fn.Name() == "Encode" && len(c.args) == 1 && types.Identical(derefType(c.args[0].t), r.msgT):
			r.ob("C17")
			m := c.args[0]
			if isPtr(m.t) {
				m = st.peek(m, r.msgT)
			}
			if st.get("msg") == nil || m != st.get("msg") {
				r.rep("C17", st, "send", c.instr, "something other than the message taken from the queue is encoded")
			}
			outs := okOrErr(e, st, c, func(s *State, v *Term) { s.set("encoded", v) })
			f := outs[1].mod
			outs[1].mod = func(s *State) bool {
				s.setFlag("skip", true)
				return f(s)
			}
			return outs, true
		case c.method != nil && c.method.Name() == "NewSender" && len(c.args) > 0:
			rs := e.freshRes(st, c)
			addr := c.args[0]
			if isIfaceType(addr.t) && len(c.args) > 1 {
				addr = c.args[1]
			}
			src := r.cfg(st, "Source")
			if want := fieldNamed(src, structOf(src.t), "Address"); addr == want {
				st.set("sender", rs[0])
			}
			return []Outcome{{res: rs}}, true
		case c.method != nil && c.method.Name() == "Send" && len(c.args) >= 2 && st.get("msg") != nil:
			r.ob("C17")
			if c.recv != st.get("sender") {
				r.rep("C17", st, "send", c.instr, "a message is sent to something other than the source's address")
			}
			if m := c.args[len(c.args)-1]; m != st.get("encoded") {
				r.rep("C17", st, "send", c.instr, "something other than the encoded message is sent")
			}
			if st.flag("delivered") {
				r.rep("C17", st, "send", c.instr, "a message is sent again after it was sent")
			}
			st.setFlag("attempted", true)
			outs := okOrErr(e, st, c, nil)
			f := outs[0].mod
			outs[0].mod = func(s *State) bool {
				s.setFlag("delivered", true)
				return f == nil || f(s)
			}
			return outs, true
		case r.prop == "C18" && c.method != nil && c.method.Name() == "List" && c.res.Len() == 2 && strings.HasSuffix(typeKey(c.recv.t), "store.Interface"):
			return r.list(st, c, advance, unsent), true
		}
		return nil, false
	}
	e.h.Exit = func(st *State, res []*Term) {
		if !ctxDone(st) && (st.num("listens") > 0) {
			r.rep(r.prop, st, "ends", nil, "the goroutine taking updates and flush requests ends although its context is not finished")
		}
	}
	e.h.Block = func(st *State, ops []ChanOp, hasDefault bool, in ssa.Instruction) bool {
		for _, op := range ops {
			if q := r.queueOf(op.ch); !op.send && q != "" && (q == "flushes") == (r.prop == "C18") {
				st.setNum("listens", 1)
			}
		}
		return true
	}
	root := e.addRoot(nil, r.run, nil, nil)
	r.self = root.top().env[r.run.Params[0]]
	return e
}

// atMost: x is at most y.
func (st *State) atMost(x, y *Term) bool {
	return x == y || st.knownFalse(mkLt(y, x, types.Typ[types.Int])) || st.entailsLE(x, y)
}

// less: x is less than y, perhaps because it is at most y and another one.
func (st *State) less(x, y *Term) bool {
	if st.knownTrue(mkLt(x, y, types.Typ[types.Int])) || st.entailsLT(x, y) {
		return true
	}
	if !st.atMost(x, y) {
		return false
	}
	d := st.linOf(x, 3).add(st.linOf(y, 3), -1)
	for f, v := range st.facts {
		if v || f.op != OEq || !isIntType(f.a[0].t) && !isIntType(f.a[1].t) {
			continue
		}
		o := st.linOf(f.a[0], 3).add(st.linOf(f.a[1], 3), -1)
		if p, m := d.add(o, 1), d.add(o, -1); len(p.c) == 0 && p.k == 0 || len(m.c) == 0 && m.k == 0 {
			return true
		}
	}
	return false
}

func (r *mgrRun) weaken(l *LoopEv, to int) {
	if r.weak[l.loop.header] < to {
		r.weak[l.loop.header] = to
		r.weakNew = true
	}
}

// attribute checks what was done for one attribute of the current record.
func (r *mgrRun) attribute(st *State, l *LoopEv) {
	in := l.loop.header.Instrs[0]
	r.ob("C17")
	r.diffs++
	k, cur, prev := l.st.key, l.st.coll, st.get("prevMap")
	put := st.flag("put")
	st.setFlag("put", false)
	if prev == nil {
		r.rep("C17", st, "compare", in, "the attributes are not compared with those of the previous record")
		return
	}
	// is it new or different?
	et := cur.t.Underlying().(*types.Map).Elem()
	differs := TTrue
	ok := st.evalBool(mkLookupOk(prev, k))
	pv := st.mapGet(prev, k, et)
	nv := st.mapGet(cur, k, et)
	if nv == nil {
		nv = mkLookup(cur, k, et)
	}
	switch {
	case pv == TAbs || ok == TFalse:
	default:
		if pv == nil {
			pv = mkLookup(prev, k, et)
		}
		eq := st.evalBool(mkEq(nv, pv))
		if eq != TTrue && eq != TFalse {
			for f, v := range st.facts {
				if f.op == OCall && f.s == "reflect.DeepEqual" && len(f.a) == 2 && inTerms(f.a, nv) && inTerms(f.a, pv) {
					eq = boolTerm(v)
				}
			}
		}
		switch {
		case eq == TTrue && ok == TTrue:
			differs = TFalse
		case eq == TFalse && ok == TTrue:
		default:
			r.rep("C17", st, "compare", in, "it is not looked at whether an attribute is new or differs from that of the previous record")
			return
		}
	}
	if differs == TTrue {
		st.setFlag("differs", true)
		if !put {
			r.rep("C17", st, "left-out", in, "an attribute that is new or differs is left out")
		}
		return
	}
	switch id := identifying(st, k); {
	case id == TTrue && !put:
		r.rep("C17", st, "left-out", in, "an attribute that identifies the record is left out")
	case id == TFalse && put:
		r.rep("C17", st, "unchanged", in, "an attribute that does not differ is sent")
	case id != TTrue && id != TFalse && !put:
		r.rep("C17", st, "left-out", in, "an attribute that does not differ is left out even if it identifies the record")
	case id != TTrue && id != TFalse:
		r.rep("C17", st, "unchanged", in, "an attribute that does not differ is sent even if it does not identify the record")
	}
}

// identifying: is it one of the two attributes that tell which record it is?
func identifying(st *State, k *Term) *Term {
	u32 := types.Typ[types.Uint32]
	switch st.evalBool(mkTAOk(k, u32)) {
	case TFalse:
		return TFalse
	case TTrue:
		c := intern(OTA, shortType(u32), 0, 0, u32, nil, nil, k)
		for f := range st.facts {
			walkTerm(f, func(x *Term) {
				if x.op == OTA && x.a[0] == k && x.t != nil && types.Identical(x.t, u32) {
					c = x
				}
			})
		}
		iv := st.ivalOf(c)
		if r := st.evalBool(mkLt(c, mkInt(2), u32)); r == TTrue || r == TFalse {
			return r
		}
		if iv.hi < 2 {
			return TTrue
		}
		if iv.lo >= 2 {
			return TFalse
		}
		a, b := st.evalBool(mkEq(c, mkInt(0))), st.evalBool(mkEq(c, mkInt(1)))
		if a == TTrue || b == TTrue {
			return TTrue
		}
		if a == TFalse && b == TFalse {
			return TFalse
		}
	}
	return nil
}

// message checks a message that is put into the queue.
func (r *mgrRun) message(st *State, m *Term, in ssa.Instruction) {
	if isPtr(m.t) {
		m = st.peek(m, r.msgT)
	}
	recs := fieldNamed(m, r.ms, "Records")
	if recs == nil {
		return
	}
	if taken := st.get("msg"); taken != nil && r.prop == "C17" {
		r.ob("C17")
		if m == taken || recs == fieldNamed(taken, r.ms, "Records") {
			r.rep("C17", st, "order", in, "a message taken from the queue is put back into it, behind those that were after it")
		}
	}
	if pg := st.get("page"); pg != nil {
		r.ob("C18")
		st.set("page", nil)
		if !r.allRecords(st, recs, pg) {
			r.rep("C18", st, "page", in, "the message does not hold the record of every entry of the page: %s", recs)
		}
	} else if r.prop == "C17" {
		r.ob("C17")
		out := st.nonEmpty(st.list("out"))
		ps := st.parts(recs, out)
		if len(out) == 0 && st.get("batch") == nil && len(st.nonEmpty(st.list("held"))) == 0 {
			// nothing to do with updates
			again := sentBase(st, recs) != nil
			for _, x := range ps {
				walkTerm(x, func(t *Term) { again = again || t.t != nil && types.Identical(t.t, r.updT) })
			}
			if again {
				r.rep("C17", st, "twice", in, "what updates contribute is sent again: %s", recs)
			}
		} else if len(out) == 0 {
			for _, x := range ps {
				st.setList("emitted", append(append([]*Term(nil), st.list("emitted")...), x))
			}
		} else if !sameTerms(ps, out) {
			r.rep("C17", st, "message", in, "the message does not hold exactly the records its updates contribute, in their order: %s", recs)
		}
		st.setList("out", nil)
	}
	sent := []*Term{recs}
	for b := recs; b != nil; {
		if b.op == OAlloc || b.op == OLoad {
			sent = append(sent, b)
			break
		}
		if b.op == OSlice || b.op == OAppend || b.op == OAppendSlice || isSeq(b) {
			b = b.a[0]
			continue
		}
		break
	}
	for _, b := range st.list("kept") {
		if !inTerms(sent, b) {
			sent = append(sent, b)
		}
	}
	st.setList("sent", sent)
}

// keepSent forgets the lists handed on that nothing refers to any longer.
func (st *State) keepSent() {
	l := st.list("sent")
	st.setList("sent", nil)
	st.setList("kept", nil)
	if len(l) == 0 {
		return
	}
	st.gc()
	var keep []*Term
	for _, b := range l {
		if (b.op == OAlloc || b.op == OLoad) && (b.op == OLoad || st.mentions(b)) {
			keep = append(keep, b)
		}
	}
	st.setList("sent", keep)
	st.setList("kept", keep)
}

// allRecords: the records are those of all entries of the page.
func (r *mgrRun) allRecords(st *State, recs, pg *Term) bool {
	s := recs
	if c := st.heap[mkContent(recs)]; c != nil && recs.op == OAlloc {
		s = c
	}
	es := seqElemType(pg.t)
	elem := func(x, i *Term) bool {
		x = strip(x)
		en := st.loadElem(pg, i, es)
		if isPtr(es) {
			return false
		}
		want := fieldNamed(en, structOf(es), "Record")
		return want != nil && x == strip(want)
	}
	if isSeq(s) {
		if s.s != "seq:all" || s.a[0] != TNil && !st.knownTrue(mkEq(mkLen(s.a[0]), mkInt(0))) {
			return false
		}
		if !st.knownTrue(mkEq(seqBound(s), mkLen(pg))) {
			return false
		}
		return elem(s.a[2], mkBeta(s.a[1]))
	}
	if el, ok := st.sliceElems(recs); ok && st.knownTrue(mkEq(mkLen(pg), mkInt(int64(len(el))))) {
		for i, x := range el {
			if !elem(x, mkInt(int64(i))) {
				return false
			}
		}
		return true
	}
	return false
}

// settleSend: what became of the message taken from the queue.
func (r *mgrRun) settleSend(st *State, in ssa.Instruction) {
	if st.get("msg") == nil {
		return
	}
	r.ob("C17")
	if !st.flag("attempted") && !st.flag("skip") && !ctxDone(st) {
		r.rep("C17", st, "send", in, "a message taken from the queue is not sent")
	}
	st.set("msg", nil)
	st.set("encoded", nil)
	for _, f := range []string{"attempted", "skip", "delivered"} {
		st.setFlag(f, false)
	}
}

// ofStores: the slice holds the configured stores.
func (r *mgrRun) ofStores(st *State, b *Term) bool {
	s := r.cfg(st, "Stores")
	if b == s || b.op == OAppendSlice && b.a[1] == s && st.knownTrue(mkEq(mkLen(b.a[0]), mkInt(0))) {
		return true
	}
	c := st.heap[mkContent(b)]
	return c != nil && c.op == OCall && c.s == "contentof" && c.a[0] == s
}

// list checks a store being listed.
func (r *mgrRun) list(st *State, c *Call, advance, unsent func(*State, ssa.Instruction)) []Outcome {
	e := r.e
	r.ob("C18")
	r.lists++
	unsent(st, c.instr)
	advance(st, c.instr)
	lo := st.get("restLo")
	if lo == nil {
		lo = mkInt(0)
		st.set("restLo", lo)
		st.setFlag("owed", false)
	}
	stores := r.cfg(st, "Stores")
	if want := st.loadElem(stores, lo, seqElemType(stores.t)); c.recv != want {
		r.rep("C18", st, "stores", c.instr, "%s is listed where it is the turn of %s", c.recv, want)
	}
	sel := c.args[len(c.args)-1]
	if st.knownNil(sel) {
		if l := r.cfg(st, "FlushBatchSize"); !st.knownTrue(mkEq(l, mkInt(0))) {
			r.rep("C18", st, "limit", c.instr, "the page is not limited to the configured size")
		}
	} else if ss := structOf(derefType(sel.t)); ss != nil {
		for i := 0; i < ss.NumFields(); i++ {
			v := st.peek(mkFieldAddr(sel, i, ss), ss.Field(i).Type())
			switch n := ss.Field(i).Name(); n {
			case "Limit":
				if v != r.cfg(st, "FlushBatchSize") {
					r.rep("C18", st, "limit", c.instr, "the page is limited to %s entries, not to the configured number", v)
				}
			case "Continue":
				want := st.get("cont")
				if want == nil {
					want = mkStr("")
				}
				if v != want && !st.knownTrue(mkEq(v, want)) {
					r.rep("C18", st, "continue", c.instr, "listing goes on from %s where it should from %s", v, want)
				}
			case "Ordering":
			default:
				if v != zeroOf(ss.Field(i).Type()) && !st.knownTrue(mkEq(v, zeroOf(ss.Field(i).Type()))) {
					r.rep("C18", st, "restricted", c.instr, "listing is restricted by %s", n)
				}
			}
		}
	}
	st.setFlag("listed", true)
	outs := okOrErr(e, st, c, func(s *State, v *Term) {
		rs := structOf(derefType(v.t))
		get := func(n string) *Term {
			if isPtr(v.t) {
				for i := 0; i < rs.NumFields(); i++ {
					if rs.Field(i).Name() == n {
						return s.peek(mkFieldAddr(v, i, rs), rs.Field(i).Type())
					}
				}
				return nil
			}
			return fieldNamed(v, rs, n)
		}
		s.set("page", get("Entries"))
		s.set("cont", get("Continue"))
	})
	f := outs[1].mod
	outs[1].mod = func(s *State) bool {
		s.setFlag("listErr", true)
		return f == nil || f(s)
	}
	return outs
}

func walkTerm(t *Term, f func(*Term)) {
	f(t)
	for _, a := range t.a {
		walkTerm(a, f)
	}
}

// sentBase: the slice is, or is based on, one that was handed on.
func sentBase(st *State, b *Term) *Term {
	for i := 0; b != nil && i < 10; i++ {
		if inTerms(st.list("sent"), b) {
			return b
		}
		switch {
		case b.op == OSlice || b.op == OAppend || b.op == OAppendSlice || isSeq(b):
			b = b.a[0]
		default:
			return nil
		}
	}
	return nil
}

// learnt notes what is known now.
func (st *State) learnt(m map[*Term]bool) {
	for f := range st.facts {
		m[f] = true
	}
	for f := range st.ivals {
		m[f] = true
	}
	for f := range st.eqc {
		m[f] = true
	}
}

// unlearn drops comparisons other than those noted, so that what one round of
// an endless loop found out does not multiply the states of the next.
func (st *State) unlearn(m map[*Term]bool) {
	for f := range st.facts {
		if !m[f] && (f.op == OEq || f.op == OLt || f.op == OLtC) {
			delete(st.facts, f)
		}
	}
	for f := range st.ivals {
		if !m[f] {
			delete(st.ivals, f)
		}
	}
	for f := range st.eqc {
		if !m[f] {
			delete(st.eqc, f)
		}
	}
}
