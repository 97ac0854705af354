package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C11", "typestate analysis of a received message from reception to its handlers, over every path of a listener",
		"Client.Listen and the goroutine it starts are explored with every outcome of receiving, accepting and decoding; a message that was received must be accepted, decoded and given to a complete traversal of the handlers of its kind before the next one is taken",
		runC11)
	register("C12", "typestate analysis of the listener's life: registration of its cancellation and wait group entry against Close, in critical sections",
		"Client.Listen, its goroutine and Close are explored; starting a listener must register its cancellation and its wait group entry in the critical section that knows the client to be open, the goroutine must give its entry back on every path and wait only for its context, and Close must cancel everything registered exactly once and wait without the lock",
		runC12)
}

type clientParts struct {
	a                *Analysis
	p                *Program
	t                types.Type
	listen, close    *ssa.Function
	recT, hbT        types.Type
	rcvIf            types.Type
	onRec, onHb      *ssa.Function
	cfgProv, cfgType types.Type
}

func findClient(a *Analysis) *clientParts {
	p := a.program()
	c := &clientParts{a: a, p: p, t: p.typ("eventsource", "Client"), recT: p.typ("", "RecordMessage"), hbT: p.typ("", "HeartbeatMessage"), rcvIf: p.typ("session", "Receiver"),
		cfgProv: p.typ("eventsource", "ListenerConfigProvider"), cfgType: p.typ("eventsource", "ListenerConfig")}
	if !a.anchor(c.t != nil && c.recT != nil && c.hbT != nil && c.rcvIf != nil, "eventsource.Client, session.Receiver and the message types") {
		return nil
	}
	pt := types.NewPointer(c.t)
	c.listen, c.close = p.method(pt, "Listen"), p.method(pt, "Close")
	c.onRec, c.onHb = p.method(pt, "OnRecord"), p.method(pt, "OnHeartbeat")
	if !a.anchor(c.listen != nil && c.close != nil && c.onRec != nil && c.onHb != nil, "Client.Listen, Close, OnRecord, OnHeartbeat") {
		return nil
	}
	return c
}

// handlerList: a list of functions taking one kind of message kept by a type.
func handlerList(owner types.Type, msg types.Type) func(st *State, t *Term) bool {
	return func(st *State, t *Term) bool {
		if t == nil || t.t == nil {
			return false
		}
		o, _, _ := fieldLoad(t)
		if o == nil || !sameNamed(o, owner) {
			return false
		}
		sl, ok := t.t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		sig, ok := sl.Elem().Underlying().(*types.Signature)
		return ok && sig.Params().Len() == 1 && sameNamed(sig.Params().At(0).Type(), msg)
	}
}

// checkRegister: registering a handler appends it to the list under the lock.
func checkRegister(a *Analysis, fn *ssa.Function, owner types.Type, isList func(*State, *Term) bool, rel string) {
	e := newEngine(a.program())
	followOnly(e, rel)
	var h *Term
	e.h.Store = func(st *State, addr, val *Term, in ssa.Instruction) {
		o, f, base := fieldAddrOf(addr)
		if o == nil || !sameNamed(o, owner) {
			return
		}
		cur := st.peek(addr, derefType(addr.t))
		if !isList(st, cur) && !isList(st, st.loadSym(addr, derefType(addr.t))) {
			return
		}
		a.count("obligations checked", 1)
		if !st.holdsLockOf(base) {
			e.report(st, "register", in, "field %s is changed without the lock", f)
		}
		switch {
		case val.op == OAppend && val.a[0] == cur && len(val.a) == 2 && val.a[1] == h:
		case val.op == OAppend && len(val.a) == 2 && val.a[1] == h && val.a[0].op == OAppendSlice && st.knownTrue(mkEq(mkLen(val.a[0].a[0]), mkInt(0))) && val.a[0].a[1] == cur:
		default:
			e.report(st, "register", in, "field %s is changed to something other than the registered handlers with the new one at the end", f)
			return
		}
		st.setNum("added", st.num("added")+1)
	}
	e.h.Exit = func(st *State, res []*Term) {
		a.count("obligations checked", 1)
		if st.num("added") != 1 {
			e.report(st, "register", nil, "the handler is added %d times to the registered ones", st.num("added"))
		}
	}
	r := e.addRoot(nil, fn, nil, nil)
	h = r.top().env[fn.Params[len(fn.Params)-1]]
	a.explore(e)
}

func runC11(a *Analysis) {
	c := findClient(a)
	if c == nil {
		return
	}
	p := c.p
	a.rule("every message received is accepted, exactly once, before its handlers run; one whose acceptance fails goes to no handler")
	a.rule("every accepted message is decoded; a decoded record or heartbeat message goes once to every handler of its kind, in order, read after it was received, and a message that could not be decoded to none")
	a.rule("no lock is held while a handler runs, and nothing runs concurrently within a listener")
	a.rule("a listener ends only when its context is finished, and closes its receiver then")
	a.rule("the receiver is opened with the address and credit of the listener configuration for the client's source")
	a.rule("OnRecord and OnHeartbeat append the handler to the list of its kind under the client's lock")
	checkRegister(a, c.onRec, c.t, handlerList(c.t, c.recT), "eventsource")
	checkRegister(a, c.onHb, c.t, handlerList(c.t, c.hbT), "eventsource")
	ob := func() { a.count("obligations checked", 1) }

	e := newEngine(p)
	followOnly(e, "eventsource")
	kinds := []struct {
		name string
		t    types.Type
		fe   *forEach
	}{
		{"record", c.recT, &forEach{e: e, name: "r", isList: handlerList(c.t, c.recT)}},
		{"heartbeat", c.hbT, &forEach{e: e, name: "b", isList: handlerList(c.t, c.hbT)}},
	}
	e.hookLoops(kinds[0].fe, kinds[1].fe)
	srcFields := fieldsOf(c.t, func(v *types.Var) bool { return sameNamed(v.Type(), p.typ("eventsource", "Info")) && !isPtr(v.Type()) })
	if !a.anchor(len(srcFields) == 1, "the source of a client") {
		return
	}
	var self *Term
	received, called := 0, 0
	inListener := func(st *State) bool { return st.flag("listener") }
	isKind := func(st *State, d *Term, t types.Type) *Term {
		if d.t != nil && !isIfaceType(d.t) {
			return mkBool(types.Identical(d.t, t))
		}
		return st.evalBool(mkTAOk(d, t))
	}
	settle := func(st *State, in ssa.Instruction, ending bool) {
		m := st.get("msg")
		if m == nil {
			return
		}
		ob()
		st.set("msg", nil)
		d := st.get("decoded")
		loaded := []*Term{st.get(kinds[0].fe.k("list")), st.get(kinds[1].fe.k("list"))}
		for i, k := range kinds {
			if st.flag(k.fe.k("stale")) {
				loaded[i] = nil
			}
		}
		ends := []string{kinds[0].fe.end(st), kinds[1].fe.end(st)}
		called, accepts := st.flag("called"), st.num("accepts")
		af, df := st.flag("acceptfailed"), st.flag("decodefailed")
		st.setFlag("called", false)
		st.setNum("accepts", 0)
		st.set("decoded", nil)
		st.setFlag("acceptfailed", false)
		st.setFlag("decodefailed", false)
		if ending && ctxDone(st) {
			return
		}
		switch {
		case accepts == 0:
			e.report(st, "not-accepted", in, "a received message is passed over without accepting it")
		case accepts > 1:
			e.report(st, "accepted-twice", in, "a received message is accepted more than once")
		case af, df:
		case d == nil:
			e.report(st, "not-decoded", in, "an accepted message is passed over without decoding it")
		default:
			for i, k := range kinds {
				is := isKind(st, d, k.t)
				switch {
				case is == TTrue && ends[i] != "":
					e.report(st, "handlers", in, "a decoded %s message is passed over: its handlers %s", k.name, ends[i])
				case is == TTrue && loaded[i] == nil:
					e.report(st, "handlers", in, "a %s message goes to handlers that were not looked up after it was received: later ones miss it", k.name)
				case is == TFalse:
				case is != TTrue && !called:
					e.report(st, "handlers", in, "a decoded message is passed over although it may be a %s message", k.name)
				}
			}
		}
	}
	e.h.Load = func(st *State, addr *Term, in ssa.Instruction) {
		for _, k := range kinds {
			k.fe.loaded(st, addr, derefType(addr.t))
		}
	}
	e.h.Go = func(st *State, cl *Call) bool {
		if inListener(st) {
			ob()
			e.report(st, "concurrent", cl.instr, "a listener starts a goroutine: messages may reach handlers out of order")
			return false
		}
		return true
	}
	e.h.Call = func(st *State, cl *Call) ([]Outcome, bool) {
		if cl.method != nil && cl.recv != nil {
			switch cl.method.Name() {
			case "Get":
				if c.cfgType != nil && cl.res.Len() == 1 && sameNamed(cl.res.At(0).Type(), c.cfgType) {
					r := e.freshRes(st, cl)
					cs := structOf(derefType(self.t))
					if len(cl.args) != 1 || cl.args[0] != st.peek(mkFieldAddr(self, srcFields[0], cs), cs.Field(srcFields[0]).Type()) {
						e.report(st, "config", cl.instr, "the listener configuration is not asked about the client's source")
					}
					st.addTo("configs", r[0])
					return []Outcome{{res: r}}, true
				}
			case "NewReceiver":
				ob()
				r := e.freshRes(st, cl)
				cfgs := st.list("configs")
				if len(cfgs) == 0 {
					e.report(st, "config", cl.instr, "a receiver is opened without asking the listener configuration")
				} else {
					cfg := cfgs[len(cfgs)-1]
					want := func(n string) *Term {
						s := structOf(cfg.t)
						for i := 0; s != nil && i < s.NumFields(); i++ {
							if s.Field(i).Name() == n {
								return mkField(cfg, i, s)
							}
						}
						return nil
					}
					if cl.args[0] != want("Address") {
						e.report(st, "config", cl.instr, "the receiver is opened for %s, not for the configured address", cl.args[0])
					}
					var credit *Term
					if s := structOf(cl.args[1].t); s != nil {
						for i := 0; i < s.NumFields(); i++ {
							if s.Field(i).Name() == "Credit" {
								credit = mkField(cl.args[1], i, s)
							}
						}
					}
					if credit == nil || stripWide(credit) != want("Credit") {
						e.report(st, "config", cl.instr, "the receiver is not opened with the configured credit")
					}
				}
				if len(st.list("receivers")) > 0 {
					e.report(st, "receiver-open", cl.instr, "another receiver is opened while one is not closed")
				}
				st.addTo("receivers", r[0])
				return []Outcome{{res: r, mod: func(s *State) bool { return s.assume(mkEq(r[0], TNil), false) }}}, true
			case "Next":
				if cl.res.Len() != 2 || !isAmqp(derefType(cl.res.At(0).Type()), "Message") {
					break
				}
				settle(st, cl.instr, false)
				received++
				st.set("ctx", cl.args[0])
				st.setFlag("listener", true)
				return okOrErr(e, st, cl, func(s *State, v *Term) {
					s.set("msg", v)
					s.set("decoded", nil)
					s.setNum("accepts", 0)
					s.setFlag("called", false)
					s.setFlag("acceptfailed", false)
					s.setFlag("decodefailed", false)
					for _, k := range kinds {
						k.fe.begin(s)
					}
				}), true
			case "Accept":
				if len(cl.args) != 2 {
					break
				}
				ob()
				if m := st.get("msg"); m != nil && cl.args[1] == m {
					st.setNum("accepts", min(st.num("accepts")+1, 2))
					if st.flag("called") {
						e.report(st, "accept-late", cl.instr, "handlers run before the message is accepted")
					}
				} else {
					e.report(st, "not-accepted", cl.instr, "something other than the received message is accepted")
				}
				outs := okOrErr(e, st, cl, nil)
				f := outs[1].mod
				outs[1].mod = func(s *State) bool {
					s.setFlag("acceptfailed", true)
					return f(s)
				}
				return outs, true
			case "Close":
				if st.inList("receivers", cl.recv) {
					st.removeFrom("receivers", cl.recv)
				}
			}
		}
		if cl.fn != nil && pkgPath(cl.fn) == modPath && cl.res.Len() == 2 && len(cl.args) == 1 && isAmqp(derefType(cl.args[0].t), "Message") {
			m := st.get("msg")
			ob()
			if m == nil || cl.args[0] != m {
				e.report(st, "other-message", cl.instr, "something other than the received message is decoded")
			}
			outs := okOrErr(e, st, cl, func(s *State, v *Term) { s.set("decoded", v) })
			f := outs[1].mod
			outs[1].mod = func(s *State) bool {
				s.setFlag("decodefailed", true)
				return f(s)
			}
			return outs, true
		}
		if cl.name != "func" || cl.fnval == nil || cl.fnval.t == nil {
			return nil, false
		}
		sig, ok := cl.fnval.t.Underlying().(*types.Signature)
		if !ok || sig.Params().Len() != 1 {
			return nil, false
		}
		for _, k := range kinds {
			if !sameNamed(sig.Params().At(0).Type(), k.t) {
				continue
			}
			ob()
			called++
			st.setFlag("called", true)
			if m := anyLock(st); m != nil {
				e.report(st, "handler-lock", cl.instr, "a %s handler is called while %s is held", k.name, m)
			}
			if st.get("msg") == nil || st.flag("acceptfailed") || st.flag("decodefailed") || st.num("accepts") == 0 {
				e.report(st, "handler-call", cl.instr, "a %s handler is called although there is no accepted and decoded message", k.name)
				return nil, false
			}
			if msg := k.fe.called(st, cl.fnval); msg != "" {
				e.report(st, "handler-call", cl.instr, "a %s handler is %s", k.name, msg)
			}
			d := st.get("decoded")
			if d == nil {
				e.report(st, "handler-call", cl.instr, "a %s handler is called before the message is decoded", k.name)
			} else if v := cl.args[0]; v != d && !(v.op == OTA && v.a[0] == d && types.Identical(v.t, k.t) && st.knownTrue(mkTAOk(d, k.t))) {
				e.report(st, "handler-arg", cl.instr, "a %s handler is given %s, not the decoded message", k.name, v)
			}
		}
		return nil, false
	}
	e.h.Exit = func(st *State, res []*Term) {
		if !st.flag("listener") {
			return
		}
		ob()
		settle(st, nil, true)
		if len(st.list("receivers")) > 0 {
			e.report(st, "receiver-open", nil, "a listener ends without closing its receiver")
		}
		if ctx := st.get("ctx"); ctx == nil || !st.knownTrue(mkIsDone(ctx)) {
			e.report(st, "ends", nil, "a listener ends although its context is not finished")
		}
	}
	root := e.addRoot(nil, c.listen, nil, nil)
	self = root.top().env[c.listen.Params[0]]
	a.explore(e)
	c.offered()
	a.anchor(received > 0, "the reception of messages by a listener")
	a.anchor(called > 0, "the calls of message handlers")
}

// offered checks the listener configurations the library offers.
func (c *clientParts) offered() {
	a, p := c.a, c.p
	n := 0
	for name, suffix := range map[string]string{"FromSourceAddress": "", "FromSourceAddressLogs": ".logs", "FromSourceAddressFlows": ".flows", "FromSourceAddressHeartbeats": ".heartbeats"} {
		fn := p.fn("eventsource", name)
		if !a.anchor(fn != nil && fn.Blocks != nil, "eventsource."+name) {
			continue
		}
		t := concreteResult(fn, 0)
		var get *ssa.Function
		if t != nil {
			get = p.method(t, "Get")
		}
		if !a.anchor(get != nil && len(get.Params) == 2, "the listener configuration of "+name) {
			continue
		}
		n++
		e := newEngine(p)
		followOnly(e, "eventsource")
		info := intern(OSym, "the source", 0, 0, get.Params[1].Type(), nil, nil)
		is := structOf(info.t)
		var want *Term
		for i := 0; is != nil && i < is.NumFields(); i++ {
			if is.Field(i).Name() == "Address" {
				want = mkField(info, i, is)
			}
		}
		if want != nil && suffix != "" {
			want = mkCat(want, mkStr(suffix))
		}
		e.h.Exit = func(st *State, res []*Term) {
			if len(res) != 1 {
				return
			}
			if st.thread == fn.String() && !st.flag("asked") {
				n := e.chain(st, get, []*Term{unwrapIface(res[0]), info})
				n.setFlag("asked", true)
				return
			}
			a.count("obligations checked", 1)
			s := structOf(res[0].t)
			for i := 0; s != nil && i < s.NumFields(); i++ {
				v := mkField(res[0], i, s)
				switch s.Field(i).Name() {
				case "Address":
					if v != want {
						e.report(st, "address", nil, "%s names the address %s, not the source's address with %q", name, v, suffix)
					}
				case "Credit":
					if k, ok := v.intVal(); !ok || k <= 0 {
						e.report(st, "credit", nil, "%s gives the credit %s", name, v)
					}
				}
			}
		}
		e.addRoot(nil, fn, nil, nil)
		a.explore(e)
	}
}

// ctxWithin: the context is one of a list or derived from one of them.
func ctxWithin(c *Term, l []*Term) bool {
	for c != nil {
		if inTerms(l, c) {
			return true
		}
		if c.op != OCtx {
			return false
		}
		c = c.a[0]
	}
	return false
}

func runC12(a *Analysis) {
	c := findClient(a)
	if c == nil {
		return
	}
	p := c.p
	a.rule("a listener is started only after its cancellation was added to the client's list and its entry to the wait group, both with the lock held and the client known not to be closed")
	a.rule("a listener receives and accepts with a context that cancellation ends, waits for nothing that does not end with it, does not receive again once it has ended, and gives its wait group entry back exactly once, as the last thing it does")
	a.rule("Close marks the client closed and takes the list in one critical section, calls every cancellation exactly once, then waits for the wait group without holding the lock; a second Close, also a concurrent one, finds none of them")
	ob := func() { a.count("obligations checked", 1) }
	cs := structOf(c.t)
	isCleanup := func(st *State, t *Term) bool {
		if t == nil || t.t == nil {
			return false
		}
		o, _, _ := fieldLoad(t)
		if o == nil || !sameNamed(o, c.t) {
			return false
		}
		return isCleanupType(t.t)
	}
	lists := fieldsOf(c.t, func(v *types.Var) bool { return isCleanupType(v.Type()) })
	if !a.anchor(len(lists) == 1, "the list of cancellations of a client") {
		return
	}
	cf := lists[0]
	marks := p.lastingMarks(c.t)
	mark := -1
	for i := range cs.NumFields() {
		v := marks[i]
		if v == nil {
			continue
		}
		e := newEngine(p)
		followOnly(e, "eventsource")
		e.mono = map[string]*Term{typeKey(c.t) + "." + cs.Field(i).Name(): v}
		ok, n := true, 0
		var self *Term
		e.h.Exit = func(st *State, res []*Term) {
			n++
			if !st.knownTrue(mkEq(st.peek(mkFieldAddr(self, i, cs), cs.Field(i).Type()), v)) {
				ok = false
			}
		}
		r := e.addRoot(nil, c.close, nil, nil)
		self = r.top().env[c.close.Params[0]]
		e.run()
		if ok && n > 0 {
			mark = i
		}
	}
	if mark < 0 {
		a.violate(p, "no-mark", c.close.Pos(), c.close.String(), "closing leaves no mark that is set on every path and never taken back: listeners may be started while and after the client is closed")
		return
	}
	mv := marks[mark]
	mono := map[string]*Term{typeKey(c.t) + "." + cs.Field(mark).Name(): mv}
	markOf := func(st *State, self *Term) *Term {
		return st.evalBool(mkEq(st.peek(mkFieldAddr(self, mark, cs), cs.Field(mark).Type()), mv))
	}

	// registration of something to call on Close
	onlyCancels := true
	registers := func(e *Engine, self func() *Term, fresh func() bool) func(st *State, addr, val *Term, in ssa.Instruction) {
		return func(st *State, addr, val *Term, in ssa.Instruction) {
			o, f, base := fieldAddrOf(addr)
			if o == nil || !sameNamed(o, c.t) || f != cs.Field(cf).Name() {
				return
			}
			ob()
			cur := st.peek(addr, cs.Field(cf).Type())
			if val.op != OAppend || val.a[0] != cur && !(cur.op == OAppend && val.a[0] == cur.a[0] && len(val.a) > len(cur.a)) {
				if !(cur == TNil || st.knownNil(cur)) || val.op != OAppend {
					e.report(st, "register", in, "the list of cancellations is changed to something other than what it was with one more at the end")
					return
				}
			}
			for _, x := range val.a[1:] {
				if x.op != OCancel {
					onlyCancels = false
					continue
				}
				st.addTo("cancels", x.a[0])
			}
			if fresh() {
				return
			}
			if !st.holdsLockOf(base) || markOf(st, base) != TFalse {
				e.report(st, "register", in, "a cancellation is registered without knowing, with the lock held, that the client is not closed: Close may never call it")
			}
		}
	}
	var self *Term
	e := newEngine(p)
	followOnly(e, "eventsource")
	e.mono = mono
	listeners := 0
	e.h.Store = registers(e, func() *Term { return self }, func() bool { return false })
	e.h.Go = func(st *State, cl *Call) bool {
		ob()
		if st.flag("listener") {
			return true
		}
		if st.num("adds") != 1 {
			e.report(st, "wait-group", cl.instr, "a listener is started without its entry in the wait group")
		}
		if len(st.list("cancels")) == 0 {
			e.report(st, "register", cl.instr, "a listener is started whose cancellation is not registered")
		}
		st.setNum("adds", 0)
		st.setFlag("listener", true)
		return true
	}
	// the goroutine and the caller go separate ways
	parent := func(st *State) bool { return st.thread == c.listen.String() }
	busy := func(st *State, cl *Call) {
		if !parent(st) && st.num("done") > 0 {
			e.report(st, "done-early", cl.instr, "a listener goes on after it gave its wait group entry back: Close returns before it has ended")
		}
	}
	e.h.Call = func(st *State, cl *Call) ([]Outcome, bool) {
		switch cl.name {
		case "(*sync.WaitGroup).Add":
			ob()
			if k, ok := cl.args[1].intVal(); !ok || k != 1 {
				e.report(st, "wait-group", cl.instr, "the wait group is changed by %s", cl.args[1])
			}
			if _, _, base := fieldAddrOf(cl.args[0]); base != self || !st.holdsLockOf(base) || markOf(st, base) != TFalse {
				e.report(st, "wait-group", cl.instr, "an entry is added to the wait group without knowing, with the lock held, that the client is not closed: Close may not wait for it")
			}
			st.setNum("adds", min(st.num("adds")+1, 2))
			return nil, false
		case "(*sync.WaitGroup).Done":
			if parent(st) {
				st.setNum("adds", 0)
			} else {
				st.setNum("done", min(st.num("done")+1, 2))
			}
			return nil, false
		case "(*sync.WaitGroup).Go":
			ob()
			if _, _, base := fieldAddrOf(cl.args[0]); base != self || !st.holdsLockOf(base) || markOf(st, base) != TFalse {
				e.report(st, "wait-group", cl.instr, "an entry is added to the wait group without knowing, with the lock held, that the client is not closed: Close may not wait for it")
			}
			st.setNum("adds", 1)
			st.setFlag("auto", true)
			return nil, false
		case "(*sync.WaitGroup).Wait", "time.Sleep":
			if !parent(st) {
				e.report(st, "wait", cl.instr, "a listener waits for something that its context does not end")
			}
			return nil, false
		}
		if cl.method == nil || parent(st) {
			return nil, false
		}
		busy(st, cl)
		n := cl.method.Name()
		if n != "Next" && n != "Accept" || len(cl.args) == 0 || !isContextType(cl.args[0].t) {
			return nil, false
		}
		ob()
		listeners++
		ctx := cl.args[0]
		if !ctxWithin(ctx, st.list("cancels")) {
			e.report(st, "context", cl.instr, "%s is called with a context that Close does not end", n)
		}
		if n == "Next" && st.flag("cancelled") {
			e.report(st, "spin", cl.instr, "a listener receives again although its context has ended")
			st.kill()
			return nil, true
		}
		outs := okOrErr(e, st, cl, nil)
		over := Outcome{res: outs[1].res, mod: func(s *State) bool {
			r := outs[1].res
			s.setFlag("cancelled", n == "Next")
			s.setFlag("over", true)
			s.note(cl.pos(), "the listener is cancelled")
			return outs[1].mod(s) && s.assume(mkIsDone(ctx), true) && s.assume(mkIs(r[len(r)-1], mkCtxErr(ctx)), true)
		}}
		if st.flag("over") {
			return []Outcome{over}, true
		}
		return append(outs, over), true
	}
	e.h.Block = func(st *State, ops []ChanOp, hasDefault bool, in ssa.Instruction) bool {
		if parent(st) || hasDefault {
			return true
		}
		ob()
		for _, op := range ops {
			if !op.send && op.ch.op == ODoneCh && ctxWithin(op.ch.a[0], st.list("cancels")) {
				return true
			}
		}
		e.report(st, "wait", in, "a listener waits for something that its context does not end")
		return true
	}
	e.h.Exit = func(st *State, res []*Term) {
		ob()
		if parent(st) {
			if st.num("adds") != 0 {
				e.report(st, "wait-group", nil, "an entry is added to the wait group for a listener that is not started")
			}
			return
		}
		if n := st.num("done"); n != 1 && !st.flag("auto") || n != 0 && st.flag("auto") {
			e.report(st, "wait-group", nil, "a listener gives its wait group entry back %d times", n)
		}
	}
	root := e.addRoot(nil, c.listen, nil, nil)
	self = root.top().env[c.listen.Params[0]]
	a.explore(e)
	a.anchor(listeners > 0, "the reception of messages by a listener")

	// what else is registered
	if nc := p.fn("eventsource", "NewClient"); a.anchor(nc != nil, "eventsource.NewClient") {
		e := newEngine(p)
		followOnly(e, "eventsource")
		e.h.Store = registers(e, nil, func() bool { return true })
		e.addRoot(nil, nc, nil, nil)
		a.explore(e)
	}

	// Close, twice
	e2 := newEngine(p)
	followOnly(e2, "eventsource")
	e2.mono = mono
	fe := &forEach{e: e2, name: "c", isList: isCleanup}
	e2.hookLoops(fe)
	waits := 0
	e2.h.Load = func(st *State, addr *Term, in ssa.Instruction) {
		o, f, base := fieldAddrOf(addr)
		if o != nil && sameNamed(o, c.t) && f == cs.Field(cf).Name() && base == self && isCleanup(st, st.peek(addr, cs.Field(cf).Type())) {
			fe.loaded(st, addr, derefType(addr.t))
			ob()
			if !st.holdsLockOf(base) {
				e2.report(st, "take", in, "the list of cancellations is read without the lock")
			}
			st.setFlag("section", true)
			st.setFlag("open", markOf(st, base) == TFalse)
		}
	}
	e2.h.Unlock = func(st *State, mu *Term, write bool, in ssa.Instruction) {
		if !st.flag("section") || !write {
			return
		}
		st.setFlag("section", false)
		ob()
		if markOf(st, self) != TTrue {
			e2.report(st, "take", in, "the list of cancellations is taken while the client is not yet marked closed: a listener started now is never cancelled")
		}
		cur := st.peek(mkFieldAddr(self, cf, cs), cs.Field(cf).Type())
		if !(cur == TNil || st.knownNil(cur) || st.knownTrue(mkEq(mkLen(cur), mkInt(0)))) && !st.flag("open") && !onlyCancels {
			e2.report(st, "take", in, "the list of cancellations stays with the client: closing again or at the same time calls them twice")
		}
	}
	e2.h.Call = func(st *State, cl *Call) ([]Outcome, bool) {
		if cl.name == "(*sync.WaitGroup).Wait" {
			ob()
			waits++
			if m := anyLock(st); m != nil {
				e2.report(st, "wait-locked", cl.instr, "Close waits for the listeners while %s is held, which they may be waiting for", m)
			}
			if msg := fe.end(st); msg != "" && !st.flag("waited") {
				e2.report(st, "cancel", cl.instr, "Close waits for its listeners but their cancellations %s", msg)
			}
			st.setFlag("waited", true)
			return nil, false
		}
		if cl.name == "context.cancel" || cl.name != "func" || cl.fnval == nil || !isCleanupFn(cl.fnval.t) {
			return nil, false
		}
		if el, _ := fe.element(st, cl.fnval); el {
			ob()
			if msg := fe.called(st, cl.fnval); msg != "" {
				e2.report(st, "cancel", cl.instr, "a cancellation is %s", msg)
			}
		}
		return nil, false
	}
	e2.h.Block = func(st *State, ops []ChanOp, hasDefault bool, in ssa.Instruction) bool {
		if !hasDefault {
			e2.report(st, "close-blocks", in, "Close waits on a channel")
		}
		return true
	}
	e2.h.Exit = func(st *State, res []*Term) {
		ob()
		if !st.flag("waited") {
			e2.report(st, "no-wait", nil, "Close returns without waiting for its listeners")
		}
	}
	r2 := e2.addRoot(nil, c.close, nil, nil)
	self = r2.top().env[c.close.Params[0]]
	fe.begin(r2)
	a.explore(e2)
	a.anchor(waits > 0, "Close's wait for its listeners")
}

func isCleanupFn(t types.Type) bool {
	if t == nil {
		return false
	}
	sig, ok := t.Underlying().(*types.Signature)
	return ok && sig.Params().Len() == 0 && sig.Results().Len() == 0
}

func isCleanupType(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isCleanupFn(sl.Elem())
}
