package main

import (
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C30", "path-sensitive resource typestate analysis of the capture tool",
		"The capture tool's main is explored with every outcome of every step, including panics, exits and interrupts: once the deployment has been created every way out must have deleted that same deployment with a context that is alive there, stopped the port forward, and closed the file and the response; every wait in between ends when the tool is interrupted",
		runC30)
}

func runC30(a *Analysis) {
	p := a.vancap()
	a.prog = p // positions and anchors are those of the capture tool's module
	var mainFn *ssa.Function
	for _, fn := range p.funcs {
		if fn.Name() == "main" && fn.Parent() == nil && fn.Signature.Recv() == nil && strings.HasSuffix(pkgPath(fn), "vancap") || fn.String() == "main.main" {
			mainFn = fn
		}
	}
	if !a.anchor(mainFn != nil, "the capture tool's main") {
		return
	}
	a.rule("after the deployment has been created, every way out of the tool (return, panic, exit, also of goroutines) has deleted the deployment of the same name in the same namespace, with a context that is neither derived from the interrupted one nor expired; nothing is deleted that was not created")
	a.rule("the channel that stops the port forward is closed, the output file and the response body are closed on every way out that opened them")
	a.rule("the tool is interrupted through a context that it creates before the deployment, and every wait in between ends with that context or after a fixed time of a few seconds")
	e := newEngine(p)
	pk := pkgPath(mainFn)
	e.h.Opaque = func(fn *ssa.Function) bool { return pkgPath(fn) != pk && !strings.HasSuffix(pkgPath(fn), "/vfmodels") }
	creator := map[*ssa.Function]bool{}
	for _, fn := range p.funcs {
		if pkgPath(fn) == pkgPath(mainFn) && reachesCreate(fn, map[*ssa.Function]bool{}) {
			creator[fn] = true
		}
	}
	e.h.Go = func(st *State, c *Call) bool {
		if c.fn != nil && creator[c.fn] {
			st.addTo("workers", mkStr(c.fn.String()))
			st.setFlag("joined", false)
		}
		return goAll(st, c)
	}
	rep := func(st *State, rule string, in ssa.Instruction, f string, args ...any) {
		e.report(st, rule, in, f, args...)
	}
	ob := func() { a.count("obligations checked", 1) }
	chain := func(c *Term, f func(x *Term) bool) bool {
		for c != nil && c.op == OCtx {
			if f(c) {
				return true
			}
			c = c.a[0]
		}
		return false
	}
	signalled := func(c *Term) bool {
		return chain(c, func(x *Term) bool {
			if s, ok := symSites[x]; ok {
				if ci, ok := s.in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() != nil {
					return ci.Common().StaticCallee().String() == "os/signal.NotifyContext"
				}
			}
			return false
		})
	}
	isDeployments := func(c *Call, m string) bool {
		return c.method != nil && c.method.Name() == m && c.recv != nil && strings.HasSuffix(typeKey(c.common.Value.Type()), "apps/v1.DeploymentInterface")
	}
	nameOf := func(st *State, d *Term) *Term {
		s := structOf(derefType(d.t))
		for i := 0; s != nil && i < s.NumFields(); i++ {
			if s.Field(i).Name() != "ObjectMeta" {
				continue
			}
			ms := structOf(s.Field(i).Type())
			for j := 0; j < ms.NumFields(); j++ {
				if ms.Field(j).Name() == "Name" {
					return st.peek(mkFieldAddr(mkFieldAddr(d, i, s), j, ms), ms.Field(j).Type())
				}
			}
		}
		return TNil
	}
	bounded := func(st *State, in ssa.Instruction, c *Term, what string) {
		if st.get("created") == nil || st.flag("deleted") {
			return
		}
		ob()
		if !signalled(c) && !chain(stripValueCtx(c), timeoutCtx) {
			rep(st, "interrupt", in, "%s does not end when the tool is interrupted, while the deployment exists", what)
		}
	}
	// a wait that an interrupted user does not notice
	brief := func(st *State, d *Term) bool {
		if n, ok := d.intVal(); ok {
			return n <= int64(5*time.Second)
		}
		return st.entailsLE(d, mkInt(int64(5*time.Second)))
	}
	// the goroutine that created the deployment
	own := func(st *State) bool {
		by := st.get("by")
		return by != nil && by == mkStr(st.thread)
	}
	e.h.Chan = func(st *State, op ChanOp, in ssa.Instruction) {
		if !op.send && op.ch.op != ODoneCh && !timed(op.ch) {
			st.setFlag("joined", true)
		}
	}
	var creates, deletes int
	out := func(st *State, how string, in ssa.Instruction) {
		ob()
		if st.get("created") != nil && !st.flag("deleted") {
			rep(st, "delete", in, "%s although the deployment that was created may not have been deleted", how)
		}
		if st.thread != mainFn.String() {
			return
		}
		ob()
		if len(st.list("workers")) > 0 && !st.flag("joined") {
			rep(st, "delete", in, "%s although the goroutine that creates and deletes the deployment may not have finished", how)
		}
		for _, x := range []struct{ l, c, what string }{{"open", "closed", "the output file"}, {"resp", "closed", "the response body"}, {"stop", "closedch", "the channel that stops the port forward"}} {
			for _, v := range st.list(x.l) {
				ob()
				if !st.inList(x.c, v) {
					rep(st, "close", in, "%s although %s may not have been closed", how, x.what)
				}
			}
		}
	}
	e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
		waits := false
		switch {
		case c.name == "context.WithTimeout" || c.name == "context.WithDeadline":
			st.setFlag("fresh", true)
			return nil, false
		case c.method != nil && c.method.Name() == "Deployments" && len(c.args) >= 1:
			v := rterm("deployments", c.res.At(0).Type(), c.args[len(c.args)-1])
			return []Outcome{{res: []*Term{v}, mod: func(s *State) bool { return s.assume(mkEq(v, TNil), false) }}}, true
		case isDeployments(c, "Create"):
			creates++
			ob()
			n := len(c.args)
			ctx, d := c.args[n-3], c.args[n-2]
			if !signalled(ctx) {
				rep(st, "interrupt", c.instr, "the deployment is created in a context that is not ended by an interrupt: the tool would be stopped without deleting it")
			}
			if st.get("created") != nil {
				rep(st, "create", c.instr, "more than one deployment may be created")
			}
			rs := e.freshRes(st, c)
			recv := c.recv
			return []Outcome{
				{res: []*Term{rs[0], TNil}, mod: func(s *State) bool {
					s.set("created", d)
					s.set("by", mkStr(s.thread))
					s.set("made", rs[0])
					s.set("where", recv)
					s.note(c.pos(), "the deployment is created")
					return s.assume(mkEq(rs[0], TNil), false)
				}},
				{res: rs, mod: func(s *State) bool { return s.assume(mkEq(rs[1], TNil), false) }},
			}, true
		case isDeployments(c, "Delete"):
			deletes++
			ob()
			n := len(c.args)
			ctx, name := c.args[n-3], c.args[n-2]
			d := st.get("created")
			if d == nil {
				rep(st, "delete", c.instr, "a deployment is deleted that this run has not created")
				return nil, false
			}
			ok := true
			no := func(f string, args ...any) { rep(st, "delete", c.instr, f, args...); ok = false }
			if name != nameOf(st, d) && !st.knownTrue(mkEq(name, nameOf(st, d))) && name != nameOf(st, st.get("made")) {
				no("deployment %s is deleted, not the one that was created", name)
			}
			if c.recv != st.get("where") {
				no("the deployment is deleted in another namespace than it was created in")
			}
			base := stripValueCtx(ctx)
			for base.op == OCtx {
				if st.knownTrue(mkIsDone(base)) {
					no("the context used to delete the deployment has been cancelled")
				}
				base = base.a[0]
			}
			if base != background {
				no("the context used to delete the deployment may have been cancelled: %s", ctx)
			} else if signalled(ctx) {
				no("the context used to delete the deployment ends when the tool is interrupted")
			} else if chain(ctx, func(x *Term) bool {
				if timeoutCtx(x) && len(x.a) > 1 {
					n, ok := x.a[1].intVal()
					return ok && n <= 0
				}
				return false
			}) {
				no("the context used to delete the deployment has expired from the start")
			} else if chain(ctx, timeoutCtx) && !st.flag("fresh") {
				no("the context used to delete the deployment was limited in time before other steps that take time")
			}
			if ok {
				st.setFlag("deleted", true)
			}
			st.setFlag("fresh", false)
			return nil, false
		case c.name == "os.Create" || c.name == "os.OpenFile":
			return okOrErr(e, st, c, func(s *State, v *Term) { s.addTo("open", v) }), true
		case c.name == "(*os.File).Close":
			st.addTo("closed", c.args[0])
			return nil, false
		case c.name == "net/http.NewRequestWithContext":
			r := rterm("request", c.res.At(0).Type(), c.args[0])
			rs := e.freshRes(st, c)
			return []Outcome{{res: []*Term{r, TNil}, mod: func(s *State) bool { return s.assume(mkEq(r, TNil), false) }}, {res: []*Term{r, rs[1]}, mod: func(s *State) bool { return s.assume(mkEq(rs[1], TNil), false) }}}, true
		case c.name == "(*net/http.Request).WithContext":
			return []Outcome{{res: []*Term{rterm("request", c.res.At(0).Type(), c.args[1])}}}, true
		case c.name == "(*net/http.Client).Do":
			waits = true
			if r := c.args[1]; r.op == OCall && r.s == "request" {
				bounded(st, c.instr, r.a[0], "a request")
			} else {
				bounded(st, c.instr, background, "a request")
			}
			st.setFlag("fresh", false)
			return okOrErr(e, st, c, func(s *State, v *Term) { s.addTo("resp", v) }), true
		case c.name == "net/http.Get" || c.name == "(*net/http.Client).Get":
			bounded(st, c.instr, background, "a request")
			st.setFlag("fresh", false)
			return okOrErr(e, st, c, func(s *State, v *Term) { s.addTo("resp", v) }), true
		case c.method != nil && c.method.Name() == "Close" && c.recv != nil:
			if o, f, b := fieldLoad(c.recv); f == "Body" && typeIs(o, "net/http.Response") {
				st.addTo("closed", b)
			}
			return nil, false
		case strings.HasSuffix(c.name, "portforward.New") || strings.HasSuffix(c.name, "portforward.NewOnAddresses"):
			var stop *Term
			for i, x := range c.args {
				if ce := chanElem(x.t); ce != nil && stop == nil {
					stop = c.args[i]
				}
			}
			return okOrErr(e, st, c, func(s *State, v *Term) {
				if stop != nil {
					s.addTo("stop", stop)
				}
			}), true
		case c.name == "os.Exit" || strings.HasPrefix(c.name, "log.Fatal"):
			st.setFlag("exit", true)
			out(st, "the tool exits", c.instr)
			return nil, false
		case strings.HasSuffix(c.name, "WaitGroup).Wait") && len(st.list("workers")) > 0:
			st.setFlag("joined", true)
			waits = true
		case c.name == "time.Sleep":
			waits = true
			if st.get("created") != nil && !st.flag("deleted") && own(st) {
				ob()
				if !brief(st, c.args[0]) {
					rep(st, "interrupt", c.instr, "the tool sleeps although it may be interrupted, while the deployment exists")
				}
			}
		case c.name == "io.Copy", strings.HasSuffix(c.name, "WaitGroup).Wait"):
			waits = true
		}
		if c.method != nil && len(c.args) > 0 {
			for _, x := range c.args {
				if x.t != nil && isContextType(x.t) {
					waits = true
					if !isContextType(c.common.Value.Type()) {
						bounded(st, c.instr, x, "a request to the cluster")
					}
				}
			}
		}
		if waits {
			st.setFlag("fresh", false)
		}
		return nil, false
	}
	e.h.Block = func(st *State, ops []ChanOp, hasDefault bool, in ssa.Instruction) bool {
		if hasDefault {
			return true
		}
		st.setFlag("fresh", false)
		if st.get("created") == nil || st.flag("deleted") || !own(st) {
			return true
		}
		ob()
		for _, op := range ops {
			if op.ch.op == ODoneCh && (signalled(op.ch.a[0]) || chain(op.ch.a[0], func(x *Term) bool { return timeoutCtx(x) && len(x.a) > 1 && brief(st, x.a[1]) })) {
				return true
			}
			if !op.send && timed(op.ch) && op.ch.op == OCall && len(op.ch.a) > 0 && brief(st, op.ch.a[len(op.ch.a)-1]) {
				return true
			}
			if op.send && len(ops) == 1 && e.chanCap[op.ch] != nil {
				if n, ok := e.chanCap[op.ch].intVal(); ok && n > 0 {
					return true
				}
			}
		}
		rep(st, "interrupt", in, "a wait does not end when the tool is interrupted, while the deployment exists")
		return true
	}
	e.h.Close = func(st *State, ch *Term, in ssa.Instruction) {
		st.addTo("closedch", ch)
	}
	exits := 0
	e.h.Exit = func(st *State, res []*Term) {
		if st.thread != mainFn.String() && own(st) && !st.flag("exit") {
			ob()
			if st.get("created") != nil && !st.flag("deleted") {
				rep(st, "delete", nil, "a goroutine ends although the deployment that it created may not have been deleted")
			}
		}
		if st.thread != mainFn.String() || st.flag("exit") {
			return
		}
		exits++
		out(st, "the tool ends", nil)
	}
	e.addRoot(nil, mainFn, nil, nil)
	a.explore(e)
	a.anchor(creates > 0 && deletes > 0 && exits > 0, "the creation and the deletion of the capture deployment")
}

// reachesCreate: does the function, or what it calls, create a deployment.
func reachesCreate(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok {
				if f, ok := mc.Fn.(*ssa.Function); ok && reachesCreate(f, seen) {
					return true
				}
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := ci.Common()
			if cc.IsInvoke() && cc.Method.Name() == "Create" && strings.HasSuffix(typeKey(cc.Value.Type()), "apps/v1.DeploymentInterface") {
				return true
			}
			if f := cc.StaticCallee(); f != nil && f.Blocks != nil && reachesCreate(f, seen) {
				return true
			}
		}
	}
	return false
}
