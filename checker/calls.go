package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) callOperands(st *State, fr *Frame, c *ssa.CallCommon) (fnv, recv *Term, args []*Term) {
	if c.IsInvoke() {
		recv = e.val(st, fr, c.Value)
	} else {
		fnv = e.val(st, fr, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, e.val(st, fr, a))
	}
	return
}

// normName drops type arguments from a function's name.
func normName(s string) string {
	if !strings.Contains(s, "[") {
		return s
	}
	var b strings.Builder
	d := 0
	for _, r := range s {
		switch r {
		case '[':
			d++
		case ']':
			d--
		default:
			if d == 0 {
				b.WriteRune(r)
			}
		}
	}
	return b.String()
}

func (e *Engine) resolveInvoke(recv *Term, m *types.Func) *ssa.Function {
	if recv.op != OIface || recv.t == nil {
		return nil
	}
	ms := e.p.ssa.MethodSets.MethodSet(recv.t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return e.p.ssa.MethodValue(sel)
}

// doCall performs a call whose operands are evaluated.
func (e *Engine) doCall(st *State, fr *Frame, in ssa.Instruction, c *ssa.CallCommon, fnv, recv *Term, args []*Term, isDefer bool) {
	call := &Call{instr: in, common: c, args: args, recv: recv, res: c.Signature().Results(), defer_: isDefer, ctx: fr.ctx}
	if c.IsInvoke() {
		if f := e.resolveInvoke(recv, c.Method); f != nil {
			args = append([]*Term{recv.a[0]}, args...)
			call.args = args
			e.callFn(st, fr, call, f, nil, args)
			return
		}
		e.derefCheck(st, recv, in)
		if st.dead {
			return
		}
		call.method = c.Method
		call.name = normName(c.Method.FullName())
		e.extern(st, fr, call)
		return
	}
	e.callValue(st, fr, call, fnv, args)
}

func (e *Engine) callValue(st *State, fr *Frame, call *Call, fnv *Term, args []*Term) {
	switch fnv.op {
	case OBuiltin:
		e.builtin(st, fr, call, fnv.s, args)
		return
	case OFunc:
		e.callFn(st, fr, call, fnv.fn, nil, args)
		return
	case OClosure:
		e.callFn(st, fr, call, fnv.fn, fnv.a, args)
		return
	case OCancel:
		call.name = "context.cancel"
		call.fnval = fnv
		if e.h.Call != nil {
			e.h.Call(st, call)
			if st.dead {
				return
			}
		}
		st.assume(mkIsDone(fnv.a[0]), true)
		return
	case OCall:
		if fnv.s == "sync.OnceFunc" {
			e.onceDo(st, fr, call, fnv, fnv.a[0])
			return
		}
	}
	e.derefCheck(st, fnv, call.instr)
	if st.dead {
		return
	}
	// the function variables of the models
	if fnv.op == OLoad && fnv.a[0].op == OGlobal && strings.Contains(fnv.a[0].s, "/vfmodels.") {
		e.modelVar(st, fr, call, fnv.a[0].s[strings.LastIndex(fnv.a[0].s, ".")+1:], args)
		return
	}
	call.fnval = fnv
	call.name = "func"
	e.extern(st, fr, call)
}

func (e *Engine) modelVar(st *State, fr *Frame, call *Call, name string, args []*Term) {
	switch name {
	case "backoffCtx":
		b := unwrapIface(args[0])
		if b.op == OCall && b.s == "backoff.WithContext" {
			e.finish(st, call, b.a[1])
			return
		}
		e.finish(st, call, TNil)
	case "permanent":
		x := unwrapIface(args[0])
		if x.op == OCall && x.s == "backoff.Permanent" {
			e.finish(st, call, x.a[0])
			return
		}
		e.finish(st, call, TNil)
	default:
		s := st.sym(name, call.instr, fr.ctx, 0, call.res.At(0).Type())
		symSites[s] = symSite{call.instr, fr.ctx}
		if name == "anyTimer" {
			st.assume(mkEq(s, TNil), false)
		}
		e.finish(st, call, s)
	}
}

// finish sets the result of a call.
func (e *Engine) finish(st *State, call *Call, res ...*Term) {
	if call.defer_ || len(res) == 0 || st.dead {
		return
	}
	v, ok := call.instr.(ssa.Value)
	if !ok {
		return
	}
	if len(res) == 1 {
		e.set(st.top(), v, res[0])
		return
	}
	e.set(st.top(), v, tupleOf(res...))
}

func (e *Engine) callFn(st *State, fr *Frame, call *Call, f *ssa.Function, bindings, args []*Term) {
	call.fn = f
	call.name = normName(f.String())
	call.args = args
	if f.Blocks == nil || (e.h.Opaque != nil && e.h.Opaque(f)) {
		e.extern(st, fr, call)
		return
	}
	if e.h.Enter != nil {
		e.h.Enter(st, call)
		if st.dead {
			return
		}
	}
	depth := 0
	for _, x := range st.frames {
		if x.fn == f {
			depth++
		}
	}
	if depth > 0 {
		if e.tailCall(st, fr, call, f, bindings, args) {
			return
		}
		if depth > 2 {
			e.count("recursive calls cut")
			e.undecided(st, call.instr, "recursion through %s is not followed", f)
			st.dead = true
			return
		}
	}
	if len(st.frames) > 60 {
		e.undecided(st, call.instr, "call depth limit")
		st.dead = true
		return
	}
	e.enter(st, fr, call, f, bindings, args)
}

func (e *Engine) enter(st *State, fr *Frame, call *Call, f *ssa.Function, bindings, args []*Term) *Frame {
	nf := &Frame{fn: f, ctx: mkCtx(fr.ctx, call.instr, f), env: map[ssa.Value]*Term{}, call: call.instr, isDefer: call.defer_}
	for i, p := range f.Params {
		if i < len(args) {
			nf.env[p] = args[i]
		}
	}
	for i, p := range f.FreeVars {
		if i < len(bindings) {
			nf.env[p] = bindings[i]
		}
	}
	nf.block = f.Blocks[0]
	e.count("calls followed")
	st.frames = append(st.frames, nf)
	return nf
}

// sliceElems lists the elements of a sequence of known length.
func (st *State) sliceElems(s *Term) ([]*Term, bool) {
	switch s.op {
	case ONil:
		return nil, true
	case OAppend:
		b, ok := st.sliceElems(s.a[0])
		if !ok {
			return nil, false
		}
		return append(append([]*Term(nil), b...), s.a[1:]...), true
	case OAppendSlice:
		b, ok := st.sliceElems(s.a[0])
		if !ok {
			return nil, false
		}
		c, ok := st.sliceElems(s.a[1])
		if !ok {
			return nil, false
		}
		return append(append([]*Term(nil), b...), c...), true
	}
	base, lo := s, int64(0)
	if s.op == OSlice {
		base = s.a[0]
		if s.a[1] != TNil {
			k, ok := s.a[1].intVal()
			if !ok {
				return nil, false
			}
			lo = k
		}
	}
	n, ok := mkLen(s).intVal()
	if !ok || n > 16 || n < 0 || base.op != OAlloc {
		return nil, false
	}
	et := seqElemType(base.t)
	var out []*Term
	for i := int64(0); i < n; i++ {
		out = append(out, st.loadElem(base, mkInt(lo+i), et))
	}
	return out, true
}

func seqElemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return seqElemType(u.Elem())
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	return nil
}

func (e *Engine) builtin(st *State, fr *Frame, call *Call, name string, args []*Term) {
	in := call.instr
	argT := func(i int) types.Type { return call.common.Args[i].Type() }
	switch name {
	case "len":
		if _, ok := argT(0).Underlying().(*types.Map); ok {
			if e.h.MapScan != nil {
				e.h.MapScan(st, args[0], call.instr)
			}
			e.finish(st, call, st.mapLen(args[0]))
			return
		}
		if p, ok := argT(0).Underlying().(*types.Pointer); ok {
			if ar, ok := p.Elem().Underlying().(*types.Array); ok {
				e.finish(st, call, mkInt(ar.Len()))
				return
			}
		}
		if ar, ok := argT(0).Underlying().(*types.Array); ok {
			e.finish(st, call, mkInt(ar.Len()))
			return
		}
		if _, ok := argT(0).Underlying().(*types.Chan); ok {
			s := st.sym("chanlen", in, fr.ctx, 0, types.Typ[types.Int])
			st.ivals[s] = ival{0, fullIval.hi}
			e.finish(st, call, s)
			return
		}
		e.finish(st, call, mkLen(args[0]))
	case "cap":
		e.finish(st, call, intern(OCap, "", 0, 0, types.Typ[types.Int], nil, nil, args[0]))
	case "append":
		base := args[0]
		if len(args) < 2 {
			e.finish(st, call, base)
			return
		}
		if el, ok := st.sliceElems(args[1]); ok {
			if e.h.Append != nil {
				e.h.Append(st, base, el, in)
			}
			e.finish(st, call, mkAppend(base, el, call.common.Signature().Results().At(0).Type()))
			return
		}
		if e.h.Append != nil {
			e.h.Append(st, base, []*Term{args[1]}, in)
		}
		e.finish(st, call, intern(OAppendSlice, "", 0, 0, argT(0), nil, nil, base, args[1]))
	case "copy":
		dst, src := args[0], args[1]
		if e.h.Copy != nil {
			e.h.Copy(st, dst, src, in)
		}
		n := st.sym("copied", in, fr.ctx, 0, types.Typ[types.Int])
		st.ivals[n] = ival{0, fullIval.hi}
		if st.knownTrue(mkEq(mkLen(dst), mkLen(src))) {
			st.havocPointee(dst)
			if dst.op == OAlloc {
				st.heap[mkContent(dst)] = intern(OCall, "contentof", 0, 0, argT(1), nil, nil, src)
			}
			e.finish(st, call, mkLen(src))
			return
		}
		st.havocPointee(dst)
		e.finish(st, call, n)
	case "delete":
		if e.h.MapDelete != nil {
			e.h.MapDelete(st, args[0], args[1], in)
		}
		st.mapStore(args[0], args[1], TAbs)
	case "close":
		e.oblig(st, "close", args[0], nil, in)
		if e.h.Close != nil {
			e.h.Close(st, args[0], in)
		}
	case "recover":
		if st.panicking {
			e.undecided(st, in, "recovery from a panic is not modelled")
			st.dead = true
			return
		}
		e.finish(st, call, TNil)
	case "min", "max":
		r := args[0]
		if len(args) == 2 && isIntType(argT(0)) {
			lt := mkLt(args[0], args[1], argT(0))
			small, large := args[0], args[1]
			if name == "max" {
				small, large = large, small
			}
			e.fork(st, func(s *State) bool {
				if !s.assume(lt, true) {
					return false
				}
				e.finish(s, call, small)
				return true
			}, func(s *State) bool {
				if !s.assume(lt, false) {
					return false
				}
				e.finish(s, call, large)
				return true
			})
			return
		}
		for _, a := range args[1:] {
			r = intern(OCall, name, 0, 0, argT(0), nil, nil, r, a)
		}
		e.finish(st, call, r)
	case "clear":
		m := args[0]
		st.ageMaps(func(x *Term) bool { return x == m })
		if m.op == OAlloc {
			st.heap[mkMapFull(m)] = TTrue
		}
		if e.h.MapDelete != nil {
			e.h.MapDelete(st, m, nil, in)
		}
	case "ssa:wrapnilchk":
		e.derefCheck(st, args[0], in)
		e.finish(st, call, args[0])
	case "print", "println":
	default:
		rt := call.res
		if rt != nil && rt.Len() > 0 {
			s := st.sym("b:"+name, in, fr.ctx, 0, rt.At(0).Type())
			e.finish(st, call, s)
		} else if v, ok := in.(ssa.Value); ok {
			e.finish(st, call, st.sym("b:"+name, in, fr.ctx, 0, v.Type()))
		}
	}
}

func mkAppend(base *Term, el []*Term, t types.Type) *Term {
	if len(el) == 0 {
		return base
	}
	if base.op == OAppend {
		el = append(append([]*Term(nil), base.a[1:]...), el...)
		base = base.a[0]
	}
	return intern(OAppend, "", 0, 0, t, nil, nil, append([]*Term{base}, el...)...)
}

func mkMapLen(m *Term) *Term {
	return intern(OLookup, "len", 0, 0, types.Typ[types.Int], nil, nil, m, m)
}

// mapLen names the number of entries a map has now.
func (st *State) mapLen(m *Term) *Term {
	if m == TNil || st.knownNil(m) {
		return mkInt(0)
	}
	if st.heap[mkMapFull(m)] != nil && st.heap[mkContent(m)] == nil {
		var ks []*Term
		exact := true
		for x, v := range st.heap {
			if x.op == OMapElem && x.a[0] == m {
				if v == TAbs {
					continue
				}
				for _, k := range ks {
					if !st.distinct(k, x.a[1]) {
						exact = false
					}
				}
				ks = append(ks, x.a[1])
			}
		}
		if exact {
			return mkInt(int64(len(ks)))
		}
	}
	s := mkMapLen(m)
	usedSyms[s] = true
	if _, ok := st.ivals[s]; !ok {
		st.ivals[s] = ival{0, fullIval.hi}
	}
	return s
}

func mkOnceDone(t *Term) *Term {
	return intern(OCall, "oncedone", 0, 0, types.Typ[types.Bool], nil, nil, t)
}

func (e *Engine) onceDo(st *State, fr *Frame, call *Call, once, f *Term) {
	k := mkOnceDone(once)
	v := st.evalBool(k)
	if v != TTrue && v != TFalse {
		if r := once.root(); r.op == OAlloc && !st.facts[mkEscaped(r)] && once.op != OCall {
			v = TFalse
		}
	}
	run := func(s *State) bool {
		s.facts[k] = true
		e.callValue(s, s.top(), call, f, nil)
		return !s.dead
	}
	switch v {
	case TTrue:
	case TFalse:
		run(st)
	default:
		e.fork(st, run, func(s *State) bool {
			s.facts[k] = true
			s.note(instrPos(call.instr), "once already done")
			return true
		})
	}
}

func mkCtxErr(ctx *Term) *Term {
	return intern(OCtxErr, "", 0, 0, types.Universe.Lookup("error").Type(), nil, nil, ctx)
}

func errType() types.Type { return types.Universe.Lookup("error").Type() }

// wrapErr makes the error produced at a call site.
func (st *State) wrapErr(in ssa.Instruction, ctx *Ctx, wrapped []*Term) *Term {
	s := intern(OWrap, fmt.Sprintf("err#%d@%d", st.eng.siteID(in), ctx.id), 0, 0, errType(), nil, nil, wrapped...)
	if s.pos == 0 {
		s.pos = instrPos(in)
	}
	symSites[s] = symSite{in, ctx}
	st.age(s)
	return s
}

func (e *Engine) newCtx(st *State, call *Call, name string, parent *Term, with ...*Term) *Term {
	s := intern(OCtx, fmt.Sprintf("%s#%d@%d", name, e.siteID(call.instr), call.ctx.id), 0, 0, call.res.At(0).Type(), nil, nil, append([]*Term{parent}, with...)...)
	symSites[s] = symSite{call.instr, call.ctx}
	st.age(s)
	return s
}

var background = func() *Term {
	t := intern(OSym, "context.Background", 0, 0, nil, nil, nil)
	return t
}()

var pureFuncs = map[string]bool{
	"fmt.Sprint": true, "fmt.Sprintln": true, "fmt.Sprintf": true,
	"time.UnixMicro": true, "time.Unix": true, "time.UnixMilli": true, "time.Date": true, "time.ParseDuration": true, "time.Parse": true,
}

func isPure(name string) bool {
	if pureFuncs[name] {
		return true
	}
	for _, p := range []string{"strings.", "strconv.", "math.", "unicode.", "path.", "cmp.", "(time.Time).", "(time.Duration).", "(reflect.StructTag).", "(reflect.StructField).", "math/bits.", "html.", "unicode/utf8."} {
		if strings.HasPrefix(name, p) {
			return !strings.HasPrefix(name, "strings.New")
		}
	}
	if strings.HasPrefix(name, "reflect.") || strings.HasPrefix(name, "(reflect.Type)") {
		return name != "reflect.New" && name != "reflect.Copy" && name != "reflect.Append" && !strings.HasPrefix(name, "reflect.Make")
	}
	if strings.HasPrefix(name, "(reflect.Value).") {
		m := name[len("(reflect.Value)."):]
		return !strings.HasPrefix(m, "Set") && m != "Call" && m != "Recv" && m != "Send"
	}
	return false
}

// noEffect: the function does not write through its arguments.
func noEffect(name string) bool {
	for _, p := range []string{"log/slog.", "(*log/slog.", "log.", "fmt.Print", "fmt.Sprint", "fmt.Fprint", "errors.", "context.", "(context.Context).", "time.", "(*time.", "(sync.", "(*sync.",
		"encoding/json.Marshal", "bytes.", "(*bytes.", "encoding/base64.", "(*encoding/base64.", "encoding/hex.Encode", "(*encoding/json.Encoder)", "encoding/binary.Write", "os.", "(error).Error", "fmt.Errorf",
		"slices.Contains", "slices.Index", "slices.Equal", "slices.Binary", "maps.Keys", "maps.Values", "maps.Equal", "sync/atomic.", "crypto/tls.Load"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// extern models a call whose body is not analysed.
func (e *Engine) extern(st *State, fr *Frame, call *Call) {
	e.count("external calls")
	if e.h.Call != nil {
		outs, done := e.h.Call(st, call)
		if st.dead {
			return
		}
		if done {
			e.applyOutcomes(st, call, outs)
			return
		}
	}
	if e.model(st, fr, call) || st.dead {
		return
	}
	e.defaultCall(st, fr, call)
}

func (e *Engine) applyOutcomes(st *State, call *Call, outs []Outcome) {
	if len(outs) == 0 {
		st.dead = true
		return
	}
	if len(outs) == 1 {
		if outs[0].mod != nil && !outs[0].mod(st) {
			st.dead = true
			return
		}
		e.finish(st, call, outs[0].res...)
		return
	}
	var alts []func(s *State) bool
	for _, o := range outs {
		o := o
		alts = append(alts, func(s *State) bool {
			if o.mod != nil && !o.mod(s) {
				return false
			}
			e.finish(s, call, o.res...)
			return !s.dead
		})
	}
	e.fork(st, alts...)
}

func (e *Engine) freshRes(st *State, call *Call) []*Term {
	var out []*Term
	if call.res == nil {
		return nil
	}
	for i := 0; i < call.res.Len(); i++ {
		t := call.res.At(i).Type()
		n := call.name
		if k := strings.LastIndexByte(n, '.'); k >= 0 {
			n = n[k+1:]
		}
		pre := "ret:"
		if isErrorType(t) && e.foreignError(call) {
			pre = "lib:"
		}
		s := st.sym(pre+n, call.instr, call.ctx, i, t)
		symSites[s] = symSite{call.instr, call.ctx}
		out = append(out, s)
	}
	return out
}

// foreignError: the call's error can not wrap an error variable of the program,
// because the library can neither name it nor was handed one.
func (e *Engine) foreignError(call *Call) bool {
	if call.fn == nil || call.fn.Pkg == nil {
		return false
	}
	if _, ours := e.p.spkgs[call.fn.Pkg.Pkg.Path()]; ours {
		return false
	}
	for _, a := range call.args {
		if a.t == nil {
			continue
		}
		switch u := a.t.Underlying().(type) {
		case *types.Signature:
			if a != TNil {
				return false
			}
		case *types.Interface:
			if !isContextType(a.t) && a != TNil {
				return false
			}
		case *types.Slice:
			if _, is := u.Elem().Underlying().(*types.Interface); is && a != TNil {
				return false
			}
		}
	}
	return true
}

func (e *Engine) defaultCall(st *State, fr *Frame, call *Call) {
	if isPure(call.name) {
		args := call.args
		if call.recv != nil {
			args = append([]*Term{call.recv}, args...)
		}
		if n := len(args); n > 0 && call.common.Signature().Variadic() {
			if el, ok := st.sliceElems(args[n-1]); ok {
				args = append(append([]*Term(nil), args[:n-1]...), el...)
			}
		}
		if call.res == nil || call.res.Len() == 0 {
			return
		}
		if call.res.Len() == 1 {
			e.finish(st, call, intern(OCall, call.name, 0, 0, call.res.At(0).Type(), nil, nil, args...))
			return
		}
		var rs []*Term
		for i := 0; i < call.res.Len(); i++ {
			rs = append(rs, intern(OCall, call.name, i+1, 0, call.res.At(i).Type(), nil, nil, args...))
		}
		e.finish(st, call, rs...)
		return
	}
	if !noEffect(call.name) {
		for _, a := range call.args {
			st.havocPointee(a)
		}
		for _, a := range call.args {
			e.escape(st, a, call.instr)
		}
	} else {
		for _, a := range call.args {
			e.escapeClosures(st, a, call.instr, 0)
		}
	}
	rs := e.freshRes(st, call)
	n := len(rs)
	if n == 0 {
		return
	}
	short := call.name[strings.LastIndexByte(call.name, '.')+1:]
	if n == 1 {
		if strings.HasPrefix(short, "New") || strings.HasPrefix(call.name, "log/slog.") || strings.HasPrefix(call.name, "time.") || strings.HasPrefix(call.name, "(*net/http.Request)") {
			if nilable(rs[0].t) && !isErrorType(rs[0].t) {
				st.assume(mkEq(rs[0], TNil), false)
			}
		}
		e.finish(st, call, rs...)
		return
	}
	if isErrorType(rs[n-1].t) {
		anyPtr := false
		for _, r := range rs[:n-1] {
			if nilable(r.t) {
				anyPtr = true
			}
		}
		if anyPtr {
			e.fork(st, func(s *State) bool {
				if !s.assume(mkEq(rs[n-1], TNil), true) {
					return false
				}
				for _, r := range rs[:n-1] {
					switch r.t.Underlying().(type) {
					case *types.Pointer, *types.Interface, *types.Signature, *types.Chan:
						s.assume(mkEq(r, TNil), false)
					}
				}
				out := append([]*Term(nil), rs...)
				out[n-1] = TNil
				e.finish(s, call, out...)
				return true
			}, func(s *State) bool {
				if !s.assume(mkEq(rs[n-1], TNil), false) {
					return false
				}
				e.finish(s, call, rs...)
				s.note(instrPos(call.instr), "%s fails", short)
				return true
			})
			return
		}
	}
	e.finish(st, call, rs...)
}

func (e *Engine) lockOp(st *State, call *Call, mu *Term, op string) bool {
	in := call.instr
	switch op {
	case "Lock", "RLock":
		w := op == "Lock"
		if e.h.Lock != nil {
			e.h.Lock(st, mu, w, in)
			if st.dead {
				return true
			}
		}
		if w {
			st.locks[mu] = -1
		} else if st.locks[mu] >= 0 {
			st.locks[mu]++
		}
		st.lockHavoc(mu)
		if e.h.Locked != nil {
			e.h.Locked(st, mu, w, in)
		}
	case "Unlock", "RUnlock":
		w := op == "Unlock"
		if e.h.Unlock != nil {
			e.h.Unlock(st, mu, w, in)
			if st.dead {
				return true
			}
		}
		if st.locks[mu] > 1 {
			st.locks[mu]--
		} else {
			delete(st.locks, mu)
		}
	case "TryLock", "TryRLock":
		w := op == "TryLock"
		e.fork(st, func(s *State) bool {
			if e.h.Lock != nil {
				e.h.Lock(s, mu, w, in)
			}
			if w {
				s.locks[mu] = -1
			} else if s.locks[mu] >= 0 {
				s.locks[mu]++
			}
			s.lockHavoc(mu)
			if e.h.Locked != nil {
				e.h.Locked(s, mu, w, in)
			}
			e.finish(s, call, TTrue)
			return !s.dead
		}, func(s *State) bool {
			e.finish(s, call, TFalse)
			return true
		})
	default:
		return false
	}
	return true
}

// model handles library functions with known meaning.
func (e *Engine) model(st *State, fr *Frame, call *Call) bool {
	args := call.args
	name := call.name
	short := name[strings.LastIndexByte(name, '.')+1:]
	switch {
	case strings.HasPrefix(name, "(*sync.Mutex)."), strings.HasPrefix(name, "(*sync.RWMutex)."):
		return e.lockOp(st, call, args[0], short)
	case name == "(sync.Locker).Lock" || name == "(sync.Locker).Unlock":
		return e.lockOp(st, call, call.recv, short)
	}
	switch name {
	case "(*sync.Once).Do":
		e.onceDo(st, fr, call, args[0], args[1])
		return true
	case "sync.OnceFunc":
		e.finish(st, call, intern(OCall, "sync.OnceFunc", 0, 0, call.res.At(0).Type(), nil, nil, args[0], st.sym("once", call.instr, fr.ctx, 0, nil)))
		return true
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait":
		return true
	case "(*sync.WaitGroup).Go":
		e.escape(st, args[1], call.instr)
		e.goCall(st, call, args[1], nil)
		return true
	case "time.AfterFunc":
		e.escape(st, args[1], call.instr)
		e.goCall(st, call, args[1], nil)
		return false
	case "(*sync.Map).Range":
		if m := e.p.models["SyncMapRange"]; m != nil {
			e.enter(st, fr, call, m, nil, []*Term{args[0], args[1]})
			return true
		}
	case "github.com/cenkalti/backoff/v4.RetryNotify", "github.com/cenkalti/backoff/v4.Retry":
		if m := e.p.models[short]; m != nil {
			e.enter(st, fr, call, m, nil, args)
			return true
		}
	case "github.com/cenkalti/backoff/v4.WithContext":
		e.finish(st, call, mkIface(call.res.At(0).Type(), intern(OCall, "backoff.WithContext", 0, 0, call.res.At(0).Type(), nil, nil, args[0], args[1])))
		return true
	case "github.com/cenkalti/backoff/v4.Permanent":
		e.finish(st, call, mkIface(call.res.At(0).Type(), intern(OCall, "backoff.Permanent", 0, 0, call.res.At(0).Type(), nil, nil, args[0])))
		return true
	case "errors.New":
		e.finish(st, call, st.wrapErr(call.instr, fr.ctx, nil))
		return true
	case "fmt.Errorf":
		f, ok := args[0].strVal()
		el, ok2 := st.sliceElems(args[1])
		if !ok || !ok2 {
			s := st.sym("errorf", call.instr, fr.ctx, 0, errType())
			st.assume(mkEq(s, TNil), false)
			e.finish(st, call, s)
			return true
		}
		e.finish(st, call, st.wrapErr(call.instr, fr.ctx, wrappedArgs(f, el)))
		return true
	case "fmt.Sprintf":
		if f, ok := args[0].strVal(); ok {
			if el, ok := st.sliceElems(args[1]); ok {
				if t := catFormat(f, el); t != nil {
					e.finish(st, call, t)
					return true
				}
			}
		}
	case "errors.Is":
		e.finish(st, call, st.evalBool(mkIs(args[0], args[1])))
		return true
	case "errors.Join":
		if el, ok := st.sliceElems(args[0]); ok {
			e.finish(st, call, intern(OCall, "errors.Join", 0, 0, errType(), nil, nil, el...))
			return true
		}
	case "context.Background", "context.TODO":
		background.t = call.res.At(0).Type()
		e.persistent[background] = true
		st.facts[mkEq(background, TNil)] = false
		st.facts[mkIsDone(background)] = false
		e.finish(st, call, background)
		return true
	case "context.WithCancel", "context.WithTimeout", "context.WithDeadline", "os/signal.NotifyContext", "context.WithCancelCause":
		kind := "ctx"
		if name == "context.WithTimeout" || name == "context.WithDeadline" {
			kind = "timeout"
		}
		var with []*Term
		if name == "context.WithTimeout" {
			with = args[1:2]
		}
		c := e.newCtx(st, call, kind, args[0], with...)
		e.finish(st, call, c, intern(OCancel, "", 0, 0, call.res.At(1).Type(), nil, nil, c))
		return true
	case "context.WithValue":
		c := intern(OCtx, fmt.Sprintf("%s#%d@%d", "value", e.siteID(call.instr), call.ctx.id), 1, 0, args[0].t, nil, nil, args...)
		symSites[c] = symSite{call.instr, call.ctx}
		st.age(c)
		e.finish(st, call, c)
		return true
	case "context.WithoutCancel":
		c := e.newCtx(st, call, "nocancel", background)
		e.finish(st, call, c)
		return true
	case "(context.Context).Done":
		if call.recv == background {
			e.finish(st, call, TNil)
			return true
		}
		e.finish(st, call, intern(ODoneCh, "", 0, 0, call.res.At(0).Type(), nil, nil, stripValueCtx(call.recv)))
		return true
	case "(context.Context).Err":
		ctx := stripValueCtx(call.recv)
		d := mkIsDone(ctx)
		switch st.evalBool(d) {
		case TTrue:
			e.finish(st, call, mkCtxErr(ctx))
		case TFalse:
			e.finish(st, call, TNil)
		default:
			e.fork(st, func(s *State) bool {
				if !s.assume(d, true) {
					return false
				}
				e.finish(s, call, mkCtxErr(ctx))
				s.note(call.pos(), "context is finished")
				return true
			}, func(s *State) bool {
				e.finish(s, call, TNil)
				return true
			})
		}
		return true
	case "context.Cause":
		return false
	case "(context.Context).Value":
		// the value a derived context carries
		c := call.recv
		for c.op == OCtx {
			if c.idx == 1 && len(c.a) == 3 {
				if st.knownTrue(mkEq(c.a[1], args[0])) {
					e.finish(st, call, c.a[2])
					return true
				}
				if !st.distinct(c.a[1], args[0]) {
					return false
				}
			}
			c = c.a[0]
		}
		e.finish(st, call, intern(OCall, "ctxvalue", 0, 0, call.res.At(0).Type(), nil, nil, c, args[0]))
		return true
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc", "slices.Sort", "sort.Sort", "sort.Stable", "sort.Strings":
		x := unwrapIface(args[0])
		y := intern(OCall, "perm", e.siteID(call.instr), 0, x.t, nil, nil, x)
		st.havocPointee(x)
		st.replaceTerm(x, y)
		return true
	case "slices.Clone":
		e.finish(st, call, intern(OAppendSlice, "", 0, 0, args[0].t, nil, nil, TNil, args[0]))
		return true
	case "maps.Clone":
		m := args[0]
		if mt, ok := call.res.At(0).Type().Underlying().(*types.Map); ok {
			a := st.alloc("map", call.instr, fr.ctx, call.res.At(0).Type())
			symSites[a] = symSite{call.instr, fr.ctx}
			st.clearCells(a)
			st.heap[mkMapFull(a)] = TTrue
			over := intern(OCall, fmt.Sprintf("over@%d", fr.ctx.id), e.siteID(call.instr), 0, types.Typ[types.Int], nil, nil, mkKeys(m))
			st.heap[mkContent(a)] = mkSeq("all", TNil, over, mkLookup(m, mkBeta(over), mt.Elem()), a.t)
			e.finish(st, call, a)
			return true
		}
	case "os.Exit", "log.Fatal", "log.Fatalf", "runtime.Goexit":
		if e.h.Exit != nil {
			e.h.Exit(st, nil)
		}
		st.dead = true
		return true
	case "(*sync/atomic.Value).Store", "(*sync/atomic.Pointer).Store":
		e.escape(st, args[1], call.instr)
		return true
	}
	return false
}

// stripValueCtx: contexts carrying values finish with their parent.
func stripValueCtx(c *Term) *Term {
	for c.op == OCtx && c.idx == 1 {
		c = c.a[0]
	}
	return c
}

func wrappedArgs(f string, el []*Term) []*Term {
	var out []*Term
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			continue
		}
		if f[i] == 'w' && n < len(el) {
			out = append(out, el[n])
		}
		n++
	}
	return out
}

// replaceTerm renames a value everywhere.
func (st *State) replaceTerm(from, to *Term) {
	if from == TNil || from.isConst() {
		return
	}
	memo := map[*Term]*Term{}
	// the new name mentions the old one
	memo[to] = to
	sb := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		return substAny(t, from, to, memo)
	}
	for _, f := range st.frames {
		for v, t := range f.env {
			f.env[v] = sb(t)
		}
	}
	for k, v := range st.heap {
		st.heap[k] = sb(v)
	}
	nf := map[*Term]bool{}
	for k, v := range st.facts {
		nf[sb(k)] = v
	}
	st.facts = nf
	for k, l := range st.lists {
		n := make([]*Term, len(l))
		for i, v := range l {
			n[i] = sb(v)
		}
		st.lists[k] = n
	}
	for k, v := range st.obs {
		st.obs[k] = sb(v)
	}
}

func (e *Engine) goStmt(st *State, fr *Frame, x *ssa.Go) {
	fnv, recv, args := e.callOperands(st, fr, &x.Call)
	if st.dead {
		return
	}
	call := &Call{instr: x, common: &x.Call, args: args, recv: recv, res: x.Call.Signature().Results(), ctx: fr.ctx}
	if x.Call.IsInvoke() {
		call.method = x.Call.Method
		call.name = normName(x.Call.Method.FullName())
		if f := e.resolveInvoke(recv, x.Call.Method); f != nil {
			fnv = intern(OFunc, f.String(), 0, 0, f.Type(), nil, f)
			args = append([]*Term{recv.a[0]}, args...)
			call.args = args
		}
	}
	for _, a := range args {
		e.escape(st, a, x)
	}
	if fnv == nil {
		if e.h.Go != nil {
			e.h.Go(st, call)
		}
		return
	}
	e.escape(st, fnv, x)
	e.goCall(st, call, fnv, args)
}

func (e *Engine) goCall(st *State, call *Call, fnv *Term, args []*Term) {
	call.fnval = fnv
	if fnv.fn != nil {
		call.fn = fnv.fn
		call.name = normName(fnv.fn.String())
	}
	follow := false
	if e.h.Go != nil {
		follow = e.h.Go(st, call)
	}
	if follow && !st.dead {
		e.spawn(st, fnv, "goroutine "+fnv.fn.String(), args...)
	}
}

// tailPosition: the call's result is returned as it is.
func tailPosition(in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	b := c.Block()
	i := 0
	for i < len(b.Instrs) && b.Instrs[i] != in {
		i++
	}
	var ex []ssa.Value
	for _, x := range b.Instrs[i+1:] {
		switch y := x.(type) {
		case *ssa.Extract:
			if y.Tuple != ssa.Value(c) {
				return false
			}
			ex = append(ex, y)
		case *ssa.DebugRef, *ssa.RunDefers:
		case *ssa.Return:
			n := c.Call.Signature().Results().Len()
			if len(y.Results) != n {
				return false
			}
			if n == 1 {
				return y.Results[0] == ssa.Value(c)
			}
			for k, r := range y.Results {
				e, ok := r.(*ssa.Extract)
				if !ok || e.Tuple != ssa.Value(c) || e.Index != k {
					return false
				}
			}
			return true
		default:
			return false
		}
	}
	return false
}

// tailCall treats a self call in tail position like a loop.
func (e *Engine) tailCall(st *State, fr *Frame, call *Call, f *ssa.Function, bindings, args []*Term) bool {
	if st.top() != fr || fr.fn != f || call.defer_ || len(fr.defers) > 0 || !tailPosition(call.instr) {
		return false
	}
	if e.h.Tail != nil {
		e.h.Tail(st, call)
		if st.dead {
			return true
		}
	}
	for i := len(fr.loops) - 1; i >= 0; i-- {
		st.leaveLoop(&fr.loops[i], false, args...)
		if e.h.LoopBreak != nil {
			e.h.LoopBreak(st, &LoopEv{fr: fr, loop: fr.loops[i].loop, st: &fr.loops[i]})
		}
	}
	fr.loops = nil
	fr.env = map[ssa.Value]*Term{}
	for i, p := range f.Params {
		fr.env[p] = args[i]
	}
	for i, p := range f.FreeVars {
		if i < len(bindings) {
			fr.env[p] = bindings[i]
		}
	}
	e.count("tail calls")
	e.arrive(st, fr, f.Blocks[0], true)
	return true
}

// catFormat turns the formatting of plain strings into a concatenation.
func catFormat(f string, args []*Term) *Term {
	var parts []*Term
	n := 0
	for f != "" {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			parts = append(parts, mkStr(f))
			break
		}
		if i+1 >= len(f) {
			return nil
		}
		parts = append(parts, mkStr(f[:i]))
		switch f[i+1] {
		case '%':
			parts = append(parts, mkStr("%"))
		case 's', 'v':
			if n >= len(args) {
				return nil
			}
			a := args[n]
			n++
			if a.op != OIface || typeKey(a.t) != "string" {
				return nil
			}
			parts = append(parts, a.a[0])
		default:
			return nil
		}
		f = f[i+2:]
	}
	if n != len(args) {
		return nil
	}
	return mkCat(parts...)
}
