package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ctx is an inlining context: a call string.
type Ctx struct {
	id     int
	parent *Ctx
	call   ssa.Instruction
	fn     *ssa.Function
}

type ctxKey struct {
	parent *Ctx
	call   ssa.Instruction
	fn     *ssa.Function
}

var ctxs = map[ctxKey]*Ctx{}

func mkCtx(parent *Ctx, call ssa.Instruction, fn *ssa.Function) *Ctx {
	k := ctxKey{parent, call, fn}
	if c, ok := ctxs[k]; ok {
		return c
	}
	c := &Ctx{id: len(ctxs) + 1, parent: parent, call: call, fn: fn}
	ctxs[k] = c
	return c
}

type deferred struct {
	instr ssa.Instruction
	fn    *Term
	args  []*Term
	call  *ssa.CallCommon
	recv  *Term
}

type loopSt struct {
	loop       *Loop
	mode       int   // 1 counted traversal, 2 map traversal, 3 other
	phase      int8  // decision the header has to take
	coll       *Term // collection, if known
	bound      *Term // number of iterations
	over       *Term // names this traversal
	idx        *Term // index of the current iteration
	key        *Term // key of the current iteration
	init       *Term
	off        int64
	exact      bool
	unrolled   bool
	iterated   bool
	iter       int
	prev       *snap
	next       map[ssa.Value]*Term
	filled     []*Term
	everFilled []*Term
}

func (l *loopSt) terms() []**Term {
	out := []**Term{&l.coll, &l.bound, &l.over, &l.idx, &l.key, &l.init}
	for i := range l.everFilled {
		out = append(out, &l.everFilled[i])
	}
	return out
}

// snap is what a loop header saw last.
type snap struct {
	heap map[*Term]*Term
	env  map[ssa.Value]*Term
}

// Frame is one activation in the inlined call stack.
type Frame struct {
	fn       *ssa.Function
	ctx      *Ctx
	block    *ssa.BasicBlock
	prev     *ssa.BasicBlock
	pc       int
	env      map[ssa.Value]*Term
	defers   []deferred
	call     ssa.Instruction            // call instruction in the caller, nil when the result is discarded
	onReturn func(st *State, res *Term) // continuation of engine models
	loops    []loopSt
	isDefer  bool
}

func (f *Frame) clone() *Frame {
	g := *f
	g.env = make(map[ssa.Value]*Term, len(f.env))
	for k, v := range f.env {
		g.env[k] = v
	}
	g.defers = append([]deferred(nil), f.defers...)
	g.loops = append([]loopSt(nil), f.loops...)
	return &g
}

type ival struct{ lo, hi int64 }

var fullIval = ival{math.MinInt64, math.MaxInt64}

// Trail records how a state was reached, for reports only.
type Trail struct {
	prev *Trail
	pos  token.Pos
	note string
}

type lockKey struct {
	t *Term
}

// State is an abstract program state.
type State struct {
	eng       *Engine
	frames    []*Frame
	heap      map[*Term]*Term
	facts     map[*Term]bool
	ivals     map[*Term]ival
	eqc       map[*Term]*Term
	locks     map[*Term]int // >0 read holds, -1 write hold
	obs       map[string]*Term
	lists     map[string][]*Term
	panicking bool
	thread    string
	trail     *Trail
	dead      bool
}

func (st *State) clone() *State {
	n := &State{eng: st.eng, panicking: st.panicking, thread: st.thread, trail: st.trail}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		n.frames[i] = f.clone()
	}
	n.heap = make(map[*Term]*Term, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.facts = make(map[*Term]bool, len(st.facts))
	for k, v := range st.facts {
		n.facts[k] = v
	}
	n.ivals = make(map[*Term]ival, len(st.ivals))
	for k, v := range st.ivals {
		n.ivals[k] = v
	}
	n.eqc = make(map[*Term]*Term, len(st.eqc))
	for k, v := range st.eqc {
		n.eqc[k] = v
	}
	n.locks = make(map[*Term]int, len(st.locks))
	for k, v := range st.locks {
		n.locks[k] = v
	}
	n.obs = make(map[string]*Term, len(st.obs))
	for k, v := range st.obs {
		n.obs[k] = v
	}
	n.lists = make(map[string][]*Term, len(st.lists))
	for k, v := range st.lists {
		n.lists[k] = v
	}
	return n
}

func newState(e *Engine) *State {
	return &State{eng: e, heap: map[*Term]*Term{}, facts: map[*Term]bool{}, ivals: map[*Term]ival{}, eqc: map[*Term]*Term{},
		locks: map[*Term]int{}, obs: map[string]*Term{}, lists: map[string][]*Term{}}
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) note(pos token.Pos, format string, args ...any) {
	st.trail = &Trail{prev: st.trail, pos: pos, note: fmt.Sprintf(format, args...)}
}

// ---- observer storage ----

func (st *State) flag(k string) bool { return st.obs[k] == TTrue }
func (st *State) setFlag(k string, b bool) {
	if b {
		st.obs[k] = TTrue
	} else {
		delete(st.obs, k)
	}
}
func (st *State) num(k string) int {
	if t, ok := st.obs[k]; ok {
		n, _ := t.intVal()
		return int(n)
	}
	return 0
}
func (st *State) setNum(k string, n int) {
	if n == 0 {
		delete(st.obs, k)
	} else {
		st.obs[k] = mkInt(int64(n))
	}
}
func (st *State) get(k string) *Term { return st.obs[k] }
func (st *State) set(k string, t *Term) {
	if t == nil {
		delete(st.obs, k)
	} else {
		st.obs[k] = t
	}
}
func (st *State) list(k string) []*Term { return st.lists[k] }
func (st *State) setList(k string, l []*Term) {
	if len(l) == 0 {
		delete(st.lists, k)
	} else {
		st.lists[k] = l
	}
}
func (st *State) addTo(k string, t *Term) {
	for _, x := range st.lists[k] {
		if x == t {
			return
		}
	}
	n := append(append([]*Term(nil), st.lists[k]...), t)
	sort.Slice(n, func(i, j int) bool { return n[i].id < n[j].id })
	st.lists[k] = n
}
func (st *State) inList(k string, t *Term) bool {
	for _, x := range st.lists[k] {
		if x == t {
			return true
		}
	}
	return false
}
func (st *State) removeFrom(k string, t *Term) {
	var n []*Term
	for _, x := range st.lists[k] {
		if x != t {
			n = append(n, x)
		}
	}
	st.setList(k, n)
}

// ---- substitution and recency ----

func (st *State) forTerms(f func(t *Term) bool) bool {
	for _, fr := range st.frames {
		for _, t := range fr.env {
			if !f(t) {
				return false
			}
		}
		for _, d := range fr.defers {
			if (d.fn != nil && !f(d.fn)) || (d.recv != nil && !f(d.recv)) {
				return false
			}
			for _, a := range d.args {
				if !f(a) {
					return false
				}
			}
		}
		for i := range fr.loops {
			for _, p := range fr.loops[i].terms() {
				if *p != nil && !f(*p) {
					return false
				}
			}
		}
	}
	for k, v := range st.heap {
		if !f(k) || !f(v) {
			return false
		}
	}
	for k := range st.facts {
		if !f(k) {
			return false
		}
	}
	for k := range st.ivals {
		if !f(k) {
			return false
		}
	}
	for k := range st.eqc {
		if !f(k) {
			return false
		}
	}
	for k := range st.locks {
		if !f(k) {
			return false
		}
	}
	for _, v := range st.obs {
		if !f(v) {
			return false
		}
	}
	for _, l := range st.lists {
		for _, v := range l {
			if !f(v) {
				return false
			}
		}
	}
	return true
}

func (st *State) mentions(s *Term) bool {
	return !st.forTerms(func(t *Term) bool { return !t.mentions(s) })
}

func (st *State) subst(from, to *Term) {
	memo := map[*Term]*Term{}
	sb := func(t *Term) *Term { return substTerm(t, from, to, memo) }
	for _, fr := range st.frames {
		for k, t := range fr.env {
			if t.mentions(from) {
				fr.env[k] = sb(t)
			}
		}
		for i := range fr.defers {
			d := &fr.defers[i]
			if d.fn != nil {
				d.fn = sb(d.fn)
			}
			if d.recv != nil {
				d.recv = sb(d.recv)
			}
			na := make([]*Term, len(d.args))
			for j, a := range d.args {
				na[j] = sb(a)
			}
			d.args = na
		}
		for i := range fr.loops {
			l := &fr.loops[i]
			l.everFilled = append([]*Term(nil), l.everFilled...)
			for _, p := range l.terms() {
				if *p != nil {
					*p = sb(*p)
				}
			}
			if l.prev != nil {
				n := &snap{heap: make(map[*Term]*Term, len(l.prev.heap)), env: make(map[ssa.Value]*Term, len(l.prev.env))}
				for k, v := range l.prev.heap {
					n.heap[sb(k)] = sb(v)
				}
				for k, v := range l.prev.env {
					n.env[k] = sb(v)
				}
				l.prev = n
			}
		}
	}
	nh := make(map[*Term]*Term, len(st.heap))
	for k, v := range st.heap {
		nh[sb(k)] = sb(v)
	}
	st.heap = nh
	nf := make(map[*Term]bool, len(st.facts))
	for k, v := range st.facts {
		nf[sb(k)] = v
	}
	st.facts = nf
	ni := make(map[*Term]ival, len(st.ivals))
	for k, v := range st.ivals {
		ni[sb(k)] = v
	}
	st.ivals = ni
	ne := make(map[*Term]*Term, len(st.eqc))
	for k, v := range st.eqc {
		ne[sb(k)] = v
	}
	st.eqc = ne
	nl := make(map[*Term]int, len(st.locks))
	for k, v := range st.locks {
		nl[sb(k)] = v
	}
	st.locks = nl
	for k, v := range st.obs {
		if v.mentions(from) {
			st.obs[k] = sb(v)
		}
	}
	for k, l := range st.lists {
		ch := false
		for _, v := range l {
			if v.mentions(from) {
				ch = true
			}
		}
		if ch {
			n := make([]*Term, len(l))
			for i, v := range l {
				n[i] = sb(v)
			}
			st.lists[k] = n
		}
	}
}

// dropFactsAbout forgets what is known about terms that mention s.
func (st *State) dropFactsAbout(s *Term) {
	for k := range st.facts {
		if k.mentions(s) {
			delete(st.facts, k)
		}
	}
	for k := range st.ivals {
		if k.mentions(s) {
			delete(st.ivals, k)
		}
	}
	for k := range st.eqc {
		if k.mentions(s) {
			delete(st.eqc, k)
		}
	}
}

// forget drops what is known about terms that contain t.
func (st *State) forget(t *Term) {
	for k := range st.facts {
		if contains(k, t) {
			delete(st.facts, k)
		}
	}
	for k := range st.ivals {
		if contains(k, t) {
			delete(st.ivals, k)
		}
	}
	for k := range st.eqc {
		if contains(k, t) {
			delete(st.eqc, k)
		}
	}
}

var usedOver = map[*Term]bool{}

// ageOver renames what an earlier run of the same loop made, because the loop
// starts again.
func (st *State) ageOver(over *Term) {
	if !usedOver[over] {
		usedOver[over] = true
		return
	}
	st.gc()
	if st.forTerms(func(t *Term) bool { return !contains(t, over) }) {
		return
	}
	st.forget(over)
	old := intern(over.op, over.s, over.idx, over.gen+1, over.t, over.c, over.fn, over.a...)
	st.forget(old)
	memo := map[*Term]*Term{}
	sb := func(t *Term) *Term { return substAny(t, over, old, memo) }
	for _, fr := range st.frames {
		for k, t := range fr.env {
			fr.env[k] = sb(t)
		}
		for i := range fr.defers {
			d := &fr.defers[i]
			if d.fn != nil {
				d.fn = sb(d.fn)
			}
			if d.recv != nil {
				d.recv = sb(d.recv)
			}
			na := make([]*Term, len(d.args))
			for j, a := range d.args {
				na[j] = sb(a)
			}
			d.args = na
		}
		for i := range fr.loops {
			l := &fr.loops[i]
			if l.over == over {
				continue
			}
			l.everFilled = append([]*Term(nil), l.everFilled...)
			for _, p := range l.terms() {
				if *p != nil {
					*p = sb(*p)
				}
			}
			if l.prev != nil {
				n := &snap{heap: make(map[*Term]*Term, len(l.prev.heap)), env: make(map[ssa.Value]*Term, len(l.prev.env))}
				for k, v := range l.prev.heap {
					n.heap[sb(k)] = sb(v)
				}
				for k, v := range l.prev.env {
					n.env[k] = sb(v)
				}
				l.prev = n
			}
		}
	}
	nh := make(map[*Term]*Term, len(st.heap))
	for k, v := range st.heap {
		nh[sb(k)] = sb(v)
	}
	st.heap = nh
	nl := make(map[*Term]int, len(st.locks))
	for k, v := range st.locks {
		nl[sb(k)] = v
	}
	st.locks = nl
	for k, v := range st.obs {
		st.obs[k] = sb(v)
	}
	for k, l := range st.lists {
		n := make([]*Term, len(l))
		for i, v := range l {
			n[i] = sb(v)
		}
		st.lists[k] = n
	}
}

var usedSyms = map[*Term]bool{}

// age renames a symbolic term to its older incarnation, because its site is
// about to produce a new one. Incarnations older than the previous one share a
// name about which nothing is known.
func (st *State) age(s *Term) {
	if !usedSyms[s] {
		usedSyms[s] = true
		return
	}
	if !st.mentions(s) {
		return
	}
	old := intern(s.op, s.s, s.idx, s.gen+1, s.t, s.c, s.fn, s.a...)
	old.pos = s.pos
	existed := st.mentions(old)
	if existed {
		// mentioned by garbage only?
		st.gc()
		existed = st.mentions(old)
		if !st.mentions(s) {
			return
		}
	}
	if existed && s.gen == 0 && s.op == OLoad {
		usedSyms[old] = true
		st.age(old)
		existed = false
	}
	st.subst(s, old)
	if existed {
		st.dropFactsAbout(old)
		for k := range st.heap {
			if k.mentions(old) {
				delete(st.heap, k)
			}
		}
	}
}

func (st *State) sym(name string, instr ssa.Instruction, ctx *Ctx, k int, t types.Type) *Term {
	s := intern(OSym, fmt.Sprintf("%s#%d@%d", name, st.eng.siteID(instr), ctx.id), k, 0, t, nil, nil)
	if s.pos == 0 && instr != nil {
		s.pos = instrPos(instr)
	}
	st.age(s)
	return s
}

func (st *State) alloc(name string, instr ssa.Instruction, ctx *Ctx, t types.Type, args ...*Term) *Term {
	s := intern(OAlloc, fmt.Sprintf("%s#%d@%d", name, st.eng.siteID(instr), ctx.id), 0, 0, t, nil, nil, args...)
	if s.pos == 0 && instr != nil {
		s.pos = instrPos(instr)
	}
	st.age(s)
	return s
}

// ---- facts ----

func (st *State) isNil(x *Term) *Term { return st.evalBool(mkEq(x, TNil)) }

func (st *State) knownNil(x *Term) bool    { return st.isNil(x) == TTrue }
func (st *State) knownNonNil(x *Term) bool { return st.isNil(x) == TFalse }

func (st *State) ivalOf(x *Term) ival {
	if k, ok := x.intVal(); ok {
		return ival{k, k}
	}
	iv, ok := st.ivals[x]
	if !ok {
		iv = fullIval
	}
	if widening(x) {
		in := st.ivalOf(x.a[0])
		iv.lo, iv.hi = max(iv.lo, in.lo), min(iv.hi, in.hi)
	}
	if iv.lo < 0 && (x.op == OLen || x.op == OCap || x.op == OLookup && x.s == "len" || x.op == OCall && x.s == "rnumfield" || isUnsigned(x.t) || strings.HasPrefix(x.s, "idx")) && x.op != OConst {
		iv.lo = 0
	}
	if x.op == OBin && x.s == "++" {
		a, b := st.ivalOf(x.a[0]), st.ivalOf(x.a[1])
		if a.lo >= 0 && b.lo >= 0 && iv.lo < 0 {
			iv.lo = 0
		}
	}
	return iv
}

func structNonNil(x *Term) int { // 1 non-nil, -1 nil, 0 unknown
	switch x.op {
	case ONil:
		return -1
	case OAlloc, OFunc, OClosure, OIface, OGlobal, OFieldAddr, OIndexAddr, OWrap, OCtxErr, ODoneCh, OCancel, OCtx, OBuiltin, OStruct, OConst:
		return 1
	case OSlice:
		if x.a[0].op == OAlloc {
			return 1
		}
	case OAppend:
		if len(x.a) > 1 {
			return 1
		}
	case OConv:
		return structNonNil(x.a[0])
	}
	return 0
}

// evalBool simplifies a boolean term using what is known on this path.
func (st *State) evalBool(b *Term) *Term {
	switch b {
	case TTrue, TFalse:
		return b
	}
	if b.op == ONot {
		return mkNot(st.evalBool(b.a[0]))
	}
	if v, ok := st.facts[b]; ok {
		return mkBool(v)
	}
	switch b.op {
	case OEq:
		x, y := b.a[0], b.a[1]
		if x == TNil {
			x, y = y, x
		}
		if y == TNil {
			switch structNonNil(x) {
			case 1:
				return TFalse
			case -1:
				return TTrue
			}
			switch x.op {
			case OTA:
				if v, ok := st.facts[taok(x)]; ok && v && !isIfaceType(x.t) {
					// a concrete pointer may still be nil
				} else if ok && v {
					return TFalse
				}
			case OLoad:
				if x.a[0].op == OGlobal && st.eng.finalErrGlobal(x.a[0]) {
					return TFalse
				}
			case OSlice:
				return st.isNil(x.a[0])
			case OAppendSlice:
			}
			if x.op == OCall && strings.HasPrefix(x.s, "errors.Join") {
				all := true
				for _, e := range x.a {
					switch st.isNil(e) {
					case TFalse:
						return TFalse
					case TTrue:
					default:
						all = false
					}
				}
				if all {
					return TTrue
				}
			}
			for f, v := range st.facts {
				if v && f.op == OTAOk && f.a[0] == x {
					return TFalse
				}
			}
			if x.op == OBin || isSliceOrMap(x.t) {
				if iv := st.ivalOf(mkLen(x)); isSliceOrMap(x.t) && iv.lo > 0 {
					return TFalse
				}
			}
			return b
		}
		// constants
		var c, v *Term
		if x.isConst() {
			c, v = x, y
		} else if y.isConst() {
			c, v = y, x
		}
		if c != nil {
			if k, ok := st.eqc[v]; ok {
				return mkEq(k, c)
			}
			if n, ok := c.intVal(); ok {
				iv := st.ivalOf(v)
				if n < iv.lo || n > iv.hi {
					return TFalse
				}
				if iv.lo == iv.hi && iv.lo == n {
					return TTrue
				}
			}
		} else {
			if kx, ok := st.eqc[x]; ok {
				if ky, ok := st.eqc[y]; ok {
					return mkEq(kx, ky)
				}
			}
			nx, ny := st.isNil2(x), st.isNil2(y)
			if nx != 0 && ny != 0 && nx != ny {
				return TFalse
			}
			if isIntType(x.t) {
				ix, iy := st.ivalOf(x), st.ivalOf(y)
				if ix.hi < iy.lo || iy.hi < ix.lo {
					return TFalse
				}
				if st.facts[intern(OLt, "", 0, 0, types.Typ[types.Bool], nil, nil, x, y)] || st.facts[intern(OLt, "", 0, 0, types.Typ[types.Bool], nil, nil, y, x)] {
					return TFalse
				}
			}
			// the package's own error variables differ from each other, from
			// errors made here and from those of contexts
			if st.ownErr(x) && (st.ownErr(y) || y.op == OWrap || y.op == OCtxErr) || st.ownErr(y) && (x.op == OWrap || x.op == OCtxErr) {
				return TFalse
			}
			// an error made here differs from any other value
			if freshErr(x) || freshErr(y) {
				if x.op != OSym && y.op != OSym || (freshErr(x) && freshErr(y)) {
					return TFalse
				}
			}
		}
	case OLtC:
		n := parseInt(b.s)
		iv := st.ivalOf(b.a[0])
		if iv.hi < n {
			return TTrue
		}
		if iv.lo >= n {
			return TFalse
		}
	case OLt:
		x, y := b.a[0], b.a[1]
		if isIntType(x.t) || isIntType(y.t) {
			ix, iy := st.ivalOf2(x), st.ivalOf2(y)
			if ix.hi < iy.lo {
				return TTrue
			}
			if ix.lo >= iy.hi && iy.hi < fullIval.hi {
				return TFalse
			}
			// y < x or y+1 <= x known
			if v, ok := st.facts[intern(OLt, "", 0, 0, types.Typ[types.Bool], nil, nil, y, x)]; ok && v {
				return TFalse
			}
			// x+k < y with x+j < y known, j >= k
			bx, kx := splitAdd(x)
			for f, v := range st.facts {
				if f.op == OLt && f.a[1] == y {
					b2, k2 := splitAdd(f.a[0])
					if b2 == bx && bx != nil {
						if v && k2 >= kx {
							return TTrue
						}
						if !v && k2 <= kx {
							return TFalse
						}
					}
				}
			}
		}
	case OTAOk:
		x := b.a[0]
		if x.op == OIface {
			return mkBool(taHolds(x.t, b.t))
		}
		if st.isNil2(x) == -1 {
			return TFalse
		}
		if v := st.eng.dynType(x); v != nil {
			return mkBool(taHolds(v, b.t))
		}
		for f, v := range st.facts {
			if v && f.op == OTAOk && f.a[0] == x && f != b {
				if !isIfaceType(f.t) {
					return mkBool(taHolds(f.t, b.t))
				}
			}
		}
	case OIs:
		return st.errorsIs(b.a[0], b.a[1], b)
	case OIsDone:
		c := b.a[0]
		for c.op == OCtx {
			c = c.a[0]
			if v, ok := st.facts[mkIsDone(c)]; ok && v {
				return TTrue
			}
		}
	case OLookupOk:
		// presence follows the element
	}
	return b
}

func (st *State) ivalOf2(x *Term) ival {
	iv := st.ivalOf(x)
	if x.op == OBin && x.s == "+" {
		if k, ok := x.a[1].intVal(); ok {
			b := st.ivalOf(x.a[0])
			if b.lo > math.MinInt64/2 {
				iv.lo = max(iv.lo, b.lo+k)
			}
			if b.hi < math.MaxInt64/2 {
				iv.hi = min(iv.hi, b.hi+k)
			}
		}
	}
	return iv
}

func parseInt(s string) int64 {
	var n int64
	fmt.Sscan(s, &n)
	return n
}

func freshErr(x *Term) bool { return x.op == OWrap }

func (st *State) isNil2(x *Term) int {
	switch structNonNil(x) {
	case 1:
		return 1
	case -1:
		return -1
	}
	switch st.evalBool(mkEq(x, TNil)) {
	case TTrue:
		return -1
	case TFalse:
		return 1
	}
	return 0
}

func isIfaceType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func isSliceOrMap(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

func taHolds(dyn, asserted types.Type) bool {
	if it, ok := asserted.Underlying().(*types.Interface); ok {
		return types.Implements(dyn, it)
	}
	return types.Identical(dyn, asserted)
}

func taok(x *Term) *Term {
	return intern(OTAOk, shortType(x.t), 0, 0, x.t, nil, nil, x.a[0])
}

func mkTAOk(x *Term, t types.Type) *Term {
	return intern(OTAOk, shortType(t), 0, 0, t, nil, nil, x)
}

func mkIsDone(ctx *Term) *Term {
	return intern(OIsDone, "", 0, 0, types.Typ[types.Bool], nil, nil, ctx)
}

// assume adds a fact; false means the path is infeasible.
func (st *State) assume(b *Term, val bool) bool {
	b = st.evalBool(b)
	if b == TTrue {
		return val
	}
	if b == TFalse {
		return !val
	}
	if b.op == ONot {
		return st.assume(b.a[0], !val)
	}
	st.facts[b] = val
	switch b.op {
	case OEq:
		x, y := b.a[0], b.a[1]
		var c, v *Term
		if x.isConst() {
			c, v = x, y
		} else if y.isConst() {
			c, v = y, x
		}
		if c != nil {
			n, isInt := c.intVal()
			if val {
				st.eqc[v] = c
				if isInt {
					st.ivals[v] = ival{n, n}
				}
			} else if isInt {
				iv := st.ivalOf(v)
				if n == iv.lo {
					iv.lo++
				}
				if n == iv.hi {
					iv.hi--
				}
				if iv.lo > iv.hi {
					return false
				}
				if iv != fullIval {
					st.ivals[v] = iv
				}
			}
		}
		if x == TNil || y == TNil {
			z := x
			if x == TNil {
				z = y
			}
			if val && isSliceOrMap(z.t) {
				st.ivals[mkLen(z)] = ival{0, 0}
			}
			if z.op == OCall && strings.HasPrefix(z.s, "errors.Join") && val {
				for _, e := range z.a {
					if !st.assume(mkEq(e, TNil), true) {
						return false
					}
				}
			}
		}
	case OLtC:
		n := parseInt(b.s)
		v := b.a[0]
		iv := st.ivalOf(v)
		if val {
			iv.hi = min(iv.hi, n-1)
		} else {
			iv.lo = max(iv.lo, n)
		}
		if iv.lo > iv.hi {
			return false
		}
		st.ivals[v] = iv
		if iv.lo == iv.hi {
			st.eqc[v] = mkInt(iv.lo)
		}
	case OLt:
		// 0 <= x < y  =>  y >= 1
		if val {
			ix := st.ivalOf2(b.a[0])
			if by, ky := splitAdd(b.a[1]); by != nil && ix.lo > math.MinInt64/2 {
				iv := st.ivalOf(by)
				if iv.lo < ix.lo+1-ky {
					iv.lo = ix.lo + 1 - ky
					st.ivals[by] = iv
				}
			}
		}
	case OIs:
		// errors.Is(e, t) true with t non-nil implies e non-nil
		if val && st.knownNonNil(b.a[1]) {
			if !st.assume(mkEq(b.a[0], TNil), false) {
				return false
			}
		}
	case OTAOk:
		if val {
			if !st.assume(mkEq(b.a[0], TNil), false) {
				return false
			}
		}
	}
	return true
}

func (st *State) knownTrue(b *Term) bool  { return st.evalBool(b) == TTrue }
func (st *State) knownFalse(b *Term) bool { return st.evalBool(b) == TFalse }

func mkIs(e, t *Term) *Term {
	return intern(OIs, "", 0, 0, types.Typ[types.Bool], nil, nil, e, t)
}

func (st *State) errorsIs(e, t *Term, self *Term) *Term {
	if e == t {
		return TTrue
	}
	switch st.isNil2(t) {
	case -1:
		return st.evalBool(mkEq(e, TNil))
	}
	if st.isNil2(e) == -1 {
		return st.evalBool(mkEq(t, TNil))
	}
	if e.op == OIface {
		if e.a[0].op == OConst && t.op == OIface {
			return mkEq(e, t)
		}
	}
	if e.op == OCtxErr && t.op == OCtxErr {
		if st.eng.sameCtxErr && (ctxWithin(e.a[0], t.a) || ctxWithin(t.a[0], e.a)) {
			return TTrue
		}
		return mkIsAtom(self, e, t)
	}
	if e.op == OLoad && e.a[0].op == OGlobal && t.op == OLoad && t.a[0].op == OGlobal && st.eng.finalErrGlobal(e.a[0]) && st.eng.finalErrGlobal(t.a[0]) {
		return st.evalIsGlobals(e, t)
	}
	if e.op == OLoad && e.a[0].op == OGlobal && st.eng.finalErrGlobal(e.a[0]) && t.op == OCtxErr {
		return TFalse // a package's own error is not a context error
	}
	if e.op == OSym && strings.HasPrefix(e.s, "lib:") && t.op == OLoad && t.a[0].op == OGlobal && st.eng.finalErrGlobal(t.a[0]) {
		if g := globalOf[t.a[0]]; g != nil && g.Pkg != nil {
			if _, ours := st.eng.p.spkgs[g.Pkg.Pkg.Path()]; ours {
				return TFalse
			}
		}
	}
	var kids []*Term
	switch {
	case e.op == OWrap:
		kids = e.a
		if t.op == OWrap && t != e && len(kids) == 0 {
			return TFalse
		}
	case e.op == OCall && strings.HasPrefix(e.s, "errors.Join"):
		kids = e.a
	case e.op == OIface && st.eng.wrapsNothing(e.t):
		if t.op == OIface && !types.Identical(e.t, t.t) {
			return TFalse
		}
		if t.op == OWrap || t.op == OCtxErr || (t.op == OLoad && t.a[0].op == OGlobal) {
			return TFalse
		}
		return mkIsAtom(self, e, t)
	default:
		return mkIsAtom(self, e, t)
	}
	var unknown []*Term
	for _, k := range kids {
		r := st.evalBool(mkIs(k, t))
		if r == TTrue {
			return TTrue
		}
		if r != TFalse {
			unknown = append(unknown, r)
		}
	}
	if len(unknown) == 0 {
		return TFalse
	}
	if len(unknown) == 1 {
		return unknown[0]
	}
	return mkIsAtom(self, e, t)
}

func (st *State) ownErr(x *Term) bool {
	return x.op == OLoad && x.a[0].op == OGlobal && st.eng.finalErrGlobal(x.a[0])
}

func (st *State) evalIsGlobals(e, t *Term) *Term {
	// distinct package error variables are distinct errors, unless one wraps the other
	return TFalse
}

func mkIsAtom(self, e, t *Term) *Term {
	if self != nil {
		return self
	}
	return mkIs(e, t)
}

// ---- hashing and garbage collection ----

func (st *State) hash() [2]uint64 {
	var b strings.Builder
	wt := func(t *Term) {
		if t == nil {
			b.WriteString("_,")
			return
		}
		fmt.Fprintf(&b, "%d,", t.id)
	}
	b.WriteString(st.thread)
	if st.panicking {
		b.WriteString("!P")
	}
	for _, f := range st.frames {
		fmt.Fprintf(&b, "F%d:%d:%d:", f.ctx.id, f.block.Index, f.pc)
		nums := st.eng.info(f.fn).num
		keys := make([]ssa.Value, 0, len(f.env))
		for k := range f.env {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool { return nums[keys[i]] < nums[keys[j]] })
		for _, k := range keys {
			fmt.Fprintf(&b, "%d=%d,", nums[k], f.env[k].id)
		}
		for _, d := range f.defers {
			fmt.Fprintf(&b, "D%d:", st.eng.siteID(d.instr))
			wt(d.fn)
			wt(d.recv)
			for _, a := range d.args {
				wt(a)
			}
		}
		for _, l := range f.loops {
			fmt.Fprintf(&b, "L%d:%d:%d:%v", l.loop.header.Index, l.mode, l.phase, l.iterated)
			for _, p := range l.terms() {
				wt(*p)
			}
		}
	}
	wm := func(tag string, n int, each func(i int) (int, string)) {
		type kv struct {
			k int
			v string
		}
		l := make([]kv, n)
		for i := range l {
			l[i].k, l[i].v = each(i)
		}
		sort.Slice(l, func(i, j int) bool { return l[i].k < l[j].k })
		b.WriteString(tag)
		for _, x := range l {
			fmt.Fprintf(&b, "%d=%s,", x.k, x.v)
		}
	}
	hk := make([]*Term, 0, len(st.heap))
	for k := range st.heap {
		hk = append(hk, k)
	}
	wm("H", len(hk), func(i int) (int, string) { return hk[i].id, fmt.Sprint(st.heap[hk[i]].id) })
	fk := make([]*Term, 0, len(st.facts))
	for k := range st.facts {
		fk = append(fk, k)
	}
	wm("X", len(fk), func(i int) (int, string) { return fk[i].id, fmt.Sprint(st.facts[fk[i]]) })
	ik := make([]*Term, 0, len(st.ivals))
	for k := range st.ivals {
		ik = append(ik, k)
	}
	wm("I", len(ik), func(i int) (int, string) { return ik[i].id, fmt.Sprint(st.ivals[ik[i]]) })
	ek := make([]*Term, 0, len(st.eqc))
	for k := range st.eqc {
		ek = append(ek, k)
	}
	wm("E", len(ek), func(i int) (int, string) { return ek[i].id, fmt.Sprint(st.eqc[ek[i]].id) })
	lk := make([]*Term, 0, len(st.locks))
	for k := range st.locks {
		lk = append(lk, k)
	}
	wm("K", len(lk), func(i int) (int, string) { return lk[i].id, fmt.Sprint(st.locks[lk[i]]) })
	ok := make([]string, 0, len(st.obs))
	for k := range st.obs {
		ok = append(ok, k)
	}
	sort.Strings(ok)
	b.WriteString("O")
	for _, k := range ok {
		fmt.Fprintf(&b, "%s=%d,", k, st.obs[k].id)
	}
	llk := make([]string, 0, len(st.lists))
	for k := range st.lists {
		llk = append(llk, k)
	}
	sort.Strings(llk)
	b.WriteString("L")
	for _, k := range llk {
		b.WriteString(k)
		for _, t := range st.lists[k] {
			wt(t)
		}
	}
	s := b.String()
	h1 := fnv.New64a()
	h1.Write([]byte(s))
	h2 := fnv.New64()
	h2.Write([]byte(s))
	h2.Write([]byte{1})
	return [2]uint64{h1.Sum64(), h2.Sum64()}
}

// gc drops registers that are dead and everything only they referred to.
func (st *State) gc() {
	marked := map[*Term]bool{}
	mark := func(t *Term) {
		if t == nil {
			return
		}
		for _, s := range t.syms {
			marked[s] = true
		}
	}
	for _, f := range st.frames {
		for _, t := range f.env {
			mark(t)
		}
		for _, d := range f.defers {
			mark(d.fn)
			mark(d.recv)
			for _, a := range d.args {
				mark(a)
			}
		}
		for i := range f.loops {
			for _, p := range f.loops[i].terms() {
				mark(*p)
			}
		}
	}
	for _, v := range st.obs {
		mark(v)
	}
	for _, l := range st.lists {
		for _, v := range l {
			mark(v)
		}
	}
	for k := range st.locks {
		mark(k)
	}
	live := func(s *Term) bool {
		if marked[s] {
			return true
		}
		return s.op == OSym && st.eng.persistent[s]
	}
	allLive := func(t *Term) bool {
		for _, s := range t.syms {
			if s.op == OLoad || s.op == OLookup || s.op == OLookupOk {
				if s.gen == 0 {
					continue // judged by the base it hangs off
				}
			}
			if !live(s) {
				return false
			}
		}
		return true
	}
	// heap cells of live objects keep their values alive
	done := map[*Term]bool{}
	for ch := true; ch; {
		ch = false
		for k, v := range st.heap {
			if done[k] {
				continue
			}
			if allLive(k) {
				done[k] = true
				ch = true
				mark(v)
			}
		}
	}
	for k, v := range st.heap {
		if !done[k] {
			delete(st.heap, k)
			if k.op == OMapElem && v != TAbs {
				// an element is no longer named: the rest is not all there is
				delete(st.heap, mkMapFull(k.a[0]))
			}
		}
	}
	for k := range st.facts {
		if !allLive(k) {
			delete(st.facts, k)
		}
	}
	for k := range st.ivals {
		if !allLive(k) {
			delete(st.ivals, k)
		}
	}
	for k := range st.eqc {
		if !allLive(k) {
			delete(st.eqc, k)
		}
	}
}

var _ = constant.MakeBool
