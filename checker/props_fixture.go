package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C31", "path-sensitive abstract interpretation of the fixture server's handlers and of the goroutines they start, with request data tainted",
		"The functions that answer the fixture server's requests and what they start in the background are explored with arbitrary requests and arbitrary stored records; each operation that can panic must be safe on every path",
		runC31)
}

type fixRun struct {
	a                  *Analysis
	p                  *Program
	in                 *inputRun
	trial              bool
	changed            bool
	recI               *types.Interface
	entT, mgrT, storeI types.Type
	// what the entries that a kind of container holds are known to record:
	// absent while nothing was put in, nil if not known
	holds map[string]types.Type
	// maps whose keys are all keys of other maps
	within map[string]map[string]bool
	// pointer fields of the objects put into slices that are never nil
	fields map[string]map[string]bool
	// the types whose registration is known
	tables bool
}

// requestHandlers lists the functions that answer the requests of the server
// a function sets up.
func requestHandlers(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	isHandler := func(s *types.Signature) bool {
		if s.Params().Len() != 2 || s.Results().Len() != 0 {
			return false
		}
		return typeKey(s.Params().At(0).Type()) == "net/http.ResponseWriter" && typeKey(s.Params().At(1).Type()) == "*net/http.Request"
	}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || !strings.HasPrefix(pkgPath(f), modPath) && f.Synthetic == "" {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [12]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if o == nil || *o == nil {
						continue
					}
					v := *o
					if mc, ok := v.(*ssa.MakeClosure); ok {
						v = mc.Fn
					}
					g, ok := v.(*ssa.Function)
					if !ok {
						continue
					}
					if isHandler(g.Signature) && g.Signature.Recv() == nil {
						if g.Synthetic != "" && len(g.FreeVars) == 1 { // a method value
							if m, ok := g.Object().(*types.Func); ok {
								if mf := g.Prog.FuncValue(m); mf != nil {
									g = mf
								}
							}
						}
						if !seen[g] {
							seen[g] = true
							out = append(out, g)
						}
						continue
					}
					walk(g)
				}
			}
		}
	}
	walk(fn)
	return out
}

// siteOf names the place a local map or slice is made at.
func siteOf(m *Term) string {
	if m == nil || m.op != OAlloc {
		return ""
	}
	if s, ok := symSites[m]; ok {
		return fmt.Sprintf("%p", s.in)
	}
	return ""
}

func (r *fixRun) is(t types.Type, w types.Type) bool {
	return t != nil && w != nil && types.Identical(t, w)
}

func (r *fixRun) field(x *Term, name string) *Term {
	if x == nil {
		return nil
	}
	return fieldNamed(x, structOf(x.t), name)
}

// present: the map has an entry for the key.
func (r *fixRun) present(st *State, m, k *Term) bool {
	if v := st.mapGet(m, k, elemType(m, nil)); v != nil {
		return v != TAbs
	}
	if st.knownTrue(mkLookupOk(m, k)) {
		return true
	}
	site := siteOf(m)
	if site == "" {
		return false
	}
	for f, v := range st.facts {
		if v && f.op == OLookupOk && f.a[1] == k && r.within[siteOf(f.a[0])][site] {
			return true
		}
	}
	for _, fr := range st.frames {
		for i := range fr.loops {
			if l := &fr.loops[i]; l.mode == 2 && l.key == k && r.within[siteOf(l.coll)][site] {
				return true
			}
		}
	}
	return false
}

// container: the type of what holds a value at an address, and whether it is
// there at all.
func (r *fixRun) container(st *State, x *Term) (key string, ok bool) {
	switch x.op {
	case OLoad:
		return r.container(st, x.a[0])
	case OIndexAddr, OIndex:
		return "[]" + typeKey(seqElemType(x.a[0].t)), true
	case OLookup:
		return "map " + typeKey(elemType(x.a[0], nil)), r.present(st, x.a[0], x.a[1])
	case OField, OFieldAddr:
		t := x.a[0].t
		if x.op == OFieldAddr {
			t = derefType(t)
		}
		if structOf(t) != nil {
			if _, ok := r.container(st, x.a[0]); !ok {
				return "", false
			}
			return typeKey(t), true
		}
	}
	return "", false
}

var anyRecord types.Type = types.Typ[types.UntypedNil] // not constrained yet

// records tells which type of record an entry holds: nil if not known.
func (r *fixRun) records(st *State, x *Term) types.Type {
	if x == nil {
		return nil
	}
	if x.op == OStruct {
		rec := r.field(x, "Record")
		if rec != nil && rec.op == OIface {
			return rec.t
		}
		return nil
	}
	addr := x
	if x.op == OLoad {
		addr = x.a[0]
	}
	// an element of the result of asking an index for entries of a type
	if addr.op == OIndexAddr || addr.op == OIndex {
		b := addr.a[0]
		for b.op == OSlice {
			b = b.a[0]
		}
		if src := r.indexed(b); src != nil {
			return src
		}
	}
	key, ok := r.container(st, addr)
	if !ok || key == "" {
		return nil
	}
	t, known := r.holds[key]
	if !known {
		return anyRecord
	}
	return t
}

// indexed: the slice is the entries of an index query for one type of record.
func (r *fixRun) indexed(b *Term) types.Type {
	var found types.Type
	walkTerm(b, func(t *Term) {
		if t.op == OSym || t.op == OCall {
			if ty, ok := indexedBy[t]; ok {
				found = ty
			}
		}
	})
	return found
}

var indexedBy map[*Term]types.Type

// put notes that an entry, or something made of entries, is put somewhere.
func (r *fixRun) put(st *State, key string, v *Term) {
	if v == nil || v.t == nil {
		return
	}
	if r.is(v.t, r.entT) {
		t := r.records(st, v)
		if t == anyRecord {
			return
		}
		old, known := r.holds[key]
		switch {
		case !known:
			r.holds[key], r.changed = t, true
		case old != nil && (t == nil || !types.Identical(old, t)):
			r.holds[key], r.changed = nil, true
		}
		return
	}
	if s := structOf(v.t); s != nil && !isPtr(v.t) {
		for i := 0; i < s.NumFields(); i++ {
			if r.is(s.Field(i).Type(), r.entT) {
				r.put(st, typeKey(v.t), mkField(v, i, s))
			}
		}
	}
	if isPtr(v.t) {
		s := structOf(derefType(v.t))
		if s == nil {
			return
		}
		k := typeKey(v.t)
		fs := r.fields[k]
		if fs == nil {
			fs = map[string]bool{"": true}
			for i := 0; i < s.NumFields(); i++ {
				if isPtr(s.Field(i).Type()) {
					fs[s.Field(i).Name()] = true
				}
			}
			r.fields[k], r.changed = fs, true
		}
		if fs[""] && !st.knownNonNil(v) && !r.element(st, v) {
			fs[""], r.changed = false, true
		}
		for i := 0; i < s.NumFields(); i++ {
			n := s.Field(i).Name()
			if !fs[n] {
				continue
			}
			f := st.peek(mkFieldAddr(v, i, s), s.Field(i).Type())
			if !st.knownNonNil(f) && !r.elementField(st, f) {
				fs[n], r.changed = false, true
			}
		}
	}
}

// element: the pointer was read from a slice that was filled with objects.
func (r *fixRun) element(st *State, v *Term) bool {
	if v.op == OCall && strings.HasPrefix(v.s, "each:") {
		return true
	}
	if v.op != OLoad || v.a[0].op != OIndexAddr || !isPtr(v.t) {
		return v.op == OIndex && isPtr(v.t) && r.fields[typeKey(v.t)][""]
	}
	b := v.a[0].a[0]
	for b.op == OSlice {
		b = b.a[0]
	}
	if b.op == OAlloc && !st.inList("full", b) {
		return false
	}
	return r.fields[typeKey(v.t)] == nil || r.fields[typeKey(v.t)][""]
}

func (r *fixRun) elementField(st *State, f *Term) bool {
	if f.op != OLoad || f.a[0].op != OFieldAddr || !isPtr(f.t) {
		return false
	}
	o := f.a[0].a[0]
	if !r.element(st, o) {
		return false
	}
	fs := r.fields[typeKey(o.t)]
	return fs == nil || fs[f.a[0].s]
}

// nameOfEntry: the term is the name of the source of an entry that a manager's
// store holds.
func (r *fixRun) nameOfEntry(st *State, k *Term) bool {
	path := []string{}
	for k != nil && len(path) < 6 {
		switch k.op {
		case OLoad:
			k = k.a[0]
			continue
		case OField, OFieldAddr:
			path = append(path, k.s)
			k = k.a[0]
			if len(path) == 3 {
				if path[0] != "Name" || path[1] != "Source" || path[2] != "Meta" {
					return false
				}
				t := k
				return r.records(st, t) != nil
			}
			continue
		}
		return false
	}
	return false
}

// good: the value can not be nil.
func (r *fixRun) good(st *State, t *Term) bool {
	if st.knownNonNil(t) {
		return true
	}
	if t.op == OIface {
		return true
	}
	if t.op == OLookup {
		m, k := t.a[0], t.a[1]
		mt, ok := m.t.Underlying().(*types.Map)
		if !ok {
			return false
		}
		switch e := mt.Elem(); {
		case r.is(derefType(e), r.mgrT) && isPtr(e):
			return r.present(st, m, k) || r.nameOfEntry(st, k)
		case r.is(e, r.storeI):
			return r.present(st, m, k)
		}
		return false
	}
	// the store of a manager
	if r.is(t.t, r.storeI) && t.op == OLoad && t.a[0].op == OIndexAddr {
		if r.managerStores(t.a[0].a[0]) {
			return true
		}
	}
	if t.t != nil && isIfaceType(t.t) && t.op == OLoad && t.a[0].op == OIndexAddr && r.is(t.t.Underlying(), r.recI) {
		return built(t.a[0].a[0])
	}
	return r.element(st, t) || r.elementField(st, t)
}

// built: a list that is written out.
func built(s *Term) bool {
	for s.op == OAppend || s.op == OSlice {
		for _, x := range s.a[1:] {
			if s.op == OAppend && x == TNil {
				return false
			}
		}
		s = s.a[0]
	}
	return s.op == OAlloc || s == TNil
}

// counted: an index from 0, plus something positive.
func counted(x *Term) bool {
	if x.op != OSym || !strings.HasPrefix(x.s, "idx") {
		if len(x.a) != 2 || x.t == nil || !isIntType(x.t) {
			return false
		}
		k, ok := x.a[1].intVal()
		return ok && k >= 1 && x.a[0].op == OSym && strings.HasPrefix(x.a[0].s, "idx") && x.op == mkAddK(x.a[0], k).op && x == mkAddK(x.a[0], k)
	}
	return false
}

func (r *fixRun) managerStores(s *Term) bool {
	for s != nil && (s.op == OSlice) {
		s = s.a[0]
	}
	if s == nil || s.op != OLoad || s.a[0].op != OFieldAddr || s.a[0].s != "Stores" {
		return false
	}
	return typeKey(derefType(s.a[0].a[0].t)) == modPath+"/eventsource.ManagerConfig"
}

// given: what the server or another package hands over.
func (r *fixRun) given(t *Term) bool {
	switch t.op {
	case OSym:
		return !strings.HasPrefix(t.s, "decoded")
	case OLoad:
		b := t.a[0]
		if b.op == OFieldAddr && typeKey(derefType(b.a[0].t)) == "net/http.Request" {
			return b.s == "Body" || b.s == "URL" || b.s == "Header"
		}
		if b.op == OFieldAddr && r.given(b.a[0]) && b.a[0].op == OSym {
			// what the server was made with
			o := derefType(b.a[0].t)
			return strings.HasPrefix(typeKey(o), modPath+"/"+toolPkg+".") && !isPtr(t.t) && isIfaceType(t.t)
		}
		return b.op == OGlobal
	}
	return false
}

func (r *fixRun) explore(fn *ssa.Function) {
	e := newEngine(r.p)
	e.unroll = 0
	followOnly(e, toolPkg)
	prev := e.h.Opaque
	e.h.Opaque = func(f *ssa.Function) bool {
		if pkgPath(f) == modPath+"/eventsource" && f.Name() == "NewManager" {
			return false
		}
		return prev(f)
	}
	e.h.Go = func(st *State, c *Call) bool {
		r.receiver(e, st, c)
		return c.fn != nil && pkgPath(c.fn) == modPath+"/"+toolPkg
	}
	bad := func(st *State, in ssa.Instruction, f string, args ...any) {
		if !r.trial {
			e.report(st, "crash", in, f, args...)
		}
	}
	ob := func() { r.a.count("obligations checked", 1) }
	e.h.Oblig = func(st *State, kind string, t, arg *Term, in ssa.Instruction) {
		if t == nil {
			return
		}
		switch kind {
		case "deref":
			if r.given(t) || isReflType(t.t) || isContextType(t.t) {
				return
			}
			ob()
			if !r.good(st, t) {
				if ta := t; ta.op == OTA && r.records(st, r.entryOf(ta.a[0])) != nil {
					return // records are never nil
				}
				bad(st, in, "%s may be nil when it is used", t)
			}
		case "assert":
			ob()
			if st.knownTrue(arg) {
				return
			}
			want := arg.t
			if ta, ok := in.(*ssa.TypeAssert); ok {
				want = ta.AssertedType
			}
			if x := r.entryOf(t); x != nil {
				if got := r.records(st, x); got == anyRecord || got != nil && types.Identical(got, want) {
					return
				}
			}
			if t.op == OCall && t.s == "reflected" && r.is(want.Underlying(), r.recI) && r.registered(st, t.a[0]) {
				return
			}
			bad(st, in, "%s may be of another type than %s", t, shortType(want))
		case "index":
			ob()
			if k, ok := arg.intVal(); ok && k == 0 && r.managerStores(t) {
				return
			}
			if !r.in.inRange(st, t, arg) {
				bad(st, in, "index %s of %s is not known to be in range", arg, t)
			}
		case "slice":
			lo, hi := arg.a[0], arg.a[1]
			ob()
			if lo == TNil || lo == mkInt(0) {
				if hi == TNil || t.op == OAlloc {
					return
				}
			}
			if t.op == OAlloc && (lo == TNil || isConst(lo)) && (hi == TNil || isConst(hi)) {
				return // arrays, checked by the compiler
			}
			up, low := hi, lo
			if up == TNil {
				up = mkLen(t)
			}
			if low == TNil {
				low = mkInt(0)
			}
			in64 := types.Typ[types.Int]
			if !st.knownFalse(mkLt(up, low, in64)) || hi != TNil && !st.knownFalse(mkLt(mkLen(t), hi, in64)) || st.ivalOf(low).lo < 0 {
				bad(st, in, "slice bounds of %s are not known to be in range", t)
			}
		case "makelen":
			ob()
			for _, n := range []*Term{t, arg} {
				if n == nil || n.op == OLen || n.op == OCap {
					continue
				}
				if iv := st.ivalOf(n); (iv.lo < 0 || iv.hi > 1<<32) && !sumOfLens(n) {
					bad(st, in, "an allocation of %s elements", n)
				}
			}
		case "mapupdate":
			ob()
			if !st.knownNonNil(t) {
				bad(st, in, "the map %s may be nil when it is written", t)
			}
		case "div":
			ob()
			x := t
			for x.op == OConv {
				x = x.a[0]
			}
			if !st.knownFalse(mkEq(t, mkInt(0))) && st.ivalOf(x).lo < 1 && !counted(x) {
				bad(st, in, "division by %s", t)
			}
		case "close":
			ob()
			if t.op != OAlloc {
				bad(st, in, "%s is closed in answer to a request: the next one finds it closed", t)
			}
		}
	}
	e.h.Panic = func(st *State, v *Term, in ssa.Instruction) {
		ob()
		bad(st, in, "panics")
	}
	e.h.Append = func(st *State, base *Term, elems []*Term, in ssa.Instruction) {
		for _, x := range elems {
			r.put(st, "[]"+typeKey(x.t), x)
			r.entry(e, st, nil, x, in)
		}
	}
	e.h.Store = func(st *State, addr, v *Term, in ssa.Instruction) {
		if addr.op == OIndexAddr && v.t != nil {
			if b := addr.a[0]; b.op == OAlloc && structOf(v.t) != nil && !isPtr(v.t) && !r.is(v.t, r.entT) {
				// a literal that is being filled in field by field: it is
				// looked at once it is appended, and read exactly before
				return
			}
			r.put(st, "[]"+typeKey(v.t), v)
			r.entry(e, st, nil, v, in)
		}
	}
	e.h.MapRead = func(st *State, m, k *Term, in ssa.Instruction) {
		if r.present(st, m, k) {
			st.assume(mkLookupOk(m, k), true)
		}
	}
	e.h.MapUpdate = func(st *State, m, k, v *Term, in ssa.Instruction) {
		mt, ok := m.t.Underlying().(*types.Map)
		if !ok {
			return
		}
		st.addTo("inserted", tupleOf(m, k))
		r.put(st, "map "+typeKey(mt.Elem()), v)
		switch el := mt.Elem(); {
		case isPtr(el) && r.is(derefType(el), r.mgrT):
			ob()
			r.manager(e, st, k, v, in)
		case r.is(el, r.storeI):
			ob()
			if !r.good(st, v) && !r.given(v) && v.op != OCall {
				bad(st, in, "a store that may be nil is kept for a source: %s", v)
			}
			for _, f := range st.list("replaced") {
				if f.a[0] == v && f.a[1].op == OLookup && f.a[1].a[1] != k {
					bad(st, in, "a store is kept for %s although it holds the entries of %s", k, f.a[1].a[1])
				}
			}
		case isReflType(el):
			ob()
			st.setFlag("table", true)
			if !(v.op == OCall && v.s == "typeof" && k.op == OCall && k.s == "typemeta" && strip(k.a[0]) == strip(v.a[0])) && r.tables {
				r.tables = false
				r.changed = true
			}
		default:
			if s, ok := el.Underlying().(*types.Slice); ok && r.is(s.Elem(), r.entT) {
				for _, x := range r.elems(st, v) {
					r.entry(e, st, k, x, in)
				}
			}
		}
	}
	e.h.MapDelete = func(st *State, m, k *Term, in ssa.Instruction) {
		for a := range r.within {
			if r.within[a][siteOf(m)] {
				r.within[a][siteOf(m)] = false
				r.changed = true
			}
		}
	}
	settle := func(st *State) {
		for _, p := range st.list("inserted") {
			m, k := p.a[0], p.a[1]
			site := siteOf(m)
			if site == "" {
				continue
			}
			others := map[string]bool{}
			for _, q := range st.list("inserted") {
				if q.a[1] == k && siteOf(q.a[0]) != "" {
					others[siteOf(q.a[0])] = true
				}
			}
			for f, v := range st.facts {
				if v && f.op == OLookupOk && f.a[1] == k && siteOf(f.a[0]) != "" {
					others[siteOf(f.a[0])] = true
				}
			}
			w := r.within[site]
			if w == nil {
				r.within[site], r.changed = others, true
				continue
			}
			for o, v := range w {
				if v && !others[o] {
					w[o], r.changed = false, true
				}
			}
		}
		st.setList("inserted", nil)
	}
	e.h.LoopBack = func(st *State, l *LoopEv) { settle(st); st.setList("replaced", nil) }
	e.h.LoopEnter = func(st *State, l *LoopEv) { settle(st) }
	e.h.LoopBreak = func(st *State, l *LoopEv) { settle(st) }
	e.h.Exit = func(st *State, res []*Term) { settle(st) }
	e.h.LoopDone = func(st *State, l *LoopEv) {
		for c, v := range st.heap {
			if c.op == OContent && v != nil && isSeq(v) && v.s == "seq:all" && v.a[0] == TNil {
				st.addTo("full", c.a[0])
			}
		}
	}
	e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
		r.receiver(e, st, c)
		mn := ""
		if c.method != nil {
			mn = c.method.Name()
		} else if c.fn != nil {
			mn = c.fn.Name()
		}
		switch {
		case c.name == "reflect.TypeOf":
			v := rterm("typeof", c.res.At(0).Type(), c.args[0])
			return []Outcome{{res: []*Term{v}}}, true
		case c.name == "reflect.New":
			ob()
			if x := c.args[0]; !(x.op == OLookup && r.present(st, x.a[0], x.a[1])) && !(x.op == OCall && x.s == "typeof") {
				bad(st, c.instr, "a record of a type that may not be registered is made: %s", x)
			}
			return []Outcome{{res: []*Term{rterm("rnew", c.res.At(0).Type(), c.args[0])}}}, true
		case c.name == "(reflect.Value).Interface":
			v := rterm("reflected", c.res.At(0).Type(), c.args[0])
			return []Outcome{{res: []*Term{v}, mod: func(s *State) bool { return s.assume(mkEq(v, TNil), false) }}}, true
		case mn == "GetTypeMeta" && c.res.Len() == 1:
			x := c.recv
			if x == nil {
				x = c.args[0]
			}
			if c.fn != nil {
				return []Outcome{{res: []*Term{rterm("typemeta", c.res.At(0).Type(), mkStr(typeKey(derefType(x.t))))}}}, true
			}
			return []Outcome{{res: []*Term{rterm("typemeta", c.res.At(0).Type(), x)}}}, true
		case mn == "Index" && c.method != nil && c.res.Len() == 2:
			rs := e.freshRes(st, c)
			ok := false
			var t types.Type
			for _, x := range c.args {
				if s, is := x.strVal(); is && s == "ByType" {
					ok = true
				}
				if r.is(x.t, r.entT) {
					if tm := r.field(x, "TypeMeta"); tm != nil && tm.op == OCall && tm.s == "typemeta" {
						if n, is := tm.a[0].strVal(); is {
							if nt := r.p.namedType(n); nt != nil {
								t = types.NewPointer(nt)
							}
						}
					}
				}
			}
			if ok && t != nil {
				indexedBy[rs[0]] = t
			}
			return []Outcome{{res: rs}}, true
		case mn == "Replace" && c.method != nil && len(c.args) >= 1 && isIfaceType(c.recv.t):
			st.addTo("replaced", tupleOf(c.recv, c.args[len(c.args)-1]))
		case mn == "WriteHeader" && len(c.args) >= 1:
			ob()
			n := c.args[len(c.args)-1]
			if iv := st.ivalOf(n); iv.lo < 100 || iv.hi > 999 {
				bad(st, c.instr, "%s may not be a valid status code", n)
			}
		case c.name == "os.Exit" || strings.HasPrefix(c.name, "log.Fatal") || strings.HasPrefix(c.name, "log.Panic") || strings.HasPrefix(c.name, "(*log.Logger).Fatal") || strings.HasPrefix(c.name, "(*log.Logger).Panic") || c.name == "runtime.Goexit":
			ob()
			bad(st, c.instr, "a request ends the process through %s", c.name)
		}
		if i, ok := positiveArg[c.name]; ok && i < len(c.args) {
			ob()
			if n := c.args[i]; st.ivalOf(n).lo < 1 && !st.knownTrue(mkLt(mkInt(0), n, n.t)) {
				bad(st, c.instr, "%s panics unless %s is positive", c.name, n)
			}
		}
		if i, ok := naturalArg[c.name]; ok && i < len(c.args) {
			ob()
			if n := c.args[i]; st.ivalOf(n).lo < 0 {
				bad(st, c.instr, "%s panics if %s is negative", c.name, n)
			}
		}
		return nil, false
	}
	e.addRoot(nil, fn, nil, nil)
	r.a.explore(e)
}

var positiveArg = map[string]int{
	"time.NewTicker": 0, "(*time.Ticker).Reset": 1,
	"math/rand.Intn": 0, "math/rand.Int63n": 0, "math/rand.Int31n": 0,
	"math/rand/v2.IntN": 0, "math/rand/v2.Int64N": 0, "math/rand/v2.N": 0, "math/rand/v2.UintN": 0, "math/rand/v2.Uint64N": 0,
}

var naturalArg = map[string]int{"strings.Repeat": 1, "bytes.Repeat": 1, "slices.Grow": 1, "(*strings.Builder).Grow": 1, "(*bytes.Buffer).Grow": 1}

// sumOfLens: a size made of lengths.
func sumOfLens(n *Term) bool {
	ok := false
	walkTerm(n, func(t *Term) {
		switch t.op {
		case OLen, OCap:
			ok = true
		}
	})
	return ok
}

func isConst(t *Term) bool { _, ok := t.intVal(); return ok }

// entryOf: the entry whose record a term is.
func (r *fixRun) entryOf(t *Term) *Term {
	switch {
	case t.op == OField && t.s == "Record" && r.is(t.a[0].t, r.entT):
		return t.a[0]
	case t.op == OLoad && t.a[0].op == OFieldAddr && t.a[0].s == "Record" && r.is(derefType(t.a[0].a[0].t), r.entT):
		return t.a[0].a[0]
	}
	return nil
}

// registered: the value was made of a type found in the table of records.
func (r *fixRun) registered(st *State, v *Term) bool {
	return v.op == OCall && v.s == "rnew" && v.a[0].op == OLookup && r.present(st, v.a[0].a[0], v.a[0].a[1])
}

// elems lists what is known to have been put into a slice.
func (r *fixRun) elems(st *State, s *Term) []*Term {
	switch {
	case s.op == OAppend:
		return append(r.elems(st, s.a[0]), s.a[1:]...)
	case isSeq(s):
		return append(r.elems(st, s.a[0]), s.a[2])
	case s.op == OSlice:
		return r.elems(st, s.a[0])
	}
	return nil
}

// entry checks an entry that is put into a list: its record is of the type it
// names, and it is listed under its source.
func (r *fixRun) entry(e *Engine, st *State, key, x *Term, in ssa.Instruction) {
	if x == nil || !r.is(x.t, r.entT) || r.trial {
		return
	}
	if key != nil {
		r.a.count("obligations checked", 1)
		if src := r.field(r.field(x, "Meta"), "Source"); src != nil && src != key && !st.knownTrue(mkEq(src, key)) {
			e.report(st, "invariant", in, "an entry of %s is listed under %s: its flows would be replayed by a source that does not exist", src, key)
		}
		return
	}
	if x.op != OStruct {
		return
	}
	rec := r.field(x, "Record")
	for rec != nil && (rec.op == OTA || rec.op == OIface) {
		rec = rec.a[0]
	}
	if rec == nil {
		return
	}
	r.a.count("obligations checked", 1)
	if rec.op == OCall && rec.s == "reflected" {
		if v := rec.a[0]; r.registered(st, v) {
			if tm := r.field(x, "TypeMeta"); v.a[0].a[1] != tm && !st.knownTrue(mkEq(v.a[0].a[1], tm)) {
				e.report(st, "invariant", in, "an entry names the type %s although its record is of the type registered for %s", tm, v.a[0].a[1])
			}
			return
		}
	}
	if st.knownNil(rec) || rec == TNil {
		e.report(st, "invariant", in, "an entry without a record is kept")
	}
}

// manager checks a manager that is kept under a name.
func (r *fixRun) manager(e *Engine, st *State, k, v *Term, in ssa.Instruction) {
	if r.trial {
		return
	}
	if !r.good(st, v) {
		e.report(st, "invariant", in, "a manager that may be nil is kept: %s", v)
		return
	}
	s := structOf(r.mgrT)
	var stores *Term
	for i := 0; i < s.NumFields(); i++ {
		if typeKey(s.Field(i).Type()) == modPath+"/eventsource.ManagerConfig" {
			cs := structOf(s.Field(i).Type())
			for j := 0; j < cs.NumFields(); j++ {
				if cs.Field(j).Name() == "Stores" {
					stores = st.peek(mkFieldAddr(mkFieldAddr(v, i, s), j, cs), cs.Field(j).Type())
				}
			}
		}
	}
	if stores == nil {
		return
	}
	if !st.knownTrue(mkLt(mkInt(0), mkLen(stores), types.Typ[types.Int])) {
		e.report(st, "invariant", in, "a manager is kept that may have no store")
		return
	}
	first := st.loadElem(stores, mkInt(0), r.storeI)
	if stores.op == OSlice && stores.a[0].op == OAlloc {
		first = st.loadElem(stores.a[0], mkInt(0), r.storeI)
	}
	if !r.good(st, first) {
		e.report(st, "invariant", in, "a manager is kept whose store may be nil: %s", first)
		return
	}
	if first.op == OLookup {
		if src := first.a[1]; r.field(src, "Name") != nil && r.field(src, "Name") != k && !st.knownTrue(mkEq(r.field(src, "Name"), k)) {
			e.report(st, "invariant", in, "the manager of the entries of %s is kept under %s, where its flows do not find it", src, k)
		}
	}
}

// receiver: methods of managers are not called without one.
func (r *fixRun) receiver(e *Engine, st *State, c *Call) {
	if r.trial || c.fn == nil || c.fn.Signature.Recv() == nil || len(c.args) == 0 {
		return
	}
	rt := c.fn.Signature.Recv().Type()
	if !isPtr(rt) || !strings.HasPrefix(typeKey(derefType(rt)), modPath) {
		return
	}
	r.a.count("obligations checked", 1)
	if x := c.args[0]; !r.good(st, x) && !r.given(x) {
		e.report(st, "crash", c.instr, "%s is called with a receiver that may be nil: %s", c.name, x)
	}
}

func runC31(a *Analysis) {
	p := a.program()
	main := p.fn(toolPkg, "serveFixture")
	r := &fixRun{a: a, p: p, in: &inputRun{a: a, p: p}, entT: p.typ("store", "Entry"), mgrT: p.typ("eventsource", "Manager"), storeI: p.typ("store", "Interface")}
	rec := p.typ("", "Record")
	if !a.anchor(main != nil && r.entT != nil && r.mgrT != nil && r.storeI != nil && rec != nil, "serveFixture, store.Entry, store.Interface, eventsource.Manager and Record") {
		return
	}
	r.recI, _ = rec.Underlying().(*types.Interface)
	a.rule("no pointer, interface, missing map entry or list element is used where it may be nil; no assertion of a type a record may not have; no index, slice, size, divisor or argument out of its range; no explicit panic, exit or closing of a channel by a request")
	a.rule("what the handlers rely on holds where it is built: entries hold records of the type they name and are listed under their source, stores hold the entries of the source they are kept for, managers are kept under the name of their source and have a store")
	hs := requestHandlers(main)
	a.anchor(len(hs) > 0, "request handlers of the fixture server")
	work := append([]*ssa.Function(nil), hs...)
	work = append(work, backgroundOf(p, main, hs)...)
	r.holds, r.within, r.fields, r.tables = map[string]types.Type{}, map[string]map[string]bool{}, map[string]map[string]bool{}, true
	indexedBy = map[*Term]types.Type{}
	for r.trial = true; ; {
		r.changed = false
		for _, fn := range work {
			r.explore(fn)
		}
		if !r.changed {
			break
		}
	}
	r.trial = false
	// indexers also see the examples that queries are made with, which may
	// have no record
	work = append(work, indexers(hs, r.entT)...)
	for _, fn := range work {
		r.explore(fn)
	}
	if !r.tables {
		a.violate(p, "invariant", main.Pos(), main.String(), "the table of record types does not give for a type's name the type of the same record")
	}
}

// indexers lists the functions from an entry to index values that are made in
// what the handlers call.
func indexers(hs []*ssa.Function, entry types.Type) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(v ssa.Value) {
		f, _ := v.(*ssa.Function)
		if mc, ok := v.(*ssa.MakeClosure); ok {
			f, _ = mc.Fn.(*ssa.Function)
		}
		if f == nil || f.Blocks == nil || seen[f] || len(f.FreeVars) > 0 {
			return
		}
		sg := f.Signature
		if sg.Recv() != nil || sg.Params().Len() != 1 || sg.Results().Len() != 1 || !types.Identical(sg.Params().At(0).Type(), entry) || !isSliceT(sg.Results().At(0).Type()) {
			return
		}
		seen[f] = true
		out = append(out, f)
	}
	walked := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || walked[f] || f.Blocks == nil || pkgPath(f) != pkgPath(hs[0]) {
			return
		}
		walked[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != nil {
						add(*op)
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					walk(ci.Common().StaticCallee())
				}
			}
		}
		for _, c := range f.AnonFuncs {
			walk(c)
		}
	}
	for _, h := range hs {
		walk(h)
	}
	return out
}

// backgroundOf lists the methods of the server that its set-up calls.
func backgroundOf(p *Program, main *ssa.Function, hs []*ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	own := map[string]bool{}
	for _, h := range hs {
		if rc := h.Signature.Recv(); rc != nil {
			own[typeKey(derefType(rc.Type()))] = true
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, h := range hs {
		seen[h] = true
	}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || pkgPath(f) != pkgPath(main) {
			return
		}
		seen[f] = true
		if rc := f.Signature.Recv(); rc != nil && own[typeKey(derefType(rc.Type()))] {
			out = append(out, f)
			return
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					walk(ci.Common().StaticCallee())
				}
			}
		}
	}
	walk(main)
	return out
}

// namedType finds a type of the repository by its full name.
func (p *Program) namedType(name string) types.Type {
	i := strings.LastIndex(name, ".")
	if i < 0 || p.spkgs[name[:i]] == nil {
		return nil
	}
	o := p.spkgs[name[:i]].Pkg.Scope().Lookup(name[i+1:])
	if o == nil {
		return nil
	}
	return o.Type()
}
