package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C27", "lockset analysis: path-sensitive must-hold locksets at every access to state that is not fresh, combined over all operations",
		"Every operation of the library and every goroutine it starts is explored; each access to a field, a map or the elements of a slice of a shared object is recorded with whether a lock of that object is held then, and every location that is ever written after construction must have the lock at all of its accesses",
		runC27)
}

// access is one way a location is used.
type access struct {
	key   string
	write bool
	ok    bool // under the lock
	pos   token.Pos
	fn    string
	root  *ssa.Function
}

type accessLog struct {
	all  []access
	seen map[string]bool
}

func (l *accessLog) add(x access) {
	k := fmt.Sprintf("%s|%v|%v|%d|%s|%s", x.key, x.write, x.ok, x.pos, x.fn, x.root)
	if !l.seen[k] {
		l.seen[k] = true
		l.all = append(l.all, x)
	}
}

// sharedTypes lists the struct types whose values several goroutines use:
// those with something to synchronise on, the implementations of the exported
// interfaces, exported types with methods on their pointer that start or serve
// goroutines, and what can be reached from all those.
func (p *Program) sharedTypes(rels []string) map[string]bool {
	out := map[string]bool{}
	in := map[string]bool{}
	for _, rel := range rels {
		in[relPath(rel)] = true
	}
	var reach func(t types.Type, d int)
	reach = func(t types.Type, d int) {
		if d > 12 {
			return
		}
		switch x := t.(type) {
		case *types.Pointer:
			reach(x.Elem(), d+1)
			return
		case *types.Slice:
			reach(x.Elem(), d+1)
			return
		case *types.Map:
			reach(x.Elem(), d+1)
			return
		}
		n, ok := types.Unalias(t).(*types.Named)
		if !ok || n.Obj().Pkg() == nil || !in[n.Obj().Pkg().Path()] {
			return
		}
		s, ok := n.Underlying().(*types.Struct)
		if !ok || out[typeKey(n)] {
			return
		}
		out[typeKey(n)] = true
		for i := 0; i < s.NumFields(); i++ {
			reach(s.Field(i).Type(), d+1)
		}
	}
	for _, rel := range rels {
		pkg := p.repoPkg(rel)
		if pkg == nil {
			continue
		}
		for _, name := range pkg.Pkg.Scope().Names() {
			tn, ok := pkg.Pkg.Scope().Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok || n.TypeParams().Len() > 0 {
				continue
			}
			if it, ok := n.Underlying().(*types.Interface); ok && n.Obj().Exported() && it.NumMethods() > 1 {
				for _, i := range p.implementers(n) {
					reach(i, 0)
				}
				continue
			}
			s, ok := n.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				if t := s.Field(i).Type(); isSyncType(derefType(t)) || n.Obj().Exported() && n.NumMethods() > 0 && chanElem(t) != nil {
					reach(n, 0)
				}
			}
		}
	}
	for _, fn := range p.funcs {
		if !in[pkgPath(fn)] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if g, ok := i.(*ssa.Go); ok {
					if f := g.Call.StaticCallee(); f != nil && f.Signature.Recv() != nil {
						reach(f.Signature.Recv().Type(), 0)
					}
				}
			}
		}
	}
	return out
}

// lifecycle: what runs once for an object.
func lifecycle(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Signature.Recv() != nil && (fn.Name() == "Start" || fn.Name() == "Run")
}

func runC27(a *Analysis) {
	p := a.program()
	a.rule("every location of a shared object or package variable that is written after construction is read with a lock of its owner held and written with it held exclusively")
	a.rule("no map that changes in place is handed out, kept or read beyond the critical section it was taken in")
	a.rule("a variable captured by a goroutine is not used by its creator afterwards, unless something orders the two")
	rels := []string{"store", "store/internal", "session", "eventsource", "encoding", "cmd/vanflow-tool", ""}
	shared := p.sharedTypes(rels[:len(rels)-1]) // the records of the root package are plain values
	log := &accessLog{seen: map[string]bool{}}
	n := 0
	for _, group := range [][]string{{"store", "store/internal"}, {"session"}, {"eventsource"}, {"encoding"}, {"cmd/vanflow-tool"}, {""}} {
		in := map[string]bool{}
		for _, rel := range group {
			in[relPath(rel)] = true
		}
		touch := p.touching(in, shared)
		entered := map[*ssa.Function]bool{}
		explore := func(fn *ssa.Function) {
			n++
			a.explore(raceEngine(a, p, fn, group, shared, touch, entered, log))
		}
		var rest []*ssa.Function
		for _, fn := range p.funcs {
			if !in[pkgPath(fn)] || fn.Blocks == nil || fn.TypeParams().Len() > 0 || !touch[fn] || fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") || fn.Synthetic != "" {
				continue
			}
			o, _ := fn.Object().(*types.Func)
			if fn.Parent() == nil && o != nil && (o.Exported() || fn.Name() == "main") {
				explore(fn)
			} else {
				rest = append(rest, fn)
			}
		}
		sums := p.lockSummaries()
		sort.SliceStable(rest, func(i, j int) bool {
			d := func(f *ssa.Function) (n int) {
				for ; f.Parent() != nil; f = f.Parent() {
					n++
				}
				return
			}
			if x, y := d(rest[i]), d(rest[j]); x != y {
				return x < y
			}
			return callees(sums, rest[i])[rest[j]] && !callees(sums, rest[j])[rest[i]]
		})
		for _, fn := range rest {
			if !entered[fn] {
				explore(fn)
			}
		}
	}
	a.anchor(n > 20, "operations that use shared objects")
	byKey := map[string][]access{}
	var keys []string
	for _, x := range log.all {
		if byKey[x.key] == nil {
			keys = append(keys, x.key)
		}
		byKey[x.key] = append(byKey[x.key], x)
	}
	sort.Strings(keys)
	mutable := 0
	for _, k := range keys {
		l := byKey[k]
		written := false
		writers := map[*ssa.Function]bool{}
		users := map[*ssa.Function]bool{}
		for _, x := range l {
			users[outermostFn(x.root)] = true
			if x.write {
				written = true
				writers[outermostFn(x.root)] = true
			}
		}
		if !written {
			continue
		}
		mutable++
		if os.Getenv("VF_KEYS") != "" {
			fmt.Println(k, len(l))
		}
		one := func(m map[*ssa.Function]bool) bool {
			for f := range m {
				return len(m) == 1 && lifecycle(f)
			}
			return false
		}
		for _, x := range l {
			a.count("obligations checked", 1)
			if x.ok || one(users) || !x.write && one(writers) && writers[outermostFn(x.root)] {
				continue
			}
			how := "read"
			if x.write {
				how = "written"
			}
			a.violate(p, "unlocked", x.pos, x.fn, "%s is %s without the lock that protects it although other goroutines may change it (%s)", strings.TrimPrefix(k, modPath+"/"), how, shortFn(x.root))
		}
	}
	a.count("locations written after construction", mutable)
	a.anchor(mutable > 10, "state that changes after construction")
	capturedVars(a, p, rels)
}

func shortFn(f *ssa.Function) string { return strings.TrimPrefix(f.String(), modPath+"/") }

func outermostFn(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// touching lists the functions that use a shared object, themselves or
// through what they call.
func (p *Program) touching(in map[string]bool, shared map[string]bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	calls := map[*ssa.Function][]*ssa.Function{}
	for _, fn := range p.funcs {
		if !in[pkgPath(fn)] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.FieldAddr:
					if shared[typeKey(derefType(x.X.Type()))] && !isSyncType(derefType(x.Type())) {
						out[fn] = true
					}
				case *ssa.MapUpdate, *ssa.Range:
					out[fn] = true
				case *ssa.Lookup:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						out[fn] = true
					}
				case *ssa.MakeClosure:
					if f, ok := x.Fn.(*ssa.Function); ok {
						calls[fn] = append(calls[fn], f)
					}
				case *ssa.Store:
					if _, ok := x.Addr.(*ssa.Global); ok {
						out[fn] = true
					}
				}
				if c, ok := i.(ssa.CallInstruction); ok {
					cc := c.Common()
					if f := cc.StaticCallee(); f != nil {
						calls[fn] = append(calls[fn], f)
					} else if _, ok := cc.Value.(*ssa.Builtin); !ok && !cc.IsInvoke() {
						out[fn] = true // a function it was given
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for fn, l := range calls {
			for _, c := range l {
				if out[c] && !out[fn] {
					out[fn], changed = true, true
				}
			}
		}
	}
	return out
}

type origin struct {
	key  string
	addr *Term
}

func raceEngine(a *Analysis, p *Program, fn *ssa.Function, group []string, shared map[string]bool, touch, entered map[*ssa.Function]bool, log *accessLog) *Engine {
	e := newEngine(p)
	followOnly(e, group...)
	e.unroll = 0
	entered[fn] = true
	prev := e.h.Opaque
	e.h.Opaque = func(f *ssa.Function) bool {
		if prev(f) {
			return true
		}
		return f.Parent() == nil && !touch[f] && !handsOut(f)
	}
	e.h.Enter = func(st *State, c *Call) { entered[c.fn] = true }
	e.h.Go = func(st *State, c *Call) bool {
		if c.fn == nil || !touch[c.fn] || st.thread != fn.String() || !lifecycle(fn) {
			return false
		}
		entered[c.fn] = true
		return true
	}
	origins := map[*Term]origin{}
	// where a pointer, map or slice came from
	originOf := func(t *Term) (origin, bool) {
		for t != nil {
			if o, ok := origins[t]; ok {
				return o, true
			}
			switch t.op {
			case OSlice, OAppend, OAppendSlice:
				t = t.a[0]
				continue
			}
			break
		}
		return origin{}, false
	}
	// the objects that own an address, innermost first
	owners := func(t *Term) []*Term {
		var out []*Term
		for d := 0; t != nil && d < 20; d++ {
			out = append(out, t)
			if o, ok := originOf(t); ok && o.addr != t {
				t = o.addr
				continue
			}
			switch t.op {
			case OFieldAddr, OIndexAddr, OLoad, OField, OLookup, OSlice, OTA, OIface, OConv, OIndex:
				t = t.a[0]
			default:
				return out
			}
		}
		return out
	}
	locked := func(st *State, at *Term, write bool) bool {
		own := owners(at)
		for m, n := range st.locks {
			if n == 0 || write && n > 0 {
				continue
			}
			if m.op == OGlobal {
				for _, o := range own {
					if o.op == OGlobal && globalOf[o] != nil && globalOf[m] != nil && globalOf[o].Pkg == globalOf[m].Pkg {
						return true
					}
				}
			}
			if m.op == OFieldAddr {
				for _, o := range own {
					if o == m.a[0] || m.a[0].op == OGlobal && o.op == OGlobal && globalOf[o] != nil && globalOf[m.a[0]] != nil && globalOf[o].Pkg == globalOf[m.a[0]].Pkg {
						return true
					}
				}
			}
		}
		return false
	}
	fresh := func(st *State, t *Term) bool {
		for t != nil {
			switch t.op {
			case OFieldAddr, OIndexAddr, OSlice:
				t = t.a[0]
				continue
			case OAlloc:
				return !st.facts[mkEscaped(t)]
			case OLoad:
				// held by an object nobody else knows
				return false
			}
			return false
		}
		return false
	}
	record := func(st *State, key string, at *Term, write bool, in ssa.Instruction) {
		log.add(access{key: key, write: write, ok: locked(st, at, write), pos: instrPos(in), fn: st.top().fn.String(), root: fn})
	}
	// the location an address is part of
	place := func(st *State, addr *Term) (string, *Term) {
		var top *Term
		t := addr
		for t.op == OFieldAddr {
			top = t
			if b := t.a[0]; b.op != OFieldAddr {
				break
			}
			t = t.a[0]
		}
		base := t
		if top != nil {
			base = top.a[0]
		}
		if base.op == OIndexAddr {
			if o, ok := originOf(base.a[0]); ok {
				return o.key + "[]", o.addr
			}
			return "", nil
		}
		if top == nil {
			if g := globalOf[addr]; g != nil && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
				return "var " + strings.TrimPrefix(g.Pkg.Pkg.Path(), modPath+"/") + "." + g.Name(), addr
			}
			return "", nil
		}
		if g := globalOf[base]; g != nil {
			return "var " + g.Name() + "." + top.s, top
		}
		k := typeKey(derefType(base.t))
		if !shared[k] || isSyncType(derefType(top.t)) {
			return "", nil
		}
		return k + "." + top.s, top
	}
	owned := func(st *State, m *Term) bool { return st.inList("owned", m) }
	e.h.Store = func(st *State, addr, v *Term, in ssa.Instruction) {
		if fresh(st, addr) {
			return
		}
		k, at := place(st, addr)
		if k == "" {
			return
		}
		record(st, k, at, true, in)
		if old := st.peek(addr, derefType(addr.t)); old != nil && old != v {
			if _, ok := origins[old]; ok && old.t != nil {
				if _, ok := old.t.Underlying().(*types.Map); ok {
					st.setList("owned", []*Term{old})
				}
			}
		}
	}
	e.h.Load = func(st *State, addr *Term, in ssa.Instruction) {
		if fresh(st, addr) {
			return
		}
		if k, at := place(st, addr); k != "" {
			record(st, k, at, false, in)
		}
	}
	keep := func(t types.Type) bool {
		switch t.Underlying().(type) {
		case *types.Map, *types.Slice, *types.Pointer:
			return true
		}
		return false
	}
	e.h.Loaded = func(st *State, addr, v *Term, in ssa.Instruction) {
		if v.t == nil || !keep(v.t) || fresh(st, addr) || v.op == OAlloc && !st.facts[mkEscaped(v)] {
			return
		}
		if k, at := place(st, addr); k != "" {
			if _, ok := origins[v]; !ok {
				origins[v] = origin{k, at}
			}
		}
	}
	content := func(st *State, m *Term, write bool, in ssa.Instruction) {
		if m.op == OAlloc && !st.facts[mkEscaped(m)] || owned(st, m) {
			return
		}
		if o, ok := originOf(m); ok {
			record(st, o.key+"[]", m, write, in)
		}
	}
	e.h.MapUpdate = func(st *State, m, k, v *Term, in ssa.Instruction) { content(st, m, true, in) }
	e.h.MapDelete = func(st *State, m, k *Term, in ssa.Instruction) { content(st, m, true, in) }
	e.h.MapScan = func(st *State, m *Term, in ssa.Instruction) { content(st, m, false, in) }
	e.h.MapRead = func(st *State, m, k *Term, in ssa.Instruction) {
		content(st, m, false, in)
		o, ok := originOf(m)
		mt, isMap := m.t.Underlying().(*types.Map)
		if !ok || !isMap || !keep(mt.Elem()) {
			return
		}
		for _, v := range []*Term{st.mapGet(m, k, mt.Elem()), mkLookup(m, k, mt.Elem())} {
			if v != nil && v != TAbs && !(v.op == OAlloc && !st.facts[mkEscaped(v)]) {
				if _, ok := origins[v]; !ok {
					origins[v] = origin{o.key + "[]", m}
				}
			}
		}
	}
	e.h.Append = func(st *State, base *Term, elems []*Term, in ssa.Instruction) {
		if base.op == OSlice && base.a[2] != TNil {
			if o, ok := originOf(base); ok && !owned(st, base.a[0]) {
				record(st, o.key+"[]", o.addr, true, in)
			}
		}
	}
	// a map that goes where others read it
	given := func(st *State, v *Term, in ssa.Instruction, what string) {
		var walk func(t *Term, d int)
		walk = func(t *Term, d int) {
			if t == nil || d > 4 {
				return
			}
			if t.op == OStruct || t.op == OIface || t.op == OTuple {
				for _, x := range t.a {
					walk(x, d+1)
				}
				return
			}
			if t.t == nil {
				return
			}
			if _, ok := t.t.Underlying().(*types.Map); !ok || owned(st, t) {
				return
			}
			if o, ok := originOf(t); ok {
				log.add(access{key: o.key + "[]", pos: instrPos(in), fn: st.top().fn.String(), root: fn})
			}
		}
		walk(v, 0)
	}
	e.h.Call = func(st *State, c *Call) ([]Outcome, bool) {
		if c.common == nil || c.instr == nil {
			return nil, false
		}
		if _, ok := c.common.Value.(*ssa.Builtin); ok || c.fn != nil && strings.HasPrefix(pkgPath(c.fn), modPath) && !e.h.Opaque(c.fn) {
			return nil, false
		}
		if len(st.locks) == 0 {
			for _, x := range c.args {
				given(st, x, c.instr, "passed on")
			}
		}
		return nil, false
	}
	e.h.Exit = func(st *State, res []*Term) {
		if st.thread != fn.String() {
			return
		}
		for _, r := range res {
			var walk func(t *Term)
			walk = func(t *Term) {
				if t == nil {
					return
				}
				if t.op == OStruct || t.op == OIface || t.op == OTuple {
					for _, x := range t.a {
						walk(x)
					}
					return
				}
				if t.t == nil {
					return
				}
				if _, ok := t.t.Underlying().(*types.Map); !ok || owned(st, t) {
					return
				}
				if o, ok := originOf(t); ok {
					log.add(access{key: o.key + "[]", pos: fn.Pos(), fn: fn.String(), root: fn})
				}
			}
			walk(r)
		}
	}
	e.addRoot(nil, fn, nil, nil)
	return e
}

// capturedVars: variables that a goroutine shares with the function that
// starts it.
func capturedVars(a *Analysis, p *Program, rels []string) {
	in := map[string]bool{}
	for _, rel := range rels {
		in[relPath(rel)] = true
	}
	for _, fn := range p.funcs {
		if !in[pkgPath(fn)] {
			continue
		}
		for _, b := range fn.Blocks {
			for i, instr := range b.Instrs {
				g, ok := instr.(*ssa.Go)
				if !ok {
					continue
				}
				mc, ok := g.Call.Value.(*ssa.MakeClosure)
				if !ok {
					continue
				}
				clo := mc.Fn.(*ssa.Function)
				for j, bind := range mc.Bindings {
					al, ok := bind.(*ssa.Alloc)
					if !ok {
						continue
					}
					a.count("obligations checked", 1)
					writes := cellWrites(clo, clo.FreeVars[j], 0)
					afterGo(b, i+1, func(x ssa.Instruction) bool {
						switch y := x.(type) {
						case *ssa.Store:
							if rootCell(y.Addr) == al {
								a.violate(p, "captured", instrPos(x), fn.String(), "the variable %s is written although the goroutine started before uses it", al.Comment)
							}
						case *ssa.UnOp:
							if y.Op == token.MUL && rootCell(y.X) == al && writes {
								a.violate(p, "captured", instrPos(x), fn.String(), "the variable %s is read although the goroutine started before writes it", al.Comment)
							}
						case *ssa.RunDefers:
							deferredUses(fn, al, func(in ssa.Instruction, store bool) {
								if store || writes {
									a.violate(p, "captured", instrPos(in), fn.String(), "a deferred function uses the variable %s that the goroutine started before uses", al.Comment)
								}
							})
						}
						return synchronises(x) || x == ssa.Instruction(al)
					})
				}
			}
		}
	}
}

// deferredUses visits the uses of a variable by the deferred closures of a
// function none of whose deferred calls synchronises.
func deferredUses(fn *ssa.Function, al ssa.Value, visit func(in ssa.Instruction, store bool)) {
	type use struct {
		in    ssa.Instruction
		store bool
	}
	var uses []use
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok {
				continue
			}
			mc, ok := d.Call.Value.(*ssa.MakeClosure)
			if !ok {
				if synchronises(in) {
					return
				}
				continue
			}
			clo := mc.Fn.(*ssa.Function)
			for _, cb := range clo.Blocks {
				for _, ci := range cb.Instrs {
					if synchronises(ci) {
						return
					}
					for j, bd := range mc.Bindings {
						if bd != al {
							continue
						}
						switch y := ci.(type) {
						case *ssa.Store:
							if rootCell(y.Addr) == clo.FreeVars[j] {
								uses = append(uses, use{ci, true})
							}
						case *ssa.UnOp:
							if y.Op == token.MUL && rootCell(y.X) == clo.FreeVars[j] {
								uses = append(uses, use{ci, false})
							}
						}
					}
				}
			}
		}
	}
	for _, u := range uses {
		visit(u.in, u.store)
	}
}

func rootCell(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return v
		}
	}
}

// cellWrites: the function, or one declared in it, stores to the captured
// variable.
func cellWrites(fn *ssa.Function, cell ssa.Value, d int) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if rootCell(x.Addr) == cell {
					return true
				}
			case *ssa.MakeClosure:
				for i, bd := range x.Bindings {
					if f, ok := x.Fn.(*ssa.Function); ok && bd == cell && d < 4 && cellWrites(f, f.FreeVars[i], d+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

// synchronises: may order what another goroutine did before what follows.
func synchronises(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Select, *ssa.Send:
		return true
	case *ssa.UnOp:
		return x.Op == token.ARROW
	case ssa.CallInstruction:
		if f := x.Common().StaticCallee(); f != nil {
			if lk, _ := mutexMethod(f); lk {
				return true
			}
			return strings.HasPrefix(f.String(), "(*sync.") || strings.HasPrefix(f.String(), "(*golang.org/x/sync")
		}
	}
	return false
}

// afterGo visits what may run after a point in a function, until visit says
// to stop there.
func afterGo(b *ssa.BasicBlock, i int, visit func(ssa.Instruction) bool) {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int)
	walk = func(b *ssa.BasicBlock, i int) {
		for ; i < len(b.Instrs); i++ {
			if visit(b.Instrs[i]) {
				return
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				walk(s, 0)
			}
		}
	}
	walk(b, i)
}

// relPath is the import path of a package of the repository.
func relPath(rel string) string {
	if rel == "" {
		return modPath
	}
	return modPath + "/" + rel
}
