package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Loop is a natural loop.
type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	depth  int

	// counted traversal: ind = phi(init, ind+1); loop while test < bound
	ind     *ssa.Phi
	init    ssa.Value
	test    ssa.Value // ind or ind+1
	bound   ssa.Value
	boundOf ssa.Value // bound == len(boundOf)
	// bound is the number of fields of this reflect.Type
	fieldsOf ssa.Value
	negated  bool // the loop is left when the comparison holds
	// map or string iteration
	next *ssa.Next
	// counts the iterations over a map that the loop leaves alone
	cnt *ssa.Phi
}

// FnInfo caches per-function facts.
type FnInfo struct {
	num     map[ssa.Value]int
	liveIn  map[*ssa.BasicBlock]map[ssa.Value]bool
	liveOut map[*ssa.BasicBlock]map[ssa.Value]bool
	loops   map[*ssa.BasicBlock]*Loop
	after   map[ssa.Instruction]map[ssa.Value]bool
}

func buildInfo(fn *ssa.Function) *FnInfo {
	fi := &FnInfo{num: map[ssa.Value]int{}, liveIn: map[*ssa.BasicBlock]map[ssa.Value]bool{}, liveOut: map[*ssa.BasicBlock]map[ssa.Value]bool{},
		loops: map[*ssa.BasicBlock]*Loop{}, after: map[ssa.Instruction]map[ssa.Value]bool{}}
	n := 0
	add := func(v ssa.Value) {
		n++
		fi.num[v] = n
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// liveness
	for _, b := range fn.Blocks {
		fi.liveIn[b] = map[ssa.Value]bool{}
		fi.liveOut[b] = map[ssa.Value]bool{}
	}
	tracked := func(v ssa.Value) bool { _, ok := fi.num[v]; return ok }
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := fi.liveOut[b]
			for _, s := range b.Succs {
				for v := range fi.liveIn[s] {
					if !out[v] {
						out[v] = true
						ch = true
					}
				}
				// phi operands are live out of their predecessor
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for j, p := range s.Preds {
						if p == b && tracked(phi.Edges[j]) && !out[phi.Edges[j]] {
							out[phi.Edges[j]] = true
							ch = true
						}
					}
				}
			}
			in := map[ssa.Value]bool{}
			for v := range out {
				in[v] = true
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				liveStep(b.Instrs[j], in, tracked)
			}
			for v := range in {
				if !fi.liveIn[b][v] {
					fi.liveIn[b][v] = true
					ch = true
				}
			}
		}
	}
	// natural loops
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	for _, l := range fi.loops {
		l.recognise()
	}
	return fi
}

func liveStep(in ssa.Instruction, live map[ssa.Value]bool, tracked func(ssa.Value) bool) {
	if v, ok := in.(ssa.Value); ok {
		delete(live, v)
	}
	if _, ok := in.(*ssa.Phi); ok {
		return
	}
	if _, ok := in.(*ssa.DebugRef); ok {
		return
	}
	var ops [16]*ssa.Value
	for _, op := range in.Operands(ops[:0]) {
		if *op != nil && tracked(*op) {
			live[*op] = true
		}
	}
}

// liveAfter gives the registers needed after the instruction.
func (fi *FnInfo) liveAfter(in ssa.Instruction) map[ssa.Value]bool {
	if m, ok := fi.after[in]; ok {
		return m
	}
	b := in.Block()
	live := map[ssa.Value]bool{}
	for v := range fi.liveOut[b] {
		live[v] = true
	}
	tracked := func(v ssa.Value) bool { _, ok := fi.num[v]; return ok }
	for j := len(b.Instrs) - 1; j >= 0 && b.Instrs[j] != in; j-- {
		liveStep(b.Instrs[j], live, tracked)
	}
	fi.after[in] = live
	return live
}

func (l *Loop) definedOutside(v ssa.Value) bool {
	if in, ok := v.(ssa.Instruction); ok {
		return !l.blocks[in.Block()]
	}
	return true
}

// recognise detects counted traversals and map iterations.
func (l *Loop) recognise() {
	h := l.header
	for _, in := range h.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			l.next = nx
			if !nx.IsString {
				l.findCounter()
			}
			return
		}
	}
	last, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	switch {
	case l.blocks[h.Succs[0]] && !l.blocks[h.Succs[1]]:
	case l.blocks[h.Succs[1]] && !l.blocks[h.Succs[0]]:
		l.negated = true
	default:
		return
	}
	cmp, ok := last.Cond.(*ssa.BinOp)
	if !ok || cmp.Block() != h {
		return
	}
	var test, bound ssa.Value
	cop := cmp.Op
	if l.negated {
		switch cop {
		case token.GEQ:
			cop = token.LSS
		case token.LEQ:
			cop = token.GTR
		case token.EQL:
			cop = token.NEQ
		default:
			return
		}
	}
	switch cop {
	case token.LSS, token.NEQ:
		test, bound = cmp.X, cmp.Y
	case token.GTR:
		test, bound = cmp.Y, cmp.X
	default:
		return
	}
	plusOne := func(v ssa.Value) (ssa.Value, bool) {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return nil, false
		}
		if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil && c.Value.ExactString() == "1" {
			return b.X, true
		}
		if c, ok := b.X.(*ssa.Const); ok && c.Value != nil && c.Value.ExactString() == "1" {
			return b.Y, true
		}
		return nil, false
	}
	var phi *ssa.Phi
	if p, ok := test.(*ssa.Phi); ok && p.Block() == h {
		phi = p
	} else if x, ok := plusOne(test); ok {
		if p, ok := x.(*ssa.Phi); ok && p.Block() == h {
			phi = p
		}
	}
	if phi == nil || !isIntType(phi.Type()) {
		return
	}
	var init ssa.Value
	for i, e := range phi.Edges {
		if l.blocks[h.Preds[i]] {
			x, ok := plusOne(e)
			if !ok || x != ssa.Value(phi) {
				return
			}
		} else {
			if init != nil && init != e {
				return
			}
			init = e
		}
	}
	// the bound does not change
	if u, ok := bound.(*ssa.UnOp); ok && !l.definedOutside(bound) && u.Op == token.MUL && l.stableCell(u.X) {
		// a reload of a variable that the loop does not assign
		if cop == token.NEQ {
			return
		}
	} else if !l.definedOutside(bound) {
		c, ok := bound.(*ssa.Call)
		if !ok {
			return
		}
		if c.Call.IsInvoke() {
			if !isReflType(c.Call.Value.Type()) || c.Call.Method.Name() != "NumField" || !l.definedOutside(c.Call.Value) {
				return
			}
			l.fieldsOf = c.Call.Value
		} else {
			bi, ok := c.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "len" {
				return
			}
			arg := c.Call.Args[0]
			if !l.definedOutside(arg) {
				// a reload of a variable that the loop does not assign
				u, ok := arg.(*ssa.UnOp)
				if !ok || u.Op != token.MUL || !l.stableCell(u.X) {
					return
				}
			}
			l.boundOf = arg
		}
	} else if c, ok := bound.(*ssa.Call); ok {
		if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			l.boundOf = c.Call.Args[0]
		}
	}
	if cop == token.NEQ {
		// i != n counts like i < n only when starting at most at n
		if c, ok := init.(*ssa.Const); !ok || c.Value == nil || l.boundOf == nil {
			return
		}
	}
	l.ind, l.init, l.test, l.bound = phi, init, test, bound
}

// findCounter looks for a variable that counts the elements of a map.
func (l *Loop) findCounter() {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Select:
				return
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); !ok || bi.Name() == "delete" || bi.Name() == "clear" {
					return
				}
			}
		}
	}
	for _, in := range l.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			return
		}
		if !isIntType(phi.Type()) {
			continue
		}
		counts := true
		for i, e := range phi.Edges {
			if l.blocks[l.header.Preds[i]] {
				b, ok := e.(*ssa.BinOp)
				if !ok || b.Op != token.ADD || b.X != ssa.Value(phi) || !isConstInt(b.Y, "1") {
					counts = false
				}
			} else if !isConstInt(e, "0") {
				counts = false
			}
		}
		if counts {
			l.cnt = phi
			return
		}
	}
}

func isConstInt(v ssa.Value, n string) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.ExactString() == n
}

// stableCell: the address is computed outside the loop or by field selection
// from such an address, and no store in the loop's own function body writes
// to a field of that name and type.
func (l *Loop) stableCell(a ssa.Value) bool {
	root := a
	var key string
	for {
		if fa, ok := root.(*ssa.FieldAddr); ok {
			if key == "" {
				key = fieldKey(fa)
			}
			root = fa.X
			continue
		}
		break
	}
	if !l.definedOutside(root) {
		return false
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if s.Addr == a {
					return false
				}
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldKey(fa) == key {
					return false
				}
				if types.Identical(s.Addr.Type(), a.Type()) && s.Addr != a {
					if _, isIdx := s.Addr.(*ssa.IndexAddr); !isIdx {
						if _, isFA := s.Addr.(*ssa.FieldAddr); !isFA {
							return false
						}
					}
				}
			}
		}
	}
	return true
}
