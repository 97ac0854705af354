package main

import (
	"go/types"
	"math"
	"sort"
	"strconv"
)

// Linear relations between integers that hold on a path: the relational part
// of the abstract domain. Sums of variables only count as such when they are
// known not to wrap around.

type lin struct {
	c map[*Term]int64
	k int64
}

func (l lin) add(o lin, f int64) lin {
	r := lin{map[*Term]int64{}, l.k + f*o.k}
	for t, c := range l.c {
		r.c[t] = c
	}
	for t, c := range o.c {
		if r.c[t] += f * c; r.c[t] == 0 {
			delete(r.c, t)
		}
	}
	return r
}

func linAtom(t *Term) lin { return lin{map[*Term]int64{t: 1}, 0} }
func linConst(k int64) lin {
	return lin{map[*Term]int64{}, k}
}

func widening(t *Term) bool {
	return t.op == OConv && isIntType(t.t) && isIntType(t.a[0].t) && (intSize(t.t) > intSize(t.a[0].t) && (isUnsigned(t.a[0].t) || !isUnsigned(t.t)) ||
		intSize(t.t) == intSize(t.a[0].t) && isUnsigned(t.t) == isUnsigned(t.a[0].t))
}

// linOf gives a term as a linear expression; depth bounds the search for
// reasons why sums do not wrap.
func (st *State) linOf(t *Term, depth int) lin {
	for widening(t) {
		t = t.a[0]
	}
	if k, ok := t.intVal(); ok {
		return linConst(k)
	}
	if t.op == OBin && isIntType(t.t) {
		switch t.s {
		case "+":
			if k, ok := t.a[1].intVal(); ok {
				return st.linOf(t.a[0], depth).add(linConst(k), 1)
			}
		case "++":
			if depth > 0 {
				x, y := st.linOf(t.a[0], depth-1), st.linOf(t.a[1], depth-1)
				if st.noWrap(t, x, y, depth-1) {
					return x.add(y, 1)
				}
			}
		case "-":
			x, y := st.linOf(t.a[0], depth), st.linOf(t.a[1], depth)
			if depth > 0 && st.entailsD(linConst(0).add(x, -1), depth-1) && st.entailsD(linConst(0).add(y, -1), depth-1) {
				return x.add(y, -1)
			}
		}
	}
	return linAtom(t)
}

// noWrap: both at least zero and the sum at most some length.
func (st *State) noWrap(t *Term, x, y lin, depth int) bool {
	if !st.entailsD(linConst(0).add(x, -1), depth) || !st.entailsD(linConst(0).add(y, -1), depth) {
		return false
	}
	sum := x.add(y, 1)
	for _, l := range st.lens() {
		if st.entailsD(sum.add(linAtom(l), -1), depth) {
			return true
		}
	}
	// or both far from the limit
	bx, by := st.upper(x), st.upper(y)
	return bx < math.MaxInt64/4 && by < math.MaxInt64/4
}

func (st *State) upper(x lin) int64 {
	r := x.k
	for t, c := range x.c {
		hi := int64(math.MaxInt64 / 2)
		if c > 0 {
			if iv := st.ivalOf(t); iv.hi < hi {
				hi = iv.hi
			}
		} else {
			hi = -st.ivalOf(t).lo
		}
		if c > 1 || c < -1 || hi > math.MaxInt64/4 || hi < -math.MaxInt64/4 {
			return math.MaxInt64
		}
		r += hi
	}
	return r
}

func isLenAtom(t *Term) bool { return t.op == OLen || t.op == OCap || t.op == OLookup && t.s == "len" }

func (st *State) lens() []*Term {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.a {
			walk(a)
		}
	}
	for f := range st.facts {
		if f.op == OLt || f.op == OEq || f.op == OLtC {
			walk(f)
		}
	}
	for f := range st.ivals {
		walk(f)
	}
	var out []*Term
	for t := range seen {
		if isLenAtom(t) {
			out = append(out, t)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// linFacts are the inequalities x <= 0 known on the path.
func (st *State) linFacts(depth int) []lin {
	var out []lin
	for f, v := range st.facts {
		switch f.op {
		case OLt:
			if !isIntType(f.a[0].t) && !isIntType(f.a[1].t) {
				continue
			}
			x, y := st.linOf(f.a[0], depth), st.linOf(f.a[1], depth)
			if v { // x - y + 1 <= 0
				out = append(out, x.add(y, -1).add(linConst(1), 1))
			} else {
				out = append(out, y.add(x, -1))
			}
		case OLtC:
			x := st.linOf(f.a[0], depth)
			n := parseInt(f.s)
			if v {
				out = append(out, x.add(linConst(n-1), -1))
			} else {
				out = append(out, linConst(n).add(x, -1))
			}
		case OEq:
			if v && (isIntType(f.a[0].t) || isIntType(f.a[1].t)) {
				x, y := st.linOf(f.a[0], depth), st.linOf(f.a[1], depth)
				out = append(out, x.add(y, -1), y.add(x, -1))
			}
		}
	}
	for t, iv := range st.ivals {
		if iv == fullIval || !isIntType(t.t) && !isLenAtom(t) {
			continue
		}
		x := st.linOf(t, depth)
		if iv.lo > math.MinInt64/4 {
			out = append(out, linConst(iv.lo).add(x, -1))
		}
		if iv.hi < math.MaxInt64/4 {
			out = append(out, x.add(linConst(iv.hi), -1))
		}
	}
	for t, k := range st.eqc {
		if n, ok := k.intVal(); ok {
			x := st.linOf(t, depth)
			out = append(out, x.add(linConst(n), -1), linConst(n).add(x, -1))
		}
	}
	return out
}

// entails: goal <= 0 on this path.
func (st *State) entails(goal lin) bool { return st.entailsD(goal, 3) }

func (st *State) entailsD(goal lin, depth int) bool {
	if len(goal.c) == 0 {
		return goal.k <= 0
	}
	if depth < 0 {
		return false
	}
	cs := st.linFacts(depth - 1)
	neg := linConst(1).add(goal, -1) // goal >= 1
	// only what is connected to the goal matters
	rel := map[*Term]bool{}
	for t := range goal.c {
		rel[t] = true
	}
	atoms := map[*Term]bool{}
	for changed := true; changed; {
		changed = false
		for _, c := range cs {
			hit := false
			for t := range c.c {
				hit = hit || rel[t]
			}
			if hit && len(c.c) <= 4 {
				for t := range c.c {
					if !rel[t] {
						rel[t], changed = true, true
					}
				}
			}
		}
	}
	sys := []lin{neg}
	if !small(neg.k, 1) {
		return false
	}
	for _, c := range cs {
		if !small(c.k, 1) {
			continue // out of reach of this arithmetic
		}
		for t := range c.c {
			if rel[t] {
				sys = append(sys, c)
				break
			}
		}
	}
	for _, c := range sys {
		for t := range c.c {
			atoms[t] = true
		}
	}
	for t := range atoms {
		if isLenAtom(t) || isUnsigned(t.t) {
			sys = append(sys, linConst(0).add(linAtom(t), -1))
		} else if iv := st.ivalOf(t); iv.lo > math.MinInt64/4 {
			sys = append(sys, linConst(iv.lo).add(linAtom(t), -1))
		}
	}
	return contradiction(sys)
}

// small: k*f is far from the limits of the arithmetic used here.
func small(k, f int64) bool {
	const lim = 1 << 60
	return k <= lim/f && k >= -lim/f
}

// contradiction eliminates one variable after the other.
func contradiction(sys []lin) bool {
	for rounds := 0; rounds < 40; rounds++ {
		count := map[*Term][2]int{}
		for _, c := range sys {
			if len(c.c) == 0 && c.k > 0 {
				return true
			}
			for t, f := range c.c {
				n := count[t]
				if f > 0 {
					n[0]++
				} else {
					n[1]++
				}
				count[t] = n
			}
		}
		if len(count) == 0 {
			return false
		}
		var best *Term
		cost := func(t *Term) int { n := count[t]; return n[0] * n[1] }
		for t := range count {
			if best == nil || cost(t) < cost(best) || cost(t) == cost(best) && t.id < best.id {
				best = t
			}
		}
		var pos, neg, next []lin
		for _, c := range sys {
			switch f := c.c[best]; {
			case f > 0:
				pos = append(pos, c)
			case f < 0:
				neg = append(neg, c)
			default:
				next = append(next, c)
			}
		}
		if len(pos)*len(neg) > 4000 {
			return false
		}
		for _, p := range pos {
			for _, n := range neg {
				fp, fn := p.c[best], -n.c[best]
				if fp > 1<<20 || fn > 1<<20 || !small(p.k, fn) || !small(n.k, fp) {
					continue
				}
				r := lin{map[*Term]int64{}, 0}
				r = r.add(p, fn).add(n, fp)
				delete(r.c, best)
				if len(r.c) > 0 || r.k > 0 {
					next = append(next, r)
				}
			}
		}
		sys = dedupe(next)
	}
	return false
}

func dedupe(in []lin) []lin {
	best := map[string]int{}
	var out []lin
	for _, l := range in {
		var ts []*Term
		for t := range l.c {
			ts = append(ts, t)
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
		k := ""
		for _, t := range ts {
			k += itoa(int64(t.id)) + ":" + itoa(l.c[t]) + ","
		}
		if i, ok := best[k]; ok {
			if l.k > out[i].k {
				out[i] = l
			}
			continue
		}
		best[k] = len(out)
		out = append(out, l)
	}
	return out
}

func (st *State) entailsLE(x, y *Term) bool {
	return st.entails(st.linOf(x, 3).add(st.linOf(y, 3), -1))
}
func (st *State) entailsLT(x, y *Term) bool {
	return st.entails(st.linOf(x, 3).add(st.linOf(y, 3), -1).add(linConst(1), 1))
}
func (st *State) entailsEQ(x, y *Term) bool {
	return x == y || st.entailsLE(x, y) && st.entailsLE(y, x)
}

// boundsOK judges an index or slice expression; what is missing is returned.
func (st *State) boundsOK(kind string, t, arg *Term) string {
	zero := mkInt(0)
	switch kind {
	case "index":
		if t.t != nil {
			if _, ok := t.t.Underlying().(*types.Map); ok {
				return ""
			}
		}
		if !st.entailsLE(zero, arg) {
			return "the index may be negative"
		}
		if !st.entailsLT(arg, mkLen(t)) {
			return "the index may be out of range"
		}
	case "slice":
		lo, hi := arg.a[0], arg.a[1]
		n := mkLen(t)
		if lo != TNil && !st.entailsLE(zero, lo) {
			return "the lower bound may be negative"
		}
		switch {
		case hi != TNil:
			l := lo
			if l == TNil {
				l = zero
			}
			if !st.entailsLE(l, hi) {
				return "the upper bound may be less than the lower"
			}
			if !st.entailsLE(hi, n) {
				return "the upper bound may be out of range"
			}
		case lo != TNil:
			if !st.entailsLE(lo, n) {
				return "the lower bound may be out of range"
			}
		}
	}
	return ""
}

func itoa(n int64) string { return strconv.FormatInt(n, 10) }

// infeasible: the relations known on the path contradict each other.
func (st *State) infeasible() bool {
	var sys []lin
	for _, c := range st.linFacts(2) {
		if small(c.k, 1) {
			sys = append(sys, c)
		}
	}
	atoms := map[*Term]bool{}
	for _, c := range sys {
		for t := range c.c {
			atoms[t] = true
		}
	}
	for t := range atoms {
		if isLenAtom(t) {
			sys = append(sys, linConst(0).add(linAtom(t), -1))
		}
	}
	return contradiction(sys)
}
