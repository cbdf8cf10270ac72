package main

// Redraw loops. A loop that draws from the random source in every iteration and goes round
// again in a state that looks like an earlier one, up to the values drawn, repeats what it
// did: whatever later iterations produce is among what the first ones produce.

import (
	"golang.org/x/tools/go/ssa"
)

// likeness maps the draws and objects of one state to those of another.
type likeness struct {
	a, b *path
	fa   *Facts
	fb   *Facts
	v    map[*Term]*Term
	rv   map[*Term]*Term
	o    map[int]int
	ro   map[int]int
	seen map[[2]*Term]bool
}

// draws lists the values drawn on a path: the term, how, and from which range.
func draws(st *State) map[*Term]*Ev {
	r := map[*Term]*Ev{}
	for _, e := range st.events() {
		if e.kind == "rand" && len(e.terms) > 0 {
			r[e.terms[0]] = e
			if e.terms[0].op == "frombe" {
				r[e.terms[0].args[0]] = e
			}
		}
	}
	return r
}

func (l *likeness) term(x, y *Term, da, db map[*Term]*Ev) bool {
	if x == nil || y == nil {
		return x == y
	}
	if p, ok := l.v[x]; ok {
		return p == y
	}
	if ea, eb := da[x], db[y]; ea != nil && eb != nil && x != y {
		if ea.what != eb.what || len(ea.terms) != len(eb.terms) || x.op != y.op || x.sort != y.sort {
			return false
		}
		for i := 1; i < len(ea.terms); i++ {
			if ea.terms[i] != eb.terms[i] {
				return false
			}
		}
		if x.n != nil && (y.n == nil || x.n.Cmp(y.n) != 0) {
			return false
		}
		if q, ok := l.rv[y]; ok && q != x {
			return false
		}
		l.v[x], l.rv[y] = y, x
		return true
	}
	if x == y && len(x.args) == 0 {
		return true
	}
	if x.op != y.op || x.sort != y.sort || x.s != y.s || len(x.args) != len(y.args) || (x.n == nil) != (y.n == nil) {
		return false
	}
	if x.n != nil && x.n.Cmp(y.n) != 0 {
		return false
	}
	if l.seen[[2]*Term{x, y}] {
		return true
	}
	for i := range x.cs {
		if x.cs[i].Cmp(y.cs[i]) != 0 {
			return false
		}
	}
	for i := range x.args {
		if !l.term(x.args[i], y.args[i], da, db) {
			return false
		}
	}
	l.seen[[2]*Term{x, y}] = true
	return true
}

func (l *likeness) val(x, y Val, da, db map[*Term]*Ev) bool {
	switch x := x.(type) {
	case *Term:
		y, ok := y.(*Term)
		return ok && l.term(l.fa.renorm(x), l.fb.renorm(y), da, db)
	case Ptr:
		y, ok := y.(Ptr)
		return ok && x.path == y.path && l.term(x.idx, y.idx, da, db) && l.obj(x.obj, y.obj, da, db)
	case SliceV:
		y, ok := y.(SliceV)
		return ok && l.val(x.base, y.base, da, db) && l.val(x.lo, y.lo, da, db) && l.val(x.ln, y.ln, da, db) && l.val(x.cap, y.cap, da, db)
	case *StructV:
		y, ok := y.(*StructV)
		return ok && l.vals(x.fs, y.fs, da, db)
	case *ListV:
		y, ok := y.(*ListV)
		return ok && l.vals(x.es, y.es, da, db)
	case TupleV:
		y, ok := y.(TupleV)
		return ok && l.vals(x, y, da, db)
	case IfaceV:
		y, ok := y.(IfaceV)
		return ok && x.typ == y.typ && l.val(x.v, y.v, da, db)
	case *HashV:
		y, ok := y.(*HashV)
		return ok && x.alg == y.alg && l.term(x.key, y.key, da, db) && l.val(x.data, y.data, da, db)
	case *ErrV:
		y, ok := y.(*ErrV)
		return ok && x.what == y.what
	}
	return valEq(l.fb, x, y)
}

func (l *likeness) vals(x, y []Val, da, db map[*Term]*Ev) bool {
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if !l.val(x[i], y[i], da, db) {
			return false
		}
	}
	return true
}

func (l *likeness) obj(x, y int, da, db map[*Term]*Ev) bool {
	if q, ok := l.o[x]; ok {
		return q == y
	}
	if q, ok := l.ro[y]; ok && q != x {
		return false
	}
	oa, ob := l.a.st.heap[x], l.b.st.heap[y]
	if oa == nil || ob == nil {
		return x == y
	}
	if x != y && (oa.kind != "local" || ob.kind != "local") || oa.share != 0 && x != y {
		return false
	}
	l.o[x], l.ro[y] = y, x
	return l.val(oa.val, ob.val, da, db)
}

// alike: b is as a was, with other draws that are as unconstrained as those of a.
func alike(header *ssa.BasicBlock, fi *funcInfo, il *loopInfo, a, b *path) bool {
	l := &likeness{a: a, b: b, fa: a.st.f, fb: b.st.f, v: map[*Term]*Term{}, rv: map[*Term]*Term{}, o: map[int]int{}, ro: map[int]int{}, seen: map[[2]*Term]bool{}}
	da, db := draws(a.st), draws(b.st)
	drew := false
	for _, e := range b.st.eventsSince(a.st.ev) {
		drew = drew || e.kind == "rand" || e.kind == "randfail"
	}
	if !drew {
		return false
	}
	for _, in := range header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !l.val(a.env[ph], b.env[ph], da, db) {
			return false
		}
	}
	// what already was on the heap has not changed
	for id, oa := range a.st.heap {
		ob := b.st.heap[id]
		if ob == nil {
			return false
		}
		if oa == ob {
			continue
		}
		if !l.obj(id, id, da, db) {
			return false
		}
	}
	// the counterparts are under the same constraints
	for x, y := range l.v {
		if x.sort == SInt {
			i, j := l.fa.iv[x], l.fb.iv[y]
			if (i.lo == nil) != (j.lo == nil) || (i.hi == nil) != (j.hi == nil) || i.lo != nil && i.lo.Cmp(j.lo) != 0 || i.hi != nil && i.hi.Cmp(j.hi) != 0 {
				return false
			}
		}
	}
	about := func(f *Facts, m map[*Term]*Term) []*Term {
		var r []*Term
		for _, lit := range f.lits {
			for x := range m {
				if lit.has(func(t *Term) bool { return t == x }) {
					r = append(r, lit)
					break
				}
			}
		}
		return r
	}
	la, lb := about(l.fa, l.v), about(l.fb, l.rv)
	if len(la) != len(lb) {
		return false
	}
	for _, p := range la {
		ok := false
		for _, q := range lb {
			n := &likeness{a: a, b: b, fa: l.fa, fb: l.fb, v: l.v, rv: l.rv, o: l.o, ro: l.ro, seen: map[[2]*Term]bool{}}
			if n.term(p, q, nil, nil) {
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// redraw follows a loop until every way round again is like an earlier one; nil if that
// does not happen.
func (x *Interp) redraw(fi *funcInfo, il *loopInfo, p *path) *outcome {
	type start struct {
		p    *path
		from *start
	}
	res := &outcome{}
	todo := []*start{{p.clone(), nil}}
	for n := 0; len(todo) > 0; n++ {
		if n > 8 {
			return nil
		}
		s := todo[0]
		todo = todo[1:]
		o := x.region(fi, il, il.header, []*path{s.p.clone()})
		res.add(o)
		for _, b := range o.backs {
			drew := false
			for _, e := range b.st.eventsSince(s.p.st.ev) {
				drew = drew || e.kind == "rand" || e.kind == "randfail"
			}
			if !drew {
				return nil
			}
			like := false
			for q := s; q != nil && !like; q = q.from {
				like = alike(il.header, fi, il, q.p, b)
			}
			if !like {
				todo = append(todo, &start{b, s})
				continue
			}
			st := b.st.clone()
			st.event("retry", "redraw", loopPos(il), x.curFn())
			res.exits = append(res.exits, exit{st, "retry", "loop with a fresh draw", loopPos(il), x.curFn()})
		}
	}
	return res
}

// mayDraw: something called in the loop may reach the random source.
func (x *Interp) mayDraw(il *loopInfo) bool {
	seen := map[*ssa.Function]bool{}
	var inFn func(f *ssa.Function) bool
	inBlock := func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			f := c.Common().StaticCallee()
			if f == nil {
				continue
			}
			if f.Pkg != nil && (f.Pkg.Pkg.Path() == "crypto/rand" || f.Pkg.Pkg.Path() == "io") || inFn(f) {
				return true
			}
		}
		return false
	}
	inFn = func(f *ssa.Function) bool {
		if seen[f] || !x.own[f.Pkg] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			if inBlock(b) {
				return true
			}
		}
		return false
	}
	for b := range il.body {
		if inBlock(b) {
			return true
		}
	}
	return false
}
