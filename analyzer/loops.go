package main

// Loops. A loop whose test is decided is followed iteration by iteration; any other
// loop is summarised: its variables become functions of the iteration number t, and the
// number of iterations is solved for.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type issue struct {
	kind, what, fn string
	pos            token.Pos
}

func (x *Interp) issue(kind, what string, pos token.Pos) {
	x.issues = append(x.issues, issue{kind, what, x.curFn(), pos})
}

func loopPos(il *loopInfo) token.Pos {
	for _, in := range il.header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for b := range il.body {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

const (
	maxUnroll    = 700
	maxBodyExits = 30
	maxUndecided = 70
	maxPaths     = 40
)

func (x *Interp) loop(fi *funcInfo, il *loopInfo, p *path) *outcome {
	pos := loopPos(il)
	o, why := x.unroll(fi, il, p, false)
	if o != nil {
		x.loopsSeen[pos] = "unrolled"
		return o
	}
	if x.mayDraw(il) {
		n := len(x.issues)
		if o := x.redraw(fi, il, p); o != nil {
			x.loopsSeen[pos] = "redraw"
			return o
		}
		x.issues = x.issues[:n]
	}
	s, precise := x.summarise(fi, il, p)
	if precise {
		x.loopsSeen[pos] = "summarised"
		return s
	}
	if why != "long" {
		if o, _ := x.unroll(fi, il, p, true); o != nil {
			x.loopsSeen[pos] = "unrolled"
			return o
		}
	}
	if why == "paths" {
		// some of the paths, exactly, rather than all of them vaguely
		old := x.thin
		x.thin = 3
		o, _ := x.unroll(fi, il, p, true)
		x.thin = old
		if o != nil {
			x.loopsSeen[pos] = "sampled paths"
			return o
		}
	}
	x.loopsSeen[pos] = "widened"
	return s
}

// unroll follows the iterations one by one; nil if the end cannot be reached that way.
func (x *Interp) unroll(fi *funcInfo, il *loopInfo, p *path, patient bool) (*outcome, string) {
	o := &outcome{}
	cur := []*path{p.clone()}
	undecided, bodyExits := 0, 0
	for it := 0; len(cur) > 0; it++ {
		if it >= maxUnroll {
			return nil, "long"
		}
		q := x.region(fi, il, il.header, cur)
		o.add(q)
		head, body := 0, 0
		for _, e := range q.outs {
			if e.from == il.header {
				head++
			} else {
				body++
			}
		}
		if len(q.backs) > 0 {
			if head > 0 {
				undecided++
			} else if body+len(q.rets) > 0 {
				bodyExits++
			}
		}
		lim, blim := 0, maxBodyExits
		if patient {
			lim, blim = maxUndecided, maxUndecided
		}
		if undecided > lim {
			return nil, "undecided"
		}
		if bodyExits > blim {
			return nil, "search"
		}
		cur = x.thinOut(x.merge(il.header, q.backs))
		if len(cur) > maxPaths {
			return nil, "paths"
		}
		if len(o.outs)+len(o.rets) > 400 {
			return nil, "paths"
		}
	}
	return o, ""
}

// slot is a variable that the loop changes.
type slot struct {
	phi  *ssa.Phi
	obj  int
	path string
	typ  types.Type
	init Val
	kind string // inv, lin, pre, app, cond, map, havoc
	c    *big.Int
	s    string
	v    *Term // the unknown standing for it
	any  Val   // the unknown, if it is no term
	// cond
	set  *Term // value when set, in terms of t
	cond *Term // literal under which it is set
}

func (s *slot) get(p *path) Val {
	if s.phi != nil {
		return p.env[s.phi]
	}
	o := p.st.heap[s.obj]
	if o == nil {
		return nil
	}
	return get(o.val, pathElems(s.path))
}

func (s *slot) put(p *path, v Val) {
	if s.phi != nil {
		p.env[s.phi] = v
		return
	}
	p.st.storeRaw(Ptr{obj: s.obj, path: s.path}, v)
}

// diffLeaves lists the paths below which a and b differ.
func diffLeaves(f *Facts, a, b Val, path string) []string {
	if valEq(f, a, b) {
		return nil
	}
	sub := func(xs, ys []Val) []string {
		var r []string
		for i := range xs {
			q := fmt.Sprint(i)
			if path != "" {
				q = path + "." + q
			}
			r = append(r, diffLeaves(f, xs[i], ys[i], q)...)
		}
		return r
	}
	switch x := a.(type) {
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.fs) == len(y.fs) {
			return sub(x.fs, y.fs)
		}
	case *ListV:
		if y, ok := b.(*ListV); ok && len(x.es) == len(y.es) && len(x.es) <= 64 {
			return sub(x.es, y.es)
		}
	}
	return []string{path}
}

// freshFor puts an unknown in place of a slot.
func (x *Interp) freshFor(s *slot, p *path) {
	if t, ok := s.init.(*Term); ok {
		s.v = tVar(t.sort, freshName("l"))
		if t.sort == SInt && s.typ != nil && isIntT(s.typ) {
			lo, hi, _, _ := intRange(s.typ)
			g := p.st.f.clone()
			g.iv[s.v] = Iv{lo, hi}
			g.dirty()
			p.st.f = g
		}
		s.put(p, s.v)
		return
	}
	s.kind = "havoc"
	if s.typ != nil {
		s.any = x.unknown(s.typ, freshName("l"), nil, p.st)
		s.put(p, s.any)
	} else {
		s.put(p, OpqV{freshName("l")})
	}
}

// findSlots determines what the loop changes, with unknowns in place of those.
func (x *Interp) findSlots(fi *funcInfo, il *loopInfo, p *path) ([]*slot, *path, *outcome) {
	var slots []*slot
	for _, in := range il.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		slots = append(slots, &slot{phi: ph, typ: ph.Type(), init: p.env[ph]})
	}
	for round := 0; round < 6; round++ {
		q := p.clone()
		q.st.f = q.st.f.clone()
		for _, s := range slots {
			if s.kind == "map" || s.kind == "fixed" {
				continue
			}
			x.freshFor(s, q)
		}
		start := q.clone()
		o := x.region(fi, il, il.header, []*path{q})
		added := false
		have := map[string]bool{}
		for _, s := range slots {
			if s.phi == nil {
				have[fmt.Sprint(s.obj, "/", s.path)] = true
			}
		}
		for _, b := range o.backs {
			ids := make([]int, 0)
			for id := range start.st.heap {
				ids = append(ids, id)
			}
			sort.Ints(ids)
			for _, id := range ids {
				a, c := start.st.heap[id], b.st.heap[id]
				if c == nil || a == c {
					continue
				}
				for _, path := range diffLeaves(b.st.f, a.val, c.val, "") {
					key := fmt.Sprint(id, "/", path)
					if have[key] {
						continue
					}
					have[key] = true
					s := &slot{obj: id, path: path, init: get(p.st.heap[id].val, pathElems(path))}
					if path == "" {
						s.typ = a.typ
						if typeName(a.typ) == "math/big.Int" {
							s.typ = nil
						}
					}
					if _, isM := s.init.(*MapV); isM {
						s.kind = "map"
					} else {
						added = true
					}
					if _, isT := s.init.(*Term); !isT && s.kind == "" {
						s.typ = nil
					}
					slots = append(slots, s)
				}
			}
		}
		if !added {
			// once more without overflow, to guess how the numbers change; the guess is
			// verified afterwards
			q := p.clone()
			q.st.f = q.st.f.clone()
			ints := false
			for _, s := range slots {
				if s.kind == "map" || s.kind == "fixed" {
					continue
				}
				x.freshFor(s, q)
				if iv, ok := q.st.f.iv[s.v]; ok && s.v != nil && iv.lo != nil {
					ints = true
					w := pow(2, 50)
					if iv.hi.Cmp(pow(2, 32)) <= 0 {
						w = new(big.Int).Rsh(iv.hi, 1)
					}
					g := q.st.f
					g.iv[s.v] = Iv{bmax(iv.lo, new(big.Int).Neg(w)), bmin(iv.hi, w)}
					g.dirty()
				}
			}
			if ints {
				start = q.clone()
				o = x.region(fi, il, il.header, []*path{q})
			} else {
				// keep the unknowns in step with o
				q = start
				for _, s := range slots {
					if s.kind == "map" || s.kind == "fixed" {
						continue
					}
					if t, ok := s.get(q).(*Term); ok && s.kind != "havoc" {
						s.v = t
					}
				}
			}
			return slots, start, o
		}
	}
	return slots, nil, nil
}

// classify finds how the slots change in one iteration.
func classify(slots []*slot, backs []*path) {
	for _, s := range slots {
		if s.kind == "map" || s.kind == "havoc" {
			continue
		}
		kind := ""
		agree := func(k string, c *big.Int, str string) bool {
			if kind == "" {
				kind, s.c, s.s = k, c, str
				return true
			}
			return kind == k && (c == nil || s.c.Cmp(c) == 0) && s.s == str
		}
		ok := true
		var changed []*path
		same := 0
		for _, b := range backs {
			n, isT := s.get(b).(*Term)
			if !isT {
				ok = false
				break
			}
			n = b.st.f.renorm(n)
			v := b.st.f.renorm(s.v)
			if n == v {
				same++
				continue
			}
			changed = append(changed, b)
		}
		if !ok {
			s.kind = "havoc"
			continue
		}
		if len(changed) == 0 {
			s.kind = "inv"
			continue
		}
		if same > 0 {
			s.kind = "cond?"
			continue
		}
		for _, b := range changed {
			n := b.st.f.renorm(s.get(b).(*Term))
			v := b.st.f.renorm(s.v)
			switch n.sort {
			case SInt:
				d := b.st.f.Sub(n, v)
				if !d.isInt() || !agree("lin", d.n, "") {
					ok = false
				}
			case SSeq:
				ps := parts(n)
				switch {
				case len(ps) == 2 && ps[1] == v && ps[0].isStr() && len(ps[0].s) == 1:
					ok = ok && agree("pre", nil, ps[0].s)
				case len(ps) == 2 && ps[0] == v && ps[1].isStr() && len(ps[1].s) == 1:
					ok = ok && agree("app", nil, ps[1].s)
				default:
					ok = false
				}
			default:
				ok = false
			}
		}
		if !ok || kind == "" {
			// the same new value whatever the old one was: still a possible flag
			s.kind = "cond?"
			continue
		}
		s.kind = kind
	}
}

// at is the value of the slot at the start of iteration t.
func (s *slot) at(f *Facts, t *Term) *Term {
	i := f.renorm(s.init.(*Term))
	switch s.kind {
	case "inv":
		return i
	case "lin":
		return f.Add(i, f.Scale(t, s.c))
	case "pre":
		return f.Cat(f.Rep(s.s, t), i)
	case "app":
		return f.Cat(i, f.Rep(s.s, t))
	}
	return nil
}

func newLits(base, f *Facts) []*Term {
	if len(f.lits) < len(base.lits) {
		return nil
	}
	return f.lits[len(base.lits):]
}

// solve finds the first iteration t at which the literal holds.
func solve(f *Facts, l, t *Term) *Term {
	if l.op != "ge0" && l.op != "eq0" {
		return nil
	}
	ln := linOf(l.args[0])
	c := ln.m[t]
	if c == nil {
		return nil
	}
	rest := newLin()
	rest.k.Set(ln.k)
	for a, d := range ln.m {
		if a == t {
			continue
		}
		if a.contains(t) {
			return nil
		}
		rest.m[a] = d
	}
	A := rest.term()
	switch l.op {
	case "ge0":
		if c.Sign() <= 0 {
			return nil
		}
		if c.Cmp(big1) == 0 {
			return f.Max0(f.Neg(A))
		}
		return f.Max0(f.Div(f.Add(f.Neg(A), tInt(new(big.Int).Sub(c, big1))), tInt(c)))
	case "eq0":
		if c.CmpAbs(big1) != 0 {
			return nil
		}
		v := f.Neg(A)
		if c.Sign() < 0 {
			v = A
		}
		if f.ge(v, tI(0)) {
			return v
		}
	}
	return nil
}

func (x *Interp) summarise(fi *funcInfo, il *loopInfo, p *path) (*outcome, bool) {
	pos := loopPos(il)
	base := p.st.ev
	nIssues := len(x.issues)
	slots, _, o1 := x.findSlots(fi, il, p)
	x.issues = x.issues[:nIssues]
	precise := true
	if o1 == nil {
		for _, s := range slots {
			s.kind = "havoc"
		}
	} else {
		classify(slots, o1.backs)
	}
	t := tVar(SInt, freshName("t"))
	// the iterations up to which every counter stays within its type; that the loop has
	// ended by then is verified below
	cap := pow(2, 47)
	for _, s := range slots {
		if s.kind != "lin" || s.typ == nil || !isIntT(s.typ) || s.c.Sign() == 0 {
			continue
		}
		lo, hi, _, _ := intRange(s.typ)
		b := p.st.f.bounds(s.init.(*Term))
		if b.lo == nil || b.hi == nil {
			continue
		}
		room := new(big.Int).Sub(hi, b.hi)
		if s.c.Sign() < 0 {
			room = new(big.Int).Sub(b.lo, lo)
		}
		// a little less, for sums the body computes with the counter
		room.Sub(room, bmin(bi(1024), new(big.Int).Rsh(room, 4)))
		cap = bmin(cap, new(big.Int).Quo(room, new(big.Int).Abs(s.c)))
	}
	run := func() (*path, *outcome) {
		q := p.clone()
		g := q.st.f.clone()
		g.iv[t] = Iv{bi(0), cap}
		g.dirty()
		q.st.f = g
		for _, s := range slots {
			switch s.kind {
			case "inv", "lin", "pre", "app":
				s.put(q, s.at(q.st.f, t))
			case "map":
			default:
				k := s.kind
				x.freshFor(s, q)
				s.kind = k
			}
		}
		start := q.clone()
		return start, x.region(fi, il, il.header, []*path{q})
	}
	start, o := run()
	if cap.Cmp(pow(2, 47)) < 0 {
		fine := true
		for _, b := range o.backs {
			g := b.st.f.clone()
			if iv := g.iv[t]; iv.hi != nil && iv.hi.Cmp(cap) >= 0 {
				g.iv[t] = Iv{iv.lo, pow(2, 47)}
				g.dirty()
			}
			fine = fine && g.ge(tInt(new(big.Int).Sub(cap, big1)), t)
		}
		if !fine {
			cap = pow(2, 47)
			start, o = run()
		}
	}
	// verify the recurrences; what does not hold becomes unknown
	for round := 0; round < 4; round++ {
		bad := false
		for _, s := range slots {
			switch s.kind {
			case "inv", "lin", "pre", "app":
				for _, b := range o.backs {
					n, ok := s.get(b).(*Term)
					if !ok || b.st.f.renorm(n) != b.st.f.renorm(s.at(b.st.f, b.st.f.AddK(t, 1))) {
						s.kind, bad = "havoc", true
						break
					}
				}
			}
		}
		if !bad {
			break
		}
		start, o = run()
	}
	g0 := start.st.f
	// literals that decide an element search
	// (iteration t looks at element off + sgn*t)
	type search struct {
		list, w, lit, off *Term
		sgn               int64
	}
	var srch *search
	asSearch := func(l *Term) *search {
		if l.op != "eqs" {
			return nil
		}
		for k := 0; k < 2; k++ {
			a, b := l.args[k], l.args[1-k]
			if a.op != "elem" || b.contains(t) || a.args[0].contains(t) {
				continue
			}
			for _, sgn := range []int64{1, -1} {
				off := g0.Sub(a.args[1], g0.Scale(t, bi(sgn)))
				if !off.contains(t) {
					return &search{a.args[0], b, l, off, sgn}
				}
			}
		}
		return nil
	}
	look := func(f *Facts) {
		for _, l := range newLits(g0, f) {
			m := l
			if m.op == "not" {
				m = m.args[0]
			}
			if s := asSearch(m); s != nil && srch == nil {
				srch = s
			}
		}
	}
	for _, e := range o.outs {
		look(e.p.st.f)
	}
	for _, r := range o.rets {
		look(r.st.f)
	}
	for _, b := range o.backs {
		look(b.st.f)
	}
	missed := func(b *path) bool {
		for _, l := range newLits(g0, b.st.f) {
			if l.op == "not" && l.args[0] == srch.lit {
				return true
			}
		}
		return b.st.f.refuted(srch.lit)
	}
	hit := func(f *Facts) bool {
		for _, l := range newLits(g0, f) {
			if l == srch.lit {
				return true
			}
		}
		return false
	}
	allMiss := srch != nil
	plain := srch != nil && srch.off.isK(0) && srch.sgn == 1
	if srch != nil {
		for _, b := range o.backs {
			if !missed(b) {
				allMiss = false
			}
		}
	}
	uniq := srch != nil && g0.bools[mk("uniq", SBool, "", nil, nil, srch.list)]
	if srch != nil && !plain && !uniq {
		srch, allMiss = nil, false
	}
	// conditional assignments
	for _, s := range slots {
		if s.kind != "cond?" {
			continue
		}
		s.kind = "havoc"
		if srch == nil || !uniq && !allMiss {
			continue
		}
		ok := true
		for _, b := range o.backs {
			n, isT := s.get(b).(*Term)
			if !isT {
				ok = false
				break
			}
			n = b.st.f.renorm(n)
			switch {
			case missed(b):
				ok = ok && n == b.st.f.renorm(s.v)
			case hit(b.st.f):
				if n.contains(s.v) || s.set != nil && s.set != n {
					ok = false
				}
				s.set = n
			default:
				ok = false
			}
		}
		if ok && s.set != nil {
			s.kind = "cond"
		}
	}
	for _, s := range slots {
		if s.kind == "havoc" {
			precise = false
		}
	}
	// which exits can be solved for t?
	type ex struct {
		f    *Facts
		tx   *Term
		lit  *Term
		done bool
	}
	notBack := func(l *Term) bool {
		for _, b := range o.backs {
			if b.st.f.holds(l) != -1 {
				return false
			}
		}
		return true
	}
	solveExit := func(f *Facts) *ex {
		e := &ex{f: f}
		for _, l := range newLits(g0, f) {
			if !l.contains(t) {
				continue
			}
			if v := solve(g0, l, t); v != nil && notBack(l) {
				dep := false
				for _, s := range slots {
					if s.v != nil && v.contains(s.v) && s.kind != "inv" {
						dep = true
					}
				}
				if dep {
					continue
				}
				e.tx, e.lit = v, l
				break
			}
		}
		return e
	}
	bounded := false
	res := &outcome{}
	// events of the iterations
	seen := map[string]bool{}
	var extra []*Ev
	for _, b := range o.backs {
		evs := b.st.eventsSince(base)
		for i := len(evs) - 1; i >= 0; i-- {
			k := fmt.Sprint(evs[i].kind, evs[i].what, evs[i].pos, len(evs[i].terms))
			if !seen[k] {
				seen[k] = true
				extra = append(extra, evs[i])
			}
		}
	}
	addEv := func(st *State) {
		for _, e := range extra {
			st.event(e.kind, e.what, e.pos, e.fn, e.terms...)
		}
	}
	// character classes: every earlier byte let the loop go on
	var clsSeq *Term
	var clsK string
	findCls := func() {
		cand := map[*Term]bool{}
		collect := func(f *Facts) {
			for _, l := range newLits(g0, f) {
				l.has(func(u *Term) bool {
					if u.op == "at" && u.args[1] == t && !u.args[0].contains(t) {
						cand[u.args[0]] = true
					}
					return false
				})
			}
		}
		for _, b := range o.backs {
			collect(b.st.f)
		}
		for _, e := range o.outs {
			collect(e.p.st.f)
		}
		for _, r := range o.rets {
			collect(r.st.f)
		}
		if len(cand) != 1 {
			return
		}
		for s := range cand {
			clsSeq = s
		}
		at := mk("at", SInt, "", nil, nil, clsSeq, t)
		clsK = mkCls(func(c byte) bool {
			for _, b := range o.backs {
				if len(b.st.f.split(b.st.f.EqI(at, tI(int64(c))))) > 0 {
					return true
				}
			}
			return false
		})
	}
	if len(o.backs) > 0 {
		findCls()
	}
	// maps
	for _, s := range slots {
		if s.kind != "map" {
			continue
		}
		m0, _ := s.init.(*MapV)
		ok := m0 != nil && len(m0.ks) == 0 && m0.famL == nil && !m0.opaque && len(o.backs) == 1
		if ok {
			m1, isM := s.get(o.backs[0]).(*MapV)
			ok = isM && len(m1.ks) == 1
			if ok {
				k, isT := m1.ks[0].(*Term)
				v, isT2 := m1.vs[0].(*Term)
				ok = isT && isT2 && k.op == "elem" && k.args[1] == t && g0.bools[mk("uniq", SBool, "", nil, nil, k.args[0])]
				if ok {
					s.set, s.v = v, k.args[0]
				}
			}
		}
		if !ok {
			s.kind = "havoc"
			s.put(start, &MapV{opaque: true})
			precise = false
		}
	}
	hasFullScan := func(e *ex, list *Term) bool {
		return e.tx != nil && g0.renorm(e.tx) == g0.renorm(g0.LLen(list))
	}
	// ways out in the middle of the range: at its end, none of them was taken before
	early, earlyHits := false, true
	mid := func(f *Facts) {
		if solveExit(f).tx == nil {
			early = true
			earlyHits = earlyHits && srch != nil && hit(f)
		}
	}
	for _, e := range o.outs {
		mid(e.p.st.f)
	}
	for _, r := range o.rets {
		mid(r.st.f)
	}
	// the states in which the elements looked at are without w, and, with found, those in
	// which one of them is w
	without := func(s *State, tx *Term, found bool) []*State {
		var r []*State
		in := s.f.In(srch.list, srch.w)
		add := func(g *Facts, more ...func(*Facts) *Term) {
			for _, m := range more {
				if g != nil {
					g = g.assume(m(g))
				}
			}
			if g != nil {
				n := s.clone()
				n.f = g
				r = append(r, n)
			}
		}
		yes := s.f.assume(in)
		full := plain && g0.renorm(tx) == g0.renorm(g0.LLen(srch.list))
		if full {
			if found {
				add(yes)
			} else {
				add(s.f.assume(s.f.Not(in)))
			}
			return r
		}
		// the first and the last element looked at
		lo := func(g *Facts) *Term { return srch.off }
		hi := func(g *Facts) *Term { return g.AddK(g.Add(srch.off, tx), -1) }
		if srch.sgn < 0 {
			lo, hi = func(g *Facts) *Term { return g.AddK(g.Sub(srch.off, tx), 1) }, func(g *Facts) *Term { return srch.off }
		}
		ix := func(g *Facts) *Term { return g.IdxOf(srch.list, srch.w) }
		below := func(g *Facts) *Term { return g.Lt(ix(g), lo(g)) }
		above := func(g *Facts) *Term { return g.Lt(hi(g), ix(g)) }
		if found {
			add(yes, func(g *Facts) *Term { return g.Not(below(g)) }, func(g *Facts) *Term { return g.Not(above(g)) })
			return r
		}
		add(s.f.assume(s.f.Not(in)))
		if yes != nil {
			add(yes, below)
			add(yes, func(g *Facts) *Term { return g.Not(below(g)) }, above)
		}
		return r
	}
	// the states in which the conditional assignments have not happened, and in which they
	// have, after tx iterations
	setTo := func(s *State, sl *slot, w *Term) bool {
		g := s.f
		if w.sort == SBool {
			if g = g.assume(g.renorm(sl.v)); g != nil && g.renorm(w) != tTrue {
				if g.renorm(w) != tFalse {
					return false
				}
				g = s.f.assume(s.f.Not(s.f.renorm(sl.v)))
			} else if g == nil && s.f.renorm(w) == tFalse {
				g = s.f
			}
		} else if w.sort == SInt {
			g = g.assume(g.Eq0(g.Sub(g.renorm(sl.v), w)))
		}
		if g == nil {
			return false
		}
		s.f = g.eqVar(sl.v, w)
		return true
	}
	conds := func(st *State, tx *Term) []*State {
		var r []*State
	A:
		for _, s := range without(st, tx, false) {
			for _, sl := range slots {
				if sl.kind == "cond" && !setTo(s, sl, sl.init.(*Term)) {
					continue A
				}
			}
			r = append(r, s)
		}
	B:
		for _, s := range without(st, tx, true) {
			ti := s.f.Scale(s.f.Sub(s.f.IdxOf(srch.list, srch.w), srch.off), bi(srch.sgn))
			last := true // no iteration follows the assignment
			for _, b := range o.backs {
				q := b.st.clone()
				for _, sl := range slots {
					if sl.kind == "cond" && q != nil && !setTo(q, sl, q.f.replace(sl.set, t, ti)) {
						q = nil
					}
				}
				last = last && q == nil
			}
			for _, sl := range slots {
				if sl.kind == "cond" && !setTo(s, sl, s.f.replace(sl.set, t, ti)) {
					continue B
				}
			}
			if last {
				g := s.f.assume(s.f.Eq0(s.f.Sub(tx, s.f.AddK(ti, 1))))
				if g == nil {
					continue
				}
				s.f = g
			}
			r = append(r, s)
		}
		return r
	}
	finish := func(st *State, env map[ssa.Value]Val) []*State {
		f := st.f
		e := solveExit(f)
		var out []*State
		lost := early
		if e.tx != nil {
			bounded = true
			// before the end of the scan no element was found, or the last assignment stands
			variants := []*State{st.clone()}
			if srch != nil && (allMiss || hasCond(slots)) && (uniq || hasFullScan(e, srch.list)) {
				lost = early && !earlyHits
				if allMiss {
					variants = without(st, e.tx, false)
				} else {
					variants = conds(st, e.tx)
				}
			}
			for _, s := range variants {
				if clsSeq != nil && g0.renorm(e.tx) == g0.renorm(g0.Len(clsSeq)) {
					lost = false
					g := s.f.assume(s.f.AllCls(clsSeq, clsK))
					if g == nil {
						continue
					}
					s.f = g
				}
				for _, sl := range slots {
					if sl.kind == "map" {
						if hasFullScan(e, sl.v) {
							set := sl.set
							s.storeRaw(Ptr{obj: sl.obj, path: sl.path}, &MapV{famL: sl.v, famV: func(i *Term) Val { return newFacts().replace(set, t, i) }})
						} else {
							s.storeRaw(Ptr{obj: sl.obj, path: sl.path}, &MapV{opaque: true})
							s.event("unsupported", "map filled in a loop", pos, x.curFn())
						}
					}
				}
				g := s.f.assume(s.f.Eq0(s.f.Sub(t, e.tx)))
				if g == nil {
					continue
				}
				s.f = g
				if lost {
					s.event("widened", "that no iteration left the loop is not kept", pos, x.curFn())
				}
				out = append(out, s)
			}
			return out
		}
		at := []*State{st.clone()}
		if srch != nil && uniq && hasCond(slots) {
			at = conds(st, t)
		}
		for _, s := range at {
			if srch != nil && (allMiss || uniq) && hit(f) {
				// found at t, which is then the position of the element
				if g := s.f.assumeIn(srch.list, srch.w, s.f.Add(srch.off, s.f.Scale(t, bi(srch.sgn)))); g != nil {
					s.f = g
				} else {
					continue
				}
			} else if srch != nil && hit(f) {
				g := s.f.clone()
				g.bools[mk("in", SBool, "", nil, nil, srch.list, srch.w)] = true
				g.dirty()
				s.f = g
			}
			if clsSeq != nil {
				at := mk("at", SInt, "", nil, nil, clsSeq, t)
				stops := true
				for c := 0; c < 256; c++ {
					if clsHas(clsK, byte(c)) && len(f.split(f.EqI(at, tI(int64(c))))) > 0 {
						stops = false
						break
					}
				}
				if stops && f.ge(f.Len(clsSeq), f.AddK(t, 1)) {
					g := s.f.assume(s.f.Not(s.f.AllCls(clsSeq, clsK)))
					if g == nil {
						continue
					}
					s.f = g
				}
			}
			out = append(out, s)
		}
		return out
	}
	for _, e := range o.outs {
		for _, s := range finish(e.p.st, e.p.env) {
			n := &path{s, e.p.env, e.p.defers}
			c := n.clone()
			// t is gone: rewrite everything that mentions it
			x.settle(c, p, t)
			addEv(c.st)
			res.outs = append(res.outs, edge{e.to, e.from, c})
		}
	}
	for _, r := range o.rets {
		for _, s := range finish(r.st, nil) {
			addEv(s)
			res.rets = append(res.rets, ret{s, r.vals})
		}
	}
	for _, e := range o.exits {
		for _, s := range finish(e.st, nil) {
			addEv(s)
			res.exits = append(res.exits, exit{s, e.kind, e.what, e.pos, e.fn})
		}
	}
	// termination
	if len(o.backs) > 0 && !bounded {
		if !x.decreasing(slots, o.backs) && !boundedBacks(g0, o.backs, t) {
			drew := true
			for _, b := range o.backs {
				d := false
				for _, e := range b.st.eventsSince(base) {
					if e.kind == "rand" {
						d = true
					}
				}
				drew = drew && d
			}
			if !drew {
				kind := "bound"
				for _, b := range o.backs {
					if stuck(slots, b) {
						kind = "loop"
					}
				}
				x.issue(kind, "no bound on the number of iterations", pos)
			} else {
				x.issue("retry", "retried with fresh randomness", pos)
			}
		}
	}
	if len(o.outs) == 0 && len(o.rets) == 0 && len(o.exits) == 0 && len(o.backs) > 0 {
		x.issue("loop", "no way out", pos)
	}
	if !precise {
		for _, e := range res.outs {
			e.p.st.event("widened", "loop variables widened", pos, x.curFn())
		}
		for i := range res.rets {
			res.rets[i].st.event("widened", "loop variables widened", pos, x.curFn())
		}
		for i := range res.exits {
			res.exits[i].st.event("widened", "loop variables widened", pos, x.curFn())
		}
	}
	return res, precise
}

func hasCond(ss []*slot) bool {
	for _, s := range ss {
		if s.kind == "cond" {
			return true
		}
	}
	return false
}

// boundedBacks: every iteration implies an upper bound on t.
func boundedBacks(g0 *Facts, backs []*path, t *Term) bool {
	for _, b := range backs {
		ok := false
		for _, l := range newLits(g0, b.st.f) {
			if l.op == "ge0" {
				ln := linOf(l.args[0])
				if c := ln.m[t]; c != nil && c.Sign() < 0 {
					dep := false
					for a := range ln.m {
						if a != t && a.has(func(u *Term) bool { return u == t || u.op == "var" && len(u.s) > 1 && u.s[:2] == "%l" }) {
							dep = true
						}
					}
					ok = ok || !dep
				}
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// stuck: an iteration may leave everything as it was.
func stuck(slots []*slot, b *path) bool {
	f := b.st.f
	for _, s := range slots {
		n, isT := s.get(b).(*Term)
		if !isT || s.v == nil || s.kind == "map" {
			return false
		}
		n = f.renorm(n)
		v := f.renorm(s.v)
		if n == v {
			continue
		}
		switch n.sort {
		case SInt:
			f = f.assume(f.Eq0(f.Sub(n, v)))
		case SSeq:
			f = f.assume(f.Eqs(n, v))
		default:
			return false
		}
		if f == nil {
			return false
		}
	}
	return true
}

// decreasing: some variable is non-negative and gets smaller in every iteration.
func (x *Interp) decreasing(slots []*slot, backs []*path) bool {
	for _, s := range slots {
		old, isSlice := s.any.(SliceV)
		if s.v == nil && !isSlice || s.v != nil && s.v.sort == SBool || s.kind == "map" {
			continue
		}
		ok := true
		for _, b := range backs {
			n, isT := s.get(b).(*Term)
			v := s.v
			if w, isS := s.get(b).(SliceV); isS && isSlice {
				n, v, isT = w.ln, old.ln, true
			}
			if !isT || v == nil {
				ok = false
				break
			}
			f := b.st.f
			n = f.renorm(n)
			v = f.renorm(v)
			if n.sort == SSeq {
				v, n = f.Len(v), f.Len(n)
			} else if n.sort != SInt {
				ok = false
				break
			}
			if f.ge(v, tI(0)) && f.ge(f.AddK(v, -1), n) {
				continue
			}
			if n.op == "div" && n.args[0] == v && n.args[1].isInt() && n.args[1].n.Cmp(big1) > 0 && f.ge(v, tI(1)) {
				continue
			}
			// counting up to a bound that does not move
			up := false
			if d := f.Sub(n, v); d.isInt() && d.n.Sign() > 0 {
				for _, l := range f.lits {
					if l.op == "ge0" {
						ln := linOf(l.args[0])
						if c := ln.m[v]; c != nil && c.Sign() < 0 {
							dep := false
							for a := range ln.m {
								for _, s2 := range slots {
									if a != v && s2.v != nil && a.contains(s2.v) && s2.kind != "inv" {
										dep = true
									}
								}
							}
							up = up || !dep
						}
					}
				}
			}
			if !up {
				ok = false
				break
			}
		}
		if ok && len(backs) > 0 {
			return true
		}
	}
	return false
}

// assumeIn records that w is in list, at position t.
func (f *Facts) assumeIn(list, w, t *Term) *Facts {
	g := f
	if h := g.assume(g.In(list, w)); h != nil {
		g = h
	} else {
		return nil
	}
	// in the presence of the rule elem(list,t) = w the membership may already be trivial
	g = g.clone()
	g.bools[mk("in", SBool, "", nil, nil, list, w)] = true
	g.dirty()
	ix := g.IdxOf(list, w)
	if ix == t {
		return g
	}
	return g.assume(g.Eq0(g.Sub(t, ix)))
}

// eqVar replaces an internal unknown by a value.
func (f *Facts) eqVar(v, w *Term) *Facts {
	g := f.clone()
	g.eqc[v] = g.renorm(w)
	g.dirty()
	return g
}

// replace substitutes a variable.
func (f *Facts) replace(u, v, w *Term) *Term {
	g := f.clone()
	g.eqc[v] = w
	g.dirty()
	return g.renorm(u)
}

// settle rewrites the values of a path under its facts, so that loop counters vanish.
// When nothing else was learnt, the facts from before the loop are restored.
func (x *Interp) settle(c, before *path, t *Term) {
	f := c.st.f
	for k, v := range c.env {
		c.env[k] = renormVal(f, v)
	}
	for id, o := range c.st.heap {
		if before.st.heap[id] == o {
			continue
		}
		n := renormVal(f, o.val)
		if !valEq(newFacts(), n, o.val) {
			ob := *o
			ob.val = n
			c.st.heap[id] = &ob
		}
	}
	// only the counter was defined?
	pf := before.st.f
	lits := newLits(pf, f)
	only := true
	for _, l := range lits {
		if !l.contains(t) {
			only = false
		}
		l.has(func(u *Term) bool {
			if u.op == "at" || u.op == "elem" || u.sort == SSeq && u.op != "var" && u.contains(t) {
				only = false
			}
			return false
		})
	}
	if !only {
		return
	}
	for k := range f.eqc {
		if _, ok := pf.eqc[k]; !ok && k != t {
			return
		}
	}
	for _, v := range c.env {
		if mentions(v, t) {
			return
		}
	}
	for id, o := range c.st.heap {
		if before.st.heap[id] != o && mentions(o.val, t) {
			return
		}
	}
	c.st.f = pf
}

func mentions(v Val, t *Term) bool {
	switch w := v.(type) {
	case *Term:
		return w.contains(t)
	case SliceV:
		return w.lo.contains(t) || w.ln.contains(t) || w.cap.contains(t)
	case *StructV:
		for _, e := range w.fs {
			if mentions(e, t) {
				return true
			}
		}
	case *ListV:
		for _, e := range w.es {
			if mentions(e, t) {
				return true
			}
		}
	case TupleV:
		for _, e := range w {
			if mentions(e, t) {
				return true
			}
		}
	case IfaceV:
		return mentions(w.v, t)
	case *HashV:
		return w.data.contains(t)
	}
	return false
}

func renormVal(f *Facts, v Val) Val {
	switch w := v.(type) {
	case *Term:
		return f.renorm(w)
	case Ptr:
		if w.idx != nil {
			return Ptr{w.obj, w.path, f.renorm(w.idx)}
		}
	case SliceV:
		return SliceV{renormVal(f, w.base).(Ptr), f.renorm(w.lo), f.renorm(w.ln), f.renorm(w.cap)}
	case *StructV:
		fs := make([]Val, len(w.fs))
		for i := range fs {
			fs[i] = renormVal(f, w.fs[i])
		}
		return &StructV{fs}
	case *ListV:
		if len(w.es) > 300 {
			return w
		}
		es := make([]Val, len(w.es))
		for i := range es {
			es[i] = renormVal(f, w.es[i])
		}
		return &ListV{es}
	case TupleV:
		es := make(TupleV, len(w))
		for i := range es {
			es[i] = renormVal(f, w[i])
		}
		return es
	case IfaceV:
		return IfaceV{w.typ, renormVal(f, w.v)}
	case *HashV:
		return &HashV{w.alg, w.key, f.renorm(w.data)}
	}
	return v
}
