package main

// The relational part of the abstract domain: what is known about value numbers at a
// program point. Intervals of atoms, linear inequalities, equations (used as rewrite
// rules) and truth values of atomic propositions. There is no search and no solver:
// assume() propagates one literal and reports an obvious contradiction.

import (
	"math/big"
	"sort"
)

// Iv is an interval; nil ends are unbounded.
type Iv struct{ lo, hi *big.Int }

type clsFact struct {
	cls string
	val bool
}

// Facts is a conjunction. It is treated as immutable once shared.
type Facts struct {
	parent *Facts
	lit    *Term
	depth  int

	lits  []*Term // everything that was assumed, in order
	iv    map[*Term]Iv
	lins  []*lin
	bools map[*Term]bool
	cls   map[*Term][]clsFact
	eqc   map[*Term]*Term
	ors   []*Term

	memo            map[*Term]*Term
	bmemo           map[*Term]Iv
	occ             map[*Term][]occ
	busy            int
	byAtom, byFirst map[*Term][]int // the inequalities an atom occurs in, or comes first in
	indexed         int
	inEq            bool // deriving an equation from two inequalities
}

func newFacts() *Facts {
	return &Facts{iv: map[*Term]Iv{}, bools: map[*Term]bool{}, cls: map[*Term][]clsFact{}, eqc: map[*Term]*Term{}}
}

func (f *Facts) clone() *Facts {
	g := &Facts{parent: f.parent, lit: f.lit, depth: f.depth}
	g.lits = append([]*Term(nil), f.lits...)
	g.iv = make(map[*Term]Iv, len(f.iv))
	for k, v := range f.iv {
		g.iv[k] = v
	}
	g.lins = append([]*lin(nil), f.lins...)
	g.bools = make(map[*Term]bool, len(f.bools))
	for k, v := range f.bools {
		g.bools[k] = v
	}
	g.cls = make(map[*Term][]clsFact, len(f.cls))
	for k, v := range f.cls {
		g.cls[k] = append([]clsFact(nil), v...)
	}
	g.eqc = make(map[*Term]*Term, len(f.eqc))
	for k, v := range f.eqc {
		g.eqc[k] = v
	}
	g.ors = append([]*Term(nil), f.ors...)
	return g
}

func (f *Facts) dirty() { f.memo, f.bmemo, f.occ = nil, nil, nil }

// ---- intervals ----

func bmax(a, b *big.Int) *big.Int {
	if a == nil {
		return b
	}
	if b == nil || a.Cmp(b) >= 0 {
		return a
	}
	return b
}
func bmin(a, b *big.Int) *big.Int {
	if a == nil {
		return b
	}
	if b == nil || a.Cmp(b) <= 0 {
		return a
	}
	return b
}

func pow(b, e int64) *big.Int { return new(big.Int).Exp(bi(b), bi(e), nil) }

func floorDiv(a, b *big.Int) *big.Int { // b > 0
	return new(big.Int).Div(a, b) // Euclidean, floor for positive b
}
func ceilDiv(a, b *big.Int) *big.Int {
	n := new(big.Int).Neg(a)
	n.Div(n, b)
	return n.Neg(n)
}

// digitsLen is the number of base-b digits of v (at least one).
func digitsLen(v *big.Int, b int64) int64 {
	if v.Sign() <= 0 {
		return 1
	}
	return int64(len(v.Text(int(b))))
}

func (f *Facts) bounds(t *Term) Iv {
	if t.op == "int" {
		return Iv{t.n, t.n}
	}
	if v, ok := f.bmemo[t]; ok {
		return v
	}
	if f.busy > 400 {
		return Iv{}
	}
	f.busy++
	v := f.bounds1(t)
	f.busy--
	if g, ok := f.iv[t]; ok {
		v.lo, v.hi = bmax(v.lo, g.lo), bmin(v.hi, g.hi)
	}
	if f.bmemo == nil {
		f.bmemo = map[*Term]Iv{}
	}
	f.bmemo[t] = v
	return v
}

func (f *Facts) linBounds(l *lin) Iv {
	b := f.linBounds0(l)
	if len(l.m) < 2 {
		return b
	}
	// what is known of sums that are part of this one
	for _, q := range f.within1(l) {
		if len(q.m) < 2 || len(q.m) > len(l.m) {
			continue
		}
		sign := 0
		for a, c := range q.m {
			d := l.m[a]
			if d == nil || d.CmpAbs(c) != 0 || sign != 0 && d.Sign()*c.Sign() != sign {
				sign = 2
				break
			}
			sign = d.Sign() * c.Sign()
		}
		if sign != 1 && sign != -1 {
			continue
		}
		rest := newLin()
		for a, c := range l.m {
			if q.m[a] == nil {
				rest.m[a] = c
			}
		}
		if sign == 1 { // l = q + rest
			rest.k.Sub(l.k, q.k)
			if r := f.linBounds0(rest); r.lo != nil && (b.lo == nil || r.lo.Cmp(b.lo) > 0) {
				b.lo = r.lo
			}
		} else { // l = rest - q
			rest.k.Add(l.k, q.k)
			if r := f.linBounds0(rest); r.hi != nil && (b.hi == nil || r.hi.Cmp(b.hi) < 0) {
				b.hi = r.hi
			}
		}
	}
	return b
}

// index lists the inequalities by their atoms.
func (f *Facts) index() {
	if f.byAtom != nil && f.indexed == len(f.lins) {
		return
	}
	f.byAtom, f.byFirst, f.indexed = map[*Term][]int{}, map[*Term][]int{}, len(f.lins)
	for i, g := range f.lins {
		var first *Term
		for a := range g.m {
			f.byAtom[a] = append(f.byAtom[a], i)
			if first == nil || a.id < first.id {
				first = a
			}
		}
		if first != nil {
			f.byFirst[first] = append(f.byFirst[first], i)
		}
	}
}

// within1 lists the inequalities whose first atom occurs in l.
func (f *Facts) within1(l *lin) []*lin {
	if len(f.lins) == 0 {
		return nil
	}
	f.index()
	var ix []int
	for a := range l.m {
		ix = append(ix, f.byFirst[a]...)
	}
	sort.Ints(ix)
	r := make([]*lin, len(ix))
	for i, j := range ix {
		r[i] = f.lins[j]
	}
	return r
}

// related lists the inequalities that share an atom with l, with the same sign.
func (f *Facts) related(l *lin) []*lin {
	if len(f.lins) == 0 {
		return nil
	}
	f.index()
	var ix []int
	for a, c := range l.m {
		for _, j := range f.byAtom[a] {
			if f.lins[j].m[a].Sign() == c.Sign() {
				ix = append(ix, j)
			}
		}
	}
	sort.Ints(ix)
	var r []*lin
	for i, j := range ix {
		if i == 0 || ix[i-1] != j {
			r = append(r, f.lins[j])
		}
	}
	return r
}

func (f *Facts) linBounds0(l *lin) Iv {
	lo, hi := new(big.Int).Set(l.k), new(big.Int).Set(l.k)
	for a, c := range l.m {
		b := f.bounds(a)
		l1, h1 := b.lo, b.hi
		if c.Sign() < 0 {
			l1, h1 = h1, l1
		}
		if lo != nil {
			if l1 == nil {
				lo = nil
			} else {
				lo.Add(lo, new(big.Int).Mul(c, l1))
			}
		}
		if hi != nil {
			if h1 == nil {
				hi = nil
			} else {
				hi.Add(hi, new(big.Int).Mul(c, h1))
			}
		}
	}
	return Iv{lo, hi}
}

func (f *Facts) bounds1(t *Term) Iv {
	switch t.op {
	case "lin":
		return f.linBounds(linOf(t))
	case "mul":
		lo, hi := bi(1), bi(1)
		for _, a := range t.args {
			b := f.bounds(a)
			if b.lo == nil || b.lo.Sign() < 0 {
				return Iv{}
			}
			lo = new(big.Int).Mul(lo, b.lo)
			if hi != nil && b.hi != nil {
				hi = new(big.Int).Mul(hi, b.hi)
			} else {
				hi = nil
			}
		}
		return Iv{lo, hi}
	case "mod":
		b := f.bounds(t.args[0])
		m := f.bounds(t.args[1])
		v := Iv{lo: bi(0)}
		if m.hi != nil {
			v.hi = new(big.Int).Sub(m.hi, big1)
		}
		if b.lo != nil && b.lo.Sign() >= 0 {
			v.hi = bmin(v.hi, b.hi)
		}
		// n is prime: a product of factors that are not 0 mod n is not 0 mod n
		if t.args[1].isInt() && t.args[1].n.Cmp(curveN) == 0 && f.unitModN(t.args[0]) {
			v.lo = bi(1)
		}
		return v
	case "div":
		b := f.bounds(t.args[0])
		if t.args[1].isInt() && t.args[1].n.Sign() > 0 {
			v := Iv{}
			if b.lo != nil {
				v.lo = floorDiv(b.lo, t.args[1].n)
			}
			if b.hi != nil {
				v.hi = floorDiv(b.hi, t.args[1].n)
			}
			return v
		}
		if b.lo != nil && b.lo.Sign() >= 0 {
			return Iv{bi(0), b.hi}
		}
	case "len":
		v := Iv{bi(0), maxLen}
		x := t.args[0]
		switch x.op {
		case "fmtint":
			kb := f.bounds(x.args[0])
			base := x.n.Int64()
			v.lo = bi(1)
			if kb.lo != nil && kb.lo.Sign() >= 0 {
				v.lo = bi(digitsLen(kb.lo, base))
				if kb.hi != nil {
					v.hi = bi(digitsLen(kb.hi, base))
				}
			}
		case "bytes":
			kb := f.bounds(x.args[0])
			if kb.lo != nil && kb.lo.Sign() >= 0 {
				v.lo = bi(int64(kb.lo.BitLen()+7) / 8)
				if kb.hi != nil {
					v.hi = bi(int64(kb.hi.BitLen()+7) / 8)
				}
			}
		case "split":
			v.lo = bi(1)
		case "elem":
			if f.bools[mk("nonempty", SBool, "", nil, nil, x.args[0])] {
				v.lo = bi(1)
			}
		}
		return v
	case "llen":
		if t.args[0].op == "split" {
			return Iv{bi(1), maxLen}
		}
		return Iv{bi(0), maxLen}
	case "bitlen":
		b := f.bounds(t.args[0])
		v := Iv{lo: bi(0)}
		if b.lo != nil && b.lo.Sign() >= 0 {
			v.lo = bi(int64(b.lo.BitLen()))
			if b.hi != nil {
				v.hi = bi(int64(b.hi.BitLen()))
			}
		}
		return v
	case "at":
		return Iv{bi(0), bi(255)}
	case "bit", "b2i":
		return Iv{bi(0), bi(1)}
	case "sgn", "cmps":
		return Iv{bi(-1), bi(1)}
	case "frombe":
		l := f.bounds(f.Len(t.args[0]))
		v := Iv{lo: bi(0)}
		if l.hi != nil && l.hi.IsInt64() && l.hi.Int64() <= 4096 {
			v.hi = new(big.Int).Sub(pow(256, l.hi.Int64()), big1)
		}
		return v
	case "idxof":
		v := Iv{lo: bi(0)}
		if b := f.bounds(f.LLen(t.args[0])); b.hi != nil {
			v.hi = new(big.Int).Sub(b.hi, big1)
		}
		return v
	case "sqrt":
		return Iv{bi(0), new(big.Int).Sub(curveP, big1)}
	case "px", "py":
		// no point of the curve has a coordinate 0: 7 is not a square modulo p, -7 not a cube
		return Iv{bi(1), new(big.Int).Sub(curveP, big1)}
	case "max0":
		b := f.bounds(t.args[0])
		v := Iv{lo: bmax(bi(0), b.lo)}
		if b.hi != nil {
			v.hi = bmax(bi(0), b.hi)
		}
		return v
	case "orbits", "xorbits", "andbits":
		return Iv{lo: bi(0)}
	}
	return Iv{}
}

// unitModN reports whether t is a product of factors in [1, n-1].
func (f *Facts) unitModN(t *Term) bool {
	ok := func(a *Term) bool {
		b := f.bounds(a)
		return b.lo != nil && b.lo.Sign() > 0 && b.hi != nil && b.hi.Cmp(curveN) < 0
	}
	if t.op == "mul" {
		for _, a := range t.args {
			if !ok(a) {
				return false
			}
		}
		return true
	}
	if t.op == "lin" && len(t.args) == 1 && t.n.Sign() == 0 && new(big.Int).Mod(t.cs[0], curveN).Sign() != 0 {
		return f.unitModN(t.args[0])
	}
	return ok(t)
}

// nonneg decides l >= 0 from intervals and at most two of the known inequalities.
func (f *Facts) nonneg(l *lin) bool {
	if b := f.linBounds(l); b.lo != nil && b.lo.Sign() >= 0 {
		return true
	}
	if len(l.m) == 0 || len(l.m) > 12 {
		return false
	}
	rel := f.related(l)
	if len(rel) > 40 {
		rel = rel[len(rel)-40:]
	}
	sub := func(l, g *lin, s int64) *lin {
		r := newLin()
		r.k.Sub(l.k, new(big.Int).Mul(g.k, bi(s)))
		for a, c := range l.m {
			r.m[a] = c
		}
		for a, c := range g.m {
			r.addA(a, new(big.Int).Mul(c, bi(-s)))
		}
		return r
	}
	for _, g := range rel {
		for _, s := range []int64{1, 2} {
			r := sub(l, g, s)
			if b := f.linBounds(r); b.lo != nil && b.lo.Sign() >= 0 {
				return true
			}
			if len(f.lins) <= 40 {
				for _, h := range f.related(r) {
					r2 := sub(r, h, 1)
					if b := f.linBounds(r2); b.lo != nil && b.lo.Sign() >= 0 {
						return true
					}
				}
			}
		}
	}
	return false
}

// ge decides a >= b.
func (f *Facts) ge(a, b *Term) bool {
	l := linOf(a)
	l.addT(b, bi(-1))
	return f.nonneg(l)
}

// same decides whether a and b are the same value number.
func (f *Facts) same(a, b *Term) bool {
	if a == b {
		return true
	}
	return f.renorm(a) == f.renorm(b)
}

// ---- assuming ----

// holds decides a proposition: 1 true, -1 false, 0 unknown.
func (f *Facts) holds(t *Term) int {
	t = f.renorm(t)
	if t == tTrue {
		return 1
	}
	if t == tFalse {
		return -1
	}
	return 0
}

// implied reports that t holds in every case of f.
func (f *Facts) implied(t *Term) bool {
	switch f.holds(t) {
	case 1:
		return true
	case -1:
		return false
	}
	return len(f.split(f.Not(f.renorm(t)))) == 0
}

// refuted reports that t contradicts f.
func (f *Facts) refuted(t *Term) bool { return len(f.split(t)) == 0 }

// split returns the consistent cases of f together with t.
func (f *Facts) split(t *Term) []*Facts {
	t = f.renorm(t)
	switch t.op {
	case "bool":
		if t.b {
			return []*Facts{f}
		}
		return nil
	case "and":
		cur := []*Facts{f}
		for _, a := range t.args {
			var next []*Facts
			for _, g := range cur {
				next = append(next, g.split(a)...)
			}
			cur = next
			if len(cur) > 64 {
				break
			}
		}
		return cur
	case "or":
		var out []*Facts
		// disjoint cases: a1, !a1&a2, ...
		cur := []*Facts{f}
		for i, a := range t.args {
			var rest []*Facts
			for _, g := range cur {
				out = append(out, g.split(a)...)
				if i < len(t.args)-1 {
					rest = append(rest, g.split(g.Not(a))...)
				}
			}
			cur = rest
			if len(cur)+len(out) > 64 {
				break
			}
		}
		return out
	}
	if g := f.assume(t); g != nil {
		return []*Facts{g}
	}
	return nil
}

// assume adds a literal; nil means contradiction.
func (f *Facts) assume(t *Term) *Facts {
	t = f.renorm(t)
	if t == tTrue {
		return f
	}
	if t == tFalse {
		return nil
	}
	g := f.clone()
	g.parent, g.lit, g.depth = f, t, f.depth+1
	g.lits = append(g.lits, t)
	restruct, ok := g.add(t)
	if !ok {
		return nil
	}
	if restruct {
		if g = g.rebuild(); g == nil {
			return nil
		}
		g.parent, g.lit, g.depth = f, t, f.depth+1
		return g.joinBits(t)
	}
	g.dirty()
	if !g.checkOrs() {
		return nil
	}
	if g = g.fewValues(t); g == nil {
		return nil
	}
	return g.joinBits(t)
}

// fewValues decides a plain number of which few values are left.
func (f *Facts) fewValues(t *Term) *Facts {
	if t.op == "not" {
		t = t.args[0]
	}
	if t.op != "ge0" && t.op != "eq0" {
		return f
	}
	l := linOf(t.args[0])
	if len(l.m) != 1 {
		return f
	}
	for x := range l.m {
		if x.op == "mod" {
			x = x.args[0]
		}
		b := f.bounds(x)
		if x.op != "var" || b.lo == nil || b.hi == nil || new(big.Int).Sub(b.hi, b.lo).Cmp(bi(32)) > 0 {
			return f
		}
		if _, known := f.eqc[x]; known {
			return f
		}
		var can []*big.Int
	values:
		for v := new(big.Int).Set(b.lo); v.Cmp(b.hi) <= 0; v = new(big.Int).Add(v, big1) {
			if f.renorm(f.Eq0(f.Sub(x, tInt(v)))) == tFalse {
				continue
			}
			for k, c := range f.eqc {
				if k.op == "mod" && k.args[0] == x && k.args[1].isInt() && k.args[1].n.Sign() > 0 && c.isInt() && new(big.Int).Mod(v, k.args[1].n).Cmp(c.n) != 0 {
					continue values
				}
			}
			if can = append(can, v); len(can) > 1 {
				return f
			}
		}
		if len(can) == 0 {
			return nil
		}
		return f.assume(f.Eq0(f.Sub(x, tInt(can[0]))))
	}
	return f
}

// leadingBit recognises the highest bit of a small number, and gives its weight.
func (f *Facts) leadingBit(t *Term) (*Term, *big.Int) {
	if t.op != "bit" {
		return nil, nil
	}
	x := t.args[0]
	j, ok := t.args[1].i64()
	b := f.bounds(x)
	if !ok || j < 1 || x.op == "lin" || b.lo == nil || b.lo.Sign() < 0 || b.hi == nil || b.hi.BitLen() > 16 || int64(b.hi.BitLen()) != j+1 {
		return nil, nil
	}
	return x, new(big.Int).Lsh(big1, uint(j))
}

// joinBits: numbers all of whose bits are equal are equal, after an equation between bits.
func (f *Facts) joinBits(t *Term) *Facts {
	if t.op == "not" {
		t = t.args[0]
	}
	if t.op != "eq0" {
		return f
	}
	var xs []*Term
	if t.args[0].op == "bit" {
		xs = append(xs, t.args[0])
	} else if t.args[0].op == "lin" {
		xs = t.args[0].args
	}
	if len(xs) == 0 || len(xs) > 2 {
		return f
	}
	for _, x := range xs {
		if x.op != "bit" || x.args[0].op == "lin" {
			return f
		}
	}
	n := 0
	for _, x := range xs {
		b := f.bounds(x.args[0])
		if b.lo == nil || b.lo.Sign() < 0 || b.hi == nil || b.hi.BitLen() > 16 {
			return f
		}
		if k := b.hi.BitLen(); k > n {
			n = k
		}
	}
	a, v := xs[0].args[0], new(big.Int)
	var free []int
	if len(xs) == 2 && (xs[0].args[1] != xs[1].args[1] || xs[1].args[0] == a) {
		return f
	}
	for i := 0; i < n; i++ {
		p := f.renorm(f.BitAt(a, int64(i)))
		if len(xs) == 2 {
			if p != f.renorm(f.BitAt(xs[1].args[0], int64(i))) {
				return f
			}
		} else if !p.isInt() {
			if free = append(free, i); len(free) > 3 || n > 8 {
				return f
			}
		} else if p.n.Sign() != 0 {
			v.SetBit(v, i, 1)
		}
	}
	if len(free) > 0 {
		// the few values that are left
		var can []*big.Int
		for m := 0; m < 1<<uint(len(free)); m++ {
			w := new(big.Int).Set(v)
			for j, i := range free {
				if m>>uint(j)&1 != 0 {
					w.SetBit(w, i, 1)
				}
			}
			if f.renorm(f.Eq0(f.Sub(a, tInt(w)))) != tFalse {
				can = append(can, w)
			}
		}
		switch len(can) {
		case 0:
			return nil
		case 1:
			return f.assume(f.Eq0(f.Sub(a, tInt(can[0]))))
		}
		return f
	}
	o := tInt(v)
	if len(xs) == 2 {
		o = xs[1].args[0]
	}
	return f.assume(f.Eq0(f.Sub(a, o)))
}

func (f *Facts) checkOrs() bool {
	for _, o := range f.ors {
		if f.renorm(o) == tFalse {
			return false
		}
	}
	return true
}

// rebuild re-establishes all literals under the current rewrite rules.
func (f *Facts) rebuild() *Facts {
	for round := 0; round < 6; round++ {
		g := newFacts()
		g.parent, g.lit, g.depth = f.parent, f.lit, f.depth
		g.lits = f.lits
		for k, v := range f.eqc {
			g.eqc[k] = v
		}
		g.cls = f.cls
		changed := false
		keys := make([]*Term, 0, len(g.eqc))
		for k := range g.eqc {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
		for _, k := range keys {
			v := g.eqc[k]
			delete(g.eqc, k)
			g.dirty()
			nv := g.renorm(v)
			if nv != v && !nv.contains(k) {
				v = nv
			}
			// the key itself may now be known through another rule
			nk := g.renorm(k)
			if nk != k && nk != v {
				if k.sort == SInt {
					e := g.Eq0(g.Sub(nk, v))
					if e == tFalse {
						return nil
					}
					g.dirty()
					if e != tTrue && !nk.contains(k) && !v.contains(k) {
						r, ok := g.add(e)
						if !ok {
							return nil
						}
						changed = changed || r
					}
				}
			}
			g.eqc[k] = v
			g.dirty()
		}
		// structural knowledge first
		oc := g.cls
		g.cls = map[*Term][]clsFact{}
		g.dirty()
		ck := make([]*Term, 0, len(oc))
		for k := range oc {
			ck = append(ck, k)
		}
		sort.Slice(ck, func(i, j int) bool { return ck[i].id < ck[j].id })
		for _, s := range ck {
			for _, cf := range oc[s] {
				a := g.AllCls(g.renorm(s), cf.cls)
				if !cf.val {
					a = g.Not(a)
				}
				r, ok := g.addConj(a)
				if !ok {
					return nil
				}
				_ = r
				g.dirty()
			}
		}
		for _, l := range f.lits {
			n := g.renorm(l)
			if n == tFalse {
				return nil
			}
			if n == tTrue {
				continue
			}
			r, ok := g.addConj(n)
			if !ok {
				return nil
			}
			changed = changed || r
			g.dirty()
		}
		// intervals that were derived
		for k, v := range f.iv {
			nk := g.renorm(k)
			if v.lo != nil {
				if e := g.Ge0(g.Sub(nk, tInt(v.lo))); e == tFalse {
					return nil
				} else if e != tTrue {
					if _, ok := g.addConj(e); !ok {
						return nil
					}
					g.dirty()
				}
			}
			if v.hi != nil {
				if e := g.Ge0(g.Sub(tInt(v.hi), nk)); e == tFalse {
					return nil
				} else if e != tTrue {
					if _, ok := g.addConj(e); !ok {
						return nil
					}
					g.dirty()
				}
			}
		}
		if !g.checkOrs() {
			return nil
		}
		if !changed {
			return g
		}
		f = g
	}
	return f
}

// addConj adds a conjunction or an undecided disjunction.
func (f *Facts) addConj(t *Term) (restruct, ok bool) {
	switch t.op {
	case "bool":
		return false, t.b
	case "and":
		for _, a := range t.args {
			a = f.renorm(a)
			r, k := f.addConj(a)
			if !k {
				return false, false
			}
			f.dirty()
			restruct = restruct || r
		}
		return restruct, true
	case "or":
		f.ors = append(f.ors, t)
		return false, true
	}
	return f.add(t)
}

func (f *Facts) setIv(a *Term, lo, hi *big.Int) (changed, ok bool) {
	b := f.bounds(a)
	nlo, nhi := bmax(b.lo, lo), bmin(b.hi, hi)
	if nlo != nil && nhi != nil && nlo.Cmp(nhi) > 0 {
		return false, false
	}
	if (nlo != nil && (b.lo == nil || nlo.Cmp(b.lo) > 0)) || (nhi != nil && (b.hi == nil || nhi.Cmp(b.hi) < 0)) {
		f.iv[a] = Iv{nlo, nhi}
		f.dirty()
		changed = true
	}
	return changed, true
}

// add records one literal. restruct: rewriting rules changed.
func (f *Facts) add(t *Term) (restruct, ok bool) {
	switch t.op {
	case "ge0":
		l := linOf(t.args[0])
		return f.addGe(l)
	case "eq0":
		r, ok := f.addEq(t.args[0])
		if ok {
			if x, p := f.leadingBit(t.args[0]); x != nil {
				r2, ok2 := f.tighten(x, nil, new(big.Int).Sub(p, big1))
				return r || r2, ok2
			}
		}
		return r, ok
	case "not":
		a := t.args[0]
		switch a.op {
		case "eq0":
			f.bools[a] = false
			if x, p := f.leadingBit(a.args[0]); x != nil {
				f.eqc[a.args[0]] = tI(1)
				f.dirty()
				_, ok := f.tighten(x, p, nil)
				return true, ok
			}
			l := linOf(a.args[0])
			if len(l.m) == 1 {
				for x, c := range l.m {
					if new(big.Int).Mod(l.k, c).Sign() == 0 {
						v := new(big.Int).Div(l.k, c)
						v.Neg(v)
						b := f.bounds(x)
						if b.lo != nil && b.lo.Cmp(v) == 0 {
							return f.tighten(x, new(big.Int).Add(v, big1), nil)
						}
						if b.hi != nil && b.hi.Cmp(v) == 0 {
							return f.tighten(x, nil, new(big.Int).Sub(v, big1))
						}
					}
				}
			}
			return false, true
		case "allcls":
			f.cls[a.args[0]] = append(f.cls[a.args[0]], clsFact{a.s, false})
			f.bools[a] = false
			return true, true
		}
		f.bools[a] = false
		return false, true
	case "allcls":
		f.cls[t.args[0]] = append(f.cls[t.args[0]], clsFact{t.s, true})
		f.bools[t] = true
		return true, true
	case "eqs":
		f.bools[t] = true
		a, b := t.args[0], t.args[1]
		// rewrite the more atomic side
		if rewritable(b) && !a.contains(b) && (!rewritable(a) || b.id > a.id) {
			f.eqc[b] = a
			return true, true
		}
		if rewritable(a) && !b.contains(a) {
			f.eqc[a] = b
			return true, true
		}
		return true, true
	case "eqp":
		f.bools[t] = true
		return false, true
	case "qr":
		f.bools[t] = true
		y := mk("sqrt", SInt, "", nil, nil, t.args[0])
		f.bools[mk("oncurve", SBool, "", nil, nil, t.args[0], y)] = true
		return f.tighten(y, bi(1), nil)
	case "oncurve":
		f.bools[t] = true
		f.bools[mk("qr", SBool, "", nil, nil, t.args[0])] = true
		f.dirty()
		// no point of secp256k1 has y = 0 (the group order is odd)
		if y := t.args[1]; y.op != "int" && y.op != "lin" {
			return f.tighten(y, bi(1), nil)
		}
		return false, true
	case "or":
		f.ors = append(f.ors, t)
		return false, true
	case "and":
		return f.addConj(t)
	}
	f.bools[t] = true
	return false, true
}

func rewritable(t *Term) bool {
	switch t.op {
	case "var", "elem", "unhex", "b58dec", "slice":
		return true
	}
	return false
}

// tighten narrows the interval of an atom and what follows from that.
func (f *Facts) tighten(a *Term, lo, hi *big.Int) (restruct, ok bool) {
	changed, ok := f.setIv(a, lo, hi)
	if !ok {
		return false, false
	}
	if !changed {
		return false, true
	}
	b := f.bounds(a)
	if b.lo != nil && b.hi != nil && b.lo.Cmp(b.hi) == 0 {
		if _, has := f.eqc[a]; !has && a.op != "lin" {
			f.eqc[a] = tInt(b.lo)
			restruct = true
			f.dirty()
		}
	}
	// a number bounds its first byte
	if a.op == "frombe" && b.lo != nil && b.hi != nil && b.lo.Sign() >= 0 {
		if n, ok := f.lenK(a.args[0]); ok && n > 0 && n <= 64 {
			sh := uint(8 * (n - 1))
			lo, hi := new(big.Int).Rsh(b.lo, sh), new(big.Int).Rsh(b.hi, sh)
			if x := f.At(a.args[0], tI(0)); x.op == "at" && (lo.Sign() > 0 || hi.Cmp(bi(255)) < 0) {
				if hi.Cmp(bi(255)) > 0 {
					hi = nil
				}
				r, ok := f.tighten(x, lo, hi)
				if !ok {
					return false, false
				}
				restruct = restruct || r
			}
		}
	}
	// the length of a numeral bounds the number
	if a.op == "len" {
		x := a.args[0]
		switch x.op {
		case "fmtint", "bytes":
			base := int64(256)
			if x.op == "fmtint" {
				base = x.n.Int64()
			}
			k := x.args[0]
			kb := f.bounds(k)
			if kb.lo != nil && kb.lo.Sign() >= 0 {
				var nlo, nhi *big.Int
				if b.lo != nil && b.lo.IsInt64() && b.lo.Int64() > 1 || (x.op == "bytes" && b.lo.Sign() > 0) {
					nlo = pow(base, b.lo.Int64()-1)
				}
				if b.hi != nil && b.hi.IsInt64() && b.hi.Int64() < 5000 {
					nhi = new(big.Int).Sub(pow(base, b.hi.Int64()), big1)
				}
				r, ok := f.tightenT(k, nlo, nhi)
				if !ok {
					return false, false
				}
				restruct = restruct || r
			}
		}
	}
	if a.op == "bitlen" {
		k := a.args[0]
		kb := f.bounds(k)
		if kb.lo != nil && kb.lo.Sign() >= 0 {
			var nlo, nhi *big.Int
			if b.lo != nil && b.lo.Sign() > 0 && b.lo.Int64() < 5000 {
				nlo = pow(2, b.lo.Int64()-1)
			}
			if b.hi != nil && b.hi.IsInt64() && b.hi.Int64() < 5000 {
				nhi = new(big.Int).Sub(pow(2, b.hi.Int64()), big1)
			}
			r, ok := f.tightenT(k, nlo, nhi)
			if !ok {
				return false, false
			}
			restruct = restruct || r
		}
	}
	if a.op == "max0" && b.lo != nil && b.lo.Sign() > 0 {
		r, ok := f.addGe(linOf(f.Sub(a.args[0], tInt(b.lo))))
		return restruct || r, ok
	}
	return restruct, true
}

func (f *Facts) tightenT(t *Term, lo, hi *big.Int) (restruct, ok bool) {
	if t.op == "int" {
		if lo != nil && t.n.Cmp(lo) < 0 || hi != nil && t.n.Cmp(hi) > 0 {
			return false, false
		}
		return false, true
	}
	if t.op == "lin" {
		if lo != nil {
			l := linOf(t)
			l.k = new(big.Int).Sub(l.k, lo)
			r, ok := f.addGe(l)
			if !ok {
				return false, false
			}
			restruct = r
		}
		if hi != nil {
			l := newLin()
			l.addT(t, bi(-1))
			l.k = new(big.Int).Add(l.k, hi)
			r, ok := f.addGe(l)
			if !ok {
				return false, false
			}
			restruct = restruct || r
		}
		return restruct, true
	}
	return f.tighten(t, lo, hi)
}

// addGe records l >= 0.
func (f *Facts) addGe(l *lin) (restruct, ok bool) {
	if len(l.m) == 0 {
		return false, l.k.Sign() >= 0
	}
	if b := f.linBounds(l); b.hi != nil && b.hi.Sign() < 0 {
		return false, false
	} else if b.hi != nil && b.hi.Sign() == 0 && len(l.m) > 1 && !f.inEq {
		// l >= 0 and l <= 0
		f.inEq = true
		r, ok := f.addEq(f.Lin(l))
		f.inEq = false
		return r, ok
	}
	if len(l.m) > 1 {
		f.lins = append(f.lins, l)
		f.dirty()
		if len(l.m) > 8 {
			return false, true
		}
	}
	// propagate to each atom
	for _, a := range l.atoms() {
		c := l.m[a]
		rest := newLin()
		rest.k.Set(l.k)
		for x, d := range l.m {
			if x != a {
				rest.m[x] = d
			}
		}
		rb := f.linBounds(rest)
		if rb.hi == nil {
			continue
		}
		// c*a >= -rest >= -rb.hi
		n := new(big.Int).Neg(rb.hi)
		var r bool
		if c.Sign() > 0 {
			r, ok = f.tighten(a, ceilDiv(n, c), nil)
		} else {
			// a <= rb.hi / -c
			r, ok = f.tighten(a, nil, floorDiv(rb.hi, new(big.Int).Neg(c)))
		}
		if !ok {
			return false, false
		}
		restruct = restruct || r
	}
	return restruct, true
}

// addEq records t == 0.
func (f *Facts) addEq(t *Term) (restruct, ok bool) {
	l := linOf(t)
	if len(l.m) == 0 {
		return false, l.k.Sign() == 0
	}
	f.bools[mk("eq0", SBool, "", nil, nil, t)] = true
	// choose an atom to eliminate
	var best *Term
	score := func(a *Term) int {
		switch a.op {
		case "var":
			if len(a.s) > 0 && a.s[0] == '%' { // loop counters and other internal unknowns first
				return 100
			}
			return 60
		case "len", "llen", "at", "bit":
			return 50
		case "idxof", "sqrt":
			return 40
		}
		return 30
	}
	for _, a := range l.atoms() {
		c := l.m[a]
		if c.CmpAbs(big1) != 0 {
			continue
		}
		inner := false
		for x := range l.m {
			if x != a && x.contains(a) {
				inner = true
			}
		}
		if inner {
			continue
		}
		if best == nil || score(a) > score(best) || score(a) == score(best) && a.id > best.id {
			best = a
		}
	}
	if len(l.m) == 1 && best == nil {
		for a, c := range l.m {
			n := new(big.Int).Neg(l.k)
			if new(big.Int).Mod(n, c).Sign() != 0 {
				return false, false
			}
			n.Quo(n, c)
			r, ok := f.tightenT(a, n, n)
			return r, ok
		}
	}
	// both inequalities
	if r, ok := f.addGeQuiet(l); !ok {
		return false, false
	} else {
		restruct = r
	}
	if best != nil {
		c := l.m[best]
		rest := newLin()
		rest.k.Neg(l.k)
		for x, d := range l.m {
			if x != best {
				rest.m[x] = new(big.Int).Neg(d)
			}
		}
		if c.Sign() < 0 {
			rest.k.Neg(rest.k)
			for x, d := range rest.m {
				rest.m[x] = new(big.Int).Neg(d)
			}
		}
		v := rest.term()
		b := f.bounds(best)
		f.eqc[best] = v
		f.dirty()
		// keep what was known about the eliminated atom
		if _, ok := f.tightenT(v, b.lo, b.hi); !ok {
			return false, false
		}
		return true, true
	}
	return restruct, true
}

// addGeQuiet propagates both directions of an equation.
func (f *Facts) addGeQuiet(l *lin) (bool, bool) {
	r1, ok := f.addGe(l)
	if !ok {
		return false, false
	}
	m := newLin()
	m.k.Neg(l.k)
	for a, c := range l.m {
		m.m[a] = new(big.Int).Neg(c)
	}
	r2, ok := f.addGe(m)
	return r1 || r2, ok
}

// saturate re-derives everything once; nil means the facts are contradictory.
func (f *Facts) saturate() *Facts {
	g := f.rebuild()
	if g == nil {
		return nil
	}
	g.parent, g.lit, g.depth = f.parent, f.lit, f.depth
	g.dirty()
	// case split on pending disjunctions: all must not be contradictory
	for _, o := range g.ors {
		if len(g.split(o)) == 0 {
			return nil
		}
	}
	return g
}
