package main

// Canonicalising constructors of integers, propositions and points.

import (
	"math/big"
	"sort"
	"strings"
)

// sub applies the rewrite rules at the root.
func (f *Facts) sub(t *Term) *Term {
	for i := 0; i < 20; i++ {
		u, ok := f.eqc[t]
		if !ok {
			return t
		}
		t = u
	}
	return t
}

// renorm rebuilds t under what is known now.
func (f *Facts) renorm(t *Term) *Term {
	switch t.op {
	case "int", "str", "bool":
		return t
	}
	if r, ok := f.memo[t]; ok {
		return r
	}
	if f.memo == nil {
		f.memo = map[*Term]*Term{}
	}
	f.memo[t] = t // cut cycles
	r := f.renorm1(t)
	if r != t && r.op != "int" && r.op != "str" && r.op != "bool" {
		if _, ok := f.memo[r]; !ok {
			r2 := f.renorm(r)
			r = r2
		}
	}
	if f.memo == nil {
		f.memo = map[*Term]*Term{}
	}
	f.memo[t] = r
	return r
}

func (f *Facts) renorm1(t *Term) *Term {
	if u, ok := f.eqc[t]; ok {
		return f.renorm(u)
	}
	if len(t.args) == 0 {
		return t
	}
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = f.renorm(a)
	}
	return f.sub(f.rebuildOp(t, args))
}

// rebuildOp applies t's operator to other arguments.
func (f *Facts) rebuildOp(t *Term, a []*Term) *Term {
	switch t.op {
	case "lin":
		l := newLin()
		l.k.Set(t.n)
		for i, x := range a {
			l.addT(x, t.cs[i])
		}
		return f.Lin(l)
	case "mul":
		r := tI(1)
		for _, x := range a {
			r = f.Mul(r, x)
		}
		return r
	case "mod":
		return f.Mod(a[0], a[1])
	case "div":
		return f.Div(a[0], a[1])
	case "len":
		return f.Len(a[0])
	case "llen":
		return f.LLen(a[0])
	case "at":
		return f.At(a[0], a[1])
	case "bit":
		i, _ := a[1].i64()
		return f.BitAt(a[0], i)
	case "bitlen":
		return f.BitLen(a[0])
	case "sgn":
		return f.Sgn(a[0])
	case "cmps":
		return f.CmpS(a[0], a[1])
	case "b2i":
		return f.B2I(a[0])
	case "max0":
		return f.Max0(a[0])
	case "frombe":
		return f.FromBe(a[0])
	case "parse":
		return f.Parse(t.n.Int64(), a[0])
	case "idxof":
		return f.IdxOf(a[0], a[1])
	case "px":
		return f.Px(a[0])
	case "py":
		return f.Py(a[0])
	case "sqrt":
		return f.Sqrt(a[0])
	case "ge0":
		return f.Ge0(a[0])
	case "eq0":
		return f.Eq0(a[0])
	case "eqs":
		return f.Eqs(a[0], a[1])
	case "allcls":
		return f.AllCls(a[0], t.s)
	case "parseok":
		return f.ParseOk(t.n.Int64(), a[0])
	case "not":
		return f.Not(a[0])
	case "and":
		return f.And(a...)
	case "or":
		return f.Or(a...)
	case "in":
		return f.In(a[0], a[1])
	case "oncurve":
		return f.OnCurve(a[0], a[1])
	case "qr":
		return f.QR(a[0])
	case "b58ok":
		return f.B58Ok(a[0])
	case "cat":
		return f.Cat(a...)
	case "unit":
		return f.Unit(a[0])
	case "slice":
		return f.Slice(a[0], a[1], a[2])
	case "rep":
		return f.Rep(t.s, a[0])
	case "hexenc":
		return f.HexEnc(a[0])
	case "unhex":
		return f.UnHex(a[0])
	case "b58enc":
		return f.B58Enc(a[0])
	case "b58dec":
		return f.B58Dec(a[0])
	case "be":
		return f.Be(a[0], t.n.Int64())
	case "bytes":
		return f.Bytes(a[0])
	case "fmtint":
		return f.FmtInt(a[0], t.n.Int64())
	case "digits":
		w, _ := a[1].i64()
		return f.Digits(a[0], t.n.Int64(), w)
	case "lower":
		return f.Lower(a[0])
	case "upper":
		return f.Upper(a[0])
	case "elem":
		return f.Elem(a[0], a[1])
	case "split":
		return f.Split(a[0], a[1])
	case "ecpt":
		return f.EcPt(a[0], a[1])
	case "ecl":
		p := f.EcInf()
		for i := 0; i+1 < len(a); i += 2 {
			p = f.EcAdd(p, f.EcMul(a[i], a[i+1]))
		}
		return p
	}
	if t.op == "opq" && t.s == "table" {
		if k, ok := a[len(a)-1].i64(); ok && k >= 0 && k < int64(len(a)-1) {
			return a[k]
		}
	}
	r := mk(t.op, t.sort, t.s, t.n, t.cs, a...)
	if r.sort == SBool {
		if v, ok := f.bools[r]; ok {
			return tBool(v)
		}
	}
	return r
}

// ---- integers ----

// Lin canonicalises a linear form.
func (f *Facts) Lin(l *lin) *Term {
	if len(f.eqc) > 0 {
		for again, n := true, 0; again && n < 10; n++ {
			again = false
			for _, a := range l.atoms() {
				if u, ok := f.eqc[a]; ok {
					c := l.m[a]
					delete(l.m, a)
					l.addT(u, c)
					again = true
				}
			}
		}
	}
	f.foldBits(l)
	f.foldBytes(l)
	f.foldRem(l)
	return l.term()
}

// foldRem replaces a - m*div(a, m) by the remainder.
func (f *Facts) foldRem(l *lin) {
	if len(l.m) < 2 {
		return
	}
	for _, d := range l.atoms() {
		c := l.m[d]
		if d.op != "div" || !d.args[1].isInt() || d.args[1].n.BitLen() < 64 {
			continue
		}
		m := d.args[1].n
		q, r := new(big.Int).QuoRem(new(big.Int).Neg(c), m, new(big.Int))
		if r.Sign() != 0 {
			continue
		}
		in := linOf(d.args[0])
		ok := len(in.m) > 0
		for x, e := range in.m {
			g := l.m[x]
			ok = ok && x != d && g != nil && g.Cmp(new(big.Int).Mul(q, e)) == 0
		}
		if !ok {
			continue
		}
		t := f.Mod(d.args[0], d.args[1])
		if t.contains(d) {
			continue
		}
		delete(l.m, d)
		for x := range in.m {
			delete(l.m, x)
		}
		l.k = new(big.Int).Sub(l.k, new(big.Int).Mul(q, in.k))
		l.addT(t, q)
		return
	}
}

// foldBytes replaces a run of more than 8 consecutive bytes of a text by the number they
// make.
func (f *Facts) foldBytes(l *lin) {
	type part struct {
		a, b int64
		t    *Term
	}
	// pieces by text
	by := map[*Term][]part{}
	n := 0
	for x := range l.m {
		switch x.op {
		case "at":
			if i, ok := x.args[1].i64(); ok {
				by[x.args[0]] = append(by[x.args[0]], part{i, i + 1, x})
				n++
			}
		case "frombe":
			base, lo, hi := asSlice(x.args[0])
			if base == nil {
				base, lo, hi = x.args[0], tI(0), f.Len(x.args[0])
			}
			i, ok1 := lo.i64()
			j, ok2 := hi.i64()
			if ok1 && ok2 && j-i > 8 {
				by[base] = append(by[base], part{i, j, x})
				n += 8
			}
		}
	}
	if n < 9 {
		return
	}
	for base, ps := range by {
		if len(ps) < 2 {
			continue
		}
		sort.Slice(ps, func(i, j int) bool { return ps[i].a < ps[j].a })
		for i := 0; i < len(ps); {
			j := i
			for j+1 < len(ps) && ps[j+1].a == ps[j].b && l.m[ps[j].t].Cmp(new(big.Int).Mul(l.m[ps[j+1].t], pow(256, ps[j+1].b-ps[j+1].a))) == 0 {
				j++
			}
			if j > i && ps[j].b-ps[i].a > 8 {
				c := l.m[ps[j].t]
				for k := i; k <= j; k++ {
					delete(l.m, ps[k].t)
				}
				l.addT(f.FromBe(f.Slice(base, tI(ps[i].a), tI(ps[j].b))), c)
			}
			i = j + 1
		}
	}
}

// foldBits replaces the full set of bits of an atom by the atom.
func (f *Facts) foldBits(l *lin) {
	cnt := map[*Term]int{}
	for a := range l.m {
		if a.op == "bit" {
			cnt[a.args[0]]++
		}
	}
	for x, n := range cnt {
		if n < 2 {
			continue
		}
		b := f.bounds(x)
		if b.lo == nil || b.lo.Sign() < 0 || b.hi == nil {
			continue
		}
		w := b.hi.BitLen()
		if n < w && w > 16 || w == 0 {
			continue
		}
		// bits that are known to be set are part of the constant
		set := new(big.Int)
		var c0 *big.Int
		ok := true
		for j := 0; j < w && ok; j++ {
			bit := mk("bit", SInt, "", nil, nil, x, tI(int64(j)))
			c := l.m[bit]
			if c == nil {
				k := f.sub(bit)
				if ok = k.isInt(); ok && k.n.Sign() != 0 {
					set.SetBit(set, j, 1)
				}
				continue
			}
			if c0 == nil {
				if ok = c.TrailingZeroBits() >= uint(j); ok {
					c0 = new(big.Int).Quo(c, new(big.Int).Lsh(big1, uint(j)))
				}
			}
			ok = ok && c.Cmp(new(big.Int).Lsh(c0, uint(j))) == 0
		}
		if !ok {
			continue
		}
		set.Mul(set, c0)
		if set.Sign() != 0 {
			k := new(big.Int).Sub(l.k, set)
			if k.Sign()*c0.Sign() < 0 {
				continue
			}
			l.k = k
		}
		for j := 0; j < w; j++ {
			delete(l.m, mk("bit", SInt, "", nil, nil, x, tI(int64(j))))
		}
		l.addT(x, c0)
	}
}

func (f *Facts) Add(a, b *Term) *Term {
	l := linOf(a)
	l.addT(b, big1)
	return f.Lin(l)
}
func (f *Facts) Sub(a, b *Term) *Term {
	l := linOf(a)
	l.addT(b, bi(-1))
	return f.Lin(l)
}
func (f *Facts) AddK(a *Term, k int64) *Term { return f.Add(a, tI(k)) }
func (f *Facts) Neg(a *Term) *Term           { return f.Sub(tI(0), a) }

func (f *Facts) Scale(a *Term, c *big.Int) *Term {
	l := newLin()
	l.addT(a, c)
	return f.Lin(l)
}

func (f *Facts) Mul(a, b *Term) *Term {
	a, b = f.sub(a), f.sub(b)
	if a.isInt() {
		return f.Scale(b, a.n)
	}
	if b.isInt() {
		return f.Scale(a, b.n)
	}
	la, lb := linOf(a), linOf(b)
	if len(la.m)*len(lb.m) > 64 {
		return mulAtoms(a, b)
	}
	r := newLin()
	r.k.Mul(la.k, lb.k)
	for x, c := range la.m {
		r.addT(x, new(big.Int).Mul(c, lb.k))
		for y, d := range lb.m {
			r.addT(mulAtoms(x, y), new(big.Int).Mul(c, d))
		}
	}
	for y, d := range lb.m {
		r.addT(y, new(big.Int).Mul(d, la.k))
	}
	return f.Lin(r)
}

func mulAtoms(a, b *Term) *Term {
	var fs []*Term
	for _, x := range []*Term{a, b} {
		if x.op == "mul" {
			fs = append(fs, x.args...)
		} else {
			fs = append(fs, x)
		}
	}
	// a bit squared is itself
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	var out []*Term
	for i, x := range fs {
		if i > 0 && x == fs[i-1] && (x.op == "bit" || x.op == "b2i") {
			continue
		}
		out = append(out, x)
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("mul", SInt, "", nil, nil, out...)
}

func isPow2(n *big.Int) (uint, bool) {
	if n.Sign() <= 0 {
		return 0, false
	}
	z := n.TrailingZeroBits()
	return z, n.BitLen() == int(z)+1
}

// Mod is the Euclidean remainder.
func (f *Facts) Mod(a, m *Term) *Term {
	a, m = f.sub(a), f.sub(m)
	if !m.isInt() || m.n.Sign() <= 0 {
		return f.sub(mk("mod", SInt, "", nil, nil, a, m))
	}
	if m.n.Cmp(big1) == 0 {
		return tI(0)
	}
	if a.isInt() {
		return tInt(new(big.Int).Mod(a.n, m.n))
	}
	if r := f.modRange(a, m.n); r != nil {
		return r
	}
	if k, ok := isPow2(m.n); ok {
		if r := f.bitsRange(a, 0, int64(k)); r != nil {
			return r
		}
	}
	// reduce coefficients and drop inner reductions
	l := linOf(a)
	r := newLin()
	r.k.Set(l.k)
	for x, c := range l.m {
		f.modAtom(r, x, c, m.n)
	}
	for x, c := range r.m {
		c = new(big.Int).Mod(c, m.n)
		// balanced
		if new(big.Int).Lsh(c, 1).Cmp(m.n) > 0 {
			c.Sub(c, m.n)
		}
		if c.Sign() == 0 {
			delete(r.m, x)
		} else {
			r.m[x] = c
		}
	}
	r.k.Mod(r.k, m.n)
	t := f.Lin(r)
	if t.isInt() {
		return tInt(new(big.Int).Mod(t.n, m.n))
	}
	if q := f.modRange(t, m.n); q != nil {
		return q
	}
	return f.sub(mk("mod", SInt, "", nil, nil, t, m))
}

// modAtom adds c*x to r, where only the value modulo m matters.
func (f *Facts) modAtom(r *lin, x *Term, c, m *big.Int) {
	if x.op == "mod" && x.args[1].isInt() && new(big.Int).Mod(x.args[1].n, m).Sign() == 0 {
		for y, d := range linOf(x.args[0]).m {
			f.modAtom(r, y, new(big.Int).Mul(c, d), m)
		}
		r.k.Add(r.k, new(big.Int).Mul(c, linOf(x.args[0]).k))
		return
	}
	if x.op == "mul" {
		has := false
		for _, y := range x.args {
			if y.op == "mod" {
				has = true
			}
		}
		if has {
			p := tI(1)
			for _, y := range x.args {
				if y.op == "mod" && y.args[1].isInt() && new(big.Int).Mod(y.args[1].n, m).Sign() == 0 {
					y = y.args[0]
				}
				p = f.Mul(p, y)
			}
			if !p.contains(x) {
				r.addT(p, c)
				return
			}
		}
	}
	r.addT(x, c)
}

// modRange reduces a when its interval lies within one multiple of m.
func (f *Facts) modRange(a *Term, m *big.Int) *Term {
	b := f.bounds(a)
	if b.lo == nil || b.hi == nil {
		return nil
	}
	q1, q2 := floorDiv(b.lo, m), floorDiv(b.hi, m)
	if q1.Cmp(q2) != 0 {
		return nil
	}
	return f.Sub(a, tInt(new(big.Int).Mul(q1, m)))
}

// Div is division rounding down (for a positive divisor).
func (f *Facts) Div(a, m *Term) *Term {
	a, m = f.sub(a), f.sub(m)
	if !m.isInt() || m.n.Sign() <= 0 {
		return f.sub(mk("div", SInt, "", nil, nil, a, m))
	}
	if m.n.Cmp(big1) == 0 {
		return a
	}
	if a.isInt() {
		return tInt(floorDiv(a.n, m.n))
	}
	b := f.bounds(a)
	if b.lo != nil && b.hi != nil {
		q1, q2 := floorDiv(b.lo, m.n), floorDiv(b.hi, m.n)
		if q1.Cmp(q2) == 0 {
			return tInt(q1)
		}
	}
	// a = m*q + r with 0 <= r < m
	l := linOf(a)
	q, r := newLin(), newLin()
	for x, c := range l.m {
		if new(big.Int).Mod(c, m.n).Sign() == 0 {
			q.m[x] = new(big.Int).Quo(c, m.n)
		} else {
			r.m[x] = c
		}
	}
	kq := floorDiv(l.k, m.n)
	for _, kk := range []*big.Int{kq, new(big.Int)} {
		r.k = new(big.Int).Sub(l.k, new(big.Int).Mul(kk, m.n))
		rb := f.linBounds(r)
		if rb.lo != nil && rb.lo.Sign() >= 0 && rb.hi != nil && rb.hi.Cmp(m.n) < 0 {
			q.k = kk
			return f.Lin(q)
		}
	}
	if len(q.m) > 0 && len(r.m) > 0 {
		r.k = new(big.Int).Sub(l.k, new(big.Int).Mul(kq, m.n))
		q.k = kq
		if rt := f.Lin(r); rt != a {
			return f.Add(f.Lin(q), f.Div(rt, m))
		}
	}
	if k, ok := isPow2(m.n); ok && b.lo != nil && b.lo.Sign() >= 0 && b.hi != nil {
		if a.op == "frombe" && k%8 == 0 {
			if n, ok := f.Len(a.args[0]).i64(); ok && n >= int64(k/8) {
				return f.FromBe(f.Slice(a.args[0], tI(0), tI(n-int64(k/8))))
			}
		}
		if r := f.bitsRange(a, int64(k), int64(b.hi.BitLen())); r != nil {
			return r
		}
	}
	if a.op == "div" && a.args[1].isInt() {
		return f.Div(a.args[0], tInt(new(big.Int).Mul(a.args[1].n, m.n)))
	}
	return f.sub(mk("div", SInt, "", nil, nil, a, m))
}

// bitsRange is the number made of bits lo..hi-1 of x, or nil if x does not fall apart
// into bits.
func (f *Facts) bitsRange(x *Term, lo, hi int64) *Term {
	if hi-lo > 700 {
		return nil
	}
	if hi-lo > 16 && !f.bitty(x) || hi-lo > 1 && lengthy(x) {
		return nil
	}
	r := newLin()
	for j := lo; j < hi; j++ {
		b := f.BitAt(x, j)
		r.addT(b, new(big.Int).Lsh(big1, uint(j-lo)))
	}
	return f.Lin(r)
}

// lengthy reports whether x is made of lengths, which are reasoned about as numbers.
func lengthy(x *Term) bool {
	l := linOf(x)
	for a := range l.m {
		if a.op != "len" && a.op != "llen" {
			return false
		}
	}
	return len(l.m) > 0
}

// bitty reports whether the bits of x have names of their own.
func (f *Facts) bitty(x *Term) bool {
	switch x.op {
	case "int":
		return true
	case "frombe":
		_, ok := f.Len(x.args[0]).i64()
		return ok
	case "lin":
		return f.occOf(x) != nil
	case "bit":
		return true
	}
	b := f.bounds(x)
	return b.lo != nil && b.lo.Sign() >= 0 && b.hi != nil && b.hi.BitLen() <= 64
}

// occ: which atom owns which bits of a linear form.
type occ struct {
	from, to int64
	a        *Term
	neg      bool // 1 minus an atom with a negative coefficient
}

var noOcc = []occ{}

func (f *Facts) occOf(x *Term) []occ {
	if o, ok := f.occ[x]; ok {
		if len(o) == 0 {
			return nil
		}
		return o
	}
	if f.occ == nil {
		f.occ = map[*Term][]occ{}
	}
	f.occ[x] = noOcc
	l := linOf(x)
	var o []occ
	for a, c := range l.m {
		e, ok := isPow2(c)
		b := f.bounds(a)
		if !ok {
			// -2^e*a is 2^e*(1-a) - 2^e
			if e, ok = isPow2(new(big.Int).Neg(c)); ok && len(l.m) > 1 && is01(b) {
				l.k.Sub(l.k, new(big.Int).Neg(c))
				o = append(o, occ{int64(e), int64(e) + 1, f.Sub(tI(1), a), true})
				continue
			}
			return nil
		}
		if b.lo == nil || b.lo.Sign() < 0 || b.hi == nil {
			return nil
		}
		o = append(o, occ{int64(e), int64(e) + int64(b.hi.BitLen()), a, false})
	}
	if l.k.Sign() < 0 {
		return nil
	}
	sort.Slice(o, func(i, j int) bool { return o[i].from < o[j].from })
	for i := range o {
		if i > 0 && o[i].from < o[i-1].to {
			return nil
		}
		for j := o[i].from; j < o[i].to; j++ {
			if l.k.Bit(int(j)) != 0 {
				return nil
			}
		}
	}
	f.occ[x] = o
	return o
}

func is01(b Iv) bool {
	return b.lo != nil && b.lo.Sign() >= 0 && b.hi != nil && b.hi.Cmp(big1) <= 0
}

// BitAt is bit i of x.
func (f *Facts) BitAt(x *Term, i int64) *Term {
	x = f.sub(x)
	if i < 0 {
		return opq(SInt, "negbit", x, tI(i))
	}
	b := f.bounds(x)
	if b.lo != nil && b.lo.Sign() >= 0 && b.hi != nil {
		if int64(b.hi.BitLen()) <= i {
			return tI(0)
		}
		if i == 0 && is01(b) {
			return x
		}
	}
	switch x.op {
	case "int":
		if x.n.Sign() >= 0 {
			return tI(int64(x.n.Bit(int(i))))
		}
	case "lin":
		if o := f.occOf(x); o != nil {
			for _, e := range o {
				if i >= e.from && i < e.to {
					return f.BitAt(e.a, i-e.from)
				}
			}
			k := new(big.Int).Set(x.n)
			for _, e := range o {
				if e.neg {
					k.Sub(k, new(big.Int).Lsh(big1, uint(e.from)))
				}
			}
			return tI(int64(k.Bit(int(i))))
		}
		if i == 0 {
			// parity
			r := newLin()
			r.k.Mod(x.n, big2)
			for j, a := range x.args {
				if x.cs[j].Bit(0) != 0 {
					r.m[a] = big1
				}
			}
			if len(r.m) == 0 {
				return tInt(r.k)
			}
			if len(r.m) == 1 {
				for a := range r.m {
					p := f.BitAt(a, 0)
					if r.k.Sign() != 0 {
						return f.Sub(tI(1), p)
					}
					return p
				}
			}
			if len(r.m) < len(x.args) || x.n.Cmp(r.k) != 0 {
				if y := f.Lin(r); y != x {
					return f.BitAt(y, 0)
				}
			}
		}
	case "bit", "b2i":
		if i == 0 {
			return x
		}
		return tI(0)
	case "mod":
		if x.args[1].isInt() {
			if k, ok := isPow2(x.args[1].n); ok {
				if i >= int64(k) {
					return tI(0)
				}
				return f.BitAt(x.args[0], i)
			}
		}
	case "div":
		if x.args[1].isInt() {
			if k, ok := isPow2(x.args[1].n); ok {
				return f.BitAt(x.args[0], i+int64(k))
			}
		}
	case "frombe":
		if n, ok := f.Len(x.args[0]).i64(); ok {
			j := n - 1 - i/8
			if j < 0 {
				return tI(0)
			}
			return f.BitAt(f.At(x.args[0], tI(j)), i%8)
		}
	case "at":
		if s := x.args[0]; s.op == "be" {
			if j, ok := x.args[1].i64(); ok && i < 8 {
				return f.BitAt(s.args[0], (s.n.Int64()-1-j)*8+i)
			}
		}
	case "py", "px":
		// fallthrough to atom
	}
	return f.sub(mk("bit", SInt, "", nil, nil, x, tI(i)))
}

// BitLen is the number of bits of |x|.
func (f *Facts) BitLen(x *Term) *Term {
	x = f.sub(x)
	if x.isInt() {
		return tI(int64(x.n.BitLen()))
	}
	b := f.bounds(x)
	if b.lo != nil && b.lo.Sign() >= 0 && b.hi != nil && b.lo.BitLen() == b.hi.BitLen() {
		return tI(int64(b.lo.BitLen()))
	}
	return f.sub(mk("bitlen", SInt, "", nil, nil, x))
}

// bitOp combines x and y bit by bit; nil if that is not possible.
func (f *Facts) bitOp(op string, x, y *Term) *Term {
	if x.isInt() && y.isInt() && x.n.Sign() >= 0 && y.n.Sign() >= 0 {
		switch op {
		case "and":
			return tInt(new(big.Int).And(x.n, y.n))
		case "or":
			return tInt(new(big.Int).Or(x.n, y.n))
		case "xor":
			return tInt(new(big.Int).Xor(x.n, y.n))
		case "andnot":
			return tInt(new(big.Int).AndNot(x.n, y.n))
		}
	}
	bx, by := f.bounds(x), f.bounds(y)
	if bx.lo == nil || bx.lo.Sign() < 0 || by.lo == nil || by.lo.Sign() < 0 {
		if op == "and" && y.isInt() && y.n.Sign() >= 0 && bx.lo != nil {
			// two's complement low bits
			if k, ok := isPow2(new(big.Int).Add(y.n, big1)); ok {
				return f.Mod(x, tInt(new(big.Int).Lsh(big1, k)))
			}
		}
		return nil
	}
	w := int64(-1)
	if bx.hi != nil {
		w = int64(bx.hi.BitLen())
	}
	if by.hi != nil {
		wy := int64(by.hi.BitLen())
		if op == "and" && (w < 0 || wy < w) || op != "and" && op != "andnot" && wy > w && w >= 0 {
			w = wy
		}
	} else if op == "or" || op == "xor" {
		return nil
	}
	if w < 0 || w > 700 {
		return nil
	}
	r := newLin()
	for j := int64(0); j < w; j++ {
		a, b := f.BitAt(x, j), f.BitAt(y, j)
		var c *Term
		switch op {
		case "and":
			c = f.Mul(a, b)
		case "or":
			switch {
			case a.isK(0):
				c = b
			case b.isK(0):
				c = a
			case a.isInt() || b.isInt():
				c = tI(1)
			default:
				c = f.B2I(f.Or(f.Not(f.Eq0(a)), f.Not(f.Eq0(b))))
			}
		case "xor":
			if a.isInt() || b.isInt() {
				c = f.Sub(f.Add(a, b), f.Scale(f.Mul(a, b), big2))
			} else {
				c = f.B2I(f.Not(f.Eq0(f.Sub(a, b))))
			}
		case "andnot":
			c = f.Mul(a, f.Sub(tI(1), b))
		}
		r.addT(c, new(big.Int).Lsh(big1, uint(j)))
	}
	return f.Lin(r)
}

// Sgn is the sign of x.
func (f *Facts) Sgn(x *Term) *Term {
	b := f.bounds(x)
	if b.lo != nil && b.lo.Sign() > 0 {
		return tI(1)
	}
	if b.hi != nil && b.hi.Sign() < 0 {
		return tI(-1)
	}
	if x.isInt() {
		return tI(0)
	}
	return f.sub(mk("sgn", SInt, "", nil, nil, x))
}

// CmpS is the lexicographic comparison of byte sequences.
func (f *Facts) CmpS(a, b *Term) *Term {
	if a == b {
		return tI(0)
	}
	if a.isStr() && b.isStr() {
		switch {
		case a.s < b.s:
			return tI(-1)
		case a.s > b.s:
			return tI(1)
		}
		return tI(0)
	}
	return mk("cmps", SInt, "", nil, nil, a, b)
}

// Max0 is max(0, x).
func (f *Facts) Max0(x *Term) *Term {
	b := f.bounds(x)
	if b.hi != nil && b.hi.Sign() <= 0 {
		return tI(0)
	}
	if b.lo != nil && b.lo.Sign() >= 0 || f.nonneg(linOf(x)) {
		return x
	}
	return f.sub(mk("max0", SInt, "", nil, nil, x))
}

// B2I is 1 if c holds, else 0.
func (f *Facts) B2I(c *Term) *Term {
	if c.op == "bool" {
		if c.b {
			return tI(1)
		}
		return tI(0)
	}
	if c.op == "not" {
		return f.Sub(tI(1), f.B2I(c.args[0]))
	}
	if c.op == "eq0" {
		x := c.args[0]
		if b := f.bounds(x); b.lo != nil && b.lo.Sign() == 0 && b.hi != nil && b.hi.Cmp(big1) == 0 {
			return f.Sub(tI(1), x)
		}
	}
	return mk("b2i", SInt, "", nil, nil, c)
}

// IdxOf is the position of w in list.
func (f *Facts) IdxOf(list, w *Term) *Term {
	if w.op == "elem" && w.args[0] == list && f.bools[mk("uniq", SBool, "", nil, nil, list)] {
		return w.args[1]
	}
	return f.sub(mk("idxof", SInt, "", nil, nil, list, w))
}

// Sqrt is the square root that the curve library returns for x.
func (f *Facts) Sqrt(x *Term) *Term { return f.sub(mk("sqrt", SInt, "", nil, nil, x)) }

// ---- propositions ----

func (f *Facts) atomB(t *Term) *Term {
	if v, ok := f.bools[t]; ok {
		return tBool(v)
	}
	return t
}

// small decides a linear form over one three-valued or two-valued atom.
func (f *Facts) small(x *Term, test func(*big.Int) bool) *Term {
	l := linOf(x)
	if len(l.m) != 1 {
		return nil
	}
	for a, c := range l.m {
		ev := func(v int64) bool { return test(new(big.Int).Add(l.k, new(big.Int).Mul(c, bi(v)))) }
		switch a.op {
		case "sgn", "cmps":
			m := 0
			for i, v := range []int64{-1, 0, 1} {
				if ev(v) {
					m |= 1 << uint(i)
				}
			}
			if a.op == "cmps" {
				switch m {
				case 0:
					return tFalse
				case 7:
					return tTrue
				case 2:
					return f.Eqs(a.args[0], a.args[1])
				case 5:
					return f.Not(f.Eqs(a.args[0], a.args[1]))
				}
				return nil
			}
			y := a.args[0]
			switch m {
			case 0:
				return tFalse
			case 1:
				return f.Ge0(f.Sub(tI(-1), y))
			case 2:
				return f.Eq0(y)
			case 3:
				return f.Ge0(f.Neg(y))
			case 4:
				return f.Ge0(f.AddK(y, -1))
			case 5:
				return f.Not(f.Eq0(y))
			case 6:
				return f.Ge0(y)
			}
			return tTrue
		case "b2i":
			t0, t1 := ev(0), ev(1)
			switch {
			case t0 && t1:
				return tTrue
			case t0:
				return f.Not(a.args[0])
			case t1:
				return a.args[0]
			}
			return tFalse
		case "at":
			return f.hexDigit(a, ev)
		}
	}
	return nil
}

// hexDigit is the condition that a, a digit of the hex text of a number, satisfies test,
// as a condition on the bits of the number; nil if a is not such a digit.
func (f *Facts) hexDigit(a *Term, test func(int64) bool) *Term {
	if a.op != "at" || a.args[0].op != "hexenc" || a.args[0].args[0].op != "be" {
		return nil
	}
	k, ok := a.args[1].i64()
	be := a.args[0].args[0]
	if !ok || k < 0 || k >= 2*be.n.Int64() {
		return nil
	}
	low := (2*be.n.Int64() - 1 - k) * 4
	in := make([]bool, 16)
	for i := range in {
		in[i] = test(int64("0123456789abcdef"[i]))
	}
	var split func(in []bool, bit int64) *Term
	split = func(in []bool, bit int64) *Term {
		if len(in) == 1 {
			return tBool(in[0])
		}
		var even, odd []bool
		same := true
		for i := 0; i < len(in); i += 2 {
			even, odd = append(even, in[i]), append(odd, in[i+1])
			same = same && in[i] == in[i+1]
		}
		if same {
			return split(even, bit+1)
		}
		z := f.Eq0(f.BitAt(be.args[0], bit))
		return f.Or(f.And(z, split(even, bit+1)), f.And(f.Not(z), split(odd, bit+1)))
	}
	return split(in, low)
}

// Ge0 is x >= 0.
func (f *Facts) Ge0(x *Term) *Term {
	l := linOf(x)
	if len(l.m) == 0 {
		return tBool(l.k.Sign() >= 0)
	}
	if t := f.small(x, func(v *big.Int) bool { return v.Sign() >= 0 }); t != nil {
		return t
	}
	b := f.linBounds(l)
	if b.lo != nil && b.lo.Sign() >= 0 {
		return tTrue
	}
	if b.hi != nil && b.hi.Sign() < 0 {
		return tFalse
	}
	if f.nonneg(l) {
		return tTrue
	}
	n := newLin()
	n.k.Sub(new(big.Int).Neg(l.k), big1)
	for a, c := range l.m {
		n.m[a] = new(big.Int).Neg(c)
	}
	if f.nonneg(n) {
		return tFalse
	}
	// divide by the common factor
	g := new(big.Int)
	for _, c := range l.m {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	if g.Cmp(big1) > 0 {
		for a, c := range l.m {
			l.m[a] = new(big.Int).Quo(c, g)
		}
		l.k = floorDiv(l.k, g)
	}
	// a number in [0,1] is compared as an equation
	if len(l.m) == 1 {
		for a, c := range l.m {
			ab := f.bounds(a)
			if ab.lo != nil && ab.hi != nil && new(big.Int).Sub(ab.hi, ab.lo).Cmp(big1) == 0 {
				if c.Sign() > 0 { // a >= something: a == hi
					return f.Not(f.Eq0(f.Sub(a, tInt(ab.lo))))
				}
				return f.Eq0(f.Sub(a, tInt(ab.lo)))
			}
			// a numeral is as long as it can be when the leading bit is set
			if a.op == "len" && a.args[0].op == "fmtint" && a.args[0].n.Int64() == 2 && c.CmpAbs(big1) == 0 && ab.hi != nil {
				k := a.args[0].args[0]
				if k.op == "lin" && ab.hi.Cmp(bi(1)) > 0 && ab.hi.Cmp(bi(64)) <= 0 && f.occOf(k) != nil {
					bit := f.BitAt(k, ab.hi.Int64()-1)
					if linOf(k).m[bit] == nil {
						bit = nil // part of a byte: kept as a length
					}
					var top *Term
					if bit != nil {
						top = f.Eq0(bit)
					}
					if top == nil {
					} else if c.Sign() > 0 && new(big.Int).Add(ab.hi, l.k).Sign() == 0 {
						return f.Not(top)
					} else if c.Sign() < 0 && new(big.Int).Sub(l.k, ab.hi).Cmp(bi(-1)) == 0 {
						return top
					}
				}
			}
			// a remainder against its least value
			if a.op == "mod" && ab.lo != nil && c.CmpAbs(big1) == 0 {
				if v := new(big.Int).Add(l.k, new(big.Int).Mul(c, ab.lo)); c.Sign() < 0 && v.Sign() == 0 {
					return f.Eq0(f.Sub(a, tInt(ab.lo)))
				} else if c.Sign() > 0 && v.Cmp(bi(-1)) == 0 {
					return f.Not(f.Eq0(f.Sub(a, tInt(ab.lo))))
				}
			}
		}
	}
	return f.atomB(mk("ge0", SBool, "", nil, nil, l.term()))
}

func (f *Facts) Lt(a, b *Term) *Term { return f.Ge0(f.AddK(f.Sub(b, a), -1)) }
func (f *Facts) Le(a, b *Term) *Term { return f.Ge0(f.Sub(b, a)) }
func (f *Facts) EqI(a, b *Term) *Term {
	return f.Eq0(f.Sub(a, b))
}

// Eq0 is x == 0.
func (f *Facts) Eq0(x *Term) *Term {
	l := linOf(x)
	if len(l.m) == 0 {
		return tBool(l.k.Sign() == 0)
	}
	if t := f.small(x, func(v *big.Int) bool { return v.Sign() == 0 }); t != nil {
		return t
	}
	b := f.linBounds(l)
	if b.lo != nil && b.lo.Sign() > 0 || b.hi != nil && b.hi.Sign() < 0 {
		return tFalse
	}
	g := new(big.Int)
	for _, c := range l.m {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	if new(big.Int).Mod(l.k, g).Sign() != 0 {
		return tFalse
	}
	if g.Cmp(big1) > 0 {
		for a, c := range l.m {
			l.m[a] = new(big.Int).Quo(c, g)
		}
		l.k.Quo(l.k, g)
	}
	as := l.atoms()
	if l.m[as[0]].Sign() < 0 {
		for a, c := range l.m {
			l.m[a] = new(big.Int).Neg(c)
		}
		l.k.Neg(l.k)
	}
	if len(as) == 1 {
		a := as[0]
		ab := f.bounds(a)
		// two-valued
		if ab.lo != nil && ab.hi != nil && new(big.Int).Sub(ab.hi, ab.lo).Cmp(big1) == 0 && l.m[a].Cmp(big1) == 0 {
			v := new(big.Int).Neg(l.k)
			if v.Cmp(ab.hi) == 0 {
				return f.Not(f.Eq0(f.Sub(a, tInt(ab.lo))))
			}
		}
		if a.op == "div" && a.args[1].isInt() && a.args[1].n.Sign() > 0 && l.m[a].Cmp(big1) == 0 && lengthy(a.args[0]) {
			m := a.args[1].n
			lo := new(big.Int).Mul(new(big.Int).Neg(l.k), m)
			hi := new(big.Int).Add(lo, new(big.Int).Sub(m, big1))
			return f.And(f.Ge0(f.Sub(a.args[0], tInt(lo))), f.Ge0(f.Sub(tInt(hi), a.args[0])))
		}
		if a.op == "bitlen" && l.k.Sign() == 0 {
			return f.Eq0(a.args[0])
		}
		// the first byte of decoded hex against a constant with decimal digits
		if a.op == "at" && a.args[0].op == "unhex" && l.m[a].Cmp(big1) == 0 {
			v := new(big.Int).Neg(l.k).Int64()
			s := a.args[0].args[0]
			if v >= 0 && v>>4 <= 9 && v&15 <= 9 {
				i := f.Scale(a.args[1], big2)
				return f.And(f.Eq0(f.AddK(f.At(s, i), -48-v>>4)), f.Eq0(f.AddK(f.At(s, f.AddK(i, 1)), -48-v&15)))
			}
		}
		// y*y - x*x*x - 7 = 0 modulo p
		if a.op == "mod" && l.k.Sign() == 0 && a.args[1].isInt() && a.args[1].n.Cmp(curveP) == 0 && a.args[0].op == "lin" {
			if x, y := curveEq(linOf(a.args[0])); x != nil {
				if y.op == "sqrt" && y.args[0] == x {
					return f.QR(x)
				}
				return f.OnCurve(x, y)
			}
		}
		// x mod m == c where x can only be one of two values
		if a.op == "mod" && a.args[1].isInt() && a.args[1].n.BitLen() > 64 && l.m[a].Cmp(big1) == 0 {
			xb := f.bounds(a.args[0])
			m := a.args[1].n
			if xb.lo != nil && xb.hi != nil {
				v := new(big.Int).Add(l.k, xb.lo)
				v.Neg(v).Mod(v, m)
				v.Add(v, xb.lo) // the least value >= lo that is congruent
				n := 0
				for w := new(big.Int).Set(v); w.Cmp(xb.hi) <= 0 && n < 3; w.Add(w, m) {
					n++
				}
				switch n {
				case 0:
					return tFalse
				case 1:
					return f.Eq0(f.Sub(a.args[0], tInt(v)))
				case 2:
					return f.Or(f.Eq0(f.Sub(a.args[0], tInt(v))), f.Eq0(f.Sub(a.args[0], tInt(new(big.Int).Add(v, m)))))
				}
			}
		}
		// x mod m == c over a few values of a plain number
		if a.op == "mod" && a.args[1].isInt() && a.args[1].n.BitLen() <= 16 && l.m[a].Cmp(big1) == 0 && a.args[0].op == "var" {
			xb := f.bounds(a.args[0])
			m := a.args[1].n
			if xb.lo != nil && xb.hi != nil && new(big.Int).Sub(xb.hi, xb.lo).Cmp(bi(64)) < 0 {
				var ts []*Term
				for v := new(big.Int).Set(xb.lo); v.Cmp(xb.hi) <= 0; v = new(big.Int).Add(v, big1) {
					if new(big.Int).Add(new(big.Int).Mod(v, m), l.k).Sign() == 0 {
						ts = append(ts, f.Eq0(f.Sub(a.args[0], tInt(v))))
					}
				}
				return f.Or(ts...)
			}
		}
		if a.op == "px" && l.m[a].Cmp(big1) == 0 && new(big.Int).Add(l.k, curveGX).Sign() == 0 {
			return f.Or(f.EcZero(f.EcAdd(a.args[0], f.EcNeg(ecOne(ecG)))), f.EcZero(f.EcAdd(a.args[0], ecOne(ecG))))
		}
		if a.op == "len" && l.k.Sign() == 0 && a.args[0].op == "bytes" {
			return f.Eq0(a.args[0].args[0])
		}
	}
	if len(as) == 2 && l.k.Sign() == 0 && l.m[as[0]].Cmp(big1) == 0 && l.m[as[1]].Cmp(bi(-1)) == 0 {
		a, b := as[0], as[1]
		for k := 0; k < 2; k++ {
			// y*y = x*x*x + 7 modulo p
			if a.op == "mod" && b.op == "mod" && a.args[1].isInt() && a.args[1] == b.args[1] && a.args[1].n.Cmp(curveP) == 0 {
				if y := a.args[0]; y.op == "mul" && len(y.args) == 2 && y.args[0] == y.args[1] {
					if x := f.curveRHS(b); x != nil {
						if y.args[0].op == "sqrt" && y.args[0].args[0] == x {
							return f.QR(x)
						}
						return f.OnCurve(x, y.args[0])
					}
				}
			}
			a, b = b, a
		}
		if a.op == "frombe" && b.op == "frombe" {
			la, oka := f.Len(a.args[0]).i64()
			lb, okb := f.Len(b.args[0]).i64()
			if oka && okb && la == lb {
				return f.Eqs(a.args[0], b.args[0])
			}
		}
		if a.op == "px" && b.op == "px" {
			p, q := a.args[0], b.args[0]
			return f.Or(f.EcZero(f.EcAdd(p, f.EcNeg(q))), f.EcZero(f.EcAdd(p, q)))
		}
	}
	if t := f.radix(l); t != nil {
		return t
	}
	if t := f.bitwise(l); t != nil {
		return t
	}
	return f.atomB(mk("eq0", SBool, "", nil, nil, l.term()))
}

// bitwise splits an equation in which bits of one number meet another number as a whole.
func (f *Facts) bitwise(l *lin) *Term {
	bits := 0
	pos, neg := newLin(), newLin()
	for a, c := range l.m {
		if a.op == "bit" {
			bits++
		}
		if c.Sign() > 0 {
			pos.m[a] = c
		} else {
			neg.m[a] = new(big.Int).Neg(c)
		}
	}
	if bits < 2 || len(pos.m) == 0 || len(neg.m) == 0 || len(pos.m) > 1 && len(neg.m) > 1 {
		return nil
	}
	if l.k.Sign() > 0 {
		pos.k = l.k
	} else {
		neg.k = new(big.Int).Neg(l.k)
	}
	p, n := pos.term(), neg.term()
	if loopVar(p) || loopVar(n) {
		return nil // solved for the variable instead
	}
	pb, nb := f.bounds(p), f.bounds(n)
	if pb.hi == nil || nb.hi == nil || pb.hi.BitLen() < 2 || nb.hi.BitLen() < 2 || pb.hi.BitLen() > 16 || nb.hi.BitLen() > 16 || f.occOf(p) == nil && p.op == "lin" || f.occOf(n) == nil && n.op == "lin" {
		return nil
	}
	var ts []*Term
	for i := 0; i < pb.hi.BitLen() || i < nb.hi.BitLen(); i++ {
		d := f.Sub(f.BitAt(p, int64(i)), f.BitAt(n, int64(i)))
		if len(linOf(d).m) > 2 {
			return nil
		}
		ts = append(ts, f.Eq0(d))
	}
	return f.And(ts...)
}

// loopVar reports whether t names the position of a loop.
func loopVar(t *Term) bool { return t.op == "var" && strings.HasPrefix(t.s, "%t") }

// radix splits an equation between numbers written in a positional system.
func (f *Facts) radix(l *lin) *Term {
	if len(l.m) < 2 || len(l.m) > 80 {
		return nil
	}
	as := l.atoms()
	sort.SliceStable(as, func(i, j int) bool { return l.m[as[i]].CmpAbs(l.m[as[j]]) < 0 })
	low := newLin()
	for i := 0; i < len(as)-1; i++ {
		low.m[as[i]] = l.m[as[i]]
		d := new(big.Int)
		for _, a := range as[i+1:] {
			d.GCD(nil, nil, d, new(big.Int).Abs(l.m[a]))
		}
		if d.CmpAbs(l.m[as[i]]) <= 0 {
			continue
		}
		// all constants k = kh*d + kl
		kh := floorDiv(l.k, d)
		for _, h := range []*big.Int{kh, new(big.Int).Add(kh, big1)} {
			low.k = new(big.Int).Sub(l.k, new(big.Int).Mul(h, d))
			b := f.linBounds(low)
			if b.lo == nil || b.hi == nil || b.lo.Cmp(new(big.Int).Neg(d)) <= 0 || b.hi.Cmp(d) >= 0 {
				continue
			}
			high := newLin()
			high.k.Set(h)
			for _, a := range as[i+1:] {
				high.m[a] = new(big.Int).Quo(l.m[a], d)
			}
			lo2 := newLin()
			lo2.k.Set(low.k)
			for a, c := range low.m {
				lo2.m[a] = c
			}
			return f.And(f.Eq0(f.Lin(lo2)), f.Eq0(f.Lin(high)))
		}
	}
	return nil
}

func (f *Facts) Not(t *Term) *Term {
	switch t.op {
	case "bool":
		return tBool(!t.b)
	case "not":
		return t.args[0]
	case "ge0":
		return f.Ge0(f.Sub(tI(-1), t.args[0]))
	case "and":
		r := make([]*Term, len(t.args))
		for i, a := range t.args {
			r[i] = f.Not(a)
		}
		return f.Or(r...)
	case "or":
		r := make([]*Term, len(t.args))
		for i, a := range t.args {
			r[i] = f.Not(a)
		}
		return f.And(r...)
	}
	if v, ok := f.bools[t]; ok {
		return tBool(!v)
	}
	return mk("not", SBool, "", nil, nil, t)
}

func (f *Facts) And(ts ...*Term) *Term { return f.junct("and", true, ts) }
func (f *Facts) Or(ts ...*Term) *Term  { return f.junct("or", false, ts) }

func (f *Facts) junct(op string, neutral bool, ts []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(ts []*Term) bool
	walk = func(ts []*Term) bool {
		for _, t := range ts {
			if t.op == op {
				if !walk(t.args) {
					return false
				}
				continue
			}
			if t.op == "bool" {
				if t.b != neutral {
					return false
				}
				continue
			}
			if seen[t] {
				continue
			}
			if seen[f.Not(t)] {
				return false
			}
			seen[t] = true
			out = append(out, t)
		}
		return true
	}
	if !walk(ts) {
		return tBool(!neutral)
	}
	if len(out) == 0 {
		return tBool(neutral)
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(op, SBool, "", nil, nil, out...)
}

// In: w is an element of list.
func (f *Facts) In(list, w *Term) *Term {
	if w.op == "elem" && w.args[0] == list {
		// the index was in bounds when the element was read
		return tTrue
	}
	return f.atomB(mk("in", SBool, "", nil, nil, list, w))
}

// OnCurve: (x,y) is a point of secp256k1 (coordinates taken modulo p).
func (f *Facts) OnCurve(x, y *Term) *Term {
	if x.isInt() && y.isInt() {
		return tBool(onCurve(x.n, y.n))
	}
	p := f.EcPtRaw(x, y)
	if p != nil {
		return tTrue
	}
	t := f.atomB(mk("oncurve", SBool, "", nil, nil, x, y))
	if t.op == "bool" {
		return t
	}
	// the other root
	if y2 := f.Sub(tInt(curveP), y); y2 != y {
		if v, ok := f.bools[mk("oncurve", SBool, "", nil, nil, x, y2)]; ok {
			return tBool(v)
		}
	}
	return t
}

// QR: the curve has a point with this x.
func (f *Facts) QR(x *Term) *Term {
	if x.op == "px" {
		return tTrue
	}
	if x.isInt() {
		v := new(big.Int).Exp(x.n, bi(3), curveP)
		v.Add(v, bi(7))
		v.Mod(v, curveP)
		return tBool(big.Jacobi(v, curveP) >= 0)
	}
	return f.atomB(mk("qr", SBool, "", nil, nil, x))
}

// curveEq recognises y*y - x*x*x - 7 and its negation modulo p.
func curveEq(l *lin) (x, y *Term) {
	if len(l.m) != 2 {
		return nil, nil
	}
	var cx *big.Int
	for a, c := range l.m {
		if a.op != "mul" || c.CmpAbs(big1) != 0 {
			return nil, nil
		}
		for _, b := range a.args[1:] {
			if b != a.args[0] {
				return nil, nil
			}
		}
		switch len(a.args) {
		case 2:
			y = a.args[0]
			if cx != nil && cx.Cmp(c) == 0 {
				return nil, nil
			}
			if cx == nil {
				cx = new(big.Int).Neg(c)
			}
		case 3:
			x = a.args[0]
			if cx != nil && cx.Cmp(c) != 0 {
				return nil, nil
			}
			cx = c
		}
	}
	if x == nil || y == nil {
		return nil, nil
	}
	k := new(big.Int).Mul(cx, bi(7))
	if k.Sub(k, l.k).Mod(k, curveP).Sign() != 0 {
		return nil, nil
	}
	return x, y
}

func onCurve(x, y *big.Int) bool {
	l := new(big.Int).Exp(y, bi(2), curveP)
	r := new(big.Int).Exp(x, bi(3), curveP)
	r.Add(r, bi(7))
	r.Mod(r, curveP)
	return l.Cmp(r) == 0
}

// ---- points ----

var ecG = mk("ecG", SPt, "", nil, nil)

func (f *Facts) EcInf() *Term { return mk("ecl", SPt, "", nil, nil) }

func ecOne(base *Term) *Term { return mk("ecl", SPt, "", nil, nil, tI(1), base) }

// ecParts returns coefficients and bases.
func ecParts(p *Term) (cs, bs []*Term) {
	if p.op != "ecl" {
		return []*Term{tI(1)}, []*Term{p}
	}
	for i := 0; i+1 < len(p.args); i += 2 {
		cs = append(cs, p.args[i])
		bs = append(bs, p.args[i+1])
	}
	return
}

// modN is a scalar modulo the group order, as a linear form with balanced coefficients.
func (f *Facts) modN(t *Term) *Term {
	l := linOf(t)
	r := newLin()
	r.k.Set(l.k)
	for x, c := range l.m {
		f.modAtom(r, x, c, curveN)
	}
	bal := func(c *big.Int) *big.Int {
		c = new(big.Int).Mod(c, curveN)
		if new(big.Int).Lsh(c, 1).Cmp(curveN) > 0 {
			c.Sub(c, curveN)
		}
		return c
	}
	for x, c := range r.m {
		c = bal(c)
		if c.Sign() == 0 {
			delete(r.m, x)
		} else {
			r.m[x] = c
		}
	}
	r.k = bal(r.k)
	return f.Lin(r)
}

func (f *Facts) ecMk(m map[*Term]*Term) *Term {
	var bs []*Term
	for b := range m {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].id < bs[j].id })
	var args []*Term
	for _, b := range bs {
		c := f.modN(m[b])
		if c.isK(0) {
			continue
		}
		args = append(args, c, b)
	}
	return mk("ecl", SPt, "", nil, nil, args...)
}

func (f *Facts) EcAdd(p, q *Term) *Term {
	m := map[*Term]*Term{}
	for _, x := range []*Term{p, q} {
		cs, bs := ecParts(x)
		for i := range cs {
			if m[bs[i]] == nil {
				m[bs[i]] = tI(0)
			}
			m[bs[i]] = f.Add(m[bs[i]], cs[i])
		}
	}
	return f.ecMk(m)
}

func (f *Facts) EcMul(k, p *Term) *Term {
	m := map[*Term]*Term{}
	cs, bs := ecParts(p)
	for i := range cs {
		m[bs[i]] = f.Mul(k, cs[i])
	}
	return f.ecMk(m)
}

func (f *Facts) EcNeg(p *Term) *Term { return f.EcMul(tI(-1), p) }

// ecSign is -1 if the canonical representative of {p,-p} is -p.
func ecSign(p *Term) int {
	cs, _ := ecParts(p)
	if len(cs) == 0 {
		return 1
	}
	c := cs[0]
	switch c.op {
	case "int":
		return c.n.Sign()
	case "lin":
		return c.cs[0].Sign()
	}
	return 1
}

// EcPtRaw recognises coordinates that belong to a known point.
func (f *Facts) EcPtRaw(x, y *Term) *Term {
	if x.isInt() && y.isInt() {
		if x.n.Cmp(curveGX) == 0 && y.n.Cmp(curveGY) == 0 {
			return ecOne(ecG)
		}
		if x.n.Cmp(curveGX) == 0 && new(big.Int).Add(y.n, curveGY).Cmp(curveP) == 0 {
			return f.EcNeg(ecOne(ecG))
		}
	}
	if x.op == "px" {
		p := x.args[0]
		if y == f.Py(p) {
			return p
		}
		if n := f.EcNeg(p); y == f.Py(n) {
			return n
		}
	}
	return nil
}

// EcPt is the point with the given coordinates.
func (f *Facts) EcPt(x, y *Term) *Term {
	if p := f.EcPtRaw(x, y); p != nil {
		return p
	}
	// sign-normalise: (x, p-y) = -(x, y)
	if y.op == "lin" && len(y.args) == 1 && y.n.Cmp(curveP) == 0 && y.cs[0].Cmp(bi(-1)) == 0 {
		return f.EcNeg(f.EcPt(x, y.args[0]))
	}
	return ecOne(mk("ecpt", SPt, "", nil, nil, x, y))
}

func (f *Facts) ecSingle(p *Term) *Term {
	cs, bs := ecParts(p)
	if len(cs) == 1 && cs[0].isK(1) {
		return bs[0]
	}
	return nil
}

func (f *Facts) Px(p *Term) *Term {
	if ecSign(p) < 0 {
		p = f.EcNeg(p)
	}
	if b := f.ecSingle(p); b != nil {
		if b == ecG {
			return tInt(curveGX)
		}
		if b.op == "ecpt" {
			return b.args[0]
		}
	}
	return f.sub(mk("px", SInt, "", nil, nil, p))
}

func (f *Facts) Py(p *Term) *Term {
	if ecSign(p) < 0 {
		return f.Sub(tInt(curveP), f.Py(f.EcNeg(p)))
	}
	if b := f.ecSingle(p); b != nil {
		if b == ecG {
			return tInt(curveGY)
		}
		if b.op == "ecpt" {
			return b.args[1]
		}
	}
	return f.sub(mk("py", SInt, "", nil, nil, p))
}

// EcZero: p is the point at infinity.
func (f *Facts) EcZero(p *Term) *Term {
	cs, _ := ecParts(p)
	switch len(cs) {
	case 0:
		return tTrue
	case 1:
		return f.Eq0(f.Mod(cs[0], tInt(curveN)))
	}
	return f.atomB(mk("eczero", SBool, "", nil, nil, p))
}
