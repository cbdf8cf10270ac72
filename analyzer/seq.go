package main

// Canonicalising constructors of byte sequences and lists.

import (
	"encoding/hex"
	"math/big"
	"strconv"
	"strings"
)

func parts(t *Term) []*Term {
	if t.op == "cat" {
		return t.args
	}
	if t.op == "str" && t.s == "" {
		return nil
	}
	return []*Term{t}
}

// Len is the length of a byte sequence.
func (f *Facts) Len(s *Term) *Term {
	switch s.op {
	case "str":
		return tI(int64(len(s.s)))
	case "cat":
		l := newLin()
		for _, p := range s.args {
			l.addT(f.Len(p), big1)
		}
		return f.Lin(l)
	case "unit":
		return tI(1)
	case "slice":
		return f.Sub(s.args[2], s.args[1])
	case "rep":
		return s.args[0]
	case "hexenc":
		return f.Scale(f.Len(s.args[0]), big2)
	case "unhex":
		return f.Div(f.Len(s.args[0]), tI(2))
	case "hash":
		return tI(hashLen[s.s])
	case "be", "randbytes":
		return tInt(s.n)
	case "digits":
		return s.args[1]
	case "pbkdf2", "hmac":
		return s.args[len(s.args)-1]
	case "lower", "upper":
		if f.AllCls(s.args[0], asciiCls) == tTrue {
			return f.Len(s.args[0])
		}
	}
	return f.sub(mk("len", SInt, "", nil, nil, s))
}

var hashLen = map[string]int64{"sha256": 32, "sha512": 64, "ripemd160": 20, "sha1": 20, "sha224": 28, "sha384": 48, "md5": 16, "sha512_256": 32, "sha3_256": 32}

func (f *Facts) lenK(s *Term) (int64, bool) { return f.Len(s).i64() }

// Unit is the sequence of one byte.
func (f *Facts) Unit(x *Term) *Term {
	x = f.sub(x)
	if v, ok := x.i64(); ok {
		return tStr(string([]byte{byte(v)}))
	}
	return mk("unit", SSeq, "", nil, nil, x)
}

// Rep is c repeated n times.
func (f *Facts) Rep(c string, n *Term) *Term {
	n = f.sub(n)
	if v, ok := n.i64(); ok && v <= 5000 {
		if v < 0 {
			v = 0
		}
		return tStr(strings.Repeat(c, int(v)))
	}
	return mk("rep", SSeq, c, nil, nil, n)
}

func asSlice(t *Term) (base, lo, hi *Term) {
	switch t.op {
	case "slice":
		return t.args[0], t.args[1], t.args[2]
	case "unit":
		if u := t.args[0]; u.op == "at" {
			l := linOf(u.args[1])
			l.k.Add(l.k, big1)
			return u.args[0], u.args[1], l.term()
		}
	}
	return nil, nil, nil
}

// Cat concatenates.
func (f *Facts) Cat(ts ...*Term) *Term {
	var st []*Term
	var push func(p *Term)
	push = func(p *Term) {
		if p.op == "cat" {
			for _, a := range p.args {
				push(a)
			}
			return
		}
		if u, ok := f.eqc[p]; ok {
			push(u)
			return
		}
		if p.op == "str" && p.s == "" {
			return
		}
		if p.op == "rep" && p.args[0].isK(0) {
			return
		}
		if len(st) > 0 {
			if j := f.coalesce(st[len(st)-1], p); j != nil {
				st = st[:len(st)-1]
				for _, q := range j {
					push(q)
				}
				return
			}
		}
		st = append(st, p)
	}
	for _, t := range ts {
		push(t)
	}
	switch len(st) {
	case 0:
		return tStr("")
	case 1:
		return st[0]
	}
	return mk("cat", SSeq, "", nil, nil, st...)
}

func allByte(s string, c byte) bool {
	for i := 0; i < len(s); i++ {
		if s[i] != c {
			return false
		}
	}
	return true
}

// coalesce joins two adjacent parts, or returns nil.
func (f *Facts) coalesce(a, b *Term) []*Term {
	if a.op == "str" && b.op == "str" {
		return []*Term{tStr(a.s + b.s)}
	}
	if ba, lo, hi := asSlice(a); ba != nil {
		if bb, lo2, hi2 := asSlice(b); bb == ba && hi == lo2 {
			r := f.Slice(ba, lo, hi2)
			if r != a && r.op != "cat" {
				return []*Term{r}
			}
		}
	}
	if a.op == "hexenc" && b.op == "hexenc" {
		if c := f.Cat(a.args[0], b.args[0]); c.op != "cat" {
			return []*Term{f.HexEnc(c)}
		}
	}
	if a.op == "rep" && b.op == "rep" && a.s == b.s {
		return []*Term{f.Rep(a.s, f.Add(a.args[0], b.args[0]))}
	}
	if a.op == "rep" && b.op == "str" && allByte(b.s, a.s[0]) {
		return []*Term{f.Rep(a.s, f.AddK(a.args[0], int64(len(b.s))))}
	}
	if a.op == "str" && b.op == "rep" {
		// move a run of the same byte into the repetition
		n := len(a.s)
		for n > 0 && a.s[n-1] == b.s[0] {
			n--
		}
		if n < len(a.s) {
			return []*Term{tStr(a.s[:n]), f.Rep(b.s, f.AddK(b.args[0], int64(len(a.s)-n)))}
		}
	}
	if a.op == "rep" && (b.op == "fmtint" && a.s == "0" || b.op == "bytes" && a.s == "\x00") {
		m := a.args[0]
		inner := m
		if m.op == "max0" {
			inner = m.args[0]
		}
		if w, ok := f.Add(inner, f.Len(b)).i64(); ok && w >= 0 && w < 5000 {
			base := int64(256)
			if b.op == "fmtint" {
				base = b.n.Int64()
			}
			k := b.args[0]
			kb := f.bounds(k)
			fits := kb.lo != nil && kb.lo.Sign() >= 0 && kb.hi != nil && kb.hi.Cmp(pow(base, w)) < 0
			if fits && w >= 1 {
				if b.op == "fmtint" {
					return []*Term{f.Digits(k, base, w)}
				}
				return []*Term{f.Be(k, w)}
			}
		}
	}
	if a.op == "str" && b.op == "digits" && b.n.Int64() == 16 && strings.HasSuffix(a.s, "0") {
		w, _ := b.args[1].i64()
		return []*Term{tStr(a.s[:len(a.s)-1]), f.Digits(b.args[0], 16, w+1)}
	}
	return nil
}

// Slice is s[lo:hi]; the bounds are known to be in range.
func (f *Facts) Slice(s, lo, hi *Term) *Term {
	s = f.sub(s)
	if lo == hi {
		return tStr("")
	}
	if lo.isK(0) && hi == f.Len(s) {
		return s
	}
	a, okA := lo.i64()
	b, okB := hi.i64()
	switch s.op {
	case "str":
		if okA && okB && 0 <= a && a <= b && b <= int64(len(s.s)) {
			return tStr(s.s[a:b])
		}
		if len(s.s) > 0 && strings.Count(s.s, s.s[:1]) == len(s.s) && f.ge(lo, tI(0)) && f.ge(hi, lo) && f.ge(tI(int64(len(s.s))), hi) {
			return f.Rep(s.s[:1], f.Sub(hi, lo))
		}
		// one end is known, and the bytes among which the other lies are all the same
		if n := int64(len(s.s)); n > 0 && okA != okB && f.ge(lo, tI(0)) && f.ge(hi, lo) && f.ge(tI(n), hi) {
			var iv Iv
			if okA {
				iv = f.bounds(hi)
			} else {
				iv = f.bounds(lo)
			}
			x, y := int64(0), n
			if iv.lo != nil && iv.lo.IsInt64() && iv.lo.Int64() > x {
				x = iv.lo.Int64()
			}
			if iv.hi != nil && iv.hi.IsInt64() && iv.hi.Int64() < y {
				y = iv.hi.Int64()
			}
			if okA && x < a {
				x = a
			}
			if okB && y > b {
				y = b
			}
			if x < y && strings.Count(s.s[x:y], s.s[x:x+1]) == int(y-x) {
				if okA {
					return f.Cat(tStr(s.s[a:x]), f.Rep(s.s[x:x+1], f.Sub(hi, tI(x))))
				}
				return f.Cat(f.Rep(s.s[x:x+1], f.Sub(tI(y), lo)), tStr(s.s[y:b]))
			}
		}
	case "slice":
		return f.Slice(s.args[0], f.Add(s.args[1], lo), f.Add(s.args[1], hi))
	case "unit":
		if okA && okB && a == 0 && b == 1 {
			return s
		}
	case "rep":
		return f.Rep(s.s, f.Sub(hi, lo))
	case "hexenc":
		if l2, h2 := f.half(lo), f.half(hi); l2 != nil && h2 != nil {
			return f.HexEnc(f.Slice(s.args[0], l2, h2))
		}
	case "cat":
		if r := f.sliceCat(s, lo, hi); r != nil {
			return r
		}
	case "be":
		// the low bytes of a number that is known to be small
		if okA && okB && b == s.n.Int64() {
			kb := f.bounds(s.args[0])
			if kb.hi != nil && kb.lo != nil && kb.lo.Sign() >= 0 && kb.hi.Cmp(pow(256, b-a)) < 0 {
				return f.Be(s.args[0], b-a)
			}
		}
	case "digits":
		if okA && okB && b == mustI(s.args[1]) {
			kb := f.bounds(s.args[0])
			base := s.n.Int64()
			if kb.hi != nil && kb.lo != nil && kb.lo.Sign() >= 0 && kb.hi.Cmp(pow(base, b-a)) < 0 {
				return f.Digits(s.args[0], base, b-a)
			}
		}
	}
	if f.Sub(hi, lo).isK(1) {
		return f.Unit(f.At(s, lo))
	}
	return f.sub(mk("slice", SSeq, "", nil, nil, s, lo, hi))
}

func mustI(t *Term) int64 { v, _ := t.i64(); return v }

// half is t/2 if t is certainly even.
func (f *Facts) half(t *Term) *Term {
	l := linOf(t)
	if l.k.Bit(0) != 0 {
		return nil
	}
	for _, c := range l.m {
		if c.Bit(0) != 0 {
			return nil
		}
	}
	r := newLin()
	r.k.Quo(l.k, big2)
	for a, c := range l.m {
		r.m[a] = new(big.Int).Quo(c, big2)
	}
	return f.Lin(r)
}

func (f *Facts) sliceCat(s, lo, hi *Term) *Term {
	var out []*Term
	off := tI(0)
	started := false
	for _, p := range s.args {
		end := f.Add(off, f.Len(p))
		var from *Term
		if !started {
			if f.ge(lo, end) {
				off = end
				continue
			}
			if lo == off {
				from = tI(0)
			} else if f.ge(lo, off) && f.ge(end, lo) {
				from = f.Sub(lo, off)
			} else {
				return nil
			}
			started = true
		} else {
			from = tI(0)
		}
		// where does the slice end?
		if f.ge(hi, end) {
			out = append(out, f.Slice(p, from, f.Len(p)))
			off = end
			if hi == end {
				return f.Cat(out...)
			}
			continue
		}
		if f.ge(end, hi) && f.ge(hi, off) {
			out = append(out, f.Slice(p, from, f.Sub(hi, off)))
			return f.Cat(out...)
		}
		return nil
	}
	if !started {
		if f.ge(lo, off) {
			return tStr("")
		}
		return nil
	}
	return f.Cat(out...)
}

// At is byte i of s.
func (f *Facts) At(s, i *Term) *Term {
	s = f.sub(s)
	k, isK := i.i64()
	switch s.op {
	case "str":
		if isK && k >= 0 && k < int64(len(s.s)) {
			return tI(int64(s.s[k]))
		}
		if len(s.s) > 0 && allByte(s.s, s.s[0]) {
			return tI(int64(s.s[0]))
		}
	case "unit":
		return s.args[0]
	case "slice":
		return f.At(s.args[0], f.Add(s.args[1], i))
	case "rep":
		return tI(int64(s.s[0]))
	case "cat":
		off := tI(0)
		for _, p := range s.args {
			end := f.Add(off, f.Len(p))
			if f.ge(i, end) {
				off = end
				continue
			}
			if f.ge(i, off) && f.ge(end, f.AddK(i, 1)) {
				return f.At(p, f.Sub(i, off))
			}
			break
		}
	case "unhex":
		c1, c2 := f.At(s.args[0], f.Scale(i, big2)), f.At(s.args[0], f.AddK(f.Scale(i, big2), 1))
		if n1, n2 := f.nib(c1), f.nib(c2); n1 != nil && n2 != nil {
			return f.Add(f.Scale(n1, bi(16)), n2)
		}
	case "be":
		if isK {
			if kb := f.bounds(s.args[0]); f.bitty(s.args[0]) && s.args[0].op == "lin" && kb.lo != nil {
				p := (s.n.Int64() - 1 - k) * 8
				return f.bitsRange(s.args[0], p, p+8)
			}
			if s.n.Int64() == 1 {
				return s.args[0]
			}
		}
	}
	return f.sub(mk("at", SInt, "", nil, nil, s, i))
}

// nib is the value of a hex digit character, or nil.
func (f *Facts) nib(c *Term) *Term {
	if v, ok := c.i64(); ok {
		switch {
		case v >= '0' && v <= '9':
			return tI(v - '0')
		case v >= 'a' && v <= 'f':
			return tI(v - 'a' + 10)
		case v >= 'A' && v <= 'F':
			return tI(v - 'A' + 10)
		}
		return nil
	}
	b := f.bounds(c)
	if b.lo != nil && b.hi != nil && b.lo.Cmp(bi('0')) >= 0 && b.hi.Cmp(bi('9')) <= 0 {
		return f.AddK(c, -'0')
	}
	return nil
}

// ---- character classes ----

func mkCls(in func(byte) bool) string {
	var b [32]byte
	for i := 0; i < 256; i++ {
		if in(byte(i)) {
			b[i/8] |= 1 << uint(i%8)
		}
	}
	return hex.EncodeToString(b[:])
}

func clsHas(c string, b byte) bool {
	v, _ := strconv.ParseUint(c[int(b/8)*2:int(b/8)*2+2], 16, 8)
	return v>>(b%8)&1 == 1
}

func clsSub(a, b string) bool {
	for i := 0; i < 256; i++ {
		if clsHas(a, byte(i)) && !clsHas(b, byte(i)) {
			return false
		}
	}
	return true
}

func isHexDigit(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

func digitCls(base int64) string {
	return mkCls(func(c byte) bool {
		v := int64(99)
		switch {
		case c >= '0' && c <= '9':
			v = int64(c - '0')
		case c >= 'a' && c <= 'z':
			v = int64(c-'a') + 10
		case c >= 'A' && c <= 'Z':
			v = int64(c-'A') + 10
		}
		return v < base
	})
}

const b58Alphabet = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

var (
	hexCls   = mkCls(isHexDigit)
	lhexCls  = mkCls(func(c byte) bool { return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' })
	asciiCls = mkCls(func(c byte) bool { return c < 128 })
	b58Cls   = mkCls(func(c byte) bool { return strings.IndexByte(b58Alphabet, c) >= 0 })
)

// AllCls: every byte of s is in the class.
func (f *Facts) AllCls(s *Term, cls string) *Term {
	s = f.sub(s)
	switch s.op {
	case "str":
		for i := 0; i < len(s.s); i++ {
			if !clsHas(cls, s.s[i]) {
				return tFalse
			}
		}
		return tTrue
	case "cat":
		var r []*Term
		for _, p := range s.args {
			r = append(r, f.AllCls(p, cls))
		}
		return f.And(r...)
	case "unit":
		b := f.bounds(s.args[0])
		if b.lo != nil && b.hi != nil && b.lo.Sign() >= 0 && b.hi.Cmp(bi(255)) <= 0 {
			all, none := true, true
			for c := b.lo.Int64(); c <= b.hi.Int64(); c++ {
				if clsHas(cls, byte(c)) {
					none = false
				} else {
					all = false
				}
			}
			if all {
				return tTrue
			}
			if none {
				return tFalse
			}
		}
		if u := s.args[0]; u.op == "at" && f.clsKnown(u.args[0], cls) == 1 {
			return tTrue
		}
		if t := f.hexDigit(s.args[0], func(c int64) bool { return clsHas(cls, byte(c)) }); t != nil {
			return t
		}
	case "rep":
		if clsHas(cls, s.s[0]) {
			return tTrue
		}
		return f.Eq0(s.args[0])
	case "hexenc":
		if clsSub(lhexCls, cls) {
			return tTrue
		}
	case "digits", "fmtint":
		if clsSub(digitCls(s.n.Int64()), cls) {
			return tTrue
		}
	case "b58enc":
		if clsSub(b58Cls, cls) {
			return tTrue
		}
	case "slice":
		if f.clsKnown(s.args[0], cls) == 1 {
			return tTrue
		}
	case "lower", "upper":
		if cls == hexCls {
			return f.AllCls(s.args[0], cls)
		}
	}
	switch f.clsKnown(s, cls) {
	case 1:
		return tTrue
	case -1:
		return tFalse
	}
	if f.Len(s).isK(0) {
		return tTrue
	}
	return f.atomB(mk("allcls", SBool, cls, nil, nil, s))
}

func (f *Facts) clsKnown(s *Term, cls string) int {
	for _, c := range f.cls[s] {
		if c.val && clsSub(c.cls, cls) {
			return 1
		}
		if !c.val && clsSub(cls, c.cls) {
			return -1
		}
	}
	if s.op == "slice" {
		return max(0, f.clsKnown(s.args[0], cls))
	}
	if s.op == "hexenc" && clsSub(lhexCls, cls) {
		return 1
	}
	return 0
}

// HexOk: s is an even number of hex digits.
func (f *Facts) HexOk(s *Term) *Term {
	return f.And(f.Eq0(f.BitAt(f.Len(s), 0)), f.AllCls(s, hexCls))
}

// ---- hex ----

// HexEnc is lower-case hex.
func (f *Facts) HexEnc(x *Term) *Term {
	x = f.sub(x)
	switch x.op {
	case "str":
		return tStr(hex.EncodeToString([]byte(x.s)))
	case "cat":
		var r []*Term
		for _, p := range x.args {
			r = append(r, f.HexEnc(p))
		}
		return f.Cat(r...)
	case "unit":
		// one byte below 10 has decimal digits only
		b := f.bounds(x.args[0])
		if b.lo != nil && b.lo.Sign() >= 0 && b.hi != nil && b.hi.Cmp(bi(9)) <= 0 {
			return f.Cat(tStr("0"), f.Unit(f.AddK(x.args[0], '0')))
		}
	}
	return f.sub(mk("hexenc", SSeq, "", nil, nil, x))
}

// UnHex decodes hex (s is known or assumed to be valid).
func (f *Facts) UnHex(s *Term) *Term {
	s = f.sub(s)
	ps := parts(s)
	var out []*Term
	var pend *Term // a pending high digit
	fail := false
	char := func(c *Term) {
		n := f.nib(c)
		if n == nil {
			fail = true
			return
		}
		if pend == nil {
			pend = n
			return
		}
		out = append(out, f.Unit(f.Add(f.Scale(pend, bi(16)), n)))
		pend = nil
	}
	for i, p := range ps {
		switch p.op {
		case "str":
			for j := 0; j < len(p.s); j++ {
				char(tI(int64(p.s[j])))
			}
		case "unit":
			// a single character out of something longer
			if f.nib(p.args[0]) == nil && pend == nil && i+1 < len(ps) {
				fail = true
			} else {
				char(p.args[0])
			}
		case "rep":
			if pend == nil && p.s == "0" {
				if h := f.half(p.args[0]); h != nil {
					out = append(out, f.Rep("\x00", h))
					continue
				}
			}
			fail = true
		case "hexenc":
			if pend != nil {
				fail = true
			}
			out = append(out, p.args[0])
		default:
			if pend != nil {
				fail = true
				break
			}
			even := f.Eq0(f.BitAt(f.Len(p), 0)) == tTrue
			if !even && len(ps) > 1 {
				fail = true
				break
			}
			switch {
			case p.op == "lower" || p.op == "upper":
				out = append(out, f.UnHex(p.args[0]))
			case p.op == "slice" && even && f.half(p.args[1]) != nil && f.half(p.args[2]) != nil && f.HexOk(p.args[0]) == tTrue:
				out = append(out, f.Slice(f.UnHex(p.args[0]), f.half(p.args[1]), f.half(p.args[2])))
			default:
				out = append(out, f.sub(mk("unhex", SSeq, "", nil, nil, p)))
			}
		}
		if fail {
			break
		}
	}
	if fail || pend != nil {
		return f.sub(mk("unhex", SSeq, "", nil, nil, s))
	}
	return f.Cat(out...)
}

// ---- Base58 ----

func (f *Facts) B58Enc(x *Term) *Term {
	x = f.sub(x)
	return f.sub(mk("b58enc", SSeq, "", nil, nil, x))
}

func (f *Facts) B58Dec(x *Term) *Term {
	x = f.sub(x)
	if x.op == "b58enc" {
		return x.args[0]
	}
	return f.sub(mk("b58dec", SSeq, "", nil, nil, x))
}

// B58Ok: x is valid Base58. The empty string is not (as in mr-tron/base58).
func (f *Facts) B58Ok(x *Term) *Term {
	if x.op == "b58enc" {
		return f.Not(f.Eq0(f.Len(x.args[0])))
	}
	if f.Len(x).isK(0) {
		return tFalse
	}
	return f.atomB(mk("b58ok", SBool, "", nil, nil, x))
}

// ---- numerals ----

// Be is the n-byte big-endian form of k.
func (f *Facts) Be(k *Term, n int64) *Term {
	k = f.sub(k)
	kb := f.bounds(k)
	if n < 0 || kb.lo == nil || kb.lo.Sign() < 0 || kb.hi == nil || kb.hi.Cmp(pow(256, n)) >= 0 {
		if n == 1 && kb.lo != nil {
			return f.Unit(f.Mod(k, tI(256)))
		}
		return mk("be", SSeq, "", bi(n), nil, k)
	}
	if k.isInt() {
		b := make([]byte, n)
		k.n.FillBytes(b)
		return tStr(string(b))
	}
	// no more bytes than the bound on k needs
	if w := int64(kb.hi.BitLen()+7) / 8; w < n {
		return f.Cat(tStr(strings.Repeat("\x00", int(n-w))), f.Be(k, w))
	}
	if n == 1 {
		return f.Unit(k)
	}
	if k.op == "frombe" {
		s := k.args[0]
		if m, ok := f.lenK(s); ok {
			if m == n {
				return s
			}
			if m < n {
				return f.Cat(tStr(strings.Repeat("\x00", int(n-m))), s)
			}
			// the leading bytes are zero, by the bound on k
			return f.Slice(s, tI(m-n), tI(m))
		}
	}
	if k.op == "lin" && f.occOf(k) != nil {
		// whole sequences side by side
		if r := f.beParts(k, n); r != nil {
			return r
		}
		var out []*Term
		for j := int64(0); j < n; j++ {
			p := (n - 1 - j) * 8
			out = append(out, f.Unit(f.bitsRange(k, p, p+8)))
		}
		return f.Cat(out...)
	}
	return f.sub(mk("be", SSeq, "", bi(n), nil, k))
}

// beParts writes a sum of 256^j * frombe(part) as the concatenation of the parts.
func (f *Facts) beParts(k *Term, n int64) *Term {
	o := f.occOf(k)
	if k.n.Sign() != 0 || len(o) == 0 {
		return nil
	}
	var out []*Term
	pos := n
	for i := len(o) - 1; i >= 0; i-- {
		e := o[i]
		if e.from%8 != 0 {
			return nil
		}
		var s *Term
		switch {
		case e.a.op == "frombe":
			s = e.a.args[0]
		case e.to-e.from <= 8:
			s = f.Unit(e.a)
		default:
			return nil
		}
		m, ok := f.lenK(s)
		if !ok {
			return nil
		}
		end := e.from/8 + m // bytes used from the low end
		if end > pos {
			// the top bytes of s are zero
			s = f.Slice(s, tI(end-pos), tI(m))
			end = pos
		}
		if end < pos {
			out = append(out, tStr(strings.Repeat("\x00", int(pos-end))))
		}
		out = append(out, s)
		pos = e.from / 8
	}
	if pos > 0 {
		out = append(out, tStr(strings.Repeat("\x00", int(pos))))
	}
	return f.Cat(out...)
}

// FromBe is the number written in big-endian bytes.
func (f *Facts) FromBe(s *Term) *Term {
	s = f.sub(s)
	switch s.op {
	case "str":
		return tInt(new(big.Int).SetBytes([]byte(s.s)))
	case "unit":
		return s.args[0]
	case "be":
		kb := f.bounds(s.args[0])
		if kb.lo != nil && kb.lo.Sign() >= 0 && kb.hi != nil && kb.hi.Cmp(pow(256, s.n.Int64())) < 0 {
			return s.args[0]
		}
	case "bytes":
		return s.args[0]
	case "rep":
		if s.s == "\x00" {
			return tI(0)
		}
	case "cat":
		if p := s.args[0]; p.op == "rep" && p.s == "\x00" {
			return f.FromBe(f.Cat(s.args[1:]...))
		}
		off := int64(0)
		r := newLin()
		for i := len(s.args) - 1; i >= 0; i-- {
			p := s.args[i]
			r.addT(f.FromBe(p), pow(256, off))
			if i > 0 {
				n, ok := f.lenK(p)
				if !ok {
					return f.sub(mk("frombe", SInt, "", nil, nil, s))
				}
				off += n
			}
		}
		return f.Lin(r)
	}
	if n, ok := f.lenK(s); ok && n <= 8 {
		r := newLin()
		for i := int64(0); i < n; i++ {
			r.addT(f.At(s, tI(i)), pow(256, n-1-i))
		}
		return f.Lin(r)
	}
	return f.sub(mk("frombe", SInt, "", nil, nil, s))
}

// Bytes is the shortest big-endian form of k (big.Int.Bytes).
func (f *Facts) Bytes(k *Term) *Term {
	k = f.sub(k)
	if k.isInt() {
		return tStr(string(new(big.Int).Abs(k.n).Bytes()))
	}
	kb := f.bounds(k)
	if kb.lo != nil && kb.lo.Sign() > 0 && kb.hi != nil {
		if a, b := (kb.lo.BitLen()+7)/8, (kb.hi.BitLen()+7)/8; a == b {
			return f.Be(k, int64(a))
		}
	}
	if n, ok := f.sub(mk("len", SInt, "", nil, nil, mk("bytes", SSeq, "", nil, nil, k))).i64(); ok {
		return f.Be(k, n)
	}
	return f.sub(mk("bytes", SSeq, "", nil, nil, k))
}

// FmtInt is the shortest numeral of k.
func (f *Facts) FmtInt(k *Term, base int64) *Term {
	k = f.sub(k)
	if k.isInt() {
		return tStr(k.n.Text(int(base)))
	}
	raw := mk("fmtint", SSeq, "", bi(base), nil, k)
	kb := f.bounds(k)
	if kb.lo != nil && kb.lo.Sign() >= 0 && kb.hi != nil && digitsLen(kb.lo, base) == digitsLen(kb.hi, base) {
		return f.Digits(k, base, digitsLen(kb.lo, base))
	}
	if n, ok := f.sub(mk("len", SInt, "", nil, nil, raw)).i64(); ok && kb.lo != nil && kb.lo.Sign() >= 0 {
		return f.Digits(k, base, n)
	}
	return f.sub(raw)
}

// Digits is the numeral of k with exactly w digits.
func (f *Facts) Digits(k *Term, base, w int64) *Term {
	k = f.sub(k)
	kb := f.bounds(k)
	raw := mk("digits", SSeq, "", bi(base), nil, k, tI(w))
	if kb.lo == nil || kb.lo.Sign() < 0 || kb.hi == nil || kb.hi.Cmp(pow(base, w)) >= 0 {
		return raw
	}
	if k.isInt() {
		s := k.n.Text(int(base))
		return tStr(strings.Repeat("0", int(w)-len(s)) + s)
	}
	switch base {
	case 16:
		if w%2 == 0 {
			return f.HexEnc(f.Be(k, w/2))
		}
		if kb.hi.Cmp(pow(16, w-1)) < 0 {
			return f.Cat(tStr("0"), f.Digits(k, 16, w-1))
		}
		if w == 1 {
			if kb.hi.Cmp(bi(9)) <= 0 {
				return f.Unit(f.AddK(k, '0'))
			}
		}
	case 2:
		if w <= 700 {
			var out []*Term
			for i := w - 1; i >= 0; i-- {
				out = append(out, f.Unit(f.AddK(f.BitAt(k, i), '0')))
			}
			return f.Cat(out...)
		}
	case 10:
		if w == 1 {
			return f.Unit(f.AddK(k, '0'))
		}
	}
	return raw
}

// Parse is the number a numeral denotes.
func (f *Facts) Parse(base int64, s *Term) *Term {
	s = f.sub(s)
	switch s.op {
	case "str":
		if v, ok := new(big.Int).SetString(s.s, int(base)); ok {
			return tInt(v)
		}
	case "fmtint", "digits":
		if s.n.Int64() == base {
			return s.args[0]
		}
	}
	// leading zeros
	if ps := parts(s); len(ps) > 1 {
		if ps[0].op == "rep" && ps[0].s == "0" {
			return f.Parse(base, f.Cat(ps[1:]...))
		}
		if ps[0].op == "str" && allByte(ps[0].s, '0') {
			if base != 16 || len(ps[0].s)%2 == 0 || len(ps) == 2 && (ps[1].op == "fmtint" || ps[1].op == "digits") {
				return f.Parse(base, f.Cat(ps[1:]...))
			}
		}
	}
	if base == 16 && f.AllCls(s, hexCls) == tTrue {
		if f.Eq0(f.BitAt(f.Len(s), 0)) == tTrue {
			return f.FromBe(f.UnHex(s))
		}
		if n, ok := f.lenK(s); ok && n%2 == 1 {
			return f.FromBe(f.UnHex(f.Cat(tStr("0"), s)))
		}
	}
	// digit by digit
	if n, ok := f.lenK(s); ok && n <= 700 && n > 0 {
		r := newLin()
		good := true
		for i := int64(0); i < n && good; i++ {
			c := f.At(s, tI(i))
			b := f.bounds(c)
			top := base
			if top > 10 {
				top = 10
			}
			if b.lo == nil || b.lo.Cmp(bi('0')) < 0 || b.hi == nil || b.hi.Cmp(bi('0'+top-1)) > 0 {
				good = false
				break
			}
			r.addT(f.AddK(c, -'0'), pow(base, n-1-i))
		}
		if good {
			return f.Lin(r)
		}
	}
	return f.sub(mk("parse", SInt, "", bi(base), nil, s))
}

// ParseOk: SetString(s, base) accepts s.
func (f *Facts) ParseOk(base int64, s *Term) *Term {
	s = f.sub(s)
	if s.op == "str" {
		_, ok := new(big.Int).SetString(s.s, int(base))
		return tBool(ok)
	}
	n := f.Len(s)
	if n.isK(0) {
		return tFalse
	}
	if f.AllCls(s, digitCls(base)) == tTrue && f.ge(n, tI(1)) {
		return tTrue
	}
	return f.atomB(mk("parseok", SBool, "", bi(base), nil, s))
}

// Lower is strings.ToLower.
func (f *Facts) Lower(s *Term) *Term {
	s = f.sub(s)
	switch s.op {
	case "str":
		return tStr(strings.ToLower(s.s))
	case "hexenc", "digits", "fmtint":
		return s
	case "upper":
		if f.AllCls(s.args[0], asciiCls) == tTrue {
			return f.Lower(s.args[0])
		}
	}
	if f.HexOk(s) == tTrue {
		return f.HexEnc(f.UnHex(s))
	}
	if s.op == "cat" && f.AllCls(s, asciiCls) == tTrue {
		var r []*Term
		for _, p := range s.args {
			r = append(r, f.Lower(p))
		}
		return f.Cat(r...)
	}
	if s.op == "unit" {
		b := f.bounds(s.args[0])
		if b.lo != nil && b.hi != nil && (b.hi.Cmp(bi('A')) < 0 || b.lo.Cmp(bi('Z')) > 0 && b.hi.Cmp(bi(128)) < 0) {
			return s
		}
	}
	return f.sub(mk("lower", SSeq, "", nil, nil, s))
}

// Upper is strings.ToUpper.
func (f *Facts) Upper(s *Term) *Term {
	s = f.sub(s)
	if s.op == "str" {
		return tStr(strings.ToUpper(s.s))
	}
	if f.HexOk(s) == tTrue {
		s = f.HexEnc(f.UnHex(s))
	}
	if s.op == "cat" && f.AllCls(s, asciiCls) == tTrue {
		var r []*Term
		for _, p := range s.args {
			r = append(r, f.Upper(p))
		}
		return f.Cat(r...)
	}
	if s.op == "unit" {
		b := f.bounds(s.args[0])
		if b.lo != nil && b.hi != nil && b.hi.Cmp(bi('a')) < 0 {
			return s
		}
	}
	return f.sub(mk("upper", SSeq, "", nil, nil, s))
}

// Eqs is equality of byte sequences.
func (f *Facts) Eqs(a, b *Term) *Term {
	a, b = f.sub(a), f.sub(b)
	if a == b {
		return tTrue
	}
	if a.isStr() && b.isStr() {
		return tFalse
	}
	la, lb := f.Len(a), f.Len(b)
	d := f.Eq0(f.Sub(la, lb))
	if d == tFalse {
		return tFalse
	}
	if lb.isK(0) || la.isK(0) {
		return d
	}
	na, okA := la.i64()
	nb, okB := lb.i64()
	if okA != okB && (a.op != "cat" && b.op != "cat") {
		// a constant length on one side only: the lengths must agree, then byte by byte
		var n int64
		if okA {
			n = na
		} else {
			n = nb
		}
		if n <= 8 && (a.isStr() || b.isStr()) {
			r := []*Term{d}
			for i := int64(0); i < n; i++ {
				r = append(r, f.Eq0(f.Sub(f.At(a, tI(i)), f.At(b, tI(i)))))
			}
			return f.And(r...)
		}
	}
	if okA && okB {
		pa, pb := parts(a), parts(b)
		if len(pa) > 1 || len(pb) > 1 {
			// cut both at the union of their boundaries
			cuts := map[int64]bool{}
			for _, ps := range [][]*Term{pa, pb} {
				o := int64(0)
				for _, p := range ps {
					n, ok := f.lenK(p)
					if !ok {
						cuts = nil
						break
					}
					o += n
					cuts[o] = true
				}
				if cuts == nil {
					break
				}
			}
			if cuts != nil {
				var r []*Term
				prev := int64(0)
				for o := int64(1); o <= na; o++ {
					if !cuts[o] {
						continue
					}
					x, y := f.Slice(a, tI(prev), tI(o)), f.Slice(b, tI(prev), tI(o))
					if len(parts(x)) > 1 && x == a || len(parts(y)) > 1 && y == b {
						r = nil
						break
					}
					e := f.Eqs(x, y)
					if e == tFalse {
						return tFalse
					}
					r = append(r, e)
					prev = o
				}
				if r != nil {
					return f.And(r...)
				}
			}
		}
	} else {
		// strip equal ends
		pa, pb := parts(a), parts(b)
		i := 0
		for i < len(pa) && i < len(pb) && pa[i] == pb[i] {
			i++
		}
		j := 0
		for j < len(pa)-i && j < len(pb)-i && pa[len(pa)-1-j] == pb[len(pb)-1-j] {
			j++
		}
		if i+j > 0 {
			return f.Eqs(f.Cat(pa[i:len(pa)-j]...), f.Cat(pb[i:len(pb)-j]...))
		}
	}
	if a.op == "hexenc" && b.op == "hexenc" || a.op == "b58enc" && b.op == "b58enc" {
		return f.Eqs(a.args[0], b.args[0])
	}
	if a.isStr() {
		a, b = b, a
	}
	if b.isStr() {
		switch a.op {
		case "hexenc":
			v, err := hex.DecodeString(b.s)
			if err != nil || hex.EncodeToString(v) != b.s {
				return tFalse
			}
			return f.Eqs(a.args[0], tStr(string(v)))
		}
	}
	if okA && okB && na <= 8 && a.op != "hexenc" && b.op != "hexenc" && a.op != "var" && b.op != "var" || okA && okB && na <= 8 && b.isStr() {
		var r []*Term
		for i := int64(0); i < na; i++ {
			r = append(r, f.Eq0(f.Sub(f.At(a, tI(i)), f.At(b, tI(i)))))
		}
		return f.And(r...)
	}
	if a.op == "frombe" {
		_ = 0
	}
	if a.id > b.id {
		a, b = b, a
	}
	return f.atomB(mk("eqs", SBool, "", nil, nil, a, b))
}

// ---- lists of strings ----

// LLen is the length of a list.
func (f *Facts) LLen(l *Term) *Term {
	if l.op == "list" {
		return tI(int64(len(l.args)))
	}
	return f.sub(mk("llen", SInt, "", nil, nil, l))
}

// Elem is element i of a list.
func (f *Facts) Elem(l, i *Term) *Term {
	l, i = f.sub(l), f.sub(i)
	if l.op == "list" {
		if k, ok := i.i64(); ok && k >= 0 && k < int64(len(l.args)) {
			return l.args[k]
		}
	}
	if i.op == "idxof" && i.args[0] == l && f.bools[mk("in", SBool, "", nil, nil, l, i.args[1])] {
		return i.args[1]
	}
	return f.sub(mk("elem", SSeq, "", nil, nil, l, i))
}

// List is a list of known length.
func (f *Facts) List(e ...*Term) *Term { return mk("list", SList, "", nil, nil, e...) }

// Split is strings.Split(s, sep).
func (f *Facts) Split(s, sep *Term) *Term {
	s = f.sub(s)
	if s.isStr() && sep.isStr() && sep.s != "" {
		var r []*Term
		for _, x := range strings.Split(s.s, sep.s) {
			r = append(r, tStr(x))
		}
		return f.List(r...)
	}
	if sep.isStr() && len(sep.s) == 1 {
		// words known to be free of the separator
		var r []*Term
		var cur []*Term
		ok := true
		for _, p := range parts(s) {
			switch {
			case p.isStr():
				for i, x := range strings.Split(p.s, sep.s) {
					if i > 0 {
						r = append(r, f.Cat(cur...))
						cur = nil
					}
					cur = append(cur, tStr(x))
				}
			case p.op == "elem" && f.bools[mk("nosep", SBool, sep.s, nil, nil, p.args[0])],
				p.op == "hexenc", p.op == "b58enc", p.op == "digits", p.op == "fmtint":
				cur = append(cur, p)
			default:
				ok = false
			}
		}
		if ok {
			r = append(r, f.Cat(cur...))
			return f.List(r...)
		}
	}
	return f.sub(mk("split", SList, "", nil, nil, s, sep))
}
