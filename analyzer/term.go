package main

// Value numbering: every abstract value is a hash-consed term. Terms are kept in a
// canonical form by the smart constructors in build.go, so that two pieces of code
// that compute the same thing in different ways get the same value number.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"
)

// Sort is the kind of thing a term denotes.
type Sort uint8

// The sorts: mathematical integers, truth values, byte sequences (Go strings, byte
// slices and byte arrays), sequences of strings, and points of the curve.
const (
	SInt Sort = iota
	SBool
	SSeq
	SList
	SPt
)

// Term is an immutable, hash-consed value number.
type Term struct {
	id   int
	op   string
	sort Sort
	args []*Term
	cs   []*big.Int // coefficients of "lin"
	n    *big.Int   // integer payload
	s    string     // text payload
	b    bool
}

var (
	termTab = map[string]*Term{}
	termCnt int
)

func bi(x int64) *big.Int { return big.NewInt(x) }

var (
	big0 = bi(0)
	big1 = bi(1)
	big2 = bi(2)
)

// deadline is when the analysis at hand gives up; mk looks at the clock now and then.
var (
	deadline time.Time
	ticks    int
)

func tick() {
	if ticks++; ticks&1023 == 0 && !deadline.IsZero() && time.Now().After(deadline) {
		panic(tooBig{"time limit"})
	}
}

// within runs f with at most d of time left.
func within(d time.Duration, f func()) {
	old := deadline
	defer func() { deadline = old }()
	if t := time.Now().Add(d); old.IsZero() || t.Before(old) {
		deadline = t
	}
	f()
}

func mk(op string, sort Sort, s string, n *big.Int, cs []*big.Int, args ...*Term) *Term {
	tick()
	var k strings.Builder
	k.WriteString(op)
	k.WriteByte('|')
	k.WriteByte(byte('0' + sort))
	k.WriteString(s)
	k.WriteByte('|')
	if n != nil {
		k.WriteString(n.Text(62))
	}
	for i, a := range args {
		k.WriteByte('|')
		if cs != nil {
			k.WriteString(cs[i].Text(62))
			k.WriteByte('*')
		}
		fmt.Fprintf(&k, "%x", a.id)
	}
	key := k.String()
	if t, ok := termTab[key]; ok {
		return t
	}
	termCnt++
	t := &Term{id: termCnt, op: op, sort: sort, s: s, n: n, cs: cs, args: args}
	termTab[key] = t
	return t
}

func tInt(n *big.Int) *Term { return mk("int", SInt, "", new(big.Int).Set(n), nil) }
func tI(n int64) *Term      { return tInt(bi(n)) }
func tStr(s string) *Term   { return mk("str", SSeq, s, nil, nil) }

var (
	tTrue  = mkBool("true")
	tFalse = mkBool("false")
)

func mkBool(s string) *Term { t := mk("bool", SBool, s, nil, nil); t.b = s == "true"; return t }
func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

// tVar is a named unknown.
func tVar(sort Sort, name string) *Term {
	if varPrefix != "" && name != "" && name[0] != '%' {
		name = varPrefix + name
	}
	return mk("var", sort, name, nil, nil)
}

// opq is an uninterpreted function application.
func opq(sort Sort, name string, args ...*Term) *Term {
	return mk("opq", sort, name, nil, nil, args...)
}

func (t *Term) isInt() bool { return t.op == "int" }
func (t *Term) isStr() bool { return t.op == "str" }

// isK reports whether t is the integer constant k.
func (t *Term) isK(k int64) bool { return t.op == "int" && t.n.IsInt64() && t.n.Int64() == k }

func (t *Term) i64() (int64, bool) {
	if t.op == "int" && t.n.IsInt64() {
		return t.n.Int64(), true
	}
	return 0, false
}

// has reports whether f holds for t or a subterm.
func (t *Term) has(f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		for _, a := range t.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

func (t *Term) contains(x *Term) bool { return t.has(func(y *Term) bool { return y == x }) }

func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	switch t.op {
	case "int":
		for _, k := range niceConsts() {
			if k.v.Cmp(t.n) == 0 {
				return k.name
			}
			df := new(big.Int).Sub(t.n, k.v)
			if df.IsInt64() && df.Int64() >= -3 && df.Int64() <= 3 {
				return fmt.Sprintf("%s%+d", k.name, df.Int64())
			}
		}
		if t.n.BitLen() > 40 {
			if p := new(big.Int).Abs(t.n); p.BitLen()-1 == int(p.TrailingZeroBits()) {
				return fmt.Sprintf("%s2^%d", map[bool]string{true: "-", false: ""}[t.n.Sign() < 0], p.BitLen()-1)
			}
			return fmt.Sprintf("0x%x", t.n)
		}
		return t.n.String()
	case "bool":
		return t.s
	case "str":
		if len(t.s) > 70 {
			return fmt.Sprintf("%q...", t.s[:70])
		}
		return fmt.Sprintf("%q", t.s)
	case "var":
		return t.s
	}
	if d == 0 {
		return "…"
	}
	if t.op == "lin" {
		var p []string
		for i, a := range t.args {
			if i >= 5 {
				p = append(p, fmt.Sprintf("…(%d terms)", len(t.args)))
				break
			}
			c := t.cs[i]
			switch {
			case c.Cmp(big1) == 0:
				p = append(p, a.str(d-1))
			case c.Cmp(bi(-1)) == 0:
				p = append(p, "-"+a.str(d-1))
			default:
				p = append(p, tInt(c).str(1)+"*"+a.str(d-1))
			}
		}
		if t.n.Sign() != 0 {
			p = append(p, tInt(t.n).str(1))
		}
		return "(" + strings.Join(p, " + ") + ")"
	}
	name := t.op
	if t.s != "" {
		name += ":" + t.s
	}
	if t.n != nil {
		name += "#" + t.n.String()
	}
	var p []string
	for i, a := range t.args {
		if i >= 8 {
			p = append(p, fmt.Sprintf("…(%d)", len(t.args)))
			break
		}
		p = append(p, a.str(d-1))
	}
	return name + "(" + strings.Join(p, ", ") + ")"
}

type namedConst struct {
	name string
	v    *big.Int
}

var niceTab []namedConst

func niceConsts() []namedConst {
	if niceTab == nil {
		niceTab = []namedConst{{"n", curveN}, {"p", curveP}}
	}
	return niceTab
}

func hexInt(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return v
}

// secp256k1, from SEC 2.
var (
	curveP  = hexInt("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F")
	curveN  = hexInt("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141")
	curveGX = hexInt("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798")
	curveGY = hexInt("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8")
)

// ---- linear forms ----

type lin struct {
	m map[*Term]*big.Int
	k *big.Int
}

func newLin() *lin { return &lin{map[*Term]*big.Int{}, new(big.Int)} }

func linOf(t *Term) *lin {
	l := newLin()
	l.addT(t, big1)
	return l
}

func (l *lin) addT(t *Term, c *big.Int) {
	switch t.op {
	case "int":
		l.k.Add(l.k, new(big.Int).Mul(c, t.n))
	case "lin":
		l.k.Add(l.k, new(big.Int).Mul(c, t.n))
		for i, a := range t.args {
			l.addA(a, new(big.Int).Mul(c, t.cs[i]))
		}
	default:
		l.addA(t, c)
	}
}

func (l *lin) addA(a *Term, c *big.Int) {
	v, ok := l.m[a]
	if !ok {
		v = new(big.Int)
	}
	v = new(big.Int).Add(v, c)
	if v.Sign() == 0 {
		delete(l.m, a)
	} else {
		l.m[a] = v
	}
}

func (l *lin) atoms() []*Term {
	r := make([]*Term, 0, len(l.m))
	for a := range l.m {
		r = append(r, a)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func (l *lin) term() *Term {
	if len(l.m) == 0 {
		return tInt(l.k)
	}
	as := l.atoms()
	if len(as) == 1 && l.k.Sign() == 0 && l.m[as[0]].Cmp(big1) == 0 {
		return as[0]
	}
	cs := make([]*big.Int, len(as))
	for i, a := range as {
		cs[i] = l.m[a]
	}
	return mk("lin", SInt, "", new(big.Int).Set(l.k), cs, as...)
}
