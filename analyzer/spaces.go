package main

// The input spaces of the exported operations.

import (
	"fmt"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// In carries the named inputs of a scenario.
type In struct {
	wif, hexa, mn, pass *Term // text inputs
	net                 Val   // network argument
	net2                Val
	k1, k2              *Term // scalars
	x1, y1, x2, y2      *Term
	comp                *Term
	words               *Term
	n                   int64 // word count, when fixed
	list                *Term
	listOK              bool
	secret              []*Term // secret inputs
	kind                string
}

type visit func(c *Scen, in *In, outs []*Out)

type netv struct {
	name string
	mk   func(c *Scen) Val
}

// nets are the networks an operation is analysed with.
func (s *Session) nets() []netv {
	r := []netv{{"any network", func(c *Scen) Val { return c.network("net") }}}
	for _, g := range []string{"MainNetwork", "TestNetwork"} {
		g := g
		r = append(r, netv{g, func(c *Scen) Val {
			gl, ok := s.p.pkg.Members[g].(*ssa.Global)
			if !ok {
				c.ok = false
				return Nil{}
			}
			return c.st.load(s.x.globalPtr(c.st, gl).(Ptr))
		}})
	}
	return r
}

// netField is a field of a network.
func (c *Scen) netField(st *State, net Val, name string) *Term {
	p, ok := net.(Ptr)
	if !ok {
		return nil
	}
	t, _ := st.load(p.field(fieldIdx(c.s.typ("Network"), name))).(*Term)
	if t == nil {
		return nil
	}
	return st.f.renorm(t)
}

func (s *Session) wifCases(mk func(c *Scen) *Term, each func(c *Scen, w *Term)) {
	c := s.scen("text that is not Base58")
	w := mk(c)
	c.assume(c.f().Not(c.f().B58Ok(w)))
	each(c, w)
	type rng struct {
		n      string
		lo, hi *big.Int
	}
	var rs []rng
	for i := int64(0); i <= 40; i++ {
		rs = append(rs, rng{fmt.Sprintf("Base58 of %d bytes", i), bi(i), bi(i)})
	}
	rs = append(rs, rng{"Base58 of more than 40 bytes", bi(41), maxArg})
	for _, r := range rs {
		c := s.scen(r.n)
		w := mk(c)
		c.assume(c.f().B58Ok(w))
		c.between(c.f().Len(c.f().B58Dec(w)), r.lo, r.hi)
		each(c, w)
	}
}

func (s *Session) ops() map[string]func(v visit) {
	x := s.x
	m := map[string]func(v visit){}
	text := func(name string) func(c *Scen) *Term {
		return func(c *Scen) *Term {
			t := tVar(SSeq, name)
			c.between(c.f().Len(t), big0, maxArg)
			return t
		}
	}
	add := func(name string, f func(fn *ssa.Function, v visit)) {
		fn := x.fn(name)
		if fn == nil {
			return
		}
		m[name] = func(v visit) { f(fn, v) }
	}

	add("CheckWIF", func(fn *ssa.Function, v visit) {
		s.wifCases(text("wif"), func(c *Scen, w *Term) {
			in := &In{wif: w, secret: []*Term{w}}
			v(c, in, c.call(fn, w))
		})
	})
	add("PrivateFromWIF", func(fn *ssa.Function, v visit) {
		for _, n := range s.nets() {
			n := n
			s.wifCases(text("wif"), func(c *Scen, w *Term) {
				c.name += ", " + n.name
				net := n.mk(c)
				in := &In{wif: w, net: net, secret: []*Term{w}}
				v(c, in, c.call(fn, w, net))
			})
		}
	})
	add("PrivateFromHex", func(fn *ssa.Function, v visit) {
		for _, n := range s.nets() {
			for _, r := range []struct {
				n      string
				lo, hi int64
			}{{"empty text", 0, 0}, {"text shorter than 64", 1, 63}, {"text of 64", 64, 64}, {"text of 65", 65, 65}, {"text of 66", 66, 66}, {"text longer than 66", 67, 1 << 40}} {
				c := s.scen(r.n + ", " + n.name)
				h := text("hexa")(c)
				c.between(c.f().Len(h), bi(r.lo), bi(r.hi))
				net := n.mk(c)
				in := &In{hexa: h, net: net, secret: []*Term{h}}
				v(c, in, c.call(fn, h, net))
			}
		}
	})
	add("GeneratePrivateKey", func(fn *ssa.Function, v visit) {
		for _, n := range s.nets() {
			c := s.scen(n.name)
			net := n.mk(c)
			in := &In{net: net}
			v(c, in, c.call(fn, net))
		}
	})
	pair := func(priv bool, each func(c *Scen, in *In, a, b Ptr)) {
		ns := s.nets()
		mkKey := func(c *Scen, name string, net Val, in *In, first bool) Ptr {
			if priv {
				p, k := c.privKey(name, net)
				in.secret = append(in.secret, tVar(SSeq, name+".Hex"), tVar(SSeq, name+".WIF"))
				if first {
					in.k1 = k
				} else {
					in.k2 = k
				}
				return p
			}
			p, xx, yy := c.pubKey(name, net)
			if first {
				in.x1, in.y1 = xx, yy
			} else {
				in.x2, in.y2 = xx, yy
			}
			return p
		}
		{
			c := s.scen("two keys, two network objects")
			in := &In{net: c.network("net1"), net2: c.network("net2")}
			a := mkKey(c, "p1", in.net, in, true)
			b := mkKey(c, "p2", in.net2, in, false)
			each(c, in, a, b)
		}
		for i := range ns {
			c := s.scen("two keys, same network object: " + ns[i].name)
			n := ns[i].mk(c)
			in := &In{net: n, net2: n}
			a := mkKey(c, "p1", n, in, true)
			b := mkKey(c, "p2", n, in, false)
			each(c, in, a, b)
		}
		for i := range ns {
			for j := range ns {
				if i == j || i+j < 3 && i*j != 0 {
					continue
				}
				c := s.scen("two keys: " + ns[i].name + " and " + ns[j].name)
				in := &In{net: ns[i].mk(c)}
				in.net2 = ns[j].mk(c)
				a := mkKey(c, "p1", in.net, in, true)
				b := mkKey(c, "p2", in.net2, in, false)
				each(c, in, a, b)
			}
		}
		{
			c := s.scen("the same key object twice")
			n := c.network("net")
			in := &In{net: n, net2: n}
			a := mkKey(c, "p1", n, in, true)
			in.k2, in.x2, in.y2 = in.k1, in.x1, in.y1
			each(c, in, a, a)
		}
		{
			c := s.scen("equal values in two key objects")
			n := c.network("net")
			in := &In{net: n, net2: n}
			a := mkKey(c, "p1", n, in, true)
			b := mkKey(c, "p1", n, in, false)
			each(c, in, a, b)
		}
	}
	for _, name := range []string{"AddPrivateKeys", "MultiplyPrivateKeys"} {
		add(name, func(fn *ssa.Function, v visit) {
			pair(true, func(c *Scen, in *In, a, b Ptr) { v(c, in, c.call(fn, a, b)) })
		})
	}
	add("AddPublicKeys", func(fn *ssa.Function, v visit) {
		pair(false, func(c *Scen, in *In, a, b Ptr) {
			in.comp = tVar(SBool, "compressed")
			v(c, in, c.call(fn, a, b, in.comp))
		})
		// mutually inverse points
		c := s.scen("a key and its inverse")
		n := c.network("net")
		in := &In{net: n, net2: n, comp: tVar(SBool, "compressed")}
		a, xx, yy := c.pubKey("p1", n)
		in.x1, in.y1, in.x2, in.y2 = xx, yy, xx, c.f().Sub(tInt(curveP), yy)
		b := c.object(s.typ("PublicKey"), "p2", map[string]Val{"X": c.bigArg(in.x2, "p2.X"), "Y": c.bigArg(in.y2, "p2.Y"), "Network": n})
		in.kind = "inverse"
		v(c, in, c.call(fn, a, b, in.comp))
	})
	add("(*PrivateKey).GetPublicKey", func(fn *ssa.Function, v visit) {
		for _, n := range s.nets() {
			c := s.scen("well-formed key, " + n.name)
			net := n.mk(c)
			p, k := c.privKey("p", net)
			v(c, &In{net: net, k1: k, kind: "valid", secret: []*Term{tVar(SSeq, "p.Hex"), tVar(SSeq, "p.WIF")}}, c.call(fn, p))
		}
		nm := new(big.Int).Sub(curveN, big1)
		for _, r := range []struct {
			n      string
			lo, hi *big.Int
			ok     string
		}{{"scalar 1", big1, big1, "valid"}, {"scalar 2", bi(2), bi(2), "valid"}, {"scalar n-1", nm, nm, "valid"}, {"scalar n-2", new(big.Int).Sub(nm, big1), new(big.Int).Sub(nm, big1), "valid"},
			{"scalar 0", big0, big0, "range"}, {"scalar n", curveN, curveN, "range"}, {"negative scalar", nil, bi(-1), "range"}, {"scalar above n", new(big.Int).Add(curveN, big1), nil, "range"}} {
			c := s.scen(r.n)
			net := c.network("net")
			k := tVar(SInt, "k")
			if r.lo != nil && r.hi != nil {
				k = tInt(r.lo)
			} else {
				c.between(k, r.lo, r.hi)
			}
			p := c.object(s.typ("PrivateKey"), "p", map[string]Val{"Key": c.bigArg(k, "p.Key"), "Hex": tVar(SSeq, "p.Hex"), "WIF": tVar(SSeq, "p.WIF"), "Network": net})
			v(c, &In{net: net, k1: k, kind: r.ok, secret: []*Term{tVar(SInt, "k"), tVar(SSeq, "p.Hex"), tVar(SSeq, "p.WIF")}}, c.call(fn, p))
		}
	})
	add("PublicFromHex", func(fn *ssa.Function, v visit) {
		for _, n := range s.nets() {
			for _, r := range []struct {
				n      string
				lo, hi int64
			}{{"empty text", 0, 0}, {"text of 1", 1, 1}, {"text of 2", 2, 2}, {"text of 3 to 65", 3, 65}, {"text of 66", 66, 66}, {"text of 67 to 129", 67, 129}, {"text of 130", 130, 130}, {"text of more than 130", 131, 1 << 40}} {
				if r.lo == r.hi && r.lo >= 66 {
					for _, pre := range []string{"02", "03", "04", "06", "07", "00", "0?", "??"} {
						nm := "prefix " + pre
						c := s.scen(r.n + ", " + nm + ", " + n.name)
						h := text("hexa")(c)
						c.between(c.f().Len(h), bi(r.lo), bi(r.hi))
						p2 := c.f().Slice(h, tI(0), tI(2))
						switch pre {
						case "0?":
							c.assume(c.f().EqI(c.f().At(h, tI(0)), tI('0')))
							for _, o := range "023467" {
								c.assume(c.f().Not(c.f().EqI(c.f().At(h, tI(1)), tI(int64(o)))))
							}
						case "??":
							c.assume(c.f().Not(c.f().EqI(c.f().At(h, tI(0)), tI('0'))))
						default:
							c.assume(c.f().Eqs(p2, tStr(pre)))
						}
						net := n.mk(c)
						v(c, &In{hexa: h, net: net, kind: pre, n: r.lo}, c.call(fn, h, net))
					}
					continue
				}
				c := s.scen(r.n + ", " + n.name)
				h := text("hexa")(c)
				c.between(c.f().Len(h), bi(r.lo), bi(r.hi))
				net := n.mk(c)
				v(c, &In{hexa: h, net: net}, c.call(fn, h, net))
			}
		}
	})
	for _, name := range []string{"(*PublicKey).Format", "(*PublicKey).Address"} {
		add(name, func(fn *ssa.Function, v visit) {
			for _, n := range s.nets() {
				for _, comp := range []bool{true, false} {
					c := s.scen(fmt.Sprintf("compressed=%v, %s", comp, n.name))
					net := n.mk(c)
					p, xx, yy := c.pubKey("p", net)
					v(c, &In{net: net, x1: xx, y1: yy, comp: tBool(comp)}, c.call(fn, p, tBool(comp)))
				}
			}
		})
	}
	counts := []int64{12, 15, 18, 21, 24}
	lists := func(each func(c *Scen, l Val, w *Term, ok bool)) {
		for _, r := range []struct {
			n      string
			lo, hi int64
		}{{"a list of 2048 words", 2048, 2048}, {"a list of 1 to 2047 words", 1, 2047}, {"an empty list", 0, 0}, {"a list of more than 2048 words", 2049, 1 << 40}} {
			c := s.scen(r.n)
			l, w := c.wordlist("list")
			c.between(c.f().LLen(w), bi(r.lo), bi(r.hi))
			if sl, ok := l.(SliceV); ok {
				n := c.f().LLen(w)
				sl.ln, sl.cap = n, n
				l = sl
			}
			c.assume(mk("nonempty", SBool, "", nil, nil, w))
			if s.uniqLists {
				c.assume(mk("uniq", SBool, "", nil, nil, w), mk("nosep", SBool, " ", nil, nil, w))
			}
			each(c, l, w, r.lo == 2048)
		}
		c := s.scen("a nil list")
		each(c, Nil{}, c.f().List(), false)
	}
	add("NewMnemonic", func(fn *ssa.Function, v visit) {
		lists(func(c0 *Scen, l Val, w *Term, ok bool) {
			for _, n := range counts {
				c := c0.with(fmt.Sprintf("%d words", n))
				v(c, &In{words: tI(n), n: n, list: w, listOK: ok}, c.call(fn, tI(n), l))
			}
			c := c0.with("another count")
			n := c.generic(fn.Params[0].Type(), "words").(*Term)
			for _, k := range counts {
				c.assume(c.f().Not(c.f().EqI(n, tI(k))))
			}
			v(c, &In{words: n, list: w, listOK: ok}, c.call(fn, n, l))
		})
	})
	add("NewSeedFromMnemonic", func(fn *ssa.Function, v visit) {
		lists(func(c0 *Scen, l Val, w *Term, ok bool) {
			mn := tVar(SSeq, "mnemonic")
			pass := tVar(SSeq, "passphrase")
			sec := []*Term{mn, pass}
			run := func(c *Scen, n int64) {
				c.between(c.f().Len(mn), big0, maxArg)
				c.assume(mk("uniq", SBool, "", nil, nil, w), mk("nosep", SBool, " ", nil, nil, w))
				v(c, &In{mn: mn, pass: pass, list: w, listOK: ok, n: n, secret: sec}, c.call(fn, mn, pass, l))
			}
			for _, n := range counts {
				c := c0.with(fmt.Sprintf("%d words", n))
				c.assume(c.f().EqI(c.f().LLen(c.f().Split(mn, tStr(" "))), tI(n)))
				run(c, n)
			}
			c := c0.with("another count")
			n := c.f().LLen(c.f().Split(mn, tStr(" ")))
			c.between(n, big1, maxArg)
			for _, k := range counts {
				c.assume(c.f().Not(c.f().EqI(n, tI(k))))
			}
			run(c, 0)
		})
	})
	// anything else that is exported
	for _, fn := range x.exported() {
		fn := fn
		if _, ok := m[fn.RelString(x.pkg.Pkg)]; ok {
			continue
		}
		m[fn.RelString(x.pkg.Pkg)] = func(v visit) {
			c := s.scen("any arguments")
			var as []Val
			in := &In{kind: "generic"}
			for i, p := range fn.Params {
				as = append(as, c.generic(p.Type(), fmt.Sprintf("arg%d", i)))
			}
			v(c, in, c.call(fn, as...))
		}
	}
	return m
}
