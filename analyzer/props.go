package main

// The properties: what the outcomes of the exported operations are compared with.

import (
	"embed"
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var nMinus1 = new(big.Int).Sub(curveN, big1)
var pMinus1 = new(big.Int).Sub(curveP, big1)

func (f *Facts) within(t *Term, lo, hi *big.Int) *Term {
	return f.And(f.Ge0(f.Sub(t, tInt(lo))), f.Ge0(f.Sub(tInt(hi), t)))
}

func sha2x(t *Term) *Term { return hashTerm("sha256", hashTerm("sha256", t)) }

func (f *Facts) checked(t *Term) *Term {
	return f.B58Enc(f.Cat(t, f.Slice(sha2x(t), tI(0), tI(4))))
}

// each runs the listed operations; a missing one is a violation of its property.
func (s *Session) each(names []string, v func(name string) visit) {
	ops := s.ops()
	for _, n := range names {
		op, ok := ops[n]
		if !ok {
			s.ob("the operation exists", n, "", false, "exported operation not found", "")
			continue
		}
		s.guard(n, func() { op(v(n)) })
	}
}

// guard turns an analysis that grows too big into an undecided obligation.
func (s *Session) guard(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			tb, ok := r.(tooBig)
			if !ok {
				panic(r)
			}
			s.x.stack = nil
			s.obs = append(s.obs, &Ob{Rule: "the analysis stays within its limits", Func: what, Status: "undecided", Detail: tb.msg})
		}
	}()
	within(s.opTime(), f)
}

// opTime is the time one operation may take: a fair part of what the property has left.
func (s *Session) opTime() time.Duration {
	d := time.Until(s.end) / 3
	if d < 5*time.Second {
		d = 5 * time.Second
	}
	return d
}

var privCtors = []string{"PrivateFromHex", "PrivateFromWIF", "GeneratePrivateKey", "AddPrivateKeys", "MultiplyPrivateKeys"}
var pubCtors = []string{"PublicFromHex", "(*PrivateKey).GetPublicKey", "AddPublicKeys"}

// privOf returns the private key of a succeeding outcome.
func privOf(o *Out) (Val, bool) {
	if o.vals == nil || len(o.vals) == 0 || isNilV(o.vals[0]) {
		return nil, false
	}
	if len(o.vals) > 1 && o.failed() == 1 {
		return nil, false
	}
	return o.vals[0], true
}

func propC01(s *Session) {
	s.each(privCtors, func(name string) visit {
		return func(c *Scen, in *In, outs []*Out) {
			for _, o := range outs {
				v, ok := privOf(o)
				if !ok {
					continue
				}
				f := o.st.f
				k := o.bigOf(o.field(v, "PrivateKey", "Key"))
				if !o.ob("a returned key has a scalar", k != nil, "Key is "+showVal(o.st, o.field(v, "PrivateKey", "Key"))) {
					continue
				}
				o.ob("1 <= scalar <= n-1", f.implied(f.within(k, big1, nMinus1)), "Key = "+showT(k))
				h := o.strOf(o.field(v, "PrivateKey", "Hex"))
				if !o.ob("a returned key has a hex form", h != nil, "") {
					continue
				}
				o.ob("hex form has 64 digits", f.implied(f.EqI(f.Len(h), tI(64))) && f.implied(f.HexOk(h)), "Hex = "+showT(h))
				o.same("hex form denotes the scalar", f.FromBe(f.UnHex(h)), k)
			}
		}
	})
}

func propC02(s *Session) {
	s.each([]string{"PrivateFromHex", "GeneratePrivateKey", "AddPrivateKeys", "MultiplyPrivateKeys"}, func(name string) visit {
		return func(c *Scen, in *In, outs []*Out) {
			for _, o := range outs {
				v, ok := privOf(o)
				if !ok {
					continue
				}
				f := o.st.f
				k := o.bigOf(o.field(v, "PrivateKey", "Key"))
				w := o.strOf(o.field(v, "PrivateKey", "WIF"))
				if !o.ob("a returned key has a scalar and a WIF", k != nil && w != nil, "") {
					continue
				}
				pre := f.UnHex(c.netField(o.st, in.net, "PrivKeyPrefix"))
				o.same("WIF = Base58(version, 32 bytes of scalar, checksum)", w, f.checked(f.Cat(pre, f.Be(k, 32))))
			}
		}
	})
}

func wifValid(w *Term) []named {
	return []named{
		{"the text is Base58", func(f *Facts) *Term { return f.B58Ok(w) }},
		{"it decodes to 4 bytes or more", func(f *Facts) *Term { return f.Ge0(f.AddK(f.Len(f.B58Dec(w)), -4)) }},
		{"the checksum is right", func(f *Facts) *Term {
			d := f.B58Dec(w)
			l := f.Len(d)
			return f.Eqs(f.Slice(d, f.AddK(l, -4), l), f.Slice(sha2x(f.Slice(d, tI(0), f.AddK(l, -4))), tI(0), tI(4)))
		}},
	}
}

func propC03(s *Session) {
	s.each([]string{"CheckWIF"}, func(name string) visit {
		return func(c *Scen, in *In, outs []*Out) {
			for _, o := range outs {
				if o.ex != nil {
					o.end("an answer is given")
					continue
				}
				r, ok := o.vals[0].(*Term)
				if !o.ob("the answer is known", ok && r.sort == SBool, showVal(o.st, o.vals[0])) {
					continue
				}
				for _, g := range o.st.f.split(r) {
					if g = g.saturate(); g == nil {
						continue
					}
					for _, v := range wifValid(in.wif) {
						// later conditions presuppose the earlier ones
						t := v.t(g)
						if !o.ob("true only if "+v.n, g.implied(t), "answer "+showT(r)) {
							break
						}
					}
				}
				for _, g := range o.st.f.split(o.st.f.Not(r)) {
					cur := []*Facts{g}
					for _, v := range wifValid(in.wif) {
						var next []*Facts
						for _, h := range cur {
							next = append(next, h.split(v.t(h))...)
						}
						cur = next
					}
					good := true
					for _, h := range cur {
						if h.saturate() != nil {
							good = false
						}
					}
					o.ob("false only if one condition fails", good, "answer "+showT(r))
				}
			}
		}
	})
}

func propC04(s *Session) {
	s.each([]string{"PrivateFromWIF"}, func(name string) visit {
		return func(c *Scen, in *In, outs []*Out) {
			valid := append(wifValid(in.wif),
				named{"the payload is 33 bytes, or 34 ending in 01", func(f *Facts) *Term {
					d := f.B58Dec(in.wif)
					l := f.Len(d)
					if k, ok := l.i64(); ok {
						switch k {
						case 37:
							return tTrue
						case 38:
							return f.EqI(f.At(d, tI(33)), tI(1))
						}
						return tFalse
					}
					return f.Or(f.EqI(l, tI(37)), f.And(f.EqI(l, tI(38)), f.EqI(f.At(d, tI(33)), tI(1))))
				}},
				named{"the version byte is the network's", func(f *Facts) *Term {
					d := f.B58Dec(in.wif)
					return f.Eqs(f.Slice(d, tI(0), tI(1)), f.UnHex(c.netField(c.st, in.net, "PrivKeyPrefix")))
				}},
				named{"the scalar is in [1,n-1]", func(f *Facts) *Term {
					return f.within(f.FromBe(f.Slice(f.B58Dec(in.wif), tI(1), tI(33))), big1, nMinus1)
				}})
			for _, o := range outs {
				if o.ex != nil {
					o.end("a result or an error is returned")
					continue
				}
				if !o.exact("WIF import", valid) {
					continue
				}
				if o.failed() == 1 {
					o.ob("no key with an error", isNilV(o.vals[0]), "")
					continue
				}
				v, ok := privOf(o)
				if !o.ob("a key is returned", ok, "") {
					continue
				}
				f := o.st.f
				o.same("scalar = the 32 bytes of the payload", o.bigOf(o.field(v, "PrivateKey", "Key")), f.FromBe(f.Slice(f.B58Dec(in.wif), tI(1), tI(33))))
				o.same("WIF = the given text", o.strOf(o.field(v, "PrivateKey", "WIF")), in.wif)
				o.sameNet("network = the one asked for", o.field(v, "PrivateKey", "Network"), in.net)
			}
		}
	})
}

// sameNet checks that a network is one of those given: the same object, or one with
// equal parameters.
func (o *Out) sameNet(rule string, got Val, want ...Val) bool {
	ok := false
	for _, w := range want {
		if got == w {
			ok = true
			break
		}
		t, k := o.sc.s.x.deepEq(o.st, got, w, 0)
		if k && o.st.f.implied(t) {
			ok = true
			break
		}
	}
	return o.ob(rule, ok, "Network is "+showVal(o.st, got))
}

func propC05(s *Session) {
	s.each([]string{"PrivateFromHex"}, func(name string) visit {
		return func(c *Scen, in *In, outs []*Out) {
			valid := []named{
				{"the text has 64 characters", func(f *Facts) *Term { return f.EqI(f.Len(in.hexa), tI(64)) }},
				{"all are hex digits", func(f *Facts) *Term { return f.HexOk(in.hexa) }},
				{"the value is in [1,n-1]", func(f *Facts) *Term { return f.within(f.FromBe(f.UnHex(in.hexa)), big1, nMinus1) }},
			}
			for _, o := range outs {
				if o.ex != nil {
					o.end("a result or an error is returned")
					continue
				}
				if !o.exact("hex import", valid) {
					continue
				}
				if o.failed() == 1 {
					o.ob("no key with an error", isNilV(o.vals[0]), "")
					continue
				}
				v, ok := privOf(o)
				if !o.ob("a key is returned", ok, "") {
					continue
				}
				o.same("scalar = the value of the text", o.bigOf(o.field(v, "PrivateKey", "Key")), o.st.f.FromBe(o.st.f.UnHex(in.hexa)))
			}
		}
	})
}

// netsEqual says that two networks have the same parameters.
func (c *Scen) netsEqual(in *In) named {
	return named{"the networks have the same parameters", func(f *Facts) *Term {
		st := c.st.with(f)
		t, ok := c.s.x.deepEq(st, in.net, in.net2, 0)
		if !ok {
			return opq(SBool, "networks equal")
		}
		return t
	}}
}

func propC06(s *Session) {
	s.each([]string{"AddPrivateKeys", "MultiplyPrivateKeys"}, func(name string) visit {
		return func(c *Scen, in *In, outs []*Out) {
			res := func(f *Facts) *Term {
				if name == "AddPrivateKeys" {
					return f.Mod(f.Add(in.k1, in.k2), tInt(curveN))
				}
				return f.Mod(f.Mul(in.k1, in.k2), tInt(curveN))
			}
			valid := []named{
				c.netsEqual(in),
				{"the scalars differ", func(f *Facts) *Term { return f.Not(f.EqI(in.k1, in.k2)) }},
				{"the result is not 0", func(f *Facts) *Term { return f.Not(f.EqI(res(f), tI(0))) }},
			}
			for _, o := range outs {
				if o.ex != nil {
					o.end("a result or an error is returned")
					continue
				}
				if !o.exact(name, valid) {
					continue
				}
				if o.failed() == 1 {
					o.ob("no key with an error", isNilV(o.vals[0]), "")
					continue
				}
				v, ok := privOf(o)
				if !o.ob("a key is returned", ok, "") {
					continue
				}
				o.same("scalar = result modulo n", o.bigOf(o.field(v, "PrivateKey", "Key")), res(o.st.f))
			}
		}
	})
}

func propC07(s *Session) {
	do := func(typ string, names []string) {
		s.each(names, func(name string) visit {
			return func(c *Scen, in *In, outs []*Out) {
				for _, o := range outs {
					v, ok := privOf(o)
					if !ok {
						continue
					}
					if len(o.vals) > 1 && o.failed() != -1 {
						continue
					}
					if in.net2 != nil {
						n := c.netsEqual(in)
						t := n.t(o.st.f)
						o.ob("combined only if the networks agree", o.st.f.implied(t), "succeeds without "+showT(t))
						o.sameNet("network = the inputs'", o.field(v, typ, "Network"), in.net, in.net2)
						continue
					}
					o.sameNet("network = the one given", o.field(v, typ, "Network"), in.net)
				}
			}
		})
	}
	do("PrivateKey", privCtors)
	do("PublicKey", pubCtors)
}

func propC08(s *Session) {
	s.each([]string{"(*PrivateKey).GetPublicKey"}, func(name string) visit {
		return func(c *Scen, in *In, outs []*Out) {
			for _, o := range outs {
				if o.ex != nil {
					o.end("the call returns")
					continue
				}
				fl := o.failed()
				if in.kind == "range" {
					o.ob("an invalid scalar is reported", fl == 1, "")
					o.ob("an invalid scalar gives no key", isNilV(o.vals[0]), "")
					continue
				}
				if !o.ob("a valid scalar succeeds", fl == -1 && !isNilV(o.vals[0]), "") {
					continue
				}
				f := o.st.f
				pt := f.EcMul(in.k1, ecOne(ecG))
				o.same("X = X of k*G", o.bigOf(o.field(o.vals[0], "PublicKey", "X")), f.Px(pt))
				o.same("Y = Y of k*G", o.bigOf(o.field(o.vals[0], "PublicKey", "Y")), f.Py(pt))
			}
		}
	})
}

// sec1 is the text form of a point.
func (f *Facts) sec1(x, y *Term, comp bool) *Term {
	if comp {
		return f.Cat(tStr("0"), f.Unit(f.AddK(f.BitAt(y, 0), '2')), f.HexEnc(f.Be(x, 32)))
	}
	return f.Cat(tStr("04"), f.HexEnc(f.Be(x, 32)), f.HexEnc(f.Be(y, 32)))
}

func propC09(s *Session) {
	s.each([]string{"(*PublicKey).Format"}, func(name string) visit {
		return func(c *Scen, in *In, outs []*Out) {
			for _, o := range outs {
				if o.ex != nil {
					o.end("a text is returned")
					continue
				}
				o.same("text = SEC1 form", o.strOf(o.vals[0]), o.st.f.sec1(in.x1, in.y1, in.comp == tTrue))
			}
		}
	})
}

func propC10(s *Session) {
	s.each([]string{"PublicFromHex"}, func(name string) visit {
		return func(c *Scen, in *In, outs []*Out) {
			h := in.hexa
			var valid []named
			coord := func(i int64) func(f *Facts) *Term {
				return func(f *Facts) *Term { return f.FromBe(f.Slice(f.UnHex(h), tI(1+32*i), tI(33+32*i))) }
			}
			x, y := coord(0), coord(1)
			hexok := named{"all characters are hex digits", func(f *Facts) *Term { return f.HexOk(h) }}
			switch {
			case in.n == 66 && (in.kind == "02" || in.kind == "03"):
				valid = []named{hexok,
					{"X is below p", func(f *Facts) *Term { return f.Ge0(f.Sub(tInt(pMinus1), x(f))) }},
					{"the curve has a point with that X", func(f *Facts) *Term { return f.QR(x(f)) }}}
			case in.n == 130 && in.kind == "04":
				valid = []named{hexok,
					{"X is below p", func(f *Facts) *Term { return f.Ge0(f.Sub(tInt(pMinus1), x(f))) }},
					{"Y is below p", func(f *Facts) *Term { return f.Ge0(f.Sub(tInt(pMinus1), y(f))) }},
					{"the point is on the curve", func(f *Facts) *Term { return f.OnCurve(x(f), y(f)) }}}
			default:
				valid = []named{{"the text is 02/03 with 64 or 04 with 128 digits", func(f *Facts) *Term { return tFalse }}}
			}
			for _, o := range outs {
				if o.ex != nil {
					o.end("a result or an error is returned")
					continue
				}
				if !o.exact("public key parsing", valid) {
					continue
				}
				if o.failed() == 1 {
					o.ob("no key with an error", isNilV(o.vals[0]), "")
					continue
				}
				if !o.ob("a key is returned", !isNilV(o.vals[0]), "") {
					continue
				}
				f := o.st.f
				gx, gy := o.bigOf(o.field(o.vals[0], "PublicKey", "X")), o.bigOf(o.field(o.vals[0], "PublicKey", "Y"))
				o.same("X = the given X", gx, x(f))
				if in.kind == "04" {
					o.same("Y = the given Y", gy, y(f))
					continue
				}
				if !o.ob("Y is known", gy != nil, "") {
					continue
				}
				root := f.Sqrt(x(f))
				isRoot := f.Or(f.EqI(gy, root), f.EqI(gy, f.Sub(tInt(curveP), root)))
				o.ob("(X,Y) is on the curve", f.implied(isRoot), "Y = "+showT(gy))
				par := int64(0)
				if in.kind == "03" {
					par = 1
				}
				o.ob("Y has the parity asked for", f.implied(f.EqI(f.BitAt(gy, 0), tI(par))), "Y = "+showT(gy))
			}
		}
	})
}

func propC11(s *Session) {
	s.each([]string{"(*PublicKey).Address"}, func(name string) visit {
		return func(c *Scen, in *In, outs []*Out) {
			for _, o := range outs {
				if o.ex != nil {
					o.end("an address is returned")
					continue
				}
				if !o.ob("no error for a valid key", o.failed() == -1, "") {
					continue
				}
				f := o.st.f
				raw := f.UnHex(f.sec1(in.x1, in.y1, in.comp == tTrue))
				pay := f.Cat(f.UnHex(c.netField(o.st, in.net, "PubKeyHashPrefix")), hashTerm("ripemd160", hashTerm("sha256", raw)))
				o.same("address = Base58Check of version and HASH160", o.strOf(o.vals[0]), f.checked(pay))
			}
		}
	})
}

func propC12(s *Session) {
	s.each([]string{"AddPublicKeys"}, func(name string) visit {
		return func(c *Scen, in *In, outs []*Out) {
			valid := []named{c.netsEqual(in),
				{"the points are not inverses", func(f *Facts) *Term {
					if in.kind == "inverse" {
						return tFalse
					}
					// for points of the curve: equal X and different Y means inverse
					return f.Or(f.Not(f.EqI(in.x1, in.x2)), f.EqI(in.y1, in.y2))
				}}}
			for _, o := range outs {
				if o.ex != nil {
					o.end("the call returns")
					continue
				}
				if !o.exact("addition", valid) {
					continue
				}
				if o.failed() == 1 {
					o.ob("no key with an error", isNilV(o.vals[0]), "")
					continue
				}
				if !o.ob("a key is returned", !isNilV(o.vals[0]), "") {
					continue
				}
				f := o.st.f
				sum := f.EcAdd(f.EcPt(in.x1, in.y1), f.EcPt(in.x2, in.y2))
				o.same("X = X of the sum", o.bigOf(o.field(o.vals[0], "PublicKey", "X")), f.Px(sum))
				o.same("Y = Y of the sum", o.bigOf(o.field(o.vals[0], "PublicKey", "Y")), f.Py(sum))
			}
		}
	})
}

// ---- package state ----

func (s *Session) global(name string) (Val, bool) {
	g, ok := s.p.pkg.Members[name].(*ssa.Global)
	if !ok {
		return nil, false
	}
	return s.base.load(s.x.globalPtr(s.base, g).(Ptr)), true
}

// constant facts about package state right after initialisation
func propC13(s *Session) {
	want := map[string]*big.Int{"A": big0, "B": bi(7), "P": curveP, "N": curveN, "H": big1, "G.X": curveGX, "G.Y": curveGY}
	found := false
	// every curve held in package state
	var names []string
	for n, m := range s.p.pkg.Members {
		if _, ok := m.(*ssa.Global); ok {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		g := s.p.pkg.Members[n].(*ssa.Global)
		v := s.base.load(s.x.globalPtr(s.base, g).(Ptr))
		t := deref(g.Type())
		if p, ok := v.(Ptr); ok && strings.HasSuffix(typeName(deref(t)), "ecdsa.Curve") {
			v, t = s.base.load(p), deref(t)
		}
		if !strings.HasSuffix(typeName(t), "ecdsa.Curve") {
			continue
		}
		found = true
		sv, _ := v.(*StructV)
		for _, k := range []string{"A", "B", "P", "N", "H", "G.X", "G.Y"} {
			var cur Val = sv
			ct := t
			for _, e := range strings.Split(k, ".") {
				i := fieldIdx(ct, e)
				st, ok := cur.(*StructV)
				if !ok || i < 0 {
					cur = nil
					break
				}
				cur = st.fs[i]
				ct = structOf(ct).Field(i).Type()
			}
			var got *Term
			if p, ok := cur.(Ptr); ok {
				got, _ = s.base.load(p).(*Term)
			}
			s.ob("curve parameter "+k+" is secp256k1's", n, "after initialisation", got != nil && got.isInt() && got.n.Cmp(want[k]) == 0, "got "+showT(got), s.x.where(g.Pos()))
		}
	}
	s.ob("the package holds its curve", "secp256k1", "", found, "no package-level curve", "")
	for _, n := range []struct{ g, priv, pub string }{{"MainNetwork", "80", "00"}, {"TestNetwork", "EF", "6F"}} {
		v, ok := s.global(n.g)
		if !ok {
			s.ob("network exists", n.g, "", false, "not found", "")
			continue
		}
		c := s.scen("")
		for _, fl := range []struct{ f, w string }{{"PrivKeyPrefix", n.priv}, {"PubKeyHashPrefix", n.pub}} {
			t := c.netField(s.base, v, fl.f)
			s.ob("network version byte", n.g+"."+fl.f, "after initialisation", t != nil && t.isStr() && strings.EqualFold(t.s, fl.w), "got "+showT(t), "")
		}
	}
	ps := s.parameters()
	s.writes("global", "no call changes the parameters", func(ev *Ev) bool {
		return ev.kind == "write-global" && ps[strings.TrimSuffix(ev.what, " (through a shallow copy)")]
	})
}

// parameters are the objects of package state that hold curves, networks or numbers right
// after initialisation, and the variables that refer to them, by the names events use.
func (s *Session) parameters() map[string]bool {
	r := map[string]bool{}
	is := func(t types.Type) bool {
		n := typeName(t)
		return strings.HasSuffix(n, "ecdsa.Curve") || strings.HasSuffix(n, "btc.Network") || strings.HasSuffix(n, "ecdsa.Point") || strings.HasSuffix(n, "big.Int")
	}
	seen := map[int]bool{}
	var refers func(v Val) bool
	object := func(id int) bool {
		o := s.base.heap[id]
		return o != nil && (o.typ != nil && is(o.typ) || refers(o.val))
	}
	refers = func(v Val) bool {
		switch w := v.(type) {
		case Ptr:
			if seen[w.obj] {
				return false
			}
			seen[w.obj] = true
			defer delete(seen, w.obj)
			return object(w.obj)
		case SliceV:
			return refers(w.base)
		case IfaceV:
			return refers(w.v)
		case *StructV:
			for _, e := range w.fs {
				if refers(e) {
					return true
				}
			}
		case *ListV:
			for _, e := range w.es {
				if refers(e) {
					return true
				}
			}
		case *MapV:
			for _, e := range w.vs {
				if refers(e) {
					return true
				}
			}
		}
		return false
	}
	for id, o := range s.base.heap {
		if o.kind == "global" && object(id) {
			r[o.origin] = true
		}
	}
	return r
}

func (s *Session) opNames() []string {
	var r []string
	for n := range s.ops() {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

// writes checks the absence of writes in every outcome of every operation.
func (s *Session) writes(what, rule string, bad func(*Ev) bool) {
	s.each(s.opNames(), func(name string) visit {
		return func(c *Scen, in *In, outs []*Out) {
			for _, o := range outs {
				d := ""
				for _, e := range o.st.eventsSince(s.base.ev) {
					if bad(e) {
						d = fmt.Sprintf("writes %s at %s (%s)", e.what, s.x.where(e.pos), e.fn)
					}
				}
				o.evOb(rule, d == "", d)
			}
		}
	})
}

// evOb is an obligation about the event log: an event that was seen counts even where
// values were over-approximated.
func (o *Out) evOb(rule string, ok bool, d string) bool {
	o.ob(rule, ok, d)
	if !ok {
		ob := o.sc.s.obs[len(o.sc.s.obs)-1]
		ob.Status = "violated"
		ob.Site = d
	}
	return ok
}

// ---- mnemonics ----

// draws lists the random draws of an outcome: the value, as an integer, and how many
// values it can take.
type draw struct {
	val   *Term
	count *big.Int
	raw   *Term
}

func (o *Out) draws() []draw {
	var r []draw
	f := o.st.f
	for _, e := range o.st.events() {
		if e.kind != "rand" || len(e.terms) == 0 {
			continue
		}
		t := f.renorm(e.terms[0])
		d := draw{raw: t}
		if t.sort == SSeq {
			if n, ok := f.Len(t).i64(); ok {
				d.val, d.count = f.FromBe(t), pow(256, n)
			}
		} else {
			d.val = t
			if len(e.terms) > 1 {
				if m := f.renorm(e.terms[1]); m.isInt() {
					d.count = m.n
				}
			}
		}
		r = append(r, d)
	}
	return r
}

// sentence is the mnemonic of entropy e (ent bits).
func (f *Facts) sentence(e *Term, ent int64, list *Term) *Term {
	h := hashTerm("sha256", f.Be(e, ent/8))
	cs := ent / 32
	bit := func(i int64) *Term {
		if i < ent {
			return f.BitAt(e, ent-1-i)
		}
		return f.BitAt(f.FromBe(h), 255-(i-ent))
	}
	var ps []*Term
	for w := int64(0); w < (ent+cs)/11; w++ {
		l := newLin()
		for j := int64(0); j < 11; j++ {
			l.addT(bit(w*11+j), pow(2, 10-j))
		}
		if w > 0 {
			ps = append(ps, tStr(" "))
		}
		ps = append(ps, f.Elem(list, f.Lin(l)))
	}
	return f.Cat(ps...)
}

// end is an outcome that is not a return: ways round again with fresh randomness are left to
// the properties about randomness and termination.
func (o *Out) end(rule string) {
	if o.ex.kind == "retry" {
		return
	}
	o.ob(rule, false, "abnormal end")
}

func failedDraw(o *Out) bool {
	bad := false
	for _, e := range o.st.events() {
		switch e.kind {
		case "randfail":
			bad = true
		case "rand":
			bad = false
		}
	}
	return bad
}

func propC14(s *Session) {
	s.each([]string{"NewMnemonic"}, func(name string) visit {
		return func(c *Scen, in *In, outs []*Out) {
			some := false
			for _, o := range outs {
				if o.ex != nil {
					o.end("a text or an error is returned")
					continue
				}
				fl := o.failed()
				if in.n == 0 || !in.listOK {
					o.ob("an unsupported request fails", fl == 1, "")
					o.same("no text with an error", o.strOf(o.vals[0]), tStr(""))
					continue
				}
				if fl == 1 {
					// only a failing random source may prevent the sentence
					o.ob("a supported request fails only with the random source", failedDraw(o), "")
					o.same("no text with an error", o.strOf(o.vals[0]), tStr(""))
					continue
				}
				some = true
				ent := in.n * 32 / 3
				ds := o.draws()
				if !o.ob("entropy is drawn", len(ds) > 0 && ds[len(ds)-1].val != nil, "") {
					continue
				}
				got := o.strOf(o.vals[0])
				ok, best := false, (*Term)(nil)
				for _, d := range ds {
					if d.val == nil {
						continue
					}
					if d.count == nil || d.count.Cmp(pow(2, ent)) != 0 {
						continue
					}
					w := o.st.f.sentence(d.val, ent, in.list)
					best = w
					if got != nil && o.st.f.same(got, w) {
						ok = true
					}
				}
				d := ""
				if !ok {
					d = "got " + showT(got) + "; specified " + showT(best)
					if best == nil {
						d = fmt.Sprintf("no draw of %d bits", ent)
					}
				}
				o.ob("sentence = words of entropy and checksum bits", ok, d)
			}
			if in.n != 0 && in.listOK && len(outs) > 0 {
				s.ob("a supported request can succeed", name, c.name, some, "no succeeding path", "")
			}
		}
	})
}

// mnBits are the bits of a mnemonic according to its word indices.
func mnParts(f *Facts, in *In) (ent int64, e, cs *Term) {
	sp := f.Split(in.mn, tStr(" "))
	n := in.n * 11
	ent = n * 32 / 33
	csn := n - ent
	l := newLin()
	for w := int64(0); w < in.n; w++ {
		l.addT(f.IdxOf(in.list, f.Elem(sp, tI(w))), pow(2, 11*(in.n-1-w)))
	}
	all := f.Lin(l)
	m := tInt(pow(2, csn))
	return ent, f.Div(all, m), f.Mod(all, m)
}

func propC15(s *Session) {
	s.each([]string{"NewSeedFromMnemonic"}, func(name string) visit {
		return func(c *Scen, in *In, outs []*Out) {
			var valid []named
			if in.n == 0 || !in.listOK {
				valid = []named{{"count and list size are supported", func(f *Facts) *Term { return tFalse }}}
			} else {
				for w := int64(0); w < in.n; w++ {
					w := w
					valid = append(valid, named{fmt.Sprintf("word %d is in the list", w+1), func(f *Facts) *Term {
						return f.In(in.list, f.Elem(f.Split(in.mn, tStr(" ")), tI(w)))
					}})
				}
				valid = append(valid, named{"the checksum is right", func(f *Facts) *Term {
					ent, e, cs := mnParts(f, in)
					h := f.FromBe(hashTerm("sha256", f.Be(e, ent/8)))
					return f.EqI(f.Div(h, tInt(pow(2, 256-ent/32))), cs)
				}})
			}
			some := false
			for _, o := range outs {
				if o.ex != nil {
					o.end("a seed or an error is returned")
					continue
				}
				o.exact("mnemonic check", valid)
				if o.failed() == 1 {
					t, ok := s.x.seqOf(o.st, o.vals[0])
					o.ob("no seed with an error", ok && o.st.f.implied(o.st.f.EqI(o.st.f.Len(t), tI(0))), showVal(o.st, o.vals[0]))
				} else {
					some = true
				}
			}
			if in.n != 0 && in.listOK && len(outs) > 0 {
				s.ob("a valid mnemonic can succeed", name, c.name, some, "no succeeding path", "")
			}
		}
	})
}

func propC16(s *Session) {
	s.each([]string{"NewSeedFromMnemonic"}, func(name string) visit {
		return func(c *Scen, in *In, outs []*Out) {
			for _, o := range outs {
				if o.vals == nil || o.failed() != -1 {
					continue
				}
				f := o.st.f
				got, _ := s.x.seqOf(o.st, o.vals[0])
				want := mk("pbkdf2", SSeq, "sha512", nil, nil, f.renorm(in.mn), f.Cat(tStr("mnemonic"), f.renorm(in.pass)), tI(2048), tI(64))
				o.same("seed = PBKDF2-HMAC-SHA512(mnemonic, \"mnemonic\"+passphrase, 2048, 64)", got, want)
			}
		}
	})
}

//go:embed words/*.txt
var published embed.FS

// listNames are the exported lists; words/NAME.txt holds the published words, one per line
// (SHA-256 of the files of the BIP-39 repository: english 2f5eed53, french ebc3959a, japanese
// 2eed0aef, italian d392c49f, spanish 46846a5a, korean 9e95f86c, czech 7e80e161, chinese
// traditional 417b26b3, chinese simplified 5c594279).
var listNames = []string{"ChineseSimplifiedWordlist", "ChineseTraditionalWordlist", "CzechWordlist", "EnglishWordlist",
	"FrenchWordlist", "ItalianWordlist", "JapaneseWordlist", "KoreanWordlist", "SpanishWordlist"}

func propC17(s *Session) {
	for _, n := range listNames {
		b, err := published.ReadFile("words/" + n + ".txt")
		want := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
		if err != nil || len(want) != 2048 {
			panic("word list " + n)
		}
		v, ok := s.global(n)
		if !ok {
			s.ob("the list exists", n, "", false, "not found", "")
			continue
		}
		g := s.p.pkg.Members[n].(*ssa.Global)
		l, ok := s.x.listOf(s.base, v)
		if !ok || l.op != "list" {
			s.ob("the words of the list are known", n, "after initialisation", false, "not a constant list: "+cut(showVal(s.base, v), 200), s.x.where(g.Pos()))
			continue
		}
		s.ob("2048 words", n, "", len(l.args) == 2048, fmt.Sprintf("%d words", len(l.args)), s.x.where(g.Pos()))
		seen := map[string]int{}
		bad, diff := "", ""
		for i, a := range l.args {
			if !a.isStr() {
				bad = fmt.Sprintf("word %d is not a constant", i)
				break
			}
			if j, dup := seen[a.s]; dup {
				bad = fmt.Sprintf("word %d repeats word %d (%s)", i, j, a.s)
			}
			seen[a.s] = i
			if strings.ContainsAny(a.s, " \t\n\u3000") || a.s == "" {
				bad = fmt.Sprintf("word %d is %q", i, a.s)
			}
			if i < len(want) && a.s != want[i] && diff == "" {
				diff = fmt.Sprintf("word %d is %q, published %q", i, a.s, want[i])
			}
		}
		s.ob("the words are distinct and without spaces", n, "", bad == "", bad, s.x.where(g.Pos()))
		s.ob("the words are the published ones, in order", n, "", bad == "" && diff == "" && len(l.args) == 2048, diff, s.x.where(g.Pos()))
	}
}

func propC18(s *Session) {
	s.each([]string{"GeneratePrivateKey", "NewMnemonic"}, func(name string) visit {
		return func(c *Scen, in *In, outs []*Out) {
			for _, o := range outs {
				gen := name == "GeneratePrivateKey"
				if o.ex != nil {
					if o.ex.kind == "retry" && !failedDraw(o) {
						ds := o.draws()
						ok := false
						for _, d := range ds {
							if d.val == nil || !gen {
								continue
							}
							// only candidates with fewer than 64 digits, and those that are no
							// scalars (in a loop, the last draw may be the next candidate)
							f := o.st.f
							if f = f.assume(f.Ge0(f.Sub(d.val, tInt(pow(2, 252))))); f != nil {
								f = f.assume(f.Lt(d.val, tInt(new(big.Int).Sub(curveN, big1))))
							}
							ok = ok || f == nil
						}
						if gen {
							o.ob("only candidates below 2^252 and beyond the order are drawn again", ok, "redraw at "+o.where())
						} else {
							o.ob("every draw of entropy is used", ok, "redraw at "+o.where())
						}
					}
					continue
				}
				v, ok := privOf(o)
				if !gen {
					ok = o.failed() != 1
				}
				if !ok {
					continue
				}
				if !o.ob("nothing is returned after a failure of the random source", !failedDraw(o), "") {
					continue
				}
				for _, e := range o.st.events() {
					if e.kind == "ambient" {
						o.evOb("no other source of values is used", false, fmt.Sprintf("%s at %s", e.what, s.x.where(e.pos)))
					}
				}
				ds := o.draws()
				if !o.ob("there is a draw from crypto/rand", len(ds) > 0, "") {
					continue
				}
				f := o.st.f
				if gen {
					k := o.bigOf(o.field(v, "PrivateKey", "Key"))
					good, why := false, "Key = "+showT(k)
					for _, d := range ds {
						if d.val == nil || k == nil {
							continue
						}
						// the draw, or the draw plus a constant
						df := f.Sub(k, d.val)
						if !df.isInt() {
							continue
						}
						if d.count == nil || d.count.Cmp(pow(2, 255)) < 0 {
							why = "the draw has too few values: " + fmt.Sprint(d.count)
							continue
						}
						good = true
					}
					o.ob("scalar = an unaltered draw of at least 2^255 values", good, why)
					continue
				}
				if in.n == 0 {
					continue
				}
				ent := in.n * 32 / 3
				got := o.strOf(o.vals[0])
				// every bit of the draw decides a bit of the words, whatever their order
				good, why := false, "no draw of exactly 2^"+fmt.Sprint(ent)+" values"
				for _, d := range ds {
					if d.count == nil || d.count.Cmp(pow(2, ent)) != 0 || got == nil {
						continue
					}
					if w := f.sentence(d.val, ent, in.list); f.same(got, w) {
						good = true
						continue
					}
					good, why = usesAll(f, got, d.val, ent)
				}
				if !good {
					// whatever is made of the draws, they must have enough values
					n := big.NewInt(1)
					for _, d := range ds {
						if d.count == nil {
							n = nil
							break
						}
						n.Mul(n, d.count)
					}
					if n != nil && n.Cmp(pow(2, ent)) < 0 {
						o.evOb("the draws have at least 2^ENT values", false, fmt.Sprintf("all draws together have 2^%d values", n.BitLen()-1))
						continue
					}
				}
				o.ob("entropy = an unaltered draw of exactly 2^ENT values, used in full", good, why)
			}
		}
	})
}

// usesAll checks that the entropy positions of the words are made of the bits of the
// draw, each exactly once (for sentences that do not have the specified form).
func usesAll(f *Facts, got, val *Term, ent int64) (bool, string) {
	want := map[*Term]bool{}
	for i := int64(0); i < ent; i++ {
		want[f.BitAt(val, i)] = true
	}
	have := map[*Term]bool{}
	for _, p := range parts(got) {
		if p.op != "elem" {
			continue
		}
		for i := int64(0); i < 11; i++ {
			have[f.BitAt(p.args[1], i)] = true
		}
	}
	n := 0
	for b := range want {
		if have[b] {
			n++
		}
	}
	return n == len(want), fmt.Sprintf("%d of the %d drawn bits appear in the words", n, len(want))
}

var _ = token.NoPos
