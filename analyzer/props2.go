package main

// The properties that concern every operation, and those that relate operations.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// tainted finds secret material in a term. Public keys (coordinates of points) and
// what is made from them are not secret.
func tainted(t *Term, secret map[*Term]bool) *Term {
	seen := map[*Term]bool{}
	var w func(t *Term) *Term
	w = func(t *Term) *Term {
		if seen[t] {
			return nil
		}
		seen[t] = true
		if secret[t] {
			return t
		}
		if t.op == "px" || t.op == "py" || t.op == "oncurve" {
			return nil
		}
		for _, a := range t.args {
			if r := w(a); r != nil {
				return r
			}
		}
		return nil
	}
	return w(t)
}

func isRandom(t *Term) bool {
	return t.op == "randbytes" || t.op == "var" && strings.HasPrefix(t.s, "%rand") && t.sort != SBool
}

func (o *Out) secrets(in *In) map[*Term]bool {
	m := map[*Term]bool{}
	for _, t := range in.secret {
		m[t] = true
	}
	if in.kind == "generic" {
		for _, v := range o.sc.args {
			for _, t := range o.sc.st.termsOf(v, map[int]bool{}) {
				t.has(func(u *Term) bool {
					if u.op == "var" && (strings.Contains(u.s, ".Hex") || strings.Contains(u.s, ".WIF")) {
						m[u] = true
					}
					return false
				})
			}
		}
	}
	for _, e := range o.st.events() {
		if e.kind == "rand" {
			for i, t := range e.terms {
				if i == 0 {
					m[t] = true
					m[o.st.f.renorm(t)] = true
				}
			}
		}
	}
	return m
}

func propC19(s *Session) {
	s.each(s.opNames(), func(name string) visit {
		return func(c *Scen, in *In, outs []*Out) {
			for _, o := range outs {
				sec := o.secrets(in)
				find := func(ts []*Term) *Term {
					for _, t := range ts {
						if t == nil {
							continue
						}
						if r := tainted(t, sec); r != nil {
							return r
						}
						var rnd *Term
						t.has(func(u *Term) bool {
							if isRandom(u) {
								rnd = u
							}
							return false
						})
						if rnd != nil && tainted(t, map[*Term]bool{rnd: true}) != nil {
							return rnd
						}
					}
					return nil
				}
				bad := ""
				n := 0
				for _, e := range o.st.eventsSince(s.base.ev) {
					switch e.kind {
					case "sink", "panic", "write-global":
						n++
						if r := find(e.terms); r != nil {
							bad = fmt.Sprintf("%s reaches %s %s at %s (%s)", showT(r), e.kind, e.what, s.x.where(e.pos), e.fn)
						}
					}
				}
				o.evOb("no secret reaches an output, a panic or package state", bad == "", bad)
				bad = ""
				for _, v := range o.vals {
					if e, ok := v.(*ErrV); ok {
						if r := find(e.terms); r != nil {
							bad = fmt.Sprintf("error %q contains %s", e.what, showT(r))
						}
					}
				}
				o.evOb("no secret in an error text", bad == "", bad)
			}
		}
	})
}

func propC20(s *Session) {
	s.each(s.opNames(), func(name string) visit {
		return func(c *Scen, in *In, outs []*Out) {
			for _, o := range outs {
				if o.ex == nil {
					o.ob("returns normally", true, "")
					continue
				}
				switch o.ex.kind {
				case "retry", "recursion":
					continue
				}
				if name == "GeneratePrivateKey" && failedDraw(o) {
					o.ob("ends abnormally only with the random source", true, "")
					continue
				}
				if in.kind == "generic" {
					// nothing is specified about the arguments of other operations
					continue
				}
				o.ob("returns normally", false, o.ex.kind+": "+o.ex.what+" at "+o.where())
			}
		}
	})
}

func propC21(s *Session) {
	s.each(s.opNames(), func(name string) visit {
		return func(c *Scen, in *In, outs []*Out) {
			for _, o := range outs {
				d, may := "", ""
				for _, e := range o.st.eventsSince(s.base.ev) {
					if e.kind == "write-arg" || e.kind == "write-global" {
						d = fmt.Sprintf("%s %s at %s (%s)", e.kind, e.what, s.x.where(e.pos), e.fn)
					}
					if e.kind == "maywrite" {
						may = fmt.Sprintf("%s is handed to an unknown function at %s (%s)", e.what, s.x.where(e.pos), e.fn)
					}
				}
				if d == "" && may != "" {
					o.ob("neither arguments nor package state are written", false, may)
				} else {
					o.evOb("neither arguments nor package state are written", d == "", d)
				}
				// reachable numbers and byte slices of the results
				seen := map[int]string{}
				bad := ""
				var walk func(v Val, name string, depth int)
				leaf := func(id int, what string) {
					ob := o.st.heap[id]
					if ob == nil {
						return
					}
					if ob.kind != "local" {
						bad = what + " is the " + ob.kind + " object " + ob.origin
					}
					if ob.share != 0 {
						if q := o.st.heap[ob.share]; q != nil && q.kind != "local" {
							bad = what + " shares its digits with " + q.origin
						}
					}
					if w, dup := seen[id]; dup && w != what {
						bad = what + " and " + w + " are one object"
					}
					seen[id] = what
				}
				walk = func(v Val, what string, depth int) {
					if depth > 6 {
						return
					}
					switch w := v.(type) {
					case Ptr:
						ob := o.st.heap[w.obj]
						if ob == nil {
							return
						}
						if typeName(ob.typ) == s.p.tpkg.Path()+".Network" {
							return // networks are shared by design
						}
						leaf(w.obj, what)
						if sv, ok := o.st.load(w).(*StructV); ok {
							u := structOf(ob.typ)
							for i, e := range sv.fs {
								n := fmt.Sprint(i)
								if u != nil && i < u.NumFields() {
									n = u.Field(i).Name()
								}
								walk(e, what+"."+n, depth+1)
							}
						}
					case SliceV:
						leaf(w.base.obj, what)
					case *StructV:
						for i, e := range w.fs {
							walk(e, fmt.Sprint(what, ".", i), depth+1)
						}
					}
				}
				for i, v := range o.vals {
					walk(v, fmt.Sprintf("result %d", i), 0)
				}
				o.evOb("results share nothing with arguments, package state or each other", bad == "", bad)
			}
		}
	})
}

func propC22(s *Session) {
	s.each(s.opNames(), func(name string) visit {
		return func(c *Scen, in *In, outs []*Out) {
			for _, o := range outs {
				if o.vals == nil || len(o.vals) < 2 {
					continue
				}
				last := c.fn.Signature.Results().At(len(o.vals) - 1).Type()
				if !isErrorType(last) && !isBoolT(last) {
					continue
				}
				v := o.vals[0]
				empty, known := false, true
				f := o.st.f
				switch w := v.(type) {
				case Nil:
					empty = true
				case *Term:
					switch w.sort {
					case SSeq:
						if w.isStr() && w.s == "" || f.implied(f.EqI(f.Len(w), tI(0))) {
							empty = true
						} else if f.implied(f.Ge0(f.AddK(f.Len(w), -1))) || w.op == "b58enc" || w.op == "cat" {
							empty = false
						} else {
							known = false
						}
					default:
						known = false
					}
				case SliceV:
					n := f.renorm(w.ln)
					switch {
					case n.isK(0):
						empty = true
					case f.implied(f.Ge0(f.AddK(n, -1))):
					default:
						known = false
					}
				case Ptr:
					// a complete result: no nil inside
					if sv, ok := o.st.load(w).(*StructV); ok {
						for i, e := range sv.fs {
							if isNilV(e) {
								o.ob("a result is complete", o.failed() == 1, fmt.Sprintf("field %d is nil", i))
							}
						}
					}
				default:
					known = false
				}
				switch o.failed() {
				case 1:
					o.ob("no result with an error", empty && known, "result "+showVal(o.st, v))
				case -1:
					o.ob("a result without an error", !empty && known, "result "+showVal(o.st, v))
				default:
					o.ob("error or not is known", false, "error "+showVal(o.st, o.vals[len(o.vals)-1]))
				}
			}
		}
	})
}

func isGenerator(name string) bool { return name == "GeneratePrivateKey" || name == "NewMnemonic" }

func propC23(s *Session) {
	type seen struct {
		o    *Out
		name string
		read map[string]token.Pos
	}
	written := map[string]token.Pos{}
	var all []seen
	s.each(s.opNames(), func(name string) visit {
		s.x.reads = map[string]token.Pos{}
		s.x.allWrites = map[string]token.Pos{}
		return func(c *Scen, in *In, outs []*Out) {
			for _, o := range outs {
				for _, e := range o.st.eventsSince(s.base.ev) {
					if e.kind == "write-global" {
						written[e.what] = e.pos
					}
				}
			}
			if isGenerator(name) {
				return
			}
			reads := map[string]token.Pos{}
			for k, v := range s.x.reads {
				reads[k] = v
			}
			for _, o := range outs {
				d := ""
				for _, e := range o.st.eventsSince(s.base.ev) {
					if e.kind == "ambient" || e.kind == "rand" || e.kind == "randfail" {
						d = fmt.Sprintf("%s %s at %s (%s)", e.kind, e.what, s.x.where(e.pos), e.fn)
					}
				}
				o.evOb("nothing but the arguments is consulted", d == "", d)
				all = append(all, seen{o, name, reads})
			}
		}
	})
	for _, a := range all {
		d := ""
		for k, p := range written {
			if q, ok := a.read[k]; ok {
				d = fmt.Sprintf("%s is read at %s and written at %s", k, s.x.where(q), s.x.where(p))
			}
		}
		a.o.evOb("package state that is read is never written", d == "", d)
	}
}

func propC24(s *Session) {
	s.each(s.opNames(), func(name string) visit {
		s.x.issues = nil
		return func(c *Scen, in *In, outs []*Out) {
			iss := s.x.issues
			s.x.issues = nil
			normal := false
			retry := false
			for _, o := range outs {
				if o.ex == nil {
					normal = true
				}
			}
			for _, i := range iss {
				if i.kind == "retry" {
					retry = true
					if name == "GeneratePrivateKey" {
						continue
					}
				}
				s.ob("every loop has a bound", name, c.name, false, i.what, s.x.where(i.pos))
				if i.kind == "bound" {
					// no measure was found, which does not mean that there is none
					s.obs[len(s.obs)-1].Status = "undecided"
				}
			}
			if len(iss) == 0 {
				s.ob("every loop has a bound", name, c.name, true, "", "")
			}
			for _, o := range outs {
				if o.ex == nil {
					continue
				}
				switch o.ex.kind {
				case "recursion":
					o.evOb("every recursion ends", false, "recursion with the same arguments at "+o.where())
				case "retry":
					retry = true
					o.evOb("only key generation redraws", name == "GeneratePrivateKey", "redraw at "+o.where())
					o.evOb("a failure of the random source is not waited out", !failedDraw(o), "repeated at "+o.where())
				}
			}
			if retry && name == "GeneratePrivateKey" {
				s.ob("a redraw can succeed", name, c.name, normal, "no path returns", "")
			}
		}
	})
}

// ---- relations between operations ----

func (s *Session) need(names ...string) ([]*ssa.Function, bool) {
	var r []*ssa.Function
	for _, n := range names {
		f := s.x.fn(n)
		if f == nil {
			s.ob("the operation exists", n, "", false, "exported operation not found", "")
			return nil, false
		}
		r = append(r, f)
	}
	return r, true
}

// then calls fn from the state of an outcome.
func (o *Out) then(fn *ssa.Function, args ...Val) []*Out {
	c := *o.sc
	c.st = o.st
	c.name = o.sc.name + ", then " + fn.RelString(o.sc.s.x.pkg.Pkg)
	return (&c).call(fn, args...)
}

func propC25(s *Session) {
	fns, ok := s.need("PrivateFromWIF", "PrivateFromHex", "PublicFromHex", "(*PublicKey).Format", "NewSeedFromMnemonic", "NewMnemonic")
	if !ok {
		return
	}
	fromWIF, fromHex, pubFromHex, seed := fns[0], fns[1], fns[2], fns[4]
	s.each(privCtors, func(name string) visit {
		return func(c *Scen, in *In, outs []*Out) {
			for _, o := range outs {
				v, ok := privOf(o)
				if !ok {
					continue
				}
				k := o.bigOf(o.field(v, "PrivateKey", "Key"))
				w := o.strOf(o.field(v, "PrivateKey", "WIF"))
				h := o.strOf(o.field(v, "PrivateKey", "Hex"))
				if !o.ob("a key has its text forms", k != nil && w != nil && h != nil, "") {
					continue
				}
				back := func(form string, outs []*Out) {
					for _, q := range outs {
						if !q.ob(form+" reads back", q.ex == nil && q.failed() == -1, "") {
							continue
						}
						v2, _ := privOf(q)
						q.same(form+" reads back to the same scalar", q.bigOf(q.field(v2, "PrivateKey", "Key")), q.st.f.renorm(k))
					}
				}
				net := o.field(v, "PrivateKey", "Network")
				back("the WIF", o.then(fromWIF, w, net))
				back("the hex form", o.then(fromHex, h, net))
			}
		}
	})
	s.each([]string{"(*PublicKey).Format"}, func(name string) visit {
		return func(c *Scen, in *In, outs []*Out) {
			for _, o := range outs {
				t := (*Term)(nil)
				if o.ex == nil {
					t = o.strOf(o.vals[0])
				}
				if !o.ob("a text is returned", t != nil, "") {
					continue
				}
				for _, q := range o.then(pubFromHex, t, in.net) {
					if !q.ob("the text form reads back", q.ex == nil && q.failed() == -1, "") {
						continue
					}
					q.same("the text form reads back to the same X", q.bigOf(q.field(q.vals[0], "PublicKey", "X")), q.st.f.renorm(in.x1))
					q.same("the text form reads back to the same Y", q.bigOf(q.field(q.vals[0], "PublicKey", "Y")), q.st.f.renorm(in.y1))
				}
			}
		}
	})
	s.uniqLists = true
	s.each([]string{"NewMnemonic"}, func(name string) visit {
		return func(c *Scen, in *In, outs []*Out) {
			if in.n == 0 || !in.listOK {
				return
			}
			for _, o := range outs {
				if o.ex != nil || o.failed() == 1 {
					continue
				}
				t := o.strOf(o.vals[0])
				if !o.ob("a sentence is returned", t != nil, "") {
					continue
				}
				for _, q := range o.then(seed, t, tVar(SSeq, "passphrase"), c.args[1]) {
					q.ob("a generated mnemonic is accepted", q.ex == nil && q.failed() == -1, "")
				}
			}
		}
	})
}

func propC26(s *Session) {
	fns, ok := s.need("AddPrivateKeys", "(*PrivateKey).GetPublicKey", "AddPublicKeys")
	if !ok {
		return
	}
	add, pub, addPub := fns[0], fns[1], fns[2]
	s.guard("key addition", func() {
		for _, n := range s.nets() {
			c := s.scen("two private keys of one network, sum not 0, " + n.name)
			net := n.mk(c)
			a, ka := c.privKey("p1", net)
			b, kb := c.privKey("p2", net)
			f := c.f()
			c.assume(f.Not(f.EqI(ka, kb)))
			c.assume(c.f().Not(c.f().EqI(c.f().Mod(c.f().Add(ka, kb), tInt(curveN)), tI(0))))
			for _, o := range c.call(add, a, b) {
				v, ok := privOf(o)
				if !o.ob("the private sum exists", ok, "") {
					continue
				}
				for _, o2 := range o.then(pub, v) {
					if !o2.ob("the public key of the sum exists", o2.ex == nil && o2.failed() == -1, "") {
						continue
					}
					left := o2.vals[0]
					for _, o3 := range o2.then(pub, a) {
						if !o3.ob("the first public key exists", o3.ex == nil && o3.failed() == -1, "") {
							continue
						}
						for _, o4 := range o3.then(pub, b) {
							if !o4.ob("the second public key exists", o4.ex == nil && o4.failed() == -1, "") {
								continue
							}
							for _, o5 := range o4.then(addPub, o3.vals[0], o4.vals[0], tVar(SBool, "compressed")) {
								if !o5.ob("the public sum exists", o5.ex == nil && o5.failed() == -1, "") {
									continue
								}
								for _, fl := range []string{"X", "Y"} {
									l := o5.bigOf(o5.field(left, "PublicKey", fl))
									r := o5.bigOf(o5.field(o5.vals[0], "PublicKey", fl))
									o5.same(fl+" of the public sum = "+fl+" of the sum's public key", r, l)
								}
								o5.sameNet("both have the same network", o5.field(o5.vals[0], "PublicKey", "Network"), o5.field(left, "PublicKey", "Network"))
							}
						}
					}
				}
			}
		}
	})
}

var props = map[string]func(*Session){
	"C01": propC01, "C02": propC02, "C03": propC03, "C04": propC04, "C05": propC05, "C06": propC06, "C07": propC07,
	"C08": propC08, "C09": propC09, "C10": propC10, "C11": propC11, "C12": propC12, "C13": propC13, "C14": propC14,
	"C15": propC15, "C16": propC16, "C17": propC17, "C18": propC18, "C19": propC19, "C20": propC20, "C21": propC21,
	"C22": propC22, "C23": propC23, "C24": propC24, "C25": propC25, "C26": propC26,
}
