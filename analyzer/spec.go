package main

// Scenarios: the partitions of the inputs an exported operation is analysed on, and the
// bookkeeping of obligations.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	curveX = hexInt("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798")
	curveY = hexInt("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8")
)

// Session is one run of the analyzer.
type Session struct {
	p    *Program
	x    *Interp
	base *State
	prop string

	obs       []*Ob
	scens     int
	rets      int
	exits     int
	dead      int
	names     map[string]bool
	end       time.Time
	byFunc    map[string]int
	big       map[*ssa.Function]bool // operations with too many paths to follow them all
	uniqLists bool                   // word lists have distinct words without spaces
}

// Ob is one obligation and what became of it.
type Ob struct {
	Rule    string `json:"rule"`
	Func    string `json:"function"`
	Scen    string `json:"inputs"`
	Outcome string `json:"outcome,omitempty"`
	Status  string `json:"status"` // proved, violated, undecided
	Detail  string `json:"detail,omitempty"`
	Site    string `json:"site,omitempty"`
}

// Scen is a starting state with arguments.
type Scen struct {
	s    *Session
	st   *State
	fn   *ssa.Function
	name string
	args []Val
	ok   bool // the facts of the scenario are consistent
}

// Out is one outcome of a call.
type Out struct {
	st   *State
	vals []Val // nil for an abnormal end
	ex   *exit
	sc   *Scen
	n    int
}

func (s *Session) scen(name string) *Scen {
	return &Scen{s: s, st: s.base.clone(), name: name, ok: true}
}

func (c *Scen) f() *Facts { return c.st.f }

// clone copies a scenario under a longer name.
func (c *Scen) with(name string) *Scen {
	d := *c
	d.st = c.st.clone()
	d.args = append([]Val(nil), c.args...)
	if d.name != "" && name != "" {
		d.name += ", "
	}
	d.name += name
	return &d
}

// assume adds facts about the inputs.
func (c *Scen) assume(ts ...*Term) *Scen {
	for _, t := range ts {
		if !c.ok {
			return c
		}
		fs := c.st.f.split(t)
		switch len(fs) {
		case 0:
			c.ok = false
		case 1:
			c.st.f = fs[0]
		default:
			panic(tooBig{"scenario literal is a disjunction: " + t.String()})
		}
	}
	return c
}

func (c *Scen) between(t *Term, lo, hi *big.Int) *Scen {
	f := c.f()
	if lo != nil {
		c.assume(f.Ge0(f.Sub(t, tInt(lo))))
	}
	if hi != nil {
		c.assume(c.f().Ge0(c.f().Sub(tInt(hi), t)))
	}
	return c
}

// ---- making arguments ----

func structOf(t types.Type) *types.Struct {
	u, _ := t.Underlying().(*types.Struct)
	return u
}

func fieldIdx(t types.Type, name string) int {
	u := structOf(t)
	if u == nil {
		return -1
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (s *Session) typ(name string) types.Type {
	o := s.p.tpkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// object makes an argument object of a struct type, with some fields given.
func (c *Scen) object(t types.Type, name string, given map[string]Val) Ptr {
	u := structOf(t)
	fs := make([]Val, u.NumFields())
	for i := range fs {
		fl := u.Field(i)
		if v, ok := given[fl.Name()]; ok {
			fs[i] = v
			continue
		}
		fs[i] = c.generic(fl.Type(), name+"."+fl.Name())
	}
	return c.st.allocKind(t, &StructV{fs}, "arg", name)
}

// network makes a well-formed network: two one-byte versions in hex.
func (c *Scen) network(name string) Ptr {
	a := tVar(SSeq, name+".PrivKeyPrefix")
	b := tVar(SSeq, name+".PubKeyHashPrefix")
	for _, v := range []*Term{a, b} {
		c.assume(c.f().EqI(c.f().Len(v), tI(2)))
		c.assume(c.f().HexOk(v))
	}
	return c.object(c.s.typ("Network"), name, map[string]Val{"PrivKeyPrefix": a, "PubKeyHashPrefix": b})
}

// bigArg makes a big integer argument.
func (c *Scen) bigArg(t *Term, name string) Ptr {
	return c.st.allocKind(c.s.x.bigType(), t, "arg", name)
}

// privKey makes a private key the library can produce.
func (c *Scen) privKey(name string, net Val) (Ptr, *Term) {
	h := tVar(SSeq, name+".Hex")
	c.assume(c.f().EqI(c.f().Len(h), tI(64)))
	c.assume(c.f().HexOk(h))
	k := c.f().FromBe(c.f().UnHex(h))
	c.between(k, big1, new(big.Int).Sub(curveN, big1))
	p := c.object(c.s.typ("PrivateKey"), name, map[string]Val{
		"Key": c.bigArg(k, name+".Key"), "Hex": h, "WIF": tVar(SSeq, name+".WIF"), "Network": net,
	})
	return p, k
}

// pubKey makes a valid public key.
func (c *Scen) pubKey(name string, net Val) (p Ptr, x, y *Term) {
	x, y = tVar(SInt, name+".X"), tVar(SInt, name+".Y")
	pm := new(big.Int).Sub(curveP, big1)
	c.between(x, big1, pm) // neither 0 nor... see DESIGN: no point has X=0 or Y=0
	c.between(y, big1, pm)
	c.assume(c.f().OnCurve(x, y))
	p = c.object(c.s.typ("PublicKey"), name, map[string]Val{
		"X": c.bigArg(x, name+".X"), "Y": c.bigArg(y, name+".Y"), "Network": net,
	})
	return
}

// wordlist makes a word list argument.
func (c *Scen) wordlist(name string) (Val, *Term) {
	w := tVar(SList, name)
	n := c.f().LLen(w)
	c.between(n, big0, maxArg)
	p := c.st.allocKind(types.NewSlice(types.Typ[types.String]), w, "arg", name)
	return SliceV{p, tI(0), n, n}, w
}

// generic makes an arbitrary (well-formed, non-nil) argument of a type.
func (c *Scen) generic(t types.Type, name string) Val {
	switch typeName(t) {
	case "math/big.Int":
		return tVar(SInt, name)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tVar(SBool, name)
		case u.Info()&types.IsString != 0:
			return tVar(SSeq, name)
		case u.Info()&types.IsInteger != 0:
			v := tVar(SInt, name)
			lo, hi, _, _ := intRange(t)
			c.between(v, lo, hi)
			return v
		}
	case *types.Pointer:
		switch n, _ := types.Unalias(u.Elem()).(*types.Named); {
		case n != nil && n.Obj().Pkg() == c.s.p.tpkg && n.Obj().Name() == "Network":
			return c.network(name)
		case n != nil && n.Obj().Pkg() == c.s.p.tpkg && n.Obj().Name() == "PrivateKey":
			p, _ := c.privKey(name, c.network(name+".Network"))
			return p
		case n != nil && n.Obj().Pkg() == c.s.p.tpkg && n.Obj().Name() == "PublicKey":
			p, _, _ := c.pubKey(name, c.network(name+".Network"))
			return p
		}
		v := c.generic(u.Elem(), name)
		if _, ok := v.(OpqV); ok {
			return v
		}
		return c.st.allocKind(u.Elem(), v, "arg", name)
	case *types.Struct:
		fs := make([]Val, u.NumFields())
		for i := range fs {
			fs[i] = c.generic(u.Field(i).Type(), name+"."+u.Field(i).Name())
		}
		return &StructV{fs}
	case *types.Slice:
		if isByte(u.Elem()) {
			w := tVar(SSeq, name)
			n := c.f().Len(w)
			p := c.st.allocKind(t, w, "arg", name)
			return SliceV{p, tI(0), n, n}
		}
		if isStringT(u.Elem()) {
			v, _ := c.wordlist(name)
			return v
		}
	case *types.Array:
		if isByte(u.Elem()) {
			w := tVar(SSeq, name)
			c.assume(c.f().EqI(c.f().Len(w), tI(u.Len())))
			return w
		}
	}
	return OpqV{name}
}

// ---- running ----

func (s *Session) run(fn *ssa.Function, c *Scen) []*Out {
	if !c.ok {
		return nil
	}
	s.scens++
	s.byFunc[fn.RelString(s.x.pkg.Pkg)]++
	s.x.steps = 0
	var rets []ret
	var exits []exit
	try := func(d time.Duration) (why string) {
		defer func() {
			if r := recover(); r != nil {
				tb, is := r.(tooBig)
				if !is {
					panic(r)
				}
				s.x.stack = nil
				why = tb.msg
			}
		}()
		within(d, func() { rets, exits = s.x.Call(fn, c.args, nil, c.st, token.NoPos) })
		return ""
	}
	undecided := func(rule, why string) {
		s.obs = append(s.obs, &Ob{Rule: rule, Func: fn.RelString(s.x.pkg.Pkg), Scen: c.name, Status: "undecided", Detail: why})
	}
	d := s.opTime() / 3
	if s.big[fn] {
		d /= 4
	}
	fits := true
	s.x.thinned = false
	if why := try(d); why == "" {
		if s.x.thinned {
			undecided("every path is followed", "some paths of a loop were left out")
		}
	} else {
		// again, with some of the partitions only
		if s.big == nil {
			s.big = map[*ssa.Function]bool{}
		}
		s.big[fn] = true
		s.x.thin, s.x.thinned, s.x.steps = 3, false, 0
		if why2 := try(s.opTime() / 4); why2 != "" {
			fits = false
			undecided("the analysis stays within its limits", why+"; "+why2)
		} else if s.x.thinned {
			undecided("every path is followed", why)
		}
		s.x.thin = 0
	}
	var outs []*Out
	if !fits {
		return nil
	}
	for i := range rets {
		r := &rets[i]
		if g := r.st.f.saturate(); g == nil {
			s.dead++
			continue
		} else {
			r.st = r.st.with(g)
		}
		s.rets++
		outs = append(outs, &Out{st: r.st, vals: r.vals, sc: c, n: len(outs)})
	}
	for i := range exits {
		e := &exits[i]
		if g := e.st.f.saturate(); g == nil {
			s.dead++
			continue
		} else {
			e.st = e.st.with(g)
		}
		s.exits++
		outs = append(outs, &Out{st: e.st, ex: e, sc: c, n: len(outs)})
	}
	return outs
}

// in sets the function of a scenario.
func (c *Scen) call(fn *ssa.Function, args ...Val) []*Out {
	c.fn, c.args = fn, args
	return c.s.run(fn, c)
}

// fuzzy reports why an outcome is not exact: constructs that were over-approximated.
func (o *Out) fuzzy() string {
	for _, e := range o.st.eventsSince(o.sc.s.base.ev) {
		switch e.kind {
		case "unsupported", "unmodelled", "widened":
			return fmt.Sprintf("%s %s at %s (%s)", e.kind, e.what, o.sc.s.x.where(e.pos), e.fn)
		}
	}
	return ""
}

// hard names a term of the outcome that the analysis has no complete theory of: what it
// cannot show of such a term may hold all the same.
func (o *Out) hard() string {
	f := o.st.f
	seen := map[*Term]bool{}
	found := ""
	var walk func(t *Term)
	walk = func(t *Term) {
		if found != "" || seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case "bit":
			if a := t.args[0]; a.op == "lin" && f.occOf(a) == nil && !hasLen(a) || a.op == "mul" || a.op == "div" {
				found = t.str(3)
			}
		case "mod", "div":
			if !t.args[1].isInt() {
				found = t.str(3)
			}
		case "orbits", "xorbits", "andbits", "andnotbits":
			found = t.str(3)
		case "opq":
			for _, p := range []string{"abs", "big.", "bitat", "float", "negbit", "pow", "hexprefix", "strings.", "sprint", "repeat", "runestr", "rune", "fields", "table", "join", "printed", "strconv.bad"} {
				// Trimming an argument or replacing a character changes what is accepted: that much is known of it.
				if strings.HasPrefix(t.s, "strings.Trim") || strings.HasPrefix(t.s, "strings.ReplaceByte") || t.s == "sprintf:%x" || t.s == "fields" {
					continue
				}
				if strings.HasPrefix(t.s, p) {
					found = t.str(3)
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	base := map[*Term]bool{}
	for _, l := range o.sc.st.f.lits {
		base[l] = true
	}
	for _, l := range f.lits {
		if !base[l] {
			walk(l)
		}
	}
	for _, v := range o.vals {
		for _, t := range o.st.termsOf(v, nil) {
			walk(f.renorm(t))
		}
	}
	return found
}

func hasLen(x *Term) bool {
	for a := range linOf(x).m {
		if a.op == "len" {
			return true
		}
	}
	return false
}

func (o *Out) where() string {
	x := o.sc.s.x
	if o.ex != nil {
		return x.where(o.ex.pos) + " in " + o.ex.fn
	}
	return ""
}

// lits describes the path of an outcome beyond the facts of its scenario.
func (o *Out) lits() string {
	base := map[*Term]bool{}
	for _, l := range o.sc.st.f.lits {
		base[l] = true
	}
	var r []string
	for _, l := range o.st.f.lits {
		if !base[l] {
			r = append(r, l.str(4))
		}
	}
	if len(r) > 12 {
		r = append(r[:6:6], append([]string{"..."}, r[len(r)-6:]...)...)
	}
	return strings.Join(r, " & ")
}

func (o *Out) shown() string {
	if o.ex != nil {
		return o.ex.kind + ": " + o.ex.what
	}
	var r []string
	for _, v := range o.vals {
		r = append(r, showVal(o.st, v))
	}
	return strings.Join(r, " | ")
}

// ob records an obligation.
func (o *Out) ob(rule string, ok bool, detail string) bool {
	ob := &Ob{Rule: rule, Scen: o.sc.name, Status: "proved"}
	if o.sc.fn != nil {
		ob.Func = o.sc.fn.RelString(o.sc.s.x.pkg.Pkg)
	}
	if !ok {
		ob.Status = "violated"
		ob.Outcome = "when " + o.lits() + " -> " + cut(o.shown(), 1500)
		ob.Detail = cut(detail, 3000)
		ob.Site = o.where()
		if z := o.fuzzy(); z != "" {
			ob.Status = "undecided"
			ob.Detail += " [" + z + "]"
		} else if z := o.hard(); z != "" {
			ob.Status = "undecided"
			ob.Detail += " [no complete theory of " + z + "]"
		}
	}
	o.sc.s.obs = append(o.sc.s.obs, ob)
	return ok
}

func (s *Session) ob(rule, fn, scen string, ok bool, detail, site string) {
	ob := &Ob{Rule: rule, Func: fn, Scen: scen, Status: "proved"}
	if !ok {
		ob.Status, ob.Detail, ob.Site = "violated", cut(detail, 3000), site
	}
	s.obs = append(s.obs, ob)
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---- reading results ----

// key reads fields of a returned *PrivateKey or *PublicKey.
func (o *Out) field(v Val, typ, name string) Val {
	p, ok := v.(Ptr)
	if !ok {
		return OpqV{"not a pointer"}
	}
	i := fieldIdx(o.sc.s.typ(typ), name)
	if i < 0 {
		return OpqV{"no field " + name}
	}
	return o.st.load(p.field(i))
}

func (o *Out) bigOf(v Val) *Term {
	p, ok := v.(Ptr)
	if !ok {
		return nil
	}
	t, ok := o.st.load(p).(*Term)
	if !ok || t.sort != SInt {
		return nil
	}
	return o.st.f.renorm(t)
}

func (o *Out) strOf(v Val) *Term {
	t, ok := v.(*Term)
	if !ok || t.sort != SSeq {
		return nil
	}
	return o.st.f.renorm(t)
}

func isNilV(v Val) bool { _, ok := v.(Nil); return ok }

func isErr(v Val) bool {
	switch v.(type) {
	case *ErrV, ErrV, IfaceV:
		return true
	}
	return false
}

// failed classifies a (result, error) outcome: 1 failed, -1 succeeded, 0 unclear.
func (o *Out) failed() int {
	if o.vals == nil {
		return 0
	}
	last := o.vals[len(o.vals)-1]
	if isNilV(last) {
		return -1
	}
	if isErr(last) {
		return 1
	}
	if t, ok := last.(*Term); ok && t.sort == SBool {
		switch o.st.f.holds(t) {
		case 1:
			return -1
		case -1:
			return 1
		}
	}
	return 0
}

// under returns the outcome restricted to the cases where t holds.
func (o *Out) under(ts ...*Term) []*Facts {
	cur := []*Facts{o.st.f}
	for _, t := range ts {
		var next []*Facts
		for _, g := range cur {
			next = append(next, g.split(t)...)
		}
		cur = next
	}
	var out []*Facts
	for _, g := range cur {
		if h := g.saturate(); h != nil {
			out = append(out, h)
		}
	}
	return out
}

// show prints a term under the facts.
func showT(t *Term) string {
	if t == nil {
		return "(unknown)"
	}
	return cut(t.str(8), 700)
}

// same compares a result with its specification.
func (o *Out) same(rule string, got, want *Term) bool {
	ok := got != nil && want != nil && o.st.f.same(got, want)
	if !ok && got != nil && want != nil && got.sort == want.sort {
		// equal in every case of a pending case distinction
		switch got.sort {
		case SInt:
			ok = o.st.f.implied(o.st.f.EqI(got, want))
		case SSeq:
			ok = o.st.f.implied(o.st.f.Eqs(got, want))
		}
	}
	d := ""
	if !ok {
		d = "got " + showT(got) + "; specified " + showT(want)
	}
	return o.ob(rule, ok, d)
}

// exact checks that a fallible operation succeeds exactly under valid: succeeding
// outcomes imply every condition, failing ones contradict their conjunction.
func (o *Out) exact(what string, valid []named) bool {
	switch o.failed() {
	case -1:
		all := true
		for _, v := range valid {
			t := v.t(o.st.f)
			ok := o.st.f.implied(t)
			all = all && ok
			o.ob(what+" succeeds only if "+v.n, ok, "not implied on a succeeding path: "+showT(t))
		}
		return all
	case 1:
		cur := []*Facts{o.st.f}
		for _, v := range valid {
			var next []*Facts
			for _, g := range cur {
				next = append(next, g.split(v.t(g))...)
			}
			cur = next
		}
		ok := true
		for _, g := range cur {
			if h := g.saturate(); h != nil {
				ok = false
			}
		}
		return o.ob(what+" fails only on invalid input", ok, "a valid input is refused")
	}
	return o.ob(what+" returns a result or an error", false, "unclear outcome")
}

type named struct {
	n string
	t func(f *Facts) *Term
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
