package main

// Abstract values, the abstract heap and the event log.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract Go value: *Term for numbers, truth values and strings, or one of
// the following.
type Val interface{}

// Nil is the nil pointer, slice, map, function or interface.
type Nil struct{}

// Ptr points to a heap object, a field of it (path) or an element (idx).
type Ptr struct {
	obj  int
	path string
	idx  *Term
}

// SliceV is a Go slice.
type SliceV struct {
	base        Ptr
	lo, ln, cap *Term
}

// StructV is a struct value.
type StructV struct{ fs []Val }

// ListV is an array or the backing store of a slice whose elements are not bytes.
type ListV struct{ es []Val }

// IfaceV is a non-nil interface value.
type IfaceV struct {
	typ types.Type
	v   Val
}

// ErrV is a non-nil error; terms is the material its text may contain.
type ErrV struct {
	what  string
	terms []*Term
}

// FuncV is a function value.
type FuncV struct {
	fn   *ssa.Function
	bind []Val
}

// HashV is the state of a hash.Hash.
type HashV struct {
	alg  string
	key  *Term
	data *Term
}

// MapV is a map: explicit entries, or the inverse of a word list.
type MapV struct {
	ks, vs []Val
	famL   *Term           // keys are the elements of this list
	famV   func(*Term) Val // value for an index
	opaque bool
}

// OpqV is a value nothing is known about.
type OpqV struct{ name string }

// TupleV is a multi-value.
type TupleV []Val

// Obj is a heap object.
type Obj struct {
	val    Val
	typ    types.Type
	kind   string // "local", "arg", "global"
	origin string
	share  int // the object whose digits this big.Int shares
}

// Ev is an entry of the event log (a persistent list).
type Ev struct {
	prev  *Ev
	kind  string
	what  string
	pos   token.Pos
	fn    string
	terms []*Term
	n     int
}

// State is an abstract state.
type State struct {
	heap map[int]*Obj
	f    *Facts
	ev   *Ev
}

func (s *State) clone() *State {
	h := make(map[int]*Obj, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{h, s.f, s.ev}
}

func (s *State) with(f *Facts) *State {
	n := s.clone()
	n.f = f
	return n
}

func (s *State) event(kind, what string, pos token.Pos, fn string, terms ...*Term) {
	n := 1
	if s.ev != nil {
		n = s.ev.n + 1
	}
	s.ev = &Ev{s.ev, kind, what, pos, fn, terms, n}
}

// events lists the log, oldest first.
func (s *State) events() []*Ev {
	var r []*Ev
	for e := s.ev; e != nil; e = e.prev {
		r = append(r, e)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// eventsSince lists what was logged after base.
func (s *State) eventsSince(base *Ev) []*Ev {
	var r []*Ev
	for e := s.ev; e != nil && e != base; e = e.prev {
		r = append(r, e)
	}
	return r
}

var objCnt int

func (s *State) alloc(typ types.Type, v Val, origin string) Ptr {
	objCnt++
	s.heap[objCnt] = &Obj{v, typ, "local", origin, 0}
	return Ptr{obj: objCnt}
}

func (s *State) allocKind(typ types.Type, v Val, kind, origin string) Ptr {
	p := s.alloc(typ, v, origin)
	s.heap[p.obj].kind = kind
	return p
}

func pathElems(p string) []int {
	if p == "" {
		return nil
	}
	var r []int
	for _, e := range strings.Split(p, ".") {
		n, _ := strconv.Atoi(e)
		r = append(r, n)
	}
	return r
}

func (p Ptr) field(i int) Ptr {
	if p.path == "" {
		return Ptr{p.obj, strconv.Itoa(i), nil}
	}
	return Ptr{p.obj, p.path + "." + strconv.Itoa(i), nil}
}

// get follows a path inside a value.
func get(v Val, path []int) Val {
	for _, i := range path {
		switch w := v.(type) {
		case *StructV:
			if i >= len(w.fs) {
				return OpqV{"field"}
			}
			v = w.fs[i]
		case *ListV:
			if i >= len(w.es) {
				return OpqV{"index"}
			}
			v = w.es[i]
		default:
			return OpqV{"path"}
		}
	}
	return v
}

// put replaces what is at the end of a path.
func put(v Val, path []int, n Val) Val {
	if len(path) == 0 {
		return n
	}
	switch w := v.(type) {
	case *StructV:
		fs := append([]Val(nil), w.fs...)
		if path[0] < len(fs) {
			fs[path[0]] = put(fs[path[0]], path[1:], n)
		}
		return &StructV{fs}
	case *ListV:
		es := append([]Val(nil), w.es...)
		if path[0] < len(es) {
			es[path[0]] = put(es[path[0]], path[1:], n)
		}
		return &ListV{es}
	}
	return v
}

// load reads through a pointer.
func (s *State) load(p Ptr) Val {
	o := s.heap[p.obj]
	if o == nil {
		return OpqV{"dangling"}
	}
	v := get(o.val, pathElems(p.path))
	if p.idx != nil {
		return s.elemOf(v, p.idx)
	}
	return v
}

// either is the choice between two entries by an index that is 0 or 1: numbers, or texts
// of the same length.
func (f *Facts) either(es []*Term, idx *Term) *Term {
	if len(es) != 2 || !is01(f.bounds(idx)) {
		return nil
	}
	pick := func(a, b *Term) *Term { return f.Add(a, f.Scale(idx, new(big.Int).Sub(b.n, a.n))) }
	a, b := es[0], es[1]
	if a.isInt() && b.isInt() {
		return pick(a, b)
	}
	if !a.isStr() || !b.isStr() || len(a.s) != len(b.s) {
		return nil
	}
	var ps []*Term
	for i := range a.s {
		ps = append(ps, f.Unit(pick(tI(int64(a.s[i])), tI(int64(b.s[i])))))
	}
	return f.Cat(ps...)
}

func (s *State) elemOf(v Val, idx *Term) Val {
	idx = s.f.renorm(idx)
	switch w := v.(type) {
	case *Term:
		if w.sort == SSeq {
			return s.f.At(w, idx)
		}
		if w.sort == SList {
			return s.f.Elem(w, idx)
		}
	case *ListV:
		if k, ok := idx.i64(); ok && k >= 0 && k < int64(len(w.es)) {
			return w.es[k]
		}
		// all elements alike?
		if len(w.es) > 0 {
			same := true
			for _, e := range w.es[1:] {
				if !valEq(s.f, e, w.es[0]) {
					same = false
					break
				}
			}
			if same {
				return w.es[0]
			}
			// a table of constants
			if t, ok := w.es[0].(*Term); ok {
				var args []*Term
				for _, e := range w.es {
					et, ok := e.(*Term)
					if !ok {
						return OpqV{"elem"}
					}
					args = append(args, et)
				}
				if t := s.f.either(args, idx); t != nil {
					return t
				}
				return opq(t.sort, "table", append(args, idx)...)
			}
		}
	}
	return OpqV{"elem"}
}

// storeRaw writes without logging.
func (s *State) storeRaw(p Ptr, n Val) {
	o := s.heap[p.obj]
	if o == nil {
		return
	}
	path := pathElems(p.path)
	if p.idx != nil {
		v := get(o.val, path)
		idx := s.f.renorm(p.idx)
		switch w := v.(type) {
		case *Term:
			if w.sort == SSeq {
				if t, ok := n.(*Term); ok {
					n = s.f.Cat(s.f.Slice(w, tI(0), idx), s.f.Unit(t), s.f.Slice(w, s.f.AddK(idx, 1), s.f.Len(w)))
				} else {
					n = tVar(SSeq, freshName("havoc"))
				}
			} else {
				n = tVar(w.sort, freshName("havoc"))
			}
		case *ListV:
			if k, ok := idx.i64(); ok && k >= 0 && k < int64(len(w.es)) {
				es := append([]Val(nil), w.es...)
				es[k] = n
				n = &ListV{es}
			} else {
				es := make([]Val, len(w.es))
				for i := range es {
					if t, ok := w.es[i].(*Term); ok {
						es[i] = tVar(t.sort, freshName("havoc"))
					} else {
						es[i] = OpqV{"havoc"}
					}
				}
				n = &ListV{es}
			}
		default:
			n = OpqV{"store"}
		}
	}
	s.heap[p.obj] = &Obj{put(o.val, path, n), o.typ, o.kind, o.origin, o.share}
}

var freshCnt int

func freshName(s string) string {
	freshCnt++
	return fmt.Sprintf("%%%s%d", s, freshCnt)
}

// ---- comparing and joining ----

func valEq(f *Facts, a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && (x == y || x.sort == y.sort && f.renorm(x) == f.renorm(y))
	case Ptr:
		y, ok := b.(Ptr)
		if !ok || x.obj != y.obj || x.path != y.path || (x.idx == nil) != (y.idx == nil) {
			return false
		}
		return x.idx == nil || valEq(f, x.idx, y.idx)
	case SliceV:
		y, ok := b.(SliceV)
		return ok && valEq(f, x.base, y.base) && valEq(f, x.lo, y.lo) && valEq(f, x.ln, y.ln) && valEq(f, x.cap, y.cap)
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.fs) != len(y.fs) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.fs {
			if !valEq(f, x.fs[i], y.fs[i]) {
				return false
			}
		}
		return true
	case *ListV:
		y, ok := b.(*ListV)
		if !ok || len(x.es) != len(y.es) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.es {
			if !valEq(f, x.es[i], y.es[i]) {
				return false
			}
		}
		return true
	case IfaceV:
		y, ok := b.(IfaceV)
		return ok && types.Identical(x.typ, y.typ) && valEq(f, x.v, y.v)
	case *HashV:
		y, ok := b.(*HashV)
		return ok && (x == y || x.alg == y.alg && x.key == y.key && valEq(f, x.data, y.data))
	case *FuncV:
		y, ok := b.(*FuncV)
		return ok && (x == y || x.fn == y.fn && len(x.bind) == 0 && len(y.bind) == 0)
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !valEq(f, x[i], y[i]) {
				return false
			}
		}
		return true
	case *MapV, *ErrV:
		return a == b
	case nil:
		return b == nil
	}
	return a == b
}

// ite joins two values under a condition; ok is false when there is no common form.
func (f *Facts) ite(c *cases, a, b Val) (Val, bool) {
	if valEq(f, a, b) {
		return a, true
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if ok1 && ok2 && x.sort == y.sort {
		if t := f.iteT(c, x, y); t != nil {
			return t, true
		}
		return nil, false
	}
	if x, ok := a.(*StructV); ok {
		if y, ok := b.(*StructV); ok && len(x.fs) == len(y.fs) {
			fs := make([]Val, len(x.fs))
			for i := range fs {
				v, ok := f.ite(c, x.fs[i], y.fs[i])
				if !ok {
					return nil, false
				}
				fs[i] = v
			}
			return &StructV{fs}, true
		}
	}
	if x, ok := a.(*ListV); ok {
		if y, ok := b.(*ListV); ok && len(x.es) == len(y.es) {
			es := make([]Val, len(x.es))
			for i := range es {
				v, ok := f.ite(c, x.es[i], y.es[i])
				if !ok {
					return nil, false
				}
				es[i] = v
			}
			return &ListV{es}, true
		}
	}
	if x, ok := a.(TupleV); ok {
		if y, ok := b.(TupleV); ok && len(x) == len(y) {
			es := make(TupleV, len(x))
			for i := range es {
				v, ok := f.ite(c, x[i], y[i])
				if !ok {
					return nil, false
				}
				es[i] = v
			}
			return es, true
		}
	}
	return nil, false
}

// cases are the two sides of a condition.
type cases struct {
	c    *Term
	p, q *Facts // where it holds and where it does not
}

func (f *Facts) iteT(cs *cases, a, b *Term) *Term {
	if a == b {
		return a
	}
	c := cs.c
	// a form that is right in both cases
	if a.sort == SSeq || a.sort == SInt {
		if cs.q.renorm(a) == cs.q.renorm(b) {
			return a
		}
		if cs.p.renorm(b) == cs.p.renorm(a) {
			return b
		}
	}
	switch a.sort {
	case SBool:
		if a.op == "bool" && b.op == "bool" {
			if a.b {
				return c
			}
			return f.Not(c)
		}
		return nil
	case SInt:
		d := f.Sub(a, b)
		if d.isInt() {
			// a big number other than a power of two is kept apart: its sums are compared
			// with bounds that only hold in one of the cases
			if m := new(big.Int).Abs(d.n); m.BitLen() > 40 && m.TrailingZeroBits() != uint(m.BitLen()-1) {
				return nil
			}
			return f.Add(b, f.Scale(f.B2I(c), d.n))
		}
		return nil
	case SSeq:
		a, b = cs.p.renorm(a), cs.q.renorm(b)
		pa, pb := parts(a), parts(b)
		i := 0
		for i < len(pa) && i < len(pb) && pa[i] == pb[i] {
			i++
		}
		j := 0
		for j < len(pa)-i && j < len(pb)-i && pa[len(pa)-1-j] == pb[len(pb)-1-j] {
			j++
		}
		ra, rb := f.Cat(pa[i:len(pa)-j]...), f.Cat(pb[i:len(pb)-j]...)
		na, ok1 := f.lenK(ra)
		nb, ok2 := f.lenK(rb)
		if !ok1 || !ok2 || na != nb || na > 300 {
			return nil
		}
		var mid []*Term
		for k := int64(0); k < na; k++ {
			u := f.iteT(cs, f.At(ra, tI(k)), f.At(rb, tI(k)))
			if u == nil {
				return nil
			}
			mid = append(mid, f.Unit(u))
		}
		return f.Cat(append(append(append([]*Term{}, pa[:i]...), mid...), pa[len(pa)-j:]...)...)
	}
	return nil
}

// termsOf collects the terms inside a value (following pointers).
func (s *State) termsOf(v Val, seen map[int]bool) []*Term {
	if seen == nil {
		seen = map[int]bool{}
	}
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case Ptr:
		if seen[x.obj] {
			return nil
		}
		seen[x.obj] = true
		if o := s.heap[x.obj]; o != nil {
			if x.idx != nil || x.path != "" {
				return s.termsOf(s.load(x), seen)
			}
			return s.termsOf(o.val, seen)
		}
	case SliceV:
		v := s.load(x.base)
		if t, ok := v.(*Term); ok && t.sort == SSeq {
			return []*Term{s.f.Slice(t, x.lo, s.f.Add(x.lo, x.ln))}
		}
		return s.termsOf(v, seen)
	case *StructV:
		var r []*Term
		for _, e := range x.fs {
			r = append(r, s.termsOf(e, seen)...)
		}
		return r
	case *ListV:
		var r []*Term
		for _, e := range x.es {
			r = append(r, s.termsOf(e, seen)...)
		}
		return r
	case IfaceV:
		return s.termsOf(x.v, seen)
	case *ErrV:
		return x.terms
	case *HashV:
		return []*Term{x.data}
	case *FuncV:
		var r []*Term
		for _, e := range x.bind {
			r = append(r, s.termsOf(e, seen)...)
		}
		return r
	case *MapV:
		var r []*Term
		for i := range x.ks {
			r = append(r, s.termsOf(x.ks[i], seen)...)
			r = append(r, s.termsOf(x.vs[i], seen)...)
		}
		return r
	case TupleV:
		var r []*Term
		for _, e := range x {
			r = append(r, s.termsOf(e, seen)...)
		}
		return r
	}
	return nil
}

func showVal(s *State, v Val) string {
	switch x := v.(type) {
	case *Term:
		return s.f.renorm(x).String()
	case Ptr:
		o := s.heap[x.obj]
		if o == nil {
			return "&?"
		}
		return "&" + showVal(s, s.load(x))
	case SliceV:
		t := s.termsOf(x, nil)
		if len(t) == 1 {
			return "slice " + s.f.renorm(t[0]).String()
		}
		return fmt.Sprintf("slice of %d", len(t))
	case *StructV:
		var p []string
		for _, e := range x.fs {
			p = append(p, showVal(s, e))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case *ListV:
		return fmt.Sprintf("list of %d", len(x.es))
	case Nil:
		return "nil"
	case *ErrV:
		return "error(" + x.what + ")"
	case IfaceV:
		return x.typ.String() + ":" + showVal(s, x.v)
	}
	return fmt.Sprintf("%T", v)
}

// sameReach tells whether what vs reach, and with globals the package's variables, are the same in st as
// in an earlier heap.
func sameReach(st *State, old map[int]*Obj, vs []Val, globals bool) bool {
	seen := map[int]bool{}
	var obj func(id int) bool
	var walk func(v Val) bool
	obj = func(id int) bool {
		if seen[id] {
			return true
		}
		seen[id] = true
		a, b := old[id], st.heap[id]
		if b == nil || a == nil && b.kind == "global" {
			return true
		}
		if a != b && (a == nil || !valEq(st.f, a.val, b.val)) {
			return false
		}
		return walk(b.val)
	}
	walk = func(v Val) bool {
		switch w := v.(type) {
		case Ptr:
			return obj(w.obj)
		case SliceV:
			return walk(w.base)
		case IfaceV:
			return walk(w.v)
		case *StructV:
			for _, f := range w.fs {
				if !walk(f) {
					return false
				}
			}
		case *ListV:
			for _, f := range w.es {
				if !walk(f) {
					return false
				}
			}
		case *FuncV:
			for _, f := range w.bind {
				if !walk(f) {
					return false
				}
			}
		}
		return true
	}
	for _, v := range vs {
		if !walk(v) {
			return false
		}
	}
	for id, o := range st.heap {
		if globals && o.kind == "global" && !obj(id) {
			return false
		}
	}
	return true
}
