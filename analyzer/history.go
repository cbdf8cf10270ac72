package main

// Histories. Where the package keeps state between calls, a call is analysed not only
// from the state initialisation leaves but also from the states other calls leave.
//
// sync.Map, sync.Pool, sync.Once, atomics: modelled here, because they are what state
// between calls is made of.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// onceDone replaces a sync.Once that has run.
type onceDone struct{}

// poolV is a sync.Pool with items in it.
type poolV struct{ items []Val }

// varPrefix is put before the names of the inputs of an earlier call.
var varPrefix string

// lookup splits on which entry of a map a key meets.
func (x *Interp) lookupMap(st *State, mv *MapV, k Val) (hits []struct {
	st *State
	v  Val
}, miss []*State, ok bool) {
	rest := []*State{st}
	if mv.opaque {
		return nil, nil, false
	}
	if mv.famL != nil {
		kt, isT := k.(*Term)
		if !isT {
			return nil, nil, false
		}
		kt = st.f.renorm(kt)
		var next []*State
		for _, q := range rest {
			in := q.f.In(mv.famL, kt)
			for _, g := range q.f.split(in) {
				hits = append(hits, struct {
					st *State
					v  Val
				}{q.with(g), mv.famV(g.IdxOf(mv.famL, kt))})
			}
			for _, g := range q.f.split(q.f.Not(in)) {
				next = append(next, q.with(g))
			}
		}
		rest = next
	}
	for i := len(mv.ks) - 1; i >= 0; i-- {
		var next []*State
		for _, q := range rest {
			e, ok := x.eqVal(q, mv.ks[i], k)
			if !ok {
				return nil, nil, false
			}
			for _, g := range q.f.split(e) {
				hits = append(hits, struct {
					st *State
					v  Val
				}{q.with(g), mv.vs[i]})
			}
			for _, g := range q.f.split(q.f.Not(e)) {
				next = append(next, q.with(g))
			}
		}
		rest = next
	}
	return hits, rest, true
}

// putMap is the map with one more entry, or nil if the outcome is not clear.
func (x *Interp) putMap(st *State, m *MapV, k, v Val) *MapV {
	n := &MapV{opaque: m.opaque, famL: m.famL, famV: m.famV}
	for i := range m.ks {
		if !valEq(st.f, m.ks[i], k) {
			n.ks, n.vs = append(n.ks, m.ks[i]), append(n.vs, m.vs[i])
		}
	}
	// lookups go from the newest entry to the oldest
	n.ks, n.vs = append(n.ks, k), append(n.vs, v)
	return n
}

func (m *mctx) recv() (Ptr, bool) {
	if len(m.args) == 0 {
		return Ptr{}, false
	}
	p, ok := m.args[0].(Ptr)
	return p, ok
}

// keep makes what a value reaches part of the object it is stored in.
func (m *mctx) keep(p Ptr, v Val) {
	o := m.st.heap[p.obj]
	if o == nil || o.kind != "global" {
		return
	}
	m.st.adopt(v, o.origin+" (kept)")
}

// adopt turns local objects reachable from a value into package state.
func (s *State) adopt(v Val, origin string) {
	switch w := v.(type) {
	case Ptr:
		o := s.heap[w.obj]
		if o == nil || o.kind != "local" {
			return
		}
		c := *o
		c.kind, c.origin = "global", origin
		s.heap[w.obj] = &c
		s.adopt(c.val, origin)
	case SliceV:
		s.adopt(w.base, origin)
	case IfaceV:
		s.adopt(w.v, origin)
	case *StructV:
		for _, e := range w.fs {
			s.adopt(e, origin)
		}
	case *ListV:
		for _, e := range w.es {
			s.adopt(e, origin)
		}
	case *MapV:
		for _, e := range w.vs {
			s.adopt(e, origin)
		}
	}
}

func (m *mctx) syncMap(meth string) ([]ret, bool) {
	p, ok := m.recv()
	if !ok {
		return nil, false
	}
	m.x.noteRead(m.st, p, m.pos)
	mv, ok := m.st.load(p).(*MapV)
	if !ok {
		mv = &MapV{}
	}
	switch meth {
	case "Load", "LoadOrStore", "LoadAndDelete":
		hits, miss, ok := m.x.lookupMap(m.st, mv, m.args[1])
		if !ok {
			return nil, false
		}
		var r []ret
		for _, h := range hits {
			if meth == "LoadAndDelete" {
				m.x.store(h.st, p, &MapV{opaque: true}, m.pos)
			}
			r = append(r, ret{h.st, []Val{h.v, tTrue}})
		}
		for _, s := range miss {
			if meth == "LoadOrStore" {
				m.x.store(s, p, m.x.putMap(s, mv, m.args[1], m.args[2]), m.pos)
				(&mctx{st: s}).keep(p, m.args[2])
				r = append(r, ret{s, []Val{m.args[2], tFalse}})
			} else {
				r = append(r, ret{s, []Val{Nil{}, tFalse}})
			}
		}
		return r, true
	case "Store":
		m.x.store(m.st, p, m.x.putMap(m.st, mv, m.args[1], m.args[2]), m.pos)
		m.keep(p, m.args[2])
		return m.one(), true
	case "Delete", "Clear":
		m.x.store(m.st, p, &MapV{opaque: len(mv.ks) > 0 && meth == "Delete"}, m.pos)
		return m.one(), true
	}
	m.x.store(m.st, p, &MapV{opaque: true}, m.pos)
	return nil, false
}

func (m *mctx) syncPool(meth string) ([]ret, bool) {
	p, ok := m.recv()
	if !ok {
		return nil, false
	}
	switch meth {
	case "Put":
		pv, _ := m.st.load(p).(*poolV)
		n := &poolV{}
		if pv != nil {
			n.items = append(n.items, pv.items...)
		}
		n.items = append(n.items, m.args[1])
		if o := m.st.heap[p.obj]; o != nil {
			// the pool's New stays with the pool
			m.x.pools[o.origin+p.path] = m.x.poolNew(m.st, p)
		}
		m.st.storeRaw(p, n)
		m.st.event("keeps", "sync.Pool", m.pos, m.x.curFn(), m.allTerms()...)
		m.keep(p, m.args[1])
		return m.one(), true
	case "Get":
		var r []ret
		pv, _ := m.st.load(p).(*poolV)
		if pv != nil {
			for _, it := range pv.items {
				s := m.st.clone()
				// whoever takes an item owns it
				if q, ok := it.(IfaceV); ok {
					if w, ok := q.v.(Ptr); ok {
						if o := s.heap[w.obj]; o != nil {
							c := *o
							c.kind = "local"
							s.heap[w.obj] = &c
						}
					}
					if w, ok := q.v.(SliceV); ok {
						if o := s.heap[w.base.obj]; o != nil {
							c := *o
							c.kind = "local"
							s.heap[w.base.obj] = &c
						}
					}
				}
				s.storeRaw(p, &poolV{})
				r = append(r, ret{s, []Val{it}})
			}
		}
		fv := m.x.poolNew(m.st, p)
		if fv == nil {
			return append(r, m.one(Nil{})...), true
		}
		rs, ex := m.x.Call(fv.fn, nil, fv.bind, m.st, m.pos)
		m.ex = append(m.ex, ex...)
		return append(r, rs...), true
	}
	return nil, false
}

// poolNew finds the New function of a pool.
func (x *Interp) poolNew(st *State, p Ptr) *FuncV {
	switch v := st.load(p).(type) {
	case *StructV:
		for _, e := range v.fs {
			if f, ok := e.(*FuncV); ok {
				return f
			}
		}
	case *poolV:
		if o := st.heap[p.obj]; o != nil {
			return x.pools[o.origin+p.path]
		}
	}
	return nil
}

func (m *mctx) once() ([]ret, bool) {
	p, ok := m.recv()
	if !ok {
		return nil, false
	}
	if _, done := m.st.load(p).(onceDone); done {
		m.x.noteRead(m.st, p, m.pos)
		return m.one(), true
	}
	fv, ok := m.args[1].(*FuncV)
	if !ok {
		return nil, false
	}
	base := m.st.ev
	rs, ex := m.x.Call(fv.fn, nil, fv.bind, m.st, m.pos)
	m.ex = append(m.ex, ex...)
	for i := range rs {
		evs := rs[i].st.eventsSince(base)
		rs[i].st.ev = base
		for j := len(evs) - 1; j >= 0; j-- {
			// what is written once and for all is not a change of state unless it
			// depends on who came first
			if evs[j].kind == "write-global" && !varies(evs[j].terms) {
				continue
			}
			rs[i].st.event(evs[j].kind, evs[j].what, evs[j].pos, evs[j].fn, evs[j].terms...)
		}
		rs[i].st.storeRaw(p, onceDone{})
		rs[i].st.event("keeps", "sync.Once", m.pos, m.x.curFn())
		rs[i].vals = nil
	}
	return rs, true
}

// varies reports whether values depend on inputs or chance.
func varies(ts []*Term) bool {
	for _, t := range ts {
		if t != nil && t.has(func(u *Term) bool { return u.op == "var" && u.sort != SBool || u.op == "randbytes" }) {
			return true
		}
	}
	return false
}

// atomic models sync/atomic.
func (m *mctx) atomic(name string) ([]ret, bool) {
	p, ok := m.recv()
	if !ok {
		return nil, false
	}
	zero := func() Val {
		switch v := m.st.load(p).(type) {
		case *StructV:
			if strings.Contains(m.name, "atomic.Value") || strings.Contains(m.name, "atomic.Pointer") {
				return Nil{}
			}
			if strings.Contains(m.name, "atomic.Bool") {
				return tFalse
			}
			return tI(0)
		default:
			return v
		}
	}
	switch {
	case strings.HasPrefix(name, "Load"):
		m.x.noteRead(m.st, p, m.pos)
		return m.one(zero()), true
	case strings.HasPrefix(name, "Store"):
		m.x.store(m.st, p, m.args[1], m.pos)
		m.keep(p, m.args[1])
		return m.one(), true
	case strings.HasPrefix(name, "Swap"):
		m.x.noteRead(m.st, p, m.pos)
		v := zero()
		m.x.store(m.st, p, m.args[1], m.pos)
		m.keep(p, m.args[1])
		return m.one(v), true
	case strings.HasPrefix(name, "Add"):
		m.x.noteRead(m.st, p, m.pos)
		a, ok1 := zero().(*Term)
		b, ok2 := m.term(1)
		if !ok1 || !ok2 || m.sig.Results().Len() != 1 {
			return nil, false
		}
		v := wrap(m.f(), m.f().Add(a, b), m.sig.Results().At(0).Type())
		m.x.store(m.st, p, v, m.pos)
		return m.one(v), true
	case strings.HasPrefix(name, "CompareAndSwap"):
		m.x.noteRead(m.st, p, m.pos)
		e, ok := m.x.eqVal(m.st, zero(), m.args[1])
		if !ok {
			m.x.store(m.st, p, m.args[2], m.pos)
			return nil, false
		}
		return m.branch(e, func(m *mctx) []ret {
			s := m.st.clone()
			m.x.store(s, p, m.args[2], m.pos)
			(&mctx{st: s}).keep(p, m.args[2])
			return []ret{{s, []Val{tTrue}}}
		}, func(m *mctx) []ret { return m.one(tFalse) }), true
	}
	m.x.store(m.st, p, OpqV{"atomic"}, m.pos)
	return nil, false
}

// keepsState reports whether the code of the package may keep something between calls:
// it writes through a package-level variable or uses the primitives meant for that.
func (s *Session) keepsState() string {
	var root func(v ssa.Value, d int) bool
	root = func(v ssa.Value, d int) bool {
		if d > 12 {
			return false
		}
		switch w := v.(type) {
		case *ssa.Global:
			return true
		case *ssa.FieldAddr:
			return root(w.X, d+1)
		case *ssa.IndexAddr:
			return root(w.X, d+1)
		case *ssa.Field:
			return root(w.X, d+1)
		case *ssa.UnOp:
			return root(w.X, d+1)
		case *ssa.Slice:
			return root(w.X, d+1)
		case *ssa.Lookup:
			return root(w.X, d+1)
		case *ssa.Extract:
			return root(w.Tuple, d+1)
		case *ssa.Phi:
			for _, e := range w.Edges {
				if root(e, d+4) {
					return true
				}
			}
		case *ssa.MakeInterface:
			return root(w.X, d+1)
		case *ssa.TypeAssert:
			return root(w.X, d+1)
		}
		return false
	}
	var fns []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			return
		}
		fns = append(fns, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for q := range s.x.own {
		for _, m := range q.Members {
			switch v := m.(type) {
			case *ssa.Function:
				add(v)
			case *ssa.Type:
				for _, t := range []types.Type{v.Type(), types.NewPointer(v.Type())} {
					ms := s.p.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						add(s.p.prog.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				bad := false
				switch w := in.(type) {
				case *ssa.Store:
					bad = root(w.Addr, 0)
				case *ssa.MapUpdate:
					bad = root(w.Map, 0)
				case ssa.CallInstruction:
					c := w.Common()
					n := ""
					if g := c.StaticCallee(); g != nil {
						n = g.String()
						if strings.HasPrefix(n, "(*sync.Map)") || strings.HasPrefix(n, "(*sync.Pool)") || strings.HasPrefix(n, "(*sync.Once)") || strings.Contains(n, "sync/atomic.") {
							bad = true
						}
					}
					switch c.Value.(type) {
					case *ssa.Builtin:
						bad = bad || len(c.Args) > 0 && (c.Value.Name() == "delete" || c.Value.Name() == "copy" || c.Value.Name() == "clear") && root(c.Args[0], 0)
					}
					for i, a := range c.Args {
						// the address of a variable, or a receiver reached through one
						_, isG := a.(*ssa.Global)
						bad = bad || !strings.Contains(n, "ecdsa") && (isG || i == 0 && strings.HasPrefix(n, "(*") && root(a, 0) && mutator(n))
					}
				}
				if bad {
					return f.String()
				}
			}
		}
	}
	return ""
}

func mutator(n string) bool {
	i := strings.LastIndex(n, ".")
	switch n[i+1:] {
	case "Cmp", "Sign", "Bit", "BitLen", "Bytes", "String", "Text", "Int64", "Uint64", "CmpAbs", "FillBytes", "Lock", "Unlock", "RLock", "RUnlock", "IsInt64", "IsUint64", "ProbablyPrime", "Append", "Format":
		return false
	}
	return true
}

// histories analyses the property again from the states that earlier calls leave.
func (s *Session) histories(id string) {
	why := s.keepsState()
	if why == "" {
		return
	}
	violated := func(obs []*Ob) bool {
		for _, o := range obs {
			if o.Status == "violated" {
				return true
			}
		}
		return false
	}
	if violated(s.obs) {
		return // whatever earlier calls leave
	}
	type hist struct {
		st   *State
		name string
	}
	var hs []hist
	saved, scens, rets, exits := s.obs, s.scens, s.rets, s.exits
	varPrefix = "earlier "
	ops := s.ops()
	var names []string
	for n := range ops {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		n := n
		got := map[string]*hist{}
		var first, last string
		s.guard(n, func() {
			ops[n](func(c *Scen, in *In, outs []*Out) {
				for _, o := range outs {
					if o.ex != nil || o.fuzzy() != "" {
						continue
					}
					sig := ""
					for _, e := range o.st.eventsSince(s.base.ev) {
						if e.kind == "write-global" || e.kind == "keeps" {
							sig += fmt.Sprint(e.kind, e.pos, " ")
						}
					}
					if sig == "" {
						continue
					}
					key := sig + c.name
					got[key] = &hist{o.st, n + " [" + c.name + "]"}
					if first == "" {
						first = key
					}
					last = key
				}
			})
		})
		if first != "" {
			hs = append(hs, *got[first])
			if last != first {
				hs = append(hs, *got[last])
			}
		}
	}
	varPrefix = ""
	s.obs, s.scens, s.rets, s.exits = saved, scens, rets, exits
	s.ob("state between calls is analysed", why, "", true, "", "")
	base := s.base
	for i, h := range hs {
		if i == 12 || violated(s.obs) {
			break
		}
		if time.Now().After(s.end) {
			s.obs = append(s.obs, &Ob{Rule: "state between calls is analysed", Func: h.name, Status: "undecided", Detail: "time limit"})
			break
		}
		b := h.st.clone()
		for k, o := range b.heap {
			if o.kind != "global" {
				c := *o
				c.kind = "global"
				if o.origin == "" {
					c.origin = "an object of an earlier call"
				}
				b.heap[k] = &c
			}
		}
		s.base = b
		n := len(s.obs)
		props[id](s)
		for _, o := range s.obs[n:] {
			o.Scen = strings.TrimSpace(o.Scen + " after " + h.name)
		}
	}
	s.base = base
}
