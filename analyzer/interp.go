package main

// Trace-partitioned abstract interpretation of SSA: blocks are visited in reverse
// post-order, partitions that differ only in one test are joined again where their
// values have a common form, calls are analysed in their calling context.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type path struct {
	st     *State
	env    map[ssa.Value]Val
	defers []*deferred
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	pos  token.Pos
}

func (p *path) clone() *path {
	e := make(map[ssa.Value]Val, len(p.env))
	for k, v := range p.env {
		e[k] = v
	}
	return &path{p.st.clone(), e, p.defers}
}

func (p *path) withF(f *Facts) *path {
	q := p.clone()
	q.st.f = f
	return q
}

type ret struct {
	st   *State
	vals []Val
}

// exit is an abnormal end: panic, process exit.
type exit struct {
	st   *State
	kind string
	what string
	pos  token.Pos
	fn   string
}

type edge struct {
	to   *ssa.BasicBlock
	from *ssa.BasicBlock
	p    *path
}

type outcome struct {
	rets  []ret
	exits []exit
	backs []*path
	outs  []edge
}

func (o *outcome) add(q *outcome) {
	o.rets = append(o.rets, q.rets...)
	o.exits = append(o.exits, q.exits...)
	o.outs = append(o.outs, q.outs...)
}

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	parent *loopInfo
}

type funcInfo struct {
	rpo   []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]*loopInfo // by header
	irr   bool
}

// Interp is one analysis session.
type Interp struct {
	prog    *ssa.Program
	pkg     *ssa.Package
	own     map[*ssa.Package]bool // the packages analysed from source
	fset    *token.FileSet
	infos   map[*ssa.Function]*funcInfo
	globals map[*ssa.Global]int
	stack   []*frame
	steps   int
	limit   int
	// coverage
	fns       map[string]bool
	callSites map[token.Pos]bool
	blocks    map[*ssa.BasicBlock]bool
	loopsSeen map[token.Pos]string
	trace     bool
	reads     map[string]token.Pos // global objects that were read
	allWrites map[string]token.Pos // global objects that were written
	ext       map[string]bool      // external functions that were modelled
	pools     map[string]*FuncV    // New functions of pools
	thin      int                  // how many partitions are followed, 0: all
	thinned   bool                 // some were not
	issues    []issue              // loops without a bound and the like
}

func (x *Interp) noteRead(st *State, q Ptr, pos token.Pos) {
	if o := st.heap[q.obj]; o != nil && o.kind == "global" {
		if _, ok := x.reads[o.origin]; !ok {
			x.reads[o.origin] = pos
		}
	}
}

type frame struct {
	fn   *ssa.Function
	args []Val
	ev   *Ev
	heap map[int]*Obj
}

type tooBig struct{ msg string }

func (x *Interp) info(fn *ssa.Function) *funcInfo {
	if i, ok := x.infos[fn]; ok {
		return i
	}
	fi := &funcInfo{loops: map[*ssa.BasicBlock]*loopInfo{}}
	// post-order without back edges
	seen := map[*ssa.BasicBlock]bool{}
	var po []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if s.Dominates(b) {
				continue
			}
			if !seen[s] {
				dfs(s)
			}
		}
		po = append(po, b)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover] {
		dfs(fn.Recover)
	}
	for i := len(po) - 1; i >= 0; i-- {
		fi.rpo = append(fi.rpo, po[i])
	}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				var up func(b *ssa.BasicBlock)
				up = func(b *ssa.BasicBlock) {
					if l.body[b] {
						return
					}
					l.body[b] = true
					for _, q := range b.Preds {
						up(q)
					}
				}
				up(b)
			}
		}
	}
	// irreducible flow: a retreating edge that is not a back edge
	idx := map[*ssa.BasicBlock]int{}
	for i, b := range fi.rpo {
		idx[b] = i
	}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if !s.Dominates(b) && idx[s] <= idx[b] {
				fi.irr = true
			}
		}
	}
	x.infos[fn] = fi
	return fi
}

func (x *Interp) where(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := x.fset.Position(p)
	f := q.Filename
	for i := len(f) - 1; i >= 0; i-- {
		if f[i] == '/' {
			f = f[i+1:]
			break
		}
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (x *Interp) curFn() string {
	if len(x.stack) == 0 {
		return "?"
	}
	return x.stack[len(x.stack)-1].fn.RelString(x.pkg.Pkg)
}

// Call analyses fn on args from st.
func (x *Interp) Call(fn *ssa.Function, args []Val, bind []Val, st *State, pos token.Pos) ([]ret, []exit) {
	if fn.Blocks == nil {
		return x.model(fn.String(), fn.Signature, args, st, pos)
	}
	if !x.own[fn.Pkg] && fn.Pkg != nil && fn.Synthetic == "" {
		return x.model(fn.String(), fn.Signature, args, st, pos)
	}
	depth := 0
	for _, fr := range x.stack {
		if fr.fn == fn {
			depth++
			same := len(fr.args) == len(args)
			for i := range args {
				if same && !valEq(st.f, fr.args[i], args[i]) {
					same = false
				}
			}
			drew := false
			for _, e := range st.eventsSince(fr.ev) {
				if e.kind == "rand" || e.kind == "ambient" && strings.Contains(e.what, "and") {
					drew = true
				}
			}
			if same && !sameReach(st, fr.heap, args, !drew) {
				same = false // what the arguments point to has changed
			}
			if same {
				// a retry with the same arguments: whatever it returns is among what the
				// other partitions return
				kind := "recursion"
				if drew {
					kind = "retry"
				}
				s2 := st.clone()
				s2.event(kind, fn.RelString(x.pkg.Pkg), pos, x.curFn())
				return nil, []exit{{s2, kind, "recursion with the same arguments", pos, x.curFn()}}
			}
		}
	}
	if depth > 70 || len(x.stack) > 120 {
		s2 := st.clone()
		s2.event("unsupported", "recursion too deep in "+fn.String(), pos, x.curFn())
		return []ret{{s2, x.unknownResults(fn.Signature, fn.String(), nil, s2)}}, nil
	}
	x.fns[fn.RelString(x.pkg.Pkg)] = true
	x.stack = append(x.stack, &frame{fn, args, st.ev, st.clone().heap})
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	fi := x.info(fn)
	p := &path{st.clone(), map[ssa.Value]Val{}, nil}
	for i, prm := range fn.Params {
		p.env[prm] = args[i]
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			p.env[fv] = bind[i]
		}
	}
	if fi.irr {
		p.st.event("unsupported", "irreducible control flow in "+fn.String(), pos, x.curFn())
		return []ret{{p.st, x.unknownResults(fn.Signature, fn.String(), nil, p.st)}}, nil
	}
	o := x.region(fi, nil, fn.Blocks[0], []*path{p})
	if recovers(fn) {
		// a deferred call may turn the end of the process into a result
		for _, e := range o.exits {
			if e.kind == "panic" {
				e.st.event("unsupported", "deferred calls after a panic", e.pos, x.curFn())
			}
		}
	}
	return o.rets, o.exits
}

func (x *Interp) region(fi *funcInfo, l *loopInfo, start *ssa.BasicBlock, ps []*path) *outcome {
	o := &outcome{}
	pend := map[*ssa.BasicBlock][]*path{start: ps}
	for _, b := range fi.rpo {
		if l != nil && !l.body[b] {
			continue
		}
		cur := pend[b]
		if len(cur) == 0 {
			continue
		}
		delete(pend, b)
		cur = x.thinOut(x.merge(b, cur))
		if len(cur) > 3000 {
			panic(tooBig{"too many partitions in " + b.Parent().String()})
		}
		var es []edge
		if il := fi.loops[b]; il != nil && il != l {
			for _, p := range cur {
				q := x.loop(fi, il, p)
				o.rets = append(o.rets, q.rets...)
				o.exits = append(o.exits, q.exits...)
				es = append(es, q.outs...)
			}
		} else {
			x.blocks[b] = true
			for _, p := range cur {
				es = append(es, x.block(b, p, o)...)
			}
		}
		for _, e := range es {
			switch {
			case l != nil && e.to == l.header:
				o.backs = append(o.backs, e.p)
			case l != nil && !l.body[e.to]:
				o.outs = append(o.outs, e)
			default:
				pend[e.to] = append(pend[e.to], e.p)
			}
		}
	}
	return o
}

// thinOut keeps some of many partitions, when following all of them has proved too
// much. What is found on the others is still found; nothing is proved any more.
func (x *Interp) thinOut(ps []*path) []*path {
	if x.thin == 0 || len(ps) <= x.thin {
		return ps
	}
	x.thinned = true
	r := make([]*path, 0, x.thin)
	for i := 0; i < x.thin; i++ {
		r = append(r, ps[i*(len(ps)-1)/(x.thin-1)])
	}
	return r
}

// merge joins partitions at the start of b.
func (x *Interp) merge(b *ssa.BasicBlock, ps []*path) []*path {
	if len(ps) < 2 {
		return ps
	}
	out := append([]*path(nil), ps...)
	for again := true; again; {
		again = false
		// group by the facts the partition was split from
		byParent := map[*Facts][]int{}
		for i, p := range out {
			if p != nil && p.st.f.parent != nil {
				byParent[p.st.f.parent] = append(byParent[p.st.f.parent], i)
			}
		}
		for i, p := range out {
			if p == nil || p.st.f.parent == nil {
				continue
			}
			for _, j := range byParent[p.st.f.parent] {
				if j <= i || out[j] == nil || out[i] == nil {
					continue
				}
				if m := x.join(b, out[i], out[j]); m != nil {
					out[i], out[j] = m, nil
					again = true
				}
			}
		}
	}
	r := out[:0]
	for _, p := range out {
		if p != nil {
			r = append(r, p)
		}
	}
	return r
}

func (x *Interp) join(b *ssa.BasicBlock, p, q *path) *path {
	fp, fq := p.st.f, q.st.f
	if fp == fq || fp.parent != fq.parent || fp.parent == nil {
		return nil
	}
	if p.st.ev != q.st.ev || len(p.defers) != len(q.defers) {
		return nil
	}
	base := fp.parent
	if base.Not(fp.lit) != fq.lit {
		return nil
	}
	c := &cases{fp.lit, fp, fq}
	// heap
	var chg []int
	for id, a := range p.st.heap {
		if o, ok := q.st.heap[id]; ok && o != a {
			chg = append(chg, id)
		}
	}
	env := map[ssa.Value]Val{}
	for k, v := range p.env {
		w, ok := q.env[k]
		if !ok {
			continue
		}
		if d, isI := k.(ssa.Instruction); isI {
			db := d.Block()
			if db != nil && db != b && !db.Dominates(b) {
				continue
			}
		}
		m, ok := base.ite(c, v, w)
		if !ok {
			return nil
		}
		env[k] = m
	}
	sort.Ints(chg)
	repl := map[int]*Obj{}
	for _, id := range chg {
		a, o := p.st.heap[id], q.st.heap[id]
		m, ok := base.ite(c, a.val, o.val)
		if !ok {
			return nil
		}
		repl[id] = &Obj{m, a.typ, a.kind, a.origin, a.share}
	}
	st := p.st.clone()
	for id, o := range q.st.heap {
		if _, ok := st.heap[id]; !ok {
			st.heap[id] = o
		}
	}
	for id, o := range repl {
		st.heap[id] = o
	}
	st.f = base
	return &path{st, env, p.defers}
}

// block runs the instructions of b and returns the outgoing edges.
func (x *Interp) block(b *ssa.BasicBlock, p *path, o *outcome) []edge {
	cur := []*path{p}
	for _, in := range b.Instrs {
		x.steps++
		if x.limit > 0 && x.steps > x.limit {
			panic(tooBig{"step limit"})
		}
		switch in := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			var es []edge
			for _, p := range cur {
				c, ok := p.env2(x, in.Cond).(*Term)
				if !ok {
					p.st.event("unsupported", "branch on unknown value", in.Cond.Pos(), x.curFn())
					c = tVar(SBool, freshName("cond"))
				}
				c = p.st.f.renorm(c)
				for i, t := range []*Term{c, p.st.f.Not(c)} {
					fs := p.st.f.split(t)
					for _, f := range fs {
						es = append(es, x.goEdge(b, b.Succs[i], p.withF(f)))
					}
				}
			}
			return es
		case *ssa.Jump:
			var es []edge
			for _, p := range cur {
				es = append(es, x.goEdge(b, b.Succs[0], p))
			}
			return es
		case *ssa.Return:
			for _, p := range cur {
				vs := make([]Val, len(in.Results))
				for i, r := range in.Results {
					vs[i] = p.env2(x, r)
				}
				o.rets = append(o.rets, ret{p.st, vs})
			}
			return nil
		case *ssa.Panic:
			for _, p := range cur {
				v := p.env2(x, in.X)
				p.st.event("panic", "panic", in.Pos(), x.curFn(), p.st.termsOf(v, nil)...)
				o.exits = append(o.exits, exit{p.st, "panic", "explicit panic", in.Pos(), x.curFn()})
			}
			return nil
		}
		var next []*path
		for _, p := range cur {
			next = append(next, x.step(p, in, o)...)
		}
		cur = next
		if len(cur) == 0 {
			return nil
		}
		if len(cur) > 3000 {
			panic(tooBig{"too many partitions"})
		}
	}
	return nil
}

func (x *Interp) goEdge(from, to *ssa.BasicBlock, p *path) edge {
	k := -1
	for i, q := range to.Preds {
		if q == from {
			k = i
		}
	}
	var upd []struct {
		v ssa.Value
		w Val
	}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		upd = append(upd, struct {
			v ssa.Value
			w Val
		}{ph, p.env2(x, ph.Edges[k])})
	}
	for _, u := range upd {
		p.env[u.v] = u.w
	}
	return edge{to, from, p}
}

// env2 is the value of an SSA operand.
func (p *path) env2(x *Interp, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return constVal(c)
	case *ssa.Global:
		return x.globalPtr(p.st, c)
	case *ssa.Function:
		return &FuncV{fn: c}
	case *ssa.Builtin:
		return OpqV{"builtin"}
	}
	if r, ok := p.env[v]; ok {
		return r
	}
	return OpqV{"undef"}
}

func (x *Interp) globalPtr(st *State, g *ssa.Global) Val {
	id, ok := x.globals[g]
	if !ok {
		objCnt++
		id = objCnt
		x.globals[g] = id
	}
	if _, ok := st.heap[id]; !ok {
		et := g.Type().(*types.Pointer).Elem()
		var v Val
		if x.own[g.Pkg] {
			v = zeroVal(et)
		} else {
			v = extGlobal(g, et)
		}
		st.heap[id] = &Obj{v, et, "global", g.String(), 0}
	}
	return Ptr{obj: id}
}

func extGlobal(g *ssa.Global, t types.Type) Val {
	if isErrorType(t) {
		return &ErrV{what: g.String()}
	}
	return OpqV{g.String()}
}

func constVal(c *ssa.Const) Val {
	t := c.Type().Underlying()
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return tBool(constant.BoolVal(c.Value))
		case b.Info()&types.IsString != 0:
			return tStr(constant.StringVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			if n, ok := new(big.Int).SetString(c.Value.ExactString(), 10); ok {
				return tInt(n)
			}
			if v, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return tI(v)
			}
		case b.Info()&types.IsFloat != 0:
			return opq(SInt, "float "+c.Value.ExactString())
		}
	}
	return OpqV{"const"}
}

// ---- types ----

func typeName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() != nil {
			return o.Pkg().Path() + "." + o.Name()
		}
		return o.Name()
	}
	return ""
}

func isErrorType(t types.Type) bool { return typeName(t) == "error" }

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func leafStruct(t types.Type) Val {
	switch typeName(t) {
	case "math/big.Int":
		return tI(0)
	case "strings.Builder", "bytes.Buffer":
		return tStr("")
	}
	return nil
}

func zeroVal(t types.Type) Val {
	if v := leafStruct(t); v != nil {
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return tStr("")
		case u.Info()&types.IsInteger != 0:
			return tI(0)
		case u.Info()&types.IsFloat != 0:
			return opq(SInt, "float 0")
		}
		return Nil{}
	case *types.Struct:
		fs := make([]Val, u.NumFields())
		for i := range fs {
			fs[i] = zeroVal(u.Field(i).Type())
		}
		return &StructV{fs}
	case *types.Array:
		if isByte(u.Elem()) {
			return newFacts().Rep("\x00", tI(u.Len()))
		}
		if u.Len() > 100000 {
			return OpqV{"array"}
		}
		es := make([]Val, u.Len())
		for i := range es {
			es[i] = zeroVal(u.Elem())
		}
		return &ListV{es}
	case *types.Tuple:
		var r TupleV
		for i := 0; i < u.Len(); i++ {
			r = append(r, zeroVal(u.At(i).Type()))
		}
		return r
	}
	return Nil{}
}

// wordSize is the width of int and uint on the platform that is analysed.
var wordSize uint = 64

// maxLen bounds the length of every sequence, maxArg that of arguments.
var maxLen, maxArg = pow(2, 48), pow(2, 40)

func setWordSize(n uint) {
	wordSize = n
	if n == 32 {
		maxLen, maxArg = pow(2, 30), pow(2, 24)
	} else {
		maxLen, maxArg = pow(2, 48), pow(2, 40)
	}
}

// intRange is the range of an integer type.
func intRange(t types.Type) (lo, hi *big.Int, w uint, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, nil, 0, false
	}
	w, signed = 64, true
	switch b.Kind() {
	case types.Int8:
		w = 8
	case types.Int16:
		w = 16
	case types.Int32:
		w = 32
	case types.Uint8:
		w, signed = 8, false
	case types.Uint16:
		w, signed = 16, false
	case types.Uint32:
		w, signed = 32, false
	case types.Int:
		w = wordSize
	case types.Uint, types.Uintptr:
		w, signed = wordSize, false
	case types.Uint64:
		signed = false
	}
	if signed {
		hi = new(big.Int).Lsh(big1, w-1)
		lo = new(big.Int).Neg(hi)
		hi = new(big.Int).Sub(hi, big1)
	} else {
		lo = new(big.Int)
		hi = new(big.Int).Sub(new(big.Int).Lsh(big1, w), big1)
	}
	return
}

// wrap reduces an integer to the range of its type.
func wrap(f *Facts, v *Term, t types.Type) *Term {
	if v.op == "opq" && len(v.s) > 5 && v.s[:5] == "float" {
		return v
	}
	lo, hi, w, signed := intRange(t)
	if lo == nil {
		return v
	}
	b := f.bounds(v)
	if b.lo != nil && b.lo.Cmp(lo) >= 0 && b.hi != nil && b.hi.Cmp(hi) <= 0 {
		return v
	}
	m := tInt(new(big.Int).Lsh(big1, w))
	if !signed {
		return f.Mod(v, m)
	}
	h := tInt(new(big.Int).Lsh(big1, w-1))
	return f.Sub(f.Mod(f.Add(v, h), m), h)
}

// unknown is a fresh value of a type.
func (x *Interp) unknown(t types.Type, name string, args []*Term, st *State) Val {
	if v := leafStruct(t); v != nil {
		return opq(v.(*Term).sort, name, args...)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return opq(SBool, name, args...)
		case u.Info()&types.IsString != 0:
			return opq(SSeq, name, args...)
		case u.Info()&(types.IsInteger) != 0:
			v := opq(SInt, name, args...)
			lo, hi, _, _ := intRange(t)
			g := st.f.clone()
			g.iv[v] = Iv{lo, hi}
			g.dirty()
			st.f = g
			return v
		case u.Info()&types.IsFloat != 0:
			return opq(SInt, "float "+name, args...)
		}
	case *types.Pointer:
		if typeName(u.Elem()) == "math/big.Int" {
			return st.alloc(u.Elem(), opq(SInt, name, args...), name)
		}
	case *types.Slice:
		if isByte(u.Elem()) {
			return x.newBytes(st, opq(SSeq, name, args...), name)
		}
		if isStringT(u.Elem()) {
			return x.newList(st, opq(SList, name, args...), u, name)
		}
	case *types.Array:
		if isByte(u.Elem()) {
			v := opq(SSeq, name, args...)
			g := st.f.clone()
			g.eqc[mk("len", SInt, "", nil, nil, v)] = tI(u.Len())
			g.dirty()
			st.f = g
			return v
		}
	}
	return OpqV{name}
}

func (x *Interp) unknownResults(sig *types.Signature, name string, args []*Term, st *State) []Val {
	var r []Val
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, x.unknown(sig.Results().At(i).Type(), fmt.Sprintf("%s.%d", name, i), args, st))
	}
	return r
}

// ---- slices ----

func (x *Interp) newBytes(st *State, s *Term, origin string) Val {
	n := st.f.Len(s)
	p := st.alloc(types.NewSlice(types.Typ[types.Uint8]), s, origin)
	return SliceV{p, tI(0), n, n}
}

func (x *Interp) newList(st *State, l *Term, t types.Type, origin string) Val {
	n := st.f.LLen(l)
	p := st.alloc(t, l, origin)
	return SliceV{p, tI(0), n, n}
}

// seqOf is the content of a string, byte slice or byte array value.
func (x *Interp) seqOf(st *State, v Val) (*Term, bool) {
	switch w := v.(type) {
	case *Term:
		if w.sort == SSeq {
			return st.f.renorm(w), true
		}
	case Nil:
		return tStr(""), true
	case SliceV:
		if t, ok := st.load(w.base).(*Term); ok && t.sort == SSeq {
			lo, ln := st.f.renorm(w.lo), st.f.renorm(w.ln)
			return st.f.Slice(st.f.renorm(t), lo, st.f.Add(lo, ln)), true
		}
	case Ptr:
		return x.seqOf(st, st.load(w))
	case IfaceV:
		return x.seqOf(st, w.v)
	}
	return nil, false
}

// listOf is the content of a slice of strings as a list term.
func (x *Interp) listOf(st *State, v Val) (*Term, bool) {
	switch w := v.(type) {
	case Nil:
		return st.f.List(), true
	case SliceV:
		c := st.load(w.base)
		lo, ln := st.f.renorm(w.lo), st.f.renorm(w.ln)
		switch l := c.(type) {
		case *Term:
			if l.sort == SList {
				l = st.f.renorm(l)
				if lo.isK(0) && ln == st.f.LLen(l) {
					return l, true
				}
				if k, ok := ln.i64(); ok && k <= 3000 {
					var es []*Term
					for i := int64(0); i < k; i++ {
						es = append(es, st.f.Elem(l, st.f.AddK(lo, i)))
					}
					return st.f.List(es...), true
				}
			}
		case *ListV:
			a, ok1 := lo.i64()
			n, ok2 := ln.i64()
			if ok1 && ok2 && a+n <= int64(len(l.es)) {
				var es []*Term
				for _, e := range l.es[a : a+n] {
					t, ok := e.(*Term)
					if !ok || t.sort != SSeq {
						return nil, false
					}
					es = append(es, st.f.renorm(t))
				}
				return st.f.List(es...), true
			}
		}
	}
	return nil, false
}

// store writes through a pointer and logs writes to non-local objects.
func (x *Interp) store(st *State, p Ptr, v Val, pos token.Pos) {
	x.logWrite(st, p, pos, v)
	st.storeRaw(p, v)
	(&mctx{st: st}).keep(p, v)
}

func (x *Interp) logWrite(st *State, p Ptr, pos token.Pos, v Val) {
	o := st.heap[p.obj]
	if o != nil && o.kind == "global" {
		x.allWrites[o.origin] = pos
	}
	if o != nil && o.share != 0 {
		// a shallow copy of a big.Int: writing to it writes to the digits of the original
		if q := st.heap[o.share]; q != nil && q.kind != "local" {
			st.event("write-"+q.kind, q.origin+" (through a shallow copy)", pos, x.curFn(), st.termsOf(v, nil)...)
		}
	}
	if o != nil && o.kind != "local" {
		st.event("write-"+o.kind, o.origin, pos, x.curFn(), st.termsOf(v, nil)...)
	}
}

// check makes sure cond holds; where it may not, an exit is recorded.
func (x *Interp) check(p *path, cond *Term, what string, pos token.Pos, o *outcome) []*path {
	good, bad := x.checkSt(p.st, cond, what, pos)
	o.exits = append(o.exits, bad...)
	var r []*path
	for i, s := range good {
		if i == 0 && s == p.st {
			r = append(r, p)
			continue
		}
		q := p.clone()
		q.st = s
		r = append(r, q)
	}
	return r
}

func (x *Interp) checkSt(st *State, cond *Term, what string, pos token.Pos) ([]*State, []exit) {
	c := st.f.renorm(cond)
	if c == tTrue {
		return []*State{st}, nil
	}
	var bad []exit
	for _, f := range st.f.split(st.f.Not(c)) {
		bad = append(bad, exit{st.with(f), "panic", what, pos, x.curFn()})
	}
	if len(bad) == 0 {
		return []*State{st}, nil
	}
	var good []*State
	for _, f := range st.f.split(c) {
		good = append(good, st.with(f))
	}
	return good, bad
}

func (x *Interp) nilExit(p *path, what string, pos token.Pos, o *outcome) []*path {
	o.exits = append(o.exits, exit{p.st, "panic", what, pos, x.curFn()})
	return nil
}

// tm reads an integer, boolean or string operand.
func (x *Interp) tm(p *path, v ssa.Value) (*Term, bool) {
	t, ok := p.env2(x, v).(*Term)
	if !ok {
		return nil, false
	}
	return p.st.f.renorm(t), true
}

func (x *Interp) unsup(p *path, v ssa.Value, what string, pos token.Pos) []*path {
	p.st.event("unsupported", what, pos, x.curFn())
	if v != nil {
		p.env[v] = x.unknown(v.Type(), freshName("unsup"), nil, p.st)
	}
	return []*path{p}
}

func (x *Interp) step(p *path, in ssa.Instruction, o *outcome) []*path {
	st := p.st
	f := st.f
	one := func(v ssa.Value, r Val) []*path { p.env[v] = r; return []*path{p} }
	switch in := in.(type) {
	case *ssa.DebugRef:
		return []*path{p}
	case *ssa.Alloc:
		et := in.Type().(*types.Pointer).Elem()
		return one(in, st.alloc(et, zeroVal(et), x.where(in.Pos())))
	case *ssa.BinOp:
		return x.binop(p, in, o)
	case *ssa.UnOp:
		v := p.env2(x, in.X)
		switch in.Op {
		case token.MUL:
			switch q := v.(type) {
			case Ptr:
				x.noteRead(st, q, in.Pos())
				return one(in, st.load(q))
			case Nil:
				return x.nilExit(p, "nil dereference", in.Pos(), o)
			}
			return x.unsup(p, in, "load through unknown pointer", in.Pos())
		case token.NOT:
			if t, ok := v.(*Term); ok && t.sort == SBool {
				return one(in, f.Not(f.renorm(t)))
			}
		case token.SUB:
			if t, ok := v.(*Term); ok && t.sort == SInt {
				return one(in, wrap(f, f.Neg(f.renorm(t)), in.Type()))
			}
		case token.XOR:
			if t, ok := v.(*Term); ok && t.sort == SInt {
				return one(in, wrap(f, f.Sub(tI(-1), f.renorm(t)), in.Type()))
			}
		}
		return x.unsup(p, in, "operator "+in.Op.String(), in.Pos())
	case *ssa.Store:
		v := p.env2(x, in.Val)
		switch q := p.env2(x, in.Addr).(type) {
		case Ptr:
			x.store(st, q, v, in.Pos())
			if u, ok := in.Val.(*ssa.UnOp); ok && u.Op == token.MUL && typeName(u.Type()) == "math/big.Int" {
				if src, ok := p.env2(x, u.X).(Ptr); ok && src.obj != q.obj {
					ob := *st.heap[q.obj]
					ob.share = src.obj
					st.heap[q.obj] = &ob
				}
			}
			return []*path{p}
		case Nil:
			return x.nilExit(p, "nil dereference", in.Pos(), o)
		}
		st.event("unsupported", "store through unknown pointer", in.Pos(), x.curFn())
		return []*path{p}
	case *ssa.FieldAddr:
		switch q := p.env2(x, in.X).(type) {
		case Ptr:
			if q.idx != nil {
				if k, ok := f.renorm(q.idx).i64(); ok {
					q = Ptr{q.obj, q.path, nil}.field(int(k))
				} else {
					return x.unsup(p, in, "field of element at unknown index", in.Pos())
				}
			}
			return one(in, q.field(in.Field))
		case Nil:
			return x.nilExit(p, "nil dereference", in.Pos(), o)
		}
		return one(in, OpqV{"fieldaddr"})
	case *ssa.Field:
		if s, ok := p.env2(x, in.X).(*StructV); ok {
			return one(in, s.fs[in.Field])
		}
		return one(in, x.unknown(in.Type(), freshName("field"), nil, st))
	case *ssa.IndexAddr:
		return x.indexAddr(p, in, o)
	case *ssa.Index:
		i, ok := x.tm(p, in.Index)
		if !ok {
			return x.unsup(p, in, "index", in.Pos())
		}
		v := p.env2(x, in.X)
		var n *Term
		switch w := v.(type) {
		case *Term:
			n = f.Len(f.renorm(w))
			v = f.renorm(w)
		case *ListV:
			n = tI(int64(len(w.es)))
		default:
			return x.unsup(p, in, "index", in.Pos())
		}
		var r []*path
		for _, q := range x.check(p, f.And(f.Ge0(i), f.Lt(i, n)), "index out of range", in.Pos(), o) {
			q.env[in] = q.st.elemOf(v, i)
			r = append(r, q)
		}
		return r
	case *ssa.Lookup:
		return x.lookup(p, in, o)
	case *ssa.Slice:
		return x.sliceOp(p, in, o)
	case *ssa.SliceToArrayPointer:
		if s, ok := p.env2(x, in.X).(SliceV); ok && f.renorm(s.lo).isK(0) {
			n := in.Type().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			var r []*path
			for _, q := range x.check(p, f.Ge0(f.AddK(f.renorm(s.ln), -n)), "slice shorter than array", in.Pos(), o) {
				c, ok := x.seqOf(q.st, s)
				if !ok {
					r = append(r, x.unsup(q, in, "slice to array", in.Pos())...)
					continue
				}
				np := q.st.alloc(in.Type().(*types.Pointer).Elem(), q.st.f.Slice(c, tI(0), tI(n)), x.where(in.Pos()))
				q.env[in] = np
				r = append(r, q)
			}
			return r
		}
		return x.unsup(p, in, "slice to array pointer", in.Pos())
	case *ssa.MakeSlice:
		return x.makeSlice(p, in, o)
	case *ssa.MakeMap:
		return one(in, st.alloc(in.Type(), &MapV{}, x.where(in.Pos())))
	case *ssa.MapUpdate:
		q, ok := p.env2(x, in.Map).(Ptr)
		if !ok {
			if _, isNil := p.env2(x, in.Map).(Nil); isNil {
				return x.nilExit(p, "write to nil map", in.Pos(), o)
			}
			return x.unsup(p, nil, "map update", in.Pos())
		}
		m, ok := st.load(q).(*MapV)
		if !ok {
			return x.unsup(p, nil, "map update", in.Pos())
		}
		k, v := p.env2(x, in.Key), p.env2(x, in.Value)
		n := x.putMap(st, m, k, v)
		x.store(st, q, n, in.Pos())
		return []*path{p}
	case *ssa.MakeInterface:
		v := p.env2(x, in.X)
		if e, ok := v.(*ErrV); ok {
			return one(in, e)
		}
		return one(in, IfaceV{in.X.Type(), v})
	case *ssa.ChangeInterface:
		return one(in, p.env2(x, in.X))
	case *ssa.ChangeType:
		return one(in, p.env2(x, in.X))
	case *ssa.MakeClosure:
		fv := &FuncV{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			fv.bind = append(fv.bind, p.env2(x, b))
		}
		return one(in, fv)
	case *ssa.Convert:
		return x.convert(p, in, o)
	case *ssa.MultiConvert:
		return x.unsup(p, in, "conversion", in.Pos())
	case *ssa.Extract:
		if t, ok := p.env2(x, in.Tuple).(TupleV); ok && in.Index < len(t) {
			return one(in, t[in.Index])
		}
		return x.unsup(p, in, "extract", in.Pos())
	case *ssa.TypeAssert:
		v := p.env2(x, in.X)
		ok := tTrue
		var r Val
		switch w := v.(type) {
		case IfaceV:
			if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
				r = w
				if !types.Implements(w.typ, in.AssertedType.Underlying().(*types.Interface)) {
					ok = tFalse
				}
			} else if types.Identical(w.typ, in.AssertedType) {
				r = w.v
			} else {
				ok = tFalse
			}
		case Nil:
			ok = tFalse
		default:
			return x.unsup(p, in, "type assertion", in.Pos())
		}
		if ok == tFalse {
			r = zeroVal(in.AssertedType)
			if !in.CommaOk {
				return x.nilExit(p, "failed type assertion", in.Pos(), o)
			}
		}
		if in.CommaOk {
			return one(in, TupleV{r, ok})
		}
		return one(in, r)
	case *ssa.Call:
		return x.callInstr(p, in, &in.Call, in, o)
	case *ssa.Defer:
		d := &deferred{call: &in.Call, pos: in.Pos()}
		if in.Call.IsInvoke() {
			d.fn = p.env2(x, in.Call.Value)
		} else if _, isB := in.Call.Value.(*ssa.Builtin); !isB {
			d.fn = p.env2(x, in.Call.Value)
		}
		for _, a := range in.Call.Args {
			d.args = append(d.args, p.env2(x, a))
		}
		p.defers = append(append([]*deferred(nil), p.defers...), d)
		return []*path{p}
	case *ssa.RunDefers:
		cur := []*path{p}
		ds := p.defers
		for i := len(ds) - 1; i >= 0; i-- {
			var next []*path
			for _, q := range cur {
				next = append(next, x.callWith(q, nil, ds[i].call, ds[i].fn, ds[i].args, ds[i].pos, o)...)
			}
			cur = next
		}
		for _, q := range cur {
			q.defers = nil
		}
		return cur
	case *ssa.Range:
		v := p.env2(x, in.X)
		if t, ok := v.(*Term); ok && t.sort == SSeq {
			return one(in, st.alloc(in.X.Type(), &StructV{[]Val{t, tI(0)}}, x.where(in.Pos())))
		}
		if q, ok := v.(Ptr); ok {
			if _, ok := st.load(q).(*MapV); ok {
				st.event("ambient", "map iteration order", in.Pos(), x.curFn())
				return x.unsup(p, in, "range over map", in.Pos())
			}
		}
		return x.unsup(p, in, "range", in.Pos())
	case *ssa.Next:
		return x.next(p, in, o)
	case *ssa.Go:
		st.event("ambient", "goroutine", in.Pos(), x.curFn())
		return x.unsup(p, nil, "go statement", in.Pos())
	case *ssa.Select:
		st.event("ambient", "select", in.Pos(), x.curFn())
		return x.unsup(p, in, "select", in.Pos())
	case *ssa.Send:
		return x.unsup(p, nil, "channel send", in.Pos())
	case *ssa.MakeChan:
		return x.unsup(p, in, "channel", in.Pos())
	}
	if v, ok := in.(ssa.Value); ok {
		return x.unsup(p, v, fmt.Sprintf("%T", in), in.Pos())
	}
	return x.unsup(p, nil, fmt.Sprintf("%T", in), in.Pos())
}

func (x *Interp) indexAddr(p *path, in *ssa.IndexAddr, o *outcome) []*path {
	f := p.st.f
	i, ok := x.tm(p, in.Index)
	if !ok {
		return x.unsup(p, in, "index", in.Pos())
	}
	switch v := p.env2(x, in.X).(type) {
	case SliceV:
		ln, lo := f.renorm(v.ln), f.renorm(v.lo)
		var r []*path
		for _, q := range x.check(p, f.And(f.Ge0(i), f.Lt(i, ln)), "index out of range", in.Pos(), o) {
			q.env[in] = x.elemPtr(q.st, v.base, q.st.f.Add(lo, i))
			r = append(r, q)
		}
		return r
	case Ptr: // pointer to array
		n := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		var r []*path
		for _, q := range x.check(p, f.And(f.Ge0(i), f.Lt(i, tI(n))), "index out of range", in.Pos(), o) {
			q.env[in] = x.elemPtr(q.st, v, i)
			r = append(r, q)
		}
		return r
	case Nil:
		return x.nilExit(p, "index of nil", in.Pos(), o)
	}
	return x.unsup(p, in, "index of unknown slice", in.Pos())
}

// elemPtr points to an element; constant indices of lists become part of the path.
func (x *Interp) elemPtr(st *State, base Ptr, i *Term) Ptr {
	if base.idx != nil {
		if k, ok := st.f.renorm(base.idx).i64(); ok {
			base = Ptr{base.obj, base.path, nil}.field(int(k))
		}
	}
	if k, ok := i.i64(); ok {
		if _, isL := st.load(base).(*ListV); isL {
			return base.field(int(k))
		}
	}
	return Ptr{base.obj, base.path, i}
}

func (x *Interp) makeSlice(p *path, in *ssa.MakeSlice, o *outcome) []*path {
	f := p.st.f
	n, ok1 := x.tm(p, in.Len)
	c, ok2 := x.tm(p, in.Cap)
	if !ok1 || !ok2 {
		return x.unsup(p, in, "make", in.Pos())
	}
	var r []*path
	for _, q := range x.check(p, f.And(f.Ge0(n), f.Ge0(f.Sub(c, n))), "make: length out of range", in.Pos(), o) {
		et := in.Type().Underlying().(*types.Slice).Elem()
		if isByte(et) {
			b := q.st.alloc(in.Type(), q.st.f.Rep("\x00", c), x.where(in.Pos()))
			q.env[in] = SliceV{b, tI(0), n, c}
			r = append(r, q)
			continue
		}
		k, ok := c.i64()
		if !ok || k > 10000 {
			if _, isN := n.i64(); isN && mustI(n) <= 10000 {
				// capacity is a hint only
				k, ok = mustI(n), true
				c = n
			}
		}
		if !ok || k > 10000 {
			r = append(r, x.unsup(q, in, "make of unknown length", in.Pos())...)
			continue
		}
		es := make([]Val, k)
		for i := range es {
			es[i] = zeroVal(et)
		}
		b := q.st.alloc(in.Type(), &ListV{es}, x.where(in.Pos()))
		q.env[in] = SliceV{b, tI(0), n, c}
		r = append(r, q)
	}
	return r
}

func (x *Interp) sliceOp(p *path, in *ssa.Slice, o *outcome) []*path {
	f := p.st.f
	v := p.env2(x, in.X)
	bound := func(b ssa.Value, d *Term) (*Term, bool) {
		if b == nil {
			return d, true
		}
		return x.tm(p, b)
	}
	switch w := v.(type) {
	case *Term: // string
		w = f.renorm(w)
		n := f.Len(w)
		lo, ok1 := bound(in.Low, tI(0))
		hi, ok2 := bound(in.High, n)
		if !ok1 || !ok2 {
			return x.unsup(p, in, "slice", in.Pos())
		}
		var r []*path
		for _, q := range x.check(p, f.And(f.Ge0(lo), f.Le(lo, hi), f.Le(hi, n)), "slice bounds out of range", in.Pos(), o) {
			g := q.st.f
			q.env[in] = g.Slice(g.renorm(w), g.renorm(lo), g.renorm(hi))
			r = append(r, q)
		}
		return r
	case SliceV, Ptr:
		var s SliceV
		if sv, ok := w.(SliceV); ok {
			s = SliceV{sv.base, f.renorm(sv.lo), f.renorm(sv.ln), f.renorm(sv.cap)}
		} else {
			pt, ok := in.X.Type().Underlying().(*types.Pointer)
			if !ok {
				return x.unsup(p, in, "slice", in.Pos())
			}
			at, ok := pt.Elem().Underlying().(*types.Array)
			if !ok {
				return x.unsup(p, in, "slice", in.Pos())
			}
			s = SliceV{w.(Ptr), tI(0), tI(at.Len()), tI(at.Len())}
		}
		lo, ok1 := bound(in.Low, tI(0))
		hi, ok2 := bound(in.High, s.ln)
		mx, ok3 := bound(in.Max, s.cap)
		if !ok1 || !ok2 || !ok3 {
			return x.unsup(p, in, "slice", in.Pos())
		}
		var r []*path
		for _, q := range x.check(p, f.And(f.Ge0(lo), f.Le(lo, hi), f.Le(hi, mx), f.Le(mx, s.cap)), "slice bounds out of range", in.Pos(), o) {
			g := q.st.f
			q.env[in] = SliceV{s.base, g.Add(s.lo, lo), g.Sub(hi, lo), g.Sub(mx, lo)}
			r = append(r, q)
		}
		return r
	case Nil:
		lo, ok1 := bound(in.Low, tI(0))
		hi, ok2 := bound(in.High, tI(0))
		if ok1 && ok2 {
			var r []*path
			for _, q := range x.check(p, f.And(f.Eq0(lo), f.Eq0(hi)), "slice bounds out of range", in.Pos(), o) {
				q.env[in] = Nil{}
				r = append(r, q)
			}
			return r
		}
	}
	return x.unsup(p, in, "slice of unknown value", in.Pos())
}

func (x *Interp) lookup(p *path, in *ssa.Lookup, o *outcome) []*path {
	st, f := p.st, p.st.f
	v := p.env2(x, in.X)
	if t, ok := v.(*Term); ok && t.sort == SSeq { // string index
		i, ok := x.tm(p, in.Index)
		if !ok {
			return x.unsup(p, in, "index", in.Pos())
		}
		t = f.renorm(t)
		var r []*path
		for _, q := range x.check(p, f.And(f.Ge0(i), f.Lt(i, f.Len(t))), "index out of range", in.Pos(), o) {
			q.env[in] = q.st.f.At(q.st.f.renorm(t), q.st.f.renorm(i))
			r = append(r, q)
		}
		return r
	}
	res := func(q *path, v Val, ok *Term) *path {
		if in.CommaOk {
			q.env[in] = TupleV{v, ok}
		} else {
			q.env[in] = v
		}
		return q
	}
	et := in.X.Type().Underlying().(*types.Map).Elem()
	switch m := v.(type) {
	case Nil:
		return []*path{res(p, zeroVal(et), tFalse)}
	case Ptr:
		x.noteRead(st, m, in.Pos())
		mv, ok := st.load(m).(*MapV)
		if !ok || mv.opaque {
			return x.unsup(p, in, "map lookup", in.Pos())
		}
		hits, miss, ok := x.lookupMap(st, mv, p.env2(x, in.Index))
		if !ok {
			return x.unsup(p, in, "map key", in.Pos())
		}
		var r []*path
		for _, h := range hits {
			q := p.clone()
			q.st = h.st
			r = append(r, res(q, h.v, tTrue))
		}
		for _, s := range miss {
			q := p.clone()
			q.st = s
			r = append(r, res(q, zeroVal(et), tFalse))
		}
		return r
	}
	return x.unsup(p, in, "map lookup", in.Pos())
}

func (x *Interp) next(p *path, in *ssa.Next, o *outcome) []*path {
	st, f := p.st, p.st.f
	q, ok := p.env2(x, in.Iter).(Ptr)
	if !ok || !in.IsString {
		return x.unsup(p, in, "range next", in.Pos())
	}
	it, ok := st.load(q).(*StructV)
	if !ok {
		return x.unsup(p, in, "range next", in.Pos())
	}
	s, ok1 := it.fs[0].(*Term)
	pos, ok2 := it.fs[1].(*Term)
	if !ok1 || !ok2 {
		return x.unsup(p, in, "range next", in.Pos())
	}
	s, pos = f.renorm(s), f.renorm(pos)
	var r []*path
	more := f.Lt(pos, f.Len(s))
	for _, g := range f.split(f.Not(more)) {
		n := p.withF(g)
		n.env[in] = TupleV{tFalse, pos, tI(0)}
		r = append(r, n)
	}
	for _, g := range f.split(more) {
		c := g.At(s, pos)
		ascii := g.Ge0(g.Sub(tI(127), c))
		if g.AllCls(s, asciiCls) == tTrue {
			ascii = tTrue
		}
		for _, h := range g.split(ascii) {
			n := p.withF(h)
			n.env[in] = TupleV{tTrue, pos, c}
			n.st.storeRaw(q.field(1), h.AddK(pos, 1))
			r = append(r, n)
		}
		for _, h := range g.split(g.Not(ascii)) {
			// a rune of two to four bytes, or an invalid byte
			h = h.clone()
			ru := opq(SInt, "rune", s, pos)
			h.iv[ru] = Iv{bi(128), bi(0x10FFFF)}
			h.dirty()
			n := p.withF(h)
			n.env[in] = TupleV{tTrue, pos, ru}
			// the size of the rune is not known
			np := tVar(SInt, freshName("rune"))
			h2 := h.clone()
			h2.iv[np] = Iv{bi(0), maxLen}
			h2.dirty()
			if h3 := h2.assume(h2.Ge0(h2.Sub(np, h2.AddK(pos, 1)))); h3 != nil {
				n.st.f = h3
			}
			n.st.storeRaw(q.field(1), np)
			r = append(r, n)
		}
	}
	return r
}

func (x *Interp) convert(p *path, in *ssa.Convert, o *outcome) []*path {
	st, f := p.st, p.st.f
	v := p.env2(x, in.X)
	from, to := in.X.Type(), in.Type()
	switch {
	case isIntT(from) && isIntT(to):
		if t, ok := v.(*Term); ok {
			p.env[in] = wrap(f, f.renorm(t), to)
			return []*path{p}
		}
	case isIntT(from) && isStringT(to):
		if t, ok := v.(*Term); ok {
			t = f.renorm(t)
			b := f.bounds(t)
			if b.lo != nil && b.lo.Sign() >= 0 && b.hi != nil && b.hi.Cmp(bi(128)) < 0 {
				p.env[in] = f.Unit(t)
			} else {
				p.env[in] = opq(SSeq, "runestr", t)
			}
			return []*path{p}
		}
	case isStringT(from) && isStringT(to):
		p.env[in] = v
		return []*path{p}
	case isStringT(from) && isBytes(to):
		if t, ok := v.(*Term); ok {
			p.env[in] = x.newBytes(st, f.renorm(t), x.where(in.Pos()))
			return []*path{p}
		}
	case isBytes(from) && isStringT(to):
		if t, ok := x.seqOf(st, v); ok {
			p.env[in] = t
			return []*path{p}
		}
	case isStringT(from): // []rune
		if t, ok := v.(*Term); ok {
			t = f.renorm(t)
			if n, ok := f.lenK(t); ok && n <= 3000 && f.AllCls(t, asciiCls) == tTrue {
				es := make([]Val, n)
				for i := range es {
					es[i] = f.At(t, tI(int64(i)))
				}
				b := st.alloc(to, &ListV{es}, x.where(in.Pos()))
				p.env[in] = SliceV{b, tI(0), tI(n), tI(n)}
				return []*path{p}
			}
		}
	case isStringT(to): // from []rune
		if s, ok := v.(SliceV); ok {
			if l, ok := st.load(s.base).(*ListV); ok {
				lo, ok1 := f.renorm(s.lo).i64()
				n, ok2 := f.renorm(s.ln).i64()
				if ok1 && ok2 {
					var us []*Term
					good := true
					for _, e := range l.es[lo : lo+n] {
						t, ok := e.(*Term)
						if !ok {
							good = false
							break
						}
						b := f.bounds(t)
						if b.lo == nil || b.hi == nil || b.hi.Cmp(bi(127)) > 0 || b.lo.Sign() < 0 {
							good = false
							break
						}
						us = append(us, f.Unit(t))
					}
					if good {
						p.env[in] = f.Cat(us...)
						return []*path{p}
					}
				}
			}
		}
	}
	if t, ok := v.(*Term); ok { // floats
		p.env[in] = x.unknown(to, "conv:"+to.String(), []*Term{t}, st)
		return []*path{p}
	}
	return x.unsup(p, in, "conversion "+from.String()+" to "+to.String(), in.Pos())
}

// eqVal compares two values; ok is false when the comparison is not understood.
func (x *Interp) eqVal(st *State, a, b Val) (*Term, bool) {
	f := st.f
	isNil := func(v Val) (bool, bool) { // nil?, known
		switch v.(type) {
		case Nil:
			return true, true
		case Ptr, SliceV, IfaceV, *ErrV, *FuncV, *MapV, *HashV:
			return false, true
		}
		return false, false
	}
	na, ka := isNil(a)
	nb, kb := isNil(b)
	if ka && kb && (na || nb) {
		// a slice of a nil backing stays non-nil; nil equals only nil
		return tBool(na == nb), true
	}
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		if !ok || p.sort != q.sort {
			return nil, false
		}
		p, q = f.renorm(p), f.renorm(q)
		switch p.sort {
		case SInt:
			return f.EqI(p, q), true
		case SSeq:
			return f.Eqs(p, q), true
		case SBool:
			return f.Or(f.And(p, q), f.And(f.Not(p), f.Not(q))), true
		}
	case Ptr:
		if q, ok := b.(Ptr); ok {
			if p.idx == nil && q.idx == nil {
				return tBool(p == q), true
			}
			if p.obj != q.obj || p.path != q.path {
				return tFalse, true
			}
		}
	case *StructV:
		if q, ok := b.(*StructV); ok && len(p.fs) == len(q.fs) {
			var r []*Term
			for i := range p.fs {
				e, ok := x.eqVal(st, p.fs[i], q.fs[i])
				if !ok {
					return nil, false
				}
				r = append(r, e)
			}
			return f.And(r...), true
		}
	case *ListV:
		if q, ok := b.(*ListV); ok && len(p.es) == len(q.es) {
			var r []*Term
			for i := range p.es {
				e, ok := x.eqVal(st, p.es[i], q.es[i])
				if !ok {
					return nil, false
				}
				r = append(r, e)
			}
			return f.And(r...), true
		}
	case IfaceV:
		if q, ok := b.(IfaceV); ok {
			if !types.Identical(p.typ, q.typ) {
				return tFalse, true
			}
			return x.eqVal(st, p.v, q.v)
		}
	case *ErrV:
		if q, ok := b.(*ErrV); ok {
			if p == q {
				return tTrue, true
			}
			return tFalse, true
		}
	case *FuncV:
		if q, ok := b.(*FuncV); ok {
			return tBool(p.fn == q.fn), true
		}
	case OpqV:
		// rand.Reader, os.Stdout and the like are never nil
		if _, ok := b.(Nil); ok && p.name != "" && p.name[0] != '%' && p.name != "undef" {
			return tFalse, true
		}
	case Nil:
		if _, ok := b.(OpqV); ok {
			return x.eqVal(st, b, a)
		}
	}
	return nil, false
}

func (x *Interp) binop(p *path, in *ssa.BinOp, o *outcome) []*path {
	st, f := p.st, p.st.f
	a, b := p.env2(x, in.X), p.env2(x, in.Y)
	set := func(t Val) []*path { p.env[in] = t; return []*path{p} }
	if in.Op == token.EQL || in.Op == token.NEQ {
		t, ok := x.eqVal(st, a, b)
		if !ok {
			st.event("unsupported", "comparison", in.Pos(), x.curFn())
			t = tVar(SBool, freshName("cmp"))
		}
		if in.Op == token.NEQ {
			t = f.Not(t)
		}
		return set(t)
	}
	s, ok1 := a.(*Term)
	t, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		return x.unsup(p, in, "operator "+in.Op.String(), in.Pos())
	}
	s, t = f.renorm(s), f.renorm(t)
	if s.sort == SSeq {
		switch in.Op {
		case token.ADD:
			return set(f.Cat(s, t))
		case token.LSS:
			return set(f.Lt(f.CmpS(s, t), tI(0)))
		case token.LEQ:
			return set(f.Le(f.CmpS(s, t), tI(0)))
		case token.GTR:
			return set(f.Lt(tI(0), f.CmpS(s, t)))
		case token.GEQ:
			return set(f.Le(tI(0), f.CmpS(s, t)))
		}
	}
	if s.sort == SBool {
		switch in.Op {
		case token.AND, token.LAND:
			return set(f.And(s, t))
		case token.OR, token.LOR:
			return set(f.Or(s, t))
		}
	}
	if s.sort != SInt || t.sort != SInt {
		return x.unsup(p, in, "operator "+in.Op.String(), in.Pos())
	}
	if !isIntT(in.X.Type()) {
		if isBoolT(in.Type()) {
			return set(opq(SBool, "float"+in.Op.String(), s, t))
		}
		return set(opq(SInt, "float"+in.Op.String(), s, t))
	}
	w := func(v *Term) []*path { return set(wrap(f, v, in.Type())) }
	switch in.Op {
	case token.ADD:
		return w(f.Add(s, t))
	case token.SUB:
		return w(f.Sub(s, t))
	case token.MUL:
		return w(f.Mul(s, t))
	case token.QUO, token.REM:
		var r []*path
		for _, q := range x.check(p, f.Not(f.Eq0(t)), "division by zero", in.Pos(), o) {
			g := q.st.f
			sb, tb := g.bounds(s), g.bounds(t)
			var v *Term
			if t.isInt() && t.n.Sign() > 0 && !s.isInt() && (sb.lo == nil || sb.lo.Sign() < 0) {
				// rounds towards zero
				for _, h := range g.split(g.Ge0(s)) {
					q2 := q.withF(h)
					s2 := h.renorm(s)
					if in.Op == token.QUO {
						v = h.Div(s2, t)
					} else {
						v = h.Mod(s2, t)
					}
					q2.env[in] = v
					r = append(r, q2)
				}
				for _, h := range g.split(g.Lt(s, tI(0))) {
					q2 := q.withF(h)
					s2 := h.Neg(h.renorm(s))
					if in.Op == token.QUO {
						v = h.Neg(h.Div(s2, t))
					} else {
						v = h.Neg(h.Mod(s2, t))
					}
					q2.env[in] = v
					r = append(r, q2)
				}
				continue
			}
			if sb.lo != nil && sb.lo.Sign() >= 0 && tb.lo != nil && tb.lo.Sign() > 0 {
				if in.Op == token.QUO {
					v = g.Div(s, t)
				} else {
					v = g.Mod(s, t)
				}
			} else if s.isInt() && t.isInt() {
				if in.Op == token.QUO {
					v = tInt(new(big.Int).Quo(s.n, t.n))
				} else {
					v = tInt(new(big.Int).Rem(s.n, t.n))
				}
			} else {
				v = x.unknown(in.Type(), "trunc"+in.Op.String(), []*Term{s, t}, q.st).(*Term)
			}
			q.env[in] = v
			r = append(r, q)
		}
		return r
	case token.LSS:
		return set(f.Lt(s, t))
	case token.LEQ:
		return set(f.Le(s, t))
	case token.GTR:
		return set(f.Lt(t, s))
	case token.GEQ:
		return set(f.Le(t, s))
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		op := map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.AND_NOT: "andnot"}[in.Op]
		if v := f.bitOp(op, s, t); v != nil {
			return w(v)
		}
		if v := f.bitOp(op, t, s); v != nil && op != "andnot" {
			return w(v)
		}
		return set(x.unknown(in.Type(), op+"bits", []*Term{s, t}, st))
	case token.SHL, token.SHR:
		var r []*path
		for _, q := range x.check(p, f.Ge0(t), "negative shift", in.Pos(), o) {
			g := q.st.f
			if k, ok := t.i64(); ok && k < 4096 {
				m := tInt(new(big.Int).Lsh(big1, uint(k)))
				if in.Op == token.SHL {
					q.env[in] = wrap(g, g.Mul(s, m), in.Type())
				} else {
					q.env[in] = g.Div(s, m)
				}
			} else {
				q.env[in] = x.unknown(in.Type(), "shift"+in.Op.String(), []*Term{s, t}, q.st)
			}
			r = append(r, q)
		}
		return r
	}
	return x.unsup(p, in, "operator "+in.Op.String(), in.Pos())
}

// ---- calls ----

func (x *Interp) callInstr(p *path, v ssa.Value, c *ssa.CallCommon, in ssa.Instruction, o *outcome) []*path {
	args := make([]Val, 0, len(c.Args)+1)
	for _, a := range c.Args {
		args = append(args, p.env2(x, a))
	}
	var fn Val
	if _, isB := c.Value.(*ssa.Builtin); !isB {
		fn = p.env2(x, c.Value)
	}
	x.callSites[in.Pos()] = true
	return x.callWith(p, v, c, fn, args, in.Pos(), o)
}

func (x *Interp) callWith(p *path, v ssa.Value, c *ssa.CallCommon, fn Val, args []Val, pos token.Pos, o *outcome) []*path {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(p, v, b, c, args, pos, o)
	}
	var rets []ret
	var exits []exit
	if c.IsInvoke() {
		switch w := fn.(type) {
		case Nil:
			return x.nilExit(p, "method call on nil interface", pos, o)
		case *ErrV:
			if c.Method.Name() == "Error" {
				t := opq(SSeq, "errtext:"+w.what, w.terms...)
				rets = []ret{{p.st, []Val{t}}}
			} else {
				rets, exits = x.model("error."+c.Method.Name(), c.Signature(), append([]Val{fn}, args...), p.st, pos)
			}
		case IfaceV:
			if h, ok := w.v.(Ptr); ok {
				if _, isH := p.st.load(h).(*HashV); isH {
					rets, exits = x.model("hash."+c.Method.Name(), c.Signature(), append([]Val{h}, args...), p.st, pos)
					break
				}
			}
			m := x.prog.LookupMethod(w.typ, c.Method.Pkg(), c.Method.Name())
			if m == nil {
				return x.unsup(p, v, "method "+c.Method.Name(), pos)
			}
			rets, exits = x.Call(m, append([]Val{w.v}, args...), nil, p.st, pos)
		default:
			name := "invoke"
			if q, ok := fn.(OpqV); ok {
				name = q.name
			}
			rets, exits = x.model("invoke:"+name+"."+c.Method.Name(), c.Signature(), append([]Val{fn}, args...), p.st, pos)
		}
	} else {
		switch w := fn.(type) {
		case *FuncV:
			rets, exits = x.Call(w.fn, args, w.bind, p.st, pos)
		case Nil:
			return x.nilExit(p, "call of nil function", pos, o)
		default:
			p.st.event("unsupported", "call of unknown function", pos, x.curFn())
			rets = []ret{{p.st, x.unknownResults(c.Signature(), freshName("call"), nil, p.st)}}
		}
	}
	o.exits = append(o.exits, exits...)
	var out []*path
	for _, r := range rets {
		q := &path{r.st, p.env, p.defers}
		if len(rets) > 1 {
			e := make(map[ssa.Value]Val, len(p.env)+1)
			for k, v := range p.env {
				e[k] = v
			}
			q.env = e
		}
		if v != nil {
			switch {
			case len(r.vals) == 1 && !isTuple(v.Type()):
				q.env[v] = r.vals[0]
			default:
				q.env[v] = TupleV(r.vals)
			}
		}
		out = append(out, q)
	}
	return x.mergeCall(out, v)
}

func isTuple(t types.Type) bool { _, ok := t.(*types.Tuple); return ok }

// mergeCall joins partitions after a call where they have a common form.
func (x *Interp) mergeCall(ps []*path, v ssa.Value) []*path {
	if len(ps) < 2 || v == nil {
		return ps
	}
	b := v.(ssa.Instruction).Block()
	return x.merge(b, ps)
}

func (x *Interp) builtin(p *path, v ssa.Value, b *ssa.Builtin, c *ssa.CallCommon, args []Val, pos token.Pos, o *outcome) []*path {
	st, f := p.st, p.st.f
	one := func(r Val) []*path {
		if v != nil {
			p.env[v] = r
		}
		return []*path{p}
	}
	switch b.Name() {
	case "len", "cap":
		switch w := args[0].(type) {
		case *Term:
			if w.sort == SSeq {
				return one(f.Len(f.renorm(w)))
			}
		case SliceV:
			if b.Name() == "cap" {
				return one(f.renorm(w.cap))
			}
			return one(f.renorm(w.ln))
		case Nil:
			return one(tI(0))
		case *ListV:
			return one(tI(int64(len(w.es))))
		case Ptr:
			if m, ok := st.load(w).(*MapV); ok && m.famL == nil && !m.opaque {
				return one(tI(int64(len(m.ks))))
			}
			if m, ok := st.load(w).(*MapV); ok && m.famL != nil && len(m.ks) == 0 && st.f.bools[mk("uniq", SBool, "", nil, nil, m.famL)] {
				return one(f.LLen(m.famL))
			}
			if at, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
				if a, ok := at.Elem().Underlying().(*types.Array); ok {
					return one(tI(a.Len()))
				}
			}
		}
		return x.unsup(p, v, "len", pos)
	case "append":
		return x.appendOp(p, v, c, args, pos, o)
	case "copy":
		return x.copyOp(p, v, args, pos, o)
	case "print", "println":
		var ts []*Term
		for _, a := range args {
			ts = append(ts, st.termsOf(a, nil)...)
		}
		st.event("sink", "builtin "+b.Name(), pos, x.curFn(), ts...)
		return []*path{p}
	case "panic":
		st.event("panic", "panic", pos, x.curFn(), st.termsOf(args[0], nil)...)
		o.exits = append(o.exits, exit{st, "panic", "explicit panic", pos, x.curFn()})
		return nil
	case "recover":
		st.event("unsupported", "recover", pos, x.curFn())
		return one(Nil{})
	case "delete", "clear", "close":
		return x.unsup(p, v, b.Name(), pos)
	case "min", "max":
		return x.unsup(p, v, b.Name(), pos)
	case "ssa:wrapnilchk":
		return one(args[0])
	}
	return x.unsup(p, v, "builtin "+b.Name(), pos)
}

func (x *Interp) appendOp(p *path, v ssa.Value, c *ssa.CallCommon, args []Val, pos token.Pos, o *outcome) []*path {
	st, f := p.st, p.st.f
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	if isByte(et) {
		add, ok := x.seqOf(st, args[1])
		if !ok {
			return x.unsup(p, v, "append", pos)
		}
		n := f.Len(add)
		s, isS := args[0].(SliceV)
		if _, isN := args[0].(Nil); isN {
			if n.isK(0) {
				p.env[v] = args[0]
				return []*path{p}
			}
			p.env[v] = x.newBytes(st, add, x.where(pos))
			return []*path{p}
		}
		if !isS {
			return x.unsup(p, v, "append", pos)
		}
		lo, ln, cp := f.renorm(s.lo), f.renorm(s.ln), f.renorm(s.cap)
		fits := f.Le(f.Add(ln, n), cp)
		var r []*path
		for _, g := range f.split(fits) {
			q := p.withF(g)
			base, _ := q.st.load(s.base).(*Term)
			if base == nil {
				return x.unsup(p, v, "append", pos)
			}
			base = g.renorm(base)
			end := g.Add(lo, ln)
			nv := g.Cat(g.Slice(base, tI(0), end), add, g.Slice(base, g.Add(end, n), g.Len(base)))
			if !n.isK(0) {
				x.store(q.st, s.base, nv, pos)
			}
			q.env[v] = SliceV{s.base, lo, g.Add(ln, n), cp}
			r = append(r, q)
		}
		for _, g := range f.split(f.Not(fits)) {
			q := p.withF(g)
			cur, ok := x.seqOf(q.st, s)
			if !ok {
				return x.unsup(p, v, "append", pos)
			}
			q.env[v] = x.newBytes(q.st, g.Cat(cur, add), x.where(pos))
			r = append(r, q)
		}
		return r
	}
	// other element types: both of known length
	elems := func(a Val) ([]Val, bool) {
		switch s := a.(type) {
		case Nil:
			return nil, true
		case SliceV:
			lo, ok1 := f.renorm(s.lo).i64()
			n, ok2 := f.renorm(s.ln).i64()
			if !ok1 || !ok2 || n > 20000 {
				return nil, false
			}
			switch l := st.load(s.base).(type) {
			case *ListV:
				if lo+n <= int64(len(l.es)) {
					return l.es[lo : lo+n], true
				}
			case *Term:
				if l.sort == SList {
					var r []Val
					for i := int64(0); i < n; i++ {
						r = append(r, f.Elem(f.renorm(l), tI(lo+i)))
					}
					return r, true
				}
			}
		}
		return nil, false
	}
	add, ok := elems(args[1])
	if !ok {
		return x.unsup(p, v, "append", pos)
	}
	cur, ok := elems(args[0])
	if !ok {
		return x.unsup(p, v, "append to a slice of unknown length", pos)
	}
	if s, isS := args[0].(SliceV); isS {
		cp, okc := f.renorm(s.cap).i64()
		lo := mustI(f.renorm(s.lo))
		need := int64(len(cur) + len(add))
		if okc && need <= cp {
			if l, isL := st.load(s.base).(*ListV); isL && lo+need <= int64(len(l.es)) {
				es := append([]Val(nil), l.es...)
				copy(es[lo+int64(len(cur)):], add)
				if len(add) > 0 {
					x.store(st, s.base, &ListV{es}, pos)
				}
				p.env[v] = SliceV{s.base, s.lo, tI(need), s.cap}
				return []*path{p}
			}
		}
		if len(add) == 0 {
			p.env[v] = s
			return []*path{p}
		}
	}
	es := append(append([]Val(nil), cur...), add...)
	if len(es) == 0 {
		p.env[v] = args[0]
		return []*path{p}
	}
	b := st.alloc(c.Args[0].Type(), &ListV{es}, x.where(pos))
	n := tI(int64(len(es)))
	p.env[v] = SliceV{b, tI(0), n, n}
	return []*path{p}
}

func (x *Interp) copyOp(p *path, v ssa.Value, args []Val, pos token.Pos, o *outcome) []*path {
	f := p.st.f
	d, ok := args[0].(SliceV)
	if !ok {
		if _, isN := args[0].(Nil); isN {
			if v != nil {
				p.env[v] = tI(0)
			}
			return []*path{p}
		}
		return x.unsup(p, v, "copy", pos)
	}
	src, ok := x.seqOf(p.st, args[1])
	if !ok {
		// lists of known length
		if s, isS := args[1].(SliceV); isS {
			sl, ok1 := p.st.load(s.base).(*ListV)
			dl, ok2 := p.st.load(d.base).(*ListV)
			sn, ok3 := f.renorm(s.ln).i64()
			dn, ok4 := f.renorm(d.ln).i64()
			if ok1 && ok2 && ok3 && ok4 {
				n := min(sn, dn)
				es := append([]Val(nil), dl.es...)
				so, do := mustI(f.renorm(s.lo)), mustI(f.renorm(d.lo))
				copy(es[do:do+n], sl.es[so:so+n])
				x.store(p.st, d.base, &ListV{es}, pos)
				if v != nil {
					p.env[v] = tI(n)
				}
				return []*path{p}
			}
			// a list term copied into a fresh slice of the same length
			if st, ok := p.st.load(s.base).(*Term); ok && st.sort == SList && ok4 && ok2 {
				if ok3 {
					n := min(sn, dn)
					es := append([]Val(nil), dl.es...)
					so, do := mustI(f.renorm(s.lo)), mustI(f.renorm(d.lo))
					for i := int64(0); i < n; i++ {
						es[do+i] = f.Elem(f.renorm(st), tI(so+i))
					}
					x.store(p.st, d.base, &ListV{es}, pos)
					if v != nil {
						p.env[v] = tI(n)
					}
					return []*path{p}
				}
			}
		}
		return x.unsup(p, v, "copy", pos)
	}
	lo, ln := f.renorm(d.lo), f.renorm(d.ln)
	n := f.Len(src)
	fits := f.Le(n, ln)
	var r []*path
	put := func(q *path, s *Term) {
		g := q.st.f
		base, _ := q.st.load(d.base).(*Term)
		if base == nil {
			q.st.event("unsupported", "copy", pos, x.curFn())
			return
		}
		base = g.renorm(base)
		s = g.renorm(s)
		m := g.Len(s)
		if !m.isK(0) {
			x.store(q.st, d.base, g.Cat(g.Slice(base, tI(0), lo), s, g.Slice(base, g.Add(lo, m), g.Len(base))), pos)
		}
		if v != nil {
			q.env[v] = m
		}
		r = append(r, q)
	}
	for _, g := range f.split(fits) {
		put(p.withF(g), src)
	}
	for _, g := range f.split(f.Not(fits)) {
		put(p.withF(g), g.Slice(g.renorm(src), tI(0), ln))
	}
	return r
}

// recovers: a call that the function defers may recover from a panic.
func recovers(fn *ssa.Function) bool {
	if fn.Recover == nil {
		return false
	}
	calls := func(f *ssa.Function) bool {
		if f == nil {
			return true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if q, ok := c.Common().Value.(*ssa.Builtin); ok && q.Name() == "recover" {
						return true
					}
				}
			}
		}
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok {
				continue
			}
			if _, ok := d.Call.Value.(*ssa.Builtin); !ok && calls(d.Call.StaticCallee()) {
				return true
			}
		}
	}
	return false
}
