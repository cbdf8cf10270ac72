package main

// Transfer functions of the standard library and of the dependencies: what the code
// under analysis may assume about the functions it calls.

import (
	"go/token"
	"go/types"
	"math/big"
	"runtime"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type mctx struct {
	x    *Interp
	st   *State
	pos  token.Pos
	name string
	sig  *types.Signature
	args []Val
	ex   []exit
}

func (m *mctx) f() *Facts { return m.st.f }

func (m *mctx) one(vs ...Val) []ret { return []ret{{m.st, vs}} }

func (m *mctx) in(s *State, vs ...Val) ret { return ret{s, vs} }

func (m *mctx) fail(kind, what string) []ret {
	m.ex = append(m.ex, exit{m.st, kind, what, m.pos, m.x.curFn()})
	return nil
}

func (m *mctx) seq(i int) (*Term, bool) {
	if i >= len(m.args) {
		return nil, false
	}
	return m.x.seqOf(m.st, m.args[i])
}

func (m *mctx) term(i int) (*Term, bool) {
	if i >= len(m.args) {
		return nil, false
	}
	t, ok := m.args[i].(*Term)
	if !ok {
		return nil, false
	}
	return m.f().renorm(t), true
}

func (m *mctx) k(i int) (int64, bool) {
	t, ok := m.term(i)
	if !ok {
		return 0, false
	}
	return t.i64()
}

// branch runs a for the cases in which c holds and b for the others.
func (m *mctx) branch(c *Term, a, b func(*mctx) []ret) []ret {
	var r []ret
	base := m.st
	for _, g := range base.f.split(c) {
		m.st = base.with(g)
		r = append(r, a(m)...)
	}
	for _, g := range base.f.split(base.f.Not(base.f.renorm(c))) {
		m.st = base.with(g)
		r = append(r, b(m)...)
	}
	m.st = base
	return r
}

// need restricts to the cases where c holds; the others end in a panic.
func (m *mctx) need(c *Term, what string, then func(*mctx) []ret) []ret {
	return m.branch(c, then, func(m *mctx) []ret { return m.fail("panic", what) })
}

func (m *mctx) bytes(t *Term) Val { return m.x.newBytes(m.st, t, m.x.where(m.pos)) }

// allTerms is everything reachable from the arguments.
func (m *mctx) allTerms() []*Term {
	var ts []*Term
	for _, a := range m.args {
		for _, t := range m.st.termsOf(a, nil) {
			if len(ts) < 60 {
				ts = append(ts, m.f().renorm(t))
			}
		}
	}
	return ts
}

func (m *mctx) opaque() []ret {
	return m.one(m.x.unknownResults(m.sig, m.name, m.allTerms(), m.st)...)
}

// model gives the effect of calling a function that is not analysed itself.
func (x *Interp) model(name string, sig *types.Signature, args []Val, st *State, pos token.Pos) ([]ret, []exit) {
	x.ext[name] = true
	m := &mctx{x: x, st: st.clone(), pos: pos, name: name, sig: sig, args: args}
	r, ok := m.guarded()
	if !ok {
		r = m.unmodelled()
	}
	return r, m.ex
}

// guarded is run, where a model that cannot cope with what it is given is no model.
func (m *mctx) guarded() (r []ret, ok bool) {
	st := m.st.clone()
	defer func() {
		if e := recover(); e != nil {
			if _, isErr := e.(runtime.Error); !isErr {
				panic(e)
			}
			m.st, m.ex, r, ok = st, nil, nil, false
		}
	}()
	return m.run()
}

func (m *mctx) run() ([]ret, bool) {
	n := m.name
	switch {
	case strings.HasPrefix(n, "(*math/big.Int)."):
		return m.bigMethod(n[len("(*math/big.Int)."):])
	case strings.HasPrefix(n, "math/big."):
		return m.bigFunc(n[len("math/big."):])
	case strings.HasPrefix(n, "hash."):
		return m.hashMethod(n[5:])
	case strings.HasPrefix(n, "(*github.com/aureleoules/ecdsa."), strings.HasPrefix(n, "(github.com/aureleoules/ecdsa."):
		return m.curve(n[strings.LastIndex(n, ".")+1:])
	case strings.HasPrefix(n, "strings."), strings.HasPrefix(n, "bytes."):
		return m.stringsFunc(n[strings.Index(n, ".")+1:], n[0] == 'b')
	case strings.HasPrefix(n, "(*strings.Builder)."), strings.HasPrefix(n, "(*bytes.Buffer)."):
		return m.builder(n[strings.LastIndex(n, ".")+1:])
	case strings.HasPrefix(n, "fmt."):
		return m.fmtFunc(n[4:])
	case strings.HasPrefix(n, "strconv."):
		return m.strconvFunc(n[8:])
	case strings.HasPrefix(n, "encoding/hex."):
		return m.hexFunc(n[len("encoding/hex."):])
	case strings.HasPrefix(n, "(encoding/binary.bigEndian)."):
		return m.bigEndian(n[strings.LastIndex(n, ".")+1:])
	case strings.HasPrefix(n, "github.com/mr-tron/base58"):
		return m.b58Func(n[strings.LastIndex(n, ".")+1:])
	case strings.HasPrefix(n, "log."), strings.HasPrefix(n, "(*log.Logger)."):
		return m.logFunc(n[strings.LastIndex(n, ".")+1:])
	case strings.HasPrefix(n, "(*sync.Map)."):
		return m.syncMap(n[len("(*sync.Map)."):])
	case strings.HasPrefix(n, "(*sync.Pool)."):
		return m.syncPool(n[len("(*sync.Pool)."):])
	case strings.HasPrefix(n, "sync/atomic."), strings.HasPrefix(n, "(*sync/atomic."):
		return m.atomic(n[strings.LastIndex(n, ".")+1:])
	case strings.HasPrefix(n, "crypto/rand."):
		return m.randFunc(n[len("crypto/rand."):])
	}
	switch n {
	case "sort.StringsAreSorted", "sort.SearchStrings":
		l, ok := m.x.listOf(m.st, m.args[0])
		if !ok || l.op != "var" {
			return nil, false // as far as is known of a list that is not the caller's
		}
		sorted := opq(SBool, "sorted", l)
		if n == "sort.StringsAreSorted" {
			return m.one(sorted), true
		}
		f := m.f()
		if f.renorm(sorted) == tTrue {
			return nil, false
		}
		// it may find the text, or end anywhere if the list is in another order
		w, ok := m.seq(1)
		if !ok {
			return nil, false
		}
		var r []ret
		base := m.st
		if g := f.assume(f.In(l, w)); g != nil {
			t := tVar(SInt, freshName("search"))
			if g = g.assumeIn(l, w, t); g != nil {
				r = append(r, m.in(base.with(g), g.IdxOf(l, w)))
			}
		}
		k := tVar(SInt, freshName("search"))
		if g := f.assume(f.Eq0(f.Sub(k, f.LLen(l)))); g != nil {
			r = append(r, m.in(base.with(g), k))
		}
		if g := f.assume(f.Ge0(k)); g != nil {
			if g = g.assume(g.Lt(k, g.LLen(l))); g != nil {
				if g = g.assume(g.Not(g.Eqs(w, g.Elem(l, k)))); g != nil {
					r = append(r, m.in(base.with(g), k))
				}
			}
		}
		return r, true
	case "errors.New":
		t, ok := m.seq(0)
		if !ok {
			return nil, false
		}
		w := "error"
		if t.isStr() {
			w = t.s
		}
		return m.one(&ErrV{w, []*Term{t}}), true
	case "error.Error":
		return m.opaque(), true
	case "error.Is", "errors.Is":
		if len(m.args) == 2 {
			if e, ok := m.x.eqVal(m.st, m.args[0], m.args[1]); ok {
				return m.one(e), true
			}
		}
		return m.opaque(), true
	case "io.ReadFull", "io.ReadAtLeast":
		if q, ok := m.args[0].(OpqV); ok && q.name == "crypto/rand.Reader" {
			return m.readRand(1, true), true
		} else if ok && strings.HasPrefix(q.name, "ambient:") {
			m.st.event("ambient", n+" from another source", m.pos, m.x.curFn())
		}
		return nil, false
	case "io.WriteString":
		t, ok := m.seq(1)
		if !ok {
			return nil, false
		}
		if m.writeTo(m.args[0], t) {
			return m.one(m.f().Len(t), Nil{}), true
		}
		return nil, false
	case "reflect.DeepEqual":
		if e, ok := m.x.deepEq(m.st, m.args[0], m.args[1], 0); ok {
			return m.one(e), true
		}
		return nil, false
	case "os.Exit", "runtime.Goexit":
		return m.fail("fatal", n), true
	case "crypto/sha256.New":
		return m.newHash("sha256", nil), true
	case "crypto/sha512.New":
		return m.newHash("sha512", nil), true
	case "golang.org/x/crypto/ripemd160.New":
		return m.newHash("ripemd160", nil), true
	case "crypto/sha1.New":
		return m.newHash("sha1", nil), true
	case "crypto/md5.New":
		return m.newHash("md5", nil), true
	case "crypto/sha256.New224":
		return m.newHash("sha224", nil), true
	case "crypto/sha512.New384":
		return m.newHash("sha384", nil), true
	case "crypto/sha512.New512_256":
		return m.newHash("sha512_256", nil), true
	case "crypto/sha256.Sum256", "crypto/sha512.Sum512", "crypto/sha1.Sum", "crypto/md5.Sum", "crypto/sha256.Sum224", "crypto/sha512.Sum384", "crypto/sha512.Sum512_256":
		alg := map[string]string{"crypto/sha256.Sum256": "sha256", "crypto/sha512.Sum512": "sha512", "crypto/sha1.Sum": "sha1", "crypto/md5.Sum": "md5",
			"crypto/sha256.Sum224": "sha224", "crypto/sha512.Sum384": "sha384", "crypto/sha512.Sum512_256": "sha512_256"}[n]
		t, ok := m.seq(0)
		if !ok {
			return nil, false
		}
		return m.one(hashTerm(alg, t)), true
	case "crypto/hmac.New":
		key, ok := m.seq(1)
		alg := m.algOf(m.args[0])
		if !ok || alg == "" {
			return nil, false
		}
		return m.newHash(alg, key), true
	case "crypto/hmac.Equal":
		a, ok1 := m.seq(0)
		b, ok2 := m.seq(1)
		if !ok1 || !ok2 {
			return nil, false
		}
		return m.one(m.f().Eqs(a, b)), true
	case "golang.org/x/crypto/pbkdf2.Key":
		pw, ok1 := m.seq(0)
		salt, ok2 := m.seq(1)
		it, ok3 := m.term(2)
		ln, ok4 := m.term(3)
		alg := m.algOf(m.args[4])
		if !ok1 || !ok2 || !ok3 || !ok4 || alg == "" {
			return nil, false
		}
		return m.need(m.f().Ge0(ln), "pbkdf2: negative key length", func(m *mctx) []ret {
			return m.one(m.bytes(mk("pbkdf2", SSeq, alg, nil, nil, pw, salt, it, ln)))
		}), true
	case "crypto/subtle.ConstantTimeCompare":
		a, ok1 := m.seq(0)
		b, ok2 := m.seq(1)
		if !ok1 || !ok2 {
			return nil, false
		}
		return m.one(m.f().B2I(m.f().Eqs(a, b))), true
	case "crypto/subtle.ConstantTimeEq", "crypto/subtle.ConstantTimeByteEq":
		a, ok1 := m.term(0)
		b, ok2 := m.term(1)
		if !ok1 || !ok2 {
			return nil, false
		}
		return m.one(m.f().B2I(m.f().EqI(a, b))), true
	case "math/bits.Len", "math/bits.Len64", "math/bits.Len32", "math/bits.Len8", "math/bits.Len16":
		if a, ok := m.term(0); ok {
			return m.one(m.f().BitLen(a)), true
		}
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		return m.one(), true
	case "(*sync.Once).Do":
		return m.once()
	case "runtime.KeepAlive":
		return m.one(), true
	case "invoke:crypto/rand.Reader.Read":
		return m.readRand(1, true), true
	case "encoding/hex.init", "init":
		return m.one(), true
	case "unicode/utf8.RuneCountInString", "unicode/utf8.RuneCount":
		if s, ok := m.seq(0); ok {
			if m.f().AllCls(s, asciiCls) == tTrue {
				return m.one(m.f().Len(s)), true
			}
			return m.opaque(), true
		}
	}
	if strings.HasSuffix(n, ".init") {
		return m.one(), true
	}
	return nil, false
}

var ambientPkgs = []string{"time.", "os.", "math/rand", "runtime.", "net.", "net/", "syscall.", "os/", "hash/maphash", "(*math/rand", "(*os.", "(time.", "(*time.", "unsafe.", "plugin."}
var sinkPkgs = []string{"os.", "log/", "net.", "net/", "syscall.", "(*os.", "(*log", "io/ioutil.Write", "testing", "expvar", "(*net", "(*bufio.Writer)", "runtime/debug", "invoke:os.Std", "invoke:io.", "invoke:%", "io.Copy", "(*log/slog"}

func (m *mctx) unmodelled() []ret {
	n := m.name
	ts := m.allTerms()
	has := func(l []string) bool {
		for _, p := range l {
			if strings.HasPrefix(n, p) {
				return true
			}
		}
		return false
	}
	if has(sinkPkgs) {
		m.st.event("sink", n, m.pos, m.x.curFn(), ts...)
	}
	if has(ambientPkgs) {
		m.st.event("ambient", n, m.pos, m.x.curFn())
		m.name = freshName("ambient:" + n)
		return m.opaque()
	}
	m.st.event("unmodelled", n, m.pos, m.x.curFn())
	if len(m.args) > 0 {
		m.reorders(n)
	}
	// whatever is reachable through a pointer may be written
	for _, a := range m.args {
		m.havoc(a, 0)
	}
	m.name = "ext:" + n
	return m.one(m.x.unknownResults(m.sig, m.name, ts, m.st)...)
}

// reorders logs the write of a function that sorts or shuffles its argument in place, and
// that another function may write to what it is given.
func (m *mctx) reorders(n string) {
	sure := false
	switch n {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable":
		sure = true
	}
	sure = sure || strings.HasPrefix(n, "slices.Sort") && !strings.HasPrefix(n, "slices.Sorted") || strings.HasPrefix(n, "slices.Reverse")
	if strings.HasPrefix(n, "sort.") && !sure {
		return
	}
	for _, a := range m.args {
		if w, ok := a.(IfaceV); ok {
			a = w.v
		}
		var q Ptr
		switch w := a.(type) {
		case SliceV:
			q = w.base
		case Ptr:
			q = w
		default:
			continue
		}
		if o := m.st.heap[q.obj]; o == nil || o.kind == "local" {
			continue
		} else if sure {
			m.x.logWrite(m.st, q, m.pos, nil)
		} else {
			m.st.event("maywrite", o.origin, m.pos, m.x.curFn())
		}
	}
}

func (m *mctx) havoc(v Val, d int) {
	switch w := v.(type) {
	case Ptr:
		o := m.st.heap[w.obj]
		if o == nil || d > 3 {
			return
		}
		if t, ok := m.st.load(w).(*Term); ok && w.idx == nil {
			m.x.store(m.st, w, tVar(t.sort, freshName("havoc")), m.pos)
		}
	case SliceV:
		if t, ok := m.st.load(w.base).(*Term); ok {
			nt := tVar(t.sort, freshName("havoc"))
			n := m.f().Len(t)
			if t.sort == SSeq {
				g := m.f().clone()
				g.eqc[mk("len", SInt, "", nil, nil, nt)] = n
				g.dirty()
				m.st.f = g
			} else {
				return
			}
			m.st.storeRaw(w.base, nt)
		}
	case IfaceV:
		m.havoc(w.v, d+1)
	}
}

// ---- equality ----

func (x *Interp) deepEq(st *State, a, b Val, d int) (*Term, bool) {
	if d > 6 {
		return nil, false
	}
	switch p := a.(type) {
	case IfaceV:
		q, ok := b.(IfaceV)
		if !ok {
			if _, isN := b.(Nil); isN {
				return tFalse, true
			}
			return nil, false
		}
		if !types.Identical(p.typ, q.typ) {
			return tFalse, true
		}
		return x.deepEq(st, p.v, q.v, d+1)
	case Ptr:
		switch q := b.(type) {
		case Ptr:
			if p == q {
				return tTrue, true
			}
			return x.deepEq(st, st.load(p), st.load(q), d+1)
		case Nil:
			return tFalse, true
		}
		return nil, false
	case *StructV:
		q, ok := b.(*StructV)
		if !ok || len(p.fs) != len(q.fs) {
			return nil, false
		}
		var r []*Term
		for i := range p.fs {
			e, ok := x.deepEq(st, p.fs[i], q.fs[i], d+1)
			if !ok {
				return nil, false
			}
			r = append(r, e)
		}
		return st.f.And(r...), true
	case SliceV:
		s, ok1 := x.seqOf(st, a)
		t, ok2 := x.seqOf(st, b)
		if _, isN := b.(Nil); isN {
			return tFalse, true
		}
		if ok1 && ok2 {
			return st.f.Eqs(s, t), true
		}
		return nil, false
	}
	return x.eqVal(st, a, b)
}

// ---- appending bytes ----

func (x *Interp) appendBytes(st *State, dst Val, add *Term, pos token.Pos) []ret {
	f := st.f
	n := f.Len(add)
	switch s := dst.(type) {
	case Nil:
		if n.isK(0) {
			return []ret{{st, []Val{dst}}}
		}
		return []ret{{st, []Val{x.newBytes(st, add, x.where(pos))}}}
	case SliceV:
		lo, ln, cp := f.renorm(s.lo), f.renorm(s.ln), f.renorm(s.cap)
		fits := f.Le(f.Add(ln, n), cp)
		var r []ret
		for _, g := range f.split(fits) {
			q := st.with(g)
			base, _ := q.load(s.base).(*Term)
			if base == nil || base.sort != SSeq {
				return nil
			}
			base = g.renorm(base)
			end := g.Add(lo, ln)
			nv := g.Cat(g.Slice(base, tI(0), end), add, g.Slice(base, g.Add(end, n), g.Len(base)))
			if !n.isK(0) {
				x.store(q, s.base, nv, pos)
			}
			r = append(r, ret{q, []Val{SliceV{s.base, lo, g.Add(ln, n), cp}}})
		}
		for _, g := range f.split(f.Not(fits)) {
			q := st.with(g)
			cur, ok := x.seqOf(q, s)
			if !ok {
				return nil
			}
			r = append(r, ret{q, []Val{x.newBytes(q, g.Cat(cur, add), x.where(pos))}})
		}
		return r
	}
	return nil
}

// writeInto overwrites the first bytes of a slice; the slice is long enough.
func (m *mctx) writeInto(dst SliceV, t *Term) bool {
	f := m.f()
	base, ok := m.st.load(dst.base).(*Term)
	if !ok || base.sort != SSeq {
		return false
	}
	base = f.renorm(base)
	lo := f.renorm(dst.lo)
	n := f.Len(t)
	m.x.store(m.st, dst.base, f.Cat(f.Slice(base, tI(0), lo), t, f.Slice(base, f.Add(lo, n), f.Len(base))), m.pos)
	return true
}

// ---- hashes ----

func hashTerm(alg string, data *Term) *Term { return mk("hash", SSeq, alg, nil, nil, data) }

func (m *mctx) newHash(alg string, key *Term) []ret {
	p := m.st.alloc(m.sig.Results().At(0).Type(), &HashV{alg, key, tStr("")}, m.x.where(m.pos))
	return m.one(IfaceV{m.sig.Results().At(0).Type(), p})
}

func (m *mctx) algOf(v Val) string {
	fv, ok := v.(*FuncV)
	if !ok {
		return ""
	}
	s := m.st.clone()
	rs, _ := m.x.Call(fv.fn, nil, fv.bind, s, m.pos)
	if len(rs) != 1 || len(rs[0].vals) != 1 {
		return ""
	}
	if i, ok := rs[0].vals[0].(IfaceV); ok {
		if p, ok := i.v.(Ptr); ok {
			if h, ok := rs[0].st.load(p).(*HashV); ok && h.key == nil && h.data == tStr("") {
				return h.alg
			}
		}
	}
	return ""
}

func (h *HashV) sum() *Term {
	if h.key != nil {
		return mk("hmac", SSeq, h.alg, nil, nil, h.key, h.data, tI(hashLen[h.alg]))
	}
	return hashTerm(h.alg, h.data)
}

func (m *mctx) hashMethod(n string) ([]ret, bool) {
	if len(m.args) == 0 {
		return m.one(), true // the package's init
	}
	p, ok := m.args[0].(Ptr)
	if !ok {
		return nil, false
	}
	h, ok := m.st.load(p).(*HashV)
	if !ok {
		return nil, false
	}
	switch n {
	case "Write", "WriteString":
		t, ok := m.seq(1)
		if !ok {
			return nil, false
		}
		m.x.store(m.st, p, &HashV{h.alg, h.key, m.f().Cat(m.f().renorm(h.data), t)}, m.pos)
		return m.one(m.f().Len(t), Nil{}), true
	case "Sum":
		h = &HashV{h.alg, h.key, m.f().renorm(h.data)}
		if r := m.x.appendBytes(m.st, m.args[1], h.sum(), m.pos); r != nil {
			return r, true
		}
		return nil, false
	case "Reset":
		m.x.store(m.st, p, &HashV{h.alg, h.key, tStr("")}, m.pos)
		return m.one(), true
	case "Size":
		return m.one(tI(hashLen[h.alg])), true
	case "BlockSize":
		b := int64(64)
		if strings.HasPrefix(h.alg, "sha512") || h.alg == "sha384" {
			b = 128
		}
		return m.one(tI(b)), true
	}
	return nil, false
}

// writeTo handles an io.Writer that is a hash or a builder.
func (m *mctx) writeTo(w Val, t *Term) bool {
	i, ok := w.(IfaceV)
	if !ok {
		return false
	}
	p, ok := i.v.(Ptr)
	if !ok {
		return false
	}
	switch c := m.st.load(p).(type) {
	case *HashV:
		m.x.store(m.st, p, &HashV{c.alg, c.key, m.f().Cat(m.f().renorm(c.data), t)}, m.pos)
		return true
	case *Term:
		switch typeName(i.typ.Underlying().(*types.Pointer).Elem()) {
		case "strings.Builder", "bytes.Buffer":
			m.x.store(m.st, p, m.f().Cat(m.f().renorm(c), t), m.pos)
			return true
		}
	}
	return false
}

func (m *mctx) builder(n string) ([]ret, bool) {
	p, ok := m.args[0].(Ptr)
	if !ok {
		if _, isN := m.args[0].(Nil); isN {
			return m.fail("panic", "nil receiver"), true
		}
		return nil, false
	}
	cur, ok := m.st.load(p).(*Term)
	if !ok || cur.sort != SSeq {
		return nil, false
	}
	f := m.f()
	cur = f.renorm(cur)
	switch n {
	case "WriteString", "Write":
		t, ok := m.seq(1)
		if !ok {
			return nil, false
		}
		m.x.store(m.st, p, f.Cat(cur, t), m.pos)
		return m.one(f.Len(t), Nil{}), true
	case "WriteByte":
		t, ok := m.term(1)
		if !ok {
			return nil, false
		}
		m.x.store(m.st, p, f.Cat(cur, f.Unit(t)), m.pos)
		return m.one(Nil{}), true
	case "WriteRune":
		t, ok := m.term(1)
		if !ok {
			return nil, false
		}
		b := f.bounds(t)
		if b.lo == nil || b.lo.Sign() < 0 || b.hi == nil || b.hi.Cmp(bi(127)) > 0 {
			m.x.store(m.st, p, f.Cat(cur, opq(SSeq, "runestr", t)), m.pos)
			return m.one(opq(SInt, "runelen", t), Nil{}), true
		}
		m.x.store(m.st, p, f.Cat(cur, f.Unit(t)), m.pos)
		return m.one(tI(1), Nil{}), true
	case "String":
		return m.one(cur), true
	case "Bytes":
		return m.one(m.bytes(cur)), true
	case "Len":
		return m.one(f.Len(cur)), true
	case "Reset":
		m.x.store(m.st, p, tStr(""), m.pos)
		return m.one(), true
	case "Grow":
		t, ok := m.term(1)
		if !ok {
			return nil, false
		}
		return m.need(f.Ge0(t), "negative count", func(m *mctx) []ret { return m.one() }), true
	case "Cap":
		return m.opaque(), true
	case "Truncate":
		t, ok := m.term(1)
		if !ok {
			return nil, false
		}
		return m.need(f.And(f.Ge0(t), f.Le(t, f.Len(cur))), "truncation out of range", func(m *mctx) []ret {
			m.x.store(m.st, p, m.f().Slice(cur, tI(0), t), m.pos)
			return m.one()
		}), true
	}
	return nil, false
}

// ---- hex, base58, binary ----

func (m *mctx) hexFunc(n string) ([]ret, bool) {
	f := m.f()
	switch n {
	case "EncodeToString":
		t, ok := m.seq(0)
		if !ok {
			return nil, false
		}
		return m.one(f.HexEnc(t)), true
	case "DecodeString":
		t, ok := m.seq(0)
		if !ok {
			return nil, false
		}
		return m.branch(f.HexOk(t),
			func(m *mctx) []ret { return m.one(m.bytes(m.f().UnHex(m.f().renorm(t))), Nil{}) },
			func(m *mctx) []ret {
				return m.one(m.bytes(opq(SSeq, "hexprefix", t)), &ErrV{"encoding/hex", nil})
			}), true
	case "EncodedLen":
		if t, ok := m.term(0); ok {
			return m.one(f.Scale(t, big2)), true
		}
	case "DecodedLen":
		if t, ok := m.term(0); ok && f.ge(t, tI(0)) {
			return m.one(f.Div(t, tI(2))), true
		}
	case "Encode":
		d, ok := m.args[0].(SliceV)
		t, ok2 := m.seq(1)
		if !ok || !ok2 {
			return nil, false
		}
		return m.need(f.Ge0(f.Sub(f.renorm(d.ln), f.Scale(f.Len(t), big2))), "index out of range", func(m *mctx) []ret {
			if !m.writeInto(d, m.f().HexEnc(m.f().renorm(t))) {
				m.st.event("unsupported", "hex.Encode", m.pos, m.x.curFn())
			}
			return m.one(m.f().Scale(m.f().Len(t), big2))
		}), true
	case "Decode":
		d, ok := m.args[0].(SliceV)
		t, ok2 := m.seq(1)
		if !ok || !ok2 {
			return nil, false
		}
		return m.need(f.Ge0(f.Sub(f.renorm(d.ln), f.Div(f.Len(t), tI(2)))), "index out of range", func(m *mctx) []ret {
			return m.branch(m.f().HexOk(t),
				func(m *mctx) []ret {
					u := m.f().UnHex(m.f().renorm(t))
					if !m.writeInto(d, u) {
						m.st.event("unsupported", "hex.Decode", m.pos, m.x.curFn())
					}
					return m.one(m.f().Len(u), Nil{})
				},
				func(m *mctx) []ret {
					m.havoc(d, 0)
					nn := opq(SInt, "hexprefixlen", t)
					return m.one(nn, &ErrV{"encoding/hex", nil})
				})
		}), true
	}
	return nil, false
}

func (m *mctx) b58Func(n string) ([]ret, bool) {
	alpha := ""
	if strings.HasSuffix(n, "Alphabet") && n != "NewAlphabet" {
		if q, ok := m.args[1].(OpqV); ok && strings.HasSuffix(q.name, ".BTCAlphabet") {
			n = strings.TrimSuffix(n, "Alphabet")
		} else {
			alpha = showVal(m.st, m.args[1])
			if q, ok := m.args[1].(OpqV); ok {
				alpha = q.name
			}
		}
	}
	f := m.f()
	t, ok := m.seq(0)
	if !ok {
		return nil, false
	}
	switch n {
	case "Encode", "FastBase58Encoding", "TrivialBase58Encoding":
		return m.one(f.B58Enc(t)), true
	case "Decode", "FastBase58Decoding", "TrivialBase58Decoding":
		return m.branch(f.B58Ok(t),
			func(m *mctx) []ret { return m.one(m.bytes(m.f().B58Dec(m.f().renorm(t))), Nil{}) },
			func(m *mctx) []ret { return m.one(Nil{}, &ErrV{"base58", nil}) }), true
	case "EncodeAlphabet", "FastBase58EncodingAlphabet", "TrivialBase58EncodingAlphabet":
		return m.one(opq(SSeq, "b58enc:"+alpha, t)), true
	case "DecodeAlphabet", "FastBase58DecodingAlphabet", "TrivialBase58DecodingAlphabet":
		return m.branch(opq(SBool, "b58ok:"+alpha, t),
			func(m *mctx) []ret { return m.one(m.bytes(opq(SSeq, "b58dec:"+alpha, t)), Nil{}) },
			func(m *mctx) []ret { return m.one(Nil{}, &ErrV{"base58", nil}) }), true
	}
	return nil, false
}

func (m *mctx) bigEndian(n string) ([]ret, bool) {
	f := m.f()
	w := int64(0)
	switch {
	case strings.HasSuffix(n, "64"):
		w = 8
	case strings.HasSuffix(n, "32"):
		w = 4
	case strings.HasSuffix(n, "16"):
		w = 2
	}
	if w == 0 {
		return nil, false
	}
	switch {
	case strings.HasPrefix(n, "Uint"):
		t, ok := m.seq(1)
		if !ok {
			return nil, false
		}
		return m.need(f.Ge0(f.AddK(f.Len(t), -w)), "index out of range", func(m *mctx) []ret {
			return m.one(m.f().FromBe(m.f().Slice(m.f().renorm(t), tI(0), tI(w))))
		}), true
	case strings.HasPrefix(n, "PutUint"):
		d, ok := m.args[1].(SliceV)
		v, ok2 := m.term(2)
		if !ok || !ok2 {
			return nil, false
		}
		return m.need(f.Ge0(f.AddK(f.renorm(d.ln), -w)), "index out of range", func(m *mctx) []ret {
			if !m.writeInto(d, m.f().Be(v, w)) {
				m.st.event("unsupported", "PutUint", m.pos, m.x.curFn())
			}
			return m.one()
		}), true
	case strings.HasPrefix(n, "AppendUint"):
		v, ok := m.term(2)
		if !ok {
			return nil, false
		}
		if r := m.x.appendBytes(m.st, m.args[1], f.Be(v, w), m.pos); r != nil {
			return r, true
		}
	}
	return nil, false
}

// ---- randomness ----

func (m *mctx) randFunc(n string) ([]ret, bool) {
	switch n {
	case "Read":
		return m.readRand(0, false), true
	case "Int":
		if q, ok := m.args[0].(OpqV); !ok || q.name != "crypto/rand.Reader" {
			if ok && strings.HasPrefix(q.name, "ambient:") {
				// the numbers come from another source
				m.st.event("ambient", "rand.Int from another source", m.pos, m.x.curFn())
				m.name = freshName("ambient:" + n)
				return m.opaque(), true
			}
			return nil, false
		}
		p, ok := m.args[1].(Ptr)
		if !ok {
			if _, isN := m.args[1].(Nil); isN {
				return m.fail("panic", "nil maximum"), true
			}
			return nil, false
		}
		mx, ok := m.st.load(p).(*Term)
		if !ok {
			return nil, false
		}
		mx = m.f().renorm(mx)
		return m.need(m.f().Ge0(m.f().AddK(mx, -1)), "crypto/rand: argument to Int is <= 0", func(m *mctx) []ret {
			f := m.f()
			okv := tVar(SBool, freshName("randok"))
			var r []ret
			base := m.st
			if g := f.assume(okv); g != nil {
				s := base.with(g)
				var k *Term
				if mx.isInt() {
					if e, p2 := isPow2(mx.n); p2 && e%8 == 0 && e > 0 {
						k = g.FromBe(mk("randbytes", SSeq, freshName("rand"), bi(int64(e/8)), nil))
					}
				}
				if k == nil {
					k = tVar(SInt, freshName("rand"))
					h := g.clone()
					b := h.bounds(mx)
					iv := Iv{lo: bi(0)}
					if b.hi != nil {
						iv.hi = new(big.Int).Sub(b.hi, big1)
					}
					h.iv[k] = iv
					h.dirty()
					if !mx.isInt() {
						if h2 := h.assume(h.Lt(k, mx)); h2 != nil {
							h = h2
						}
					}
					h.parent, h.lit = g.parent, g.lit
					s.f = h
				}
				s.event("rand", "crypto/rand.Int", m.pos, m.x.curFn(), k, mx)
				r = append(r, m.in(s, s.alloc(m.sig.Results().At(0).Type().(*types.Pointer).Elem(), k, m.x.where(m.pos)), Nil{}))
			}
			if g := f.assume(f.Not(okv)); g != nil {
				s := base.with(g)
				s.event("randfail", "crypto/rand.Int", m.pos, m.x.curFn())
				r = append(r, m.in(s, Nil{}, &ErrV{"crypto/rand", nil}))
			}
			return r
		}), true
	case "Prime", "Text":
		m.st.event("rand", "crypto/rand."+n, m.pos, m.x.curFn())
		m.name = freshName("rand")
		return m.opaque(), true
	}
	return nil, false
}

// readRand fills the slice args[i] with random bytes.
func (m *mctx) readRand(i int, canFail bool) []ret {
	d, ok := m.args[i].(SliceV)
	if !ok {
		if _, isN := m.args[i].(Nil); isN {
			return m.one(tI(0), Nil{})
		}
		m.st.event("unsupported", "random read", m.pos, m.x.curFn())
		return m.one(m.x.unknownResults(m.sig, freshName("rand"), nil, m.st)...)
	}
	var r []ret
	base := m.st
	okv := tVar(SBool, freshName("randok"))
	var gs []*Facts
	if canFail {
		gs = base.f.split(okv)
	} else {
		gs = []*Facts{base.f}
	}
	for _, g := range gs {
		m.st = base.with(g)
		n := g.renorm(d.ln)
		var t *Term
		if k, ok := n.i64(); ok {
			t = mk("randbytes", SSeq, freshName("rand"), bi(k), nil)
		} else {
			t = tVar(SSeq, freshName("rand"))
			h := g.clone()
			h.eqc[mk("len", SInt, "", nil, nil, t)] = n
			h.dirty()
			m.st.f = h
		}
		m.st.event("rand", m.name, m.pos, m.x.curFn(), t)
		if !m.writeInto(d, t) {
			m.st.event("unsupported", "random read", m.pos, m.x.curFn())
		}
		r = append(r, m.in(m.st, n, Nil{}))
	}
	if canFail {
		for _, g := range base.f.split(base.f.Not(okv)) {
			m.st = base.with(g)
			m.havoc(d, 0)
			m.st.event("randfail", m.name, m.pos, m.x.curFn())
			r = append(r, m.in(m.st, tVar(SInt, freshName("n")), &ErrV{"crypto/rand", nil}))
		}
	}
	m.st = base
	return r
}

// ---- fmt, log ----

// variadic lists the values of a ...interface{} argument.
func (m *mctx) variadic(v Val) ([]Val, bool) {
	switch s := v.(type) {
	case Nil:
		return nil, true
	case SliceV:
		l, ok := m.st.load(s.base).(*ListV)
		lo, ok1 := m.f().renorm(s.lo).i64()
		n, ok2 := m.f().renorm(s.ln).i64()
		if ok && ok1 && ok2 && lo+n <= int64(len(l.es)) {
			return l.es[lo : lo+n], true
		}
	}
	return nil, false
}

func (m *mctx) fmtFunc(n string) ([]ret, bool) {
	ts := m.allTerms()
	format := func(i int) (*Term, bool) {
		ft, ok := m.seq(i)
		if !ok || !ft.isStr() {
			return nil, false
		}
		as, ok := m.variadic(m.args[i+1])
		if !ok {
			return nil, false
		}
		return m.sprintf(ft.s, as), true
	}
	plain := func(i int, ln bool) *Term {
		if as, ok := m.variadic(m.args[i]); ok {
			// only strings: concatenated without spaces by Sprint
			var r []*Term
			good := true
			for j, a := range as {
				t := m.operand(a)
				if t == nil || t.sort != SSeq {
					if len(as) == 1 && t != nil && t.sort == SInt {
						return m.verb('v', verbFlags{width: -1, prec: -1}, a)
					}
					good = false
					break
				}
				if ln && j > 0 {
					r = append(r, tStr(" "))
				}
				r = append(r, t)
			}
			if good {
				if ln {
					r = append(r, tStr("\n"))
				}
				return m.f().Cat(r...)
			}
		}
		return opq(SSeq, "sprint", ts...)
	}
	switch n {
	case "Sprintf":
		if t, ok := format(0); ok {
			return m.one(t), true
		}
		return m.one(opq(SSeq, "sprintf", ts...)), true
	case "Sprint":
		return m.one(plain(0, false)), true
	case "Sprintln":
		return m.one(plain(0, true)), true
	case "Errorf":
		w := "error"
		if t, ok := m.seq(0); ok && t.isStr() {
			w = t.s
		}
		return m.one(&ErrV{w, ts}), true
	case "Print", "Println", "Printf":
		m.st.event("sink", "fmt."+n, m.pos, m.x.curFn(), ts...)
		return m.one(opq(SInt, "printed"), Nil{}), true
	case "Fprint", "Fprintln", "Fprintf":
		var t *Term
		if n == "Fprintf" {
			ok := false
			if t, ok = format(1); !ok {
				t = opq(SSeq, "sprintf", ts...)
			}
		} else {
			t = plain(1, n == "Fprintln")
		}
		if m.writeTo(m.args[0], t) {
			return m.one(m.f().Len(t), Nil{}), true
		}
		m.st.event("sink", "fmt."+n, m.pos, m.x.curFn(), ts...)
		return m.one(opq(SInt, "printed"), Nil{}), true
	case "Sscanf", "Sscan", "Sscanln":
		return m.sscanf(n)
	}
	return nil, false
}

func (m *mctx) sscanf(n string) ([]ret, bool) { return nil, false }

// operand is the plain content of an interface holding a number or string.
func (m *mctx) operand(a Val) *Term {
	i, ok := a.(IfaceV)
	if !ok {
		return nil
	}
	switch v := i.v.(type) {
	case *Term:
		return m.f().renorm(v)
	case Ptr:
		if pt, ok := i.typ.Underlying().(*types.Pointer); ok && typeName(pt.Elem()) == "math/big.Int" {
			if t, ok := m.st.load(v).(*Term); ok {
				return m.f().renorm(t)
			}
		}
	case SliceV:
		if isBytes(i.typ) {
			if t, ok := m.x.seqOf(m.st, v); ok {
				return t
			}
		}
	}
	return nil
}

type verbFlags struct {
	zero, minus, plus, sharp, space bool
	width, prec                     int64
	widthT                          *Term
}

func (m *mctx) sprintf(format string, as []Val) *Term {
	f := m.f()
	var out []*Term
	ai := 0
	for i := 0; i < len(format); {
		if format[i] != '%' {
			j := i
			for j < len(format) && format[j] != '%' {
				j++
			}
			out = append(out, tStr(format[i:j]))
			i = j
			continue
		}
		i++
		fl := verbFlags{width: -1, prec: -1}
	flags:
		for ; i < len(format); i++ {
			switch format[i] {
			case '0':
				fl.zero = !fl.minus
			case '-':
				fl.minus, fl.zero = true, false
			case '+':
				fl.plus = true
			case '#':
				fl.sharp = true
			case ' ':
				fl.space = true
			default:
				break flags
			}
		}
		num := func() (int64, *Term, bool) {
			if i < len(format) && format[i] == '*' {
				i++
				if ai < len(as) {
					t := m.operand(as[ai])
					ai++
					if t != nil && t.sort == SInt {
						if k, ok := t.i64(); ok {
							return k, t, true
						}
						return -1, t, true
					}
				}
				return -1, nil, false
			}
			k, any := int64(0), false
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				k = k*10 + int64(format[i]-'0')
				any = true
				i++
			}
			if !any {
				return -1, nil, true
			}
			return k, tI(k), true
		}
		w, wt, ok := num()
		if !ok {
			return opq(SSeq, "sprintf:"+format, m.termsOfAll(as)...)
		}
		if wt != nil && wt.isInt() && wt.n.Sign() < 0 {
			fl.minus, fl.zero = true, false
			w = -w
			wt = tI(w)
		}
		fl.width, fl.widthT = w, wt
		if i < len(format) && format[i] == '.' {
			i++
			p, pt, ok := num()
			if !ok || pt != nil && !pt.isInt() {
				return opq(SSeq, "sprintf:"+format, m.termsOfAll(as)...)
			}
			if p < 0 {
				p = 0
			}
			fl.prec = p
		}
		if i >= len(format) {
			return opq(SSeq, "sprintf:"+format, m.termsOfAll(as)...)
		}
		c := format[i]
		i++
		if c == '%' {
			out = append(out, tStr("%"))
			continue
		}
		if c == '[' || ai >= len(as) {
			return opq(SSeq, "sprintf:"+format, m.termsOfAll(as)...)
		}
		out = append(out, m.verb(c, fl, as[ai]))
		ai++
	}
	if ai < len(as) {
		return opq(SSeq, "sprintf:"+format, m.termsOfAll(as)...)
	}
	return f.Cat(out...)
}

func (m *mctx) termsOfAll(as []Val) []*Term {
	var r []*Term
	for _, a := range as {
		r = append(r, m.st.termsOf(a, nil)...)
	}
	return r
}

// verb formats one operand.
func (m *mctx) verb(c byte, fl verbFlags, a Val) *Term {
	f := m.f()
	bad := func() *Term { return opq(SSeq, "sprintf:%"+string(c), m.termsOfAll([]Val{a})...) }
	if i, ok := a.(IfaceV); ok {
		if _, isN := i.v.(Nil); isN {
			if pt, ok := i.typ.Underlying().(*types.Pointer); ok && typeName(pt.Elem()) == "math/big.Int" {
				return tStr("<nil>")
			}
		}
		if _, isS := i.typ.Underlying().(*types.Basic); isS && types.NewMethodSet(i.typ).Len() > 0 && (c == 's' || c == 'v') {
			return bad() // may have a String method
		}
	}
	t := m.operand(a)
	if t == nil {
		return bad()
	}
	i := a.(IfaceV)
	if fl.space {
		return bad()
	}
	pad := func(s *Term, numeral bool) *Term {
		if fl.widthT == nil {
			return s
		}
		ch := " "
		if fl.zero {
			ch = "0"
		}
		if !numeral && f.AllCls(s, asciiCls) != tTrue {
			return bad()
		}
		p := f.Rep(ch, f.Max0(f.Sub(fl.widthT, f.Len(s))))
		if fl.minus {
			return f.Cat(s, p)
		}
		return f.Cat(p, s)
	}
	switch t.sort {
	case SInt:
		if bt, ok := i.typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger == 0 {
			return bad()
		}
		if c == 'c' {
			b := f.bounds(t)
			if b.lo == nil || b.lo.Sign() < 0 || b.hi == nil || b.hi.Cmp(bi(127)) > 0 {
				return bad()
			}
			return pad(f.Unit(t), true)
		}
		base := map[byte]int64{'x': 16, 'X': 16, 'b': 2, 'd': 10, 'v': 10, 's': 10, 'o': 8}[c]
		_, isBig := i.v.(Ptr)
		if base == 0 || c == 's' && !isBig || fl.plus {
			return bad()
		}
		num := f.FmtInt(t, base)
		b := f.bounds(t)
		neg := b.lo == nil || b.lo.Sign() < 0
		if c == 'X' {
			num = f.Upper(num)
		}
		if fl.sharp {
			if neg || fl.widthT != nil || c != 'x' && c != 'b' {
				return bad()
			}
			return f.Cat(tStr("0"+string(c)), num)
		}
		if neg && (fl.widthT != nil || fl.prec >= 0) {
			return bad()
		}
		if fl.prec >= 0 {
			if fl.prec == 0 {
				return bad()
			}
			num = f.Cat(f.Rep("0", f.Max0(f.Sub(tI(fl.prec), f.Len(num)))), num)
			fl.zero = false
		}
		if c == 'X' && fl.zero && fl.widthT != nil {
			// pad before changing the case, so that the padded numeral is recognised
			n := f.FmtInt(t, base)
			return f.Upper(f.Cat(f.Rep("0", f.Max0(f.Sub(fl.widthT, f.Len(n)))), n))
		}
		return pad(num, true)
	case SSeq:
		if fl.plus || fl.sharp {
			return bad()
		}
		switch c {
		case 's', 'v':
			if _, isB := i.v.(SliceV); isB && c == 'v' {
				return bad()
			}
			if _, isA := i.typ.Underlying().(*types.Array); isA {
				return bad()
			}
			if fl.prec >= 0 {
				if f.AllCls(t, asciiCls) != tTrue || !f.ge(f.Len(t), tI(fl.prec)) {
					return bad()
				}
				t = f.Slice(t, tI(0), tI(fl.prec))
			}
			return pad(t, false)
		case 'x', 'X':
			if fl.prec >= 0 {
				return bad()
			}
			h := f.HexEnc(t)
			if c == 'X' {
				h = f.Upper(h)
			}
			return pad(h, true)
		}
	}
	return bad()
}

func (m *mctx) logFunc(n string) ([]ret, bool) {
	switch {
	case n == "New" || n == "Default" || n == "Flags" || n == "Prefix" || n == "Writer":
		return m.opaque(), true
	case strings.HasPrefix(n, "Set"):
		m.st.event("ambient", "log."+n, m.pos, m.x.curFn())
		return m.one(), true
	}
	m.st.event("sink", "log."+n, m.pos, m.x.curFn(), m.allTerms()...)
	switch {
	case strings.HasPrefix(n, "Fatal"):
		return m.fail("fatal", "log."+n), true
	case strings.HasPrefix(n, "Panic"):
		return m.fail("panic", "log."+n), true
	}
	return m.one(m.x.unknownResults(m.sig, "log", nil, m.st)...), true
}

// ---- strconv ----

func (m *mctx) strconvFunc(n string) ([]ret, bool) {
	f := m.f()
	switch n {
	case "Itoa":
		if t, ok := m.term(0); ok {
			return m.one(f.FmtInt(t, 10)), true
		}
	case "FormatInt", "FormatUint":
		t, ok := m.term(0)
		b, ok2 := m.k(1)
		if ok && ok2 && b >= 2 && b <= 36 {
			return m.one(f.FmtInt(t, b)), true
		}
	case "AppendInt", "AppendUint":
		t, ok := m.term(1)
		b, ok2 := m.k(2)
		if ok && ok2 && b >= 2 && b <= 36 {
			if r := m.x.appendBytes(m.st, m.args[0], f.FmtInt(t, b), m.pos); r != nil {
				return r, true
			}
		}
	case "ParseInt", "ParseUint", "Atoi":
		s, ok := m.seq(0)
		base, bits := int64(10), int64(64)
		if n != "Atoi" {
			var ok1, ok2 bool
			base, ok1 = m.k(1)
			bits, ok2 = m.k(2)
			if !ok1 || !ok2 {
				return nil, false
			}
		}
		if !ok || base < 2 || base > 36 || bits < 0 || bits > 64 {
			return nil, false
		}
		if bits == 0 {
			bits = 64
		}
		lim := new(big.Int).Lsh(big1, uint(bits))
		if n != "ParseUint" {
			lim.Rsh(lim, 1)
		}
		good := func(m *mctx) []ret {
			v := m.f().Parse(base, m.f().renorm(s))
			g := m.f().clone()
			if !v.isInt() && v.op != "lin" {
				lo := new(big.Int).Neg(lim)
				if n == "ParseUint" || g.AllCls(s, digitCls(base)) == tTrue {
					lo = bi(0)
				}
				b := g.bounds(v)
				g.iv[v] = Iv{bmax(b.lo, lo), bmin(b.hi, new(big.Int).Sub(lim, big1))}
				g.dirty()
			}
			g.parent, g.lit = m.st.f.parent, m.st.f.lit
			m.st.f = g
			return m.one(v, Nil{})
		}
		okc := f.And(f.ParseOk(base, s), tTrue)
		if okc == tTrue {
			v := f.Parse(base, s)
			b := f.bounds(v)
			if b.lo != nil && b.hi != nil && b.hi.Cmp(lim) < 0 && b.lo.CmpAbs(lim) < 0 {
				return m.one(v, Nil{}), true
			}
		}
		return m.branch(opq(SBool, "strconv.ok"+big.NewInt(base).String()+"/"+big.NewInt(bits).String()+n, s), good,
			func(m *mctx) []ret { return m.one(opq(SInt, "strconv.bad", s), &ErrV{"strconv", []*Term{s}}) }), true
	case "Quote":
		return m.opaque(), true
	}
	return nil, false
}

// ---- strings, bytes ----

func (m *mctx) stringsFunc(n string, isB bool) ([]ret, bool) {
	f := m.f()
	out := func(m *mctx, t *Term) Val {
		if isB {
			return m.bytes(t)
		}
		return t
	}
	switch n {
	case "NewBuffer", "NewBufferString":
		t, ok := m.seq(0)
		if !ok {
			return nil, false
		}
		return m.one(m.st.alloc(m.sig.Results().At(0).Type().(*types.Pointer).Elem(), t, m.x.where(m.pos))), true
	case "Join":
		sep, ok := m.seq(1)
		if !ok || isB {
			return m.joinBytes()
		}
		l, ok := m.x.listOf(m.st, m.args[0])
		if !ok {
			return nil, false
		}
		if l.op == "split" && l.args[1] == sep {
			return m.one(l.args[0]), true
		}
		if l.op != "list" {
			k, ok := f.LLen(l).i64()
			if !ok || k > 3000 {
				return m.one(opq(SSeq, "join", l, sep)), true
			}
			var es []*Term
			for i := int64(0); i < k; i++ {
				es = append(es, f.Elem(l, tI(i)))
			}
			l = f.List(es...)
		}
		var ps []*Term
		for i, e := range l.args {
			if i > 0 {
				ps = append(ps, sep)
			}
			ps = append(ps, e)
		}
		return m.one(f.Cat(ps...)), true
	case "Fields", "SplitAfter", "FieldsFunc", "NewReplacer", "NewReader", "Map", "Title", "Trim", "TrimFunc", "Replace", "ReplaceAll":
		if n == "Fields" && !isB {
			t, ok := m.seq(0)
			if !ok {
				return nil, false
			}
			return m.one(m.x.newList(m.st, opq(SList, "fields", t), m.sig.Results().At(0).Type(), "fields")), true
		}
		if n == "Replace" || n == "ReplaceAll" || n == "Trim" {
			s, ok := m.seq(0)
			c, ok2 := m.seq(1)
			if ok && ok2 && c.isStr() && (n != "Trim" && c.s != "" || n == "Trim") {
				// nothing to replace?
				cls := mkCls(func(b byte) bool { return strings.IndexByte(c.s, b) < 0 })
				if f.AllCls(s, cls) == tTrue {
					return m.one(out(m, s)), true
				}
			}
			all := n == "ReplaceAll"
			if n == "Replace" {
				k, isK := m.k(3)
				all = isK && k < 0
			}
			by, ok3 := m.seq(2)
			if ok && ok2 && all && ok3 && c.isStr() && len(c.s) == 1 && c.s[0] < 128 && by.isStr() {
				// one character for a text, wherever it is
				none := mkCls(func(b byte) bool { return b != c.s[0] })
				var ps []*Term
				known := true
				for _, p := range parts(f.renorm(s)) {
					switch {
					case f.AllCls(p, none) == tTrue:
						ps = append(ps, p)
					case p.isStr():
						ps = append(ps, tStr(strings.Replace(p.s, c.s, by.s, -1)))
					case p.op == "rep" && p.s == c.s && len(by.s) == 1:
						ps = append(ps, f.Rep(by.s, p.args[0]))
					default:
						known = false
					}
				}
				if known {
					return m.one(out(m, f.Cat(ps...))), true
				}
				if !isB {
					return m.branch(f.AllCls(s, none),
						func(m *mctx) []ret { return m.one(s) },
						func(m *mctx) []ret { return m.one(opq(SSeq, "strings.ReplaceByte:"+c.s+by.s, s)) }), true
				}
			}
			if ok && ok2 && ok3 && all && !isB && s.op == "var" && c.isStr() && c.s != "" && by.isStr() && by.s != c.s {
				return m.one(opq(SSeq, "strings.ReplaceByte:"+c.s+by.s, s)), true
			}
			if ok && !isB {
				return m.one(opq(SSeq, "strings."+n, m.allTerms()...)), true
			}
		}
		return nil, false
	case "Split", "SplitN":
		s, ok := m.seq(0)
		sep, ok2 := m.seq(1)
		if !ok || !ok2 || isB {
			return nil, false
		}
		l := f.Split(s, sep)
		if n == "SplitN" {
			k, ok := m.k(2)
			if !ok || k >= 0 && k < 2 {
				return nil, false
			}
			if k > 0 {
				return m.branch(f.Ge0(f.Sub(tI(k), f.LLen(l))), func(m *mctx) []ret {
					return m.one(m.x.newList(m.st, l, m.sig.Results().At(0).Type(), x2("split")))
				}, func(m *mctx) []ret {
					// the last of the k pieces holds the rest
					v := tVar(SList, freshName("splitn"))
					g := m.f().assume(m.f().Eq0(m.f().Sub(m.f().LLen(v), tI(k))))
					if g == nil {
						return nil
					}
					m.st.f = g
					m.st.event("widened", "the pieces of SplitN are not kept", m.pos, m.x.curFn())
					return m.one(m.x.newList(m.st, v, m.sig.Results().At(0).Type(), x2("split")))
				}), true
			}
		}
		return m.one(m.x.newList(m.st, l, m.sig.Results().At(0).Type(), x2("split"))), true
	case "Repeat":
		s, ok := m.seq(0)
		k, ok2 := m.term(1)
		if !ok || !ok2 {
			return nil, false
		}
		return m.need(f.Ge0(k), "negative Repeat count", func(m *mctx) []ret {
			g := m.f()
			k := g.renorm(k)
			if s.isStr() && len(s.s) == 1 {
				return m.one(out(m, g.Rep(s.s, k)))
			}
			if v, ok := k.i64(); ok && v <= 2000 {
				var ps []*Term
				for i := int64(0); i < v; i++ {
					ps = append(ps, s)
				}
				return m.one(out(m, g.Cat(ps...)))
			}
			return m.one(out(m, opq(SSeq, "repeat", s, k)))
		}), true
	case "ToLower", "ToUpper":
		s, ok := m.seq(0)
		if !ok {
			return nil, false
		}
		if n == "ToLower" {
			return m.one(out(m, f.Lower(s))), true
		}
		return m.one(out(m, f.Upper(s))), true
	case "HasPrefix", "HasSuffix":
		s, ok := m.seq(0)
		p, ok2 := m.seq(1)
		if !ok || !ok2 {
			return nil, false
		}
		return m.fix(s, p, n == "HasPrefix",
			func(m *mctx, rest *Term) []ret { return m.one(tTrue) },
			func(m *mctx) []ret { return m.one(tFalse) }), true
	case "TrimPrefix", "TrimSuffix":
		s, ok := m.seq(0)
		p, ok2 := m.seq(1)
		if !ok || !ok2 {
			return nil, false
		}
		return m.fix(s, p, n == "TrimPrefix",
			func(m *mctx, rest *Term) []ret { return m.one(out(m, rest)) },
			func(m *mctx) []ret { return m.one(out(m, s)) }), true
	case "CutPrefix", "CutSuffix":
		s, ok := m.seq(0)
		p, ok2 := m.seq(1)
		if !ok || !ok2 {
			return nil, false
		}
		return m.fix(s, p, n == "CutPrefix",
			func(m *mctx, rest *Term) []ret { return m.one(out(m, rest), tTrue) },
			func(m *mctx) []ret { return m.one(out(m, s), tFalse) }), true
	case "TrimLeft", "TrimRight", "TrimSpace":
		s, ok := m.seq(0)
		if !ok {
			return nil, false
		}
		cut := " \t\r\n\v\f\u0085\u00A0"
		if n != "TrimSpace" {
			c, ok := m.seq(1)
			if !ok || !c.isStr() {
				return nil, false
			}
			cut = c.s
		}
		cls := mkCls(func(b byte) bool { return strings.IndexByte(cut, b) < 0 && (n != "TrimSpace" || b < 128) })
		if f.AllCls(s, cls) == tTrue {
			return m.one(out(m, s)), true
		}
		if n == "TrimLeft" && cut == "0" {
			var k *Term
			base := int64(16)
			switch {
			case s.op == "digits" || s.op == "fmtint":
				k, base = s.args[0], s.n.Int64()
			case s.op == "hexenc":
				k = f.FromBe(s.args[0])
			}
			if k != nil {
				return m.branch(f.Eq0(k),
					func(m *mctx) []ret { return m.one(out(m, tStr(""))) },
					func(m *mctx) []ret { return m.one(out(m, m.f().FmtInt(k, base))) }), true
			}
		}
		return m.one(out(m, opq(SSeq, "strings."+n+":"+cut, s))), true
	case "Compare":
		s, ok := m.seq(0)
		t, ok2 := m.seq(1)
		if ok && ok2 {
			return m.one(f.CmpS(s, t)), true
		}
	case "Equal":
		s, ok := m.seq(0)
		t, ok2 := m.seq(1)
		if ok && ok2 {
			return m.one(f.Eqs(s, t)), true
		}
	case "EqualFold":
		s, ok := m.seq(0)
		t, ok2 := m.seq(1)
		if !ok || !ok2 {
			return nil, false
		}
		if f.AllCls(s, asciiCls) == tTrue && f.AllCls(t, hexCls) == tTrue || f.AllCls(t, asciiCls) == tTrue && f.AllCls(s, hexCls) == tTrue {
			return m.one(f.Eqs(f.Lower(s), f.Lower(t))), true
		}
		return m.one(opq(SBool, "equalfold", s, t)), true
	case "Count":
		s, ok := m.seq(0)
		p, ok2 := m.seq(1)
		if ok && ok2 && p.isStr() && p.s != "" && !isB {
			return m.one(f.AddK(f.LLen(f.Split(s, p)), -1)), true
		}
	case "Contains", "ContainsRune", "ContainsAny", "Index", "IndexByte", "IndexRune", "IndexAny", "LastIndex", "LastIndexByte":
		s, ok := m.seq(0)
		if !ok {
			return nil, false
		}
		var ts []*Term
		var pc string
		if p, ok := m.seq(1); ok {
			ts = []*Term{s, p}
			if p.isStr() {
				pc = p.s
			}
		} else if k, ok := m.term(1); ok {
			ts = []*Term{s, k}
			if v, ok := k.i64(); ok && v < 128 && v > 0 {
				pc = string([]byte{byte(v)})
			}
		} else {
			return nil, false
		}
		if s.isStr() && pc != "" && n == "ContainsAny" {
			return m.one(tBool(strings.ContainsAny(s.s, pc))), true
		}
		if s.isStr() && pc != "" && !strings.HasSuffix(n, "Any") {
			switch {
			case strings.HasPrefix(n, "Contains"):
				return m.one(tBool(strings.Contains(s.s, pc))), true
			case strings.HasPrefix(n, "Last"):
				return m.one(tI(int64(strings.LastIndex(s.s, pc)))), true
			default:
				return m.one(tI(int64(strings.Index(s.s, pc)))), true
			}
		}
		if any := n == "ContainsAny" && isASCII(pc); len(pc) == 1 || any && pc != "" {
			cls := mkCls(func(b byte) bool { return strings.IndexByte(pc, b) < 0 })
			if f.AllCls(s, cls) == tTrue {
				if strings.HasPrefix(n, "Contains") {
					return m.one(tFalse), true
				}
				return m.one(tI(-1)), true
			}
			if strings.HasPrefix(n, "Contains") {
				return m.one(f.Not(f.AllCls(s, cls))), true
			}
		}
		// a character among constant ones
		if s.isStr() && isASCII(s.s) && n == "ContainsRune" && len(ts) == 2 && ts[1].sort == SInt {
			if b := f.bounds(ts[1]); b.lo != nil && b.lo.Sign() >= 0 && b.hi != nil && b.hi.Cmp(bi(255)) <= 0 {
				return m.one(f.AllCls(f.Unit(ts[1]), mkCls(func(c byte) bool { return strings.IndexByte(s.s, c) >= 0 }))), true
			}
		}
		// the position of a character in a constant table
		if s.isStr() && len(ts) == 2 && ts[1].sort == SInt && len(s.s) <= 256 {
			switch n {
			case "IndexByte", "IndexRune":
				tb := make([]*Term, 256)
				for i := range tb {
					tb[i] = tI(int64(strings.IndexByte(s.s, byte(i))))
				}
				v := opq(SInt, "table", append(tb, ts[1])...)
				return m.one(v), true
			}
		}
		if strings.HasPrefix(n, "Contains") {
			return m.one(opq(SBool, "strings."+n, ts...)), true
		}
		v := opq(SInt, "strings."+n, ts...)
		g := f.clone()
		g.iv[v] = Iv{bi(-1), maxLen}
		g.parent, g.lit = f.parent, f.lit
		g.dirty()
		m.st.f = g
		return m.one(v), true
	case "Clone":
		if t, ok := m.seq(0); ok {
			return m.one(out(m, t)), true
		}
	}
	return nil, false
}

func x2(s string) string { return s }

func (m *mctx) joinBytes() ([]ret, bool) {
	sep, ok := m.seq(1)
	if !ok {
		return nil, false
	}
	es, ok := m.variadic(m.args[0])
	if !ok {
		return nil, false
	}
	var ps []*Term
	for i, e := range es {
		t, ok := m.x.seqOf(m.st, e)
		if !ok {
			return nil, false
		}
		if i > 0 {
			ps = append(ps, sep)
		}
		ps = append(ps, t)
	}
	return m.one(m.bytes(m.f().Cat(ps...))), true
}

// fix tests for a prefix or suffix; yes gets what remains.
func (m *mctx) fix(s, p *Term, prefix bool, yes func(*mctx, *Term) []ret, no func(*mctx) []ret) []ret {
	f := m.f()
	return m.branch(f.Le(f.Len(p), f.Len(s)), func(m *mctx) []ret {
		g := m.f()
		s, p := g.renorm(s), g.renorm(p)
		n, k := g.Len(s), g.Len(p)
		var head *Term
		if prefix {
			head = g.Slice(s, tI(0), k)
		} else {
			head = g.Slice(s, g.Sub(n, k), n)
		}
		return m.branch(g.Eqs(head, p), func(m *mctx) []ret {
			h := m.f()
			s, n, k := h.renorm(s), h.renorm(n), h.renorm(k)
			if prefix {
				return yes(m, h.Slice(s, k, n))
			}
			return yes(m, h.Slice(s, tI(0), h.Sub(n, k)))
		}, no)
	}, no)
}

// ---- math/big ----

func (m *mctx) bigFunc(n string) ([]ret, bool) {
	if n == "NewInt" {
		if t, ok := m.term(0); ok {
			return m.one(m.st.alloc(m.sig.Results().At(0).Type().(*types.Pointer).Elem(), t, m.x.where(m.pos))), true
		}
	}
	return nil, false
}

// bigV reads a *big.Int argument.
func (m *mctx) bigV(i int) (t *Term, isNil, ok bool) {
	if i >= len(m.args) {
		return nil, false, false
	}
	switch p := m.args[i].(type) {
	case Nil:
		return nil, true, true
	case Ptr:
		if t, ok := m.st.load(p).(*Term); ok && t.sort == SInt {
			if o := m.st.heap[p.obj]; o != nil {
				m.x.noteRead(m.st, p, m.pos)
			}
			return m.f().renorm(t), false, true
		}
	}
	return nil, false, false
}

func (m *mctx) bigMethod(n string) ([]ret, bool) {
	f := m.f()
	recv, isP := m.args[0].(Ptr)
	if !isP {
		if _, isN := m.args[0].(Nil); isN {
			if n == "String" || n == "Text" {
				return m.one(tStr("<nil>")), true
			}
			return m.fail("panic", "nil *big.Int"), true
		}
		return nil, false
	}
	// all *big.Int arguments must be there, except the modulus of Exp
	var v [6]*Term
	for i := range m.args {
		pt := m.sig.Recv()
		_ = pt
		if i > 0 {
			j := i - 1
			if m.sig.Recv() == nil {
				j = i
			}
			if j >= m.sig.Params().Len() {
				continue
			}
			tp, ok := m.sig.Params().At(j).Type().Underlying().(*types.Pointer)
			if !ok || typeName(tp.Elem()) != "math/big.Int" {
				continue
			}
		}
		t, isNil, ok := m.bigV(i)
		if !ok {
			return nil, false
		}
		if isNil && !(n == "Exp" && i == 3) && n != "GCD" {
			return m.fail("panic", "nil *big.Int"), true
		}
		if i < len(v) {
			v[i] = t
		}
	}
	set := func(m *mctx, t *Term) []ret {
		m.x.store(m.st, recv, t, m.pos)
		return m.one(recv)
	}
	lo0 := func(t *Term) bool { b := f.bounds(t); return b.lo != nil && b.lo.Sign() >= 0 }
	switch n {
	case "Set":
		return set(m, v[1]), true
	case "SetInt64", "SetUint64":
		if t, ok := m.term(1); ok {
			return set(m, t), true
		}
	case "SetBytes":
		t, ok := m.seq(1)
		if !ok {
			return nil, false
		}
		return set(m, f.FromBe(t)), true
	case "SetString":
		s, ok := m.seq(1)
		base, ok2 := m.k(2)
		if !ok || !ok2 {
			return nil, false
		}
		if base < 2 || base > 36 {
			okc := opq(SBool, "parseok0", s)
			return m.branch(okc,
				func(m *mctx) []ret { m.x.store(m.st, recv, opq(SInt, "parse0", s), m.pos); return m.one(recv, tTrue) },
				func(m *mctx) []ret {
					m.x.store(m.st, recv, tVar(SInt, freshName("undefined")), m.pos)
					return m.one(Nil{}, tFalse)
				}), true
		}
		return m.branch(f.ParseOk(base, s),
			func(m *mctx) []ret {
				m.x.store(m.st, recv, m.f().Parse(base, m.f().renorm(s)), m.pos)
				return m.one(recv, tTrue)
			},
			func(m *mctx) []ret {
				m.x.store(m.st, recv, tVar(SInt, freshName("undefined")), m.pos)
				return m.one(Nil{}, tFalse)
			}), true
	case "SetBit":
		i, ok := m.k(2)
		b, ok2 := m.term(3)
		if !ok || !ok2 || i < 0 || i > 5000 || !lo0(v[1]) {
			return nil, false
		}
		return m.need(f.And(f.Ge0(b), f.Le(b, tI(1))), "set bit is not 0 or 1", func(m *mctx) []ret {
			p := new(big.Int).Lsh(big1, uint(i))
			g := m.f()
			if bv := g.bounds(v[1]); bv.hi != nil && bv.hi.BitLen() <= 1024 {
				// the bits above, the bit, the bits below
				p2 := new(big.Int).Lsh(p, 1)
				return set(m, g.Add(g.Add(g.Scale(g.Div(v[1], tInt(p2)), p2), g.Scale(b, p)), g.Mod(v[1], tInt(p))))
			}
			return set(m, g.Add(g.Sub(v[1], g.Scale(g.BitAt(v[1], i), p)), g.Scale(b, p)))
		}), true
	case "Add":
		return set(m, f.Add(v[1], v[2])), true
	case "Sub":
		return set(m, f.Sub(v[1], v[2])), true
	case "Mul":
		return set(m, f.Mul(v[1], v[2])), true
	case "Neg":
		return set(m, f.Neg(v[1])), true
	case "Abs":
		if lo0(v[1]) {
			return set(m, v[1]), true
		}
		return set(m, opq(SInt, "abs", v[1])), true
	case "Not":
		return set(m, f.Sub(tI(-1), v[1])), true
	case "Mod", "Div", "Quo", "Rem", "DivMod", "QuoRem":
		return m.need(f.Not(f.Eq0(v[2])), "division by zero", func(m *mctx) []ret {
			g := m.f()
			a, b := g.renorm(v[1]), g.renorm(v[2])
			bb, ab := g.bounds(b), g.bounds(a)
			trunc := n[0] == 'Q' || n == "Rem"
			var q, r *Term
			switch {
			case bb.lo != nil && bb.lo.Sign() > 0 && (!trunc || ab.lo != nil && ab.lo.Sign() >= 0):
				q, r = g.Div(a, b), g.Mod(a, b)
			case a.isInt() && b.isInt():
				if trunc {
					x, y := new(big.Int).QuoRem(a.n, b.n, new(big.Int))
					q, r = tInt(x), tInt(y)
				} else {
					x, y := new(big.Int).DivMod(a.n, b.n, new(big.Int))
					q, r = tInt(x), tInt(y)
				}
			default:
				q, r = opq(SInt, "big."+n+".q", a, b), opq(SInt, "big."+n+".r", a, b)
			}
			switch n {
			case "Mod", "Rem":
				return set(m, r)
			case "Div", "Quo":
				return set(m, q)
			}
			rp, ok := m.args[3].(Ptr)
			if !ok {
				return m.fail("panic", "nil *big.Int")
			}
			m.x.store(m.st, recv, q, m.pos)
			m.x.store(m.st, rp, r, m.pos)
			return m.one(recv, rp)
		}), true
	case "Exp":
		t := m.exp(v[1], v[2], v[3])
		if t.op == "sqrt" {
			if r := m.knownRoot(t.args[0], func(m *mctx, y *Term) []ret { return set(m, y) }); r != nil {
				return r, true
			}
		}
		return set(m, t), true
	case "ModInverse":
		return m.one(m.opqInto(recv, "modinv", v[1], v[2])), true
	case "ModSqrt":
		if v[2].isInt() && v[2].n.Cmp(curveP) == 0 {
			if x := f.curveRHS(v[1]); x != nil {
				if r := m.knownRoot(x, func(m *mctx, y *Term) []ret { return set(m, y) }); r != nil {
					return r, true
				}
				return m.branch(f.QR(x), func(m *mctx) []ret { return set(m, m.f().Sqrt(x)) },
					func(m *mctx) []ret { return m.one(Nil{}) }), true
			}
		}
		return nil, false
	case "Lsh", "Rsh":
		k, ok := m.k(2)
		if !ok || k < 0 || k > 8192 {
			if t, ok := m.term(2); ok {
				return set(m, opq(SInt, "big."+n, v[1], t)), true
			}
			return nil, false
		}
		p := new(big.Int).Lsh(big1, uint(k))
		if n == "Lsh" {
			return set(m, f.Scale(v[1], p)), true
		}
		return set(m, f.Div(v[1], tInt(p))), true
	case "And", "Or", "Xor", "AndNot":
		op := strings.ToLower(n)
		if t := f.bitOp(op, v[1], v[2]); t != nil {
			return set(m, t), true
		}
		if op != "andnot" {
			if t := f.bitOp(op, v[2], v[1]); t != nil {
				return set(m, t), true
			}
		}
		return set(m, opq(SInt, op+"bits", v[1], v[2])), true
	case "Rand":
		// a draw from a source that is not crypto/rand
		return m.need(f.Ge0(f.AddK(v[2], -1)), "Rand of no values", func(m *mctx) []ret {
			k := tVar(SInt, freshName("ambient:math/rand"))
			m.st.event("ambient", "(*math/big.Int).Rand", m.pos, m.x.curFn())
			h := m.f().clone()
			iv := Iv{lo: bi(0)}
			if b := h.bounds(v[2]); b.hi != nil {
				iv.hi = new(big.Int).Sub(b.hi, big1)
			}
			h.iv[k] = iv
			h.dirty()
			h.parent, h.lit = m.f().parent, m.f().lit
			m.st.f = h
			return set(m, k)
		}), true
	case "GCD", "Sqrt", "MulRange", "Binomial":
		return nil, false
	case "Cmp":
		return m.one(f.Sgn(f.Sub(v[0], v[1]))), true
	case "CmpAbs":
		if lo0(v[0]) && lo0(v[1]) {
			return m.one(f.Sgn(f.Sub(v[0], v[1]))), true
		}
	case "Sign":
		return m.one(f.Sgn(v[0])), true
	case "Bit":
		i, ok := m.term(1)
		if !ok {
			return nil, false
		}
		return m.need(f.Ge0(i), "negative bit index", func(m *mctx) []ret {
			if k, ok := m.f().renorm(i).i64(); ok && k < 100000 {
				return m.one(m.f().BitAt(v[0], k))
			}
			t := opq(SInt, "bitat", v[0], i)
			g := m.f().clone()
			g.iv[t] = Iv{bi(0), bi(1)}
			g.parent, g.lit = m.f().parent, m.f().lit
			g.dirty()
			m.st.f = g
			return m.one(t)
		}), true
	case "BitLen":
		return m.one(f.BitLen(v[0])), true
	case "Bytes":
		return m.one(m.bytes(f.Bytes(v[0]))), true
	case "FillBytes":
		d, ok := m.args[1].(SliceV)
		if !ok {
			return nil, false
		}
		w, ok := f.renorm(d.ln).i64()
		if !ok || !lo0(v[0]) {
			return nil, false
		}
		return m.need(f.Lt(v[0], tInt(pow(256, w))), "FillBytes: buffer too small", func(m *mctx) []ret {
			if !m.writeInto(d, m.f().Be(m.f().renorm(v[0]), w)) {
				m.st.event("unsupported", "FillBytes", m.pos, m.x.curFn())
			}
			return m.one(d)
		}), true
	case "Int64", "Uint64":
		return m.one(wrap(f, v[0], m.sig.Results().At(0).Type())), true
	case "IsInt64", "IsUint64":
		lo, hi, _, _ := intRange(types.Typ[types.Int64])
		if n == "IsUint64" {
			lo, hi, _, _ = intRange(types.Typ[types.Uint64])
		}
		return m.one(f.And(f.Ge0(f.Sub(v[0], tInt(lo))), f.Ge0(f.Sub(tInt(hi), v[0])))), true
	case "Text":
		b, ok := m.k(1)
		if ok && b >= 2 && b <= 36 {
			return m.one(f.FmtInt(v[0], b)), true
		}
	case "String":
		return m.one(f.FmtInt(v[0], 10)), true
	case "Append":
		b, ok := m.k(2)
		if ok && b >= 2 && b <= 36 {
			if r := m.x.appendBytes(m.st, m.args[1], f.FmtInt(v[0], b), m.pos); r != nil {
				return r, true
			}
		}
	case "TrailingZeroBits", "ProbablyPrime":
		return m.opaque(), true
	}
	return nil, false
}

func (m *mctx) opqInto(recv Ptr, name string, ts ...*Term) Val {
	m.x.store(m.st, recv, opq(SInt, name, ts...), m.pos)
	return recv
}

// exp is b^e, reduced modulo md if that is a positive number.
func (m *mctx) exp(b, e, md *Term) *Term {
	f := m.f()
	hasM := md != nil && !md.isK(0)
	if e.isInt() {
		if e.n.Sign() < 0 {
			if !hasM {
				return tI(1)
			}
			return opq(SInt, "powmod", b, e, md)
		}
		if b.isInt() && (!hasM && e.n.IsInt64() && e.n.Int64() < 5000 || hasM && md.isInt() && md.n.Sign() > 0) {
			if hasM {
				return tInt(new(big.Int).Exp(b.n, e.n, md.n))
			}
			return tInt(new(big.Int).Exp(b.n, e.n, nil))
		}
		if e.n.IsInt64() && e.n.Int64() <= 6 {
			r := tI(1)
			for i := int64(0); i < e.n.Int64(); i++ {
				r = f.Mul(r, b)
			}
			if hasM {
				return f.Mod(r, md)
			}
			return r
		}
		if hasM && md.isInt() && md.n.Cmp(curveP) == 0 && e.n.Cmp(quarter) == 0 {
			if x := f.curveRHS(b); x != nil {
				return f.Sqrt(x)
			}
		}
	}
	if hasM {
		return opq(SInt, "powmod", b, e, md)
	}
	return opq(SInt, "pow", b, e)
}

var quarter = new(big.Int).Rsh(new(big.Int).Add(curveP, big1), 2)

// curveRHS recognises x^3+7 (modulo p) and returns x.
// knownRoot continues with the square root of x^3+7 where a point (x, y) of the curve is
// known: the root is y or p-y. It returns nil where no such point is known.
func (m *mctx) knownRoot(x *Term, then func(m *mctx, y *Term) []ret) []ret {
	f := m.f()
	var known *Term
	if x.op == "px" {
		known = f.Py(x.args[0])
	} else {
		for b, v := range f.bools {
			if v && b.op == "oncurve" && b.args[0] == x && b.args[1].op != "sqrt" {
				if known == nil || b.args[1].id < known.id {
					known = b.args[1]
				}
			}
		}
	}
	sq := f.Sqrt(x)
	if known == nil || sq.op != "sqrt" {
		return nil
	}
	r := []ret{}
	base := m.st
	for _, y := range []*Term{known, f.Sub(tInt(curveP), known)} {
		for _, g := range base.f.split(base.f.EqI(sq, y)) {
			m.st = base.with(g)
			r = append(r, then(m, g.renorm(y))...)
		}
	}
	m.st = base
	return r
}

func (f *Facts) curveRHS(t *Term) *Term {
	if t.op == "mod" && t.args[1].isInt() && t.args[1].n.Cmp(curveP) == 0 {
		t = t.args[0]
	}
	if t.op != "lin" || len(t.args) != 1 || t.cs[0].Cmp(big1) != 0 || t.n.Cmp(bi(7)) != 0 {
		return nil
	}
	c := t.args[0]
	if c.op != "mul" || len(c.args) != 3 || c.args[0] != c.args[1] || c.args[1] != c.args[2] {
		return nil
	}
	return c.args[0]
}

// ---- the curve library ----

// onSecp checks that the receiver is secp256k1.
func (m *mctx) onSecp(v Val) bool {
	p, ok := v.(Ptr)
	if !ok {
		return false
	}
	s, ok := m.st.load(p).(*StructV)
	if !ok {
		return false
	}
	m.x.noteRead(m.st, p, m.pos)
	want := []*big.Int{bi(0), bi(7), curveP, curveN}
	for i, w := range want {
		q, ok := s.fs[i].(Ptr)
		if !ok {
			return false
		}
		t, ok := m.st.load(q).(*Term)
		if !ok || !m.f().renorm(t).isInt() || m.f().renorm(t).n.Cmp(w) != 0 {
			return false
		}
		m.x.noteRead(m.st, q, m.pos)
	}
	return true
}

type ptv struct {
	inf  bool
	x, y *Term
	xp   Val
	yp   Val
}

func (m *mctx) point(v Val) (ptv, bool) {
	if p, ok := v.(Ptr); ok {
		v = m.st.load(p)
	}
	s, ok := v.(*StructV)
	if !ok || len(s.fs) < 2 {
		return ptv{}, false
	}
	_, n1 := s.fs[0].(Nil)
	_, n2 := s.fs[1].(Nil)
	if n1 && n2 {
		return ptv{inf: true, xp: Nil{}, yp: Nil{}}, true
	}
	xp, ok1 := s.fs[0].(Ptr)
	yp, ok2 := s.fs[1].(Ptr)
	if !ok1 || !ok2 {
		return ptv{}, false
	}
	x, ok1 := m.st.load(xp).(*Term)
	y, ok2 := m.st.load(yp).(*Term)
	if !ok1 || !ok2 {
		return ptv{}, false
	}
	m.x.noteRead(m.st, xp, m.pos)
	m.x.noteRead(m.st, yp, m.pos)
	return ptv{false, m.f().renorm(x), m.f().renorm(y), xp, yp}, true
}

func inField(f *Facts, t *Term) bool {
	b := f.bounds(t)
	return b.lo != nil && b.lo.Sign() >= 0 && b.hi != nil && b.hi.Cmp(curveP) < 0
}

func (m *mctx) newBig(t *Term) Val {
	return m.st.alloc(m.x.bigType(), t, m.x.where(m.pos))
}

func (m *mctx) curve(n string) ([]ret, bool) {
	f := m.f()
	if n == "IsInfinity" {
		p, ok := m.point(m.args[0])
		if !ok {
			return nil, false
		}
		return m.one(tBool(p.inf)), true
	}
	if !m.onSecp(m.args[0]) {
		return nil, false
	}
	P := tInt(curveP)
	two := func(op func(a, b *Term) *Term) ([]ret, bool) {
		a, n1, ok1 := m.bigV(1)
		b, n2, ok2 := m.bigV(2)
		if !ok1 || !ok2 {
			return nil, false
		}
		if n1 || n2 {
			return m.fail("panic", "nil *big.Int"), true
		}
		return m.one(m.newBig(f.Mod(op(a, b), P))), true
	}
	switch n {
	case "AddMod":
		return two(f.Add)
	case "SubMod":
		return two(f.Sub)
	case "MultMod":
		return two(f.Mul)
	case "IsOnCurve":
		p, ok := m.point(m.args[1])
		if !ok {
			return nil, false
		}
		if p.inf {
			return m.one(tFalse), true
		}
		return m.one(f.OnCurve(p.x, p.y)), true
	case "GetY":
		x, isNil, ok := m.bigV(1)
		if !ok {
			return nil, false
		}
		if isNil {
			return m.fail("panic", "nil *big.Int"), true
		}
		// the library multiplies the coefficient A in place
		s := m.st.load(m.args[0].(Ptr)).(*StructV)
		m.x.store(m.st, s.fs[0].(Ptr), tI(0), m.pos)
		if !inField(f, x) {
			x = f.Mod(x, P)
		}
		if x.isInt() {
			y := new(big.Int).Exp(x.n, bi(3), curveP)
			y.Add(y, bi(7))
			y.Exp(y, quarter, curveP)
			return m.one(m.newBig(tInt(y)), tBool(onCurve(x.n, y))), true
		}
		if r := m.knownRoot(x, func(m *mctx, y *Term) []ret { return m.one(m.newBig(y), tTrue) }); r != nil {
			return r, true
		}
		return m.branch(f.QR(x),
			func(m *mctx) []ret { return m.one(m.newBig(m.f().Sqrt(m.f().renorm(x))), tTrue) },
			func(m *mctx) []ret { return m.one(m.newBig(tVar(SInt, freshName("noroot"))), tFalse) }), true
	case "AddPoints":
		p, ok1 := m.point(m.args[1])
		q, ok2 := m.point(m.args[2])
		if !ok1 || !ok2 {
			return nil, false
		}
		return m.addPoints(p, q), true
	case "ScalarMult":
		k, isNil, ok := m.bigV(1)
		p, ok2 := m.point(m.args[2])
		if !ok || !ok2 || p.inf {
			return nil, false
		}
		if isNil {
			return m.fail("panic", "nil *big.Int"), true
		}
		if f.OnCurve(p.x, p.y) != tTrue {
			return nil, false
		}
		b := f.bounds(k)
		if b.lo == nil || b.lo.Sign() < 0 || b.hi == nil || b.hi.BitLen() > 256 {
			return m.branch(f.And(f.Ge0(k), f.Lt(k, tInt(pow(2, 256)))), func(m *mctx) []ret { r, _ := m.scalar(k, p); return r },
				func(m *mctx) []ret {
					// the ladder reads the low 256 bits of k, in two's complement
					r, _ := m.scalar(m.f().Mod(m.f().renorm(k), tInt(pow(2, 256))), p)
					return r
				}), true
		}
		return m.scalar(k, p)
	}
	return nil, false
}

func (m *mctx) scalar(k *Term, p ptv) ([]ret, bool) {
	f := m.f()
	k = f.renorm(k)
	N := tInt(curveN)
	bad := f.Or(f.EqI(k, N), f.EqI(k, f.AddK(N, -1)))
	pt := m.sig.Results().At(0).Type().(*types.Pointer).Elem()
	return m.branch(bad, func(m *mctx) []ret {
		m.st.event("sink", "log.Fatal", m.pos, m.x.curFn())
		return m.fail("fatal", "ScalarMult ends the process (the ladder meets the point at infinity)")
	}, func(m *mctx) []ret {
		f := m.f()
		return m.branch(f.EqI(k, tI(1)), func(m *mctx) []ret {
			// the result shares the coordinates of the point
			return m.one(m.st.alloc(pt, &StructV{[]Val{p.xp, p.yp}}, m.x.where(m.pos)), tTrue)
		}, func(m *mctx) []ret {
			f := m.f()
			return m.branch(f.Eq0(f.Mod(f.renorm(k), N)), func(m *mctx) []ret {
				return m.one(m.st.alloc(pt, &StructV{[]Val{Nil{}, Nil{}}}, m.x.where(m.pos)), tFalse)
			}, func(m *mctx) []ret {
				f := m.f()
				r := f.EcMul(f.renorm(k), f.EcPt(p.x, p.y))
				return m.one(m.st.alloc(pt, &StructV{[]Val{m.newBig(f.Px(r)), m.newBig(f.Py(r))}}, m.x.where(m.pos)), tTrue)
			})
		})
	}), true
}

func (m *mctx) addPoints(p, q ptv) []ret {
	f := m.f()
	inf := &StructV{[]Val{Nil{}, Nil{}}}
	switch {
	case p.inf && q.inf:
		return m.one(inf, tFalse)
	case p.inf:
		return m.one(&StructV{[]Val{q.xp, q.yp}}, f.OnCurve(q.x, q.y))
	case q.inf:
		return m.one(&StructV{[]Val{p.xp, p.yp}}, f.OnCurve(p.x, p.y))
	}
	on := f.OnCurve(p.x, p.y) == tTrue && f.OnCurve(q.x, q.y) == tTrue && inField(f, p.x) && inField(f, p.y) && inField(f, q.x) && inField(f, q.y)
	add := func(m *mctx) []ret {
		f := m.f()
		if !on {
			x, y := opq(SInt, "rawadd.x", p.x, p.y, q.x, q.y), opq(SInt, "rawadd.y", p.x, p.y, q.x, q.y)
			return m.one(&StructV{[]Val{m.newBig(x), m.newBig(y)}}, f.OnCurve(x, y))
		}
		r := f.EcAdd(f.EcPt(f.renorm(p.x), f.renorm(p.y)), f.EcPt(f.renorm(q.x), f.renorm(q.y)))
		return m.one(&StructV{[]Val{m.newBig(f.Px(r)), m.newBig(f.Py(r))}}, tTrue)
	}
	fatal := func(m *mctx) []ret {
		m.st.event("sink", "log.Fatal", m.pos, m.x.curFn())
		return m.fail("fatal", "AddPoints ends the process (the sum is the point at infinity)")
	}
	neg := f.Eq0(f.Mod(f.Add(p.y, q.y), tInt(curveP)))
	return m.branch(f.And(f.Eq0(p.x), neg), func(m *mctx) []ret { return m.one(inf, tFalse) }, func(m *mctx) []ret {
		f := m.f()
		return m.branch(f.Not(f.EqI(f.renorm(p.x), f.renorm(q.x))), add, func(m *mctx) []ret {
			f := m.f()
			eq := f.EqI(f.renorm(p.y), f.renorm(q.y))
			if !on {
				return m.branch(f.And(eq, f.Not(f.Eq0(f.renorm(p.y)))), add, fatal)
			}
			// on the curve, equal x means that y is equal or opposite
			return m.branch(eq, add, func(m *mctx) []ret {
				f := m.f()
				var r []ret
				base := m.st
				for _, g := range base.f.split(f.EqI(f.Add(f.renorm(p.y), f.renorm(q.y)), tInt(curveP))) {
					m.st = base.with(g)
					r = append(r, fatal(m)...)
				}
				m.st = base
				return r
			})
		})
	})
}

// bigType is the type big.Int.
func (x *Interp) bigType() types.Type {
	if p := x.prog.ImportedPackage("math/big"); p != nil {
		if t, ok := p.Members["Int"].(*ssa.Type); ok {
			return t.Type()
		}
	}
	return types.Typ[types.Int]
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 128 {
			return false
		}
	}
	return true
}
