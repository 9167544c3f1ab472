package main

// Hash-consed bit-vector and boolean terms with aggressive local simplification.
// Width 0 is Bool, widths 1..64 are bit-vectors.

import (
	"fmt"
	"math/bits"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	ONot
	OShl
	OLshr
	OAshr
	OConcat
	OExtract // k = lo
	OSext
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBAnd
	OBOr
	OBNot
)

var opNames = [...]string{"const", "var", "bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvnot", "bvshl", "bvlshr", "bvashr", "concat", "extract", "sext", "ite", "=", "bvult", "bvule", "bvslt", "bvsle", "and", "or", "not"}

type Term struct {
	h        uint64
	op       Op
	w        uint8
	id       int32
	a, b, c  *Term
	k        uint64 // const value, var index, extract lo
	lo, hi   uint64 // unsigned interval
	slo, shi int64  // signed interval
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c int32
	k       uint64
}

type TermCtx struct {
	tab   map[tkey]*Term
	terms []*Term
	vars  []*VarInfo
	byN   map[string]*Term
	True  *Term
	False *Term
	small [5][]*Term

	memoV []uint64
	memoE []uint32
	epoch uint32
}

type VarInfo struct {
	name string
	t    *Term
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[tkey]*Term{}, byN: map[string]*Term{}}
	c.False = c.Const(0, 0)
	c.True = c.Const(0, 1)
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w == 0 || w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

// after orders operands independently of creation order, so that replays on
// another worker build the same terms.
func after(a, b *Term) bool {
	if a.h != b.h {
		return a.h > b.h
	}
	return a.id > b.id
}

func (t *Term) IsConst() bool { return t.op == OConst }

func (c *TermCtx) mk(op Op, w uint8, a, b, d *Term, k uint64) *Term {
	key := tkey{op: op, w: w, k: k, a: -1, b: -1, c: -1}
	if a != nil {
		key.a = a.id
	}
	if b != nil {
		key.b = b.id
	}
	if d != nil {
		key.c = d.id
	}
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, id: int32(len(c.terms)), a: a, b: b, c: d, k: k}
	hh := (uint64(op)<<8|uint64(w))*0x9E3779B97F4A7C15 + k
	for _, x := range [3]*Term{a, b, d} {
		hh ^= hh >> 29
		hh *= 0xBF58476D1CE4E5B9
		if x != nil {
			hh += x.h
		}
	}
	t.h = hh ^ hh>>32
	c.terms = append(c.terms, t)
	c.tab[key] = t
	c.rng(t)
	return t
}

func (c *TermCtx) Const(w uint8, v uint64) *Term {
	return c.mk(OConst, w, nil, nil, nil, v&mask(w))
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *TermCtx) Var(name string, w uint8) *Term {
	if t, ok := c.byN[name]; ok {
		if t.w != w {
			panic("variable redeclared with a different width: " + name)
		}
		return t
	}
	t := c.mk(OVar, w, nil, nil, nil, uint64(len(c.vars)))
	c.vars = append(c.vars, &VarInfo{name, t})
	t.h = 14695981039346656037
	for i := 0; i < len(name); i++ {
		t.h = (t.h ^ uint64(name[i])) * 1099511628211
	}
	c.byN[name] = t
	return t
}

// rng computes conservative unsigned and signed intervals.
func (c *TermCtx) rng(t *Term) {
	m := mask(t.w)
	t.lo, t.hi = 0, m
	if t.w == 0 {
		if t.op == OConst {
			t.lo, t.hi = t.k, t.k
		}
		return
	}
	smin, smax := int64(-1)<<(t.w-1), int64(m>>1)
	t.slo, t.shi = smin, smax
	sSet := false
	a, b := t.a, t.b
	switch t.op {
	case OConst:
		t.lo, t.hi = t.k, t.k
		t.slo, t.shi = sx(t.k, t.w), sx(t.k, t.w)
		return
	case OAdd:
		h, carry := bits.Add64(a.hi, b.hi, 0)
		if carry == 0 && h <= m {
			t.lo, t.hi = a.lo+b.lo, h
		}
		if s1, ok := addOv(a.slo, b.slo, smin, smax); ok {
			if s2, ok := addOv(a.shi, b.shi, smin, smax); ok {
				t.slo, t.shi = s1, s2
				sSet = true
			}
		}
	case OSub:
		if a.lo >= b.hi {
			t.lo, t.hi = a.lo-b.hi, a.hi-b.lo
		}
		if s1, ok := subOv(a.slo, b.shi, smin, smax); ok {
			if s2, ok := subOv(a.shi, b.slo, smin, smax); ok {
				t.slo, t.shi = s1, s2
				sSet = true
			}
		}
	case OMul:
		h, l := bits.Mul64(a.hi, b.hi)
		if h == 0 && l <= m {
			t.lo, t.hi = a.lo*b.lo, l
		}
		ok := true
		var mn, mx int64
		for i, x := range []int64{a.slo, a.shi} {
			for j, y := range []int64{b.slo, b.shi} {
				p, o := mulOv(x, y, smin, smax)
				if !o {
					ok = false
				}
				if i == 0 && j == 0 || p < mn {
					mn = p
				}
				if i == 0 && j == 0 || p > mx {
					mx = p
				}
			}
		}
		if ok {
			t.slo, t.shi = mn, mx
			sSet = true
		}
	case OUDiv:
		if b.lo > 0 {
			t.lo, t.hi = a.lo/b.hi, a.hi/b.lo
		}
	case OURem:
		if b.lo > 0 {
			t.hi = b.hi - 1
			if a.hi < t.hi {
				t.hi = a.hi
			}
		}
	case OSDiv:
		if b.op == OConst && b.slo > 0 {
			t.slo, t.shi = a.slo/b.slo, a.shi/b.slo
			sSet = true
		}
	case OSRem:
		if b.op == OConst && b.slo > 0 {
			t.slo, t.shi = -(b.slo - 1), b.slo-1
			if a.slo >= 0 {
				t.slo = 0
			}
			sSet = true
		}
	case OAnd:
		t.hi = a.hi
		if b.hi < t.hi {
			t.hi = b.hi
		}
	case OOr:
		n := bits.Len64(a.hi | b.hi)
		if n < 64 {
			t.hi = uint64(1)<<n - 1
		}
		if t.hi > m {
			t.hi = m
		}
		t.lo = a.lo
		if b.lo > t.lo {
			t.lo = b.lo
		}
	case OXor:
		n := bits.Len64(a.hi | b.hi)
		if n < 64 && uint64(1)<<n-1 < m {
			t.hi = uint64(1)<<n - 1
		}
	case OLshr:
		if b.op == OConst && b.k < 64 {
			t.lo, t.hi = a.lo>>b.k, a.hi>>b.k
		} else {
			t.hi = a.hi
		}
	case OAshr:
		if b.op == OConst && b.k < 64 {
			t.slo, t.shi = a.slo>>b.k, a.shi>>b.k
			sSet = true
		}
	case OConcat:
		t.lo, t.hi = a.lo<<b.w|b.lo, a.hi<<b.w|b.hi
	case OExtract:
		if t.k == 0 && a.hi <= m {
			t.lo, t.hi = a.lo, a.hi
		} else if a.hi>>t.k <= m {
			t.lo, t.hi = a.lo>>t.k, a.hi>>t.k
		}
		if t.k == 0 && a.slo >= smin && a.shi <= smax {
			t.slo, t.shi = a.slo, a.shi
			sSet = true
		}
	case OSext:
		t.slo, t.shi = a.slo, a.shi
		sSet = true
	case OIte:
		t.lo, t.hi = b.lo, b.hi
		if t.c.lo < t.lo {
			t.lo = t.c.lo
		}
		if t.c.hi > t.hi {
			t.hi = t.c.hi
		}
		t.slo, t.shi = b.slo, b.shi
		if t.c.slo < t.slo {
			t.slo = t.c.slo
		}
		if t.c.shi > t.shi {
			t.shi = t.c.shi
		}
		sSet = true
	}
	_ = sSet
	// cross-derive
	if t.hi <= m>>1 {
		if int64(t.lo) > t.slo {
			t.slo = int64(t.lo)
		}
		if int64(t.hi) < t.shi {
			t.shi = int64(t.hi)
		}
	}
	if t.slo >= 0 {
		if uint64(t.slo) > t.lo {
			t.lo = uint64(t.slo)
		}
		if uint64(t.shi) < t.hi {
			t.hi = uint64(t.shi)
		}
	}
}

func addOv(a, b, mn, mx int64) (int64, bool) {
	r := a + b
	if (a > 0 && b > 0 && r < 0) || (a < 0 && b < 0 && r >= 0) {
		return 0, false
	}
	return r, r >= mn && r <= mx
}
func subOv(a, b, mn, mx int64) (int64, bool) {
	r := a - b
	if (a >= 0 && b < 0 && r < 0) || (a < 0 && b > 0 && r >= 0) {
		return 0, false
	}
	return r, r >= mn && r <= mx
}
func mulOv(a, b, mn, mx int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	r := a * b
	if r/b != a || (a == -1 && b == -1<<63) || (b == -1 && a == -1<<63) {
		return 0, false
	}
	return r, r >= mn && r <= mx
}

// ---- constant evaluation ----

func evalOp(op Op, w uint8, aw, bw uint8, a, b, cc, k uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x >= 0 {
				return m
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXor:
		return a ^ b
	case ONot:
		return ^a & m
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sx(a, w)>>b) & m
	case OConcat:
		return (a<<bw | b) & m
	case OExtract:
		return (a >> k) & m
	case OSext:
		return uint64(sx(a, aw)) & m
	case OIte:
		if a != 0 {
			return b
		}
		return cc
	case OEq:
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sx(a, aw) < sx(b, aw))
	case OSle:
		return b2u(sx(a, aw) <= sx(b, aw))
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBNot:
		return a ^ 1
	}
	panic("evalOp")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// NewEval starts evaluation under a new model.
func (c *TermCtx) NewEval() { c.epoch++ }

// Eval evaluates t under the assignment mv (indexed by variable index; missing = 0).
func (c *TermCtx) Eval(t *Term, mv []uint64) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.op == OVar {
		if int(t.k) < len(mv) {
			return mv[t.k] & mask(t.w)
		}
		return 0
	}
	if len(c.memoV) < len(c.terms) {
		n := len(c.terms) * 2
		v := make([]uint64, n)
		copy(v, c.memoV)
		e := make([]uint32, n)
		copy(e, c.memoE)
		c.memoV, c.memoE = v, e
	}
	if c.memoE[t.id] == c.epoch {
		return c.memoV[t.id]
	}
	var r uint64
	if t.op == OIte {
		if c.Eval(t.a, mv) != 0 {
			r = c.Eval(t.b, mv)
		} else {
			r = c.Eval(t.c, mv)
		}
	} else {
		var a, b uint64
		var aw, bw uint8
		a, aw = c.Eval(t.a, mv), t.a.w
		if t.b != nil {
			b, bw = c.Eval(t.b, mv), t.b.w
		}
		r = evalOp(t.op, t.w, aw, bw, a, b, 0, t.k)
	}
	c.memoV[t.id] = r
	c.memoE[t.id] = c.epoch
	return r
}

// ---- constructors with simplification ----

func (c *TermCtx) Not(t *Term) *Term {
	switch t.op {
	case OConst:
		return c.Bool(t.k == 0)
	case OBNot:
		return t.a
	case OUlt:
		return c.mk(OUle, 0, t.b, t.a, nil, 0)
	case OUle:
		return c.mk(OUlt, 0, t.b, t.a, nil, 0)
	case OSlt:
		return c.mk(OSle, 0, t.b, t.a, nil, 0)
	case OSle:
		return c.mk(OSlt, 0, t.b, t.a, nil, 0)
	}
	return c.mk(OBNot, 0, t, nil, nil, 0)
}

func (c *TermCtx) BAnd(a, b *Term) *Term {
	if a.op == OConst {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return c.False
	}
	if after(a, b) {
		a, b = b, a
	}
	return c.mk(OBAnd, 0, a, b, nil, 0)
}

func (c *TermCtx) BOr(a, b *Term) *Term {
	if a.op == OConst {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return c.True
	}
	if after(a, b) {
		a, b = b, a
	}
	return c.mk(OBOr, 0, a, b, nil, 0)
}

func (c *TermCtx) Ite(cond, a, b *Term) *Term {
	if cond.op == OConst {
		if cond.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if cond.op == OBNot {
		cond, a, b = cond.a, b, a
	}
	if a.w == 0 {
		if a.op == OConst && b.op == OConst {
			if a.k == 1 {
				return cond
			}
			return c.Not(cond)
		}
		if a.op == OConst {
			if a.k == 1 {
				return c.BOr(cond, b)
			}
			return c.BAnd(c.Not(cond), b)
		}
		if b.op == OConst {
			if b.k == 1 {
				return c.BOr(c.Not(cond), a)
			}
			return c.BAnd(cond, a)
		}
	}
	if a.op == OIte && a.a == cond {
		a = a.b
	}
	if b.op == OIte && b.a == cond {
		b = b.c
	}
	if a == b {
		return a
	}
	// ite(c, x, ite(d, x, y)) -> ite(c or d, x, y)
	if b.op == OIte && b.b == a {
		return c.Ite(c.BOr(cond, b.a), a, b.c)
	}
	return c.mk(OIte, a.w, cond, a, b, 0)
}

func (c *TermCtx) Zext(t *Term, w uint8) *Term {
	if t.w == 0 {
		return c.Ite(t, c.Const(w, 1), c.Const(w, 0))
	}
	if t.w == w {
		return t
	}
	if t.w > w {
		return c.Extract(t, 0, w)
	}
	return c.Concat(c.Const(w-t.w, 0), t)
}

func (c *TermCtx) Sext(t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	if t.w > w {
		return c.Extract(t, 0, w)
	}
	if t.op == OConst {
		return c.Const(w, uint64(sx(t.k, t.w)))
	}
	if t.slo >= 0 {
		return c.Zext(t, w)
	}
	if t.op == OSext {
		return c.Sext(t.a, w)
	}
	return c.mk(OSext, w, t, nil, nil, 0)
}

// Extract takes w bits starting at bit lo.
func (c *TermCtx) Extract(t *Term, lo uint64, w uint8) *Term {
	if lo == 0 && w == t.w {
		return t
	}
	switch t.op {
	case OConst:
		return c.Const(w, t.k>>lo)
	case OExtract:
		return c.Extract(t.a, lo+t.k, w)
	case OConcat:
		bw := uint64(t.b.w)
		if lo >= bw {
			return c.Extract(t.a, lo-bw, w)
		}
		if lo+uint64(w) <= bw {
			return c.Extract(t.b, lo, w)
		}
		return c.Concat(c.Extract(t.a, 0, w-uint8(bw-lo)), c.Extract(t.b, lo, uint8(bw-lo)))
	case OSext:
		aw := uint64(t.a.w)
		if lo+uint64(w) <= aw {
			return c.Extract(t.a, lo, w)
		}
		if lo == 0 {
			return c.Sext(t.a, w)
		}
		if lo < aw {
			return c.Sext(c.Extract(t.a, lo, uint8(aw-lo)), w)
		}
		return c.Sext(c.Extract(t.a, aw-1, 1), w)
	case OAnd, OOr, OXor:
		return c.Bin(t.op, c.Extract(t.a, lo, w), c.Extract(t.b, lo, w))
	case ONot:
		return c.BvNot(c.Extract(t.a, lo, w))
	case OAdd, OSub, OMul:
		if lo == 0 {
			return c.Bin(t.op, c.Extract(t.a, 0, w), c.Extract(t.b, 0, w))
		}
	case OIte:
		if t.b.op == OConst || t.c.op == OConst || t.b.op == OIte || t.c.op == OIte || t.b.op == OConcat || t.c.op == OConcat || t.b.op == OSext || t.c.op == OSext {
			return c.Ite(t.a, c.Extract(t.b, lo, w), c.Extract(t.c, lo, w))
		}
	case OAshr:
		if t.b.op == OConst && lo+t.b.k+uint64(w) <= uint64(t.w) {
			return c.Extract(t.a, lo+t.b.k, w)
		}
	}
	if t.hi>>lo == 0 {
		return c.Const(w, 0)
	}
	return c.mk(OExtract, w, t, nil, nil, lo)
}

// Concat: a is the high part.
func (c *TermCtx) Concat(a, b *Term) *Term {
	w := a.w + b.w
	if a.op == OConst && b.op == OConst {
		return c.Const(w, a.k<<b.w|b.k)
	}
	// right-nested normal form: concat(concat(x,y),z) -> concat(x, concat(y,z))
	if a.op == OConcat {
		return c.Concat(a.a, c.Concat(a.b, b))
	}
	// merge adjacent
	hd, tl := b, (*Term)(nil)
	if b.op == OConcat {
		hd, tl = b.a, b.b
	}
	var mrg *Term
	if a.op == OConst && hd.op == OConst {
		mrg = c.Const(a.w+hd.w, a.k<<hd.w|hd.k)
	} else {
		ax, alo := a, uint64(0)
		if a.op == OExtract {
			ax, alo = a.a, a.k
		}
		hx, hlo := hd, uint64(0)
		if hd.op == OExtract {
			hx, hlo = hd.a, hd.k
		}
		if ax == hx && alo == hlo+uint64(hd.w) && !(a.op != OExtract && hd.op != OExtract) {
			mrg = c.Extract(ax, hlo, a.w+hd.w)
		}
	}
	if mrg != nil {
		if tl == nil {
			return mrg
		}
		return c.Concat(mrg, tl)
	}
	if a.op == OExtract && (a.a.op == OAdd || a.a.op == OSub) && a.k != 0 {
		// the low part of a sum is a sum of low parts
		if a.k == uint64(b.w) && c.Extract(a.a, 0, b.w) == b {
			return c.Extract(a.a, 0, w)
		}
		if tl != nil && hd.w <= 64 && a.k >= uint64(hd.w) && c.Extract(a.a, a.k-uint64(hd.w), hd.w) == hd {
			return c.Concat(c.Extract(a.a, a.k-uint64(hd.w), a.w+hd.w), tl)
		}
	}
	return c.mk(OConcat, w, a, b, nil, 0)
}

func (c *TermCtx) BvNot(a *Term) *Term {
	if a.op == OConst {
		return c.Const(a.w, ^a.k)
	}
	if a.op == ONot {
		return a.a
	}
	return c.mk(ONot, a.w, a, nil, nil, 0)
}

func (c *TermCtx) Neg(a *Term) *Term { return c.Bin(OSub, c.Const(a.w, 0), a) }

type piece struct {
	t *Term
	w uint8
}

// split returns the top-level concat pieces, high first.
func split(t *Term, out []piece) []piece {
	for t.op == OConcat {
		out = append(out, piece{t.a, t.a.w})
		t = t.b
	}
	return append(out, piece{t, t.w})
}

func hasZeroPiece(t *Term) bool {
	for t.op == OConcat {
		if t.a.op == OConst {
			return true
		}
		t = t.b
	}
	return t.op == OConst
}

// piecewise combines a and b piece by piece if, in every aligned piece, one side is constant.
func (c *TermCtx) piecewise(op Op, a, b *Term) *Term {
	if !(a.op == OConcat || b.op == OConcat) {
		return nil
	}
	if !hasZeroPiece(a) && !hasZeroPiece(b) {
		return nil
	}
	pa, pb := split(a, nil), split(b, nil)
	if len(pa)+len(pb) > 24 {
		return nil
	}
	// cut points
	var res *Term
	push := func(t *Term) {
		if res == nil {
			res = t
		} else {
			res = c.Concat(res, t)
		}
	}
	i, j := 0, 0
	ra, rb := pa[0], pb[0]
	for {
		n := ra.w
		if rb.w < n {
			n = rb.w
		}
		xa := c.Extract(ra.t, uint64(ra.w-n), n)
		xb := c.Extract(rb.t, uint64(rb.w-n), n)
		if op == OAdd {
			if xa.op == OConst && xa.k == 0 {
				push(xb)
			} else if xb.op == OConst && xb.k == 0 {
				push(xa)
			} else {
				return nil
			}
		} else {
			if xa.op != OConst && xb.op != OConst && op != OAnd && op != OOr && op != OXor {
				return nil
			}
			if xa.w == a.w {
				return nil
			}
			push(c.Bin(op, xa, xb))
		}
		if ra.w == n {
			i++
			if i < len(pa) {
				ra = pa[i]
			}
		} else {
			ra = piece{c.Extract(ra.t, 0, ra.w-n), ra.w - n}
		}
		if rb.w == n {
			j++
			if j < len(pb) {
				rb = pb[j]
			}
		} else {
			rb = piece{c.Extract(rb.t, 0, rb.w-n), rb.w - n}
		}
		if i >= len(pa) {
			break
		}
	}
	return res
}

func isSum(t *Term) bool { return t.op == OAdd || t.op == OSub }

// The bound for 32-bit sums is larger for the sake of checksums.
const maxLin, maxLin32 = 6, 48

// core strips extensions, so that sums of the same values in different widths get the same order.
func core(t *Term) *Term {
	for {
		switch {
		case t.op == OSext:
			t = t.a
		case t.op == OConcat && t.a.op == OConst && t.a.k == 0:
			t = t.b
		default:
			return t
		}
	}
}

type lin struct {
	pos, neg []*Term
	k        uint64
}

func (l *lin) add(t *Term, neg bool) bool {
	switch t.op {
	case OConst:
		if neg {
			l.k -= t.k
		} else {
			l.k += t.k
		}
		return true
	case OAdd:
		return l.add(t.a, neg) && l.add(t.b, neg)
	case OSub:
		return l.add(t.a, neg) && l.add(t.b, !neg)
	}
	x, y := &l.pos, &l.neg
	if neg {
		x, y = y, x
	}
	for i, u := range *y {
		if u == t {
			*y = append((*y)[:i:i], (*y)[i+1:]...)
			return true
		}
	}
	i := len(*x)
	for i > 0 && after(core((*x)[i-1]), core(t)) {
		i--
	}
	*x = append(*x, nil)
	copy((*x)[i+1:], (*x)[i:])
	(*x)[i] = t
	n := len(l.pos) + len(l.neg)
	return n <= maxLin || t.w == 32 && n <= maxLin32
}

// linear brings short sums and differences into a canonical form: sorted positive leaves, minus sorted negative leaves, plus a constant.
func (c *TermCtx) linear(op Op, a, b *Term) *Term {
	var l lin
	if !l.add(a, false) || !l.add(b, op == OSub) {
		return nil
	}
	w := a.w
	k := l.k & mask(w)
	if len(l.pos) == 0 {
		if len(l.neg) == 0 {
			return c.Const(w, k)
		}
		r := c.mk(OSub, w, c.Const(w, k), l.neg[0], nil, 0)
		for _, n := range l.neg[1:] {
			r = c.mk(OSub, w, r, n, nil, 0)
		}
		return r
	}
	r := l.pos[0]
	if len(l.pos)+len(l.neg) == 1 {
		if k == 0 {
			return r
		}
		return c.Bin(OAdd, r, c.Const(w, k))
	}
	if len(l.neg) == 0 && len(l.pos) == 2 && k == 0 {
		return nil // ordinary addition, possibly of disjoint bits
	}
	for _, p := range l.pos[1:] {
		r = c.mk(OAdd, w, r, p, nil, 0)
	}
	for _, n := range l.neg {
		r = c.mk(OSub, w, r, n, nil, 0)
	}
	if k != 0 {
		r = c.mk(OAdd, w, r, c.Const(w, k), nil, 0)
	}
	return r
}

func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %s %d %d", opNames[op], a.w, b.w))
	}
	w := a.w
	if a.op == OConst && b.op == OConst {
		return c.Const(w, evalOp(op, w, w, w, a.k, b.k, 0, 0))
	}
	m := mask(w)
	comm := op == OAdd || op == OMul || op == OAnd || op == OOr || op == OXor
	if comm && (a.op == OConst || (b.op != OConst && after(a, b))) {
		a, b = b, a // constants on the right
	}
	bc := b.op == OConst
	if op == OAdd && !bc && (isSum(a) || isSum(b)) || op == OSub && !bc && a != b && (a.op == OConst || isSum(a) || isSum(b)) {
		if r := c.linear(op, a, b); r != nil {
			return r
		}
	}
	// ite with constants: push op with constant
	switch op {
	case OAdd:
		if bc && b.k == 0 {
			return a
		}
		if bc && a.op == OAdd && a.b.op == OConst {
			return c.Bin(OAdd, a.a, c.Const(w, a.b.k+b.k))
		}
		if bc && a.op == OSub && a.a.op == OConst { // (k - x) + k2
			return c.Bin(OSub, c.Const(w, a.a.k+b.k), a.b)
		}
		if !bc {
			// pull constants out: (x+k)+y -> (x+y)+k
			if a.op == OAdd && a.b.op == OConst {
				return c.Bin(OAdd, c.Bin(OAdd, a.a, b), a.b)
			}
			if b.op == OAdd && b.b.op == OConst {
				return c.Bin(OAdd, c.Bin(OAdd, a, b.a), b.b)
			}
			if a.op == OSub && a.b == b {
				return a.a
			}
			if b.op == OSub && b.b == a {
				return b.a
			}
		}
		if r := c.piecewise(op, a, b); r != nil {
			return r
		}
	case OSub:
		if a == b {
			return c.Const(w, 0)
		}
		if bc {
			return c.Bin(OAdd, a, c.Const(w, -b.k))
		}
		if a.op == OAdd {
			if a.b == b {
				return a.a
			}
			if a.a == b {
				return a.b
			}
			if a.b.op == OConst {
				return c.Bin(OAdd, c.Bin(OSub, a.a, b), a.b)
			}
		}
		if b.op == OAdd {
			if b.b.op == OConst {
				return c.Bin(OAdd, c.Bin(OSub, a, b.a), c.Const(w, -b.b.k))
			}
			if b.a == a {
				return c.Neg(b.b)
			}
			if b.b == a {
				return c.Neg(b.a)
			}
		}
		if b.op == OSub && b.a == a {
			return b.b
		}
	case OMul:
		if bc {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
			if b.k&(b.k-1) == 0 {
				return c.Shl(a, uint64(bits.TrailingZeros64(b.k)))
			}
		}
	case OUDiv:
		if bc && b.k == 1 {
			return a
		}
		if bc && b.k != 0 && b.k&(b.k-1) == 0 {
			return c.Lshr(a, uint64(bits.TrailingZeros64(b.k)))
		}
		if bc && b.k != 0 && a.hi < b.k {
			return c.Const(w, 0)
		}
	case OURem:
		if bc && b.k != 0 && b.k&(b.k-1) == 0 {
			return c.Bin(OAnd, a, c.Const(w, b.k-1))
		}
		if bc && b.k != 0 && a.hi < b.k {
			return a
		}
	case OSDiv:
		if a.slo >= 0 && b.slo >= 0 {
			return c.Bin(OUDiv, a, b)
		}
		if bc && b.k == 1 {
			return a
		}
		if bc && b.slo > 0 && b.k&(b.k-1) == 0 {
			sh := uint64(bits.TrailingZeros64(b.k))
			// (a + ((a>>w-1) & (2^sh-1))) >> sh
			bias := c.Lshr(c.Ashr(a, uint64(w)-1), uint64(w)-sh)
			return c.Ashr(c.Bin(OAdd, a, bias), sh)
		}
	case OSRem:
		if a.slo >= 0 && b.slo > 0 {
			return c.Bin(OURem, a, b)
		}
	case OAnd:
		if a == b {
			return a
		}
		if bc {
			if b.k == 0 {
				return b
			}
			if b.k == m {
				return a
			}
			if a.op == OAnd && a.b.op == OConst {
				return c.Bin(OAnd, a.a, c.Const(w, a.b.k&b.k))
			}
			// masks as runs
			if r := c.maskRuns(a, b.k); r != nil {
				return r
			}
		}
		if r := c.piecewise(op, a, b); r != nil {
			return r
		}
		if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
			return c.Const(w, 0)
		}
	case OOr:
		if a == b {
			return a
		}
		if bc {
			if b.k == 0 {
				return a
			}
			if b.k == m {
				return b
			}
			if a.op == OOr && a.b.op == OConst {
				return c.Bin(OOr, a.a, c.Const(w, a.b.k|b.k))
			}
		}
		if r := c.piecewise(op, a, b); r != nil {
			return r
		}
	case OXor:
		if a == b {
			return c.Const(w, 0)
		}
		if bc {
			if b.k == 0 {
				return a
			}
			if b.k == m {
				return c.BvNot(a)
			}
			if a.op == OXor && a.b.op == OConst {
				return c.Bin(OXor, a.a, c.Const(w, a.b.k^b.k))
			}
		}
		if a.op == OXor && a.b == b {
			return a.a
		}
		if a.op == OXor && a.a == b {
			return a.b
		}
		if b.op == OXor && b.b == a {
			return b.a
		}
		if b.op == OXor && b.a == a {
			return b.b
		}
		if r := c.piecewise(op, a, b); r != nil {
			return r
		}
	case OShl:
		if bc {
			return c.Shl(a, b.k)
		}
		if a.op == OConst && a.k == 0 {
			return a
		}
	case OLshr:
		if bc {
			return c.Lshr(a, b.k)
		}
		if a.op == OConst && a.k == 0 {
			return a
		}
	case OAshr:
		if bc {
			return c.Ashr(a, b.k)
		}
		if a.slo >= 0 {
			return c.Bin(OLshr, a, b)
		}
	}
	// push constant operand through ite of constants
	if bc && a.op == OIte && a.b.op == OConst && a.c.op == OConst {
		return c.Ite(a.a, c.Bin(op, a.b, b), c.Bin(op, a.c, b))
	}
	if a.op == OConst && b.op == OIte && b.b.op == OConst && b.c.op == OConst {
		return c.Ite(b.a, c.Bin(op, a, b.b), c.Bin(op, a, b.c))
	}
	return c.mk(op, w, a, b, nil, 0)
}

func (c *TermCtx) maskRuns(a *Term, k uint64) *Term {
	w := uint64(a.w)
	runs := bits.OnesCount64((k ^ (k << 1)) & mask(a.w))
	if runs > 8 {
		return nil
	}
	// build from high to low
	var res *Term
	push := func(t *Term) {
		if res == nil {
			res = t
		} else {
			res = c.Concat(res, t)
		}
	}
	pos := w
	for pos > 0 {
		bit := (k >> (pos - 1)) & 1
		e := pos - 1
		for e > 0 && (k>>(e-1))&1 == bit {
			e--
		}
		n := uint8(pos - e)
		if bit == 1 {
			push(c.Extract(a, e, n))
		} else {
			push(c.Const(n, 0))
		}
		pos = e
	}
	return res
}

func (c *TermCtx) Shl(a *Term, k uint64) *Term {
	if k == 0 {
		return a
	}
	if k >= uint64(a.w) {
		return c.Const(a.w, 0)
	}
	return c.Concat(c.Extract(a, 0, a.w-uint8(k)), c.Const(uint8(k), 0))
}

func (c *TermCtx) Lshr(a *Term, k uint64) *Term {
	if k == 0 {
		return a
	}
	if k >= uint64(a.w) {
		return c.Const(a.w, 0)
	}
	return c.Concat(c.Const(uint8(k), 0), c.Extract(a, k, a.w-uint8(k)))
}

func (c *TermCtx) Ashr(a *Term, k uint64) *Term {
	if k == 0 {
		return a
	}
	if k >= uint64(a.w) {
		k = uint64(a.w) - 1
	}
	if a.slo >= 0 {
		return c.Lshr(a, k)
	}
	return c.Sext(c.Extract(a, k, a.w-uint8(k)), a.w)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic("eq width")
	}
	if a.op == OConst && b.op == OConst {
		return c.False // hash-consed and different
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b.op == OConst {
			if b.k == 1 {
				return a
			}
			return c.Not(a)
		}
		if after(a, b) {
			a, b = b, a
		}
		return c.mk(OEq, 0, a, b, nil, 0)
	}
	if a.hi < b.lo || b.hi < a.lo || a.shi < b.slo || b.shi < a.slo {
		return c.False
	}
	if b.op == OConst {
		switch a.op {
		case OConcat:
			lo := c.Eq(a.b, c.Const(a.b.w, b.k))
			hi := c.Eq(a.a, c.Const(a.a.w, b.k>>a.b.w))
			return c.BAnd(hi, lo)
		case OSext:
			v := sx(b.k, b.w)
			if v < a.a.slo || v > a.a.shi {
				return c.False
			}
			return c.Eq(a.a, c.Const(a.a.w, b.k))
		case OAdd:
			if a.b.op == OConst {
				return c.Eq(a.a, c.Const(a.w, b.k-a.b.k))
			}
		case OSub:
			if b.k == 0 {
				return c.Eq(a.a, a.b)
			}
			if a.a.op == OConst {
				return c.Eq(a.b, c.Const(a.w, a.a.k-b.k))
			}
		case OXor:
			if a.b.op == OConst {
				return c.Eq(a.a, c.Const(a.w, b.k^a.b.k))
			}
			if b.k == 0 {
				return c.Eq(a.a, a.b)
			}
		case ONot:
			return c.Eq(a.a, c.Const(a.w, ^b.k))
		case OIte:
			if a.b.op == OConst || a.c.op == OConst {
				return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
			}
		}
	} else {
		if a.op == OConcat && b.op == OConcat && a.b.w == b.b.w {
			return c.BAnd(c.Eq(a.a, b.a), c.Eq(a.b, b.b))
		}
		if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
			return c.Eq(a.a, b.a)
		}
		if a.op == OAdd && b.op == OAdd {
			if a.b == b.b {
				return c.Eq(a.a, b.a)
			}
			if a.a == b.a {
				return c.Eq(a.b, b.b)
			}
		}
		if a.op == OAdd && a.b.op == OConst && a.a == b {
			return c.False
		}
		if b.op == OAdd && b.b.op == OConst && b.a == a {
			return c.False
		}
	}
	if b.op != OConst && after(a, b) {
		a, b = b, a
	}
	return c.mk(OEq, 0, a, b, nil, 0)
}

func (c *TermCtx) Ult(a, b *Term) *Term {
	if a == b || a.lo >= b.hi {
		return c.False
	}
	if a.hi < b.lo {
		return c.True
	}
	// strip common zero prefix
	if a.op == OConcat && a.a.op == OConst && a.a.k == 0 && b.hi <= mask(a.b.w) {
		return c.Ult(a.b, c.Extract(b, 0, a.b.w))
	}
	if b.op == OConcat && b.a.op == OConst && b.a.k == 0 && a.hi <= mask(b.b.w) {
		return c.Ult(c.Extract(a, 0, b.b.w), b.b)
	}
	if b.op == OConst && b.k == 1 {
		return c.Eq(a, c.Const(a.w, 0))
	}
	if a.op == OConst && a.k == 0 {
		return c.Not(c.Eq(b, a))
	}
	if a.op == OIte && b.op == OConst && a.b.op == OConst && a.c.op == OConst {
		return c.Ite(a.a, c.Ult(a.b, b), c.Ult(a.c, b))
	}
	return c.mk(OUlt, 0, a, b, nil, 0)
}

func (c *TermCtx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *TermCtx) Slt(a, b *Term) *Term {
	if a == b || a.slo >= b.shi {
		return c.False
	}
	if a.shi < b.slo {
		return c.True
	}
	if a.slo >= 0 && b.slo >= 0 {
		return c.Ult(a, b)
	}
	if a.op == OSext && b.op == OSext {
		if a.a.w == b.a.w {
			return c.Slt(a.a, b.a)
		}
		if a.a.w < b.a.w {
			return c.Slt(c.Sext(a.a, b.a.w), b.a)
		}
		return c.Slt(a.a, c.Sext(b.a, a.a.w))
	}
	if a.op == OSext && b.op == OConst {
		return c.Slt(a.a, c.Const(a.a.w, b.k)) // in range because intervals overlap
	}
	if b.op == OSext && a.op == OConst {
		return c.Slt(c.Const(b.a.w, a.k), b.a)
	}
	if a.op == OIte && b.op == OConst && a.b.op == OConst && a.c.op == OConst {
		return c.Ite(a.a, c.Slt(a.b, b), c.Slt(a.c, b))
	}
	return c.mk(OSlt, 0, a, b, nil, 0)
}

func (c *TermCtx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }
