package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (c *compiler) unop(x *ssa.UnOp) func(fr *frame) {
	d, v := c.reg(x), c.op(x.X)
	ti := infoOf(x.Type())
	switch x.Op {
	case token.MUL:
		return func(fr *frame) { fr.regs[d] = fr.m.load(v.get(fr)) }
	case token.NOT:
		return func(fr *frame) {
			a := v.get(fr)
			if t, ok := a.r.(*Term); ok {
				fr.regs[d] = fr.m.tv(fr.m.tc.Not(t))
			} else {
				fr.regs[d] = V{n: a.n ^ 1}
			}
		}
	case token.SUB:
		return func(fr *frame) {
			a := v.get(fr)
			if ti.kind == 3 {
				fr.regs[d] = fr.m.floatBin(token.SUB, fv(0), a, ti, true)
				return
			}
			if t, ok := a.r.(*Term); ok {
				fr.regs[d] = fr.m.tv(fr.m.tc.Neg(t))
			} else {
				fr.regs[d] = V{n: -a.n & mask(ti.w)}
			}
		}
	case token.XOR:
		return func(fr *frame) {
			a := v.get(fr)
			if t, ok := a.r.(*Term); ok {
				fr.regs[d] = fr.m.tv(fr.m.tc.BvNot(t))
			} else {
				fr.regs[d] = V{n: ^a.n & mask(ti.w)}
			}
		}
	}
	return func(fr *frame) { fr.m.unsupported("unop " + x.Op.String()) }
}

func (c *compiler) binop(x *ssa.BinOp) func(fr *frame) {
	d, a, b := c.reg(x), c.op(x.X), c.op(x.Y)
	ti := infoOf(x.X.Type())
	ri := infoOf(x.Y.Type())
	op := x.Op
	if ti.kind == 1 && op != token.SHL && op != token.SHR {
		w := ti.w
		mk := mask(w)
		// concrete fast paths
		var fast func(x, y uint64) uint64
		switch op {
		case token.ADD:
			fast = func(x, y uint64) uint64 { return (x + y) & mk }
		case token.SUB:
			fast = func(x, y uint64) uint64 { return (x - y) & mk }
		case token.MUL:
			fast = func(x, y uint64) uint64 { return (x * y) & mk }
		case token.AND:
			fast = func(x, y uint64) uint64 { return x & y }
		case token.OR:
			fast = func(x, y uint64) uint64 { return x | y }
		case token.XOR:
			fast = func(x, y uint64) uint64 { return x ^ y }
		case token.AND_NOT:
			fast = func(x, y uint64) uint64 { return x &^ y }
		case token.EQL:
			fast = func(x, y uint64) uint64 { return b2u(x == y) }
		case token.NEQ:
			fast = func(x, y uint64) uint64 { return b2u(x != y) }
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			var f func(x, y uint64) bool
			if ti.signed {
				s := 64 - w
				switch op {
				case token.LSS:
					f = func(x, y uint64) bool { return int64(x<<s) < int64(y<<s) }
				case token.LEQ:
					f = func(x, y uint64) bool { return int64(x<<s) <= int64(y<<s) }
				case token.GTR:
					f = func(x, y uint64) bool { return int64(x<<s) > int64(y<<s) }
				case token.GEQ:
					f = func(x, y uint64) bool { return int64(x<<s) >= int64(y<<s) }
				}
			} else {
				switch op {
				case token.LSS:
					f = func(x, y uint64) bool { return x < y }
				case token.LEQ:
					f = func(x, y uint64) bool { return x <= y }
				case token.GTR:
					f = func(x, y uint64) bool { return x > y }
				case token.GEQ:
					f = func(x, y uint64) bool { return x >= y }
				}
			}
			fast = func(x, y uint64) uint64 { return b2u(f(x, y)) }
		}
		if fast != nil {
			return func(fr *frame) {
				x, y := a.get(fr), b.get(fr)
				if x.r == nil && y.r == nil {
					fr.regs[d] = V{n: fast(x.n, y.n)}
					return
				}
				fr.regs[d] = fr.m.intBin(op, x, y, ti)
			}
		}
		return func(fr *frame) { // QUO, REM
			x, y := a.get(fr), b.get(fr)
			m := fr.m
			if y.r == nil {
				if y.n == 0 {
					m.rtPanic("integer divide by zero")
				}
				if x.r == nil {
					fr.regs[d] = V{n: concDiv(op, x.n, y.n, ti)}
					return
				}
			} else {
				yt := m.term(y, w)
				if m.branch(m.tc.Eq(yt, m.tc.Const(w, 0))) {
					m.rtPanic("integer divide by zero")
				}
			}
			fr.regs[d] = m.intBin(op, x, y, ti)
		}
	}
	switch op {
	case token.SHL, token.SHR:
		return func(fr *frame) { fr.regs[d] = fr.m.shift(op, a.get(fr), b.get(fr), ti, ri) }
	case token.EQL, token.NEQ:
		t := x.X.Type()
		return func(fr *frame) {
			e := fr.m.equal(a.get(fr), b.get(fr), t)
			if op == token.NEQ {
				e = fr.m.tc.Not(e)
			}
			fr.regs[d] = fr.m.tv(e)
		}
	}
	switch ti.kind {
	case 3:
		return func(fr *frame) { fr.regs[d] = fr.m.floatBin(op, a.get(fr), b.get(fr), ti, false) }
	case 4:
		return func(fr *frame) { fr.regs[d] = fr.m.strBin(op, a.get(fr), b.get(fr)) }
	case 2:
		return func(fr *frame) {
			x, y := fr.m.term(a.get(fr), 0), fr.m.term(b.get(fr), 0)
			switch op {
			case token.AND:
				fr.regs[d] = fr.m.tv(fr.m.tc.BAnd(x, y))
			case token.OR:
				fr.regs[d] = fr.m.tv(fr.m.tc.BOr(x, y))
			default:
				fr.m.unsupported("bool binop " + op.String())
			}
		}
	}
	s := fmt.Sprintf("binop %v on %v", op, x.X.Type())
	return func(fr *frame) { fr.m.unsupported(s) }
}

func concDiv(op token.Token, x, y uint64, ti tinfo) uint64 {
	m := mask(ti.w)
	if ti.signed {
		a, b := sx(x, ti.w), sx(y, ti.w)
		if op == token.QUO {
			if b == -1 {
				return uint64(-a) & m
			}
			return uint64(a/b) & m
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	}
	if op == token.QUO {
		return x / y
	}
	return x % y
}

func (m *Machine) intBin(op token.Token, x, y V, ti tinfo) V {
	tc := m.tc
	a, b := m.term(x, ti.w), m.term(y, ti.w)
	var r *Term
	switch op {
	case token.ADD:
		r = tc.Bin(OAdd, a, b)
	case token.SUB:
		r = tc.Bin(OSub, a, b)
	case token.MUL:
		r = tc.Bin(OMul, a, b)
	case token.AND:
		r = tc.Bin(OAnd, a, b)
	case token.OR:
		r = tc.Bin(OOr, a, b)
	case token.XOR:
		r = tc.Bin(OXor, a, b)
	case token.AND_NOT:
		r = tc.Bin(OAnd, a, tc.BvNot(b))
	case token.QUO:
		if ti.signed {
			r = tc.Bin(OSDiv, a, b)
		} else {
			r = tc.Bin(OUDiv, a, b)
		}
	case token.REM:
		if ti.signed {
			r = tc.Bin(OSRem, a, b)
		} else {
			r = tc.Bin(OURem, a, b)
		}
	case token.EQL:
		r = tc.Eq(a, b)
	case token.NEQ:
		r = tc.Not(tc.Eq(a, b))
	case token.LSS:
		r = m.lt(a, b, ti)
	case token.GTR:
		r = m.lt(b, a, ti)
	case token.LEQ:
		r = tc.Not(m.lt(b, a, ti))
	case token.GEQ:
		r = tc.Not(m.lt(a, b, ti))
	default:
		m.unsupported("int op " + op.String())
	}
	return m.tv(r)
}

func (m *Machine) lt(a, b *Term, ti tinfo) *Term {
	if ti.signed {
		return m.tc.Slt(a, b)
	}
	return m.tc.Ult(a, b)
}

func (m *Machine) shift(op token.Token, x, y V, ti, yi tinfo) V {
	tc := m.tc
	if y.r == nil {
		if yi.signed && sx(y.n, yi.w) < 0 {
			m.rtPanic("negative shift amount")
		}
		k := y.n
		if x.r == nil {
			if op == token.SHL {
				if k >= uint64(ti.w) {
					return V{}
				}
				return V{n: (x.n << k) & mask(ti.w)}
			}
			if ti.signed {
				if k > 63 {
					k = 63
				}
				return V{n: uint64(sx(x.n, ti.w)>>k) & mask(ti.w)}
			}
			if k >= 64 {
				return V{}
			}
			return V{n: x.n >> k}
		}
		t := m.term(x, ti.w)
		if op == token.SHL {
			return m.tv(tc.Shl(t, k))
		}
		if ti.signed {
			return m.tv(tc.Ashr(t, k))
		}
		return m.tv(tc.Lshr(t, k))
	}
	cnt := m.term(y, yi.w)
	if yi.signed && cnt.slo < 0 {
		if m.branch(tc.Slt(cnt, tc.Const(yi.w, 0))) {
			m.rtPanic("negative shift amount")
		}
	}
	t := m.term(x, ti.w)
	var c *Term
	big := tc.False
	if yi.w > ti.w {
		big = tc.Not(tc.Ult(cnt, tc.Const(yi.w, uint64(ti.w))))
		c = tc.Extract(cnt, 0, ti.w)
	} else {
		c = tc.Zext(cnt, ti.w)
		if yi.w < 8 || uint64(ti.w) <= mask(yi.w) {
			// smt shifts by >= width already give 0 / sign fill
		}
	}
	var r, over *Term
	over = tc.Const(ti.w, 0)
	switch {
	case op == token.SHL:
		r = tc.Bin(OShl, t, c)
	case ti.signed:
		r = tc.Bin(OAshr, t, c)
		over = tc.Ashr(t, uint64(ti.w)-1)
	default:
		r = tc.Bin(OLshr, t, c)
	}
	return m.tv(tc.Ite(big, over, r))
}

// ---- equality ----

func (m *Machine) equal(a, b V, t types.Type) *Term {
	tc := m.tc
	switch u := t.Underlying().(type) {
	case *types.Basic:
		ti := infoOf(t)
		switch ti.kind {
		case 1, 2:
			if a.r == nil && b.r == nil {
				return tc.Bool(a.n == b.n)
			}
			return tc.Eq(m.term(a, ti.w), m.term(b, ti.w))
		case 3:
			return m.term(m.floatBin(token.EQL, a, b, ti, false), 0)
		case 4:
			return m.strEq(a, b)
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return tc.Bool(sameRef(a, b))
		}
	case *types.Pointer, *types.Signature, *types.Map, *types.Chan:
		return tc.Bool(m.ptrEq(a, b))
	case *types.Slice:
		return tc.Bool(a.r == nil && b.r == nil)
	case *types.Interface:
		x, _ := a.r.(*Iface)
		y, _ := b.r.(*Iface)
		if x == nil || y == nil {
			return tc.Bool(x == nil && y == nil)
		}
		if x.t != y.t {
			return tc.False
		}
		switch x.t.t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Signature:
			m.rtPanic("comparing uncomparable type " + x.t.t.String())
		}
		return m.equal(x.v, y.v, x.t.t)
	case *types.Struct:
		r := tc.True
		x, y := a.r.(*Agg), b.r.(*Agg)
		for i := range x.e {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = tc.BAnd(r, m.equal(x.e[i], y.e[i], u.Field(i).Type()))
		}
		return r
	case *types.Array:
		r := tc.True
		x, y := a.r.(*Agg), b.r.(*Agg)
		for i := range x.e {
			r = tc.BAnd(r, m.equal(x.e[i], y.e[i], u.Elem()))
		}
		return r
	}
	m.unsupported("equality on " + t.String())
	return nil
}

func (m *Machine) ptrEq(a, b V) bool {
	if a.r == nil || b.r == nil {
		return a.r == nil && b.r == nil
	}
	if x, ok := a.r.(*SymPtr); ok {
		a = V{r: m.cell(V{r: x})}
	}
	if x, ok := b.r.(*SymPtr); ok {
		b = V{r: m.cell(V{r: x})}
	}
	return sameRef(a, b)
}

func (m *Machine) strEq(a, b V) *Term {
	if x, ok := goStr(a); ok {
		if y, ok := goStr(b); ok {
			return m.tc.Bool(x == y)
		}
	}
	if strLen(a) != strLen(b) {
		return m.tc.False
	}
	x, y := strBytes(a), strBytes(b)
	r := m.tc.True
	for i := range x {
		r = m.tc.BAnd(r, m.tc.Eq(m.term(x[i], 8), m.term(y[i], 8)))
		if r == m.tc.False {
			return r
		}
	}
	return r
}

func (m *Machine) strBin(op token.Token, a, b V) V {
	x, ok1 := goStr(a)
	y, ok2 := goStr(b)
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return sv(x + y)
		case token.LSS:
			return bv(x < y)
		case token.LEQ:
			return bv(x <= y)
		case token.GTR:
			return bv(x > y)
		case token.GEQ:
			return bv(x >= y)
		}
	}
	p, q := strBytes(a), strBytes(b)
	if op == token.ADD {
		r := make([]V, 0, len(p)+len(q))
		r = append(append(r, p...), q...)
		return mkStr(r)
	}
	switch op {
	case token.GTR:
		return m.tv(m.strLess(q, p, false))
	case token.GEQ:
		return m.tv(m.strLess(q, p, true))
	case token.LSS:
		return m.tv(m.strLess(p, q, false))
	case token.LEQ:
		return m.tv(m.strLess(p, q, true))
	}
	m.unsupported("string op " + op.String())
	return V{}
}

func (m *Machine) strLess(p, q []V, orEq bool) *Term {
	tc := m.tc
	n := len(p)
	if len(q) < n {
		n = len(q)
	}
	var r *Term
	if orEq {
		r = tc.Bool(len(p) <= len(q))
	} else {
		r = tc.Bool(len(p) < len(q))
	}
	for i := n - 1; i >= 0; i-- {
		a, b := m.term(p[i], 8), m.term(q[i], 8)
		r = tc.Ite(tc.Eq(a, b), r, tc.Ult(a, b))
	}
	return r
}

// ---- conversions ----

func (c *compiler) convert(x *ssa.Convert) func(fr *frame) {
	d, v := c.reg(x), c.op(x.X)
	from, to := x.X.Type(), x.Type()
	fi, ti := infoOf(from), infoOf(to)
	switch {
	case fi.kind == 1 && ti.kind == 1:
		mk := mask(ti.w)
		return func(fr *frame) {
			a := v.get(fr)
			if a.r == nil {
				if fi.signed {
					fr.regs[d] = V{n: uint64(sx(a.n, fi.w)) & mk}
				} else {
					fr.regs[d] = V{n: a.n & mk}
				}
				return
			}
			t := fr.m.term(a, fi.w)
			fr.regs[d] = fr.m.tv(fr.m.resize(t, fi, ti.w))
		}
	case fi.kind == 1 && ti.kind == 3:
		return func(fr *frame) {
			a := v.get(fr)
			if a.r == nil {
				var f float64
				if fi.signed {
					f = float64(sx(a.n, fi.w))
				} else {
					f = float64(a.n)
				}
				if ti.w == 32 {
					if fi.signed {
						f = float64(float32(sx(a.n, fi.w)))
					} else {
						f = float64(float32(a.n))
					}
				}
				fr.regs[d] = fv(f)
				return
			}
			fr.regs[d] = fr.m.intToFloat(fr.m.term(a, fi.w), fi, ti)
		}
	case fi.kind == 3 && ti.kind == 1:
		return func(fr *frame) { fr.regs[d] = fr.m.floatToInt(v.get(fr), ti) }
	case fi.kind == 3 && ti.kind == 3:
		return func(fr *frame) {
			a := v.get(fr)
			if a.r == nil && ti.w == 32 {
				a = fv(float64(float32(math.Float64frombits(a.n))))
			} else if f, ok := a.r.(*FT); ok && ti.w == 32 {
				a = f.apply(func(x float64) float64 { return float64(float32(x)) })
			} else if f, ok := a.r.(*FX); ok && ti.w == 32 && f.mb > 24 {
				if t := fr.m.ft(a); t != nil {
					fr.regs[d] = t.apply(func(x float64) float64 { return float64(float32(x)) })
					return
				}
				if f.mb <= 53 && -140 < f.e && f.e+f.mb < 126 {
					fr.regs[d] = fr.m.fxRound32(f)
					return
				}
				a = fr.m.fxPick(f, "float32 rounding of a symbolic value")
				a = fv(float64(float32(math.Float64frombits(a.n))))
			}
			fr.regs[d] = a
		}
	case ti.kind == 4 && fi.kind == 4:
		return func(fr *frame) { fr.regs[d] = v.get(fr) }
	case ti.kind == 4 && fi.kind == 1: // string(rune)
		return func(fr *frame) {
			a := v.get(fr)
			if t, ok := a.r.(*Term); ok {
				a = V{n: fr.m.concretize(t)}
			}
			fr.regs[d] = sv(string(rune(sx(a.n, fi.w))))
		}
	case ti.kind == 4: // []byte / []rune -> string
		el := infoOf(from.Underlying().(*types.Slice).Elem())
		return func(fr *frame) {
			s, _ := v.get(fr).r.(Slice)
			if el.w == 8 {
				fr.regs[d] = mkStr(s)
				return
			}
			fr.regs[d] = fr.m.runesToStr(s)
		}
	case fi.kind == 4: // string -> []byte / []rune
		sl, ok := to.Underlying().(*types.Slice)
		if !ok {
			break
		}
		el := infoOf(sl.Elem())
		return func(fr *frame) {
			a := v.get(fr)
			if el.w == 8 {
				b := strBytes(a)
				r := make([]V, len(b), growCap(len(b), 1))
				copy(r, b)
				fr.regs[d] = V{r: Slice(r)}
				return
			}
			var out []V
			it := &StrIter{s: a}
			for {
				t := fr.m.next(V{r: it}).r.(Tuple)
				if t[0].n == 0 {
					break
				}
				out = append(out, t[2])
			}
			fr.regs[d] = V{r: Slice(out)}
		}
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return func(fr *frame) { fr.regs[d] = v.get(fr) }
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return func(fr *frame) { fr.regs[d] = v.get(fr) }
	}
	s := fmt.Sprintf("convert %v to %v", from, to)
	return func(fr *frame) { fr.m.unsupported(s) }
}

func (m *Machine) resize(t *Term, fi tinfo, w uint8) *Term {
	if t.w >= w {
		return m.tc.Extract(t, 0, w)
	}
	if fi.signed {
		return m.tc.Sext(t, w)
	}
	return m.tc.Zext(t, w)
}

func growCap(n, esz int) int {
	if n == 0 {
		return 0
	}
	return cap(append([]byte(nil), make([]byte, n*esz)...)) / esz
}

func (m *Machine) runesToStr(s Slice) V {
	var out []V
	for _, r := range s {
		if t, ok := r.r.(*Term); ok {
			// ASCII fast path keeps the byte symbolic
			if m.branch(m.tc.Ult(t, m.tc.Const(32, 0x80))) {
				out = append(out, m.tv(m.tc.Extract(t, 0, 8)))
				continue
			}
			r = V{n: m.concretize(t)}
		}
		var b [4]byte
		k := utf8.EncodeRune(b[:], rune(sx(r.n, 32)))
		for _, x := range b[:k] {
			out = append(out, V{n: uint64(x)})
		}
	}
	return mkStr(out)
}

// ---- exact symbolic floats ----

func bitsFor(lo, hi int64) int {
	a := uint64(hi)
	if hi < 0 {
		a = uint64(-hi)
	}
	b := uint64(lo)
	if lo < 0 {
		b = uint64(-lo)
	}
	if b > a {
		a = b
	}
	return bits.Len64(a)
}

func (m *Machine) intToFloat(t *Term, fi, ti tinfo) V {
	var t64 *Term
	if fi.signed {
		t64 = m.tc.Sext(t, 64)
	} else {
		t64 = m.tc.Zext(t, 64)
		if t64.hi>>63 != 0 {
			return m.unsupF("uint64 to float of a symbolic value")
		}
	}
	mb := bitsFor(t64.slo, t64.shi)
	lim := 53
	if ti.w == 32 {
		lim = 24
	}
	if mb > lim {
		// try to establish exactness under the path condition
		in := m.tc.BAnd(m.tc.Slt(t64, m.tc.Const(64, uint64(1)<<lim)), m.tc.Slt(m.tc.Const(64, -(uint64(1)<<lim)), t64))
		if !m.branch(in) {
			v := int64(m.pick(t64, "inexact int to float conversion"))
			if ti.w == 32 {
				return fv(float64(float32(v)))
			}
			return fv(float64(v))
		}
		mb = lim
	}
	return m.fxV(t64, 0, mb)
}

func (m *Machine) unsupF(msg string) V {
	m.unsupported(msg)
	return V{}
}

func (m *Machine) fxV(t *Term, e, mb int) V {
	if t.IsConst() {
		return fv(math.Ldexp(float64(int64(t.k)), e))
	}
	if b := bitsFor(t.slo, t.shi); b < mb {
		mb = b
	}
	return V{r: &FX{t, e, mb}}
}

// fxRound32 rounds to 24 significant bits, ties to even.
func (m *Machine) fxRound32(f *FX) V {
	tc := m.tc
	neg := tc.Slt(f.t, tc.Const(64, 0))
	ab := tc.Ite(neg, tc.Neg(f.t), f.t)
	r := ab
	for s := 1; s <= f.mb-24; s++ {
		// ab has 24+s bits or more: drop s bits
		odd := tc.Bin(OAnd, tc.Lshr(ab, uint64(s)), tc.Const(64, 1))
		q := tc.Bin(OAdd, tc.Bin(OAdd, ab, tc.Const(64, 1<<uint(s-1)-1)), odd)
		q = tc.Bin(OAnd, q, tc.Const(64, ^uint64(0)<<uint(s)))
		r = tc.Ite(tc.Slt(ab, tc.Const(64, 1<<uint(23+s))), r, q)
	}
	return m.fxV(tc.Ite(neg, tc.Neg(r), r), f.e, f.mb+1)
}

func (m *Machine) fxConst(f float64) *FX {
	if math.IsInf(f, 0) || math.IsNaN(f) {
		return nil
	}
	if f == 0 {
		return &FX{m.tc.Const(64, 0), 0, 0}
	}
	fr, e := math.Frexp(f) // 0.5 <= |fr| < 1
	mant := int64(math.Ldexp(fr, 53))
	e -= 53
	tz := bits.TrailingZeros64(uint64(mant))
	mant >>= tz
	e += tz
	return &FX{m.tc.Const(64, uint64(mant)), e, bitsFor(mant, mant)}
}

func (m *Machine) fx(v V) *FX {
	if f, ok := v.r.(*FX); ok {
		return f
	}
	return m.fxConst(math.Float64frombits(v.n))
}

// fxAlign brings both to the smaller exponent; fails if the result could exceed 62 bits.
func (m *Machine) fxAlign(a, b *FX) (x, y *Term, e, mb int, ok bool) {
	if a.t.IsConst() && a.t.k == 0 {
		return a.t, b.t, b.e, b.mb, true
	}
	if b.t.IsConst() && b.t.k == 0 {
		return a.t, b.t, a.e, a.mb, true
	}
	x, y = a.t, b.t
	ma, mb2 := a.mb, b.mb
	e = a.e
	if b.e < e {
		e = b.e
	}
	sa, sb := a.e-e, b.e-e
	ma += sa
	mb2 += sb
	mb = ma
	if mb2 > mb {
		mb = mb2
	}
	if mb > 61 {
		return nil, nil, 0, 0, false
	}
	x = m.tc.Shl(x, uint64(sa))
	if sa > 0 {
		x = m.tc.Bin(OMul, a.t, m.tc.Const(64, 1<<uint(sa)))
	}
	if sb > 0 {
		y = m.tc.Bin(OMul, b.t, m.tc.Const(64, 1<<uint(sb)))
	}
	return x, y, e, mb, true
}

func (m *Machine) fxPick(f *FX, why string) V {
	v := int64(m.pick(f.t, why))
	return fv(math.Ldexp(float64(v), f.e))
}

func (m *Machine) floatBin(op token.Token, a, b V, ti tinfo, neg bool) V {
	if a.r == nil && b.r == nil {
		x, y := math.Float64frombits(a.n), math.Float64frombits(b.n)
		if neg {
			return fv(-y)
		}
		var r float64
		if ti.w == 32 {
			p, q := float32(x), float32(y)
			switch op {
			case token.ADD:
				return fv(float64(p + q))
			case token.SUB:
				return fv(float64(p - q))
			case token.MUL:
				return fv(float64(p * q))
			case token.QUO:
				return fv(float64(p / q))
			}
		}
		switch op {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO:
			r = x / y
		case token.EQL:
			return bv(x == y)
		case token.NEQ:
			return bv(x != y)
		case token.LSS:
			return bv(x < y)
		case token.LEQ:
			return bv(x <= y)
		case token.GTR:
			return bv(x > y)
		case token.GEQ:
			return bv(x >= y)
		default:
			m.unsupported("float op " + op.String())
		}
		return fv(r)
	}
	lim := 53
	if ti.w == 32 {
		lim = 24
	}
	fallback := func(why string) V {
		if v, ok := m.floatTab(op, a, b, ti); ok {
			return v
		}
		if isFT(a) || isFT(b) { // tables over different terms: exact values, if they have these
			x, okx := m.ftExact(a)
			y, oky := m.ftExact(b)
			if okx && oky {
				return m.floatBin(op, x, y, ti, neg)
			}
		}
		m.noSpec()
		a, b = m.floatConc(a, why), m.floatConc(b, why)
		return m.floatBin(op, a, b, ti, neg)
	}
	if isFT(a) || isFT(b) {
		if neg {
			return b.r.(*FT).apply(func(x float64) float64 { return -x })
		}
		return fallback("float op on different tabled values")
	}
	x, y := m.fx(a), m.fx(b)
	if x == nil || y == nil { // inf / nan against a finite symbolic value
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			if x == nil {
				return m.floatBin(op, a, fv(0), ti, neg)
			}
			return m.floatBin(op, fv(0), b, ti, neg)
		}
		return fallback("float op with inf/nan")
	}
	switch op {
	case token.ADD, token.SUB:
		p, q, e, mb, ok := m.fxAlign(x, y)
		if !ok {
			return fallback("float alignment beyond 61 bits")
		}
		var t *Term
		if op == token.ADD {
			t = m.tc.Bin(OAdd, p, q)
		} else {
			t = m.tc.Bin(OSub, p, q)
		}
		n := mb + 1
		if b := bitsFor(t.slo, t.shi); b < n {
			n = b
		}
		if n > lim {
			if a.r == nil || b.r == nil {
				if v, ok := m.floatTab(op, a, b, ti); ok {
					return v
				}
			}
			if !m.fxFits(t, lim) {
				return fallback("inexact float addition")
			}
			n = lim
		}
		return m.fxV(t, e, n)
	case token.MUL:
		mb := x.mb + y.mb
		if mb > 61 {
			return fallback("inexact float multiplication")
		}
		t := m.tc.Bin(OMul, x.t, y.t)
		if b := bitsFor(t.slo, t.shi); b < mb {
			mb = b
		}
		if mb > lim {
			if a.r == nil || b.r == nil {
				if v, ok := m.floatTab(op, a, b, ti); ok {
					return v
				}
			}
			if !m.fxFits(t, lim) {
				return fallback("inexact float multiplication")
			}
			mb = lim
		}
		return m.fxV(t, x.e+y.e, mb)
	case token.QUO:
		if y.t.IsConst() && (int64(y.t.k) == 1 || int64(y.t.k) == -1) {
			t := x.t
			if int64(y.t.k) == -1 {
				t = m.tc.Neg(t)
			}
			return m.fxV(t, x.e-y.e, x.mb)
		}
		return fallback("float division")
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		p, q, _, _, ok := m.fxAlign(x, y)
		if !ok {
			return fallback("float comparison alignment")
		}
		return m.intBin(op, V{r: p}, V{r: q}, tinfo{1, 64, true})
	}
	m.unsupported("float op " + op.String())
	return V{}
}

// fxFits decides |t| <= 2^lim under the path condition (forks if both are possible).
func (m *Machine) fxFits(t *Term, lim int) bool {
	in := m.tc.BAnd(m.tc.Sle(t, m.tc.Const(64, uint64(1)<<lim)), m.tc.Sle(m.tc.Const(64, -(uint64(1)<<lim)), t))
	return m.branch(in)
}

func (m *Machine) floatToInt(a V, ti tinfo) V {
	if a.r == nil {
		f := math.Float64frombits(a.n)
		if ti.signed {
			switch ti.w {
			case 8:
				return V{n: uint64(uint8(int8(f)))}
			case 16:
				return V{n: uint64(uint16(int16(f)))}
			case 32:
				return V{n: uint64(uint32(int32(f)))}
			}
			return V{n: uint64(int64(f))}
		}
		switch ti.w {
		case 8:
			return V{n: uint64(uint8(f))}
		case 16:
			return V{n: uint64(uint16(f))}
		case 32:
			return V{n: uint64(uint32(f))}
		}
		return V{n: uint64(f)}
	}
	if f, ok := a.r.(*FT); ok {
		vals := make([]uint64, len(f.tab))
		for i, x := range f.tab {
			vals[i] = m.floatToInt(fv(x), ti).n
		}
		if v, ok := m.piecewise(f.t, f.lo, vals, ti.w); ok {
			return v
		}
		return m.floatToInt(m.ftPick(f, "float to int of a tabled value"), ti)
	}
	f := a.r.(*FX)
	t := m.fxTrunc(f)
	if t == nil {
		v := m.fxPick(f, "float to int shift")
		return m.floatToInt(v, ti)
	}
	// amd64: conversion goes through int64 and truncates
	return m.tv(m.tc.Extract(t, 0, ti.w))
}

// fxTrunc gives the 64-bit integer part (toward zero).
func (m *Machine) fxTrunc(f *FX) *Term {
	if f.e == 0 {
		return f.t
	}
	if f.e > 0 {
		if f.mb+f.e > 62 {
			return nil
		}
		return m.tc.Bin(OMul, f.t, m.tc.Const(64, 1<<uint(f.e)))
	}
	k := uint64(-f.e)
	if k > 62 {
		return m.tc.Const(64, 0)
	}
	return m.tc.Bin(OSDiv, f.t, m.tc.Const(64, 1<<k))
}

func (m *Machine) fxFloor(f *FX) *Term {
	if f.e >= 0 {
		return m.fxTrunc(f)
	}
	k := uint64(-f.e)
	if k > 63 {
		k = 63
	}
	return m.tc.Ashr(f.t, k)
}

// ---- slices, maps, strings ----

func (m *Machine) allocLen(v V, ti tinfo, esz int64) int {
	if t, ok := v.r.(*Term); ok {
		t64 := m.resize(t, ti, 64)
		if m.allocMax > 0 && esz > 0 {
			lim := uint64(m.allocMax / esz)
			if m.branch(m.tc.Ult(m.tc.Const(64, lim), t64)) {
				if ti.signed {
					if m.branch(m.tc.Slt(t64, m.tc.Const(64, 0))) {
						m.rtPanic("makeslice: len out of range")
					}
				}
				m.ex.violation(m, "alloc", fmt.Sprintf("allocation above %d bytes", m.allocMax), m.site(), m.model, "")
				panic(&pathAbort{"done", "alloc"})
			}
		}
		v = V{n: m.concretize(t64)}
	} else {
		v = V{n: uint64(sxi(v.n, ti))}
	}
	n := int64(v.n)
	if n < 0 {
		m.rtPanic("makeslice: len out of range")
	}
	if m.allocMax > 0 && m.initing == 0 && n*esz > m.allocMax {
		m.ex.violation(m, "alloc", fmt.Sprintf("allocation above %d bytes", m.allocMax), m.site(), m.model, "")
		panic(&pathAbort{"done", "alloc"})
	}
	if n > 1<<24 {
		panic(&pathAbort{"alloc", fmt.Sprintf("allocation of %d elements at %s", n, m.site())})
	}
	return int(n)
}

func symOnly(v V) bool { _, ok := v.r.(*Term); return ok }

// allocCap checks a symbolic capacity of a slice of length n and returns the capacity to model it with.
func (m *Machine) allocCap(v V, ti tinfo, esz int64, n int) int {
	t64 := m.resize(v.r.(*Term), ti, 64)
	if m.branch(m.tc.Slt(t64, m.tc.Const(64, uint64(n)))) {
		m.rtPanic("makeslice: cap out of range")
	}
	if m.allocMax > 0 && esz > 0 && m.branch(m.tc.Ult(m.tc.Const(64, uint64(m.allocMax/esz)), t64)) {
		m.ex.violation(m, "alloc", fmt.Sprintf("allocation above %d bytes", m.allocMax), m.site(), m.model, "")
		panic(&pathAbort{"done", "alloc"})
	}
	return n + 1024
}

// sliceBound resolves a slice bound: 0 <= v <= max, panicking otherwise.
func (m *Machine) sliceBound(v V, ti tinfo, max int, what string) int {
	if t, ok := v.r.(*Term); ok {
		t64 := m.resize(t, ti, 64)
		if !m.branch(m.tc.Ule(t64, m.tc.Const(64, uint64(max)))) {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%s symbolic] with capacity %d", what, max))
		}
		return int(m.concretize(t64))
	}
	i := sxi(v.n, ti)
	if i < 0 || i > int64(max) {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [%s%d] with capacity %d", what, i, max))
	}
	return int(i)
}

func (c *compiler) slice(x *ssa.Slice) func(fr *frame) {
	d, b := c.reg(x), c.op(x.X)
	get := func(v ssa.Value) (func(fr *frame) V, tinfo) {
		if v == nil {
			return nil, tinfo{}
		}
		o := c.op(v)
		return func(fr *frame) V { return o.get(fr) }, infoOf(v.Type())
	}
	lo, loi := get(x.Low)
	hi, hii := get(x.High)
	mx, mxi := get(x.Max)
	isStr := infoOf(x.X.Type()).kind == 4
	_, isPtr := x.X.Type().Underlying().(*types.Pointer)
	return func(fr *frame) {
		m := fr.m
		v := b.get(fr)
		if isStr {
			n := strLen(v)
			h := n
			if hi != nil {
				h = m.sliceBound(hi(fr), hii, n, ":")
			}
			l := 0
			if lo != nil {
				l = m.sliceBound(lo(fr), loi, h, "")
			}
			fr.regs[d] = strSlice(v, l, h)
			return
		}
		var s []V
		isNil := false
		if isPtr {
			if v.r == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			s = m.cell(v).r.(*Agg).e
		} else if sl, ok := v.r.(Slice); ok {
			s = sl
		} else {
			isNil = true
		}
		cp := cap(s)
		k := cp
		if mx != nil {
			k = m.sliceBound(mx(fr), mxi, cp, "::")
		}
		h := len(s)
		if hi != nil {
			h = m.sliceBound(hi(fr), hii, k, ":")
		}
		l := 0
		if lo != nil {
			l = m.sliceBound(lo(fr), loi, h, "")
		}
		if isNil {
			fr.regs[d] = V{}
			return
		}
		fr.regs[d] = V{r: Slice(s[l:h:k])}
	}
}

func (m *Machine) mapFind(mp *MapV, k V, kt types.Type) *mapEnt {
	if mp == nil {
		return nil
	}
	key, conc := mkey(k)
	if conc {
		if i, ok := mp.idx[key]; ok && mp.ents[i].alive {
			return mp.ents[i]
		}
		if mp.nsym == 0 {
			return nil
		}
	}
	for _, e := range mp.ents {
		if !e.alive {
			continue
		}
		if conc {
			if _, ec := mkey(e.k); ec {
				continue
			}
		}
		eq := m.equalDyn(k, e.k, kt)
		if eq == m.tc.False {
			continue
		}
		if m.branch(eq) {
			return e
		}
	}
	return nil
}

func (m *Machine) equalDyn(a, b V, kt types.Type) *Term {
	if kt != nil {
		return m.equal(a, b, kt)
	}
	// infer from representation
	if t, ok := a.r.(*Term); ok {
		return m.tc.Eq(t, m.term(b, t.w))
	}
	if t, ok := b.r.(*Term); ok {
		return m.tc.Eq(m.term(a, t.w), t)
	}
	switch a.r.(type) {
	case string, SymStr:
		return m.strEq(a, b)
	}
	switch b.r.(type) {
	case string, SymStr:
		return m.strEq(a, b)
	}
	if x, ok := a.r.(*Agg); ok {
		y := b.r.(*Agg)
		r := m.tc.True
		for i := range x.e {
			r = m.tc.BAnd(r, m.equalDyn(x.e[i], y.e[i], nil))
		}
		return r
	}
	if x, ok := a.r.(*Iface); ok {
		y, ok := b.r.(*Iface)
		if !ok || x.t != y.t {
			return m.tc.False
		}
		return m.equal(x.v, y.v, x.t.t)
	}
	return m.tc.Bool(sameRef(a, b))
}

func (m *Machine) undo(f func()) {
	if m.initing == 0 {
		m.journal = append(m.journal, jent{f: f})
	}
}

func (m *Machine) mapSet(mp *MapV, k, v V) {
	if e := m.mapFind(mp, k, nil); e != nil {
		m.storeCell(&e.v, v)
		if _, ok := v.r.(*Agg); !ok {
			m.set(&e.v, v)
		}
		return
	}
	e := &mapEnt{k: copyV(k), v: v, alive: true}
	key, conc := mkey(k)
	pos := len(mp.ents)
	mp.ents = append(mp.ents, e)
	mp.alive++
	if conc {
		old, had := mp.idx[key]
		mp.idx[key] = pos
		m.undo(func() {
			mp.ents = mp.ents[:pos]
			mp.alive--
			if had {
				mp.idx[key] = old
			} else {
				delete(mp.idx, key)
			}
		})
	} else {
		mp.nsym++
		m.undo(func() {
			mp.ents = mp.ents[:pos]
			mp.alive--
			mp.nsym--
		})
	}
}

func (m *Machine) mapDelete(mp *MapV, k V) {
	e := m.mapFind(mp, k, nil)
	if e == nil {
		return
	}
	e.alive = false
	mp.alive--
	key, conc := mkey(e.k)
	if conc {
		pos := mp.idx[key]
		delete(mp.idx, key)
		m.undo(func() { e.alive = true; mp.alive++; mp.idx[key] = pos })
	} else {
		mp.nsym--
		m.undo(func() { e.alive = true; mp.alive++; mp.nsym++ })
	}
}

// mapIter: order 0 insertion, 1 reverse, 2 arbitrary (solver-chosen permutation), 3 rotate by one.
func (m *Machine) mapIter(mp *MapV) *MapIter {
	it := &MapIter{m: mp}
	for _, e := range mp.ents {
		if e.alive {
			it.order = append(it.order, e)
		}
	}
	n := len(it.order)
	switch m.mapOrder {
	case 1:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			it.order[i], it.order[j] = it.order[j], it.order[i]
		}
	case 2:
		if n >= 2 {
			if n <= 4 {
				for i := 0; i < n-1; i++ {
					j := i + int(m.choose(n-i))
					it.order[i], it.order[j] = it.order[j], it.order[i]
				}
			} else { // a choice among n rotations and reversal
				r := int(m.choose(2))
				if r == 1 {
					for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
						it.order[i], it.order[j] = it.order[j], it.order[i]
					}
				}
			}
		}
	}
	return it
}

// choose forks over 0..n-1 through a fresh variable.
func (m *Machine) choose(n int) uint64 {
	t := m.fresh("choice", 8)
	m.assume(m.tc.Ult(t, m.tc.Const(8, uint64(n))))
	return m.concretize(t)
}

func (m *Machine) fresh(name string, w uint8) *Term {
	k := m.nextVar[name]
	m.nextVar[name] = k + 1
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	if m.initing > 0 {
		m.unsupported("symbolic value in init")
	}
	t := m.tc.Var(m.h.ID+"|"+name, w)
	for len(m.model) < len(m.tc.vars) {
		m.model = append(m.model, 0)
		if len(m.model) == len(m.tc.vars) {
			m.model[t.k] = m.imp[name]
		}
	}
	return t
}

func (m *Machine) next(itv V) V {
	switch it := itv.r.(type) {
	case *MapIter:
		for it.pos < len(it.order) {
			e := it.order[it.pos]
			it.pos++
			if e.alive {
				return V{r: Tuple{bv(true), copyV(e.k), copyV(e.v)}}
			}
		}
		return V{r: Tuple{bv(false), V{}, V{}}}
	case *StrIter:
		n := strLen(it.s)
		if it.pos >= n {
			return V{r: Tuple{bv(false), V{}, V{}}}
		}
		p := it.pos
		if s, ok := goStr(it.s); ok {
			r, k := utf8.DecodeRuneInString(s[p:])
			it.pos += k
			return V{r: Tuple{bv(true), iv(p), V{n: uint64(uint32(r))}}}
		}
		b := strBytes(it.s)
		c := b[p]
		if t, ok := c.r.(*Term); ok {
			if m.branch(m.tc.Ult(t, m.tc.Const(8, 0x80))) {
				it.pos++
				return V{r: Tuple{bv(true), iv(p), m.tv(m.tc.Zext(t, 32))}}
			}
		} else if c.n < 0x80 {
			it.pos++
			return V{r: Tuple{bv(true), iv(p), c}}
		}
		// general case: run the real decoder
		fn := m.p.prog.ImportedPackage("unicode/utf8").Func("DecodeRuneInString")
		t := m.callFn(fn, []V{strSlice(it.s, p, n)}, nil, m.top).r.(Tuple)
		k := t[1]
		if kt, ok := k.r.(*Term); ok {
			k = V{n: m.concretize(kt)}
		}
		it.pos += int(k.n)
		return V{r: Tuple{bv(true), iv(p), t[0]}}
	}
	m.unsupported("next")
	return V{}
}

func (c *compiler) lookup(x *ssa.Lookup) func(fr *frame) {
	d, b, i := c.reg(x), c.op(x.X), c.op(x.Index)
	if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
		et := mt.Elem()
		kt := mt.Key()
		commaOk := x.CommaOk
		return func(fr *frame) {
			mp, _ := b.get(fr).r.(*MapV)
			e := fr.m.mapFind(mp, i.get(fr), kt)
			var v V
			if e != nil {
				v = copyV(e.v)
			} else {
				v = zero(et)
			}
			if commaOk {
				fr.regs[d] = V{r: Tuple{v, bv(e != nil)}}
			} else {
				fr.regs[d] = v
			}
		}
	}
	ii := infoOf(x.Index.Type())
	return func(fr *frame) {
		s := b.get(fr)
		iv := i.get(fr)
		n := strLen(s)
		if iv.r == nil {
			idx := sxi(iv.n, ii)
			if idx < 0 || idx >= int64(n) {
				fr.m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", idx, n))
			}
			fr.regs[d] = strAt(s, int(idx))
			return
		}
		t := fr.m.index64(iv, ii, n)
		fr.regs[d] = fr.m.symLoad(strBytes(s), t, tinfo{1, 8, false})
	}
}

func (m *Machine) appendV(s Slice, add []V, esz int) Slice {
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		for i, v := range add {
			m.storeInit(&r[len(s)+i], v)
		}
		return r
	}
	if s == nil && len(add) == 0 {
		return s
	}
	// growth as in the runtime
	newcap := cap(s)
	doublecap := newcap + newcap
	if n > doublecap {
		newcap = n
	} else if cap(s) < 256 {
		newcap = doublecap
	} else {
		for newcap < n {
			newcap += (newcap + 3*256) >> 2
		}
	}
	if esz > 0 {
		newcap = growCap(newcap, esz)
	}
	if newcap < n {
		newcap = n
	}
	r := make([]V, n, newcap)
	copy(r, s)
	for i, v := range add {
		r[len(s)+i] = copyV(v)
	}
	return r
}

// storeInit stores into possibly shared backing memory.
func (m *Machine) storeInit(c *V, v V) { m.storeCell(c, v) }

func (c *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon) func(fr *frame, a []V) V {
	switch b.Name() {
	case "len":
		return func(fr *frame, a []V) V {
			switch x := a[0].r.(type) {
			case nil:
				return V{}
			case Slice:
				return iv(len(x))
			case string:
				return iv(len(x))
			case SymStr:
				return iv(len(x))
			case *MapV:
				return iv(x.alive)
			case *Agg:
				return iv(len(x.e))
			case *V:
				return iv(len(x.r.(*Agg).e))
			}
			fr.m.unsupported(fmt.Sprintf("len of %T", a[0].r))
			return V{}
		}
	case "cap":
		return func(fr *frame, a []V) V {
			switch x := a[0].r.(type) {
			case nil:
				return V{}
			case Slice:
				return iv(cap(x))
			case *Agg:
				return iv(len(x.e))
			case *V:
				return iv(len(x.r.(*Agg).e))
			}
			fr.m.unsupported("cap")
			return V{}
		}
	case "append":
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		esz := int(sizeof(et))
		agg := isAgg(et)
		return func(fr *frame, a []V) V {
			s, _ := a[0].r.(Slice)
			var add []V
			switch x := a[1].r.(type) {
			case nil:
			case Slice:
				add = x
			case string, SymStr:
				add = strBytes(a[1])
			}
			if len(add) == 0 {
				return a[0]
			}
			r := fr.m.appendV(s, add, esz)
			if agg && cap(r) > len(r) {
				f := r[:cap(r)]
				for i := len(r); i < len(f); i++ {
					if f[i].r == nil {
						f[i] = zero(et)
					}
				}
			}
			return V{r: r}
		}
	case "copy":
		return func(fr *frame, a []V) V {
			d, _ := a[0].r.(Slice)
			var s []V
			switch x := a[1].r.(type) {
			case Slice:
				s = x
			case string, SymStr:
				s = strBytes(a[1])
			}
			n := len(d)
			if len(s) < n {
				n = len(s)
			}
			if n == 0 {
				return V{}
			}
			if &d[0] == &s[0] {
				return iv(n)
			}
			tmp := make([]V, n)
			copy(tmp, s[:n])
			if _, ok := tmp[0].r.(*Agg); ok {
				for i := range tmp {
					tmp[i] = copyV(tmp[i])
				}
			}
			for i := 0; i < n; i++ {
				fr.m.storeCell(&d[i], tmp[i])
			}
			return iv(n)
		}
	case "delete":
		return func(fr *frame, a []V) V {
			if mp, ok := a[0].r.(*MapV); ok {
				fr.m.mapDelete(mp, a[1])
			}
			return V{}
		}
	case "clear":
		return func(fr *frame, a []V) V {
			switch x := a[0].r.(type) {
			case *MapV:
				for _, e := range append([]*mapEnt(nil), x.ents...) {
					if e.alive {
						fr.m.mapDelete(x, e.k)
					}
				}
			case Slice:
				et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
				for i := range x {
					fr.m.storeCell(&x[i], zero(et))
				}
			}
			return V{}
		}
	case "min", "max":
		ti := infoOf(cc.Args[0].Type())
		less := b.Name() == "min"
		return func(fr *frame, a []V) V {
			r := a[0]
			for _, y := range a[1:] {
				var c V
				switch ti.kind {
				case 1:
					c = fr.m.intBin(token.LSS, y, r, ti)
				case 3:
					c = fr.m.floatBin(token.LSS, y, r, ti, false)
				case 4:
					c = fr.m.strBin(token.LSS, y, r)
				}
				ct := fr.m.term(c, 0)
				if !less {
					ct = fr.m.term(func() V {
						switch ti.kind {
						case 1:
							return fr.m.intBin(token.LSS, r, y, ti)
						case 3:
							return fr.m.floatBin(token.LSS, r, y, ti, false)
						}
						return fr.m.strBin(token.LSS, r, y)
					}(), 0)
				}
				if ct.IsConst() {
					if ct.k != 0 {
						r = y
					}
					continue
				}
				if v, ok := fr.m.iteW(ct, y, r, ti); ok {
					r = v
				} else if fr.m.branch(ct) {
					r = y
				}
			}
			return r
		}
	case "print", "println":
		return func(fr *frame, a []V) V { return V{} }
	case "recover":
		return func(fr *frame, a []V) V {
			c := fr.caller
			if c != nil && c.panicking {
				c.panicking = false
				p := c.panic
				c.panic = nil
				if p.v.r == nil {
					return V{r: &Iface{fr.m.p.errT, V{r: &V{r: &Agg{[]V{sv(p.msg)}}}}}}
				}
				return p.v
			}
			return V{}
		}
	case "ssa:wrapnilchk":
		return func(fr *frame, a []V) V {
			if a[0].r == nil {
				fr.m.rtPanic("invalid memory address or nil pointer dereference")
			}
			return a[0]
		}
	case "String": // unsafe.String(ptr, len)
		return func(fr *frame, a []V) V {
			if ep, ok := a[0].r.(*ElemPtr); ok {
				return mkStr(ep.e[:int(a[1].n)])
			}
			if a[1].n == 0 {
				return V{}
			}
			fr.m.unsupported("unsafe.String")
			return V{}
		}
	case "SliceData":
		return func(fr *frame, a []V) V {
			if s, ok := a[0].r.(Slice); ok {
				return V{r: &ElemPtr{s}}
			}
			return V{}
		}
	case "StringData":
		return func(fr *frame, a []V) V { return V{r: &ElemPtr{strBytes(a[0])}} }
	case "Slice":
		return func(fr *frame, a []V) V {
			if ep, ok := a[0].r.(*ElemPtr); ok {
				return V{r: Slice(ep.e[:int(a[1].n):int(a[1].n)])}
			}
			if a[0].r == nil {
				return V{}
			}
			fr.m.unsupported("unsafe.Slice")
			return V{}
		}
	}
	n := b.Name()
	return func(fr *frame, a []V) V { fr.m.unsupported("builtin " + n); return V{} }
}

type ElemPtr struct{ e []V }
