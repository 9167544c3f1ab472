package main

import (
	"fmt"
	"go/token"
	"math"
)

// FT is an inexact float that is a function of a small integer term: value tab[t-lo], with every rounding taken from
// the host's IEEE arithmetic. Used where FX (exact dyadic floats) cannot represent a result, e.g. n/10.
type FT struct {
	t   *Term // 64-bit signed, lo <= t < lo+len(tab)
	lo  int64
	tab []float64
}

const (
	ftMax  = 1 << 15 // table entries
	ftRuns = 1 << 12 // pieces of a function converted back to a term
)

// ft tables a symbolic float whose range is small.
func (m *Machine) ft(v V) *FT {
	switch x := v.r.(type) {
	case *FT:
		if x.t.op != OVar && !(x.t.op == OConcat && x.t.b.op == OVar) {
			if b, ok := m.baseTable(x.t, func(v int64) float64 {
				if v < x.lo || v >= x.lo+int64(len(x.tab)) {
					return math.NaN() // excluded by the path condition
				}
				return x.tab[v-x.lo]
			}); ok {
				return b
			}
		}
		return x
	case *FX:
		if b, ok := m.baseTable(x.t, func(v int64) float64 { return math.Ldexp(float64(v), x.e) }); ok {
			return b
		}
		lo, hi, ok := m.smallRange(x.t)
		if !ok {
			return nil
		}
		f := &FT{x.t, lo, make([]float64, hi-lo+1)}
		for i := range f.tab {
			f.tab[i] = math.Ldexp(float64(lo+int64(i)), x.e)
		}
		return f
	}
	return nil
}

const baseBits = 12

// baseTable tables g(t) over the variable that t depends on, when there is a single and small one. Two floats computed along
// different ways from the same input are thereby comparable.
func (m *Machine) baseTable(t *Term, g func(int64) float64) (*FT, bool) {
	if m.baseMemo == nil {
		m.baseMemo = map[*Term]*baseVals{}
	}
	b, ok := m.baseMemo[t]
	if !ok {
		if v := baseVar(t); v != nil {
			b = &baseVals{t: m.tc.Zext(v, 64), vals: make([]int64, 1<<v.w)}
			mv := make([]uint64, v.k+1)
			for i := range b.vals {
				mv[v.k] = uint64(i)
				m.tc.NewEval()
				b.vals[i] = int64(m.tc.Eval(t, mv))
			}
			m.tc.NewEval()
		}
		m.baseMemo[t] = b
	}
	if b == nil {
		return nil, false
	}
	f := &FT{b.t, 0, make([]float64, len(b.vals))}
	for i, v := range b.vals {
		f.tab[i] = g(v)
	}
	return f, true
}

type baseVals struct {
	t    *Term
	vals []int64
}

// baseVar returns the only variable of t, if it has few bits.
func baseVar(t *Term) *Term {
	var v *Term
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == nil || t.op == OConst || seen[t] {
			return true
		}
		if t.op == OVar {
			if v == nil && t.w != 0 && t.w <= baseBits {
				v = t
			}
			return v == t
		}
		if len(seen) > 4000 {
			return false
		}
		seen[t] = true
		return walk(t.a) && walk(t.b) && walk(t.c)
	}
	if !walk(t) {
		return nil
	}
	return v
}

// appendFloat is strconv.AppendFloat of a tabled value: the exploration is split over the shapes of the text (length and
// everything but the digits of the mantissa), the digits are functions of the table's term.
func (m *Machine) appendFloat(f *FT, g func(float64) string) ([]V, bool) {
	var shapes []string
	ids := map[string]uint64{}
	txt := make([]string, len(f.tab))
	sh := make([]uint64, len(f.tab))
	for i, x := range f.tab {
		txt[i] = g(x)
		b := []byte(txt[i])
		for j, c := range b {
			if c == 'e' || c == 'E' {
				break
			}
			if '0' <= c && c <= '9' {
				b[j] = '0'
			}
		}
		k := string(b)
		if _, ok := ids[k]; !ok {
			ids[k] = uint64(len(shapes))
			shapes = append(shapes, k)
		}
		sh[i] = ids[k]
	}
	v, ok := m.piecewise(f.t, f.lo, sh, 16)
	if !ok {
		return nil, false
	}
	id := v.n
	if t, ok := v.r.(*Term); ok {
		id = m.concretize(t)
	}
	shape := shapes[id]
	out := make([]V, len(shape))
	for j := range out {
		vals := make([]uint64, len(f.tab))
		last := uint64(shape[j])
		for i := range vals {
			if sh[i] == id {
				last = uint64(txt[i][j])
			}
			vals[i] = last
		}
		if out[j], ok = m.piecewise(f.t, f.lo, vals, 8); !ok {
			return nil, false
		}
	}
	return out, true
}

// appendIntG is AppendFloat(x, 'G', -1) of an arbitrary integer below 2^53, split over sign, number of digits and trailing zeros.
func (m *Machine) appendIntG(x *FX) ([]V, bool) {
	if x.e != 0 || x.mb > 53 || m.spec > 0 {
		return nil, false
	}
	tc := m.tc
	var out []V
	t := x.t
	if m.branch(tc.Slt(t, tc.Const(64, 0))) {
		out = append(out, V{n: '-'})
		t = tc.Neg(t)
	}
	w := uint8(64)
	if x.mb <= 32 {
		w = 33
		t = tc.Extract(t, 0, 33)
	}
	count := tc.Const(8, 1)
	p10 := uint64(10)
	for k := 1; k < 17 && (w == 64 || p10 < 1<<33); k++ {
		count = tc.Bin(OAdd, count, tc.Ite(tc.Ule(tc.Const(w, p10), t), tc.Const(8, 1), tc.Const(8, 0)))
		p10 *= 10
	}
	nd := int(m.concretize(count))
	tz := 0
	if nd > 6 {
		z := tc.Const(8, 0)
		p10 = 10
		for k := 1; k < nd; k++ {
			z = tc.Ite(tc.Eq(tc.Bin(OURem, t, tc.Const(w, p10)), tc.Const(w, 0)), tc.Const(8, uint64(k)), z)
			p10 *= 10
		}
		tz = int(m.concretize(z))
	}
	p10 = 1
	for k := 1; k < nd; k++ {
		p10 *= 10
	}
	for k := nd - 1; k >= tz; k-- {
		d := tc.Bin(OURem, tc.Bin(OUDiv, t, tc.Const(w, p10)), tc.Const(w, 10))
		out = append(out, m.tv(tc.Bin(OAdd, tc.Extract(d, 0, 8), tc.Const(8, '0'))))
		if k == nd-1 && nd > 6 && tz < k {
			out = append(out, V{n: '.'})
		}
		p10 /= 10
	}
	if nd > 6 {
		for _, c := range fmt.Sprintf("E+%02d", nd-1) {
			out = append(out, V{n: uint64(c)})
		}
	}
	return out, true
}

// smallRange bounds a 64-bit term, from its structure or else from the path condition.
func (m *Machine) smallRange(t *Term) (int64, int64, bool) {
	if t.shi >= t.slo && uint64(t.shi)-uint64(t.slo) < ftMax {
		return t.slo, t.shi, true
	}
	if m.spec > 0 || m.initing > 0 {
		return 0, 0, false
	}
	// from the path condition: the window around the model's value, recorded so that a replayed prefix uses it too
	var v int64
	ds := []int64{1 << 10, ftMax/2 - 1}
	if m.dpos < len(m.prefix) {
		d := m.prefix[m.dpos]
		m.dpos++
		m.trace = append(m.trace, d)
		if d.Kind != 'w' {
			panic("nondeterministic replay: expected range at " + m.site())
		}
		v = int64(d.Val)
		if !d.Taken {
			return 0, 0, false
		}
		if d.Forced {
			ds = ds[1:]
		}
		lo, hi := window(t, v, ds[0])
		return lo, hi, true
	}
	v = int64(m.tc.Eval(t, m.model))
	if v < -1<<62 || 1<<62 < v {
		ds = nil
	}
	for k, d := range ds {
		lo, hi := window(t, v, d)
		out := m.tc.Not(m.tc.BAnd(m.tc.Sle(m.tc.Const(64, uint64(lo)), t), m.tc.Sle(t, m.tc.Const(64, uint64(hi)))))
		m.checkDeadline()
		if res, _ := m.sol.Check(m.pc, out); res == Unsat {
			m.trace = append(m.trace, Decision{Kind: 'w', Taken: true, Forced: k == 1, Val: uint64(v)})
			return lo, hi, true
		}
	}
	m.trace = append(m.trace, Decision{Kind: 'w', Val: uint64(v)})
	return 0, 0, false
}

func window(t *Term, v, d int64) (int64, int64) {
	lo, hi := v-d, v+d
	if t.slo > lo {
		lo = t.slo
	}
	if t.shi < hi {
		hi = t.shi
	}
	return lo, hi
}

func (f *FT) apply(g func(float64) float64) V {
	r := &FT{f.t, f.lo, make([]float64, len(f.tab))}
	for i, x := range f.tab {
		r.tab[i] = g(x)
	}
	return V{r: r}
}

// zip applies g to two operands of which at least one is tabled; nil when they depend on different terms.
func (m *Machine) ftZip(a, b V) (t *Term, lo int64, n int, at func(i int) (x, y float64), ok bool) {
	var fa, fb *FT
	var ca, cb float64
	if a.r == nil {
		ca = math.Float64frombits(a.n)
	} else if fa = m.ft(a); fa == nil {
		return
	}
	if b.r == nil {
		cb = math.Float64frombits(b.n)
	} else if fb = m.ft(b); fb == nil {
		return
	}
	switch {
	case fa != nil && fb != nil:
		if fa.t != fb.t {
			return
		}
		var hi int64
		lo, hi = fa.lo, fa.lo+int64(len(fa.tab))
		if fb.lo > lo {
			lo = fb.lo
		}
		if h := fb.lo + int64(len(fb.tab)); h < hi {
			hi = h
		}
		if hi <= lo {
			return
		}
		da, db := lo-fa.lo, lo-fb.lo
		return fa.t, lo, int(hi - lo), func(i int) (float64, float64) { return fa.tab[int64(i)+da], fb.tab[int64(i)+db] }, true
	case fa != nil:
		return fa.t, fa.lo, len(fa.tab), func(i int) (float64, float64) { return fa.tab[i], cb }, true
	case fb != nil:
		return fb.t, fb.lo, len(fb.tab), func(i int) (float64, float64) { return ca, fb.tab[i] }, true
	}
	return
}

// floatTab is floatBin over tabled operands.
func (m *Machine) floatTab(op token.Token, a, b V, ti tinfo) (V, bool) {
	t, lo, n, at, ok := m.ftZip(a, b)
	if !ok {
		return V{}, false
	}
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		vals := make([]uint64, n)
		for i := range vals {
			x, y := at(i)
			vals[i] = m.floatBin(op, fv(x), fv(y), ti, false).n
		}
		return m.piecewise(t, lo, vals, 0)
	}
	r := &FT{t, lo, make([]float64, n)}
	for i := range r.tab {
		x, y := at(i)
		r.tab[i] = math.Float64frombits(m.floatBin(op, fv(x), fv(y), ti, false).n)
	}
	return V{r: r}, true
}

// piecewise is the term vals[t-lo] of width w (0: bool).
func (m *Machine) piecewise(t *Term, lo int64, vals []uint64, w uint8) (V, bool) {
	type run struct {
		from     int64
		v, slope uint64
		n        int
	}
	var runs []run
	for i, v := range vals {
		if k := len(runs) - 1; k >= 0 {
			r := &runs[k]
			if r.n == 1 && w == 64 {
				r.slope = v - r.v
			}
			if r.v+uint64(r.n)*r.slope == v {
				r.n++
				continue
			}
		}
		runs = append(runs, run{lo + int64(i), v, 0, 1})
		if len(runs) > ftRuns {
			return V{}, false
		}
	}
	c := func(r run) *Term {
		if w == 0 {
			if r.v != 0 {
				return m.tc.True
			}
			return m.tc.Not(m.tc.True)
		}
		if r.slope == 0 {
			return m.tc.Const(w, r.v)
		}
		return m.tc.Bin(OAdd, m.tc.Bin(OMul, t, m.tc.Const(64, r.slope)), m.tc.Const(64, r.v-uint64(r.from)*r.slope))
	}
	var build func(r []run) *Term
	build = func(r []run) *Term {
		if len(r) == 1 {
			return c(r[0])
		}
		k := len(r) / 2
		return m.tc.Ite(m.tc.Slt(t, m.tc.Const(64, uint64(r[k].from))), build(r[:k]), build(r[k:]))
	}
	return m.tv(build(runs)), true
}

// ftFX turns a table of integers back into an exact float.
func (m *Machine) ftFX(f *FT) (V, bool) {
	vals := make([]uint64, len(f.tab))
	mb := 1
	e := 0
	for _, x := range f.tab {
		for e > -16 && math.Ldexp(x, -e) != math.Trunc(math.Ldexp(x, -e)) {
			e--
		}
	}
	for i, x := range f.tab {
		x = math.Ldexp(x, -e)
		if x != math.Trunc(x) || math.Abs(x) >= 1<<52 {
			return V{}, false
		}
		vals[i] = uint64(int64(x))
		if b := bitsFor(int64(x), int64(x)); b > mb {
			mb = b
		}
	}
	v, ok := m.piecewise(f.t, f.lo, vals, 64)
	if !ok {
		return V{}, false
	}
	return m.fxV(m.term(v, 64), e, mb), true
}

// ftPick falls back to one value of the argument (a reduced bound).
func (m *Machine) ftPick(f *FT, why string) V {
	v := int64(m.pick(f.t, why)) - f.lo
	if v < 0 || v >= int64(len(f.tab)) {
		m.unsupported("float table range")
	}
	return fv(f.tab[v])
}

// floatConc reduces a symbolic float to one value.
func (m *Machine) floatConc(v V, why string) V {
	switch x := v.r.(type) {
	case *FX:
		return m.fxPick(x, why)
	case *FT:
		return m.ftPick(x, why)
	}
	return v
}

// ftExact is a float as an exact or constant one.
func (m *Machine) ftExact(v V) (V, bool) {
	if f, ok := v.r.(*FT); ok {
		return m.ftFX(f)
	}
	return v, true
}

func isFT(v V) bool { _, ok := v.r.(*FT); return ok }

func (m *Machine) ftPred(f *FT, p func(float64) bool) V {
	vals := make([]uint64, len(f.tab))
	for i, x := range f.tab {
		if p(x) {
			vals[i] = 1
		}
	}
	if v, ok := m.piecewise(f.t, f.lo, vals, 0); ok {
		return v
	}
	return bv(p(math.Float64frombits(m.ftPick(f, "predicate of a tabled value").n)))
}
