package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type intrinsic = func(m *Machine, a []V) V

var intrinsics map[string]intrinsic
var vfIntrinsics map[string]intrinsic

func f1(f func(float64) float64, sym func(m *Machine, x *FX) (V, bool)) intrinsic {
	return func(m *Machine, a []V) V {
		if x, ok := a[0].r.(*FX); ok {
			if sym != nil {
				if v, ok := sym(m, x); ok {
					return v
				}
			}
			if t := m.ft(a[0]); t != nil {
				return t.apply(f)
			}
			a[0] = m.fxPick(x, "math function on a symbolic value")
		}
		if x, ok := a[0].r.(*FT); ok {
			v := x.apply(f)
			if r, ok := m.ftFX(v.r.(*FT)); ok {
				return r
			}
			return v
		}
		return fv(f(math.Float64frombits(a[0].n)))
	}
}

func f2(f func(x, y float64) float64) intrinsic {
	return func(m *Machine, a []V) V {
		if isSym(a[0]) || isSym(a[1]) {
			if t, lo, n, at, ok := m.ftZip(a[0], a[1]); ok {
				r := &FT{t, lo, make([]float64, n)}
				for i := range r.tab {
					x, y := at(i)
					r.tab[i] = f(x, y)
				}
				return V{r: r}
			}
		}
		for i := range a {
			a[i] = m.floatConc(a[i], "math function on a symbolic value")
		}
		return fv(f(math.Float64frombits(a[0].n), math.Float64frombits(a[1].n)))
	}
}

var f64i = tinfo{3, 64, true}

func minmax(op token.Token, f func(x, y float64) float64) intrinsic {
	return func(m *Machine, a []V) V {
		if a[0].r == nil && a[1].r == nil {
			return fv(f(math.Float64frombits(a[0].n), math.Float64frombits(a[1].n)))
		}
		for i := range a {
			if a[i].r == nil {
				x := math.Float64frombits(a[i].n)
				if math.IsInf(x, 0) || math.IsNaN(x) {
					r := f(x, 0)
					if r == 0 {
						return a[1-i]
					}
					return a[i]
				}
			}
		}
		c := m.term(m.floatBin(op, a[0], a[1], f64i, false), 0)
		if c.IsConst() {
			if c.k != 0 {
				return a[0]
			}
			return a[1]
		}
		if v, ok := m.iteW(c, a[0], a[1], f64i); ok {
			return v
		}
		if m.branch(c) {
			return a[0]
		}
		return a[1]
	}
}

func nop(m *Machine, a []V) V { return V{} }

func (m *Machine) errorV(msg string) V {
	return V{r: &Iface{m.p.errT, V{r: &V{r: &Agg{[]V{sv(msg)}}}}}}
}

// goFmt renders a format string with concrete scalar arguments only.
func (m *Machine) goFmt(format string, args Slice) string {
	var out []any
	for _, x := range args {
		i, _ := x.r.(*Iface)
		if i == nil {
			out = append(out, nil)
			continue
		}
		ti := infoOf(i.t.t)
		switch {
		case isSym(i.v):
			out = append(out, "<sym>")
		case ti.kind == 1 && ti.signed:
			out = append(out, sx(i.v.n, ti.w))
		case ti.kind == 1:
			out = append(out, i.v.n)
		case ti.kind == 2:
			out = append(out, i.v.n != 0)
		case ti.kind == 3:
			out = append(out, math.Float64frombits(i.v.n))
		case ti.kind == 4:
			s, ok := goStr(i.v)
			if !ok {
				s = "<sym>"
			}
			out = append(out, s)
		default:
			out = append(out, "<"+i.t.t.String()+">")
		}
	}
	return fmt.Sprintf(strings.ReplaceAll(format, "%w", "%v"), out...)
}

func sliceOf(v V) Slice {
	s, _ := v.r.(Slice)
	return s
}

// mathBits helper on symbolic words: falls back to interpreting the generic Go body.
func bitsIntr(w uint8, f func(uint64) uint64, sym func(m *Machine, t *Term) *Term) intrinsic {
	return func(m *Machine, a []V) V {
		if t, ok := a[0].r.(*Term); ok {
			return m.tv(sym(m, t))
		}
		return V{n: f(a[0].n & mask(w))}
	}
}

func lenSym(w uint8) func(m *Machine, t *Term) *Term {
	return func(m *Machine, t *Term) *Term {
		tc := m.tc
		r := tc.Const(64, 0)
		for i := uint8(0); i < t.w; i++ {
			r = tc.Ite(tc.Eq(tc.Extract(t, uint64(i), 1), tc.Const(1, 1)), tc.Const(64, uint64(i)+1), r)
		}
		return r
	}
}

func onesSym(m *Machine, t *Term) *Term {
	tc := m.tc
	r := tc.Const(64, 0)
	for i := uint8(0); i < t.w; i++ {
		r = tc.Bin(OAdd, r, tc.Zext(tc.Extract(t, uint64(i), 1), 64))
	}
	return r
}

func indexByte(m *Machine, b []V, c V) V {
	ct := m.term(c, 8)
	for i := range b {
		e := m.tc.Eq(m.term(b[i], 8), ct)
		if m.branch(e) {
			return iv(i)
		}
	}
	return V{n: ^uint64(0)}
}

func indexBytes(m *Machine, s, sub []V) V {
	for i := 0; i+len(sub) <= len(s); i++ {
		e := m.tc.True
		for j := range sub {
			e = m.tc.BAnd(e, m.tc.Eq(m.term(s[i+j], 8), m.term(sub[j], 8)))
		}
		if m.branch(e) {
			return iv(i)
		}
	}
	return V{n: ^uint64(0)}
}

func bytesOf(v V) []V {
	switch x := v.r.(type) {
	case Slice:
		return x
	case nil:
		return nil
	}
	return strBytes(v)
}

type brState struct {
	data []V
	pos  int
	dst  V
	bad  bool
}

func (m *Machine) newPayload(data []V, n int) V {
	id := len(m.side)
	m.side = append(m.side, append([]V(nil), data...))
	tok := make([]V, n)
	hdr := []byte{0xFD, 'V', 'F', 'Z', byte(id >> 8), byte(id), 0xA5, 0x5A}
	for i := range tok {
		if i < len(hdr) {
			tok[i].n = uint64(hdr[i])
		} else {
			tok[i].n = 0xEE
		}
	}
	return V{r: Slice(tok)}
}

func (m *Machine) payload(b []V) ([]V, bool) {
	if len(b) < 8 {
		return nil, false
	}
	for i := 0; i < 8; i++ {
		if b[i].r != nil {
			return nil, false
		}
	}
	if b[0].n != 0xFD || b[1].n != 'V' || b[2].n != 'F' || b[3].n != 'Z' || b[6].n != 0xA5 || b[7].n != 0x5A {
		return nil, false
	}
	id := int(b[4].n<<8 | b[5].n)
	if id >= len(m.side) {
		return nil, false
	}
	return m.side[id], true
}

func (m *Machine) pkgFn(pkg, name string) *ssa.Function {
	p := m.p.prog.ImportedPackage(pkg)
	if p == nil {
		m.unsupported("package " + pkg + " not loaded")
	}
	return p.Func(name)
}

func (m *Machine) readAll(r V) []V {
	res := m.callFn(m.pkgFn("io", "ReadAll"), []V{r}, nil, m.top).r.(Tuple)
	return sliceOf(res[0])
}

func (m *Machine) invoke(iface V, name string, args ...V) V {
	i := iface.r.(*Iface)
	ms := m.p.prog.MethodSets.MethodSet(i.t.t)
	sel := ms.Lookup(nil, name)
	if sel == nil {
		m.unsupported("invoke " + name)
	}
	fn := m.p.prog.MethodValue(sel)
	return m.callFn(fn, append([]V{i.v}, args...), nil, m.top)
}

func (m *Machine) globalOf(pkg, name string) V {
	p := m.p.prog.ImportedPackage(pkg)
	g := p.Var(name)
	return m.load(V{r: m.global(m.p.globalIdx(g))})
}

func swapFn(s Slice) *Closure {
	return &Closure{native: func(m *Machine, a []V) V {
		i, j := int(a[0].n), int(a[1].n)
		x, y := copyV(s[i]), copyV(s[j])
		m.storeCell(&s[i], y)
		m.storeCell(&s[j], x)
		return V{}
	}}
}

func init() {
	intrinsics = map[string]intrinsic{
		"slices.overlaps": func(m *Machine, a []V) V {
			x, _ := a[0].r.(Slice)
			y, _ := a[1].r.(Slice)
			if len(x) == 0 || len(y) == 0 {
				return bv(false)
			}
			at := func(v *V) uintptr { return uintptr(unsafe.Pointer(v)) }
			return bv(at(&x[0]) <= at(&y[len(y)-1]) && at(&y[0]) <= at(&x[len(x)-1]))
		},
		// reflect.Value of fields: the interface is kept in the pointer field of the Value
		"reflect.ValueOf": func(m *Machine, a []V) V {
			return V{r: &Agg{e: []V{{}, a[0], {}}}}
		},
		"(reflect.Value).FieldByName": func(m *Machine, a []V) V {
			i, _ := a[0].r.(*Agg).e[1].r.(*Iface)
			name, ok := a[1].r.(string)
			if i != nil && ok {
				if st, ok := i.t.t.Underlying().(*types.Struct); ok {
					for k := 0; k < st.NumFields(); k++ {
						if st.Field(k).Name() == name {
							return V{r: &Agg{e: []V{{}, {r: &Iface{m.p.rtype(st.Field(k).Type()), copyV(i.v.r.(*Agg).e[k])}}, {}}}}
						}
					}
				}
			}
			return V{r: &Agg{e: []V{{}, {}, {}}}}
		},
		"(reflect.Value).Bytes": func(m *Machine, a []V) V {
			if i, ok := a[0].r.(*Agg).e[1].r.(*Iface); ok {
				if st, ok := i.t.t.Underlying().(*types.Slice); ok && infoOf(st.Elem()).w == 8 {
					return i.v
				}
			}
			m.unsupported("reflect.Value.Bytes")
			return V{}
		},
		"errors.Is": func(m *Machine, a []V) V { // the comparability test needs reflection
			if a[0].r == nil || a[1].r == nil {
				return bv(a[0].r == nil && a[1].r == nil)
			}
			return m.callFn(m.pkgFn("errors", "is"), []V{a[0], a[1], bv(true)}, nil, m.top)
		},
		"math.Float64bits": func(m *Machine, a []V) V {
			if x, ok := a[0].r.(*FT); ok {
				vals := make([]uint64, len(x.tab))
				for i, f := range x.tab {
					vals[i] = math.Float64bits(f)
				}
				if v, ok := m.piecewise(x.t, x.lo, vals, 64); ok {
					return v
				}
			}
			return m.floatConc(a[0], "Float64bits of a symbolic value")
		},
		"math.Float64frombits": func(m *Machine, a []V) V {
			if t, ok := a[0].r.(*Term); ok {
				return V{n: m.pick(t, "Float64frombits of a symbolic value")}
			}
			return a[0]
		},
		"math.Float32bits": func(m *Machine, a []V) V {
			a[0] = m.floatConc(a[0], "Float32bits of a symbolic value")
			return V{n: uint64(math.Float32bits(float32(math.Float64frombits(a[0].n))))}
		},
		"math.Float32frombits": func(m *Machine, a []V) V {
			if t, ok := a[0].r.(*Term); ok {
				a[0] = V{n: m.pick(t, "Float32frombits of a symbolic value")}
			}
			return fv(float64(math.Float32frombits(uint32(a[0].n))))
		},
		"math.Floor": f1(math.Floor, func(m *Machine, x *FX) (V, bool) {
			if t := m.fxFloor(x); t != nil {
				return m.fxV(t, 0, x.mb+1), true
			}
			return V{}, false
		}),
		"math.Ceil": f1(math.Ceil, func(m *Machine, x *FX) (V, bool) {
			n := &FX{m.tc.Neg(x.t), x.e, x.mb}
			if t := m.fxFloor(n); t != nil {
				return m.fxV(m.tc.Neg(t), 0, x.mb+1), true
			}
			return V{}, false
		}),
		"math.Trunc": f1(math.Trunc, func(m *Machine, x *FX) (V, bool) {
			if t := m.fxTrunc(x); t != nil {
				return m.fxV(t, 0, x.mb+1), true
			}
			return V{}, false
		}),
		"math.Round": f1(math.Round, func(m *Machine, x *FX) (V, bool) {
			// away from zero: sign * floor(|x| + 1/2)
			if x.e >= 0 {
				return V{r: x}, true
			}
			if -x.e > 50 || x.mb > 60 {
				return V{}, false
			}
			tc := m.tc
			neg := tc.Slt(x.t, tc.Const(64, 0))
			ab := tc.Ite(neg, tc.Neg(x.t), x.t)
			r := tc.Lshr(tc.Bin(OAdd, ab, tc.Const(64, 1<<uint(-x.e-1))), uint64(-x.e))
			return m.fxV(tc.Ite(neg, tc.Neg(r), r), 0, x.mb), true
		}),
		"math.Abs": f1(math.Abs, func(m *Machine, x *FX) (V, bool) {
			neg := m.tc.Slt(x.t, m.tc.Const(64, 0))
			return m.fxV(m.tc.Ite(neg, m.tc.Neg(x.t), x.t), x.e, x.mb), true
		}),
		"math.Sqrt": f1(math.Sqrt, nil), "math.Log2": f1(math.Log2, nil), "math.Log": f1(math.Log, nil),
		"math.Log10": f1(math.Log10, nil), "math.Exp": f1(math.Exp, nil), "math.Sin": f1(math.Sin, nil),
		"math.Cos": f1(math.Cos, nil), "math.Tan": f1(math.Tan, nil), "math.Atan": f1(math.Atan, nil),
		"math.Pow": f2(math.Pow), "math.Mod": f2(math.Mod), "math.Hypot": f2(math.Hypot), "math.Atan2": f2(math.Atan2),
		"math.Copysign": f2(math.Copysign),
		"math.Min":      minmax(token.LSS, math.Min),
		"math.Max":      minmax(token.GTR, math.Max),
		"math.IsNaN": func(m *Machine, a []V) V {
			if x, ok := a[0].r.(*FT); ok {
				a[0] = m.ftPred(x, math.IsNaN)
				return a[0]
			}
			if a[0].r != nil {
				return V{}
			}
			return bv(math.IsNaN(math.Float64frombits(a[0].n)))
		},
		"math.IsInf": func(m *Machine, a []V) V {
			if x, ok := a[0].r.(*FT); ok {
				return m.ftPred(x, func(f float64) bool { return math.IsInf(f, int(int64(a[1].n))) })
			}
			if a[0].r != nil {
				return V{}
			}
			return bv(math.IsInf(math.Float64frombits(a[0].n), int(int64(a[1].n))))
		},
		"math.Modf": func(m *Machine, a []V) V {
			if x, ok := a[0].r.(*FX); ok {
				if t := m.fxTrunc(x); t != nil {
					i := m.fxV(t, 0, x.mb+1)
					return V{r: Tuple{i, m.floatBin(token.SUB, a[0], i, f64i, false)}}
				}
			}
			if x, ok := a[0].r.(*FT); ok {
				return V{r: Tuple{x.apply(func(f float64) float64 { i, _ := math.Modf(f); return i }), x.apply(func(f float64) float64 { _, r := math.Modf(f); return r })}}
			}
			a[0] = m.floatConc(a[0], "Modf of a symbolic value")
			i, f := math.Modf(math.Float64frombits(a[0].n))
			return V{r: Tuple{fv(i), fv(f)}}
		},
		"strconv.AppendFloat": func(m *Machine, a []V) V {
			dst := sliceOf(a[0])
			out := append(make(Slice, 0, len(dst)+24), dst...)
			g := func(f float64) string {
				return strconv.FormatFloat(f, byte(m.concV(a[2])), int(int64(m.concV(a[3]))), int(m.concV(a[4])))
			}
			if a[1].r != nil {
				if f := m.ft(a[1]); f != nil {
					if r, ok := m.appendFloat(f, g); ok {
						return V{r: append(out, r...)}
					}
				}
			}
			if x, ok := a[1].r.(*FX); ok && m.concV(a[2]) == 'G' && int64(m.concV(a[3])) == -1 {
				if r, ok := m.appendIntG(x); ok {
					return V{r: append(out, r...)}
				}
			}
			for _, c := range []byte(g(math.Float64frombits(m.floatConc(a[1], "text of a symbolic float").n))) {
				out = append(out, V{n: uint64(c)})
			}
			return V{r: out}
		},
		"math.Frexp": func(m *Machine, a []V) V {
			a[0] = m.floatConc(a[0], "Frexp of a symbolic value")
			f, e := math.Frexp(math.Float64frombits(a[0].n))
			return V{r: Tuple{fv(f), iv(e)}}
		},
		"math/bits.Len":         bitsIntr(64, func(x uint64) uint64 { return uint64(bits.Len64(x)) }, lenSym(64)),
		"math/bits.Len64":       bitsIntr(64, func(x uint64) uint64 { return uint64(bits.Len64(x)) }, lenSym(64)),
		"math/bits.Len32":       bitsIntr(32, func(x uint64) uint64 { return uint64(bits.Len64(x)) }, lenSym(32)),
		"math/bits.Len16":       bitsIntr(16, func(x uint64) uint64 { return uint64(bits.Len64(x)) }, lenSym(16)),
		"math/bits.Len8":        bitsIntr(8, func(x uint64) uint64 { return uint64(bits.Len64(x)) }, lenSym(8)),
		"math/bits.OnesCount64": bitsIntr(64, func(x uint64) uint64 { return uint64(bits.OnesCount64(x)) }, onesSym),
		"math/bits.OnesCount32": bitsIntr(32, func(x uint64) uint64 { return uint64(bits.OnesCount64(x)) }, onesSym),
		"math/bits.OnesCount16": bitsIntr(16, func(x uint64) uint64 { return uint64(bits.OnesCount64(x)) }, onesSym),
		"math/bits.OnesCount8":  bitsIntr(8, func(x uint64) uint64 { return uint64(bits.OnesCount64(x)) }, onesSym),

		"fmt.Errorf": func(m *Machine, a []V) V {
			f, _ := goStr(a[0])
			msg := m.goFmt(f, sliceOf(a[1]))
			if strings.Contains(f, "%w") {
				for _, x := range sliceOf(a[1]) {
					if i, ok := x.r.(*Iface); ok && m.p.wrapT != nil && types.Implements(i.t.t, errIface) {
						return V{r: &Iface{m.p.wrapT, V{r: &V{r: &Agg{[]V{sv(msg), x}}}}}}
					}
				}
			}
			return m.errorV(msg)
		},
		"fmt.Sprintf": func(m *Machine, a []V) V {
			f, _ := goStr(a[0])
			return sv(m.goFmt(f, sliceOf(a[1])))
		},
		"fmt.Sprint":   func(m *Machine, a []V) V { return sv(m.goFmt(strings.Repeat("%v", len(sliceOf(a[0]))), sliceOf(a[0]))) },
		"fmt.Println":  func(m *Machine, a []V) V { return V{r: Tuple{V{}, V{}}} },
		"fmt.Printf":   func(m *Machine, a []V) V { return V{r: Tuple{V{}, V{}}} },
		"fmt.Print":    func(m *Machine, a []V) V { return V{r: Tuple{V{}, V{}}} },
		"fmt.Fprintf":  func(m *Machine, a []V) V { return V{r: Tuple{V{}, V{}}} },
		"fmt.Fprintln": func(m *Machine, a []V) V { return V{r: Tuple{V{}, V{}}} },
		"fmt.Fprint":   func(m *Machine, a []V) V { return V{r: Tuple{V{}, V{}}} },

		"sort.Slice": func(m *Machine, a []V) V {
			s := sliceOf(a[0].r.(*Iface).v)
			d := V{r: &Agg{[]V{a[1], {r: swapFn(s)}}}}
			m.callFn(m.pkgFn("sort", "pdqsort_func"), []V{d, {}, iv(len(s)), iv(bits.Len(uint(len(s))))}, nil, m.top)
			return V{}
		},
		"sort.SliceStable": func(m *Machine, a []V) V {
			s := sliceOf(a[0].r.(*Iface).v)
			d := V{r: &Agg{[]V{a[1], {r: swapFn(s)}}}}
			m.callFn(m.pkgFn("sort", "stable_func"), []V{d, iv(len(s))}, nil, m.top)
			return V{}
		},
		"sort.SliceIsSorted": func(m *Machine, a []V) V {
			s := sliceOf(a[0].r.(*Iface).v)
			for i := len(s) - 1; i > 0; i-- {
				r := m.callClosure(a[1].r.(*Closure), []V{iv(i), iv(i - 1)}, m.top)
				if m.branch(m.term(r, 0)) {
					return bv(false)
				}
			}
			return bv(true)
		},
		"internal/bytealg.IndexByte":       func(m *Machine, a []V) V { return indexByte(m, bytesOf(a[0]), a[1]) },
		"internal/bytealg.IndexByteString": func(m *Machine, a []V) V { return indexByte(m, bytesOf(a[0]), a[1]) },
		"strings.IndexByte":                func(m *Machine, a []V) V { return indexByte(m, bytesOf(a[0]), a[1]) },
		"bytes.IndexByte":                  func(m *Machine, a []V) V { return indexByte(m, bytesOf(a[0]), a[1]) },
		"strings.Index":                    func(m *Machine, a []V) V { return indexBytes(m, bytesOf(a[0]), bytesOf(a[1])) },
		"bytes.Index":                      func(m *Machine, a []V) V { return indexBytes(m, bytesOf(a[0]), bytesOf(a[1])) },
		"internal/bytealg.CountString":     countByte,
		"internal/bytealg.Count":           countByte,
		"internal/bytealg.Equal":           func(m *Machine, a []V) V { return m.tv(m.strEq(mkStr(bytesOf(a[0])), mkStr(bytesOf(a[1])))) },
		"internal/bytealg.MakeNoZero": func(m *Machine, a []V) V {
			n := int(m.concV(a[0]))
			return V{r: Slice(make([]V, n, growCap(n, 1)))}
		},
		"internal/bytealg.Compare":       cmpBytes,
		"internal/bytealg.CompareString": cmpBytes,
		"bytes.Compare":                  cmpBytes,
		"strings.Compare":                cmpBytes,
		"internal/abi.NoEscape":          func(m *Machine, a []V) V { return a[0] },
		"internal/abi.Escape":            func(m *Machine, a []V) V { return a[0] },
		"internal/stringslite.Clone":     func(m *Machine, a []V) V { return a[0] },
		"strings.Clone":                  func(m *Machine, a []V) V { return a[0] },
		"(*sync.Mutex).Lock":             nop, "(*sync.Mutex).Unlock": nop, "(*sync.RWMutex).Lock": nop, "(*sync.RWMutex).Unlock": nop,
		"(*sync.RWMutex).RLock": nop, "(*sync.RWMutex).RUnlock": nop,
		"(*sync.Pool).Put": nop,
		"(*sync.Pool).Get": func(m *Machine, a []V) V {
			ag := m.cell(a[0]).r.(*Agg)
			if cl, ok := ag.e[len(ag.e)-1].r.(*Closure); ok {
				return m.callClosure(cl, nil, m.top)
			}
			return V{}
		},
		"(*sync.Once).Do": func(m *Machine, a []V) V {
			ag := m.cell(a[0]).r.(*Agg)
			// the last scalar of the struct stands in for the done flag, so that copies and resets behave
			c := &ag.e[len(ag.e)-1]
			for {
				sub, ok := c.r.(*Agg)
				if !ok {
					break
				}
				c = &sub.e[len(sub.e)-1]
			}
			if c.n != 0 {
				return V{}
			}
			m.set(c, V{n: 1})
			return m.callClosure(a[1].r.(*Closure), nil, m.top)
		},
		"time.Now": func(m *Machine, a []V) V {
			return V{r: &Agg{[]V{{}, {n: 63850000000}, {}}}}
		},
		"runtime.KeepAlive": nop, "runtime.GC": nop, "runtime.SetFinalizer": nop,
		"os.Getenv":                         nop,
		"internal/godebug.New":              func(m *Machine, a []V) V { return V{r: &V{r: &Agg{make([]V, 8)}}} },
		"(*internal/godebug.Setting).Value": nop, "(*internal/godebug.Setting).IncNonDefault": nop,

		"compress/zlib.NewReader": func(m *Machine, a []V) V {
			raw := m.readAll(a[0])
			data, ok := m.payload(raw)
			if !ok {
				return V{r: Tuple{V{}, m.globalOf("compress/zlib", "ErrHeader")}}
			}
			br := m.callFn(m.pkgFn("bytes", "NewReader"), []V{{r: Slice(append([]V(nil), data...))}}, nil, m.top)
			brT := m.p.rtype(types.NewPointer(m.p.prog.ImportedPackage("bytes").Type("Reader").Type()))
			rc := m.callFn(m.pkgFn("io", "NopCloser"), []V{{r: &Iface{brT, br}}}, nil, m.top)
			return V{r: Tuple{rc, V{}}}
		},
		"github.com/andybalholm/brotli.NewReader": func(m *Machine, a []V) V {
			raw := m.readAll(a[0])
			data, ok := m.payload(raw)
			p := &V{}
			m.br[p] = &brState{data: data, bad: !ok}
			return V{r: p}
		},
		"(*github.com/andybalholm/brotli.Reader).Read": func(m *Machine, a []V) V {
			st := m.br[m.cell(a[0])]
			if st.bad {
				return V{r: Tuple{V{}, m.errorV("brotli: invalid data")}}
			}
			d := sliceOf(a[1])
			n := copy(d, st.data[st.pos:])
			if n == 0 && len(d) > 0 {
				return V{r: Tuple{V{}, m.globalOf("io", "EOF")}}
			}
			st.pos += n
			return V{r: Tuple{iv(n), V{}}}
		},
		"github.com/andybalholm/brotli.NewWriter":      brWriter,
		"github.com/andybalholm/brotli.NewWriterLevel": brWriter,
		"github.com/andybalholm/brotli.NewWriterV2":    brWriter,
		"(*github.com/andybalholm/brotli.Writer).Write": func(m *Machine, a []V) V {
			st := m.br[m.cell(a[0])]
			st.data = append(st.data, sliceOf(a[1])...)
			return V{r: Tuple{iv(len(sliceOf(a[1]))), V{}}}
		},
		"(*github.com/andybalholm/brotli.Writer).Flush": nop,
		"(*github.com/andybalholm/brotli.Writer).Close": func(m *Machine, a []V) V {
			st := m.br[m.cell(a[0])]
			if st.bad {
				return V{}
			}
			st.bad = true
			tok := m.newPayload(st.data, 16)
			m.invoke(st.dst, "Write", tok)
			return V{}
		},
	}
	for _, k := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		intrinsics["sync/atomic.Load"+k] = func(m *Machine, a []V) V { return m.load(a[0]) }
		intrinsics["sync/atomic.Store"+k] = func(m *Machine, a []V) V { m.store(a[0], a[1]); return V{} }
		w := uint8(64)
		if strings.Contains(k, "32") {
			w = 32
		}
		intrinsics["sync/atomic.Add"+k] = func(m *Machine, a []V) V {
			v := m.intBin(token.ADD, m.load(a[0]), a[1], tinfo{1, w, false})
			m.store(a[0], v)
			return v
		}
		intrinsics["sync/atomic.CompareAndSwap"+k] = func(m *Machine, a []V) V {
			if sameRef(m.load(a[0]), a[1]) {
				m.store(a[0], a[2])
				return bv(true)
			}
			return bv(false)
		}
		intrinsics["sync/atomic.Swap"+k] = func(m *Machine, a []V) V {
			o := m.load(a[0])
			m.store(a[0], a[1])
			return o
		}
	}

	nd := func(w uint8) intrinsic {
		return func(m *Machine, a []V) V {
			s, _ := goStr(a[0])
			return V{r: m.fresh(s, w)}
		}
	}
	vfIntrinsics = map[string]intrinsic{
		"vfU8": nd(8), "vfU16": nd(16), "vfU32": nd(32), "vfU64": nd(64),
		"vfI8": nd(8), "vfI16": nd(16), "vfI32": nd(32), "vfI64": nd(64),
		"vfBool": nd(0),
		"vfInt": func(m *Machine, a []V) V {
			s, _ := goStr(a[0])
			lo, hi := int64(m.concV(a[1])), int64(m.concV(a[2]))
			if lo == hi {
				return V{n: uint64(lo)}
			}
			w := uint8(bits.Len64(uint64(hi - lo)))
			t := m.fresh(s, w)
			if uint64(hi-lo) != mask(w) {
				m.assume(m.tc.Ule(t, m.tc.Const(w, uint64(hi-lo))))
			}
			return m.tv(m.tc.Bin(OAdd, m.tc.Zext(t, 64), m.tc.Const(64, uint64(lo))))
		},
		"vfBytes": func(m *Machine, a []V) V {
			s, _ := goStr(a[0])
			r := make([]V, int(m.concV(a[1])))
			for i := range r {
				r[i] = V{r: m.fresh(s, 8)}
			}
			return V{r: Slice(r)}
		},
		"vfAssume": func(m *Machine, a []V) V { m.assume(m.term(a[0], 0)); return V{} },
		"vfAssert": func(m *Machine, a []V) V {
			s, _ := goStr(a[1])
			m.vassert(m.term(a[0], 0), s, "")
			return V{}
		},
		"vfKnown": func(m *Machine, a []V) V { // vfKnown(cond, msg, id)
			s, _ := goStr(a[1])
			k, _ := goStr(a[2])
			m.vassert(m.term(a[0], 0), s, k)
			return V{}
		},
		"vfReach": func(m *Machine, a []V) V {
			s, _ := goStr(a[0])
			m.reach = append(m.reach, s)
			return V{}
		},
		"vfObs": func(m *Machine, a []V) V {
			s, _ := goStr(a[0])
			m.obs = append(m.obs, Obs{s, append([]V(nil), sliceOf(a[1])...)})
			return V{}
		},
		"vfObsB": func(m *Machine, a []V) V {
			s, _ := goStr(a[0])
			m.obs = append(m.obs, Obs{s, append([]V(nil), bytesOf(a[1])...)})
			return V{}
		},
		"vfParam": func(m *Machine, a []V) V {
			s, _ := goStr(a[0])
			v, ok := m.h.Params[s]
			if !ok {
				m.unsupported("missing harness parameter " + s)
			}
			return iv(v)
		},
		"vfConc": func(m *Machine, a []V) V {
			if t, ok := a[0].r.(*Term); ok {
				return V{n: m.concretize(t)}
			}
			return a[0]
		},
		"vfMapOrder": func(m *Machine, a []V) V { m.mapOrder = int(a[0].n); return V{} },
		"vfAllocMax": func(m *Machine, a []V) V { m.allocMax = int64(a[0].n); return V{} },
		"vfZlib": func(m *Machine, a []V) V {
			d := sliceOf(a[0])
			n := len(d) - 1
			if n > 24 {
				n = 24
			}
			if n < 8 {
				n = 8
			}
			return m.newPayload(d, n)
		},
		"vfBrotli": func(m *Machine, a []V) V { return m.newPayload(sliceOf(a[0]), 16) },
		"vfNative": func(m *Machine, a []V) V { return bv(false) },
		"vfUnbrotli": func(m *Machine, a []V) V {
			d, ok := m.payload(sliceOf(a[0]))
			if !ok {
				return V{}
			}
			return V{r: Slice(append([]V(nil), d...))}
		},
	}
}

func brWriter(m *Machine, a []V) V {
	p := &V{}
	m.br[p] = &brState{dst: a[0]}
	return V{r: p}
}

func countByte(m *Machine, a []V) V {
	n := 0
	ct := m.term(a[1], 8)
	for _, x := range bytesOf(a[0]) {
		if m.branch(m.tc.Eq(m.term(x, 8), ct)) {
			n++
		}
	}
	return iv(n)
}

func cmpBytes(m *Machine, a []V) V {
	p, q := bytesOf(a[0]), bytesOf(a[1])
	tc := m.tc
	n := min(len(p), len(q))
	var r *Term
	switch {
	case len(p) < len(q):
		r = tc.Const(64, ^uint64(0))
	case len(p) > len(q):
		r = tc.Const(64, 1)
	default:
		r = tc.Const(64, 0)
	}
	for i := n - 1; i >= 0; i-- {
		x, y := m.term(p[i], 8), m.term(q[i], 8)
		r = tc.Ite(tc.Eq(x, y), r, tc.Ite(tc.Ult(x, y), tc.Const(64, ^uint64(0)), tc.Const(64, 1)))
	}
	return m.tv(r)
}

var errIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

// concV is the value of a number, which is made concrete when it is symbolic.
func (m *Machine) concV(v V) uint64 {
	if t, ok := v.r.(*Term); ok {
		return m.concretize(t)
	}
	return v.n
}
