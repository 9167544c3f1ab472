package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V is a Go value. Concrete scalars live in n (r nil). Otherwise r holds:
// *Term (symbolic int/bool), *FX (symbolic exact float), string or SymStr, *V / *SymPtr / *ElemPtr
// (pointers), Slice, *MapV, *Agg (struct/array), *Iface, *Closure, Tuple, iterators.
// The zero V is the zero value of every non-aggregate type.
type V struct {
	n uint64
	r any
}

type Agg struct{ e []V }
type Slice []V
type SymStr []V
type Tuple []V
type SymPtr struct {
	e   []V
	idx *Term // 64 bit, in range of e
	ti  tinfo
}
type Iface struct {
	t *RType
	v V
}
type Closure struct {
	fn     *ssa.Function
	cf     *cfunc
	fv     []V
	native func(m *Machine, args []V) V
}

// FX is the exact float t * 2^e with |t| < 2^mb, t 64-bit signed.
type FX struct {
	t  *Term
	e  int
	mb int
}

type RType struct {
	t       types.Type
	id      int
	methods map[string]*ssa.Function
	impl    map[types.Type]bool
}

type mapEnt struct {
	k, v  V
	alive bool
}
type MapV struct {
	ents  []*mapEnt
	idx   map[any]int // concrete keys -> position in ents
	nsym  int         // entries with symbolic keys
	alive int
}

type MapIter struct {
	m     *MapV
	order []*mapEnt
	pos   int
}
type StrIter struct {
	s   V
	pos int
}

type TargetPanic struct {
	v    V
	msg  string
	site string
	rt   bool // runtime error
}

type pathAbort struct {
	kind string // "assume", "limit", "unsupported", "done", "deadline", "alloc"
	msg  string
}

type specFail struct{}

func bv(b bool) V {
	if b {
		return V{n: 1}
	}
	return V{}
}
func iv(i int) V { return V{n: uint64(i)} }
func sv(s string) V {
	if s == "" {
		return V{}
	}
	return V{r: s}
}
func fv(f float64) V { return V{n: math.Float64bits(f)} }

func isSym(v V) bool {
	switch v.r.(type) {
	case *Term, *FX, *FT:
		return true
	}
	return false
}

// scalar type information
type tinfo struct {
	kind   uint8 // 0 other, 1 int, 2 bool, 3 float, 4 string
	w      uint8
	signed bool
}

func infoOf(t types.Type) tinfo {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return tinfo{}
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return tinfo{2, 0, false}
	case types.Int8:
		return tinfo{1, 8, true}
	case types.Int16:
		return tinfo{1, 16, true}
	case types.Int32, types.UntypedRune:
		return tinfo{1, 32, true}
	case types.Int, types.Int64, types.UntypedInt:
		return tinfo{1, 64, true}
	case types.Uint8:
		return tinfo{1, 8, false}
	case types.Uint16:
		return tinfo{1, 16, false}
	case types.Uint32:
		return tinfo{1, 32, false}
	case types.Uint, types.Uint64, types.Uintptr:
		return tinfo{1, 64, false}
	case types.Float32:
		return tinfo{3, 32, true}
	case types.Float64, types.UntypedFloat:
		return tinfo{3, 64, true}
	case types.String, types.UntypedString:
		return tinfo{4, 0, false}
	}
	return tinfo{}
}

func zero(t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := u.NumFields()
		a := &Agg{make([]V, n)}
		for i := 0; i < n; i++ {
			ft := u.Field(i).Type()
			if isAgg(ft) {
				a.e[i] = zero(ft)
			}
		}
		return V{r: a}
	case *types.Array:
		n := int(u.Len())
		a := &Agg{make([]V, n)}
		if isAgg(u.Elem()) {
			for i := range a.e {
				a.e[i] = zero(u.Elem())
			}
		}
		return V{r: a}
	case *types.Tuple:
		t := make(Tuple, u.Len())
		for i := range t {
			t[i] = zero(u.At(i).Type())
		}
		return V{r: t}
	}
	return V{}
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func copyV(v V) V {
	if a, ok := v.r.(*Agg); ok {
		b := &Agg{make([]V, len(a.e))}
		for i := range a.e {
			b.e[i] = copyV(a.e[i])
		}
		return V{r: b}
	}
	return v
}

func strLen(v V) int {
	switch s := v.r.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case SymStr:
		return len(s)
	}
	panic(fmt.Sprintf("strLen %T", v.r))
}

func strAt(v V, i int) V {
	switch s := v.r.(type) {
	case string:
		return V{n: uint64(s[i])}
	case SymStr:
		return s[i]
	}
	panic("strAt")
}

func strSlice(v V, i, j int) V {
	switch s := v.r.(type) {
	case nil:
		return v
	case string:
		return sv(s[i:j])
	case SymStr:
		return mkStr(s[i:j])
	}
	panic("strSlice")
}

// mkStr makes a string value from bytes (copied when symbolic).
func mkStr(b []V) V {
	for _, x := range b {
		if x.r != nil {
			c := make(SymStr, len(b))
			copy(c, b)
			return V{r: c}
		}
	}
	var sb strings.Builder
	for _, x := range b {
		sb.WriteByte(byte(x.n))
	}
	return sv(sb.String())
}

func strBytes(v V) []V {
	switch s := v.r.(type) {
	case nil:
		return nil
	case string:
		r := make([]V, len(s))
		for i := range r {
			r[i].n = uint64(s[i])
		}
		return r
	case SymStr:
		return s
	}
	panic("strBytes")
}

func goStr(v V) (string, bool) {
	switch s := v.r.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

// mkey turns a concrete key into a comparable Go value; ok is false if it contains symbolic parts.
func mkey(v V) (any, bool) {
	switch r := v.r.(type) {
	case nil:
		return v.n, true
	case string:
		return r, true
	case *V, *MapV, *Closure:
		return r, true
	case *Iface:
		k, ok := mkey(r.v)
		if s, isS := k.(string); isS {
			return fmt.Sprintf("i%d:s%s", r.t.id, s), ok
		}
		return [2]any{r.t, k}, ok
	case *Agg:
		var sb strings.Builder
		for _, x := range r.e {
			k, ok := mkey(x)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", k, k)
		}
		return "agg:" + sb.String(), true
	}
	return nil, false
}

func pointerTo(t types.Type) types.Type { return types.NewPointer(t) }
