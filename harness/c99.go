package font

import (
	"bufio"
	"bytes"
	"cmp"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"maps"
	"math"
	"math/bits"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"unicode"
	"unicode/utf16"
	"unicode/utf8"
)

//vf:use kit.go

type vfGen[T cmp.Ordered] struct{ xs []T }

func (g *vfGen[T]) maxv() T {
	m := g.xs[0]
	for _, x := range g.xs[1:] {
		m = max(m, x)
	}
	return m
}

type vfShape interface{ area() int }
type vfSq struct{ a int }
type vfRc struct{ vfSq; b int }

func (s vfSq) area() int  { return s.a * s.a }
func (s *vfRc) area() int { return s.a * s.b }

func vfSeq(n int) func(yield func(int, byte) bool) {
	return func(yield func(int, byte) bool) {
		for i := range n {
			if !yield(i, byte(i*3)) {
				return
			}
		}
	}
}

func vfRec(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("recovered: %v", r)
		}
	}()
	f()
	return nil
}

// x
//
//vf:quick k=0..31
func vhFeatures() {
	b := vfBytes("b", 6)
	x := vfU16("x")
	switch vfParam("k") {
	case 0:
		xs := slices.Clone(b)
		slices.Sort(xs)
		for i := 1; i < len(xs); i++ {
			vfAssert(xs[i-1] <= xs[i], "sorted")
		}
	case 1:
		xs := slices.Clone(b[:4])
		slices.SortFunc(xs, func(a, b byte) int { return cmp.Compare(b, a) })
		vfAssert(xs[0] >= xs[3], "sorted")
	case 2:
		xs := append([]byte(nil), b[:4]...)
		sort.Slice(xs, func(i, j int) bool { return xs[i] < xs[j] })
		vfAssert(xs[0] <= xs[3], "sorted")
		slices.SortStableFunc(xs, func(a, b byte) int { return int(a) - int(b) })
	case 3:
		i, ok := slices.BinarySearch([]uint16{3, 9, 100, 6000}, x)
		vfAssert(!ok || x == 3 || x == 9 || x == 100 || x == 6000, "found")
		vfAssert(i <= 4, "i")
		j := sort.Search(7, func(i int) bool { return uint16(i*1000) >= x })
		vfAssert(j == 7 || uint16(j*1000) >= x, "search")
	case 4:
		m := map[uint16]int{3: 1, x: 2, 9: 4}
		ks := slices.Sorted(maps.Keys(m))
		vfAssert(slices.IsSorted(ks), "keys")
		n := 0
		for k, v := range m {
			n += v
			_ = k
		}
		delete(m, 3)
		_, ok := m[3]
		vfAssert(!ok, "deleted")
		clear(m)
		vfAssert(len(m) == 0, "clear")
	case 5:
		var sb strings.Builder
		for _, c := range b {
			sb.WriteByte(c)
		}
		sb.WriteString("x")
		vfAssert(sb.Len() == 7 && sb.String()[0] == b[0], "sb")
	case 6:
		var buf bytes.Buffer
		binary.Write(&buf, binary.BigEndian, x)
		binary.Write(&buf, binary.LittleEndian, struct {
			A uint32
			B int8
		}{7, -1})
		buf.WriteByte(b[0])
		vfAssert(buf.Len() == 8, "len")
		var y uint16
		vfAssert(binary.Read(&buf, binary.BigEndian, &y) == nil && y == x, "read")
	case 7:
		z := binary.BigEndian.AppendUint32(nil, uint32(x))
		z = binary.BigEndian.AppendUint16(z, x)
		vfAssert(binary.BigEndian.Uint64(append(z, 0, 0)) == uint64(x)<<32|uint64(x)<<16, "append")
		vfAssert(binary.LittleEndian.Uint16(z[4:]) == bits.ReverseBytes16(x), "rev")
	case 8:
		r := bytes.NewReader(b)
		c, err := r.ReadByte()
		vfAssert(err == nil && c == b[0], "rb")
		rest, err := io.ReadAll(r)
		vfAssert(err == nil && bytes.Equal(rest, b[1:]), "all")
	case 9:
		r := bufio.NewReader(bytes.NewReader(b))
		p, err := r.Peek(2)
		vfAssert(err == nil && p[1] == b[1], "peek")
		var q [4]byte
		_, err = io.ReadFull(r, q[:])
		vfAssert(err == nil && q[3] == b[3], "full")
	case 10:
		g := &vfGen[uint16]{[]uint16{x, 5, 7}}
		vfAssert(g.maxv() >= x && g.maxv() >= 7, "gen")
	case 11:
		var s vfShape = vfSq{int(x)}
		vfAssert(s.area() == int(x)*int(x), "sq")
		s = &vfRc{vfSq{3}, int(x)}
		switch t := s.(type) {
		case vfSq:
			vfAssert(false, "type")
		case *vfRc:
			vfAssert(t.area() == 3*int(x), "rc")
		}
		f := s.area
		vfAssert(f() == 3*int(x), "method value")
	case 12:
		n := 0
		for i, v := range vfSeq(5) {
			if v == 9 {
				break
			}
			n += i
		}
		vfAssert(n == 3, "seq")
	case 13:
		err := vfRec(func() { _ = b[int(x)] })
		vfAssert((err != nil) == (x >= 6), "recover")
		e := errors.Join(errors.New("a"), io.EOF)
		vfAssert(errors.Is(e, io.EOF), "is")
		w := fmt.Errorf("x: %w", e)
		vfAssert(errors.Is(w, io.EOF), "is")
	case 14:
		n := 0
	outer:
		for i := range 4 {
			for j := 0; ; j++ {
				if j > i {
					continue outer
				}
				if b[i] == 7 {
					break outer
				}
				n++
			}
		}
		vfAssert(n <= 10, "n")
	case 15:
		vfAssert(bits.Len16(x) <= 16 && bits.OnesCount16(x) <= 16 && bits.TrailingZeros16(x) <= 16 && bits.LeadingZeros16(x)+bits.Len16(x) == 16, "bits")
	case 16:
		s := fmt.Sprintf("%d-%04x", x, x)
		_ = s
		_ = strconv.Itoa(int(x))
		_ = strconv.FormatInt(int64(x), 16)
		_ = strconv.Quote("abc")
	case 17:
		v, err := strconv.Atoi(string(b[:3]))
		vfAssert(err != nil || -100 < v && v < 1000, "atoi")
	case 18:
		fs := strings.Fields(string(b[:3]))
		vfAssert(len(fs) <= 3, "fields")
		ps := strings.Split(string(b[:4]), ",")
		vfAssert(len(ps) <= 5, "split")
		vfAssert(strings.TrimSpace(" a ") == "a", "trim")
		a, c, ok := strings.Cut(string(b[:3]), "=")
		vfAssert(!ok || len(a)+len(c) == 2, "cut")
	case 19:
		r, n := utf8.DecodeRune(b)
		vfAssert(n >= 1 && utf8.ValidRune(r), "rune")
		vfAssert(!unicode.IsUpper(r) || !unicode.IsLower(r) || true, "u")
		_ = utf16.Decode([]uint16{x})
	case 20:
		for i, r := range string(b[:3]) {
			vfAssert(i < 3 && r >= 0, "range string")
		}
	case 21:
		var mu sync.Mutex
		var rw sync.RWMutex
		var once sync.Once
		var n atomic.Int32
		mu.Lock()
		rw.RLock()
		once.Do(func() { n.Add(2) })
		rw.RUnlock()
		mu.Unlock()
		vfAssert(n.Load() == 2, "atomic")
		v := sync.OnceValue(func() int { return 5 })
		vfAssert(v() == 5, "oncevalue")
		p := sync.Pool{New: func() any { return new(int) }}
		p.Put(p.Get())
	case 22:
		a := [3]byte{b[0], b[1], b[2]}
		c := [3]byte(b[3:6])
		vfAssert((a == c) == bytes.Equal(b[:3], b[3:]), "arrays")
		pa := (*[2]byte)(b)
		vfAssert(pa[1] == b[1], "array pointer")
	case 23:
		xs := slices.Insert(slices.Clone(b), 2, 9, 8)
		xs = slices.Delete(xs, 0, 1)
		slices.Reverse(xs)
		vfAssert(len(xs) == 7 && slices.Contains(xs, 9), "slices")
		vfAssert(slices.Index(xs, 9) >= 0, "index")
		_ = slices.Compact(xs)
		_ = slices.Max(xs)
		ys := slices.Concat(xs, b)
		vfAssert(len(ys) == 13, "concat")
		ys = slices.Grow(ys, 10)
		_ = slices.Equal(xs, ys)
		zs := slices.Collect(slices.Values(xs))
		vfAssert(len(zs) == 7, "collect")
		for c := range slices.Chunk(b, 4) {
			vfAssert(len(c) <= 4, "chunk")
		}
	case 24:
		ch := make(chan int, 2)
		go func() { ch <- 3; close(ch) }()
		s := 0
		for v := range ch {
			s += v
		}
		vfAssert(s == 3, "chan")
	case 25:
		var wg sync.WaitGroup
		var out [2]int
		for i := range 2 {
			wg.Add(1)
			go func() { defer wg.Done(); out[i] = i + 1 }()
		}
		wg.Wait()
		vfAssert(out[0]+out[1] == 3, "wg")
	case 26:
		vfAssert(math.Abs(float64(int16(x))) <= 32768 && math.Floor(float64(x)/2) == float64(x/2), "math")
		vfAssert(math.MaxInt16 > 0 && math.Min(float64(x), 3) <= 3 && math.Round(float64(x)/4) <= 16384, "m")
		vfAssert(int(math.Log2(8)) == 3 && math.Sqrt(4) == 2 && math.Pow(2, 3) == 8 && math.Hypot(3, 4) == 5, "c")
		y := vfI32("y32")
		f := float64(float32(float64(y) / 65536))
		d := int64(math.Round((f - float64(y)/65536) * 65536))
		vfObs("f32", int64(math.Round(f*65536)), d)
		vfAssert(-64 <= d && d <= 64, "float32 error")
		vfAssert(y < -1<<24 || 1<<24 < y || d == 0, "float32 exact")
	case 27:
		vfAssert(bytes.HasPrefix(b, b[:2]) && bytes.IndexByte(b, b[3]) <= 3 && bytes.Contains(b, b[1:3]), "bytes")
		vfAssert(bytes.Compare(b, b) == 0 && len(bytes.TrimRight(b, "\x00")) <= 6, "b")
		vfAssert(len(bytes.Repeat(b, 2)) == 12 && len(bytes.Join([][]byte{b, b}, nil)) == 12, "r")
		_ = bytes.Split(b, []byte{0})
		_ = bytes.Count(b, []byte{0})
	case 28:
		type key struct {
			a uint16
			s string
		}
		m := map[key]bool{{x, "a"}: true}
		vfAssert(m[key{x, "a"}] && !m[key{x, "b"}], "struct key")
		ma := map[[2]byte]int{{b[0], b[1]}: 1}
		vfAssert(ma[[2]byte{b[0], b[1]}] == 1, "array key")
		ms := map[string]int{string(b[:2]): 3}
		vfAssert(ms[string(b[:2])] == 3, "string key")
	case 29:
		w := bufio.NewWriter(io.Discard)
		fmt.Fprintf(w, "%d", x)
		w.Flush()
		sr := io.NewSectionReader(bytes.NewReader(b), 1, 3)
		p, _ := io.ReadAll(sr)
		vfAssert(len(p) == 3 && p[0] == b[1], "section")
		lr := io.LimitReader(bytes.NewReader(b), 2)
		p, _ = io.ReadAll(lr)
		vfAssert(len(p) == 2, "limit")
	case 30:
		switch {
		case x < 5:
			fallthrough
		case x < 10:
			x = 1
		default:
			x = 2
		}
		vfAssert(x == 1 || x == 2, "switch")
		i := 0
	again:
		if i < 3 {
			i++
			goto again
		}
		c := complex(float64(i), 1)
		vfAssert(real(c) == 3, "complex")
	case 31:
		s := strings.Map(func(r rune) rune { return r + 1 }, "abc")
		vfAssert(s == "bcd", "map")
		vfAssert(strings.ToLower("ABC") == "abc" && strings.EqualFold("aB", "Ab") && strings.Replace("aa", "a", "b", 1) == "ba" && strings.ReplaceAll("aa", "a", "b") == "bb", "str")
		vfAssert(strings.Contains(string(b), string(b[:1])) && strings.Index("abc", "c") == 2 && strings.HasSuffix("abc", "bc") && strings.Join([]string{"a", "b"}, "-") == "a-b", "s")
		r := strings.NewReader(string(b))
		c, _ := r.ReadByte()
		vfAssert(c == b[0], "sr")
		f, err := strconv.ParseFloat("1.5", 64)
		vfAssert(err == nil && f == 1.5, "pf")
		u, err := strconv.ParseUint("ff", 16, 64)
		vfAssert(err == nil && u == 255, "pu")
	}
}
