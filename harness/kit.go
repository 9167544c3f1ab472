package font

// Template fonts. Table bytes are assembled by hand so that any byte can be symbolic.

func vf16(b []byte, v uint16) []byte { return append(b, byte(v>>8), byte(v)) }
func vf32(b []byte, v uint32) []byte {
	return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}
func vf16s(v ...uint16) []byte {
	var b []byte
	for _, x := range v {
		b = vf16(b, x)
	}
	return b
}
func vfCat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}
func vfGet16(b []byte, i int) uint16 { return uint16(b[i])<<8 | uint16(b[i+1]) }
func vfGet32(b []byte, i int) uint32 {
	return uint32(b[i])<<24 | uint32(b[i+1])<<16 | uint32(b[i+2])<<8 | uint32(b[i+3])
}
func vfPut16(b []byte, i int, v uint16) { b[i], b[i+1] = byte(v>>8), byte(v) }

type vfTab struct {
	tag  string
	data []byte
}

// vfSFNT lays the tables out in the given order (sorted tags in the directory expected from the caller).
func vfSFNT(version uint32, tabs []vfTab) []byte {
	var b []byte
	b = vf32(b, version)
	n := uint16(len(tabs))
	b = vf16(b, n)
	b = vf16(b, 0)
	b = vf16(b, 0)
	b = vf16(b, 0)
	off := 12 + 16*len(tabs)
	for _, t := range tabs {
		b = append(b, t.tag...)
		b = vf32(b, vfSum(t.data))
		b = vf32(b, uint32(off))
		b = vf32(b, uint32(len(t.data)))
		off += (len(t.data) + 3) &^ 3
	}
	for _, t := range tabs {
		b = append(b, t.data...)
		for len(b)&3 != 0 {
			b = append(b, 0)
		}
	}
	return b
}

func vfSum(b []byte) uint32 {
	var s uint32
	i := 0
	for ; i+4 <= len(b); i += 4 {
		s += vfGet32(b, i)
	}
	if i < len(b) {
		t := make([]byte, 4)
		copy(t, b[i:])
		s += vfGet32(t, 0)
	}
	return s
}

// vfDir reads a table directory.
func vfDir(b []byte) map[string][]byte {
	r := map[string][]byte{}
	n := int(vfGet16(b, 4))
	for i := 0; i < n; i++ {
		p := 12 + 16*i
		off, l := int(vfGet32(b, p+8)), int(vfGet32(b, p+12))
		r[string(b[p:p+4])] = b[off : off+l]
	}
	return r
}

// vfFont describes a template font; nil tables get defaults, tables set to vfNone are left out.
type vfFont struct {
	cff    bool
	glyphs [][]byte // glyf records
	ng     int
	long   bool
	adv    []uint16 // full metric records
	lsb    []int16
	tail   []int16 // side bearings without own advance
	cmap   []byte
	head   []byte
	hhea   []byte
	maxp   []byte
	hmtx   []byte
	loca   []byte
	glyf   []byte
	name   []byte
	post   []byte
	os2    []byte
	kern   []byte
	vhea   []byte
	vmtx   []byte
	cffT   []byte
	extra  []vfTab
}

var vfNone = []byte{}

func vfIsNone(b []byte) bool { return b != nil && len(b) == 0 }

func vfHead(long bool) []byte {
	b := vf32(nil, 0x00010000)
	b = vf32(b, 0x00018000) // revision
	b = vf32(b, 0)
	b = vf32(b, 0x5F0F3CF5)
	b = vf16(b, 0x000B)
	b = vf16(b, 1000)
	b = vf32(b, 0)
	b = vf32(b, 0xC0000000)
	b = vf32(b, 0)
	b = vf32(b, 0xD0000000)
	b = vf16(b, 0xFFF6)
	b = vf16(b, 0xFFEC)
	b = vf16(b, 500)
	b = vf16(b, 700)
	b = vf16(b, 0)
	b = vf16(b, 8)
	b = vf16(b, 2)
	if long {
		b = vf16(b, 1)
	} else {
		b = vf16(b, 0)
	}
	return vf16(b, 0)
}

func vfHhea(n int) []byte {
	return vf16s(1, 0, 800, 0xFF38, 90, 1000, 0, 0, 1000, 1, 0, 0, 0, 0, 0, 0, 0, uint16(n))
}

func vfMaxp(n int) []byte {
	return append(vf32(nil, 0x00010000), vf16s(uint16(n), 40, 5, 40, 5, 2, 0, 0, 0, 0, 0, 0, 3, 3)...)
}

func vfMaxpCFF(n int) []byte { return append(vf32(nil, 0x00005000), vf16s(uint16(n))...) }

func vfPost3() []byte {
	b := vf32(nil, 0x00030000)
	b = vf32(b, 0)
	b = vf16(b, 0xFF9C)
	b = vf16(b, 50)
	return append(b, make([]byte, 20)...)
}

// vfPost2 is a version 2 table with the given name indices and strings.
func vfPost2(idx []uint16, strs [][]byte) []byte {
	b := vfPost3()
	b[1] = 2
	b = vf16(b, uint16(len(idx)))
	for _, x := range idx {
		b = vf16(b, x)
	}
	for _, s := range strs {
		b = append(b, byte(len(s)))
		b = append(b, s...)
	}
	return b
}

func vfName() []byte {
	s := []byte{0, 'A', 0, 'b'}
	b := vf16s(0, 1, 18, 3, 1, 0x409, 1, 4, 0)
	return append(b, s...)
}

func vfOS2(version int) []byte {
	b := vf16s(uint16(version), 500, 400, 5, 0)
	b = append(b, vf16s(650, 700, 0, 140, 650, 700, 0, 480, 50, 260)...) // subscript .. strikeout
	b = vf16(b, 0)                                                       // family class
	b = append(b, 2, 0, 5, 3, 0, 0, 0, 0, 0, 0)                          // panose
	b = append(b, make([]byte, 16)...)                                   // unicode ranges
	b = append(b, "TEST"...)
	b = append(b, vf16s(0x40, 32, 126, 800, 0xFF38, 90, 850, 220)...)
	if version > 0 {
		b = append(b, 0, 0, 0, 1, 0, 0, 0, 0)
	}
	if version > 1 {
		b = append(b, vf16s(500, 700, 0, 32, 2)...)
	}
	if version > 4 {
		b = append(b, vf16s(0, 0xFFFF)...)
	}
	return b
}

func vfCmap(platform, encoding uint16, sub []byte) []byte {
	b := vf16s(0, 1, platform, encoding)
	b = vf32(b, 12)
	return append(b, sub...)
}

func vfCmap12(groups ...[3]uint32) []byte {
	b := vf16s(12, 0)
	b = vf32(b, uint32(16+12*len(groups)))
	b = vf32(b, 0)
	b = vf32(b, uint32(len(groups)))
	for _, g := range groups {
		b = vf32(b, g[0])
		b = vf32(b, g[1])
		b = vf32(b, g[2])
	}
	return b
}

type vfSeg struct{ start, end, delta, off uint16 }

func vfCmap4(segs []vfSeg, arr []uint16) []byte {
	n := len(segs)
	b := vf16s(4, uint16(16+8*n+2*len(arr)), 0, uint16(2*n), 0, 0, 0)
	for _, s := range segs {
		b = vf16(b, s.end)
	}
	b = vf16(b, 0)
	for _, s := range segs {
		b = vf16(b, s.start)
	}
	for _, s := range segs {
		b = vf16(b, s.delta)
	}
	for _, s := range segs {
		b = vf16(b, s.off)
	}
	for _, g := range arr {
		b = vf16(b, g)
	}
	return b
}

func vfCmap6(first uint16, arr []uint16) []byte {
	b := vf16s(6, uint16(10+2*len(arr)), 0, first, uint16(len(arr)))
	for _, g := range arr {
		b = vf16(b, g)
	}
	return b
}

// vfTriPts is a concrete simple glyph: a triangle displaced by k.
func vfTriPts(k int) []byte {
	b := vf16s(1, uint16(k), 0, uint16(k+100), 100, 2, 0)
	b = append(b, 0x01, 0x01, 0x01)
	b = vf16(b, uint16(k))
	b = vf16(b, 100)
	b = vf16(b, 0)
	b = vf16(b, 0)
	b = vf16(b, 0)
	b = vf16(b, 100)
	return b
}

// vfSimple encodes one contour per element of ends, with word deltas.
func vfSimple(ends []uint16, on []byte, xs, ys []int16, instr []byte, bbox [4]int16) []byte {
	b := vf16s(uint16(len(ends)), uint16(bbox[0]), uint16(bbox[1]), uint16(bbox[2]), uint16(bbox[3]))
	for _, e := range ends {
		b = vf16(b, e)
	}
	b = vf16(b, uint16(len(instr)))
	b = append(b, instr...)
	b = append(b, on...)
	px, py := int16(0), int16(0)
	for _, x := range xs {
		b = vf16(b, uint16(x-px))
		px = x
	}
	for _, y := range ys {
		b = vf16(b, uint16(y-py))
		py = y
	}
	return b
}

func (f *vfFont) bytes() []byte {
	ng := f.ng
	if ng == 0 {
		ng = len(f.glyphs)
	}
	if f.cmap == nil {
		f.cmap = vfCmap(3, 10, vfCmap12())
	}
	if f.head == nil {
		f.head = vfHead(f.long)
	}
	if f.adv == nil {
		for i := 0; i < ng-len(f.tail); i++ {
			f.adv = append(f.adv, uint16(500+10*i))
		}
	}
	if f.lsb == nil {
		for i := range f.adv {
			f.lsb = append(f.lsb, int16(7*i))
		}
	}
	if f.hhea == nil {
		f.hhea = vfHhea(len(f.adv))
	}
	if f.maxp == nil {
		if f.cff {
			f.maxp = vfMaxpCFF(ng)
		} else {
			f.maxp = vfMaxp(ng)
		}
	}
	if f.hmtx == nil {
		for i := range f.adv {
			f.hmtx = vf16(f.hmtx, f.adv[i])
			f.hmtx = vf16(f.hmtx, uint16(f.lsb[i]))
		}
		for _, x := range f.tail {
			f.hmtx = vf16(f.hmtx, uint16(x))
		}
	}
	if f.name == nil {
		f.name = vfName()
	}
	if f.post == nil {
		f.post = vfPost3()
	}
	if f.os2 == nil {
		f.os2 = vfOS2(4)
	}
	if !f.cff {
		if f.glyf == nil {
			for _, g := range f.glyphs {
				f.glyf = append(f.glyf, g...)
				for len(f.glyf)&3 != 0 {
					f.glyf = append(f.glyf, 0)
				}
			}
		}
		if f.loca == nil {
			off := 0
			for i := 0; i <= len(f.glyphs); i++ {
				if f.long {
					f.loca = vf32(f.loca, uint32(off))
				} else {
					f.loca = vf16(f.loca, uint16(off/2))
				}
				if i < len(f.glyphs) {
					off += (len(f.glyphs[i]) + 3) &^ 3
				}
			}
		}
	}
	all := []vfTab{{"CFF ", f.cffT}, {"OS/2", f.os2}, {"cmap", f.cmap}, {"glyf", f.glyf}, {"head", f.head}, {"hhea", f.hhea}, {"hmtx", f.hmtx}, {"kern", f.kern}, {"loca", f.loca}, {"maxp", f.maxp}, {"name", f.name}, {"post", f.post}, {"vhea", f.vhea}, {"vmtx", f.vmtx}}
	var tabs []vfTab
	for _, t := range all {
		if t.data == nil || vfIsNone(t.data) {
			continue
		}
		tabs = append(tabs, t)
	}
	tabs = append(tabs, f.extra...)
	v := uint32(0x00010000)
	if f.cff {
		v = 0x4F54544F
	}
	return vfSFNT(v, tabs)
}

// vfParse parses a font that the property assumes to be accepted.
func vfParse(b []byte) *SFNT {
	s, err := ParseSFNT(b, 0)
	vfAssert(err == nil, "well-formed font rejected")
	return s
}

// vfBox makes n glyph records with distinct concrete outlines (glyph 0 empty when e).
func vfTris(n int) [][]byte {
	var g [][]byte
	for i := 0; i < n; i++ {
		g = append(g, vfTriPts(10*i))
	}
	return g
}

// vfPath records the drawing commands.
type vfPath struct {
	op []int
	c  []float64
}

func (p *vfPath) MoveTo(x, y float64) { p.op = append(p.op, 1); p.c = append(p.c, x, y) }
func (p *vfPath) LineTo(x, y float64) { p.op = append(p.op, 2); p.c = append(p.c, x, y) }
func (p *vfPath) QuadTo(a, b, x, y float64) {
	p.op = append(p.op, 3)
	p.c = append(p.c, a, b, x, y)
}
func (p *vfPath) CubeTo(a, b, c, d, x, y float64) {
	p.op = append(p.op, 4)
	p.c = append(p.c, a, b, c, d, x, y)
}
func (p *vfPath) Close() { p.op = append(p.op, 5) }

func vfSamePath(a, b *vfPath) bool {
	if len(a.op) != len(b.op) || len(a.c) != len(b.c) {
		return false
	}
	for i := range a.op {
		if a.op[i] != b.op[i] {
			return false
		}
	}
	ok := true
	for i := range a.c {
		ok = ok && a.c[i] == b.c[i]
	}
	return ok
}

func vfObsPath(tag string, p *vfPath) {
	for _, o := range p.op {
		vfObs(tag+".op", int64(o))
	}
	for _, c := range p.c {
		vfObs(tag+".c", int64(c*256))
	}
}

func vfB2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func vf16s2(b []byte, v ...int16) []byte {
	for _, x := range v {
		b = vf16(b, uint16(x))
	}
	return b
}
