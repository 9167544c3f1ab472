package font

//vf:use kit.go tabs.go cffkit.go

func vfTry(b []byte, index int) {
	vfAllocMax(1 << 22)
	s, err := ParseSFNT(b, index)
	vfAssert((s == nil) == (err != nil), "both or neither of font and error returned")
	vfObs("ok", vfB2i(err == nil))
	s, err = ParseEmbeddedSFNT(b, index)
	vfAssert((s == nil) == (err != nil), "both or neither of font and error returned")
	vfObs("ok", vfB2i(err == nil))
}

func vfTry1(b []byte) {
	vfAllocMax(1 << 22)
	s, err := ParseSFNT(b, 0)
	vfAssert((s == nil) == (err != nil), "both or neither of font and error returned")
	vfObs("ok", vfB2i(err == nil))
}

// n arbitrary bytes as font, any index (WOFF, WOFF2 and EOT are covered by C03).
//
//vf:quick n=0..27
//vf:thorough n=0..34
func vhBytes() {
	b := vfBytes("b", vfParam("n"))
	if len(b) >= 4 {
		vfAssume(b[0] != 'w')
		if len(b) > 36 {
			vfAssume(b[34] != 0x4C || b[35] != 0x50)
		}
	}
	vfTry(b, vfInt("index", -2, 3))
}

// A valid font in which the record of one table (k, or an unknown table) has arbitrary offset and length, except that a
// range inside the file must start in its last 8 bytes.
//
//vf:quick k=0..10
//vf:opt paths=100000
func vhRecord() {
	b := (&vfFont{glyphs: vfTris(2), extra: []vfTab{{"zzzz", []byte{1, 2, 3, 4}}}}).bytes()
	b = b[:len(b)-vfConc(vfInt("cut", 0, 5))]
	p := 12 + 16*vfParam("k")
	o, n := vfU32("off"), vfU32("len")
	vfAssume(uint64(o)+8 >= uint64(len(b)) || uint64(o)+uint64(n) > uint64(len(b)))
	copy(b[p+8:], vf32(vf32(nil, o), n))
	vfTry(b, 0)
}

// A valid font with arbitrary number of tables.
//
//vf:quick
func vhCount() {
	b := (&vfFont{glyphs: vfTris(1)}).bytes()
	copy(b[4:6], vfBytes("num", 2))
	vfTry(b, 0)
}

// A font collection with arbitrary header of n bytes before the fonts, any index.
//
//vf:quick n=12,16,20 v=1
//vf:thorough n=12..28 v=1,2
func vhCollection() {
	b := append([]byte("ttcf"), vf16s(uint16(vfParam("v")), 0)...)
	b = append(b, vfBytes("h", vfParam("n")-8)...)
	f := (&vfFont{glyphs: vfTris(1)}).bytes()
	n := int(vfGet16(f, 4))
	for i := 0; i < n; i++ {
		p := 12 + 16*i + 8
		o := vfGet32(f, p) + uint32(len(b))
		copy(f[p:], vf32(nil, o))
	}
	b = append(b, f...)
	vfTry(b, vfConc(vfInt("index", -1, 3)))
}

// Fonts whose table t has n arbitrary bytes.
//
//vf:quick t=0 n=0,4,11,12,53,54,55
//vf:quick t=1 n=0,4,35,36,37
//vf:quick t=2 n=0,4,35,36,37
//vf:quick t=3 n=0..7
//vf:quick t=3 n=31..33
//vf:quick t=4 n=0..9
//vf:quick t=5 n=0..9
//vf:quick t=6 n=0..13
//vf:quick t=7 n=0,31,32,33,34,36,37,38,39,40,41,42
//vf:quick t=8 n=0,67,68,69,77,78,79,85,86,87,95,96,97,99,100,101
//vf:quick t=9 n=0..24
//vf:quick t=10 n=0..28
//vf:quick t=11 n=0..9
//vf:thorough t=6 n=0..19
//vf:thorough t=7 n=31..52
//vf:thorough t=9 n=0..44
//vf:thorough t=10 n=0..48
//vf:opt paths=200000
func vhTable() {
	vfTry1(vfTabFont(vfParam("t"), vfBytes("raw", vfParam("n"))).bytes())
}

// A cmap subtable of the given format with n arbitrary bytes after the format.
//
//vf:quick f=0 n=254,260,261
//vf:quick f=4 n=6..40
//vf:quick f=6 n=6..16
//vf:quick f=12 n=6..40
//vf:quick f=14 n=6..12
//vf:quick f=2 n=6..8
//vf:quick f=8 n=6..8
//vf:opt paths=200000
func vhCmapSub() {
	raw := vfBytes("raw", vfParam("n"))
	for i := 8; i < 240 && i+8 < len(raw) && vfParam("f") == 0; i++ {
		raw[i] = 0
	}
	f := vfTabFont(10, vfCmapSub(uint16(vfParam("f")), raw))
	vfTry1(f.bytes())
}

// Any number of glyphs and metric records; metric tables of n bytes.
//
//vf:quick n=0..12/2 m=0..12/2
func vhCounts() {
	f := vfTabFont(5, vfBytes("vmtx", vfParam("m")))
	f.hmtx = vfBytes("hmtx", vfParam("n"))
	f.glyphs = vfTris(4)
	f.hhea = vfHhea(0)
	copy(f.hhea[34:], vfBytes("nh", 2))
	copy(f.vhea[34:], vfBytes("nv", 2))
	f.maxp = vfMaxp(0)
	copy(f.maxp[4:], vfBytes("ng", 2))
	vfTry1(f.bytes())
}

// A name table of the given version with c records and l language tags, arbitrary offset of the strings (16-bit, not before
// the end of the records unless out of the table) and d bytes of strings.
//
//vf:quick v=0,1 c=0..2 l=0..1 d=0,2
//vf:thorough v=0,1 c=0..2 l=0..2 d=0..4
//vf:opt paths=200000
func vhName() {
	v, c, l, d := vfParam("v"), vfParam("c"), vfParam("l"), vfParam("d")
	off := vfU16("off")
	b := vf16s(uint16(v), uint16(c))
	b = vf16(b, off)
	b = append(b, vfBytes("rec", 12*c)...)
	if v == 1 || l > 0 {
		b = append(b, vfBytes("nlang", 2)...)
		b = append(b, vfBytes("lang", 4*l)...)
	}
	n := len(b)
	b = append(b, make([]byte, d)...)
	vfAssume(int(off) == n || int(off) > len(b))
	vfTry1(vfTabFont(6, b).bytes())
}

// A name table longer than 65535 bytes.
//
//vf:quick pad=65500,65520,65540
//vf:opt steps=4e8
func vhNameLong() {
	b := vf16s(0, 1, 18, 3, 1, 0x409, 1)
	l, o := vfU16("l"), vfU16("o")
	vfAssume(l >= 65530 || o >= 65530)
	b = vf16(vf16(b, l), o)
	b = append(b, make([]byte, vfParam("pad"))...)
	vfTry1(vfTabFont(6, b).bytes())
}

func vfTryCFF(c *vfCFF) {
	f := vfCFFFont(c)
	vfTry1(f.bytes())
}

// A CFF table of a header and n arbitrary bytes; also as the only data of an embedded font.
//
//vf:quick n=0..12
//vf:thorough n=0..18
//vf:opt paths=200000
func vhCFFBytes() {
	n := vfParam("n")
	var b []byte
	if n < 4 {
		b = vfBytes("b", n)
	} else {
		b = append([]byte{1, 0, 4, 1}, vfBytes("b", n-4)...)
	}
	f := &vfFont{cff: true, ng: 1, cffT: b, head: vfNone, hhea: vfNone, hmtx: vfNone, maxp: vfNone, name: vfNone, post: vfNone, os2: vfNone}
	if n == 0 {
		f.extra = []vfTab{{"CFF ", nil}}
	}
	fb := f.bytes()
	s, err := ParseEmbeddedSFNT(fb, 0)
	vfAssert((s == nil) == (err != nil), "both or neither of font and error returned")
	vfObs("ok", vfB2i(err == nil))
}

// n arbitrary bytes in the Top DICT, at its beginning or end.
//
//vf:quick n=0..2 end=0..1
//vf:thorough n=0..3 end=0..1
//vf:opt paths=200000
func vhCFFTop() {
	c := &vfCFF{chars: vfCFFTris(2), strs: [][]byte{{'x'}}}
	raw := vfBytes("raw", vfParam("n"))
	if vfParam("end") == 1 {
		c.topEnd = raw
	} else {
		c.top = raw
	}
	vfTryCFF(c)
}

// A number of operands (real numbers of n arbitrary bytes, or the longest integer form with arbitrary value) and an arbitrary
// operator (or operator o, with or without escape) in the Top DICT (d=0) or Private DICT (d=1).
//
//vf:quick d=0..1 k=0,1,2,6 n=0 o=0
//vf:quick d=0..1 k=0..1 n=1 o=17,18,2
//vf:thorough d=0..1 k=0..8 n=0 o=0
//vf:thorough d=0..1 k=0..2 n=1..2 o=17,18,2,6,15
//vf:opt paths=200000
func vhCFFOps() {
	c := &vfCFF{chars: vfCFFTris(2), strs: [][]byte{{'x'}}}
	var b []byte
	for i := 0; i < vfParam("k"); i++ {
		v := vfI32("v")
		vfAssume(v < 2 || v > 388) // in between, see vhCFFOffsets
		b = vf32(append(b, 29), uint32(v))
	}
	if n := vfParam("n"); n > 0 {
		b = append(append(b, 30), vfBytes("real", n)...)
	}
	op := vfU8("op")
	if o := vfParam("o"); o != 0 {
		op = uint8(o)
	}
	if vfBool("esc") {
		b = append(b, 12)
	}
	b = append(b, op)
	if vfParam("d") == 1 {
		c.priv = b
	} else {
		c.topEnd = b
	}
	vfTryCFF(c)
}

// An arbitrary operand for each operator that takes an offset or a length.
//
//vf:quick op=0..7
//vf:opt paths=200000
func vhCFFOffsets() {
	c := &vfCFF{chars: vfCFFTris(1), lsubrs: [][]byte{{11}}}
	o := vf32([]byte{29}, uint32(vfI32("v")))
	switch vfParam("op") {
	case 0:
		c.topEnd = append(o, 15)
	case 1:
		c.topEnd = append(o, 17)
	case 2:
		c.topEnd = vfCat(o, vfOp5(20), []byte{18})
	case 3:
		c.topEnd = vfCat(vfOp5(7), o, []byte{18})
	case 4:
		c.priv = append(o, 19)
		c.lsubrs = nil
	case 5:
		c.fds = []vfFD{{}}
		c.fdsel = []byte{0, 0}
		c.topEnd = append(o, 12, 36)
	case 6:
		c.fds = []vfFD{{}}
		c.fdsel = []byte{0, 0}
		c.topEnd = append(o, 12, 37)
	case 7:
		c.topEnd = append(o, 12, 6)
	}
	vfTryCFF(c)
}

// n arbitrary bytes in place of an INDEX or structure: 0 CharStrings, 1 charset, 2 local subroutines, 3 font DICT array,
// 4 FDSelect, 5 font DICT.
//
//vf:quick w=0,2,3 n=0..7
//vf:quick w=1 n=0..5 g=1..2
//vf:quick w=1 n=0..4 g=3
//vf:quick w=4 n=0..8 g=1..3
//vf:quick w=5 n=0..2
//vf:thorough w=0,2,3 n=0..11
//vf:thorough w=1 n=0..10 g=1..2
//vf:thorough w=1 n=0..5 g=3
//vf:thorough w=4 n=0..12 g=1..3
//vf:thorough w=5 n=0..3
//vf:opt paths=200000
func vhCFFPart() {
	w, raw := vfParam("w"), vfBytes("raw", vfParam("n"))
	g := 2
	if w == 1 || w == 4 {
		g = vfParam("g")
	}
	c := &vfCFF{chars: vfCFFTris(g)}
	c.raw = raw
	switch w {
	case 0:
		c.rawAt([]byte{17})
	case 1:
		c.rawAt([]byte{15})
	case 2:
		c.priv = append(vfOp5(6), 19) // directly after the Private DICT
	case 3, 4, 5:
		c.fds = []vfFD{{}}
		c.fdsel = make([]byte, g+1)
		if w == 3 {
			c.rawAt([]byte{12, 36})
		} else if w == 4 {
			c.rawAt([]byte{12, 37})
		} else {
			c.raw = vfIndex([][]byte{raw}, 1)
			c.rawAt([]byte{12, 36})
		}
	}
	vfTryCFF(c)
}

// A charset of format 1 or 2 with r ranges of arbitrary length (of names that are not in the font), cut by c bytes.
//
//vf:quick f=1,2 r=1..3 g=2..5 c=0..4
//vf:thorough f=1,2 r=1..4 g=2..8 c=0..5
func vhCFFRanges() {
	f := vfParam("f")
	b := []byte{byte(f)}
	for i := 0; i < vfParam("r"); i++ {
		b = append(b, 2, vfU8("first"))
		b = append(b, vfBytes("left", f)...)
	}
	if c := vfParam("c"); c < len(b) {
		b = b[:len(b)-c]
	}
	c := &vfCFF{chars: vfCFFTris(vfParam("g"))}
	c.raw = b
	c.rawAt([]byte{15})
	vfTryCFF(c)
}

// A font with an OS/2 table of version 0 or 1, for which the heights of x and H are measured; x has n arbitrary bytes as
// outline; with or without character map.
//
//vf:quick v=0,1 n=0..3 cff=0,1 m=0,1
//vf:thorough v=0,1 n=0..5 cff=0,1 m=0,1
//vf:opt paths=200000
func vhHeights() {
	f := &vfFont{}
	raw := vfBytes("raw", vfParam("n"))
	if vfParam("cff") == 1 {
		f = vfCFFFont(&vfCFF{chars: [][]byte{vfCFFTri(0), raw, vfCFFTri(20)}})
	} else {
		f.glyphs = [][]byte{vfTriPts(0), append(vf16s(uint16(vfConc(vfInt("contours", 0, 3))-1), 0, 0, 10, 10), raw...), vfTriPts(20)}
		vfAssume(len(raw) < 2 || raw[0] == 0 && raw[1] < 4)
	}
	f.os2 = vfOS2(vfParam("v"))
	f.cmap = vfCmap(3, 10, vfCmap12([3]uint32{'H', 'H', 2}, [3]uint32{'x', 'x', 1}))
	if vfParam("m") == 0 {
		f.cmap = vfNone
	}
	vfTry(f.bytes(), 0)
}
