package font

//vf:use kit.go woffkit.go

func vfUnpacked(b []byte, err error) {
	vfAssert(b == nil || err == nil, "both data and an error returned")
	vfObs("ok", vfB2i(err == nil), int64(len(b)))
	if err == nil {
		vfReach("ok")
	} else {
		vfReach("err")
	}
}

func vfUnpackAll(b []byte) {
	vfAllocMax(1 << 25)
	r, err := ToSFNT(b)
	vfUnpacked(r, err)
}

// n arbitrary bytes given to each of the unpackers.
//
//vf:quick n=0..4 k=0..2
//vf:quick n=43..49 k=0..2
//vf:quick n=64,65 k=1
//vf:thorough n=5..42/3 k=0..2
//vf:thorough n=50 k=2
//vf:thorough n=51..76 k=1
func vhBytes() {
	b := vfBytes("b", vfParam("n"))
	vfAllocMax(1 << 25)
	switch vfParam("k") {
	case 0:
		r, err := ParseEOT(b)
		vfUnpacked(r, err)
	case 1:
		r, err := ParseWOFF(b)
		vfUnpacked(r, err)
	case 2:
		r, err := ParseWOFF2(b)
		vfUnpacked(r, err)
	}
}

// EOT files of n arbitrary bytes.
//
//vf:quick n=80..90
//vf:thorough n=91..96
//vf:opt paths=100000
func vhEOTBytes() {
	r, err := ParseEOT(vfBytes("b", vfParam("n")))
	vfUnpacked(r, err)
}

// EOT files of each version with arbitrary flags, string sizes and contents and font data size.
//
//vf:quick v=0..2 n=0..8/2
//vf:thorough v=0..2 n=1..13/2
//vf:opt reach=ok,err paths=100000
func vhEOTStrings() {
	ver := [3]uint32{0x00010000, 0x00020001, 0x00020002}[vfParam("v")]
	ns := 4
	if vfParam("v") > 0 {
		ns = 5
	}
	b := vfEOT(ver, vfU32("flags"), make([][]byte, ns), nil, nil, nil)
	copy(b[4:8], vfBytes("size", 4))
	b = append(b, vfBytes("tail", vfParam("n"))...)
	// one of the last two strings and the structures behind it have arbitrary sizes
	p := 80 + 4*vfConc(vfInt("str", ns-2, ns-1))
	copy(b[p:], vfBytes("strs", len(b)-p))
	r, err := ParseEOT(b)
	vfUnpacked(r, err)
}

// A WOFF file with one or two tables whose directory records are arbitrary (k: which record) or whose stored data is
// arbitrary bytes.
//
//vf:quick k=0..3
//vf:opt reach=ok,err paths=100000
func vhWOFFRecord() {
	head := vfHead(false)
	copy(head[8:12], make([]byte, 4))
	z := vfStored("zzzz", vfBytes("z", 3))
	tabs := []vfWOFFTab{vfPacked("head", head), z}
	b := vfWOFF(0x00010000, tabs, nil)
	k := vfParam("k")
	p := 44 + 20*(k&1)
	if k < 2 {
		// offset and length; the checksum is right
		copy(b[p+4:], vfBytes("rec", 8))
	} else {
		copy(b[p+12:], vfBytes("rec", 8))
		copy(b[16:20], vfBytes("total", 4))
	}
	r, err := ParseWOFF(b)
	vfUnpacked(r, err)
}

// WOFF files with two tables of decompressed lengths with arbitrary upper halves, and any total: no more than MaxMemory is allocated.
//
//vf:quick
//vf:opt reach=ok,err
func vhWOFFMemory() {
	head := vfHead(false)
	copy(head[8:12], make([]byte, 4))
	tabs := []vfWOFFTab{vfPacked("aaaa", make([]byte, 40)), vfStored("head", head), vfPacked("zzzz", make([]byte, 30))}
	b := vfWOFF(0x00010000, tabs, nil)
	copy(b[44+12:], vfBytes("l1", 2))
	copy(b[84+12:], vfBytes("l2", 2))
	copy(b[16:20], vfBytes("total", 3))
	vfAllocMax(1 << 26)
	r, err := ParseWOFF(b)
	vfUnpacked(r, err)
}

// WOFF files with n tables without contents.
//
//vf:quick n=32767..32769
//vf:quick n=65535
//vf:opt reach=err steps=4e8
func vhWOFFMany() {
	n := vfParam("n")
	b := vfWOFF(vfU32("flavor"), nil, nil)
	b = append(b, make([]byte, 20*n+1)...)
	copy(b[8:], vf32(nil, uint32(len(b))))
	vfPut16(b, 12, uint16(n))
	copy(b[16:], vf32(nil, uint32(12+16*n)))
	r, err := ParseWOFF(b)
	vfUnpacked(r, err)
}

// A WOFF2 file with two table records of arbitrary bytes (up to n bytes, the low bits of the flags chosen by k) in front of
// two bytes of data.
//
//vf:quick k=0..8 n=1,3
//vf:thorough k=0..8 n=2,4,5,6
//vf:opt reach=err paths=200000
func vhW2Records() {
	n := vfParam("n")
	k := [9][2]byte{{10, 11}, {10, 10}, {11, 10}, {3, 1}, {63, 1}, {1, 1}, {10, 3}, {0, 63}, {63, 63}}[vfParam("k")]
	dir := vfBytes("dir", n)
	vfAssume(dir[0]&0x3F == k[0])
	if n > 2 {
		// the second record begins after a length of one byte when it has one
		dir = append([]byte{dir[0], 1}, dir[1:]...)
		vfAssume(dir[2]&0x3F == k[1])
		if k[0] == 63 {
			dir = append([]byte{dir[0], 'z', 'z', 'z', 'z'}, dir[1:]...)
		}
	}
	num := 1
	if n > 2 {
		num = 2
	}
	comp := vfBrotli(make([]byte, 2))
	b := vfW2File(0x00010000, num, dir, comp, 0)
	vfUnpackAll(b)
}

// A WOFF2 file with arbitrary header fields.
//
//vf:quick
//vf:opt reach=ok,err
func vhW2Header() {
	head := vfHead(false)
	head[16] |= 8
	b := vfW2(0x00010000, []vfW2Tab{vfW2Plain("head", head), vfW2Plain("zzzz", []byte{1, 2, 3})})
	copy(b[8:], vfBytes("hdr", 40))
	r, err := ParseWOFF2(b)
	vfUnpacked(r, err)
}

// A WOFF2 file whose head table has n arbitrary bytes.
//
//vf:quick n=1..20 n2=0,1
//vf:opt reach=err
func vhW2Head() {
	tabs := []vfW2Tab{vfW2Plain("head", vfBytes("head", vfParam("n")))}
	if vfParam("n2") > 0 {
		tabs = append(tabs, vfW2Plain("DSIG", vfBytes("dsig", 1)))
	}
	vfUnpackAll(vfW2(0x00010000, tabs))
}

func vfTryGlyf(ng, long int, g []byte) {
	vfUnpackAll(vfW2Font(ng, long, g, vfW2Hmtx(ng), nil, nil, nil))
}

// A transformed glyf table of n arbitrary bytes.
//
//vf:quick n=1..38 ng=0
//vf:quick n=36,38,39,40 ng=1
//vf:thorough n=41..44 ng=1
//vf:opt paths=200000
func vhGlyfBytes() {
	vfTryGlyf(vfParam("ng"), 0, vfBytes("g", vfParam("n")))
}

// A transformed glyf table of one glyph with arbitrary stream sizes (one of them given by k) over n bytes of streams.
//
//vf:quick k=0..8 n=6,14
func vhGlyfSizes() {
	k, n := vfParam("k"), vfParam("n")
	g := &vfW2Glyf{ng: 1, nContours: vf16s(0)}
	b := append(g.bytes(), vfBytes("rest", n-6)...)
	if k < 7 {
		copy(b[8+4*k:], vfBytes("size", 4))
	} else if k == 7 {
		copy(b[2:8], vfBytes("hdr", 6))
	} else {
		copy(b[4:6], vfBytes("ng", 2))
		copy(b[8:12], vfBytes("size", 4))
	}
	vfTryGlyf(1, 0, b)
}

// A glyph with nc contours over np bytes of point counts, nf flags, ng bytes of coordinates, ni bytes of instructions and
// nb bytes of bounding boxes, all arbitrary, with or without bounding box and overlap bit.
//
//vf:quick nc=1 np=0..3 nf=0..2 ng=0..2 nb=0 ni=0
//vf:thorough nc=1 np=0..3 nf=0..2 ng=3,4 nb=0 ni=0
//vf:quick nc=1 np=1 nf=1 ng=1..6 nb=0,7,8 ni=0,2
//vf:quick nc=2 np=2 nf=2 ng=4 nb=0,8 ni=1
//vf:thorough nc=2 np=4 nf=2 ng=4 nb=0,8 ni=1
//vf:quick nc=3 np=4 nf=1 ng=2 nb=0 ni=1
//vf:quick nc=32767 np=4 nf=2 ng=4 nb=0 ni=1
//vf:thorough nc=1 np=1,3 nf=3 ng=9 nb=0,8 ni=3
//vf:thorough nc=2 np=3 nf=4 ng=8 nb=0,8 ni=3
//vf:opt reach=err paths=400000
func vhGlyfSimple() {
	g := &vfW2Glyf{ng: 2, opt: vfConc(vfInt("opt", 0, 1)), nContours: vf16s(0, uint16(vfParam("nc"))), nPoints: vfBytes("np", vfParam("np")), flags: vfBytes("f", vfParam("nf")), glyphs: vfBytes("g", vfParam("ng")), instr: vfBytes("i", vfParam("ni")), boxes: vfBytes("b", vfParam("nb")), bits: vfBytes("bits", 4)}
	g.over = vfBytes("over", vfConc(vfInt("nover", 0, 1)))
	vfTryGlyf(2, vfConc(vfInt("long", 0, 1)), g.bytes())
}

// A composite glyph over n bytes of components.
//
//vf:quick n=0..17 nb=8 ng=1 ni=1
//vf:quick n=4..8 nb=6..8 ng=0..3 ni=0
//vf:thorough n=18..30 nb=8 ng=1 ni=1
//vf:opt reach=ok,err paths=400000
func vhGlyfComposite() {
	g := &vfW2Glyf{ng: 1, nContours: vfBytes("nc", 2), comps: vfBytes("c", vfParam("n")), glyphs: vfBytes("g", vfParam("ng")), instr: vfBytes("i", vfParam("ni")), boxes: vfBytes("b", vfParam("nb")), bits: vfBytes("bits", 4)}
	vfAssume(g.nContours[0] >= 0x80)
	vfTryGlyf(1, 0, g.bytes())
}

// A transformed metrics table of n arbitrary bytes with k full records of ng glyphs; the glyf table is transformed.
//
//vf:quick n=1..9 ng=2 k=0..3
//vf:opt reach=err
func vhHmtx() {
	ng := vfParam("ng")
	g := &vfW2Glyf{ng: ng, nContours: make([]byte, 2*ng)}
	h := vfBytes("h", vfParam("n"))
	vfUnpackAll(vfW2Font(ng, 0, g.bytes(), vfW2Tab{"hmtx", h, 1, true, 8}, nil, vfHhea(vfParam("k")), nil))
}

// A transformed metrics table next to head, hhea and maxp tables of the given arbitrary lengths and untransformed glyf and
// loca tables of arbitrary bytes.
//
//vf:quick nh=50..53 ne=36 nm=6 ng=12 nl=6
//vf:quick nh=54 ne=33..37 nm=6 ng=12 nl=6
//vf:quick nh=54 ne=36 nm=0..7 ng=12 nl=6
//vf:quick nh=54 ne=36 nm=6 ng=0..13/3 nl=6
//vf:quick nh=54 ne=36 nm=6 ng=12 nl=0..9/3
//vf:quick nh=54 ne=36 nm=6 ng=4 nl=8
//vf:thorough nh=54 ne=36 nm=6 ng=12 nl=12
//vf:opt reach=err
func vhHmtxPlain() {
	head := vfHead(false)
	copy(head[50:], vfBytes("fmt", 2))
	for len(head) < vfParam("nh") {
		head = append(head, 0)
	}
	head = head[:vfParam("nh")]
	head[16] |= 8
	hhea := make([]byte, vfParam("ne"))
	for i := 30; i < len(hhea); i++ {
		hhea[i] = vfU8("hhea" + string(rune(97+i)))
	}
	maxp := make([]byte, vfParam("nm"))
	for i := 4; i < len(maxp); i++ {
		maxp[i] = vfU8("maxp" + string(rune(97+i)))
	}
	glyf, loca := vfBytes("glyf", vfParam("ng")), vfBytes("loca", vfParam("nl"))
	h := vfBytes("h", 5)
	vfUnpackAll(vfW2(0x00010000, []vfW2Tab{{"glyf", glyf, 3, false, uint32(len(glyf))}, vfW2Plain("head", head), vfW2Plain("hhea", hhea), {"hmtx", h, 1, true, 8}, {"loca", loca, 3, false, uint32(len(loca))}, vfW2Plain("maxp", maxp)}))
}
