package font

//vf:use kit.go woffkit.go cffkit.go

func vfSameBytes(a, b []byte, what string) {
	vfAssert(len(a) == len(b), what)
	for i := range a {
		vfAssert(a[i] == b[i], what)
	}
}

// vfTwice unpacks twice: the input stays as it was and both results are equal. The input has spare room behind it that
// must stay untouched as well.
func vfTwice(b []byte, f func([]byte) ([]byte, error)) {
	room := make([]byte, len(b)+16)
	copy(room, b)
	for i := len(b); i < len(room); i++ {
		room[i] = 0x5C
	}
	in := room[:len(b)]
	r1, err1 := f(in)
	vfSameBytes(in, b, "the input was modified")
	for i := len(b); i < len(room); i++ {
		vfAssert(room[i] == 0x5C, "bytes behind the input were modified")
	}
	first := append([]byte(nil), r1...)
	r2, err2 := f(in)
	vfSameBytes(in, b, "the input was modified by the second call")
	vfAssert((err1 == nil) == (err2 == nil), "second call differs in success")
	vfSameBytes(r2, first, "second call gives other data")
	vfSameBytes(r1, first, "second call changed the result of the first")
	if err1 == nil {
		vfReach("ok")
	} else {
		vfReach("err")
	}
	vfObs("n", int64(len(r1)), vfB2i(err1 == nil))
}

// EOT files of each version with arbitrary flags, strings and n bytes of font data.
//
//vf:quick v=0..2 n=1,3,8
//vf:thorough v=0..2 n=40
//vf:opt reach=ok,err
func vhEOT() {
	ver := [3]uint32{0x00010000, 0x00020001, 0x00020002}[vfParam("v")]
	strs := [][]byte{vfBytes("family", 2), nil, vfBytes("version", 1), vfBytes("full", 3)}
	if vfParam("v") > 0 {
		strs = append(strs, vfBytes("root", 2))
	}
	b := vfEOT(ver, vfU32("flags"), strs, vfBytes("sig", 2), vfBytes("eudc", 3), vfBytes("data", vfParam("n")))
	vfTwice(b, ParseEOT)
	vfTwice(b, ToSFNT)
}

// A sequence of two different EOT files that share one buffer.
//
//vf:quick
//vf:opt reach=ok
func vhEOTShared() {
	a := vfEOT(0x00010000, 0x10000000, make([][]byte, 4), nil, nil, vfBytes("a", 5))
	b := vfEOT(0x00010000, vfU32("flags"), make([][]byte, 4), nil, nil, vfBytes("b", 5))
	buf := append(append([]byte(nil), a...), b...)
	_, _ = ParseEOT(buf[:len(a)])
	_, err := ParseEOT(buf[len(a):])
	if err == nil {
		vfReach("ok")
	}
	vfSameBytes(buf[:len(a)], a, "the first file was modified")
	vfSameBytes(buf[len(a):], b, "the second file was modified")
}

// A WOFF file with a stored or compressed head table of arbitrary content (n bytes) and a stored or compressed table of m
// bytes; checksums are right or arbitrary.
//
//vf:quick n=54 m=0..5 good=1
//vf:quick n=9,11,12,13,53,55 m=1 good=1
//vf:quick n=54 m=3 good=0
//vf:thorough n=54 m=6..20 good=1
//vf:opt reach=ok,err
func vhWOFF() {
	m := vfParam("m")
	head, z := vfBytes("head", vfParam("n")), vfBytes("z", m)
	packed := vfConc(vfInt("packed", 0, 1)) == 1
	zero := append([]byte(nil), head...)
	for i := 8; i < 12 && i < len(zero); i++ {
		zero[i] = 0
	}
	var tabs []vfWOFFTab
	if packed {
		tabs = []vfWOFFTab{vfPacked("head", head), vfStored("zzzz", z)}
	} else {
		tabs = []vfWOFFTab{vfStored("head", head), vfStored("zzzz", z)}
	}
	tabs[0].sum = vfSum(zero)
	if vfParam("good") == 0 {
		tabs[0].sum, tabs[1].sum = vfU32("sum0"), vfU32("sum1")
	}
	b := vfWOFF(0x00010000, tabs, []byte{1, 2, 3})
	vfTwice(b, ParseWOFF)
	vfTwice(b, ToSFNT)
}

// A WOFF2 file with arbitrary head table and arbitrary glyph data.
//
//vf:quick
//vf:opt reach=ok,err
func vhWOFF2() {
	head := vfHead(false)
	copy(head[4:20], vfBytes("head", 16))
	g := &vfW2Glyf{ng: 2, opt: 1, nContours: vf16s(0, 1), nPoints: []byte{1}, flags: vfBytes("f", 1), glyphs: append(vfBytes("g", 2), 0), over: vfBytes("o", 1)}
	b := vfW2Font(2, 0, g.bytes(), vfW2Tab{"hmtx", vfBytes("h", 5), 1, true, 8}, head, nil, nil)
	vfTwice(b, ParseWOFF2)
	vfTwice(b, ToSFNT)
}

// n arbitrary bytes given to every entry point.
//
//vf:quick n=0..5
//vf:quick n=36..38
//vf:opt reach=err
func vhAny() {
	b := vfBytes("b", vfParam("n"))
	vfTwice(b, ToSFNT)
	vfTwice(b, func(b []byte) ([]byte, error) {
		s, err := MediaType(b)
		return []byte(s), err
	})
	vfTwice(b, func(b []byte) ([]byte, error) { return []byte(Extension(b)), nil })
}

// A TrueType or CFF font parsed as a whole and embedded, with arbitrary bytes in table k (up to 16 bytes from position p).
//
//vf:quick k=0..11 p=0,16
//vf:quick k=12 p=0..42/2
//vf:opt reach=ok
func vhParse() {
	k := vfParam("k")
	f := &vfFont{glyphs: vfTris(2), kern: vfKernBytes(), vhea: vf16s(1, 0, 1, 2, 3, 1000, 0, 0, 1000, 1, 0, 0, 0, 0, 0, 0, 0, 2), vmtx: vf16s(1000, 5, 900, 7), post: vfPost2([]uint16{0, 258}, [][]byte{{'q', 'r'}})}
	if k == 12 {
		f = vfCFFFont(&vfCFF{chars: vfCFFTris(2)})
	}
	b := f.bytes()
	i := 12 + 16*k
	if k == 12 {
		i = 12
	}
	off, n := int(vfGet32(b, i+8)), int(vfGet32(b, i+12))
	off += vfParam("p")
	if n -= vfParam("p"); n > 0 {
		if lim := [13]int{16, 16, 16, 16, 16, 16, 16, 8, 16, 8, 16, 16, 2}[k]; n > lim {
			n = lim
		}
		copy(b[off:], vfBytes("t", n))
	}
	orig := append([]byte(nil), b...)
	for _, emb := range []bool{false, true} {
		var s *SFNT
		var err error
		if emb {
			s, err = ParseEmbeddedSFNT(b, 0)
		} else {
			s, err = ParseSFNT(b, 0)
		}
		vfSameBytes(b, orig, "parsing modified the input")
		if err == nil {
			vfReach("ok")
			vfObs("n", int64(s.NumGlyphs()), int64(s.UnitsPerEm()))
		}
	}
}

func vfKernBytes() []byte { return vf16s(0, 1, 0, 20, 1, 1, 6, 0, 0, 0, 1, 50) }
