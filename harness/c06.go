package font

//vf:use kit.go cmapref.go

// checks the inverse for an arbitrary glyph and an arbitrary rune
func vfCheckInverse(s *SFNT, twice bool) {
	g := vfU16("glyph")
	r := vfI32("rune")
	first := -1
	if twice {
		first = len(s.GlyphToUnicode(g))
	}
	rs := s.GlyphToUnicode(g)
	if twice {
		vfAssert(first == len(rs), "second query lists a different number of runes")
	}
	found := false
	for i, x := range rs {
		vfAssert(s.GlyphIndex(x) == g, "a listed rune maps to another glyph")
		found = found || x == r
		for j := 0; j < i && len(rs) < 9; j++ {
			vfAssert(rs[j] != x, "rune listed twice")
		}
	}
	vfObs("n", int64(len(rs)))
	if g != 0 && s.GlyphIndex(r) == g {
		vfReach("mapped")
		vfAssert(found, "a mapped rune is not listed for its glyph")
	}
	if len(rs) > 1 {
		vfReach("several")
	}
	if len(rs) == 0 {
		vfReach("none")
	}
}

// Format 4: n segments with arbitrary codes of width at most w, arbitrary deltas, range offsets and m array entries.
//
//vf:quick n=1 w=2 m=0..2 twice=1
//vf:quick n=2 w=1 m=0..1 twice=0
//vf:thorough n=1..2 w=2 m=0..3 twice=1
//vf:opt reach=mapped,several,none
func vhInverse4() {
	n, m, w := vfParam("n"), vfParam("m"), vfParam("w")
	var segs []vfSeg
	for i := 0; i < n; i++ {
		g := vfSeg{vfU16("start"), vfU16("end"), vfU16("delta"), vfU16("off")}
		vfAssume(g.start <= g.end && g.end-g.start <= uint16(w))
		segs = append(segs, g)
	}
	segs = append(segs, vfSeg{0xFFFF, 0xFFFF, 1, 0})
	var arr []uint16
	for i := 0; i < m; i++ {
		arr = append(arr, vfU16("gid"))
	}
	s := vfCmapFont(vfCmap4(segs, arr))
	vfAssume(s != nil)
	vfCheckInverse(s, vfParam("twice") == 1)
}

// Format 0: k arbitrary entries (spread over the array), the others fixed.
//
//vf:quick k=3
//vf:thorough k=4
//vf:opt reach=mapped,several,none ite=300
func vhInverse0() {
	a := make([]byte, 256)
	a[32], a[33], a[65], a[255] = 1, 2, 1, 3
	for i := 0; i < vfParam("k"); i++ {
		a[[]int{0, 66, 200, 255}[i]] = vfU8("gid")
	}
	s := vfCmapFont(append(vf16s(0, 262, 0), a...))
	vfAssert(s != nil, "well-formed format 0 subtable rejected")
	vfCheckInverse(s, false)
}

// Format 6: n arbitrary entries from an arbitrary first code.
//
//vf:quick n=0..3
//vf:thorough n=0..5
//vf:opt reach=mapped,several,none
func vhInverse6() {
	var arr []uint16
	for i := 0; i < vfParam("n"); i++ {
		g := vfU16("gid")
		vfAssume(g < vfNG)
		arr = append(arr, g)
	}
	s := vfCmapFont(vfCmap6(vfU16("first"), arr))
	vfAssert(s != nil, "well-formed format 6 subtable rejected")
	vfCheckInverse(s, true)
}

// Format 12: n groups of width at most w with arbitrary 32-bit fields.
//
//vf:quick n=0..1 w=3
//vf:quick n=2 w=1
//vf:thorough n=2 w=2
//vf:thorough n=3 w=1
//vf:opt reach=mapped,several,none
func vhInverse12() {
	n := vfParam("n")
	var gs [][3]uint32
	for i := 0; i < n; i++ {
		g := [3]uint32{vfU32("start"), vfU32("end"), vfU32("gid")}
		vfAssume(g[0] <= g[1] && g[1]-g[0] <= uint32(vfParam("w")))
		gs = append(gs, g)
	}
	s := vfCmapFont(vfCmap12(gs...))
	vfAssume(s != nil)
	vfCheckInverse(s, false)
}

// Large subtables of format f with n segments or entries: the runes of an arbitrary glyph around that of segment p (or entry p).
//
//vf:quick f=4 n=300 p=0,127,128,255,256,299
//vf:quick f=4 n=4000 p=1023,2047,3999
//vf:quick f=6 n=30000 p=0,255,256,3276,26213,29998
//vf:quick f=12 n=300 p=0,127,128,255,256,299
//vf:quick f=12 n=7000 p=3275,6552,6999
//vf:opt reach=mapped steps=4e8
func vhMany() {
	f, n, p := vfParam("f"), vfParam("n"), vfParam("p")
	sub, gid := vfManyCmap(f, n)
	s := vfManyFont(sub)
	g := 20000 + 3*p - 3
	lo, hi := 10*p-20, 10*p+30
	if f == 6 {
		g = 50000 - p - 3
		lo, hi = 300+p-5, 300+p+5
	}
	g = vfConc(g + vfInt("k", 0, 7))
	rs := s.GlyphToUnicode(uint16(g))
	for i, r := range rs {
		vfAssert(gid(int(r)) == g, "a listed rune maps to another glyph")
		for j := 0; j < i; j++ {
			vfAssert(rs[j] != r, "rune listed twice")
		}
	}
	n = 0
	for r := lo; r < hi; r++ {
		if gid(r) == g {
			n++
		}
	}
	vfObs("n", int64(len(rs)))
	vfAssert(len(rs) == n, "a mapped rune is not listed for its glyph")
	if n > 0 {
		vfReach("mapped")
	}
}

// Two subtables of formats f, which may disagree: a rune is listed for the glyph that GlyphIndex maps it to (whichever subtable has it),
// no rune is listed twice, and a listed rune is mapped to the glyph by one of the subtables.
//
//vf:quick f=0..3 w=1
//vf:thorough f=0..3 w=2
//vf:opt reach=mapped,several,none
func vhInverseTwo() {
	w := uint32(vfParam("w"))
	n12 := func() []byte {
		g := [3]uint32{vfU32("start"), vfU32("end"), vfU32("gid")}
		vfAssume(g[0] <= g[1] && g[1]-g[0] <= w)
		return vfCmap12(g)
	}
	n4 := func() []byte {
		g := vfSeg{vfU16("start4"), vfU16("end4"), vfU16("delta4"), 0}
		vfAssume(g.start <= g.end && g.end-g.start <= uint16(w))
		return vfCmap4([]vfSeg{g, {0xFFFF, 0xFFFF, 1, 0}}, nil)
	}
	n6 := func() []byte {
		return vfCmap6(vfU16("first"), []uint16{vfU16("gid6"), vfU16("gid6")})
	}
	var a, b []byte
	switch vfParam("f") {
	case 0:
		a, b = n12(), n12()
	case 1:
		a, b = n4(), n12()
	case 2:
		a, b = n12(), n4()
	case 3:
		a, b = n6(), n4()
	}
	o := uint16(20 + len(a))
	t := vfCat(vf16s(0, 2, 0, 3, 0, 20, 3, 1, 0, o), a, b)
	f := &vfFont{ng: vfNG, adv: []uint16{500}, lsb: []int16{0}, loca: make([]byte, 2*vfNG+2), glyf: []byte{0, 0, 0, 0}, cmap: t}
	f.hmtx = make([]byte, 4+2*(vfNG-1))
	s, err := ParseSFNT(f.bytes(), 0)
	vfAssume(err == nil)
	one, two := vfCmapFont(a), vfCmapFont(b)
	vfAssert(one != nil && two != nil, "subtable accepted next to another one only")
	g, r := vfU16("glyph"), vfI32("rune")
	rs := s.GlyphToUnicode(g)
	found := false
	for i, x := range rs {
		vfAssert(one.GlyphIndex(x) == g || two.GlyphIndex(x) == g, "a listed rune maps to another glyph")
		found = found || x == r
		for j := 0; j < i; j++ {
			vfAssert(rs[j] != x, "rune listed twice")
		}
	}
	if g != 0 && s.GlyphIndex(r) == g {
		vfReach("mapped")
		vfAssert(found, "a mapped rune is not listed for its glyph")
	}
	if len(rs) > 1 {
		vfReach("several")
	}
	if len(rs) == 0 {
		vfReach("none")
	}
}
