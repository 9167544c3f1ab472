package font

//vf:use kit.go cmapref.go

func vfCheckRune(s *SFNT, sub []byte) {
	r := vfI32("r")
	g := s.GlyphIndex(r)
	w := vfCmapRef(sub, r)
	vfAssert(g == w, "GlyphIndex differs from the subtable")
	vfObs("g", int64(g), int64(w))
	if w != 0 {
		vfReach("mapped")
	} else {
		vfReach("unmapped")
	}
}

// Format 4, n segments plus the closing one: arbitrary start/end codes, deltas and range offsets, m array entries.
//
//vf:quick n=1 m=0..3
//vf:quick n=2 m=0..2
//vf:thorough n=1..3 m=0..4
//vf:opt reach=mapped,unmapped,accepted,rejected steps=4e7
func vhFormat4() {
	n, m := vfParam("n"), vfParam("m")
	var segs []vfSeg
	for i := 0; i < n; i++ {
		segs = append(segs, vfSeg{vfU16("start"), vfU16("end"), vfU16("delta"), vfU16("off")})
	}
	segs = append(segs, vfSeg{0xFFFF, 0xFFFF, 1, 0})
	var arr []uint16
	for i := 0; i < m; i++ {
		arr = append(arr, vfU16("gid"))
	}
	sub := vfCmap4(segs, arr)
	s := vfCmapFont(sub)
	// structurally valid subtables have to be accepted
	ok := true
	for i := range segs {
		g := segs[i]
		ok = ok && g.start <= g.end && g.off&1 == 0
		if i > 0 {
			ok = ok && segs[i-1].end < g.start
		}
		lo := int(g.off)/2 - (n + 1 - i)
		ok = ok && (g.off == 0 || 0 <= lo && lo+int(g.end)-int(g.start) < m)
	}
	for _, g := range arr {
		ok = ok && g < vfNG
	}
	if s == nil {
		vfReach("rejected")
		vfAssert(!ok, "well-formed format 4 subtable rejected")
		return
	}
	vfReach("accepted")
	vfCheckRune(s, sub)
}

// Format 0 with an arbitrary glyph array.
//
//vf:quick
//vf:opt reach=mapped,unmapped ite=300
func vhFormat0() {
	sub := append(vf16s(0, 262, 0), vfBytes("gid", 256)...)
	s := vfCmapFont(sub)
	vfAssert(s != nil, "well-formed format 0 subtable rejected")
	vfCheckRune(s, sub)
}

// Format 6: arbitrary first code, n arbitrary entries.
//
//vf:quick n=0..5
//vf:thorough n=0..24
//vf:opt reach=mapped,unmapped
func vhFormat6() {
	var arr []uint16
	for i := 0; i < vfParam("n"); i++ {
		g := vfU16("gid")
		vfAssume(g < vfNG)
		arr = append(arr, g)
	}
	sub := vfCmap6(vfU16("first"), arr)
	s := vfCmapFont(sub)
	vfAssert(s != nil, "well-formed format 6 subtable rejected")
	vfCheckRune(s, sub)
}

// Format 12: n groups with arbitrary 32-bit fields.
//
//vf:quick n=0..3
//vf:thorough n=0..5
//vf:opt reach=mapped,unmapped,accepted,rejected
func vhFormat12() {
	n := vfParam("n")
	ok := true
	var gs [][3]uint32
	for i := 0; i < n; i++ {
		g := [3]uint32{vfU32("start"), vfU32("end"), vfU32("gid")}
		ok = ok && g[0] <= g[1] && int64(g[2])+int64(g[1])-int64(g[0]) < vfNG
		if i > 0 {
			ok = ok && gs[i-1][1] < g[0]
		}
		gs = append(gs, g)
	}
	sub := vfCmap12(gs...)
	s := vfCmapFont(sub)
	if s == nil {
		vfReach("rejected")
		vfAssert(!ok, "well-formed format 12 subtable rejected")
		return
	}
	vfReach("accepted")
	vfAssert(ok, "malformed format 12 subtable accepted")
	vfCheckRune(s, sub)
}

// Large subtables of format f with n segments or entries: an arbitrary rune in the ten around segment p (or entry p).
//
//vf:quick f=4 n=300,4000 p=0,127,128,255,256,299
//vf:quick f=4 n=4000 p=1023,2047,2048,3999
//vf:quick f=6 n=300,3000 p=0,255,256,299
//vf:quick f=6 n=30000 p=0,3276,26213,29998
//vf:quick f=12 n=300,5000 p=0,127,128,255,256,299
//vf:quick f=12 n=7000 p=3275,6552,6553,6999
//vf:opt reach=mapped,unmapped steps=4e8
func vhMany() {
	f, n, p := vfParam("f"), vfParam("n"), vfParam("p")
	sub, gid := vfManyCmap(f, n)
	s := vfManyFont(sub)
	base := 10*p + 2
	if f == 6 {
		base = 300 + p - 2
	}
	k := vfInt("k", 0, 9)
	g := s.GlyphIndex(rune(base + k))
	vfObs("g", int64(g))
	w := 0
	for i := 0; i < 10; i++ {
		if i == k {
			w = gid(base + i)
		}
	}
	vfAssert(int(g) == w, "GlyphIndex differs from the subtable")
	if g != 0 {
		vfReach("mapped")
	} else {
		vfReach("unmapped")
	}
}

// Two subtables: the first one that maps the rune decides; the same subtable referenced twice is read once.
//
//vf:quick same=0,1
//vf:opt reach=first,second,none
func vhTwoTables() {
	a := [3]uint32{vfU32("s0"), vfU32("e0"), vfU32("g0")}
	c := [3]uint32{vfU32("s1"), vfU32("e1"), vfU32("g1")}
	for _, g := range [][3]uint32{a, c} {
		vfAssume(g[0] <= g[1] && int64(g[2])+int64(g[1])-int64(g[0]) < vfNG && g[2] > 0)
	}
	var t []byte
	if vfParam("same") == 1 {
		c = a
		t = vf16s(0, 2, 0, 4, 0, 20, 3, 10, 0, 20)
		t = append(t, vfCmap12(a)...)
	} else {
		t = vf16s(0, 2, 0, 4, 0, 20, 3, 10, 0, 48)
		t = append(t, vfCmap12(a)...)
		t = append(t, vfCmap12(c)...)
	}
	f := &vfFont{ng: vfNG, adv: []uint16{500}, lsb: []int16{0}, loca: make([]byte, 2*vfNG+2), glyf: []byte{0, 0, 0, 0}, cmap: t}
	f.hmtx = make([]byte, 4+2*(vfNG-1))
	s := vfParse(f.bytes())
	r := vfI32("r")
	got := s.GlyphIndex(r)
	in := func(g [3]uint32) bool { return int64(g[0]) <= int64(r) && int64(r) <= int64(g[1]) }
	switch {
	case in(a):
		vfReach("first")
		vfAssert(got == uint16(int64(a[2])+int64(r)-int64(a[0])), "first subtable not used")
	case in(c):
		vfReach("second")
		vfAssert(got == uint16(int64(c[2])+int64(r)-int64(c[0])), "second subtable not used")
	default:
		vfReach("none")
		vfAssert(got == 0, "unmapped rune gives a glyph")
	}
}

// Lookups do not depend on earlier ones: q arbitrary lookups (and a reverse lookup of an arbitrary glyph) before the checked one.
//
//vf:quick f=4,6,12 q=1 inv=0
//vf:quick f=4,6,12 q=0 inv=1
//vf:thorough f=0,4,6,12 q=2 inv=0..1
//vf:opt reach=mapped,unmapped ite=300
func vhHistory() {
	var sub []byte
	st, d := vfU16("start"), vfU16("delta")
	vfAssume(st < 0xFFF0)
	switch vfParam("f") {
	case 0:
		sub = append(vf16s(0, 262, 0), make([]byte, 256)...)
		sub[6+65], sub[6+66], sub[6+200] = vfU8("a"), vfU8("b"), vfU8("c")
	case 4:
		vfAssume(st > 70)
		sub = vfCmap4([]vfSeg{{65, 66, vfU16("d0"), 0}, {st, st + 1, d, 6}, {st + 3, st + 3, 3 - st, 0}, {0xFFFF, 0xFFFF, 1, 0}}, []uint16{7, 0})
	case 6:
		sub = vfCmap6(st, []uint16{3, d & 127, 9})
	case 12:
		sub = vfCmap12([3]uint32{65, 66, uint32(d & 127)}, [3]uint32{100 + uint32(st), 101 + uint32(st), 9}, [3]uint32{0x20000, 0x20000, 5})
	}
	s := vfCmapFont(sub)
	vfAssert(s != nil, "well-formed subtable rejected")
	for i := 0; i < vfParam("q"); i++ {
		s.GlyphIndex(vfI32("earlier"))
	}
	if vfParam("inv") == 1 {
		s.GlyphToUnicode(vfU16("glyph"))
	}
	vfCheckRune(s, sub)
}
