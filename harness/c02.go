package font

//vf:use kit.go query.go tabs.go cffkit.go cffsub.go

// A glyph record of n arbitrary bytes with c contours.
//
//vf:quick c=0..1 n=0..5
//vf:quick c=2 n=4,7
//vf:thorough c=0..3 n=0..9
//vf:opt steps=4e7
func vhSimpleGlyph() {
	c, n := vfParam("c"), vfParam("n")
	b := vf16s(uint16(c), 0, 0, 10, 10)
	raw := vfBytes("raw", n)
	// at most 6 points: longer runs are covered by C16
	if k := 2*c - 2; c > 0 && k+1 < n {
		vfAssume(raw[k] == 0 && raw[k+1] < 6)
	}
	b = append(b, raw...)
	s, err := ParseSFNT((&vfFont{glyphs: [][]byte{vfTriPts(0), b}}).bytes(), 0)
	vfAssume(err == nil)
	vfQuery(s, 1)
}

// A glyph with 65536 points in runs of repeated flags; dec makes the end points of the last contours decrease.
//
//vf:quick dec=0..1
//vf:opt steps=4e8 time=200
func vhManyPoints() {
	b := vf16s(2, 0, 0, 10, 10, 5, 0xFFFF)
	if vfParam("dec") == 1 {
		b = vf16s(2, 0, 0, 10, 10, 0xFFFF, 5)
	}
	b = vf16(b, 0)
	for i := 0; i < 256; i++ {
		b = append(b, 0x39, 255)
	}
	s, err := ParseSFNT((&vfFont{glyphs: [][]byte{vfTriPts(0), b, vf16s(0xFFFF, 0, 0, 0, 0, 0x22, 1, 0, 2, 1, 0)}}).bytes(), 0)
	vfAssume(err == nil)
	vfQuery(s, 1)
	vfQuery(s, 2)
}

// A composite glyph record with n arbitrary bytes following the header.
//
//vf:quick n=0..9
//vf:thorough n=0..16
//vf:opt steps=4e7
func vhCompositeGlyph() {
	b := append(vf16s(0xFFFF, 0, 0, 10, 10), vfBytes("raw", vfParam("n"))...)
	s, err := ParseSFNT((&vfFont{glyphs: [][]byte{vfTriPts(0), b, {}}}).bytes(), 0)
	vfAssume(err == nil)
	vfQuery(s, 1)
	if deps, err := s.Glyf.Dependencies(1); err == nil {
		vfObs("deps", int64(len(deps)))
	}
}

// Arbitrary glyph offsets: n bytes of the loca table in either format, any glyph.
//
//vf:quick n=0..6 long=0
//vf:quick n=0..8/2 long=1
//vf:thorough n=0..16 long=0,1
func vhOffsets() {
	f := &vfFont{glyphs: vfTris(2), long: vfParam("long") == 1}
	f.loca = append([]byte{}, vfBytes("loca", vfParam("n"))...)
	if len(f.loca) == 0 {
		f.loca = nil
		f.extra = []vfTab{{"loca", nil}}
		f.loca = vfNone
	}
	s, err := ParseSFNT(f.bytes(), 0)
	vfAssume(err == nil)
	g := vfU16("g")
	vfQuery(s, g)
	if deps, err := s.Glyf.Dependencies(g); err == nil {
		vfObs("deps", int64(len(deps)))
	}
}

// Fonts with optional tables left out (the bits of out), parsed as embedded font or not; any glyph, rune and name.
//
//vf:quick emb=0,1 out=0,1,2,4,8,16,32,63
//vf:thorough emb=0,1 out=0..63
func vhMissing() {
	out := vfParam("out")
	f := &vfFont{glyphs: vfTris(2), name: nil}
	drop := func(bit int, t *[]byte) {
		if out&bit != 0 {
			*t = vfNone
		}
	}
	f.vhea = vf16s(1, 0, 1, 2, 3, 1000, 0, 0, 1000, 1, 0, 0, 0, 0, 0, 0, 0, 1)
	f.vmtx = vf16s(1000, 5, 7)
	drop(1, &f.post)
	drop(2, &f.os2)
	drop(4, &f.name)
	drop(8, &f.cmap)
	drop(16, &f.vhea)
	drop(32, &f.vmtx)
	b := f.bytes()
	var s *SFNT
	var err error
	if vfParam("emb") == 1 {
		s, err = ParseEmbeddedSFNT(b, 0)
	} else {
		s, err = ParseSFNT(b, 0)
	}
	vfObs("err", vfB2i(err == nil))
	vfAssume(err == nil)
	g := vfU16("g")
	vfQuery(s, g)
	vfQueryNames(s, g, vfI32("r"), string(vfBytes("name", 2)))
}

// Fonts whose table t has n arbitrary bytes, if accepted: any glyph and rune.
//
//vf:quick t=0 n=54
//vf:quick t=1 n=36
//vf:quick t=2 n=36
//vf:quick t=4 n=0..9
//vf:quick t=5 n=0..9
//vf:quick t=7 n=32,38,39,40
//vf:quick t=8 n=68,78,86,96,100
//vf:quick t=9 n=4,10..22/2
//vf:quick t=10 n=20..26/2
//vf:thorough t=7 n=32..46
//vf:thorough t=9 n=4..30
//vf:thorough t=10 n=4..36
//vf:opt paths=200000
func vhTable() {
	t, raw := vfParam("t"), vfBytes("raw", vfParam("n"))
	if t == 7 { // all the standard names are covered by C23
		vfAssume(raw[1] > 1)
		for i := 34; i < 38 && len(raw) >= 38; i += 2 {
			vfAssume(raw[i] > 0 || raw[i+1] < 3)
		}
	}
	s, err := ParseSFNT(vfTabFont(t, raw).bytes(), 0)
	vfAssume(err == nil)
	switch vfConc(vfInt("query", 0, 2)) {
	case 0:
		vfQueryMetrics(s, vfU16("g"))
	case 1:
		vfObsB("name", []byte(s.GlyphName(vfU16("g"))))
	case 2:
		vfObs("n", int64(s.FindGlyphName(string(vfBytes("name", 1)))))
	}
	if t == 10 {
		vfObs("n", int64(s.GlyphIndex(vfI32("r"))), int64(len(s.GlyphToUnicode(vfU16("h")))))
	}
}

// A cmap subtable of the given format with n arbitrary bytes after the format, if accepted: any rune and glyph.
//
//vf:quick f=4 n=20,22,28,30,36
//vf:quick f=6 n=8..14/2
//vf:quick f=12 n=14,26,38
//vf:thorough f=4 n=20..44/2
//vf:thorough f=6 n=8..20
//vf:thorough f=12 n=14,26,38,50
//vf:opt paths=200000 steps=4e8
func vhCmap() {
	raw := vfBytes("raw", vfParam("n"))
	if vfParam("f") == 4 && len(raw) >= 20 { // two segments, the first with at most 4 characters
		vfAssume(raw[4] != 0 || raw[5] != 4 || vfGet16(raw, 12)-vfGet16(raw, 18) < 4)
	}
	s, err := ParseSFNT(vfTabFont(10, vfCmapSub(uint16(vfParam("f")), raw)).bytes(), 0)
	vfAssume(err == nil)
	if vfBool("rune") {
		vfObs("g", int64(s.GlyphIndex(vfI32("r"))))
	} else {
		vfObs("n", int64(len(s.GlyphToUnicode(vfU16("g")))))
	}
}

func vfQueryCFF(c *vfCFF) {
	s, err := ParseSFNT(vfCFFFont(c).bytes(), 0)
	vfAssume(err == nil)
	p := &vfPath{}
	err = s.GlyphPath(p, 1, 0, 0, 0, 1, NoHinting)
	a, x, y, d := s.GlyphBounds(1)
	vfObs("outline", vfB2i(err == nil), int64(len(p.op)), int64(a), int64(x), int64(y), int64(d))
}

// A charstring of n arbitrary bytes, with subroutines that return, call each other and themselves.
//
//vf:quick n=0..3
//vf:thorough n=0..5
//vf:opt paths=200000
func vhCharstring() {
	c := &vfCFF{chars: [][]byte{vfCFFTri(0), vfBytes("raw", vfParam("n"))}}
	c.lsubrs = [][]byte{{11}, vfCat(vfNum(-106), []byte{10}), vfCat(vfNum(-106), []byte{29, 11}), {14}}
	c.gsubrs = [][]byte{{139, 21, 11}, vfCat(vfNum(-105), []byte{10, 11}), {}}
	vfQueryCFF(c)
}

// A subroutine of n arbitrary bytes called by a glyph.
//
//vf:quick n=0..3 glob=0,1
//vf:thorough n=0..5 glob=0,1
//vf:opt paths=200000
func vhSubr() {
	c := &vfCFF{}
	raw := [][]byte{vfBytes("raw", vfParam("n"))}
	op := byte(10)
	if vfParam("glob") == 1 {
		c.gsubrs = raw
		op = 29
	} else {
		c.lsubrs = raw
	}
	c.chars = [][]byte{vfCFFTri(0), vfCat(vfNum(-107), []byte{op}, vfNum(3), []byte{22, 14})}
	vfQueryCFF(c)
}

// k operands, any operator, j operands, any operator, endchar; before or after the first moveto.
//
//vf:quick k=0..14 j=0 m=0,1
//vf:quick k=0..2 j=1..5 m=0,1
//vf:quick k=47..49 j=0 m=0,1
//vf:thorough k=0..20 j=0..14 m=0,1
//vf:thorough k=47..49 j=0..3 m=0,1
//vf:opt paths=200000
func vhOperators() {
	var b []byte
	if vfParam("m") == 1 {
		b = append(vfNum(5), 22)
	}
	for i := 0; i < vfParam("k"); i++ {
		b = append(b, byte(139+i))
	}
	b = append(b, vfBytes("op1", 1)...)
	for i := 0; i < vfParam("j"); i++ {
		b = append(b, byte(139-i))
	}
	b = append(append(b, vfBytes("op2", 1)...), 14)
	vfQueryCFF(&vfCFF{chars: [][]byte{vfCFFTri(0), b}})
}

// A charset of n arbitrary bytes: names of all glyphs and of any glyph, and lookup of any two-letter name.
//
//vf:quick n=3 g=2
//vf:quick n=4 g=3
//vf:thorough n=3..6 g=2..3
//vf:opt paths=200000
func vhCharset() {
	c := &vfCFF{chars: vfCFFTris(vfParam("g")), strs: [][]byte{{'x', 'y'}}}
	raw := vfBytes("raw", vfParam("n"))
	if len(raw) > 1 {
		vfAssume(raw[1] > 0) // past most standard names
	}
	if len(raw) > 4 {
		vfAssume(raw[3] > 0)
	}
	c.raw = raw
	c.rawAt([]byte{15})
	s, err := ParseSFNT(vfCFFFont(c).bytes(), 0)
	vfAssume(err == nil)
	vfQueryNames(s, vfU16("g"), 'x', string(vfBytes("name", 2)))
}

// Composite glyphs nested n levels deep, each made of fan components that all refer to the glyph one level down, which
// has pts points: the work and memory stay bounded however many components and points that makes, and the outline
// either has increasing end points and correctly placed points, or is an error.
//
//vf:quick n=1 fan=1,3,300 pts=0,3,20000,30000,65536
//vf:quick n=3 fan=2,200 pts=0,3,20000
//vf:quick n=8 fan=2 pts=0,3
//vf:quick n=8 fan=10,100 pts=0,3,20000
//vf:opt steps=4e8 time=200 hang=20 reach=ok,bad
func vhDeepComposite() {
	n, fan, pts := vfParam("n"), vfParam("fan"), vfParam("pts")
	glyphs := [][]byte{{}, {}}
	if 0 < pts {
		b := vf16s(1, 0, 0, 0, 0, uint16(pts-1), 0)
		for i := 0; i < pts; i += 256 {
			k := pts - i
			if 256 < k {
				k = 256
			}
			b = append(b, 0x39, byte(k-1))
		}
		glyphs[1] = b
	}
	sum := int16(0)
	for i := 0; i < n; i++ {
		b := vf16s(0xFFFF, 0, 0, 10, 10)
		dx := vfI8("dx")
		sum += int16(dx)
		for j := 0; j < fan; j++ {
			flags := uint16(0x22)
			if j+1 == fan {
				flags = 0x02
			}
			b = append(vf16(vf16(b, flags), uint16(i+1)), byte(dx), 1)
		}
		glyphs = append(glyphs, b)
	}
	s, err := ParseSFNT((&vfFont{glyphs: glyphs}).bytes(), 0)
	vfAssume(err == nil)
	c, err := s.Glyf.Contour(uint16(n + 1))
	if err == nil {
		vfReach("ok")
		k := -1
		for _, e := range c.EndPoints {
			vfAssert(k < int(e), "end points increase")
			k = int(e)
		}
		m := len(c.XCoordinates)
		vfAssert(k+1 == m, "last end point")
		if 0 < m {
			vfAssert(c.XCoordinates[0] == sum && c.XCoordinates[m-1] == sum && c.YCoordinates[0] == int16(n), "offsets add up")
		}
	} else {
		vfReach("bad")
	}
	if deps, err := s.Glyf.Dependencies(uint16(n + 1)); err == nil {
		vfAssert(len(deps) <= 65536, "number of dependencies")
	}
}

// Subroutines nested n levels deep, each calling the next one fan times, and the last one drawing a line of arbitrary
// length: the work stays bounded however many lines that makes, and the outline has all of them or is an error.
//
//vf:quick n=1 fan=1
//vf:quick n=2 fan=3,200
//vf:quick n=9 fan=2,5,100
//vf:opt steps=4e8 time=200 hang=20 reach=ok,bad
func vhDeepSubr() {
	n, fan := vfParam("n"), vfParam("fan")
	dx := vfInt("dx", -50, 50)
	c := &vfCFF{}
	lines := 1
	for i := 0; i < n; i++ {
		var b []byte
		if i+1 == n {
			b = append(b, byte(139+dx), 139, 5) // rlineto
		} else {
			lines *= fan
			for j := 0; j < fan; j++ {
				b = append(b, vfCall(true, i+1, n)...)
			}
		}
		c.gsubrs = append(c.gsubrs, append(b, 11))
	}
	c.chars = [][]byte{vfCFFTri(0), vfCat([]byte{139, 139, 21}, vfCall(true, 0, n), []byte{14})}
	s, err := ParseSFNT(vfCFFFont(c).bytes(), 0)
	vfAssume(err == nil)
	p := &vfPath{}
	if err := s.GlyphPath(p, 1, 0, 0, 0, 1, NoHinting); err != nil {
		vfReach("bad")
		return
	}
	vfReach("ok")
	vfAssert(len(p.op) == 3+lines, "all lines") // Close, MoveTo, ..., Close
	vfAssert(p.c[2*lines] == float64(int16(lines*dx)) && p.c[2*lines+1] == 0, "last point")
}
