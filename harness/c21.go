package font

//vf:use kit.go cffkit.go

// Horizontal metrics: h full records, t side bearings without advance, all arbitrary, any glyph ID.
//
//vf:quick h=1..3 t=0..2
//vf:thorough h=1..6 t=0..5
//vf:opt reach=full,tail,outside
func vhHmtx() {
	h, t := vfParam("h"), vfParam("t")
	f := &vfFont{glyphs: vfTris(h + t)}
	var adv []uint16
	var lsb []int16
	for i := 0; i < h; i++ {
		adv = append(adv, vfU16("adv"))
		lsb = append(lsb, vfI16("lsb"))
	}
	f.adv, f.lsb = adv, lsb
	for i := 0; i < t; i++ {
		f.tail = append(f.tail, vfI16("tail"))
	}
	all := append(append([]int16{}, lsb...), f.tail...)
	s := vfParse(f.bytes())
	g := vfU16("glyph")
	a := s.GlyphAdvance(g)
	l := s.Hmtx.LeftSideBearing(g)
	vfObs("adv", int64(a), int64(l))
	switch {
	case int(g) < h:
		vfReach("full")
		vfAssert(a == adv[g], "advance of a full record")
		vfAssert(l == lsb[g], "side bearing of a full record")
	case int(g) < h+t:
		vfReach("tail")
		vfAssert(a == adv[h-1], "advance of a glyph beyond the full records")
		vfAssert(l == all[g], "side bearing of a glyph beyond the full records")
	default:
		vfReach("outside")
		ok := a == 0
		for _, x := range adv {
			ok = ok || a == x
		}
		vfAssert(ok, "advance outside the font is not a value of the table")
		okl := l == 0
		for _, x := range all {
			okl = okl || l == x
		}
		vfAssert(okl, "side bearing outside the font is not a value of the table")
	}
	if t == 0 {
		vfReach("tail")
	}
}

func vfVheaTab(n int) []byte {
	b := vf32(nil, 0x00011000)
	return append(b, vf16s(500, 0xFE0C, 0, 1000, 0, 0, 1000, 0, 1, 0, 0, 0, 0, 0, 0, uint16(n))...)
}

// Vertical metrics: h full records, t top side bearings without advance; h=0 is a font without vertical metrics and an arbitrary UnitsPerEm.
//
//vf:quick h=0..2 t=0..1
//vf:thorough h=0..5 t=0..4
func vhVmtx() {
	h, t := vfParam("h"), vfParam("t")
	f := &vfFont{glyphs: vfTris(h + t + vfB2n(h == 0))}
	var adv []uint16
	var tsb []int16
	head := vfHead(false)
	upem := vfU16("upem")
	vfPut16(head, 18, upem)
	f.head = head
	if h > 0 {
		f.vhea = vfVheaTab(h)
		f.vmtx = []byte{}
		for i := 0; i < h; i++ {
			adv = append(adv, vfU16("adv"))
			tsb = append(tsb, vfI16("tsb"))
			f.vmtx = vf16(f.vmtx, adv[i])
			f.vmtx = vf16(f.vmtx, uint16(tsb[i]))
		}
		for i := 0; i < t; i++ {
			tsb = append(tsb, vfI16("tail"))
			f.vmtx = vf16(f.vmtx, uint16(tsb[h+i]))
		}
	}
	s := vfParse(f.bytes())
	vfAssert(s.UnitsPerEm() == upem, "UnitsPerEm is not the value of the head table")
	g := vfU16("glyph")
	a := s.GlyphVerticalAdvance(g)
	vfObs("adv", int64(a))
	if h == 0 {
		vfAssert(a == upem, "vertical advance without vertical metrics is not the em")
		return
	}
	l := s.Vmtx.TopSideBearing(g)
	vfObs("tsb", int64(l))
	switch {
	case int(g) < h:
		vfAssert(a == adv[g] && l == tsb[g], "vertical metrics of a full record")
	case int(g) < h+t:
		vfAssert(a == adv[h-1] && l == tsb[g], "vertical metrics beyond the full records")
	default:
		ok := a == 0
		for _, x := range adv {
			ok = ok || a == x
		}
		vfAssert(ok, "vertical advance outside the font is not a value of the table")
		okl := l == 0
		for _, x := range tsb {
			okl = okl || l == x
		}
		vfAssert(okl, "top side bearing outside the font is not a value of the table")
	}
}

func vfB2n(b bool) int {
	if b {
		return 1
	}
	return 0
}

// VerticalMetrics for arbitrary hhea and OS/2 fields; os2=0 is a TrueType font without OS/2 table.
//
//vf:quick os2=0,1
//vf:thorough os2=0,1
func vhVertical() {
	f := &vfFont{glyphs: vfTris(1)}
	asc, desc, gap := vfI16("asc"), vfI16("desc"), vfI16("gap")
	f.hhea = vfHhea(1)
	vfPut16(f.hhea, 4, uint16(asc))
	vfPut16(f.hhea, 6, uint16(desc))
	vfPut16(f.hhea, 8, uint16(gap))
	flags := vfU16("fsSelection")
	tAsc, tDesc, tGap := vfI16("typoAsc"), vfI16("typoDesc"), vfI16("typoGap")
	wAsc, wDesc := vfU16("winAsc"), vfU16("winDesc")
	f.os2 = vfNone
	if vfParam("os2") == 1 {
		f.os2 = vfOS2(4)
		vfPut16(f.os2, 62, flags)
		vfPut16(f.os2, 68, uint16(tAsc))
		vfPut16(f.os2, 70, uint16(tDesc))
		vfPut16(f.os2, 72, uint16(tGap))
		vfPut16(f.os2, 74, wAsc)
		vfPut16(f.os2, 76, wDesc)
	}
	s := vfParse(f.bytes())
	a, d, g := s.VerticalMetrics()
	vfObs("m", int64(a), int64(d), int64(g))

	pos := func(v int) int {
		if v < 0 {
			return 0
		}
		return v
	}
	ea, ed, eg := pos(int(asc)), pos(-int(desc)), pos(int(gap))
	if vfParam("os2") == 1 {
		if flags&0x80 != 0 {
			if tAsc > 0 && tDesc < 0 {
				ea, ed, eg = int(tAsc), -int(tDesc), pos(int(tGap))
			}
		} else if wAsc != 0 && wDesc != 0 {
			ea, ed = int(wAsc), int(wDesc)
			eg = pos(int(asc) - int(desc) + int(gap) - ea - ed)
		}
	}
	vfAssert(int(a) == ea, "ascender")
	vfAssert(int(d) == ed, "descender")
	vfAssert(int(g) == eg || eg > 65535 && g == 65535, "line gap")
}

// x-height and cap height: OS/2 tables of version 0 and 1 do not hold them, they are the tops of the glyphs for x and H, and 0 for fonts without those characters. Two mapped characters around H or x, arbitrary tops of the glyphs. c=1 is a CFF font of which the coordinates are multiples of 1/4.
//
//vf:quick v=0..1 c=0..1
//vf:thorough v=0..1 c=0..1
//vf:opt reach=x,H,none
func vhHeights() {
	r1 := uint32(vfConc(vfInt("r1", 0x47, 0x49)))
	r2 := uint32(vfConc(vfInt("r2", 0x77, 0x79)))
	cmap := vfCmap(3, 10, vfCmap12([3]uint32{r1, r1, 1}, [3]uint32{r2, r2, 2}))
	var f *vfFont
	var top [3]int16
	if vfParam("c") == 0 {
		f = &vfFont{}
		for i := range top {
			top[i] = vfI16("top")
			f.glyphs = append(f.glyphs, vfSimple([]uint16{2}, []byte{1, 1, 1}, []int16{0, 10, 20}, []int16{0, 100, 0}, nil, [4]int16{0, 0, 20, top[i]}))
		}
	} else {
		c := &vfCFF{}
		for i := range top {
			y, dy := vfI16("y"), vfI16("dy")
			vfAssume(y > -0x4000 && y < 0x4000 && dy > -0x4000 && dy < 0x4000)
			c.chars = append(c.chars, vfCat(vfNum(30), vfNum255(int32(y)*16384), []byte{21}, vfNum(10), vfNum255(int32(dy)*16384), []byte{5, 14}))
			top[i] = int16((max(int32(y), int32(y)+int32(dy)) + 3) >> 2)
		}
		f = vfCFFFont(c)
	}
	f.cmap, f.os2 = cmap, vfOS2(vfParam("v"))
	if vfParam("v") == 0 && vfConc(vfInt("short", 0, 1)) == 1 {
		f.os2 = f.os2[:68]
	}
	s := vfParse(f.bytes())
	var x, h int16
	if r2 == 'x' {
		x = top[2]
		vfReach("x")
	}
	if r1 == 'H' {
		h = top[1]
		vfReach("H")
	}
	if x == 0 && h == 0 {
		vfReach("none")
	}
	vfObs("heights", int64(s.OS2.SxHeight), int64(s.OS2.SCapHeight))
	vfAssert(s.OS2.SxHeight == x, "x-height")
	vfAssert(s.OS2.SCapHeight == h, "cap height")
}
