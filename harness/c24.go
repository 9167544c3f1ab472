package font

//vf:use kit.go

func vfI(b []byte, i int) int16 { return int16(vfGet16(b, i)) }

// compares the fields of a with the fields of b apart from those that describe the glyph set or the time of writing
func vfSameHeaders(a, b *SFNT, what string) {
	ha, hb := *a.Head, *b.Head
	hb.Modified, hb.IndexToLocFormat = ha.Modified, ha.IndexToLocFormat
	vfAssert(ha == hb, "head fields "+what)
	aa, ab := *a.Hhea, *b.Hhea
	ab.NumberOfHMetrics = aa.NumberOfHMetrics
	vfAssert(aa == ab, "hhea fields "+what)
	if a.Vhea != nil {
		vfAssert(b.Vhea != nil, "vhea lost "+what)
		va, vb := *a.Vhea, *b.Vhea
		vb.NumberOfVMetrics = va.NumberOfVMetrics
		vfAssert(va == vb, "vhea fields "+what)
	}
	ma, mb := *a.Maxp, *b.Maxp
	mb.NumGlyphs = ma.NumGlyphs
	vfAssert(ma == mb, "maxp fields "+what)
	if a.OS2 != nil {
		vfAssert(b.OS2 != nil, "OS/2 lost "+what)
		oa, ob := *a.OS2, *b.OS2
		ob.UlUnicodeRange1, ob.UlUnicodeRange2, ob.UlUnicodeRange3, ob.UlUnicodeRange4 = oa.UlUnicodeRange1, oa.UlUnicodeRange2, oa.UlUnicodeRange3, oa.UlUnicodeRange4
		ob.UsFirstCharIndex, ob.UsLastCharIndex = oa.UsFirstCharIndex, oa.UsLastCharIndex
		if oa.Version < 2 {
			// estimated from the glyphs
			ob.SxHeight, ob.SCapHeight = oa.SxHeight, oa.SCapHeight
		}
		vfAssert(oa == ob, "OS/2 fields "+what)
	}
	pa, pb := a.Post, b.Post
	vfAssert(pa.ItalicAngle == pb.ItalicAngle, "italic angle "+what)
	vfAssert(pa.UnderlinePosition == pb.UnderlinePosition && pa.UnderlineThickness == pb.UnderlineThickness && pa.IsFixedPitch == pb.IsFixedPitch, "post fields "+what)
	vfAssert(pa.MinMemType42 == pb.MinMemType42 && pa.MaxMemType42 == pb.MaxMemType42 && pa.MinMemType1 == pb.MinMemType1 && pa.MaxMemType1 == pb.MaxMemType1, "post memory fields "+what)
}

// how=0 write and parse, 1 subset to all glyphs, 2 subset to the first and last glyph with the minimum tables, 3 set glyph names and write
func vfTrip(s *SFNT) {
	switch vfParam("how") {
	case 0:
		vfSameHeaders(s, vfParse(s.Write()), "after writing and parsing")
	case 1, 2:
		list, opt := []uint16{0, 1, 2}, KeepAllTables
		if vfParam("how") == 2 {
			list, opt = []uint16{0, 2}, KeepMinTables
			s.Vhea = nil
		}
		sub, err := s.Subset(list, SubsetOptions{Tables: opt})
		vfAssert(err == nil, "subset failed")
		if vfParam("how") == 2 {
			sub.Vhea = nil
		} else {
			vfSameVhea(s, sub)
		}
		vfSameHeaders(s, sub, "in the subset")
		t := vfParse(sub.Write())
		vfSameHeaders(s, t, "after subset, write and parse")
		vfAssert(t.Maxp.NumGlyphs == uint16(len(list)), "number of glyphs")
	case 3:
		vfAssert(s.SetGlyphNames([]string{".notdef", "one", "two"}) == nil, "setting names failed")
		vfSameHeaders(s, vfParse(s.Write()), "after setting names, write and parse")
	}
}

func vfSameVhea(s, sub *SFNT) {
	if s.Vhea != nil {
		vfAssert(sub.Vhea != nil, "vhea lost in the subset")
	}
}

// All fields of the head table arbitrary (dates are below 2^63).
//
//vf:quick how=0..2
//vf:thorough how=0..3
func vhHead() {
	h := vfBytes("head", 54)
	copy(h, []byte{0, 1, 0, 0})
	copy(h[12:], []byte{0x5F, 0x0F, 0x3C, 0xF5})
	vfAssume(h[20] < 0x80 && h[28] < 0x80)
	h[50], h[51] = 0, 0
	s := vfParse((&vfFont{glyphs: vfTris(3), head: h}).bytes())
	k := *s.Head
	vfAssert(k.FontRevision == vfGet32(h, 4), "fontRevision")
	for i := 0; i < 16; i++ {
		vfAssert(k.Flags[i] == (vfGet16(h, 16)>>uint(i)&1 != 0), "flags")
		vfAssert(k.MacStyle[i] == (vfGet16(h, 44)>>uint(i)&1 != 0), "macStyle")
	}
	vfAssert(k.UnitsPerEm == vfGet16(h, 18), "unitsPerEm")
	vfAssert(k.Created.Unix() == int64(vfGet32(h, 20))<<32+int64(vfGet32(h, 24))-2082844800, "created")
	vfAssert(k.Modified.Unix() == int64(vfGet32(h, 28))<<32+int64(vfGet32(h, 32))-2082844800, "modified")
	vfAssert(k.XMin == vfI(h, 36) && k.YMin == vfI(h, 38) && k.XMax == vfI(h, 40) && k.YMax == vfI(h, 42), "bounds")
	vfAssert(k.LowestRecPPEM == vfGet16(h, 46) && k.FontDirectionHint == vfI(h, 48), "lowestRecPPEM, fontDirectionHint")
	vfAssert(k.IndexToLocFormat == 0 && k.GlyphDataFormat == vfI(h, 52), "formats")
	vfTrip(s)
}

// All fields of the hhea and vhea tables arbitrary.
//
//vf:quick how=0..2
//vf:thorough how=0..3
func vhHhea() {
	h := vfBytes("hhea", 36)
	copy(h, []byte{0, 1, 0, 0})
	vfPut16(h, 34, 2)
	v := vfBytes("vhea", 36)
	copy(v, []byte{0, 1, 0x10, 0})
	vfPut16(v, 34, 1)
	f := &vfFont{glyphs: vfTris(3), tail: []int16{3}, hhea: h, vhea: v, vmtx: vf16s(1000, 1, 2, 3)}
	s := vfParse(f.bytes())
	k := *s.Hhea
	vfAssert(k.Ascender == vfI(h, 4) && k.Descender == vfI(h, 6) && k.LineGap == vfI(h, 8) && k.AdvanceWidthMax == vfGet16(h, 10), "hhea fields")
	vfAssert(k.MinLeftSideBearing == vfI(h, 12) && k.MinRightSideBearing == vfI(h, 14) && k.XMaxExtent == vfI(h, 16), "hhea fields")
	vfAssert(k.CaretSlopeRise == vfI(h, 18) && k.CaretSlopeRun == vfI(h, 20) && k.CaretOffset == vfI(h, 22) && k.MetricDataFormat == vfI(h, 32) && k.NumberOfHMetrics == 2, "hhea fields")
	u := *s.Vhea
	vfAssert(u.Ascender == vfI(v, 4) && u.Descender == vfI(v, 6) && u.LineGap == vfI(v, 8) && u.AdvanceHeightMax == vfI(v, 10), "vhea fields")
	vfAssert(u.MinTopSideBearing == vfI(v, 12) && u.MinBottomSideBearing == vfI(v, 14) && u.YMaxExtent == vfI(v, 16), "vhea fields")
	vfAssert(u.CaretSlopeRise == vfI(v, 18) && u.CaretSlopeRun == vfI(v, 20) && u.CaretOffset == vfI(v, 22) && u.MetricDataFormat == vfI(v, 32) && u.NumberOfVMetrics == 1, "vhea fields")
	vfTrip(s)
}

// All fields of the maxp table arbitrary.
//
//vf:quick how=0..2
//vf:thorough how=0..3
func vhMaxp() {
	m := vfBytes("maxp", 32)
	copy(m, []byte{0, 1, 0, 0, 0, 3})
	s := vfParse((&vfFont{glyphs: vfTris(3), maxp: m}).bytes())
	k := *s.Maxp
	got := [13]uint16{k.MaxPoints, k.MaxContours, k.MaxCompositePoints, k.MaxCompositeContours, k.MaxZones, k.MaxTwilightPoints, k.MaxStorage, k.MaxFunctionDefs, k.MaxInstructionDefs, k.MaxStackElements, k.MaxSizeOfInstructions, k.MaxComponentElements, k.MaxComponentDepth}
	for i, x := range got {
		vfAssert(x == vfGet16(m, 6+2*i), "maxp fields")
	}
	vfAssert(k.NumGlyphs == 3 && s.NumGlyphs() == 3, "number of glyphs")
	vfTrip(s)
}

// All fields of an OS/2 table of version v and length l arbitrary.
//
//vf:quick how=0,1 v=0 l=68,78
//vf:quick how=0..1 v=1 l=86
//vf:quick how=0..2 v=4 l=96
//vf:quick how=0,1 v=5 l=100
//vf:thorough how=0..3 v=0 l=68,78
//vf:thorough how=0..3 v=1 l=86
//vf:thorough how=0..3 v=2..4 l=96
//vf:thorough how=0..3 v=5 l=100
func vhOS2() {
	n := vfParam("l")
	b := vfBytes("os2", n)
	b[0], b[1] = 0, byte(vfParam("v"))
	s := vfParse((&vfFont{glyphs: vfTris(3), os2: b}).bytes())
	k := *s.OS2
	vfAssert(k.XAvgCharWidth == vfI(b, 2) && k.UsWeightClass == vfGet16(b, 4) && k.UsWidthClass == vfGet16(b, 6) && k.FsType == vfGet16(b, 8), "OS/2 fields")
	vfAssert(k.YSubscriptXSize == vfI(b, 10) && k.YSubscriptYSize == vfI(b, 12) && k.YSubscriptXOffset == vfI(b, 14) && k.YSubscriptYOffset == vfI(b, 16), "OS/2 subscript fields")
	vfAssert(k.YSuperscriptXSize == vfI(b, 18) && k.YSuperscriptYSize == vfI(b, 20) && k.YSuperscriptXOffset == vfI(b, 22) && k.YSuperscriptYOffset == vfI(b, 24), "OS/2 superscript fields")
	vfAssert(k.YStrikeoutSize == vfI(b, 26) && k.YStrikeoutPosition == vfI(b, 28) && k.SFamilyClass == vfI(b, 30), "OS/2 strikeout fields")
	p := [10]byte{k.BFamilyType, k.BSerifStyle, k.BWeight, k.BProportion, k.BContrast, k.BStrokeVariation, k.BArmStyle, k.BLetterform, k.BMidline, k.BXHeight}
	for i, x := range p {
		vfAssert(x == b[32+i], "OS/2 panose")
	}
	vfAssert(k.UlUnicodeRange1 == vfGet32(b, 42) && k.UlUnicodeRange2 == vfGet32(b, 46) && k.UlUnicodeRange3 == vfGet32(b, 50) && k.UlUnicodeRange4 == vfGet32(b, 54), "OS/2 unicode ranges")
	vfAssert(string(k.AchVendID[:]) == string(b[58:62]), "OS/2 vendor")
	vfAssert(k.FsSelection == vfGet16(b, 62) && k.UsFirstCharIndex == vfGet16(b, 64) && k.UsLastCharIndex == vfGet16(b, 66), "OS/2 selection and characters")
	if n >= 78 {
		vfAssert(k.STypoAscender == vfI(b, 68) && k.STypoDescender == vfI(b, 70) && k.STypoLineGap == vfI(b, 72) && k.UsWinAscent == vfGet16(b, 74) && k.UsWinDescent == vfGet16(b, 76), "OS/2 vertical metrics")
	}
	if n >= 86 {
		vfAssert(k.UlCodePageRange1 == vfGet32(b, 78) && k.UlCodePageRange2 == vfGet32(b, 82), "OS/2 code pages")
	}
	if n >= 96 {
		vfAssert(k.SxHeight == vfI(b, 86) && k.SCapHeight == vfI(b, 88) && k.UsDefaultChar == vfGet16(b, 90) && k.UsBreakChar == vfGet16(b, 92) && k.UsMaxContent == vfGet16(b, 94), "OS/2 version 2 fields")
	}
	if n >= 100 {
		vfAssert(k.UsLowerOpticalPointSize == vfGet16(b, 96) && k.UsUpperOpticalPointSize == vfGet16(b, 98), "OS/2 version 5 fields")
	}
	vfTrip(s)
}

// All fields of the post table arbitrary, version 2 or 3.
//
//vf:quick how=0..3 v=2,3
//vf:thorough how=0..3 v=2,3
func vhPost() {
	b := vfBytes("post", 32)
	copy(b, []byte{0, byte(vfParam("v")), 0, 0})
	if vfParam("v") == 2 {
		b = append(b, vf16s(3, 0, 36, 37)...)
	}
	s := vfParse((&vfFont{glyphs: vfTris(3), post: b}).bytes())
	k := s.Post
	vfAssert(k.ItalicAngle == float64(int32(vfGet32(b, 4)))/65536, "italicAngle")
	vfAssert(k.UnderlinePosition == vfI(b, 8) && k.UnderlineThickness == vfI(b, 10) && k.IsFixedPitch == vfGet32(b, 12), "post fields")
	vfAssert(k.MinMemType42 == vfGet32(b, 16) && k.MaxMemType42 == vfGet32(b, 20) && k.MinMemType1 == vfGet32(b, 24) && k.MaxMemType1 == vfGet32(b, 28), "post memory fields")
	vfTrip(s)
}
