package font

//vf:use kit.go sfntref.go

// vfTTC lays out a collection of the fonts. Tables with equal tag and the same bytes at share[tag] are stored once. dirs gives the
// order in which the directories are stored, front puts the table data before the directories, stale adds unused bytes after the
// header that look like the offset of another font.
func vfTTC(version uint16, fonts []*vfFont, dirs []int, share string, front, stale bool) (b []byte, offs []int) {
	n := len(fonts)
	var files [][]byte
	for _, f := range fonts {
		files = append(files, f.bytes())
	}
	hdr := 12 + 4*n
	if version == 2 {
		hdr += 12
	}
	if stale {
		hdr += 4
	}
	dirLen := 0
	for _, f := range files {
		dirLen += 12 + 16*int(vfGet16(f, 4))
	}
	// pool of table data
	pos := hdr
	if !front {
		pos += dirLen
	}
	var pool []byte
	at := make([]map[string]int, n)
	for i, f := range files {
		at[i] = map[string]int{}
		for j := 0; j < int(vfGet16(f, 4)); j++ {
			p := 12 + 16*j
			tag := string(f[p : p+4])
			if 0 < i && tag == share {
				at[i][tag] = at[0][tag]
				continue
			}
			at[i][tag] = pos + len(pool)
			pool = append(pool, f[vfGet32(f, p+8):vfGet32(f, p+8)+vfGet32(f, p+12)]...)
			for len(pool)&3 != 0 {
				pool = append(pool, 0)
			}
		}
	}
	var dir []byte
	start := hdr
	if front {
		start += len(pool)
	}
	offs = make([]int, n)
	for _, i := range dirs {
		f := files[i]
		offs[i] = start + len(dir)
		k := 12 + 16*int(vfGet16(f, 4))
		d := append([]byte(nil), f[:k]...)
		for j := 12; j < k; j += 16 {
			o := at[i][string(d[j:j+4])]
			d[j+8], d[j+9], d[j+10], d[j+11] = byte(o>>24), byte(o>>16), byte(o>>8), byte(o)
		}
		dir = append(dir, d...)
	}
	b = append(b, "ttcf"...)
	b = vf16(vf16(b, version), 0)
	b = vf32(b, uint32(n))
	for _, o := range offs {
		b = vf32(b, uint32(o))
	}
	if version == 2 {
		b = append(b, make([]byte, 12)...) // no signature
	}
	if stale {
		b = vf32(b, uint32(offs[0]))
	}
	if front {
		return append(append(b, pool...), dir...), offs
	}
	return append(append(b, dir...), pool...), offs
}

// vfFontNr is the i'th font: arbitrary units per em, line gap, advances, a mapping of an arbitrary rune and its own outline.
func vfFontNr(i int) *vfFont {
	f := &vfFont{glyphs: [][]byte{vfTriPts(0), vfTriPts(10 + 20*i), vfTriPts(5 + i)}[:2+i%2]}
	n := string(rune('0' + i))
	f.head = vfHead(false)
	u := vfU16("upem" + n)
	vfAssume(16 <= u && u <= 16384)
	vfPut16(f.head, 18, u)
	for range f.glyphs {
		f.adv = append(f.adv, vfU16("adv"+n+string(rune('0'+len(f.adv)))))
	}
	f.hhea = vfHhea(len(f.adv))
	vfPut16(f.hhea, 8, vfU16("gap"+n))
	f.cmap = vfCmap(3, 10, vfCmap12([3]uint32{uint32(65 + i), uint32(65 + i), 0}))
	vfPut16(f.cmap, len(f.cmap)-2, vfU16("gid"+n)&1)
	return f
}

func vfSameFont(a, b *SFNT, g uint16, r rune) {
	vfAssert(a.Version == b.Version && a.IsTrueType == b.IsTrueType && a.IsCFF == b.IsCFF, "font type")
	vfAssert(a.NumGlyphs() == b.NumGlyphs() && a.UnitsPerEm() == b.UnitsPerEm(), "header values")
	a0, a1, a2 := a.VerticalMetrics()
	b0, b1, b2 := b.VerticalMetrics()
	vfAssert(a0 == b0 && a1 == b1 && a2 == b2, "vertical metrics")
	vfAssert(a.GlyphAdvance(g) == b.GlyphAdvance(g), "advance")
	vfAssert(a.GlyphIndex(r) == b.GlyphIndex(r), "mapping")
	pa, pb := &vfPath{}, &vfPath{}
	ea, eb := a.GlyphPath(pa, g, 0, 0, 0, 1, NoHinting), b.GlyphPath(pb, g, 0, 0, 0, 1, NoHinting)
	vfAssert((ea == nil) == (eb == nil) && vfSamePath(pa, pb), "outline")
	vfSameTables(a.Tables, b.Tables)
}

// A collection of n fonts, any font index: the selected font has the tables, header values, metrics, mapping and outlines of the
// font when it is stored by itself, indices outside the collection are errors. v: header version; k: bit 0 reverses the order of
// the directories, bit 1 stores the table data before the directories, bits 2-3 select a table that the fonts share,
// bit 4 adds unused bytes after the header that look like the offset of another font.
// w=1 also checks that writing the font gives a file of its own with the same tables.
//
//vf:quick n=1,2,3 v=1,2 k=0..3 w=0
//vf:quick n=2 v=1 k=4,8,12,15 w=0
//vf:quick n=2 v=1 k=0,3 w=1
//vf:quick n=1,2 v=1,2 k=16 w=0
//vf:thorough n=4,5 v=1,2 k=0..31 w=0
//vf:thorough n=2,3 v=1,2 k=0..15 w=1
//vf:opt reach=ok,err
func vhTTC() {
	n, k := vfParam("n"), vfParam("k")
	var fs []*vfFont
	var dirs []int
	for i := 0; i < n; i++ {
		fs = append(fs, vfFontNr(i))
		if k&1 != 0 {
			dirs = append([]int{i}, dirs...)
		} else {
			dirs = append(dirs, i)
		}
	}
	share := []string{"", "OS/2", "post", "glyf"}[k>>2&3]
	switch share {
	case "glyf":
		for _, f := range fs[1:] {
			f.glyphs = fs[0].glyphs
			f.adv = append(f.adv, 1, 2)[:len(f.glyphs)]
			f.hhea[35] = byte(len(f.glyphs))
		}
	}
	b, _ := vfTTC(uint16(vfParam("v")), fs, dirs, share, k&2 != 0, k&16 != 0)
	saved := append([]byte(nil), b...)
	var s *SFNT
	var err error
	i := vfI64("index")
	s, err = ParseSFNT(b, int(i))
	if i < 0 || int64(n) <= i {
		vfAssert(err != nil && s == nil, "index outside the collection accepted")
		vfReach("err")
		return
	}
	vfAssert(err == nil, "font of the collection rejected")
	idx := vfConc(int(i))
	vfAssert(string(saved) == string(b), "input changed")
	vfAssert(int(s.Length) == len(b), "length")
	alone := vfParse(fs[idx].bytes())
	vfSameFont(s, alone, vfU16("g")&3, rune(vfInt("r", 60, 75)))
	if vfParam("w") != 0 {
		out := s.Write()
		vfCheckFile(out, true)
		again, err := ParseSFNT(out, 0)
		vfAssert(err == nil, "written font rejected")
		d := append([]byte(nil), s.Tables["head"]...)
		copy(d[8:12], again.Tables["head"][8:12])
		copy(d[28:36], again.Tables["head"][28:36])
		s.Tables["head"] = d
		vfSameFont(again, alone, vfU16("g")&3, rune(vfInt("r", 60, 75)))
	}
	e, err := ParseEmbeddedSFNT(b, idx)
	vfAssert(err == nil && e.UnitsPerEm() == alone.UnitsPerEm(), "embedded font")
	vfReach("ok")
}

// A single font has index 0 only.
//
//vf:quick c=0,1
//vf:opt reach=ok,err
func vhSingleIndex() {
	f := vfFontNr(1)
	b := f.bytes()
	i := vfI64("index")
	var s *SFNT
	var err error
	if vfParam("c") == 0 {
		s, err = ParseSFNT(b, int(i))
	} else {
		s, err = ParseEmbeddedSFNT(b, int(i))
	}
	if i != 0 {
		vfAssert(err != nil && s == nil, "index of a single font")
		vfReach("err")
		return
	}
	vfAssert(err == nil && s.UnitsPerEm() == vfGet16(f.head, 18), "font rejected")
	vfReach("ok")
}

// The directory offset of the selected font is arbitrary: the parse ends in an error, or in the font at exactly that offset.
//
//vf:quick n=1,2
//vf:thorough n=3
//vf:opt reach=ok,err
func vhTTCOffset() {
	n := vfParam("n")
	var fs []*vfFont
	var dirs []int
	for i := 0; i < n; i++ {
		fs = append(fs, vfFontNr(i))
		dirs = append(dirs, i)
	}
	b, offs := vfTTC(1, fs, dirs, "", false, false)
	idx := vfConc(vfInt("index", 0, n-1))
	off := vfU32("off")
	sel := -1
	for i := range fs {
		if off == uint32(offs[i]) {
			sel = i
		}
	}
	sel = vfConc(sel)
	if sel < 0 {
		// outside the file, or not at a version tag
		vfAssume(uint32(len(b)) < off+12 || off+12 < off)
	}
	p := 12 + 4*idx
	b[p], b[p+1], b[p+2], b[p+3] = byte(off>>24), byte(off>>16), byte(off>>8), byte(off)
	s, err := ParseSFNT(b, idx)
	if sel < 0 {
		vfAssert(err != nil && s == nil, "offset outside the file accepted")
		vfReach("err")
		return
	}
	vfAssert(err == nil, "font rejected")
	vfSameFont(s, vfParse(fs[sel].bytes()), 1, rune(65+sel))
	vfReach("ok")
}

// A collection of n entries that refer to the first of two fonts, but for entry q that refers to the other; any font index.
//
//vf:quick n=300 q=255,256,299
//vf:quick n=65537 q=65536
//vf:thorough n=300 q=0..299/13
//vf:thorough n=70000 q=1,65535,69999
//vf:opt reach=ok,err steps=4e8
func vhManyFonts() {
	n, q := vfParam("n"), vfParam("q")
	a, b := vfFontNr(0), vfFontNr(1)
	vfAssume(vfGet16(a.head, 18) != vfGet16(b.head, 18))
	two, offs := vfTTC(1, []*vfFont{a, b}, []int{0, 1}, "", false, false)
	// the header of n entries takes the place of that of two
	more := 4 * (n - 2)
	t := append([]byte("ttcf\x00\x01\x00\x00"), byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	for i := 0; i < n; i++ {
		o := offs[0]
		if i == q {
			o = offs[1]
		}
		t = vf32(t, uint32(o+more))
	}
	t = append(t, two[20:]...)
	for _, o := range offs {
		for j := 0; j < int(vfGet16(two, o+4)); j++ {
			p := o + more + 12 + 16*j + 8
			v := vfGet32(t, p) + uint32(more)
			t[p], t[p+1], t[p+2], t[p+3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
		}
	}
	i := vfI64("index")
	is := i == int64(q)
	if i < 0 || int64(n) <= i {
		s, err := ParseSFNT(t, int(i))
		vfAssert(err != nil && s == nil, "index outside the collection accepted")
		vfReach("err")
		return
	}
	want, idx := a, vfConc(vfInt("other", 0, 1))*(n-1)
	if is {
		want, idx = b, q
	} else {
		vfAssume(i == int64(idx)) // the first or the last of the others
	}
	s, err := ParseSFNT(t, idx)
	vfAssert(err == nil && s.UnitsPerEm() == vfGet16(want.head, 18), "another font")
	vfReach("ok")
}
