package font

//vf:use kit.go cffkit.go cffnames.go kernref.go subset.go

// n glyphs with arbitrary advances and side bearings, nh of them with full records (and nv full vertical records); the list has k arbitrary distinct glyphs after glyph 0.
//
//vf:quick n=3 nh=1..3 nv=0 k=1..2 opt=0
//vf:quick n=4 nh=2 nv=3 k=2 opt=0
//vf:quick n=3 nh=2 nv=1 k=2 opt=1..2
//vf:thorough n=3..5 nh=1..3 nv=0..3 k=1..4 opt=0..2
//vf:opt reach=kept
func vhMetrics() {
	n, nh, nv, how := vfParam("n"), vfParam("nh"), vfParam("nv"), vfParam("opt")
	if nh > n || nv > n || vfParam("k") >= n {
		vfReach("kept")
		return
	}
	f := &vfFont{glyphs: vfTris(n)}
	for i := 0; i < nh; i++ {
		f.adv = append(f.adv, vfU16("adv"))
		f.lsb = append(f.lsb, vfI16("lsb"))
	}
	for i := nh; i < n; i++ {
		f.tail = append(f.tail, vfI16("lsb"))
	}
	if nv > 0 {
		f.vhea = vf32(nil, 0x00011000)
		f.vhea = append(f.vhea, vf16s(500, 0xFE0C, 0, 1000, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, uint16(nv))...)
		for i := 0; i < nv; i++ {
			f.vmtx = vf16s2(f.vmtx, vfI16("vadv"), vfI16("tsb"))
		}
		for i := nv; i < n; i++ {
			f.vmtx = vf16s2(f.vmtx, vfI16("tsb"))
		}
	}
	s := vfParse(f.bytes())
	list := []uint16{0}
	for i := 0; i < vfParam("k"); i++ {
		g := uint16(vfConc(vfInt("glyph", 1, n-1)))
		for _, h := range list {
			vfAssume(g != h)
		}
		list = append(list, g)
	}
	sub := vfSubset(s, list, vfTables(how))
	t := vfReparse(sub, how)
	for i, g := range list {
		for _, u := range []*SFNT{sub, t} {
			vfAssert(u.GlyphAdvance(uint16(i)) == s.GlyphAdvance(g), "advance of a glyph in the subset")
			vfAssert(u.Hmtx.LeftSideBearing(uint16(i)) == s.Hmtx.LeftSideBearing(g), "left side bearing of a glyph in the subset")
			if how == 0 {
				vfAssert(u.GlyphVerticalAdvance(uint16(i)) == s.GlyphVerticalAdvance(g), "vertical advance of a glyph in the subset")
				if nv > 0 {
					vfAssert(u.Vmtx.TopSideBearing(uint16(i)) == s.Vmtx.TopSideBearing(g), "top side bearing of a glyph in the subset")
				}
			}
		}
		vfObs("adv", int64(t.GlyphAdvance(uint16(i))))
	}
	vfReach("kept")
}

// Kerning: s subtables with arbitrary coverage and p arbitrary pairs of glyphs 1..3 with arbitrary values; the list reorders and drops glyphs.
//
//vf:quick s=1 p=2 l=0..2
//vf:quick s=2 p=1 l=1
//vf:thorough s=1 p=1..3 l=0..3
//vf:thorough s=2 p=1..2 l=0..3
//vf:opt reach=kerned,plain
func vhKern() {
	var subs []vfKernSub
	for i := 0; i < vfParam("s"); i++ {
		sub := vfKernSub{cov: vfU8("coverage") & 0x0F}
		last := uint32(0)
		for j := 0; j < vfParam("p"); j++ {
			k := uint32(vfInt("left", 1, 3))<<16 | uint32(vfInt("right", 1, 3))
			vfAssume(last < k)
			last = k
			sub.keys = append(sub.keys, k)
			sub.vals = append(sub.vals, vfI16("value"))
		}
		subs = append(subs, sub)
	}
	s := vfParse((&vfFont{glyphs: vfTris(4), kern: vfKernTab(subs)}).bytes())
	list := [][]uint16{{0, 3, 1}, {0, 2, 3, 1}, {0, 1, 2, 3}, {0, 2}}[vfParam("l")]
	sub := vfSubset(s, list, KeepAllTables)
	t := vfParse(sub.Write())
	i, j := vfConc(vfInt("i", 1, len(list)-1)), vfConc(vfInt("j", 1, len(list)-1))
	want := s.Kerning(list[i], list[j])
	if want != 0 {
		vfReach("kerned")
	} else {
		vfReach("plain")
	}
	vfObs("kern", int64(want), int64(t.Kerning(uint16(i), uint16(j))))
	vfAssert(sub.Kerning(uint16(i), uint16(j)) == want, "kerning of a pair in the subset")
	vfAssert(t.Kerning(uint16(i), uint16(j)) == want, "kerning of a pair in the written subset")
	vfAssert(t.Kerning(0, uint16(j)) == 0 || s.Kerning(0, list[j]) != 0, "kerning with .notdef")
	vfAssert(t.Kerning(uint16(i), vfU16("other")|8) == 0, "kerning with a glyph outside the subset")
}

// CFF fonts of n glyphs with arbitrary advances, side bearings, glyph names (arbitrary string identifiers around the border of the
// standard strings, arbitrary custom strings) and an arbitrary kerning value; the list has k arbitrary distinct glyphs after glyph 0.
//
//vf:quick n=3 nh=2 k=1..2 opt=0
//vf:quick n=4 nh=1 k=2 opt=1..2
//vf:thorough n=3..4 nh=1..3 k=1..3 opt=0..2
//vf:opt reach=kept
func vhCFF() {
	n, nh, how := vfParam("n"), vfParam("nh"), vfParam("opt")
	c := &vfCFF{chars: vfCFFTris(n), strs: [][]byte{vfBytes("custom", 2), []byte("two"), []byte("three")}}
	var sids []uint16
	for i := 1; i < n; i++ {
		sids = append(sids, uint16(389+vfConc(vfInt("sid", 0, 4))))
	}
	c.charset = vfCharset0(sids...)
	f := vfCFFFont(c)
	for i := 0; i < nh; i++ {
		f.adv = append(f.adv, vfU16("adv"))
		f.lsb = append(f.lsb, vfI16("lsb"))
	}
	for i := nh; i < n; i++ {
		f.tail = append(f.tail, vfI16("lsb"))
	}
	f.kern = vfKernTab([]vfKernSub{{cov: 1, keys: []uint32{0x00010002, 0x00020001}, vals: []int16{vfI16("kern"), -5}}})
	s := vfParse(f.bytes())
	list := []uint16{0}
	for i := 0; i < vfParam("k"); i++ {
		g := uint16(vfConc(vfInt("glyph", 1, n-1)))
		for _, h := range list {
			vfAssume(g != h)
		}
		list = append(list, g)
	}
	sub := vfSubset(s, list, vfTables(how))
	t := vfReparse(sub, how)
	for i, g := range list {
		want := ".notdef"
		if 0 < g {
			if sid := int(sids[g-1]); sid < len(vfStdStrings) {
				want = vfStdStrings[sid]
			} else {
				want = string(c.strs[sid-len(vfStdStrings)])
			}
		}
		for _, u := range []*SFNT{sub, t} {
			vfAssert(u.GlyphAdvance(uint16(i)) == s.GlyphAdvance(g), "advance of a glyph in the subset")
			vfAssert(u.Hmtx.LeftSideBearing(uint16(i)) == s.Hmtx.LeftSideBearing(g), "left side bearing of a glyph in the subset")
			vfAssert(u.GlyphName(uint16(i)) == want, "name of a glyph in the subset")
			vfAssert(u.GlyphName(u.FindGlyphName(want)) == want, "lookup of a name in the subset")
			if how == 0 && 0 < i {
				for j := 1; j < len(list); j++ {
					vfAssert(u.Kerning(uint16(i), uint16(j)) == s.Kerning(g, list[j]), "kerning of a pair in the subset")
				}
			}
		}
		vfAssert(t.GlyphName(uint16(len(list))) == "", "name of a glyph outside the subset")
		vfObsB("name", []byte(t.GlyphName(uint16(i))))
	}
	vfReach("kept")
}

// Fonts of n glyphs, of which nh have full records, with arbitrary metrics of the glyphs in the list, which are g and its neighbours
// and glyphs with the same low bits.
//
//vf:quick n=300 nh=300 g=256,298 how=0..1
//vf:quick n=700 nh=520 g=258,514,640 how=0..1
//vf:quick n=65535 nh=40000,65535 g=32768,65533 how=0
//vf:thorough n=520,1030,4100 nh=1,257,513 g=257..515/43 how=0..1
//vf:opt reach=kept steps=4e8
func vhManyGlyphs() {
	n, nh, g := vfParam("n"), vfParam("nh"), vfParam("g")
	if nh > n {
		vfReach("kept")
		return
	}
	list := []uint16{0, uint16(g), uint16(g & 0xFF), 1, uint16(g + 1), uint16(g - 1), uint16(g & 0x1FF)}
	in := map[int]bool{}
	for _, h := range list {
		in[int(h)] = true
	}
	f := &vfFont{glyphs: make([][]byte, n), ng: n}
	f.glyphs[n-1] = vfTris(2)[1]
	f.vhea = vf32(nil, 0x00011000)
	f.vhea = append(f.vhea, vf16s(500, 0xFE0C, 0, 1000, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, uint16(nh))...)
	for i := 0; i < n; i++ {
		adv, lsb, vadv, tsb := uint16(i), int16(3*i), uint16(7*i), int16(5*i)
		if in[i] {
			adv, lsb, vadv, tsb = vfU16("adv"), vfI16("lsb"), vfU16("vadv"), vfI16("tsb")
		}
		if i < nh {
			f.adv, f.lsb = append(f.adv, adv), append(f.lsb, lsb)
			f.vmtx = vf16s2(f.vmtx, int16(vadv), tsb)
		} else {
			f.tail = append(f.tail, lsb)
			f.vmtx = vf16s2(f.vmtx, tsb)
		}
	}
	var names [][]byte
	if vfParam("how") == 1 {
		c := &vfCFF{chars: make([][]byte, n)}
		var sids []uint16
		for i := 0; i < n; i++ {
			c.chars[i] = []byte{14}
			names = append(names, []byte{'n', byte('0' + i/100), byte('0' + i/10%10), byte('0' + i%10)})
			if 0 < i {
				sids = append(sids, uint16(391+i))
			}
		}
		c.strs = names
		c.charset = vfCharset0(sids...)
		f.cff, f.glyphs, f.cffT = true, nil, c.bytes()
	}
	s := vfParse(f.bytes())
	sub := vfSubset(s, list, KeepAllTables)
	t := vfParse(sub.Write())
	for i, h := range list {
		for _, u := range []*SFNT{sub, t} {
			x := min(int(h), nh-1)
			vfAssert(u.GlyphAdvance(uint16(i)) == f.adv[x], "advance of a glyph in the subset")
			vfAssert(u.GlyphVerticalAdvance(uint16(i)) == vfGet16(f.vmtx, 4*x), "vertical advance of a glyph in the subset")
			lsb, tsb := int16(0), uint16(0)
			if int(h) < nh {
				lsb, tsb = f.lsb[h], vfGet16(f.vmtx, 4*int(h)+2)
			} else {
				lsb, tsb = f.tail[int(h)-nh], vfGet16(f.vmtx, 2*nh+2*int(h))
			}
			vfAssert(u.Hmtx.LeftSideBearing(uint16(i)) == lsb, "left side bearing of a glyph in the subset")
			vfAssert(u.Vmtx.TopSideBearing(uint16(i)) == int16(tsb), "top side bearing of a glyph in the subset")
			if names != nil && 0 < h {
				vfAssert(u.GlyphName(uint16(i)) == string(names[h]), "name of a glyph in the subset")
			}
		}
	}
	vfReach("kept")
}
