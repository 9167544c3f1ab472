package font

//vf:use kit.go cffkit.go cffsub.go kernref.go glyfref.go subset.go c10.go c17.go cmapref.go

// vfMerged merges b into a, checks that b and the bytes of both files are unchanged, and returns a copy of the original a and the merged font written and parsed again.
func vfMerged(fa, fb *vfFont, opt MergeOptions) (a, orig, b, t *SFNT) {
	ba, bb := fa.bytes(), fb.bytes()
	ka, kb := string(ba), string(bb)
	a, b = vfParse(ba), vfParse(bb)
	orig = vfParse([]byte(ka))
	before := vfSnap(b)
	err := a.Merge(b, opt)
	vfAssert(err == nil, "merging failed")
	vfSameState(before, vfSnap(b))
	vfAssert(a.NumGlyphs() == orig.NumGlyphs()+b.NumGlyphs()-1, "number of glyphs")
	w := a.Write()
	t = vfParse(w)
	vfAssert(t.NumGlyphs() == a.NumGlyphs(), "number of glyphs of the written font")
	vfAssert(*a.Hhea == *t.Hhea && *a.Maxp == *t.Maxp && (a.Vhea == nil || *a.Vhea == *t.Vhea), "header tables differ from those of the written font")
	vfAssert(string(ba) == ka && string(bb) == kb, "bytes of a parsed file changed")
	vfSameState(before, vfSnap(b))
	return
}

func vfNoCmap() []byte { return vfCmap(3, 10, vfCmap12()) }

// Outlines: a has na simple glyphs with an arbitrary point each (the last one of odd length with odd=1 in the long format), a composite, and xa bytes behind the last glyph; b the same with nb glyphs, whose composite refers to an arbitrary glyph of b (the .notdef glyphs are the same in both fonts). The formats of the loca tables are la and lb.
//
//vf:quick na=1 nb=1 la=0 lb=0 xa=0 xb=0 big=0 odd=0
//vf:quick na=2 nb=2 la=0 lb=1 xa=2 xb=4 big=0 odd=0
//vf:quick na=1 nb=2 la=1 lb=0 xa=4 xb=0 big=0 odd=0
//vf:quick na=1 nb=2 la=1 lb=1 xa=3 xb=1 big=0 odd=1
//vf:quick na=1 nb=1 la=0 lb=0 xa=0 xb=0 big=1 odd=0
//vf:quick na=1 nb=1 la=1 lb=0 xa=0 xb=0 big=1 odd=0
//vf:quick na=1 nb=2 la=0 lb=1 xa=0 xb=0 big=5 odd=0
//vf:thorough na=1..3 nb=1..3 la=0..1 lb=0..1 xa=0..4/2 xb=0..4/2 big=0 odd=0
//vf:thorough na=2 nb=2 la=1 lb=1 xa=0..5 xb=0..5 big=0 odd=1
//vf:thorough na=1 nb=1 la=0..1 lb=0..1 xa=0 xb=0 big=1..4 odd=0
//vf:thorough na=1..2 nb=2..3 la=1 lb=1 xa=0 xb=0 big=5 odd=0
//vf:opt reach=same steps=4e8
func vhOutlines() {
	mk := func(n int, tag string, long bool, extra, big, odd int) *vfFont {
		f := &vfFont{long: long, cmap: vfNoCmap()}
		gs := [][]byte{vfTriPts(0)}
		for i := 0; i < n; i++ {
			var instr []byte
			if (i == 0 || big > 4) && big > 0 {
				instr = make([]byte, []int{0, 40000, 32600, 32700, 65000, 65000, 65000}[big])
			}
			if i == n-1 && odd == 1 {
				instr = append(instr, 7)
			}
			g := vfSimple([]uint16{1}, []byte{1, vfU8("on") & 0x41}, []int16{10, vfI16("x")}, []int16{20, vfI16("y")}, instr, [4]int16{int16(i), vfI16("ymin"), 5, 6})
			if odd == 0 && len(g)%2 == 1 {
				g = append(g, 0)
			}
			gs = append(gs, g)
		}
		gs = append(gs, vfComposite([4]int16{1, 2, 3, vfI16("ymax")}, []vfComp{{gid: uint16(vfConc(vfInt("ref", 0, n))), words: true, dx: vfI16("dx"), dy: 3}, {gid: uint16(n), dx: 4, dy: -4, form: 2, a: 0x2000, d: 0x6000}}, nil))
		f.ng = len(gs)
		f.glyphs = nil
		var glyf, loca []byte
		off := func() {
			if long {
				loca = vf32(loca, uint32(len(glyf)))
			} else {
				loca = vf16(loca, uint16(len(glyf)/2))
			}
		}
		for _, g := range gs {
			off()
			glyf = append(glyf, g...)
			if odd == 0 && len(glyf)%2 == 1 {
				glyf = append(glyf, 0)
			}
		}
		off()
		for i := 0; i < extra; i++ {
			glyf = append(glyf, 0xEE)
		}
		f.glyf, f.loca = glyf, loca
		return f
	}
	fa := mk(vfParam("na"), "a", vfParam("la") == 1, vfParam("xa"), vfParam("big"), vfParam("odd"))
	fb := mk(vfParam("nb"), "b", vfParam("lb") == 1, vfParam("xb"), vfParam("big"), vfParam("odd"))
	a, orig, b, t := vfMerged(fa, fb, MergeOptions{})
	for _, u := range []*SFNT{a, t} {
		for g := uint16(0); g < orig.NumGlyphs(); g++ {
			vfSameGlyph(orig, g, u, g, "of the first font")
		}
		for g := uint16(1); g < b.NumGlyphs(); g++ {
			vfSameGlyph(b, g, u, orig.NumGlyphs()+g-1, "of the other font")
		}
	}
}

// Mapping: both fonts have a format 12 map with a group of w consecutive runes from an arbitrary rune to an arbitrary glyph (a second group in b with n=2), an arbitrary rune is looked up. Fonts with a common rune give an error and keep the first font.
//
//vf:quick w=1 n=1
//vf:quick w=2 n=1
//vf:thorough w=1..3 n=1..2
//vf:opt reach=first,other,none,conflict
func vhMapping() {
	w := uint32(vfParam("w"))
	grp := func(name string, after *[3]uint32) [3]uint32 {
		st := vfU32(name)
		vfAssume(st <= 0x10FFFF)
		if after != nil {
			vfAssume(after[1] < st)
		}
		g := uint32(vfInt(name+"g", 0, 4-int(w)))
		return [3]uint32{st, st + w - 1, g}
	}
	ga := grp("a", nil)
	gb := [][3]uint32{grp("b", nil)}
	if vfParam("n") == 2 {
		gb = append(gb, grp("c", &gb[0]))
	}
	a := vfParse((&vfFont{glyphs: vfTris(4), cmap: vfCmap(3, 10, vfCmap12(ga))}).bytes())
	orig := vfParse((&vfFont{glyphs: vfTris(4), cmap: vfCmap(3, 10, vfCmap12(ga))}).bytes())
	b := vfParse((&vfFont{glyphs: vfTris(4), cmap: vfCmap(3, 10, vfCmap12(gb...))}).bytes())
	conflict := false
	for i := uint32(0); i < w; i++ {
		for _, g := range gb {
			r := rune(g[0] + i)
			if b.GlyphIndex(r) != 0 && a.GlyphIndex(r) != 0 {
				conflict = true
			}
		}
	}
	if err := a.Merge(b, MergeOptions{}); err != nil {
		vfAssert(conflict, "merging failed")
		vfSameState(vfSnap(orig), vfSnap(a))
		vfReach("conflict")
		return
	}
	vfAssert(!conflict, "fonts with a common rune are merged")
	r := vfI32("rune")
	want := orig.GlyphIndex(r)
	if want != 0 {
		vfReach("first")
	} else if g := b.GlyphIndex(r); g != 0 {
		want = 3 + g
		vfReach("other")
	} else {
		vfReach("none")
	}
	vfAssert(a.GlyphIndex(r) == want, "mapping of a rune")
	t := vfParse(a.Write())
	vfAssert(t.GlyphIndex(r) == want, "mapping of a rune in the written font")
	vfObs("g", int64(t.GlyphIndex(r)))
}

// Mapping of fonts with two subtables that may disagree (the first one wins).
//
//vf:quick
//vf:opt reach=merged,conflict
func vhMapTwo() {
	x, y, z := vfU32("x"), vfU32("y"), vfU32("z")
	vfAssume(x <= 0xFFF0 && y <= 0xFFF0 && z <= 0xFFF0)
	tab := vf16s(0, 2, 0, 4, 0, 20, 3, 10, 0, 48)
	tab = append(tab, vfCmap12([3]uint32{x, x, uint32(vfInt("gx", 1, 2))})...)
	tab = append(tab, vfCmap12([3]uint32{y, y, uint32(vfInt("gy", 1, 2))})...)
	fa := &vfFont{glyphs: vfTris(3), cmap: vfCmap(3, 10, vfCmap12([3]uint32{z, z, 1}))}
	fb := &vfFont{glyphs: vfTris(3), cmap: tab}
	a, b := vfParse(fa.bytes()), vfParse(fb.bytes())
	err := a.Merge(b, MergeOptions{})
	vfAssert((err != nil) == (z == x || z == y), "fonts conflict exactly when they share a rune")
	if err != nil {
		vfReach("conflict")
		return
	}
	vfReach("merged")
	t := vfParse(a.Write())
	r := vfI32("rune")
	want := b.GlyphIndex(r)
	if want != 0 {
		want += 2
	}
	if r == rune(z) {
		want = 1
	}
	vfAssert(t.GlyphIndex(r) == want, "mapping of a rune")
}

// RearrangeCmap maps U+0021 and the following runes to the glyphs in order.
//
//vf:quick
//vf:opt reach=done
func vhRearrange() {
	x := vfU32("x")
	vfAssume(x <= 0x10FFFF)
	mk := func() *vfFont {
		return &vfFont{glyphs: vfTris(4), cmap: vfCmap(3, 10, vfCmap12([3]uint32{x, x, 1}))}
	}
	a, _, _, t := vfMerged(mk(), mk(), MergeOptions{RearrangeCmap: true})
	r := vfI32("rune")
	want := uint16(0)
	if 33 <= r && r < 33+6 {
		want = uint16(r - 32)
	}
	vfAssert(a.GlyphIndex(r) == want && t.GlyphIndex(r) == want, "rearranged mapping of a rune")
	vfReach("done")
}

// Metrics: arbitrary advances, side bearings and (va, vb) vertical metrics, ha and hb full horizontal records of 3 glyphs.
//
//vf:quick ha=1 hb=2 va=0 vb=0
//vf:quick ha=3 hb=1 va=2 vb=1
//vf:quick ha=2 hb=3 va=3 vb=0
//vf:thorough ha=1..3 hb=1..3 va=0..3 vb=0..3
//vf:opt reach=kept
func vhMetrics() {
	mk := func(nh, nv int) *vfFont {
		f := &vfFont{glyphs: vfTris(3), cmap: vfNoCmap()}
		for i := 0; i < nh; i++ {
			f.adv = append(f.adv, vfU16("adv"))
			f.lsb = append(f.lsb, vfI16("lsb"))
		}
		for i := nh; i < 3; i++ {
			f.tail = append(f.tail, vfI16("lsb"))
		}
		if nv > 0 {
			f.vhea = vf32(nil, 0x00011000)
			f.vhea = append(f.vhea, vf16s(500, 0xFE0C, 0, 1000, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, uint16(nv))...)
			for i := 0; i < nv; i++ {
				f.vmtx = vf16s2(f.vmtx, vfI16("vadv"), vfI16("tsb"))
			}
			for i := nv; i < 3; i++ {
				f.vmtx = vf16s2(f.vmtx, vfI16("tsb"))
			}
		}
		return f
	}
	fa, fb := mk(vfParam("ha"), vfParam("va")), mk(vfParam("hb"), vfParam("vb"))
	a, orig, b, t := vfMerged(fa, fb, MergeOptions{})
	for _, u := range []*SFNT{a, t} {
		for i := uint16(0); i < 5; i++ {
			s, g := orig, i
			if i >= 3 {
				s, g = b, i-2
			}
			vfAssert(u.GlyphAdvance(i) == s.GlyphAdvance(g), "advance of a glyph")
			vfAssert(u.Hmtx.LeftSideBearing(i) == s.Hmtx.LeftSideBearing(g), "left side bearing of a glyph")
			if orig.Vmtx != nil {
				vfAssert(u.GlyphVerticalAdvance(i) == s.GlyphVerticalAdvance(g), "vertical advance of a glyph")
				if s.Vmtx != nil {
					vfAssert(u.Vmtx.TopSideBearing(i) == s.Vmtx.TopSideBearing(g), "top side bearing of a glyph")
				}
			}
		}
	}
	vfReach("kept")
}

// Other tables: arbitrary limits in maxp, arbitrary unicode ranges and a mapping of one arbitrary rune each. The merged limits are those of both fonts, the ranges are those of both fonts, and the first and last character are those of the mapping.
//
//vf:quick va=0 vb=4
//vf:quick va=4 vb=1
//vf:thorough va=0..5 vb=0..5
//vf:opt reach=kept
func vhLimits() {
	mk := func(v int, r uint32) *vfFont {
		f := &vfFont{glyphs: vfTris(2), cmap: vfCmap(3, 10, vfCmap12([3]uint32{r, r, 1})), maxp: vfBytes("maxp", 32), os2: vfOS2(v)}
		copy(f.maxp, []byte{0, 1, 0, 0, 0, 2})
		copy(f.os2[42:], vfBytes("ranges", 16))
		return f
	}
	ra, rb := vfU32("ra"), vfU32("rb")
	vfAssume(ra != rb && ra <= 0x10FFFF && rb <= 0x10FFFF)
	fa, fb := mk(vfParam("va"), ra), mk(vfParam("vb"), rb)
	ma, mb := fa.maxp, fb.maxp
	a, orig, b, t := vfMerged(fa, fb, MergeOptions{})
	for _, u := range []*SFNT{a, t} {
		vfAssert(u.OS2.UlUnicodeRange1 == orig.OS2.UlUnicodeRange1|b.OS2.UlUnicodeRange1 && u.OS2.UlUnicodeRange2 == orig.OS2.UlUnicodeRange2|b.OS2.UlUnicodeRange2, "unicode ranges")
		vfAssert(u.OS2.UlUnicodeRange3 == orig.OS2.UlUnicodeRange3|b.OS2.UlUnicodeRange3 && u.OS2.UlUnicodeRange4 == orig.OS2.UlUnicodeRange4|b.OS2.UlUnicodeRange4, "unicode ranges")
		vfAssert(uint32(u.OS2.UsFirstCharIndex) == min(min(ra, rb), 0xFFFF) && uint32(u.OS2.UsLastCharIndex) == min(max(ra, rb), 0xFFFF), "first and last character")
	}
	m := a.Tables["maxp"]
	for i := 6; i < 32; i += 2 {
		vfAssert(vfGet16(m, i) == max(vfGet16(ma, i), vfGet16(mb, i)), "limits in maxp")
	}
	vfReach("kept")
}

// Kerning: sa and sb subtables (0: no kern table) of p pairs each with arbitrary keys, values and coverage; ng glyphs per font, CFF fonts with cff=1. With wild=1 the keys may name glyphs that the font does not have.
//
//vf:quick sa=1 sb=1 p=1 ng=3 cff=0..1 wild=0
//vf:quick sa=0 sb=1 p=2 ng=3 cff=0 wild=0
//vf:quick sa=0 sb=1 p=1 ng=3 cff=1 wild=0
//vf:quick sa=2 sb=0 p=1 ng=3 cff=0 wild=0
//vf:quick sa=1 sb=1 p=1 ng=20 cff=0 wild=0
//vf:thorough sa=0..2 sb=0..2 p=1..2 ng=3 cff=0..1 wild=0
//vf:thorough sa=0..1 sb=1 p=1 ng=40 cff=0 wild=0
//vf:quick sa=1 sb=1 p=1 ng=3 cff=0 wild=1
//vf:thorough sa=1..2 sb=1 p=1..2 ng=3 cff=0..1 wild=1
//vf:opt reach=first,other,mixed
func vhKern() {
	ng := vfParam("ng")
	mk := func(n int) *vfFont {
		f := &vfFont{glyphs: vfTris(ng), cmap: vfNoCmap()}
		if vfParam("cff") == 1 {
			f = vfCFFFont(&vfCFF{chars: vfCFFTris(ng), charset: vfCharset0(1, 2)})
			f.cmap = vfNoCmap()
		}
		var subs []vfKernSub
		for i := 0; i < n; i++ {
			sub := vfKernSub{cov: vfU8("coverage") & 0x0F}
			last := uint32(0)
			for j := 0; j < vfParam("p"); j++ {
				k := uint32(vfInt("left", 0, ng-1))<<16 | uint32(vfInt("right", 0, ng-1))
				if vfParam("wild") == 1 {
					k = vfU32("key")
				}
				vfAssume(last < k || j == 0)
				last = k
				sub.keys = append(sub.keys, k)
				sub.vals = append(sub.vals, vfI16("value"))
			}
			subs = append(subs, sub)
		}
		if n > 0 {
			f.kern = vfKernTab(subs)
		}
		return f
	}
	fa, fb := mk(vfParam("sa")), mk(vfParam("sb"))
	a, b := vfParse(fa.bytes()), vfParse(fb.bytes())
	orig := vfParse(fa.bytes())
	err := a.Merge(b, MergeOptions{})
	vfAssert(err == nil, "merging failed")
	t := vfParse(a.Write())
	l, r := uint16(vfInt("l", 0, 2*ng-2)), uint16(vfInt("r", 0, 2*ng-2))
	n := uint16(ng)
	want := int16(0)
	if l < n && r < n {
		want = orig.Kerning(l, r)
		vfReach("first")
	} else if l >= n && r >= n {
		want = b.Kerning(l-n+1, r-n+1)
		vfReach("other")
	} else {
		vfReach("mixed")
	}
	vfAssert(a.Kerning(l, r) == want, "kerning of a pair")
	vfAssert(t.Kerning(l, r) == want, "kerning of a pair in the written font")
}

// Glyph names: post tables of version pa and pb with arbitrary name indices from lo (or none), and custom names of n arbitrary bytes (with lo>0 the first one is one of A to D).
//
//vf:quick pa=2 pb=2 n=1 lo=257
//vf:quick pa=2 pb=3 n=1 lo=256
//vf:quick pa=3 pb=2 n=1 lo=257
//vf:quick pa=1 pb=2 n=1 lo=256
//vf:quick pa=2 pb=1 n=1 lo=256
//vf:thorough pa=1..3 pb=1..3 n=1..2 lo=0
//vf:opt reach=named
func vhNames() {
	const ng = 3
	mk := func(v int) *vfFont {
		f := &vfFont{glyphs: vfTris(ng), cmap: vfNoCmap()}
		switch v {
		case 1:
			f.post = vfPost3()
			copy(f.post, []byte{0, 1, 0, 0})
		case 2:
			i := uint16(vfInt("index", vfParam("lo"), 259))
			name := vfBytes("name", vfParam("n"))
			if vfParam("lo") > 0 {
				name[0] = name[0]&3 + 'A'
			}
			f.post = vfPost2([]uint16{0, i, 258}, [][]byte{name, []byte("abc")})
		}
		return f
	}
	a, orig, b, t := vfMerged(mk(vfParam("pa")), mk(vfParam("pb")), MergeOptions{})
	if vfParam("pa") == 3 {
		vfReach("named")
		for i := uint16(0); i < 2*ng-1; i++ {
			vfAssert(a.GlyphName(i) == "" && t.GlyphName(i) == "", "unnamed glyphs")
		}
		return
	}
	for _, u := range []*SFNT{a, t} {
		for i := uint16(0); i < 2*ng-1; i++ {
			s, g := orig, i
			if i >= ng {
				s, g = b, i-ng+1
			}
			name := s.GlyphName(g)
			if name == "" {
				continue
			}
			vfReach("named")
			vfAssert(u.GlyphName(i) == name, "name of a glyph")
			vfAssert(u.GlyphName(u.FindGlyphName(name)) == name, "glyph found by name")
		}
	}
}

// Composite glyphs of the other font with arbitrary bytes: an error or a font that can be written, never a crash.
//
//vf:quick n=6
//vf:thorough n=0..16/2
//vf:opt reach=ok,error
func vhMalformed() {
	comp := append(vf16s(0xFFFF, 0, 0, 0, 0), vfBytes("data", vfParam("n"))...)
	b := vfParse((&vfFont{glyphs: append(vfTris(2), comp), cmap: vfNoCmap()}).bytes())
	a := vfParse((&vfFont{glyphs: vfTris(2), cmap: vfNoCmap()}).bytes())
	if a.Merge(b, MergeOptions{}) != nil {
		vfReach("error")
		return
	}
	vfParse(a.Write())
	vfReach("ok")
}

// Other fonts with a loca table whose entries are arbitrary (the middle two, or all with all=1).
//
//vf:quick long=0 all=0
//vf:quick long=1 all=0
//vf:thorough long=0..1 all=1
//vf:opt reach=ok,error
func vhMalformedLoca() {
	f := &vfFont{glyphs: vfTris(3), cmap: vfNoCmap(), long: vfParam("long") == 1}
	u := 2 * (1 + vfParam("long"))
	if f.loca = vfBytes("loca", 4*u); vfParam("all") == 0 {
		f.loca = append(append(make([]byte, u), f.loca[u:3*u]...), make([]byte, u)...)
		f.loca[4*u-1] = byte(90 / (2 - vfParam("long")))
	}
	b, err := ParseSFNT(f.bytes(), 0)
	vfAssume(err == nil)
	a := vfParse((&vfFont{glyphs: vfTris(2), cmap: vfNoCmap()}).bytes())
	if a.Merge(b, MergeOptions{}) != nil {
		vfReach("error")
		return
	}
	a.Write()
	vfReach("ok")
}

// CFF outlines: font a has la local and ga global subroutines, font b lb and gb, every subroutine drawing an arbitrary line; each of the two glyphs of each font calls an arbitrary local and global subroutine and then one that calls another.
//
//vf:quick la=2 ga=2 lb=2 gb=2
//vf:quick la=0,2 ga=2 lb=2 gb=0
//vf:quick la=2 ga=0 lb=0 gb=2
//vf:quick la=0 ga=0 lb=0,2 gb=0
//vf:quick la=2 ga=2 lb=0 gb=0
//vf:thorough la=0..3 ga=0..3 lb=0..3 gb=0..3
//vf:opt reach=same
func vhCFFOutlines() {
	mk := func(l, g, k int) *vfFont {
		c := &vfCFF{chars: [][]byte{vfCFFTri(0)}}
		for i := 0; i < l; i++ {
			c.lsubrs = append(c.lsubrs, vfDrawSubr())
		}
		for i := 0; i < g; i++ {
			c.gsubrs = append(c.gsubrs, vfDrawSubr())
		}
		nl, ng := l, g
		if l > 0 && g > 0 {
			nl++
			c.lsubrs = append(c.lsubrs, vfCat(vfNum(3), vfNum(k), []byte{5}, vfCall(true, g-1, g), []byte{11}))
		}
		for i := 0; i < 2; i++ {
			code := vfCat(vfNum(k), vfNum(i), []byte{21}, vfNum28(int(vfI16("h"))), []byte{6})
			if l > 0 {
				code = append(code, vfCall(false, vfConc(vfInt("l", 0, l-1)), nl)...)
			}
			if g > 0 {
				code = append(code, vfCall(true, vfConc(vfInt("g", 0, g-1)), ng)...)
			}
			if i == 1 && nl > l {
				code = append(code, vfCall(false, l, nl)...)
			}
			c.chars = append(c.chars, append(code, 14))
		}
		c.charset = vfCharset0(uint16(10+k), uint16(11+k))
		f := vfCFFFont(c)
		f.cmap = vfNoCmap()
		return f
	}
	fa := mk(vfParam("la"), vfParam("ga"), 20)
	fb := mk(vfParam("lb"), vfParam("gb"), 30)
	vfCFFSameMerge(vfMerged(fa, fb, MergeOptions{}))
}

func vfCFFSameMerge(a, orig, b, t *SFNT) {
	for _, u := range []*SFNT{a, t} {
		for g := uint16(0); g < orig.NumGlyphs(); g++ {
			vfSameGlyph(orig, g, u, g, "of the first font")
			vfAssert(orig.GlyphName(g) == u.GlyphName(g), "glyph name of the first font")
		}
		for g := uint16(1); g < b.NumGlyphs(); g++ {
			vfSameGlyph(b, g, u, orig.NumGlyphs()+g-1, "of the other font")
			vfAssert(b.GlyphName(g) == u.GlyphName(orig.NumGlyphs()+g-1), "glyph name of the other font")
		}
	}
}

// Bias changes: font a has na local (q=0) or global (q=1) subroutines and font b nb; the sum may cross the bias threshold. Each font's glyph calls the first, the last and an arbitrary one in between; one subroutine of each font calls another one.
//
//vf:quick q=0..1 na=100,700,1239 nb=1,600
//vf:quick q=0 na=1,1240 nb=1239
//vf:thorough q=0..1 na=1,2,107,108,215,700,1238..1241 nb=1,2,108,216,600,1239,1240
//vf:opt reach=same steps=1e9
func vhCFFBias() {
	global := vfParam("q") == 1
	mk := func(n, k int) *vfFont {
		c := &vfCFF{}
		var subrs [][]byte
		for i := 0; i < n; i++ {
			s := vfCat(vfNum(i%100), vfNum(i/100+k), []byte{5, 11})
			if i == n-1 && i > 0 {
				s = vfCat(vfNum(9), []byte{7}, vfCall(global, n/2, n), vfNum(8), []byte{6, 11})
			}
			subrs = append(subrs, s)
		}
		if global {
			c.gsubrs = subrs
		} else {
			c.lsubrs = subrs
		}
		m := vfConc(vfInt("m", 0, 2)) * (n - 1) / 3
		c.chars = [][]byte{vfCFFTri(0), vfCFFTri(k), vfCat(vfNum28(int(vfI16("x"))), vfNum(2), []byte{21}, vfCall(global, 0, n), vfCall(global, m, n), vfNum28(int(vfI16("h"))), []byte{6}, vfCall(global, n-1, n), vfNum28(int(vfI16("h"))), []byte{7, 14})}
		c.charset = vfCharset0(uint16(1+k), 200)
		f := vfCFFFont(c)
		f.cmap = vfNoCmap()
		return f
	}
	vfCFFSameMerge(vfMerged(mk(vfParam("na"), 10), mk(vfParam("nb"), 20), MergeOptions{}))
}
