package font

//vf:use kit.go subset.go unirange.go

// A font that maps n arbitrary runes (n-1 of them in fixed blocks when fix=1) to glyphs 1..n; the list retains the first k glyphs. The bits, first and last character of the subset's OS/2 record are those of the retained runes.
//
//vf:quick n=1 k=1 fix=0 opt=0..1
//vf:quick n=2 k=1 fix=0 opt=0
//vf:quick n=2 k=2 fix=1 opt=0
//vf:thorough n=2..3 k=1..2 fix=0..1 opt=0..1
//vf:opt reach=done
func vhRanges() {
	n, k := vfParam("n"), vfParam("k")
	if k > n {
		vfReach("done")
		return
	}
	var gs [][3]uint32
	var rs []uint32
	for i := 0; i < n; i++ {
		r := vfU32("rune")
		if i > 0 && vfParam("fix") == 1 {
			r = []uint32{0, 0x2603, 0x1F0A1}[i]
		}
		vfAssume(r <= 0x10FFFF && (i == 0 || rs[i-1] < r))
		rs = append(rs, r)
		gs = append(gs, [3]uint32{r, r, uint32(i + 1)})
	}
	os2 := vfOS2(4)
	copy(os2[42:], vfBytes("ranges", 16))
	copy(os2[64:], vfBytes("chars", 4))
	s := vfParse((&vfFont{glyphs: vfTris(n + 1), os2: os2, cmap: vfCmap(3, 10, vfCmap12(gs...))}).bytes())
	list := []uint16{0, 1, 2, 3}[:1+k]
	sub := vfSubset(s, list, vfTables(vfParam("opt")))
	t := vfParse(sub.Write())
	var must, may [4]uint32
	first, last := rs[0], rs[k-1]
	for _, r := range rs[:k] {
		p, q := vfRangeBits(r)
		for i := range must {
			must[i] |= p[i]
			may[i] |= q[i]
		}
	}
	if first > 0xFFFF {
		first = 0xFFFF
	}
	if last > 0xFFFF {
		last = 0xFFFF
	}
	got := [4]uint32{t.OS2.UlUnicodeRange1, t.OS2.UlUnicodeRange2, t.OS2.UlUnicodeRange3, t.OS2.UlUnicodeRange4}
	vfObs("bits", int64(got[0]), int64(got[1]), int64(got[2]), int64(got[3]), int64(t.OS2.UsFirstCharIndex), int64(t.OS2.UsLastCharIndex))
	vfAssert(sub.OS2.UlUnicodeRange1 == got[0] && sub.OS2.UlUnicodeRange2 == got[1] && sub.OS2.UlUnicodeRange3 == got[2] && sub.OS2.UlUnicodeRange4 == got[3], "range bits before and after writing")
	for i := range must {
		vfAssert(got[i]&must[i] == must[i], "range bit of a retained rune is not set")
		vfAssert(got[i]&^may[i] == 0, "range bit without a retained rune is set")
	}
	vfAssert(uint32(t.OS2.UsFirstCharIndex) == first, "first character index")
	vfAssert(uint32(t.OS2.UsLastCharIndex) == last, "last character index")
	vfReach("done")
}

// A subset without mapped runes has no range bits.
//
//vf:quick
func vhNone() {
	r := vfU32("rune")
	vfAssume(r <= 0x10FFFF)
	os2 := vfOS2(4)
	copy(os2[42:], vfBytes("ranges", 16))
	s := vfParse((&vfFont{glyphs: vfTris(3), os2: os2, cmap: vfCmap(3, 10, vfCmap12([3]uint32{r, r, 1}))}).bytes())
	t := vfParse(vfSubset(s, []uint16{0, 2}, KeepAllTables).Write())
	vfAssert(t.OS2.UlUnicodeRange1|t.OS2.UlUnicodeRange2|t.OS2.UlUnicodeRange3|t.OS2.UlUnicodeRange4 == 0, "range bit without a retained rune is set")
}
