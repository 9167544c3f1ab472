package font

//vf:use kit.go cmapref.go

// vfList is a glyph list that starts with glyph 0: for k<4 a fixed list of k further glyphs of 1..4 (not in order and with gaps, the glyphs in the cmap are arbitrary), otherwise k-3 distinct arbitrary glyphs of 1..n-1.
func vfList(k, n int) []uint16 {
	switch k {
	case 0:
		return []uint16{0}
	case 1:
		return []uint16{0, 2}
	case 2:
		return []uint16{0, 3, 1}
	case 3:
		return []uint16{0, 3, 1, 2}
	}
	list := []uint16{0}
	for i := 3; i < k; i++ {
		g := uint16(vfConc(vfInt("glyph", 1, n-1)))
		for _, h := range list[1:] {
			vfAssume(g != h)
		}
		list = append(list, g)
	}
	return list
}

// vfCheckMapping subsets the font, writes and parses it, and compares the mapping of an arbitrary rune.
func vfCheckMapping(s *SFNT, list []uint16) {
	r := vfI32("rune")
	want, old := uint16(0), s.GlyphIndex(r)
	for i, g := range list {
		if g == old {
			want = uint16(i)
		}
	}
	opt := SubsetOptions{Tables: KeepAllTables}
	if vfParam("min") == 1 {
		opt.Tables = KeepMinTables
	}
	sub, err := s.Subset(append([]uint16{}, list...), opt)
	vfAssert(err == nil, "subsetting failed")
	got := sub.GlyphIndex(r)
	vfObs("g", int64(r), int64(old), int64(got))
	vfAssert(got == want, "mapping of a rune in the subset")
	t := vfParse(sub.Write())
	vfAssert(t.GlyphIndex(r) == want, "mapping of a rune in the written subset")
	if want != 0 {
		vfReach("retained")
	} else if old != 0 {
		vfReach("dropped")
	}
	vfReach("subset")
}

func vfMapFont(ng int, cmap []byte) *SFNT {
	s, err := ParseSFNT((&vfFont{glyphs: vfTris(ng), cmap: cmap}).bytes(), 0)
	vfAssume(err == nil)
	return s
}

// Format 12 source with n groups of w runes each with arbitrary codes and glyphs.
//
//vf:quick n=1 w=1..3 k=1..2 min=0
//vf:quick n=2 w=1 k=1..2 min=1
//vf:thorough n=1 w=1..3 k=0..5 min=0..1
//vf:thorough n=2 w=1..2 k=0..4 min=0
//vf:thorough n=3 w=1 k=1..2 min=0
//vf:opt reach=subset,retained,dropped
func vhFrom12() {
	const ng = 4
	var gs [][3]uint32
	for i := 0; i < vfParam("n"); i++ {
		st := vfU32("start")
		l := uint32(vfParam("w") - 1)
		vfAssume(st <= 0x7FFFFFFF-l)
		if i > 0 {
			vfAssume(gs[i-1][1] < st)
		}
		g := uint32(vfInt("first", 0, ng-1))
		vfAssume(g+l < ng)
		gs = append(gs, [3]uint32{st, st + l, g})
	}
	s := vfMapFont(ng, vfCmap(3, 10, vfCmap12(gs...)))
	vfCheckMapping(s, vfList(vfParam("k"), ng))
}

// Format 4 source: a delta segment and an array segment with arbitrary codes and glyphs.
//
//vf:quick k=1..2 min=0
//vf:thorough k=0..5 min=0..1
//vf:opt reach=subset,retained,dropped
func vhFrom4() {
	const ng = 4
	a, b := vfU16("a"), vfU16("b")
	vfAssume(a < b && b < 0xFFFE)
	d := uint16(vfInt("g0", 0, 3))
	s := vfMapFont(ng, vfCmap(3, 1, vfCmap4([]vfSeg{{a, a, d - a, 0}, {b, b + 1, 0, 4}, {0xFFFF, 0xFFFF, 1, 0}}, []uint16{uint16(vfInt("g1", 0, 3)), 1})))
	vfCheckMapping(s, vfList(vfParam("k"), ng))
}

// Format 6 source: n consecutive codes from an arbitrary first code with arbitrary glyphs.
//
//vf:quick n=2 k=1..2 min=0
//vf:thorough n=1..4 k=0..5 min=0..1
//vf:opt reach=subset,retained
func vhFrom6() {
	const ng = 4
	var arr []uint16
	for i := 0; i < vfParam("n"); i++ {
		arr = append(arr, uint16(vfInt("g", 0, ng-1)))
	}
	first := vfU16("first")
	vfAssume(int(first)+len(arr) <= 0x10000)
	s := vfMapFont(ng, vfCmap(3, 1, vfCmap6(first, arr)))
	vfCheckMapping(s, vfList(vfParam("k"), ng))
}

// Format 0 source.
//
//vf:quick k=2 n=1 min=0
//vf:thorough k=0..4 n=4 min=0..1
//vf:opt reach=subset,retained
func vhFrom0() {
	const ng = 4
	sub := append(vf16s(0, 262, 0), make([]byte, 256)...)
	for _, c := range []int{0, 255, 65, 66}[:vfParam("n")] {
		sub[6+c] = byte(vfInt("g", 0, ng-1))
	}
	s := vfMapFont(ng, vfCmap(1, 0, sub))
	vfCheckMapping(s, vfList(vfParam("k"), ng))
}

// Two subtables that may disagree.
//
//vf:quick k=1 w=1 min=0
//vf:thorough k=0..4 w=1..2 min=0..1
//vf:opt reach=subset,retained
func vhFromTwo() {
	const ng = 4
	t := vf16s(0, 2, 0, 4, 0, 20, 3, 10, 0, 48)
	a, b := vfU32("a"), vfU32("b")
	vfAssume(a <= 0x10FFFE && b <= 0x10FFFE)
	l := uint32(vfParam("w") - 1)
	t = append(t, vfCmap12([3]uint32{a, a + l, uint32(vfInt("ga", 1, 2))})...)
	t = append(t, vfCmap12([3]uint32{b, b + l, uint32(vfInt("gb", 1, 2))})...)
	s := vfMapFont(ng, t)
	vfCheckMapping(s, vfList(vfParam("k"), ng))
}

// n consecutive runes from base to glyphs 1..n; the list retains them in three blocks cut at arbitrary places, the last one first and the middle one reversed, so that glyph IDs are contiguous for runs of every length; the glyphs skip and skip+1 are left out; far adds a lone rune far away.
//
//vf:quick n=12 base=65 skip=0 far=0 min=0
//vf:quick n=12 base=65520 skip=5 far=0 min=0
//vf:quick n=5 base=65533 skip=0 far=0 min=0
//vf:quick n=9 base=65 skip=0 far=128512 min=0
//vf:thorough n=20 base=32 skip=0,11 far=0,65534,65536 min=0
//vf:thorough n=20 base=55290,65514,70000 skip=0,9 far=0 min=0
//vf:opt reach=subset,retained steps=4e7
func vhBlocks() {
	n := vfParam("n")
	base := uint32(vfParam("base"))
	gs := [][3]uint32{{base, base + uint32(n-1), 1}}
	if f := uint32(vfParam("far")); f != 0 {
		gs = append(gs, [3]uint32{f, f, uint32(n)})
	}
	s := vfMapFont(n+1, vfCmap(3, 10, vfCmap12(gs...)))
	a := vfConc(vfInt("a", 0, n))
	b := vfConc(vfInt("b", 0, n))
	vfAssume(a <= b)
	list := []uint16{0}
	add := func(g int) {
		if k := vfParam("skip"); k == 0 || g != k && g != k+1 {
			list = append(list, uint16(g))
		}
	}
	for g := b + 1; g <= n; g++ {
		add(g)
	}
	for g := b; g > a; g-- {
		add(g)
	}
	for g := 1; g <= a; g++ {
		add(g)
	}
	vfCheckMapping(s, list)
}

// n (a multiple of 3) consecutive runes to blocks of three glyphs in reverse order, too many for the length field of cmap format 4 in the larger case, without the block of rune gap (when not zero); a rune around the given places.
//
//vf:quick n=32802 at=0,16383,32801 gap=0 min=0
//vf:quick n=9000 at=0,4095,8190 gap=0,4200 min=0
//vf:thorough n=32703,32748,32751,32754,32757,32802 at=0,16383,32748 gap=0,300,32400 min=0
//vf:opt reach=subset,retained steps=4e8
func vhLarge() {
	n := vfParam("n")
	f := &vfFont{glyphs: make([][]byte, n+1), ng: n + 1, cmap: vfCmap(3, 10, vfCmap12([3]uint32{0x20, 0x20 + uint32(n-1), 1}))}
	f.glyphs[n] = vfTris(2)[1]
	s, err := ParseSFNT(f.bytes(), 0)
	vfAssert(err == nil, "parse")
	list := []uint16{0}
	pos := make([]uint16, n+1)
	for g := n - 3; g >= 0; g -= 3 { // blocks of three glyphs, the last block first
		if gap := vfParam("gap"); gap != 0 && g/3 == gap/3 {
			continue
		}
		for i := 1; i <= 3; i++ {
			pos[g+i] = uint16(len(list))
			list = append(list, uint16(g+i))
		}
	}
	sub, err := s.Subset(list, SubsetOptions{Tables: KeepAllTables})
	vfAssert(err == nil, "subsetting failed")
	t := vfParse(sub.Write())
	d := vfConc(vfInt("d", 0, 3))
	r := 0x20 + vfParam("at") + d - 2
	want := uint16(0)
	if i := r - 0x20; 0 <= i && i < n {
		want = pos[i+1]
		vfReach("retained")
	}
	vfAssert(t.GlyphIndex(rune(r)) == want, "mapping of a rune in the written subset")
	if g := vfParam("gap"); g != 0 {
		r := vfI32("rune")
		vfAssume(r < 0x20 || 0x20+int32(n) <= r || r/3 == int32(g)/3+10 && r%3 == 2)
		vfAssert(r < 0x20 || t.GlyphIndex(r) == 0, "rune without a glyph in the subset")
	}
	vfReach("subset")
}

// Many glyphs: n consecutive runes from base are mapped to glyphs 1..n in order; the list starts with glyph 0 and then has (pat=0) all
// glyphs in order, (pat=1) all glyphs in order but rotated by twelve, so that low runes map to the highest glyphs, (pat=2) runs of twelve
// glyphs in order between swapped pairs; any rune is looked up.
//
//vf:quick n=255..257 base=65 pat=0..1 min=0
//vf:quick n=33000 base=33 pat=0..1 min=0
//vf:quick n=65534 base=66000 pat=0..1 min=0
//vf:quick n=300,520 base=65280,60 pat=2 min=0
//vf:thorough n=510..514,1024,4100 base=65,65000,70000 pat=0..2 min=0..1
//vf:thorough n=32767..32770,65000 base=33 pat=0..1 min=0
//vf:opt reach=subset,retained steps=4e8
func vhMany() {
	n, base, pat := vfParam("n"), vfParam("base"), vfParam("pat")
	f := &vfFont{glyphs: make([][]byte, n+1), ng: n + 1, cmap: vfCmap(3, 10, vfCmap12([3]uint32{uint32(base), uint32(base + n - 1), 1}))}
	f.glyphs[n] = vfTris(2)[1]
	s, err := ParseSFNT(f.bytes(), 0)
	vfAssert(err == nil, "parse")
	list := []uint16{0}
	for g := 1; g <= n; g++ {
		switch pat {
		case 0:
			list = append(list, uint16(g))
		case 1:
			list = append(list, uint16(1+(g+11)%n))
		case 2:
			k := g
			if g%14 == 12 && g < n {
				k = g + 1
			} else if g%14 == 13 {
				k = g - 1
			}
			list = append(list, uint16(k))
		}
	}
	pos := make([]int, n+1)
	for i, g := range list {
		pos[g] = i
	}
	vfCheckMappingIn(s, list, pos, base, n)
}

// vfCheckMappingIn compares the mapping of a rune: of any one outside the runes from base and of those at various places.
func vfCheckMappingIn(s *SFNT, list []uint16, pos []int, base, n int) {
	opt := SubsetOptions{Tables: KeepAllTables}
	if vfParam("min") == 1 {
		opt.Tables = KeepMinTables
	}
	sub, err := s.Subset(append([]uint16{}, list...), opt)
	vfAssert(err == nil, "subsetting failed")
	t := vfParse(sub.Write())
	if vfBool("outside") {
		r := vfI32("rune")
		vfAssume(int(r) < base || base+n <= int(r))
		vfAssert(t.GlyphIndex(r) == 0, "rune that the source does not map")
		vfReach("subset")
		return
	}
	if vfParam("pat") < 2 {
		i := vfInt("i", 0, n-1)
		want := i + 1 // the rune's glyph in the source
		if vfParam("pat") == 1 {
			if want <= 12 {
				want += n
			}
			want -= 12
		}
		vfAssert(int(t.GlyphIndex(rune(base+i))) == want, "mapping of a rune in the written subset")
	} else {
		for i := 0; i < n; i++ {
			vfAssert(int(t.GlyphIndex(rune(base+i))) == pos[i+1], "mapping of a rune in the written subset")
		}
	}
	vfReach("retained")
}
