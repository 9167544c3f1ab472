package font

//vf:use kit.go cffkit.go cffsub.go kernref.go glyfref.go subset.go

type vfState struct {
	tabs        map[string]string
	head        headTable
	hhea        hheaTable
	os2         os2Table
	maxp        maxpTable
	post        postTable
	adv         []uint16
	names       []string
	paths       []*vfPath
	runes       []rune
	kern        []int16
	length      uint32
	version     string
	ntrue, ncff bool
}

func vfSnap(s *SFNT) *vfState {
	x := &vfState{tabs: map[string]string{}, head: *s.Head, hhea: *s.Hhea, os2: *s.OS2, maxp: *s.Maxp, length: s.Length, version: s.Version, ntrue: s.IsTrueType, ncff: s.IsCFF}
	for tag, b := range s.Tables {
		x.tabs[tag] = string(b)
	}
	for g := uint16(0); g < s.NumGlyphs(); g++ {
		x.adv = append(x.adv, s.GlyphAdvance(g), s.GlyphVerticalAdvance(g))
		x.names = append(x.names, s.GlyphName(g))
		p := &vfPath{}
		s.GlyphPath(p, g, 0, 0, 0, 1, NoHinting)
		x.paths = append(x.paths, p)
		x.runes = append(x.runes, s.GlyphToUnicode(g)...)
		for h := uint16(0); h < s.NumGlyphs(); h++ {
			x.kern = append(x.kern, s.Kerning(g, h))
		}
	}
	return x
}

func vfSameState(a, b *vfState) {
	vfAssert(len(a.tabs) == len(b.tabs), "number of tables changed")
	for tag, t := range a.tabs {
		vfAssert(b.tabs[tag] == t, "table bytes changed")
	}
	vfAssert(a.head == b.head && a.hhea == b.hhea && a.maxp == b.maxp, "header fields changed")
	vfAssert(a.os2 == b.os2, "OS/2 fields changed")
	vfAssert(a.length == b.length && a.version == b.version && a.ntrue == b.ntrue && a.ncff == b.ncff, "font fields changed")
	vfAssert(len(a.adv) == len(b.adv) && len(a.runes) == len(b.runes), "number of glyphs or runes changed")
	for i := range a.adv {
		vfAssert(a.adv[i] == b.adv[i], "advance changed")
	}
	for i := range a.names {
		vfAssert(a.names[i] == b.names[i], "glyph name changed")
	}
	for i := range a.runes {
		vfAssert(a.runes[i] == b.runes[i], "rune mapping changed")
	}
	for i := range a.kern {
		vfAssert(a.kern[i] == b.kern[i], "kerning changed")
	}
	for i := range a.paths {
		vfAssert(len(a.paths[i].op) == len(b.paths[i].op) && vfSamePath(a.paths[i], b.paths[i]), "outline changed")
	}
}

// A font with a composite glyph, kerning, names and arbitrary metrics, OS/2 fields, runes and padding tables; the list (a slice of a larger array) has k arbitrary glyphs. The font is subset twice and written in between; opt=3 names the tables.
//
//vf:quick k=1 opt=0..3
//vf:quick k=2 opt=0
//vf:thorough k=0..3 opt=0..3
//vf:opt reach=done
func vhSource() {
	how := vfParam("opt")
	comp := vf16s(0xFFFF, 0, 0, 9, 9, 0x22, 1, 0, 2, 2, 0)
	f := &vfFont{glyphs: append(vfTris(3), comp)}
	f.post = vfPost2([]uint16{0, 36, 258, 259}, [][]byte{vfBytes("name", 2), []byte("four")})
	f.os2 = vfOS2(4)
	copy(f.os2[42:], vfBytes("ranges", 16))
	copy(f.os2[64:], vfBytes("chars", 4))
	f.adv = []uint16{500, vfU16("adv"), 600, 600}
	r := uint32(vfU16("rune"))
	vfAssume(r < 0xFFF0)
	f.cmap = vfCmap(3, 10, vfCmap12([3]uint32{r, r + 1, 2}))
	f.kern = vfKernTab([]vfKernSub{{cov: 1, keys: []uint32{0x00010002, 0x00030001}, vals: []int16{vfI16("kern"), -5}}})
	f.extra = []vfTab{{"prep", vfBytes("prep", 3)}}
	b := f.bytes()
	s := vfParse(b)
	orig := string(b)
	arr := []uint16{0, 0, 0, 0, 0xAAAA, 0xBBBB, 0xCCCC}
	for i := 0; i < vfParam("k"); i++ {
		arr[1+i] = uint16(vfConc(vfInt("glyph", 1, 3)))
		for j := 0; j < i; j++ {
			vfAssume(arr[1+i] != arr[1+j])
		}
	}
	list := arr[:1+vfParam("k")]
	var keep [7]uint16
	copy(keep[:], arr)
	tabs := append([]string{}, vfTables(how)...)
	if how == 3 {
		tabs = []string{"post", "OS/2", "prep", "maxp", "loca", "kern", "name", "hmtx", "hhea", "head", "glyf", "cmap"}
	}
	ktabs := append([]string{}, tabs...)
	before := vfSnap(s)
	w0 := string(s.Write())
	sub, err := s.Subset(list, SubsetOptions{Tables: tabs})
	vfAssert(err == nil, "subsetting failed")
	w := string(sub.Write())
	for i := range arr {
		vfAssert(arr[i] == keep[i], "glyph list of the caller changed")
	}
	for i := range tabs {
		vfAssert(tabs[i] == ktabs[i], "table list of the caller changed")
	}
	vfSameState(before, vfSnap(s))
	vfAssert(string(b) == orig, "bytes of the parsed file changed")
	vfAssert(string(s.Write()) == w0, "writing the source gives other bytes after subsetting")
	sub2, err := s.Subset(list, SubsetOptions{Tables: tabs})
	vfAssert(err == nil, "subsetting again failed")
	vfAssert(string(sub2.Write()) == w, "subsetting again gives other bytes")
	vfAssert(string(sub.Write()) == w, "writing the subset again gives other bytes")
	if how == 0 {
		// changing the subset leaves the source alone
		vfAssert(sub.SetGlyphNames([]string{".notdef", "x"}) == nil, "setting names failed")
		sub.Write()
		vfSameState(before, vfSnap(s))
		// a subset of the subset
		_, err = sub.Subset([]uint16{0, 1}, SubsetOptions{Tables: tabs})
		vfAssert(err == nil, "subsetting the subset failed")
		vfSameState(before, vfSnap(s))
	}
	vfReach("done")
}

// A CFF font with local and global subroutines, custom names, kerning, arbitrary metrics, lines and masks; the list (a slice of a larger array) has k arbitrary glyphs. The font is subset twice and written in between; cid=1 is a CID-keyed font of one font.
//
//vf:quick k=1 opt=0..3 cid=0
//vf:quick k=1 opt=0 cid=1
//vf:quick k=2 opt=0 cid=0
//vf:thorough k=0..3 opt=0..3 cid=0..1
//vf:opt reach=done
func vhCFFSource() {
	how := vfParam("opt")
	c := &vfCFF{name: "Test", strs: [][]byte{vfBytes("custom", 2), []byte("two"), []byte("three")}}
	lsubrs := [][]byte{vfDrawSubr(), append(vfCat(vfNum28(int(vfI16("lx"))), []byte{6}), vfCat(vfCall(false, 0, 3), []byte{11})...), vfDrawSubr()}
	c.gsubrs = [][]byte{vfDrawSubr(), vfDrawSubr()}
	move := vfCat(vfNum(10), vfNum(20), []byte{21})
	c.chars = [][]byte{{14},
		vfCat(move, vfCall(false, 1, 3), vfCall(true, 1, 2), []byte{14}),
		vfCat(move, vfNum28(int(vfI16("x"))), vfNum(3), []byte{5}, vfCall(false, 2, 3), []byte{14}),
		vfCat(move, vfCall(true, 0, 2), vfCall(false, 0, 3), []byte{14})}
	if vfParam("cid") == 1 {
		c.fds = []vfFD{{priv: vfCat(vfNum(500), []byte{20}), lsubrs: lsubrs}}
		c.fdsel = []byte{0, 0, 0, 0, 0}
		c.charset = vfCharset0(1, 2, 3)
	} else {
		c.priv, c.lsubrs = vfCat(vfNum(500), []byte{20}), lsubrs
		c.charset = vfCharset0(391, 34, 393)
		c.top = vfCat(vfNum28(391), []byte{2}, vfNum28(392), []byte{3})
	}
	f := vfCFFFont(c)
	f.os2 = vfOS2(4)
	copy(f.os2[42:], vfBytes("ranges", 16))
	f.adv = []uint16{500, vfU16("adv"), 600, 600}
	f.cmap = vfCmap(3, 10, vfCmap12([3]uint32{0x41, 0x42, 2}))
	f.kern = vfKernTab([]vfKernSub{{cov: 1, keys: []uint32{0x00010002, 0x00030001}, vals: []int16{vfI16("kern"), -5}}})
	b := f.bytes()
	s := vfParse(b)
	orig := string(b)
	arr := []uint16{0, 0, 0, 0, 0xAAAA, 0xBBBB, 0xCCCC}
	for i := 0; i < vfParam("k"); i++ {
		arr[1+i] = uint16(vfConc(vfInt("glyph", 1, 3)))
		for j := 0; j < i; j++ {
			vfAssume(arr[1+i] != arr[1+j])
		}
	}
	list := arr[:1+vfParam("k")]
	var keep [7]uint16
	copy(keep[:], arr)
	tabs := append([]string{}, vfTables(how)...)
	if how == 3 {
		tabs = []string{"post", "OS/2", "maxp", "kern", "name", "hmtx", "hhea", "head", "CFF ", "cmap"}
	}
	ktabs := append([]string{}, tabs...)
	before := vfSnap(s)
	w0 := string(s.Write())
	sub, err := s.Subset(list, SubsetOptions{Tables: tabs})
	vfAssert(err == nil, "subsetting failed")
	w := string(sub.Write())
	for i := range arr {
		vfAssert(arr[i] == keep[i], "glyph list of the caller changed")
	}
	for i := range tabs {
		vfAssert(tabs[i] == ktabs[i], "table list of the caller changed")
	}
	vfSameState(before, vfSnap(s))
	vfAssert(string(b) == orig, "bytes of the parsed file changed")
	vfAssert(string(s.Write()) == w0, "writing the source gives other bytes after subsetting")
	sub2, err := s.Subset(list, SubsetOptions{Tables: tabs})
	vfAssert(err == nil, "subsetting again failed")
	vfAssert(string(sub2.Write()) == w, "subsetting again gives other bytes")
	vfAssert(string(sub.Write()) == w, "writing the subset again gives other bytes")
	if how == 0 {
		names := []string{".notdef"}
		for i := 1; i < len(list); i++ {
			names = append(names, "new")
		}
		vfAssert(sub.SetGlyphNames(names) == nil, "setting names failed")
		sub.Write()
		vfSameState(before, vfSnap(s))
		_, err = sub.Subset([]uint16{0, 1}, SubsetOptions{Tables: tabs})
		vfAssert(err == nil, "subsetting the subset failed")
		vfSameState(before, vfSnap(s))
	}
	vfReach("done")
}
