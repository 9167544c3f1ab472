package font

//vf:use kit.go sfntref.go

// Write after parsing: e extra tables (sorting before, between and after the others) with arbitrary content and lengths up to l, arbitrary head fields; the input stores its tables in sorted (o=0) or reverse (o=1) order.
//
//vf:quick e=0..2 l=5 o=0
//vf:quick e=3 l=2 o=0
//vf:quick e=1 l=1 o=1
//vf:thorough e=0..3 l=9 o=0..1
func vhWrite() {
	head := vfHead(false)
	copy(head[16:], vfBytes("flags", 4))
	copy(head[36:], vfBytes("bounds", 14))
	f := &vfFont{glyphs: vfTris(2), head: head}
	tags := []string{"zzzz", "AAAA", "gasp"}
	for i := 0; i < vfParam("e"); i++ {
		n := vfConc(vfInt("len", 0, vfParam("l")))
		f.extra = append(f.extra, vfTab{tags[i], append([]byte{}, vfBytes("data", n)...)})
	}
	b := vfReorder(f, vfParam("o") == 1)
	s := vfParse(b)
	w := s.Write()
	vfObs("len", int64(len(w)))
	vfCheckFile(w, true)
	in, out := vfDir(b), vfDir(w)
	vfSameTables(in, out)
	t := vfParse(w)
	vfAssert(len(t.Tables) == len(s.Tables), "number of tables after write and parse")
	for tag, d := range s.Tables {
		if tag != "head" {
			vfAssert(string(t.Tables[tag]) == string(d), "table contents after write and parse")
		}
	}
	vfAssert(t.IsTrueType && !t.IsCFF, "flavour")
	x := t.Write()
	vfAssert(string(x) == string(w), "second write differs")
}

// Write of subsets, merged fonts and renamed fonts.
//
//vf:quick how=0..3
//vf:thorough how=0..3
func vhWriteDerived() {
	f := &vfFont{glyphs: vfTris(3), cmap: vfCmap(3, 10, vfCmap12([3]uint32{65, 66, 1}))}
	a, b := vfU16("adv"), vfU16("adv2")
	f.adv = []uint16{500, a, b}
	f.extra = []vfTab{{"prep", vfBytes("prep", vfConc(vfInt("len", 0, 3)))}}
	s := vfParse(f.bytes())
	var w []byte
	switch vfParam("how") {
	case 0:
		x, err := s.Subset([]uint16{0, 2}, SubsetOptions{Tables: KeepAllTables})
		vfAssert(err == nil, "subset failed")
		w = x.Write()
		vfParse(w)
	case 1:
		x, err := s.Subset([]uint16{0, 2, 1}, SubsetOptions{Tables: KeepPDFTables})
		vfAssert(err == nil, "subset failed")
		w = x.Write()
		_, err = ParseEmbeddedSFNT(w, 0)
		vfAssert(err == nil, "written subset is rejected")
	case 2:
		g := &vfFont{glyphs: vfTris(2), cmap: vfCmap(3, 10, vfCmap12([3]uint32{70, 70, 1}))}
		vfAssert(s.Merge(vfParse(g.bytes()), MergeOptions{}) == nil, "merge failed")
		w = s.Write()
		vfParse(w)
	case 3:
		x, err := s.Subset([]uint16{0, 1}, SubsetOptions{Tables: []string{"maxp", "cmap", "glyf", "loca"}})
		vfAssert(err == nil, "subset failed")
		w = x.Write()
	}
	vfCheckFile(w, vfParam("how") != 3)
}

// Fonts with n tables in all, with arbitrary contents of the last one.
//
//vf:quick n=14..17,31..33,64,65 o=0..1
//vf:thorough n=10..70 o=0
//vf:thorough n=127..129,255..257,511..513 o=0..1
//vf:opt steps=4e7
func vhManyTables() {
	n := vfParam("n")
	f := &vfFont{glyphs: vfTris(2)}
	for i := int(vfGet16(f.bytes(), 4)); i < n; i++ {
		d := make([]byte, i%6)
		if i == n-1 {
			d = append([]byte{}, vfBytes("data", 5)...)
		}
		f.extra = append(f.extra, vfTab{string([]byte{byte('A' + 7*i%26), byte('0' + i/100), byte('0' + i/10%10), byte('0' + i%10)}), d})
	}
	b := vfReorder(f, vfParam("o") == 1)
	s := vfParse(b)
	vfAssert(len(s.Tables) == n, "number of tables")
	w := s.Write()
	vfCheckFile(w, true)
	vfSameTables(vfDir(b), vfDir(w))
	vfParse(w)
}
