package font

//vf:use kit.go glyfref.go subset.go c17.go

// vfCheckOutlines subsets to the list (which starts with glyph 0) and compares every listed glyph.
func vfCheckOutlines(s *SFNT, list []uint16) (*SFNT, *SFNT) {
	how := vfParam("opt")
	sub := vfSubset(s, list, vfTables(how))
	vfAssert(int(sub.NumGlyphs()) >= len(list), "number of glyphs in the subset")
	t := vfReparse(sub, how)
	vfAssert(t.NumGlyphs() == sub.NumGlyphs(), "number of glyphs in the written subset")
	for i, g := range list {
		if g != 0 {
			vfSameGlyph(s, g, sub, uint16(i), "in the subset")
			vfSameGlyph(s, g, t, uint16(i), "in the written subset")
		}
	}
	p := vfOutline(t, 0)
	vfAssert(len(p.op) == 0, "glyph 0 of a subset is not the empty .notdef glyph")
	return sub, t
}

func vfSameProgram(s *SFNT, g uint16, t *SFNT, h uint16) {
	ia, fa := vfInstr(s.Glyf.Get(g))
	ib, fb := vfInstr(t.Glyf.Get(h))
	vfAssert(string(ia) == string(ib), "instructions of a glyph in the subset")
	vfAssert(fa&0x40 == fb&0x40, "overlap flag of a glyph in the subset")
}

// A simple glyph of p points, one or two contours (the first ends at e), x and y arbitrary for the last point (for p=2 also the other y), arbitrary on-curve and overlap flags, i instruction bytes.
//
//vf:quick p=1..2 e=0 i=0 opt=0
//vf:quick p=3 e=1 i=2 opt=1
//vf:quick p=2 e=1 i=1 opt=2
//vf:thorough p=1..4 e=0..3 i=0..3 opt=0..2
//vf:opt reach=same
func vhSimple() {
	n, e := vfParam("p"), vfParam("e")
	if e >= n {
		vfReach("same")
		return
	}
	ends := []uint16{uint16(e)}
	if e < n-1 {
		ends = append(ends, uint16(n-1))
	}
	var on []byte
	var xs, ys []int16
	for i := 0; i < n; i++ {
		if i == n-1 {
			on = append(on, vfU8("on")&0x41)
			xs = append(xs, vfI16("x"))
			ys = append(ys, vfI16("y"))
		} else {
			on = append(on, vfU8("on")&1)
			xs = append(xs, int16(300*i))
			if n == 2 {
				ys = append(ys, vfI16("y"))
			} else {
				ys = append(ys, int16(-200*i))
			}
		}
	}
	rec := vfSimple(ends, on, xs, ys, vfBytes("instr", vfParam("i")), [4]int16{vfI16("xmin"), vfI16("ymin"), vfI16("xmax"), vfI16("ymax")})
	s := vfParse((&vfFont{glyphs: [][]byte{vfTriPts(0), vfTriPts(20), rec, {}}}).bytes())
	_, t := vfCheckOutlines(s, []uint16{0, 3, 2, 1})
	vfSameProgram(s, 2, t, 2)
}

// Runs of equal flags of every length from lo to hi between two points with other flags, in a glyph of one contour.
//
//vf:quick lo=0 hi=5 opt=0
//vf:quick lo=254 hi=257 opt=0
//vf:thorough lo=0 hi=20 opt=0
//vf:thorough lo=250 hi=262 opt=0
//vf:thorough lo=508 hi=516 opt=0
//vf:opt reach=same steps=4e7
func vhRuns() {
	k := vfConc(vfInt("run", vfParam("lo"), vfParam("hi")))
	on := []byte{0}
	if vfParam("hi") < 100 {
		on[0] = vfU8("on") & 1
	}
	xs, ys := []int16{0}, []int16{0}
	f := vfU8("on") & 1
	for i := 0; i < k; i++ {
		on = append(on, f)
		xs = append(xs, xs[i]+3)
		ys = append(ys, ys[i])
	}
	x := vfI16("x")
	vfAssume(xs[k]+700 > x && (x > xs[k] || vfParam("hi") < 100))
	on = append(on, 1, 0)
	xs = append(xs, xs[k], x)
	ys = append(ys, 500, 7)
	n := len(on)
	rec := vfSimple([]uint16{uint16(n - 1)}, on, xs, ys, nil, [4]int16{0, 0, 1, 1})
	s := vfParse((&vfFont{glyphs: [][]byte{vfTriPts(0), vfTriPts(20), rec}}).bytes())
	vfCheckOutlines(s, []uint16{0, 2})
}

// Records with arbitrary flag and coordinate bytes (n of them for p points), also malformed ones.
//
//vf:quick p=2 n=3 opt=0
//vf:thorough p=1..3 n=1..8 opt=0
//vf:opt reach=same,bad
func vhEncoding() {
	b := vf16s(1, 1, 2, 3, 4, uint16(vfParam("p")-1), 0)
	b = append(b, vfBytes("data", vfParam("n"))...)
	for len(b)%4 != 0 {
		b = append(b, 0)
	}
	s := vfParse((&vfFont{glyphs: [][]byte{vfTriPts(0), b, vfTriPts(20)}}).bytes())
	vfCheckOutlines(s, []uint16{0, 1, 2})
}

// Three simple glyphs and c composites with n components each that refer to arbitrary earlier glyphs, with byte or word offsets and transformations; the list has k arbitrary glyphs, repetitions allowed.
//
//vf:quick c=1 n=2 k=1 form=0 opt=0
//vf:quick c=2 n=2 k=1 form=3 opt=0
//vf:quick c=3 n=1 k=1 form=1 opt=1
//vf:quick c=1 n=1 k=2 form=0 opt=0
//vf:quick c=2 n=1 k=1 form=2 opt=2
//vf:thorough c=1..3 n=1..2 k=1..3 form=0..3 opt=0
//vf:thorough c=2 n=1..2 k=1..3 form=0..3 opt=1..2
//vf:opt reach=same steps=4e7
func vhComposites() {
	glyphs := [][]byte{vfTriPts(0), vfTriPts(100), vfTriPts(200), vfTriPts(300)}
	n, c := vfParam("n"), vfParam("c")
	for i := 0; i < c; i++ {
		var comps []vfComp
		for j := 0; j < n; j++ {
			gid := 4 - 1 - j + i // earlier glyphs: fixed for all but the first component
			if j == 0 {
				gid = vfConc(vfInt("ref", 1, 3+i))
			} else if gid >= 4+i {
				gid = 3
			}
			comps = append(comps, vfComp{gid: uint16(gid), words: (i+j)&1 == 0, dx: int16(vfI8("dx")), dy: int16(5 * i), form: vfParam("form"), a: 0x2000, b: 0x1000, c: -0x1000, d: 0x6000, extra: vfU16("flags") & 0x1604})
		}
		var instr []byte
		if i == 1 {
			instr = []byte{1, 2, 3}
		}
		glyphs = append(glyphs, vfComposite([4]int16{int16(i), vfI16("ymin"), 7, 8}, comps, instr))
	}
	s := vfParse((&vfFont{glyphs: glyphs}).bytes())
	list := []uint16{0}
	for i := 0; i < vfParam("k"); i++ {
		list = append(list, uint16(vfConc(vfInt("glyph", 1, 3+c))))
	}
	_, t := vfCheckOutlines(s, list)
	// no component refers outside the subset
	for g := uint16(1); g < t.NumGlyphs(); g++ {
		vfOutline(t, g)
	}
}

// Glyph tables around the limits of the short loca format: a glyph with many instruction bytes, followed by an arbitrary one; sz is the number of instruction bytes.
//
//vf:quick sz=65450,65480,65550,130980,131040 opt=0
//vf:thorough sz=65450..65550/2 opt=0
//vf:thorough sz=130970..131110/5 opt=0
//vf:opt reach=same steps=4e8
func vhLarge() {
	sz := vfParam("sz")
	instr := make([]byte, sz%65536)
	instr[5] = vfU8("i")
	glyphs := [][]byte{vfTriPts(0)}
	for n := sz / 65536; n > 0; n-- {
		glyphs = append(glyphs, vfSimple([]uint16{0}, []byte{1}, []int16{1}, []int16{2}, make([]byte, 65535), [4]int16{0, 0, 1, 1}))
	}
	glyphs = append(glyphs, vfSimple([]uint16{0}, []byte{1}, []int16{1}, []int16{2}, instr, [4]int16{0, 0, 1, 1}))
	glyphs = append(glyphs, vfSimple([]uint16{1}, []byte{1, 1}, []int16{vfI16("x"), 5}, []int16{vfI16("y"), 9}, nil, [4]int16{0, 0, 1, 1}), vfTriPts(7))
	s := vfParse((&vfFont{glyphs: glyphs, long: true}).bytes())
	var list []uint16
	for g := range glyphs {
		list = append(list, uint16(g))
	}
	vfCheckOutlines(s, list)
}

// Glyph tables whose length is exactly at and around the limits of the short loca format.
//
//vf:quick total=65532..65538/2 opt=0
//vf:quick total=131068..131074/2 opt=0
//vf:opt reach=same,exact steps=4e8
func vhBoundary() {
	total := vfParam("total")
	x := vfInt("x", 1, 255) // takes one byte
	glyphs := [][]byte{vfTriPts(0)}
	for rest := total; 0 < rest; {
		n := rest
		if 60000 < n {
			n = 40000
		}
		rest -= n
		instr := make([]byte, n-17)
		instr[5] = vfU8("i")
		glyphs = append(glyphs, vfSimple([]uint16{0}, []byte{1}, []int16{int16(x)}, []int16{2}, instr, [4]int16{0, 0, 1, 1}))
	}
	s := vfParse((&vfFont{glyphs: glyphs, long: true}).bytes())
	var list []uint16
	for g := range glyphs {
		list = append(list, uint16(g))
	}
	_, t := vfCheckOutlines(s, list)
	if len(t.Tables["glyf"]) == total {
		vfReach("exact")
	}
}

// Glyph IDs outside the font give an error.
//
//vf:quick
func vhOutside() {
	s := vfParse((&vfFont{glyphs: vfTris(3)}).bytes())
	g := vfU16("glyph")
	_, err := s.Subset([]uint16{0, g}, SubsetOptions{Tables: KeepAllTables})
	vfAssert((err != nil) == (g >= 3), "glyph outside the font in the list")
}

// Composites nested d levels deep, of which the list has an arbitrary one; a level may refer to the next more than once.
//
//vf:quick d=5..8 opt=0
//vf:quick d=8 opt=2
//vf:thorough d=1..8 opt=0..2
//vf:opt reach=same steps=4e7
func vhDeep() {
	d := vfParam("d")
	glyphs := [][]byte{vfTriPts(0), vfTriPts(int(vfU8("x")))}
	for i := 0; i < d; i++ {
		comps := []vfComp{{gid: uint16(1 + i), words: true, dx: vfI16("dx") >> 4}}
		if i == 2 {
			comps = append(comps, vfComp{gid: uint16(1 + i), dy: 3})
		}
		glyphs = append(glyphs, vfComposite([4]int16{int16(i), vfI16("ymin"), 7, 8}, comps, nil))
	}
	s := vfParse((&vfFont{glyphs: glyphs}).bytes())
	vfCheckOutlines(s, []uint16{0, uint16(vfConc(vfInt("glyph", d-1, d+1)))})
}
