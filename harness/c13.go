package font

//vf:use kit.go woffkit.go sfntref.go glyfref.go subset.go cffkit.go

// vfRoundTrip writes the parsed font as WOFF2, unpacks it, and compares all tables apart from glyf and loca.
func vfRoundTrip(b []byte) (in, out map[string][]byte, s, t *SFNT) {
	in = vfDir(b)
	s = vfParse(b)
	out, t = vfTrip(s, in)
	return
}

func vfTrip(s *SFNT, in map[string][]byte) (map[string][]byte, *SFNT) {
	w, err := s.WriteWOFF2()
	vfAssert(err == nil, "WriteWOFF2 failed")
	o, err := ParseWOFF2(w)
	vfAssert(err == nil, "the written file is rejected")
	vfCheckFile(o, true)
	out := vfDir(o)
	n := 0
	for tag, d := range in {
		if tag == "DSIG" {
			continue
		}
		n++
		x, ok := out[tag]
		vfAssert(ok, "table lost")
		if tag == "glyf" || tag == "loca" {
			continue
		}
		vfAssert(len(d) == len(x), "table length")
		if tag == "head" {
			f := vfGet16(d, 16) | 0x0800
			vfAssert(vfGet16(x, 16) == f, "head flags")
			vfAssert(string(d[:8])+string(d[12:16])+string(d[18:50])+string(d[52:]) == string(x[:8])+string(x[12:16])+string(x[18:50])+string(x[52:]), "head contents")
		} else {
			vfAssert(string(d) == string(x), "table contents")
		}
	}
	vfAssert(n == len(out), "number of tables")
	return out, vfParse(o)
}

// vfRec splits a glyf table by its loca table without further checks.
func vfRec(t map[string][]byte, i int) []byte {
	if vfGet16(t["head"], 50) != 0 {
		return t["glyf"][vfGet32(t["loca"], 4*i):vfGet32(t["loca"], 4*i+4)]
	}
	return t["glyf"][2*int(vfGet16(t["loca"], 2*i)) : 2*int(vfGet16(t["loca"], 2*i+2))]
}

// vfSameRecord compares glyph records by what they mean.
func vfSameRecord(a, b []byte) {
	if len(a) == 0 || vfIn(a, 0) == 0 {
		vfAssert(len(b) == 0 || string(a) == string(b), "empty glyph")
		return
	}
	vfAssert(len(b) >= 10, "glyph lost")
	vfAssert(string(a[2:10]) == string(b[2:10]), "bounding box")
	if vfIn(a, 0) < 0 {
		vfAssert(vfIn(b, 0) < 0, "composite glyph")
		p, has := 10, false
		for more := true; more; {
			f := vfGet16(a, p)
			l := 6
			if f&1 != 0 {
				l = 8
			}
			if f&8 != 0 {
				l += 2
			} else if f&0x40 != 0 {
				l += 4
			} else if f&0x80 != 0 {
				l += 8
			}
			p += vfConc(l)
			has = has || f&0x100 != 0
			more = f&0x20 != 0
		}
		if has {
			p += 2 + vfConc(int(vfGet16(a, p)))
		}
		vfAssert(len(b) >= p && string(a[10:p]) == string(b[10:p]), "components")
		return
	}
	p, ok := vfRefSimple(a)
	vfAssert(ok, "bad reference glyph")
	q, ok := vfRefSimple(b)
	vfAssert(ok, "written glyph is malformed")
	vfAssert(len(p.ends) == len(q.ends) && len(p.on) == len(q.on), "number of contours or points")
	for i := range p.ends {
		vfAssert(p.ends[i] == q.ends[i], "end point")
	}
	for i := range p.on {
		vfAssert(p.on[i] == q.on[i] && p.xs[i] == q.xs[i] && p.ys[i] == q.ys[i], "point")
	}
	ia, fa := vfInstr(a)
	ib, fb := vfInstr(b)
	vfAssert(string(ia) == string(ib), "instructions")
	vfAssert(fa&0x40 == fb&0x40, "overlap flag")
}

func vfIn(b []byte, p int) int16 { return int16(vfGet16(b, p)) }

func vfSameRecords(in, out map[string][]byte, ng int) {
	for i := 0; i < ng; i++ {
		vfSameRecord(vfRec(in, i), vfRec(out, i))
	}
	vfReach("ok")
}

func vfBox4() [4]int16 { return [4]int16{vfI16("xmin"), vfI16("ymin"), vfI16("xmax"), vfI16("ymax")} }

// A glyph of p points in one or two contours with arbitrary coordinates, on-curve and overlap flags and bounding box between
// two other glyphs. k: 0 box arbitrary, 1 box computed from the points. The coordinates of the last point are arbitrary; those
// of the others are in m: 0 fixed, 1 y arbitrary.
//
//vf:quick p=1,2 k=0,1 m=0 long=0,1
//vf:quick p=3 k=0,1 m=0 long=0
//vf:thorough p=2,3 k=0,1 m=1 long=0
//vf:thorough p=4,5 k=0,1 m=0 long=0
//vf:opt reach=ok paths=100000
func vhPoints() {
	n := vfParam("p")
	ends := []uint16{uint16(n - 1)}
	if n > 2 {
		ends = []uint16{uint16(n - 3), uint16(n - 1)}
	}
	var on []byte
	var xs, ys []int16
	for i := 0; i < n; i++ {
		on = append(on, vfU8("on")&1)
		if i == 0 {
			on[0] |= vfU8("over") & 0x40
		}
		if i == n-1 {
			xs, ys = append(xs, vfI16("x")), append(ys, vfI16("y"))
		} else if vfParam("m") == 1 {
			xs, ys = append(xs, int16(300*i)), append(ys, vfI16("y"))
		} else {
			xs, ys = append(xs, int16(300*i)), append(ys, int16(-50*i))
		}
	}
	var box [4]int16
	if vfParam("k") == 0 {
		box = vfBox4()
	} else {
		box = [4]int16{xs[0], ys[0], xs[0], ys[0]}
		for i := range xs {
			box = [4]int16{min(box[0], xs[i]), min(box[1], ys[i]), max(box[2], xs[i]), max(box[3], ys[i])}
		}
	}
	rec := vfSimple(ends, on, xs, ys, vfBytes("instr", n-1), box)
	f := &vfFont{glyphs: [][]byte{{}, vfTriPts(3), rec, vfTriPts(50)}, long: vfParam("long") != 0}
	in, out, s, t := vfRoundTrip(f.bytes())
	vfSameRecords(in, out, 4)
	for g := uint16(0); g < 4; g++ {
		vfAssert(s.GlyphAdvance(g) == t.GlyphAdvance(g), "advance")
	}
}

// Glyphs with v points and with v bytes of instructions, around the limits of the variable-length number encoding.
//
//vf:quick v=100,252,253,254,255,256,505,506,507,508,509,760,761,762,763,1000,2049,4100
//vf:thorough v=240..800/7
//vf:opt reach=ok steps=2e8
func vhCounts() {
	v := vfParam("v")
	var on []byte
	var xs, ys []int16
	for i := 0; i < v; i++ {
		on = append(on, byte(i&1))
		xs, ys = append(xs, int16(i%7)), append(ys, int16(i))
	}
	xs[v-1] = int16(vfU8("x")) // arbitrary
	instr := make([]byte, v)
	instr[v-1] = vfU8("instr")
	f := &vfFont{glyphs: [][]byte{{}, vfSimple([]uint16{uint16(v - 1)}, on, xs, ys, nil, [4]int16{-1, -1, 900, 900}), vfSimple([]uint16{0}, []byte{1}, []int16{5}, []int16{6}, instr, [4]int16{5, 6, 5, 6}), vfTriPts(50)}, long: true}
	in, out, _, _ := vfRoundTrip(f.bytes())
	vfSameRecords(in, out, 4)
}

// All pairs of coordinate differences with both signs (dx up to 16 bits, dy up to 16 bits), from the origin.
//
//vf:quick
//vf:opt reach=ok paths=100000
func vhTriplet() {
	x, y := vfI16("x"), vfI16("y")
	rec := vfSimple([]uint16{0}, []byte{1}, []int16{x}, []int16{y}, nil, [4]int16{x, y, x, y})
	f := &vfFont{glyphs: [][]byte{{}, rec}}
	in, out, _, _ := vfRoundTrip(f.bytes())
	vfSameRecords(in, out, 2)
}

// A composite glyph of n components with arbitrary flags, arguments, transformations, instructions and box.
//
//vf:quick n=1 i=0,1,3
//vf:quick n=2 i=1
//vf:thorough n=2 i=0,3
//vf:thorough n=3 i=1
//vf:opt reach=ok paths=100000
func vhComposite() {
	n := vfParam("n")
	box := vfBox4()
	rec := vf16s(0xFFFF-uint16(n)+1, uint16(box[0]), uint16(box[1]), uint16(box[2]), uint16(box[3]))
	has := false
	for i := 0; i < n; i++ {
		f := vfU16("cflags")
		vfAssume((f&0x20 != 0) == (i < n-1))
		l := 4
		if f&1 != 0 {
			l += 2
		}
		if f&8 != 0 {
			l += 2
		} else if f&0x40 != 0 {
			l += 4
		} else if f&0x80 != 0 {
			l += 8
		}
		l = vfConc(l)
		has = has || f&0x100 != 0
		rec = append(append(rec, vf16s(f)...), vfBytes("comp", l)...)
	}
	if has {
		rec = vf16(rec, uint16(vfParam("i")))
		rec = append(rec, vfBytes("instr", vfParam("i"))...)
	}
	f := &vfFont{glyphs: [][]byte{vfTriPts(0), rec, vfTriPts(9)}}
	in, out, _, _ := vfRoundTrip(f.bytes())
	vfSameRecords(in, out, 3)
}

// ng glyphs of which the ones at p, p+1 and the last have arbitrary boxes and overlap flags (every k-th other glyph is empty).
//
//vf:quick ng=4,8,9,16,31..34,63..66 p=0 k=2 long=0
//vf:quick ng=34,66 p=6,7,15,30..32 k=1,3 long=0,1
//vf:thorough ng=66 p=0..64 k=1,2 long=0,1
//vf:opt reach=ok
func vhMany() {
	ng, p, k := vfParam("ng"), vfParam("p"), vfParam("k")
	var gs [][]byte
	for i := 0; i < ng; i++ {
		if i == p || i == p+1 || i == ng-1 {
			over := byte(i) << 6 & 0x40
			if i == p {
				over = vfU8("over") & 0x40
			}
			gs = append(gs, vfSimple([]uint16{0}, []byte{1 | over}, []int16{int16(i)}, []int16{7}, vfBytes("instr", i%3), [4]int16{int16(i), 7, int16(i), vfI16("ymax")}))
		} else if i%k == 1 {
			gs = append(gs, nil)
		} else {
			gs = append(gs, vfTriPts(i))
		}
	}
	f := &vfFont{glyphs: gs, long: vfParam("long") != 0}
	in, out, _, _ := vfRoundTrip(f.bytes())
	vfSameRecords(in, out, ng)
}

// Large fonts: ng glyphs of which every k-th is a triangle and the others are empty, apart from those at p, p+1 and the last, which have
// arbitrary boxes and overlap flags. Glyph 1 has c contours of two points. The last t glyphs have no own advance; with h their side
// bearings are the left edges of the boxes (so the horizontal metrics shrink) except for an arbitrary one.
//
//vf:quick ng=300 p=255,257 k=2 c=300 t=7 h=0,1 long=0
//vf:quick ng=2100 p=2047 k=7 c=700 t=600 h=1 long=0
//vf:quick ng=2100 p=1100 k=3 c=1 t=0 h=0 long=1
//vf:quick ng=8300 p=8200 k=50 c=1 t=8000 h=1 long=1
//vf:quick ng=33000 p=32767 k=500 c=1 t=3 h=0 long=1
//vf:thorough ng=65535 p=65000 k=100 c=3000 t=3 h=0,1 long=1
//vf:opt reach=ok steps=4e8
func vhLarge() {
	ng, p, k, c, t := vfParam("ng"), vfParam("p"), vfParam("k"), vfParam("c"), vfParam("t")
	f := &vfFont{long: vfParam("long") != 0}
	for i := 0; i < ng; i++ {
		var rec []byte
		x := int16(0)
		if i == p || i == p+1 || i == ng-1 {
			over := byte(i) << 6 & 0x40
			if i == p {
				over = vfU8("over") & 0x40
			}
			x = int16(i & 0xFFF)
			rec = vfSimple([]uint16{0}, []byte{1 | over}, []int16{x}, []int16{7}, vfBytes("instr", i%3), [4]int16{x, 7, x, vfI16("ymax")})
		} else if i == 1 {
			var ends []uint16
			var on []byte
			var xs, ys []int16
			for j := 0; j < c; j++ {
				ends = append(ends, uint16(2*j+1))
				on = append(on, 1, 0)
				xs, ys = append(xs, int16(j), int16(j%5)), append(ys, int16(j%3), int16(-j))
			}
			ys[2*c-1] = int16(vfU8("y"))
			rec = vfSimple(ends, on, xs, ys, nil, [4]int16{x, -1, 3000, 3000})
		} else if i%k == 0 {
			rec = vfTriPts(i & 0xFF)
		}
		if len(rec) != 0 {
			x = vfIn(rec, 2)
		}
		f.glyphs = append(f.glyphs, rec)
		if vfParam("h") == 0 && i == p {
			x = vfI16("lsb")
		}
		if i < ng-t {
			f.adv, f.lsb = append(f.adv, uint16(i)), append(f.lsb, x)
		} else {
			f.tail = append(f.tail, x)
		}
	}
	in, out, _, _ := vfRoundTrip(f.bytes())
	vfSameRecords(in, out, ng)
}

// Metrics: ng glyphs with arbitrary left box edges, of which t have no own advance, with arbitrary side bearings; with e the
// second glyph is empty.
//
//vf:quick ng=3 t=0..2 e=0,1
//vf:thorough ng=4..6 t=0..3 e=0,1
//vf:opt reach=ok paths=100000
func vhMetrics() {
	ng, t := vfParam("ng"), vfParam("t")
	f := &vfFont{}
	for i := 0; i < ng; i++ {
		x := vfI16("xmin")
		vfAssume(0 < x && x < 65)
		rec := vfSimple([]uint16{0}, []byte{1}, []int16{x}, []int16{7}, nil, [4]int16{x, 7, x, 7})
		if i == 1 && vfParam("e") == 1 {
			rec = nil
		}
		f.glyphs = append(f.glyphs, rec)
		if i < ng-t {
			f.adv, f.lsb = append(f.adv, vfU16("adv")), append(f.lsb, vfI16("lsb"))
		} else {
			f.tail = append(f.tail, vfI16("tail"))
		}
	}
	in, out, _, _ := vfRoundTrip(f.bytes())
	vfSameRecords(in, out, ng)
}

// Fonts with other tables: the k-th known tag, a tag of arbitrary lower-case letters, DSIG, with n and m arbitrary bytes.
//
//vf:quick k=8..62/3 n=5 m=0..3
//vf:quick k=9 n=126..129 m=1
//vf:quick k=9 n=255,256,16383..16385,16511,16512,65536,2097153 m=1
//vf:thorough k=8..62 n=0..8 m=4
//vf:opt reach=ok steps=4e8
func vhTables() {
	k := vfParam("k")
	tag := vfW2Tags[4*k : 4*k+4]
	f := &vfFont{glyphs: vfTris(2)}
	switch tag {
	case "glyf", "loca", "CFF ", "kern", "vhea", "vmtx":
	default:
		n := vfParam("n")
		d := vfBytes("n", min(n, 200))
		f.extra = append(f.extra, vfTab{tag, append(d, make([]byte, n-len(d))...)})
	}
	f.extra = append(f.extra, vfTab{"zz Z", vfBytes("m", vfParam("m"))})
	if k%2 == 0 {
		f.extra = append(f.extra, vfTab{"DSIG", vfBytes("dsig", 8)})
	}
	in, out, _, _ := vfRoundTrip(vfReorder(f, k%4 == 3))
	vfSameRecords(in, out, 2)
}

// Header, naming, mapping, kerning and style tables with arbitrary contents.
//
//vf:quick k=0..3
//vf:opt reach=ok
func vhHeaders() {
	f := &vfFont{glyphs: vfTris(3)}
	switch vfParam("k") {
	case 0:
		f.head = vfHead(false)
		copy(f.head[4:12], vfBytes("head", 8))
		copy(f.head[16:50], vfBytes("head2", 34))
		vfAssume(f.head[20] < 0x80 && f.head[28] < 0x80) // dates
	case 1:
		f.os2 = vfOS2(4)
		copy(f.os2[2:], vfBytes("os2", 90))
		f.post = vfPost3()
		copy(f.post[4:], vfBytes("post", 28))
	case 2:
		a, g := vfU32("a"), vfU32("g")
		vfAssume(a < 0x10FFFF && g < 3)
		f.cmap = vfCmap(3, 10, vfCmap12([3]uint32{a, a, g}))
	case 3:
		f.kern = vfCat(vf16s(0, 1, 0, 20, 1, 1, 6, 0, 0), vf16s(vfU16("l"), vfU16("r"), vfU16("v")))
	}
	in, out, s, t := vfRoundTrip(f.bytes())
	vfSameRecords(in, out, 3)
	if vfParam("k") == 2 {
		r := rune(vfU32("rune"))
		vfAssert(s.GlyphIndex(r) == t.GlyphIndex(r), "mapping")
	}
}

// A CFF font and fonts with trailing bytes in the glyf or loca table.
//
//vf:quick k=0..4
//vf:opt reach=ok
func vhForms() {
	k := vfParam("k")
	f := &vfFont{glyphs: vfTris(3)}
	switch k {
	case 0:
		f = vfCFFFont(&vfCFF{chars: vfCFFTris(3)})
		f.lsb = []int16{vfI16("a"), vfI16("b"), vfI16("c")}
	case 1, 2:
		f.long = k == 2
		f.bytes()
		f.glyf = append(f.glyf, vfBytes("t", 3)...)
		f.loca = append(f.loca, vfBytes("u", 5)...)
	case 3, 4:
		// the last glyph is empty, the first has padding of arbitrary bytes
		f.long = k == 4
		f.glyphs[0] = append(f.glyphs[0], vfBytes("pad", 6)...)
		f.glyphs[2] = nil
	}
	b := f.bytes()
	in, out, s, t := vfRoundTrip(b)
	if k == 0 {
		vfAssert(string(in["CFF "]) == string(out["CFF "]), "CFF")
		vfReach("ok")
	} else {
		vfSameRecords(in, out, 3)
	}
	for g := uint16(0); g < 3; g++ {
		vfSameGlyph(s, g, t, g, "after WOFF2")
	}
}

// A glyph of n arbitrary bytes, or with nc contours and n arbitrary bytes after the box: the outline and whether it can be
// drawn at all are kept.
//
//vf:quick nc=-1 n=1..11
//vf:quick nc=1 n=0..6
//vf:quick nc=2 n=6..8
//vf:thorough nc=1 n=7,8
//vf:thorough nc=65535 n=0..12
//vf:opt reach=same,bad paths=200000
func vhAnyGlyph() {
	n := vfParam("n")
	var rec []byte
	if nc := vfParam("nc"); nc >= 0 {
		rec = append(vf16s(uint16(nc), 1, 2, 3, 4), vfBytes("rec", n)...)
		for i := 0; i <= nc && nc < 9 && 11+2*i < len(rec); i++ {
			// end points and instruction lengths of up to 3
			vfAssume(rec[10+2*i] == 0 && rec[11+2*i] < 4)
		}
	} else {
		rec = vfBytes("rec", n)
	}
	// records without contours become empty, as the format requires
	vfAssume(len(rec) < 2 || vfIn(rec, 0) != 0)
	if len(rec)&1 == 1 {
		rec = append(rec, 0)
	}
	f := &vfFont{glyphs: [][]byte{vfTriPts(1), rec, vfTriPts(5)}}
	f.bytes()
	_, _, s, t := vfRoundTrip(f.bytes())
	for g := uint16(0); g < 3; g++ {
		vfSameGlyph(s, g, t, g, "after WOFF2")
	}
	vfReach("same")
	vfReach("bad")
}

// The same font written twice, and a subset or merged font written as WOFF2 and as SFNT.
//
//vf:quick k=0..2
//vf:opt reach=ok
func vhHistory() {
	x, y := vfI16("x"), vfI16("y")
	rec := vfSimple([]uint16{0}, []byte{1}, []int16{x}, []int16{y}, vfBytes("instr", 2), vfBox4())
	f := &vfFont{glyphs: [][]byte{vfTriPts(0), rec, vfTriPts(9), vf16s(0xFFFF, 1, 2, 3, 4, 2, 1, 0x0505)}, adv: []uint16{vfU16("adv"), 7, 7}, lsb: []int16{x, x, 9}, tail: []int16{vfI16("tail")}}
	s := vfParse(f.bytes())
	switch vfParam("k") {
	case 0:
		w1, err := s.WriteWOFF2()
		vfAssert(err == nil, "WriteWOFF2 failed")
		_, err = s.WriteWOFF2()
		vfAssert(err == nil, "WriteWOFF2 failed")
		w2, err := vfParse(f.bytes()).WriteWOFF2()
		vfAssert(err == nil, "WriteWOFF2 failed")
		o1, err := ParseWOFF2(w1)
		vfAssert(err == nil, "the written file is rejected")
		o2, err := ParseWOFF2(w2)
		vfAssert(err == nil && string(o1) == string(o2), "WriteWOFF2 changes the font")
		t := vfParse(f.bytes())
		vfAssert(len(s.Tables) == len(t.Tables), "WriteWOFF2 changes the font")
		for tag, d := range t.Tables {
			vfAssert(string(s.Tables[tag]) == string(d), "WriteWOFF2 changes the font")
		}
		vfReach("ok")
		return
	case 1:
		s = vfSubset(s, []uint16{0, 3, 2}, KeepAllTables)
	case 2:
		s2 := vfParse((&vfFont{glyphs: vfTris(2), cmap: vfCmap(3, 10, vfCmap12([3]uint32{65, 65, 1}))}).bytes())
		vfAssert(s.Merge(s2, MergeOptions{}) == nil, "merge failed")
	}
	in := vfDir(s.Write())
	copy(in["head"][28:36], s.Tables["head"][28:36]) // Write sets the modification time
	out, _ := vfTrip(s, in)
	vfSameRecords(in, out, int(s.NumGlyphs()))
}
