package font

//vf:use kit.go glyfref.go

func vfCheckSimple(rec []byte) {
	x, y, f := 0.0, 0.0, 1.0
	if vfParam("t") == 1 {
		x, y, f = 100, -20.25, 0.5
	}
	font := &vfFont{glyphs: [][]byte{vfTriPts(0), rec, vfTriPts(20)}, long: len(rec) > 100000}
	s := vfParse(font.bytes())
	ref, ok := vfRefSimple(rec)
	got := &vfPath{}
	err := s.GlyphPath(got, 1, 0, x, y, f, NoHinting)
	if !ok {
		vfReach("malformed")
		return
	}
	vfReach("wellformed")
	want := &vfPath{}
	ref.draw(want, x, y, f)
	vfAssert(err == nil, "well-formed glyph rejected")
	vfObsPath("p", got)
	vfAssert(len(got.op) == len(want.op), "number of path commands")
	for i := range want.op {
		vfAssert(got.op[i] == want.op[i], "path command")
	}
	vfAssert(len(got.c) == len(want.c), "number of coordinates")
	for i := range want.c {
		vfAssert(got.c[i] == want.c[i], "path coordinate")
	}
	a, b, c, d := s.GlyphBounds(1)
	vfAssert(a == int16(vfGet16(rec, 2)) && b == int16(vfGet16(rec, 4)) && c == int16(vfGet16(rec, 6)) && d == int16(vfGet16(rec, 8)), "bounds differ from the glyph's bounding box")
}

// One or two contours of p points with arbitrary on-curve flags and arbitrary word deltas; the first contour ends at point e. t=1 scales and translates.
//
//vf:quick p=1..4 e=0 t=0
//vf:quick p=4 e=1,3 t=0..1
//vf:quick p=5 e=4 t=0
//vf:thorough p=1..6 e=0..5 t=0..1
//vf:opt reach=wellformed
func vhCurves() {
	n, e := vfParam("p"), vfParam("e")
	if e >= n {
		vfReach("wellformed")
		return
	}
	ends := []uint16{uint16(e)}
	if e < n-1 {
		ends = append(ends, uint16(n-1))
	}
	var on []byte
	var xs, ys []int16
	for i := 0; i < n; i++ {
		on = append(on, vfU8("on")&1)
		xs = append(xs, vfI16("x"))
		ys = append(ys, vfI16("y"))
	}
	vfCheckSimple(vfSimple(ends, on, xs, ys, nil, [4]int16{vfI16("xmin"), vfI16("ymin"), vfI16("xmax"), vfI16("ymax")}))
}

// The flag and coordinate encodings: one contour of p points whose flag and coordinate bytes (n of them) are arbitrary; i instruction bytes.
//
//vf:quick p=1 n=0..5 i=0 t=0
//vf:quick p=2 n=4,6 i=3 t=0
//vf:thorough p=2..3 n=1..9 i=0..1 t=0
//vf:opt reach=wellformed steps=4e7
func vhEncoding() {
	p, n := vfParam("p"), vfParam("n")
	b := vf16s(1, 1, 2, 3, 4, uint16(p-1), uint16(vfParam("i")))
	b = append(b, vfBytes("instr", vfParam("i"))...)
	b = append(b, vfBytes("data", n)...)
	for len(b)%4 != 0 {
		b = append(b, 0)
	}
	vfCheckSimple(b)
}

// Long flag runs: one contour of p points with repeated flags of arbitrary counts (lo..255 and at most 3) and n arbitrary bytes.
//
//vf:quick p=258 n=1 lo=252 t=0
//vf:thorough p=255..258,511..513 n=1..2 lo=0,128 t=0
//vf:opt reach=wellformed steps=4e7
func vhRuns() {
	p := vfParam("p")
	b := vf16s(1, 1, 2, 3, 4, uint16(p-1), 0)
	b = append(b, 0x38|vfU8("flag")&0x41, byte(vfInt("repeat", vfParam("lo"), 255)), 0x30|vfU8("flag2")&3, 0x38|vfU8("flag2")&1, byte(vfInt("repeat2", vfParam("lo")&3, 3)))
	b = append(b, vfBytes("data", vfParam("n"))...)
	for len(b)%4 != 0 {
		b = append(b, 0)
	}
	vfCheckSimple(b)
}

// Many contours: c contours of two or three points, the last points of contours q and c-1 arbitrary in x and their curve flags arbitrary.
//
//vf:quick c=100,300,700 q=1,50 t=0
//vf:quick c=300,700 q=127,255,256,298 t=0
//vf:quick c=21000 q=10922 t=0
//vf:opt reach=wellformed steps=4e8
func vhManyContours() {
	c, q := vfParam("c"), vfParam("q")
	var ends []uint16
	var on []byte
	var xs, ys []int16
	for i := 0; i < c; i++ {
		for k := 0; k < 3+i%2; k++ {
			on = append(on, byte(i+k)&1)
			xs, ys = append(xs, int16(i%500+k)), append(ys, int16(i%300-k*k))
		}
		ends = append(ends, uint16(len(xs)-1))
		if i == q || i == c-1 {
			on[len(on)-1] = vfU8("on") & 1
			xs[len(xs)-1] = int16(vfU8("x"))
		}
		if len(xs) > 65530 {
			break
		}
	}
	vfCheckSimple(vfSimple(ends, on, xs, ys, nil, [4]int16{0, -9, 600, 300}))
}

// Glyphs without contours and without data draw nothing.
//
//vf:quick n=0,10,12,16
func vhEmpty() {
	n := vfParam("n")
	rec := make([]byte, n)
	if n > 0 {
		copy(rec[2:], vfBytes("bbox", 8))
	}
	s := vfParse((&vfFont{glyphs: [][]byte{vfTriPts(0), rec, vfTriPts(20)}}).bytes())
	p := vfOutline(s, 1)
	vfAssert(len(p.op) == 0, "empty glyph draws something")
	q := vfOutline(s, 2)
	vfAssert(len(q.op) == 4 && q.c[0] == 20, "glyph after an empty one")
}

// A glyph far into the glyph table: the offsets of the short format are in units of two bytes and reach up to 128 KiB, those of the
// long format beyond it; the glyph before it takes sz bytes of instructions.
//
//vf:quick sz=32700,65400,65500,130900 long=0..1 t=0
//vf:quick sz=200000 long=1 t=0
//vf:thorough sz=65400..65600/4 long=0..1 t=0
//vf:opt steps=4e8
func vhFarGlyph() {
	glyphs := [][]byte{vfTriPts(0)}
	for n := vfParam("sz"); 0 < n; n -= 50000 {
		glyphs = append(glyphs, vfSimple([]uint16{0}, []byte{1}, []int16{1}, []int16{2}, make([]byte, min(n, 50000)), [4]int16{0, 0, 1, 1}))
	}
	x, y := vfI16("x"), vfI16("y")
	g := uint16(len(glyphs))
	glyphs = append(glyphs, vfSimple([]uint16{1}, []byte{1, 1}, []int16{x, 5}, []int16{y, 9}, nil, [4]int16{x, y, 5, 9}), vfTriPts(20))
	s := vfParse((&vfFont{glyphs: glyphs, long: vfParam("long") == 1}).bytes())
	p := vfOutline(s, g)
	vfAssert(len(p.op) == 3 && len(p.c) == 4, "number of path commands")
	vfAssert(p.c[0] == float64(x) && p.c[1] == float64(y) && p.c[2] == 5 && p.c[3] == 9, "outline of a far glyph")
	a, b, c, d := s.GlyphBounds(g)
	vfAssert(a == x && b == y && c == 5 && d == 9, "bounds of a far glyph")
	q := vfOutline(s, g+1)
	vfAssert(len(q.op) == 4 && q.c[0] == 20, "last glyph")
	q = vfOutline(s, 0)
	vfAssert(len(q.op) == 4 && q.c[0] == 0, "first glyph")
}
