package font

//vf:use kit.go glyfref.go

type vfComp struct {
	gid        uint16
	words      bool
	dx, dy     int16
	form       int // 0 no transformation, 1 scale, 2 two scales, 3 matrix
	a, b, c, d int16
	extra      uint16 // other flags
}

// vfComposite encodes a composite glyph.
func vfComposite(bbox [4]int16, comps []vfComp, instr []byte) []byte {
	b := vf16s(0xFFFF, uint16(bbox[0]), uint16(bbox[1]), uint16(bbox[2]), uint16(bbox[3]))
	for i, c := range comps {
		f := c.extra | 2
		if c.words {
			f |= 1
		}
		f |= []uint16{0, 8, 0x40, 0x80}[c.form]
		if i+1 < len(comps) {
			f |= 0x20
		}
		if instr != nil && i+1 == len(comps) {
			f |= 0x100
		}
		b = vf16(b, f)
		b = vf16(b, c.gid)
		if c.words {
			b = vf16(b, uint16(c.dx))
			b = vf16(b, uint16(c.dy))
		} else {
			b = append(b, byte(c.dx), byte(c.dy))
		}
		switch c.form {
		case 1:
			b = vf16(b, uint16(c.a))
		case 2:
			b = vf16s2(b, c.a, c.d)
		case 3:
			b = vf16s2(b, c.a, c.b, c.c, c.d)
		}
	}
	if instr != nil {
		b = vf16(b, uint16(len(instr)))
		b = append(b, instr...)
	}
	return b
}

// vfNear asserts that the coordinate got is off+(u*a+v*b)/2^14 up to the rounding of its two products.
func vfNear(got float64, off int16, u, v int64, a, b int16, plain bool) {
	if plain {
		e := int64(off) + u
		vfAssume(-32768 <= e && e <= 32767)
		vfAssert(got == float64(e), "offset of a component")
		return
	}
	// rounding the products one by one gives such a coordinate
	rnd := func(x int64) int16 { return int16((x + 1<<13) >> 14) }
	if got == float64(off+(rnd(u*int64(a))+rnd(v*int64(b)))) {
		return
	}
	e := u*int64(a) + v*int64(b)
	vfAssume(-16000<<14 <= e && e <= 16000<<14 && -16000 <= off && off <= 16000)
	vfAssume(-16000<<14 <= u*int64(a) && u*int64(a) <= 16000<<14)
	g := int64(got)
	vfAssert(float64(g) == got, "transformed coordinate is not integral")
	dif := (g-int64(off))<<14 - e
	vfAssert(-1<<14 <= dif && dif <= 1<<14, "transformed coordinate")
}

var vfBase = [2]int16{100, -37}

// n components with arbitrary offsets (words or bytes), a transformation of the given form with arbitrary coefficients applied to fixed points (pts=0) or fixed coefficients applied to arbitrary points (pts=1), and arbitrary other flags; instr adds instructions.
//
//vf:quick form=0..3 words=0,1 n=1 pts=0 instr=0
//vf:quick form=0..3 words=1 n=2 pts=1 instr=1
//vf:thorough form=0..3 words=0,1 n=1..3 pts=0,1 instr=0..1
//vf:opt reach=drawn
func vhComponents() {
	n := vfParam("n")
	var pts [3][2]int64
	pts[0], pts[1], pts[2] = [2]int64{100, -37}, [2]int64{-640, 811}, [2]int64{3, 0}
	if vfParam("pts") == 1 {
		for i := range pts {
			pts[i] = [2]int64{int64(vfI16("px")), int64(vfI16("py"))}
		}
	}
	on := []byte{1, 1, 1}
	xs := []int16{int16(pts[0][0]), int16(pts[1][0]), int16(pts[2][0])}
	ys := []int16{int16(pts[0][1]), int16(pts[1][1]), int16(pts[2][1])}
	simple := vfSimple([]uint16{2}, on, xs, ys, nil, [4]int16{-5, -6, 7, 8})
	var comps []vfComp
	form := vfParam("form")
	for i := 0; i < n; i++ {
		c := vfComp{gid: uint16(1 + i%2), words: vfParam("words") == 1, form: form, dx: vfI16("dx"), dy: vfI16("dy")}
		if !c.words {
			vfAssume(-128 <= c.dx && c.dx < 128 && -128 <= c.dy && c.dy < 128)
		}
		c.extra = vfU16("flags") & 0x1604
		if vfParam("pts") == 1 {
			c.a, c.b, c.c, c.d = 0x2000, -0x1000, 0x6000, 0x5001
		} else {
			c.a, c.b, c.c, c.d = vfI16("a"), vfI16("b"), vfI16("c"), vfI16("d")
		}
		comps = append(comps, c)
	}
	var instr []byte
	if vfParam("instr") == 1 {
		instr = vfBytes("instr", 3)
	}
	box := [4]int16{vfI16("xmin"), vfI16("ymin"), vfI16("xmax"), vfI16("ymax")}
	s := vfParse((&vfFont{glyphs: [][]byte{vfTriPts(0), simple, simple, vfComposite(box, comps, instr)}}).bytes())
	p := vfOutline(s, 3)
	vfObsPath("p", p)
	vfAssert(len(p.op) == 4*n && len(p.c) == 6*n, "number of contours of a composite glyph")
	for i, c := range comps {
		vfAssert(p.op[4*i] == 1 && p.op[4*i+1] == 2 && p.op[4*i+2] == 2 && p.op[4*i+3] == 5, "contour of a component")
		if form == 1 {
			c.d = c.a
		}
		if form < 3 {
			c.b, c.c = 0, 0
		}
		for k := 0; k < 3; k++ {
			u, v := pts[k][0], pts[k][1]
			vfNear(p.c[6*i+2*k], c.dx, u, v, c.a, c.c, form == 0)
			if form == 0 {
				vfNear(p.c[6*i+2*k+1], c.dy, v, 0, 0, 0, true)
			} else {
				vfNear(p.c[6*i+2*k+1], c.dy, v, u, c.d, c.b, false)
			}
		}
	}
	a, b, e, f := s.GlyphBounds(3)
	vfAssert(a == box[0] && b == box[1] && e == box[2] && f == box[3], "bounds of a composite glyph")
	vfReach("drawn")
}

// Many components: n components with arbitrary offsets for the q-th and the last, in a font of ng glyphs.
//
//vf:quick n=10,63..66,300 q=5 ng=4
//vf:quick n=300 q=127,255,256 ng=70,300
//vf:quick n=3000 q=2047 ng=4000
//vf:opt reach=drawn steps=4e8
func vhMany() {
	n, q, ng := vfParam("n"), vfParam("q"), vfParam("ng")
	gs := vfTris(ng)
	for i := range gs {
		gs[i] = vfTriPts(i)
	}
	var comps []vfComp
	for i := 0; i < n; i++ {
		c := vfComp{gid: uint16(1 + i*7%(ng-1)), words: true, dx: int16(2 * i), dy: int16(-i)}
		if i == q || i == n-1 {
			c.dx, c.dy = vfI16("dx"), vfI16("dy")
		}
		comps = append(comps, c)
	}
	s := vfParse((&vfFont{glyphs: append(gs, vfComposite([4]int16{1, 2, 3, 4}, comps, nil)), long: ng > 1000}).bytes())
	p := vfOutline(s, uint16(ng))
	vfObsPath("p", p)
	vfAssert(len(p.op) == 4*n && len(p.c) == 6*n, "number of contours of a composite glyph")
	for i, c := range comps {
		vfAssert(p.op[4*i] == 1 && p.op[4*i+1] == 2 && p.op[4*i+2] == 2 && p.op[4*i+3] == 5, "contour of a component")
		k := int64(c.gid)
		vfNear(p.c[6*i], c.dx, k, 0, 0, 0, true)
		vfNear(p.c[6*i+1], c.dy, 0, 0, 0, 0, true)
	}
	vfReach("drawn")
}

// The parts of a composite are appended in order, whatever their kind: an empty glyph, a two-contour curved glyph with an arbitrary curve flag, and a nested composite, d levels deep.
//
//vf:quick d=1..8
//vf:thorough d=1..8
func vhNested() {
	on := []byte{1, vfU8("on") & 1, 1, vfU8("on") & 1, 1, vfU8("on") & 1, 1}
	xs := []int16{0, 50, 100, 100, 20, 30, 40}
	ys := []int16{0, 10, 0, 100, 20, 60, 20}
	curve := vfSimple([]uint16{3, 6}, on, xs, ys, nil, [4]int16{0, 0, 100, 100})
	glyphs := [][]byte{vfTriPts(0), {}, curve}
	d := vfParam("d")
	dx := vfI16("dx")
	vfAssume(-1000 <= dx && dx <= 1000)
	for i := 0; i < d; i++ {
		glyphs = append(glyphs, vfComposite([4]int16{0, 0, 1, 1}, []vfComp{{gid: 1, words: true}, {gid: uint16(2 + i), dx: dx, words: true}, {gid: 0, dx: int16(i)}}, nil))
	}
	s := vfParse((&vfFont{glyphs: glyphs}).bytes())
	got := vfOutline(s, uint16(2+d))
	vfObsPath("p", got)
	want := &vfPath{}
	ref, ok := vfRefSimple(curve)
	vfAssert(ok, "reference decoder")
	ref.draw(want, float64(int(dx)*d), 0, 1)
	tri, _ := vfRefSimple(vfTriPts(0))
	for i := 0; i < d; i++ {
		tri.draw(want, float64(int(dx)*(d-1-i)+i), 0, 1)
	}
	vfAssert(len(got.op) == len(want.op) && len(got.c) == len(want.c), "number of path commands")
	vfAssert(vfSamePath(got, want), "outline of a nested composite glyph")
}

// References are arbitrary: four composite glyphs with n arbitrary component references each; cycles and references outside the font give an error.
//
//vf:quick n=1
//vf:thorough n=1..2
//vf:opt reach=drawn,error steps=2e8
func vhReferences() {
	n := vfParam("n")
	glyphs := [][]byte{vfTriPts(0)}
	ref := make([][]uint16, 5)
	for i := 1; i < 5; i++ {
		var comps []vfComp
		for j := 0; j < n; j++ {
			g := vfU16("ref")
			if j > 0 {
				vfAssume(g == 0 || g == uint16(i))
			}
			ref[i] = append(ref[i], g)
			comps = append(comps, vfComp{gid: g})
		}
		glyphs = append(glyphs, vfComposite([4]int16{0, 0, 1, 1}, comps, nil))
	}
	s := vfParse((&vfFont{glyphs: glyphs}).bytes())
	// reachability of a cycle or of a missing glyph from glyph 1
	bad := [6]bool{false, true, true, true, true, true}
	for k := 0; k < 5; k++ {
		for i := 1; i < 5; i++ {
			b := false
			for _, g := range ref[i] {
				for j := 1; j < 5; j++ {
					b = b || int(g) == j && bad[j]
				}
				b = b || g >= 5
			}
			bad[i] = b
		}
	}
	p := &vfPath{}
	err := s.GlyphPath(p, 1, 0, 0, 0, 1, NoHinting)
	if bad[1] {
		vfReach("error")
		vfAssert(err != nil, "cyclic or missing reference accepted")
	} else {
		vfReach("drawn")
		vfAssert(err == nil, "acyclic references rejected")
		vfAssert(len(p.op) > 0, "nothing drawn")
	}
}
