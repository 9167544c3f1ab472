package font

//vf:use kit.go woffkit.go sfntref.go glyfref.go

// vfTripletClass gives the number of coordinate bytes and bits of both axes for a flag (without on-curve bit).
func vfTripletClass(f int) (nb, xb, yb int) {
	switch {
	case f < 10:
		return 1, 0, 8
	case f < 20:
		return 1, 8, 0
	case f < 84:
		return 1, 4, 4
	case f < 120:
		return 2, 8, 8
	case f < 124:
		return 3, 12, 12
	}
	return 4, 16, 16
}

// vfTripletX and vfTripletY give the constant that is added to the bits of each axis, and its sign.
func vfTripletX(f int) int {
	switch {
	case f < 10:
		return 0
	case f < 20:
		return (f - 10) / 2 * 256
	case f < 84:
		return 1 + 16*((f-20)/16)
	case f < 120:
		return 1 + 256*((f-84)/12)
	}
	return 0
}

func vfTripletY(f int) int {
	switch {
	case f < 10:
		return f / 2 * 256
	case f < 20:
		return 0
	case f < 84:
		return 1 + 16*((f-20)%16/4)
	case f < 120:
		return 1 + 256*((f-84)%12/4)
	}
	return 0
}

func vfSignX(f int) int {
	if f%2 == 0 {
		return -1
	}
	return 1
}

func vfSignY(f int) int {
	if f < 10 && f%2 == 0 || f >= 20 && f%4 < 2 {
		return -1
	}
	return 1
}

// vfTriplet decodes one point.
func vfTriplet(f byte, b []byte) (n int, x, y int16) {
	t := int(f & 0x7F)
	nb, xb, yb := vfTripletClass(t)
	var v uint32
	for i := 0; i < nb; i++ {
		v = v<<8 | uint32(b[i])
	}
	vx, vy := vfTripletX(t)+int(v>>uint(yb)&(1<<uint(xb)-1)), vfTripletY(t)+int(v&(1<<uint(yb)-1))
	vx *= vfSignX(t)
	vy *= vfSignY(t)
	return nb, int16(vx), int16(vy)
}

// vfW2Out unpacks b and returns the tables, after checking the file.
func vfW2Out(b []byte) map[string][]byte {
	saved := append([]byte(nil), b...)
	out, err := ParseWOFF2(b)
	vfAssert(err == nil, "well-formed file rejected")
	vfAssert(string(saved) == string(b), "input changed")
	vfCheckFile(out, true)
	t := vfDir(out)
	return t
}

// vfRecs splits the glyf table.
func vfRecs(t map[string][]byte, ng int) [][]byte {
	long := vfGet16(t["head"], 50) != 0
	loca, glyf := t["loca"], t["glyf"]
	vfAssert(uint32(len(loca)) == vfLocaLen(ng, int(vfB2i(long))), "loca length")
	off := func(i int) int {
		if long {
			return int(vfGet32(loca, 4*i))
		}
		return 2 * int(vfGet16(loca, 2*i))
	}
	var rs [][]byte
	vfAssert(off(0) == 0 && off(ng) <= len(glyf), "loca ends")
	for i := 0; i < ng; i++ {
		a, b := off(i), off(i+1)
		vfAssert(a <= b && b <= len(glyf), "loca order")
		rs = append(rs, glyf[a:b])
	}
	return rs
}

func vfIn(b []byte, p int) int16 { return int16(vfGet16(b, p)) }

// vfCheckSimple compares a simple glyph record.
func vfCheckSimple(r []byte, ends []int, on []bool, xs, ys []int16, box []byte, instr []byte, over bool) {
	vfAssert(len(r) >= 12, "record of a simple glyph")
	vfAssert(vfIn(r, 0) == int16(len(ends)), "contour count")
	p, ok := vfRefSimple(r)
	vfAssert(ok, "record can not be decoded")
	vfAssert(len(p.ends) == len(ends) && len(p.on) == len(on), "number of contours or points")
	for i := range ends {
		vfAssert(p.ends[i] == ends[i], "end point")
	}
	var xmin, ymin, xmax, ymax int16
	for i := range on {
		vfAssert(p.on[i] == on[i], "on-curve flag")
		vfAssert(p.xs[i] == xs[i] && p.ys[i] == ys[i], "coordinate")
		if i == 0 {
			xmin, ymin, xmax, ymax = xs[0], ys[0], xs[0], ys[0]
		} else {
			xmin, ymin, xmax, ymax = min(xmin, xs[i]), min(ymin, ys[i]), max(xmax, xs[i]), max(ymax, ys[i])
		}
	}
	if box != nil {
		vfAssert(string(r[2:10]) == string(box), "explicit bounding box")
	} else {
		vfAssert(vfIn(r, 2) == xmin && vfIn(r, 4) == ymin && vfIn(r, 6) == xmax && vfIn(r, 8) == ymax, "computed bounding box")
	}
	k := 10 + 2*len(ends)
	vfAssert(int(vfGet16(r, k)) == len(instr) && string(r[k+2:k+2+len(instr)]) == string(instr), "instructions")
	vfAssert((r[k+2+len(instr)]&0x40 != 0) == over, "overlap flag")
}

// vfFit assumes that the sums of the coordinates do not exceed 16 bits.
func vfFit(v int16, d int16) int16 {
	s := int32(v) + int32(d)
	vfAssume(s == int32(int16(s)))
	return int16(s)
}

func vfGlyfTables(ng, long int, g *vfW2Glyf) [][]byte {
	g.long = long
	t := vfW2Out(vfW2Font(ng, long, g.bytes(), vfW2Hmtx(ng), nil, nil, nil))
	return vfRecs(t, ng)
}

// A glyph of n points in one contour with arbitrary flags and coordinate bytes: all triplet encodings.
//
//vf:quick n=1..2 box=0,1
//vf:thorough n=3 box=0,1
//vf:thorough n=4 box=0
//vf:opt reach=ok paths=100000
func vhTriplets() {
	n := vfParam("n")
	g := &vfW2Glyf{ng: 1, nContours: vf16s(1), nPoints: []byte{byte(n)}, flags: vfBytes("f", n)}
	var on []bool
	var xs, ys []int16
	var x, y int16
	for i := 0; i < n; i++ {
		f := g.flags[i]
		nb, _, _ := vfTripletClass(int(f & 0x7F))
		c := vfBytes("c", nb)
		g.glyphs = append(g.glyphs, c...)
		k, dx, dy := vfTriplet(f, append(append([]byte(nil), c...), 0, 0, 0))
		vfAssert(k == nb, "reference")
		x, y = vfFit(x, dx), vfFit(y, dy)
		on = append(on, f&0x80 == 0)
		xs, ys = append(xs, x), append(ys, y)
	}
	var box []byte
	if vfParam("box") == 1 {
		box = vfBytes("box", 8)
		g.boxes = box
		g.bits = []byte{0x80, 0, 0, 0}
	}
	instr := vfBytes("instr", 2)
	g.glyphs = append(g.glyphs, 2)
	g.instr = instr
	rs := vfGlyfTables(1, 0, g)
	vfCheckSimple(rs[0], []int{n - 1}, on, xs, ys, box, instr, false)
	vfObsB("rec", rs[0])
	vfReach("ok")
}

// vfSimpleW2 appends a small glyph of np points with arbitrary 8-bit steps and returns the check to run on its record.
func vfSimpleW2(g *vfW2Glyf, np int, box []byte, over bool, instr []byte) func(r []byte) {
	g.nContours = append(g.nContours, 0, 1)
	g.nPoints = vf255(g.nPoints, uint16(np))
	var on []bool
	var xs, ys []int16
	var x, y int16
	for i := 0; i < np; i++ {
		f := [4]byte{20, 0xFB - 0x80 - 0x28, 0xA1, 0x36}[i&3]
		c := vfBytes("c", 1)
		_, dx, dy := vfTriplet(f, append(c, 0, 0, 0))
		x, y = vfFit(x, dx), vfFit(y, dy)
		on, xs, ys = append(on, f&0x80 == 0), append(xs, x), append(ys, y)
		g.flags = append(g.flags, f)
		g.glyphs = append(g.glyphs, c[0])
	}
	g.boxes = append(g.boxes, box...)
	g.instr = append(g.instr, instr...)
	g.glyphs = vf255(g.glyphs, uint16(len(instr)))
	return func(r []byte) { vfCheckSimple(r, []int{np - 1}, on, xs, ys, box, instr, over) }
}

// ng glyphs, of which the one at index p and the last are simple with an explicit or computed bounding box and an overlap bit
// (by m), the others empty; short or long loca.
//
//vf:quick ng=2,8,9,31..34,63..66 p=0 m=0..3 long=0
//vf:quick ng=9,33,65 p=6,7 m=1,3 long=0,1
//vf:quick ng=34,65 p=31..33 m=1,3 long=0,1
//vf:quick ng=300,2100 p=256,290 m=1,3 long=0,1
//vf:quick ng=8300 p=2048,8191 m=3 long=0
//vf:quick ng=40000 p=32800 m=3 long=1
//vf:thorough ng=66 p=0..64 m=0..3 long=0,1
//vf:opt reach=ok steps=4e8
func vhGlyphBits() {
	ng, p, m := vfParam("ng"), vfParam("p"), vfParam("m")
	g := &vfW2Glyf{ng: ng, opt: m >> 1, bits: make([]byte, (ng+31)/32*4)}
	if m >= 2 {
		g.over = make([]byte, (ng+7)/8)
	}
	checks := map[int]func([]byte){}
	for i := 0; i < ng; i++ {
		if i != p && i != ng-1 {
			g.nContours = append(g.nContours, 0, 0)
			continue
		}
		var box []byte
		over := false
		if m&1 != 0 {
			box = vfBytes("box", 8)
			g.bits[i/8] |= 0x80 >> uint(i%8)
		}
		if m >= 2 && i == p {
			over = true
			g.over[i/8] |= 0x80 >> uint(i%8)
		}
		checks[i] = vfSimpleW2(g, 2, box, over, vfBytes("instr", i%3))
	}
	rs := vfGlyfTables(ng, vfParam("long"), g)
	for i, r := range rs {
		if c := checks[i]; c != nil {
			c(r)
		} else {
			vfAssert(len(r) == 0, "empty glyph")
		}
	}
	vfReach("ok")
}

// Three glyphs, each empty, simple or composite, with arbitrary bounding-box and overlap bits where the format allows them.
//
//vf:quick k=0..26
//vf:opt reach=ok
func vhGlyphMix() {
	k := vfParam("k")
	g := &vfW2Glyf{ng: 3, opt: 1, bits: make([]byte, 4), over: []byte{0}}
	checks := map[int]func([]byte){}
	for i := 0; i < 3; i, k = i+1, k/3 {
		bit := byte(0x80) >> uint(i)
		switch k % 3 {
		case 0:
			g.nContours = append(g.nContours, 0, 0)
		case 1:
			var box []byte
			if vfBool("hasbox") {
				box = vfBytes("box", 8)
				g.bits[0] |= bit
			}
			over := vfBool("over")
			if over {
				g.over[0] |= bit
			}
			checks[i] = vfSimpleW2(g, 1+i, box, over, vfBytes("instr", 2-i))
		case 2:
			box := vfBytes("box", 8)
			g.bits[0] |= bit
			if vfBool("over") { // has no meaning for composite glyphs
				g.over[0] |= bit
			}
			checks[i] = vfCompositeW2(g, 1+i%2, box, 0x100*(i%2)+[4]int{0, 8, 0x40, 0x80}[(k+i)%4])
		}
	}
	rs := vfGlyfTables(3, 0, g)
	for i, r := range rs {
		if c := checks[i]; c != nil {
			c(r)
		} else {
			vfAssert(len(r) == 0, "empty glyph")
		}
	}
	vfReach("ok")
}

// vfCompositeW2 appends a composite glyph of n components with arbitrary flags and data.
func vfCompositeW2(g *vfW2Glyf, n int, box []byte, fl int) func(r []byte) {
	g.nContours = append(g.nContours, 0xFF, 0xFF)
	want := append([]byte{0xFF, 0xFF}, box...)
	has := false
	for i := 0; i < n; i++ {
		f := vfU16("cflags")
		vfAssume((f&0x20 != 0) == (i < n-1))
		if fl >= 0 {
			vfAssume(f&0x01C9 == uint16(fl)|uint16(i+n)&1)
		}
		l := 4
		if f&1 != 0 {
			l += 2
		}
		if f&8 != 0 {
			vfAssume(f&0xC0 == 0)
			l += 2
		} else if f&0x40 != 0 {
			vfAssume(f&0x80 == 0)
			l += 4
		} else if f&0x80 != 0 {
			l += 8
		}
		if f&0x100 != 0 {
			has = true
		}
		l = vfConc(l)
		c := append(vf16s(f), vfBytes("comp", l)...)
		g.comps = append(g.comps, c...)
		want = append(want, c...)
	}
	g.boxes = append(g.boxes, box...)
	if has {
		instr := vfBytes("cinstr", 3)
		g.instr = append(g.instr, instr...)
		g.glyphs = vf255(g.glyphs, 3)
		want = append(append(want, 0, 3), instr...)
	}
	return func(r []byte) {
		vfAssert(len(r) >= len(want) && len(r) < len(want)+4 && string(r[:len(want)]) == string(want), "composite glyph")
	}
}

// A composite glyph of n components, followed by a simple glyph.
//
//vf:quick n=1..2
//vf:thorough n=3
//vf:opt reach=ok paths=100000
func vhComposite() {
	g := &vfW2Glyf{ng: 2, bits: []byte{0x80, 0, 0, 0}}
	c := vfCompositeW2(g, vfParam("n"), vfBytes("box", 8), -1)
	c2 := vfSimpleW2(g, 2, nil, false, vfBytes("instr", 1))
	rs := vfGlyfTables(2, 1, g)
	c(rs[0])
	c2(rs[1])
	vfReach("ok")
}

// A simple glyph of c contours with arbitrary points per contour (1 to 3).
//
//vf:quick c=1..4
//vf:thorough c=5,6
//vf:opt reach=ok
func vhContours() {
	c := vfParam("c")
	g := &vfW2Glyf{ng: 1, nContours: vf16s(uint16(c))}
	var ends []int
	var on []bool
	var xs, ys []int16
	n := 0
	x := int16(0)
	for i := 0; i < c; i++ {
		k := vfConc(vfInt("k", 1, 3-i/2))
		g.nPoints = append(g.nPoints, byte(k))
		n += k
		ends = append(ends, n-1)
	}
	for i := 0; i < n; i++ {
		b := vfU8("c")
		g.flags = append(g.flags, 11|byte(i&1)<<7)
		g.glyphs = append(g.glyphs, b)
		x = vfFit(x, int16(b))
		on, xs, ys = append(on, i&1 == 0), append(xs, x), append(ys, 0)
	}
	g.glyphs = append(g.glyphs, 0)
	rs := vfGlyfTables(1, 0, g)
	vfCheckSimple(rs[0], ends, on, xs, ys, nil, nil, false)
	vfReach("ok")
}

// Large fonts: ng glyphs of which every k-th has two points and ni bytes of instructions and the others are empty, so that the glyph
// table passes the limits of the short offset format, apart from two glyphs of arbitrary points; the first has c contours.
//
//vf:quick ng=300 k=1 ni=0 c=300
//vf:quick ng=400 k=1 ni=300 c=1
//vf:quick ng=600 k=2 ni=500 c=700
//vf:quick ng=2100 k=3 ni=90 c=1
//vf:thorough ng=9000 k=2 ni=60 c=9000
//vf:opt reach=ok steps=4e8
func vhLarge() {
	ng, k, ni, c := vfParam("ng"), vfParam("k"), vfParam("ni"), vfParam("c")
	g := &vfW2Glyf{ng: ng, bits: make([]byte, (ng+31)/32*4)}
	checks := make([]func([]byte), ng)
	for i := 0; i < ng; i++ {
		switch {
		case i == ng-1 || i == ng/2:
			box := vfBytes("box", 8)
			g.bits[i/8] |= 0x80 >> uint(i%8)
			checks[i] = vfSimpleW2(g, 2, box, false, vfBytes("instr", i%3))
		case i == 0:
			g.nContours = vf16(g.nContours, uint16(c))
			var ends []int
			var on []bool
			var xs, ys []int16
			for j := 0; j < c; j++ {
				g.nPoints = append(g.nPoints, 2)
				g.flags = append(g.flags, 11, 11)
				g.glyphs = append(g.glyphs, 1, 2)
				ends = append(ends, 2*j+1)
				on = append(on, true, true)
				xs, ys = append(xs, int16(3*j+1), int16(3*j+3)), append(ys, 0, 0)
			}
			g.glyphs = append(g.glyphs, 0)
			checks[i] = func(r []byte) { vfCheckSimple(r, ends, on, xs, ys, nil, nil, false) }
		case i%k == 0:
			b := byte(i)
			instr := make([]byte, ni)
			if ni > 0 {
				instr[ni-1] = b
			}
			g.nContours = append(g.nContours, 0, 1)
			g.nPoints = append(g.nPoints, 2)
			g.flags = append(g.flags, 11, 11)
			g.glyphs = vf255(append(g.glyphs, b, 2), uint16(ni))
			g.instr = append(g.instr, instr...)
			checks[i] = func(r []byte) {
				vfCheckSimple(r, []int{1}, []bool{true, true}, []int16{int16(b), int16(b) + 2}, []int16{0, 0}, nil, instr, false)
			}
		default:
			g.nContours = append(g.nContours, 0, 0)
		}
	}
	long := 0
	if ng*(34+ni)/k > 100000 {
		long = 1
	}
	for i, r := range vfGlyfTables(ng, long, g) {
		if checks[i] != nil {
			checks[i](r)
		} else {
			vfAssert(len(r) == 0, "empty glyph")
		}
	}
	vfReach("ok")
}

// Point counts and instruction lengths of v in each form of the variable-length encoding that can hold it.
//
//vf:quick v=1,2,100,252..260,505..510,700,761,762 form=0..3
//vf:thorough v=300..761/23 form=0..3
//vf:thorough v=763,1000,5000 form=3
//vf:opt
func vh255() {
	v := vfParam("v")
	var enc []byte
	switch vfParam("form") {
	case 0:
		if v > 252 {
			return
		}
		enc = []byte{byte(v)}
	case 1:
		if v < 253 || v-253 > 255 {
			return
		}
		enc = []byte{255, byte(v - 253)}
	case 2:
		if v < 506 || v-506 > 255 {
			return
		}
		enc = []byte{254, byte(v - 506)}
	case 3:
		enc = []byte{253, byte(v >> 8), byte(v)}
	}
	// a glyph of v points, one with v bytes of instructions, and another glyph
	g := &vfW2Glyf{ng: 3}
	instr := vfBytes("instr", v)
	g.nContours = vf16s(1)
	g.nPoints = append([]byte(nil), enc...)
	var on []bool
	var xs, ys []int16
	x := int16(0)
	for i := 0; i < v; i++ {
		b := byte(i)
		if i == v-1 {
			b = vfU8("last")
		}
		g.flags = append(g.flags, 10|byte(1-i&1))
		if i&1 == 0 {
			x += int16(b)
		} else {
			x -= int16(b)
		}
		g.glyphs = append(g.glyphs, b)
		on, xs, ys = append(on, true), append(xs, x), append(ys, 0)
	}
	g.glyphs = append(g.glyphs, 0)
	// second glyph
	g.nContours = append(g.nContours, 0, 1)
	g.nPoints = append(g.nPoints, 1)
	g.flags = append(g.flags, 1)
	g.glyphs = append(g.glyphs, 7)
	g.glyphs = append(g.glyphs, enc...)
	g.instr = append([]byte(nil), instr...)
	third := vfSimpleW2(g, 1, nil, false, []byte{1})
	rs := vfGlyfTables(3, 1, g)
	vfCheckSimple(rs[0], []int{v - 1}, on, xs, ys, nil, nil, false)
	vfCheckSimple(rs[1], []int{0}, []bool{true}, []int16{0}, []int16{7}, nil, instr, false)
	third(rs[2])
}

// vfRef128 decodes a UIntBase128 number of exactly len(b) bytes.
func vfRef128(b []byte) (v uint64, ok bool) {
	ok = b[0] != 0x80
	for i, c := range b {
		v = v<<7 | uint64(c&0x7F)
		if (c&0x80 != 0) != (i < len(b)-1) {
			ok = false
		}
	}
	return v, ok && v <= 0xFFFFFFFF
}

// A table length of n arbitrary bytes in the directory is accepted exactly when it encodes the length l of the data.
//
//vf:quick n=1,3..5 l=0,1,127,128
//vf:quick n=2 l=128
//vf:quick n=3 l=16383,16384
//vf:thorough n=1,2,4,5 l=1,127,129,16383,16384
//vf:opt reach=err
func vhBase128() {
	n, l := vfParam("n"), vfParam("l")
	num := vfBytes("num", n)
	for i := range num {
		vfAssume((num[i]&0x80 != 0) == (i < n-1))
	}
	v, ok := vfRef128(num)
	if l > 1000 {
		vfAssume(v+3 > uint64(l) && v < uint64(l)+3)
	}
	head := vfHead(false)
	head[16] |= 8
	z := make([]byte, l)
	dir := vfW2Dir([]vfW2Tab{vfW2Plain("head", head), vfW2Plain("zzzz", nil)})
	dir = append(dir[:len(dir)-1], num...)
	comp := vfBrotli(append(append([]byte(nil), head...), z...))
	out, err := ParseWOFF2(vfW2File(0x00010000, 2, dir, comp, 0))
	vfAssert((err == nil) == (ok && v == uint64(l)), "length encoding")
	if err == nil {
		vfReach("ok")
		vfAssert(len(vfDir(out)["zzzz"]) == l, "length")
	} else {
		vfReach("err")
	}
}

// The original length of a transformed glyf table may be any valid number of n bytes.
//
//vf:quick n=1..5
//vf:opt reach=ok
func vhBase128Orig() {
	n := vfParam("n")
	num := vfBytes("num", n)
	for i := range num {
		vfAssume((num[i]&0x80 != 0) == (i < n-1))
	}
	_, ok := vfRef128(num)
	g := &vfW2Glyf{ng: 1}
	check := vfSimpleW2(g, 2, nil, false, nil)
	b := g.bytes()
	head := vfHead(false)
	head[16] |= 8
	dir := append([]byte{10}, num...)
	dir = vfB128(dir, uint32(len(b)))
	dir = append(dir, vfW2Dir([]vfW2Tab{{"loca", nil, 0, true, 4}, vfW2Plain("head", head)})...)
	out, err := ParseWOFF2(vfW2File(0x00010000, 3, dir, vfBrotli(vfCat(b, head)), 2))
	vfAssert((err == nil) == ok, "length encoding")
	if err == nil {
		vfCheckFile(out, true)
		check(vfRecs(vfDir(out), 1)[0])
		vfReach("ok")
	}
}

// Untransformed tables: a table with the k-th known tag (and one with a tag of arbitrary letters) and n arbitrary bytes.
//
//vf:quick k=0..62 n=5
//vf:quick k=5,8 n=0..9
//vf:opt reach=ok
func vhPlain() {
	k, n := vfParam("k"), vfParam("n")
	tag := vfW2Tags[4*k : 4*k+4]
	in := map[string][]byte{}
	data := vfBytes("d", n)
	if tag == "head" {
		data = vfBytes("h", 54)
		vfAssume(data[16]&8 != 0)
	} else {
		h := vfHead(false)
		copy(h[8:12], vfBytes("adj", 4))
		h[16] |= 8
		in["head"] = h
	}
	in[tag] = data
	z := vfBytes("z", 3)
	in["zz z"] = z
	tv := 0
	var tabs []vfW2Tab
	tabs = append(tabs, vfW2Plain("zz z", z))
	if tag == "glyf" || tag == "loca" {
		tv = 3
		o := vfBytes("o", 6)
		if tag == "glyf" {
			in["loca"] = o
			tabs = append(tabs, vfW2Tab{tag, data, tv, false, uint32(n)}, vfW2Tab{"loca", o, tv, false, 6})
		} else {
			in["glyf"] = o
			tabs = append(tabs, vfW2Tab{"glyf", o, tv, false, 6}, vfW2Tab{tag, data, tv, false, uint32(n)})
		}
	} else {
		tabs = append(tabs, vfW2Plain(tag, data))
	}
	if tag != "head" {
		tabs = append(tabs, vfW2Plain("head", in["head"]))
	}
	flavor := uint32(0x00010000)
	if k%2 == 0 {
		flavor = 0x4F54544F
	}
	b := vfW2(flavor, tabs)
	out, err := ParseWOFF2(b)
	vfAssert(err == nil, "well-formed file rejected")
	out2, err := ToSFNT(b)
	vfAssert(err == nil && string(out) == string(out2), "ToSFNT differs")
	vfCheckFile(out, true)
	vfAssert(vfGet32(out, 0) == flavor, "version")
	vfSameTables(in, vfDir(out))
	vfReach("ok")
}

// Metrics with omitted side bearings: ng glyphs (the last two with a bounding box, the first empty, one composite) of which k
// have full records, flags fl, glyf transformed (tr) or not.
//
//vf:quick ng=3 k=1..3 fl=1..3 tr=0,1 long=0
//vf:quick ng=4 k=1..4 fl=1..3 tr=1 long=1
//vf:thorough ng=5..7 k=1..5 fl=1..3 tr=0,1 long=0,1
//vf:opt reach=ok
func vhMetrics() {
	ng, k, fl, long := vfParam("ng"), vfParam("k"), vfParam("fl"), vfParam("long")
	if k > ng {
		return
	}
	g := &vfW2Glyf{ng: ng, nContours: vf16s(0), bits: make([]byte, 4)}
	var recs [][]byte
	recs = append(recs, nil)
	xmin := []int16{0}
	for i := 1; i < ng; i++ {
		box := vfBytes("box", 8)
		if i == 1 || i >= ng-2 {
			g.bits[0] |= 0x80 >> uint(i)
			if i == ng-1 {
				g.nContours = append(g.nContours, 0xFF, 0xFF)
				g.comps = vf16s(0, 1, 0)
				recs = append(recs, vfCat(vf16s(0xFFFF), box, g.comps))
				g.boxes = append(g.boxes, box...)
			} else {
				vfSimpleW2(g, 1, box, false, nil)
				recs = append(recs, vfCat(vf16s(1), box, vf16s(0, 0, 0x0101, 0)))
			}
			xmin = append(xmin, vfIn(box, 0))
		} else {
			g.nContours = append(g.nContours, 0, 0)
			recs = append(recs, nil)
			xmin = append(xmin, 0)
		}
	}
	h := []byte{byte(fl)}
	var want []byte
	adv := vfBytes("adv", 2*k)
	h = append(h, adv...)
	lsb := vfBytes("lsb", 2*k)
	tail := vfBytes("tail", 2*(ng-k))
	if fl&1 != 0 {
		lsb = nil
		for i := 0; i < k; i++ {
			lsb = vf16(lsb, uint16(xmin[i]))
		}
	} else {
		h = append(h, lsb...)
	}
	if fl&2 != 0 {
		tail = nil
		for i := k; i < ng; i++ {
			tail = vf16(tail, uint16(xmin[i]))
		}
	} else {
		h = append(h, tail...)
	}
	for i := 0; i < k; i++ {
		want = append(append(want, adv[2*i:2*i+2]...), lsb[2*i:2*i+2]...)
	}
	want = append(want, tail...)
	hm := vfW2Tab{"hmtx", h, 1, true, uint32(len(want))}
	var b []byte
	if vfParam("tr") == 1 {
		g.long = long
		b = vfW2Font(ng, long, g.bytes(), hm, nil, vfHhea(k), nil)
	} else {
		var glyf, loca []byte
		for i := 0; i <= ng; i++ {
			if long != 0 {
				loca = vf32(loca, uint32(len(glyf)))
			} else {
				loca = vf16(loca, uint16(len(glyf)/2))
			}
			if i < ng {
				glyf = append(glyf, recs[i]...)
			}
		}
		head := vfHead(long != 0)
		head[16] |= 8
		b = vfW2(0x00010000, []vfW2Tab{{"glyf", glyf, 3, false, uint32(len(glyf))}, {"loca", loca, 3, false, uint32(len(loca))}, vfW2Plain("head", head), vfW2Plain("hhea", vfHhea(k)), hm, vfW2Plain("maxp", vfMaxp(ng))})
	}
	t := vfW2Out(b)
	vfAssert(string(t["hmtx"]) == string(want), "metrics")
	vfReach("ok")
}

// Metrics with omitted side bearings of large fonts: ng glyphs, every third with a box and 60 bytes of instructions, of which k have full
// records; the boxes of the first, of two around k and of the last such glyphs are arbitrary, and so are two of the stored side bearings.
//
//vf:quick ng=600 k=1,255,256,300,599 fl=1..3 long=0
//vf:quick ng=4500 k=1,2100,4498 fl=1..3 long=0,1
//vf:quick ng=40000 k=32800 fl=2 long=1
//vf:opt reach=ok steps=4e8
func vhManyMetrics() {
	ng, k, fl, long := vfParam("ng"), vfParam("k"), vfParam("fl"), vfParam("long")
	g := &vfW2Glyf{ng: ng, long: long, bits: make([]byte, (ng+31)/32*4)}
	var h, lsb, tail, want []byte
	instr := make([]byte, 60)
	var xmin []int16
	for i := 0; i < ng; i++ {
		if i%3 != 0 {
			g.nContours = append(g.nContours, 0, 0)
			xmin = append(xmin, 0)
			continue
		}
		box := vf16s(uint16(i+1), 2, uint16(i+3), 4)
		if i == 0 || k-3 < i && i < k+3 || i >= ng-3 {
			box = vfBytes("box", 8)
		}
		g.bits[i/8] |= 0x80 >> uint(i%8)
		g.nContours = append(g.nContours, 0, 1)
		g.nPoints = append(g.nPoints, 1)
		g.flags = append(g.flags, 1)
		g.glyphs = append(g.glyphs, 5, 60)
		g.instr = append(g.instr, instr...)
		g.boxes = append(g.boxes, box...)
		xmin = append(xmin, vfIn(box, 0))
	}
	h = []byte{byte(fl)}
	for i := 0; i < k; i++ {
		h = vf16(h, uint16(3*i+1))
		x := uint16(7 * i)
		if i == k-1 {
			x = vfU16("lsb")
		}
		if fl&1 != 0 {
			x = uint16(xmin[i])
		} else {
			lsb = vf16(lsb, x)
		}
		want = vf16(vf16(want, uint16(3*i+1)), x)
	}
	for i := k; i < ng; i++ {
		x := uint16(9 * i)
		if i == ng-1 {
			x = vfU16("tail")
		}
		if fl&2 != 0 {
			x = uint16(xmin[i])
		} else {
			tail = vf16(tail, x)
		}
		want = vf16(want, x)
	}
	h = append(append(h, lsb...), tail...)
	t := vfW2Out(vfW2Font(ng, long, g.bytes(), vfW2Tab{"hmtx", h, 1, true, uint32(len(want))}, nil, vfHhea(k), nil))
	vfAssert(string(t["hmtx"]) == string(want), "metrics")
	vfReach("ok")
}

// A transformed glyf table whose reconstruction does not fit the short offsets: n glyphs of 1000 bytes of instructions.
//
//vf:quick n=131 long=0,1
//vf:quick n=130,132 long=0
func vhShortOverflow() {
	n := vfParam("n")
	g := &vfW2Glyf{ng: n}
	instr := make([]byte, 980)
	var checks []func([]byte)
	last := vfBytes("instr", 2)
	for i := 0; i < n; i++ {
		if i == n-1 {
			copy(instr, last)
		}
		g.nContours = append(g.nContours, 0, 1)
		g.nPoints = append(g.nPoints, 1)
		g.flags = append(g.flags, 1)
		b := vfU8("c")
		g.glyphs = append(g.glyphs, b)
		g.glyphs = vf255(g.glyphs, 980)
		g.instr = append(g.instr, instr...)
		in := append([]byte(nil), instr...)
		checks = append(checks, func(r []byte) {
			vfCheckSimple(r, []int{0}, []bool{true}, []int16{0}, []int16{int16(b)}, nil, in, false)
		})
	}
	rs := vfGlyfTables(n, vfParam("long"), g)
	for i := range rs {
		checks[i](rs[i])
	}
}

// Malformed glyphs are rejected: composite without and empty with a bounding box, and more points than end points can
// number.
//
//vf:quick k=0..3
//vf:opt steps=2e8
func vhBad() {
	g := &vfW2Glyf{ng: 2, bits: []byte{0, 0, 0, 0}, boxes: make([]byte, 16)}
	check := vfSimpleW2(g, 1, nil, false, nil)
	if vfParam("k") == 0 {
		g.nContours = append(g.nContours, 0xFF, 0xFF)
		g.comps = vf16s(0, 0, 0)
	} else if vfParam("k") == 1 {
		g.nContours = append(g.nContours, 0, 0)
		g.bits[0] = 0x40
	} else {
		n := 2
		if vfParam("k") == 3 {
			n = 65535
		}
		g.boxes = nil
		g.nContours = append(g.nContours, 0, 2)
		g.nPoints = append(g.nPoints, 253, 255, 255, 253, byte(n>>8), byte(n))
		g.flags = append(g.flags, make([]byte, 65535+n)...)
		g.glyphs = append(g.glyphs, make([]byte, 65535+n)...)
		g.glyphs = append(g.glyphs, vfBytes("instrLen", 1)...)
		g.instr = append(g.instr, make([]byte, 255)...)
	}
	_, err := ParseWOFF2(vfW2Font(2, 0, g.bytes(), vfW2Hmtx(2), nil, nil, nil))
	vfAssert(err != nil, "malformed glyph accepted")
	_ = check
}
