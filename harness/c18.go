package font

//vf:use kit.go cffkit.go cffref.go

// vfDrawOps compares the outline of a charstring with the outline its operators define.
func vfDrawOps(c *vfCFF, gid uint16, ops []vfT2) {
	s := vfParse(vfCFFFont(c).bytes())
	want := vfT2Path(ops)
	got := &vfPath{}
	err := s.GlyphPath(got, gid, 0, 0, 0, 1, NoHinting)
	vfAssert(err == nil, "valid charstring rejected")
	vfReach("drawn")
	vfNoIdleClose(got)
	vfObsPath("p", got)
	vfAssert(len(got.op) == len(want.op), "number of path commands")
	for i := range want.op {
		vfAssert(got.op[i] == want.op[i], "path command")
	}
	for i := range want.c {
		vfAssert(got.c[i] == want.c[i], "path coordinate")
	}
}

func vfOne(code []byte) *vfCFF { return &vfCFF{chars: [][]byte{vfCFFTri(0), code, vfCFFTri(20)}} }

// Every path operator (o: 0 rlineto, 1 hlineto, 2 vlineto, 3 rrcurveto, 4 hhcurveto, 5 vvcurveto, 6 hvcurveto, 7 vhcurveto, 8 rcurveline, 9 rlinecurve, 10 flex, 11 hflex, 12 hflex1, 13 flex1) with n arbitrary 16.16 operands, wherever n is a valid operand count, after an rmoveto with arbitrary operands. w=1 adds a width.
//
//vf:quick o=0..13 n=1..14 w=0
//vf:quick o=0,4,7 n=4,8 w=1
//vf:quick o=0..9 n=36..37,41,44..45,47..48 w=0
//vf:thorough o=0..13 n=1..48 w=0..1
//vf:opt reach=drawn
func vhOperator() {
	op := vfT2Ops[vfParam("o")]
	n := vfParam("n")
	if !vfT2Valid(op, n) {
		vfReach("drawn")
		return
	}
	var code []byte
	if vfParam("w") == 1 {
		code = append(code, vfNum255(vfI32("width"))...)
	}
	var mv, args []int32
	for i := 0; i < 2; i++ {
		v := vfI32("move")
		mv = append(mv, v)
		code = append(code, vfNum255(v)...)
	}
	code = append(code, 21)
	for i := 0; i < n; i++ {
		v := vfI32("arg")
		args = append(args, v)
		code = append(code, vfNum255(v)...)
	}
	code = append(code, vfT2Code(op)...)
	code = append(code, 14)
	vfDrawOps(vfOne(code), 1, []vfT2{{21, mv}, {op, args}})
}

// The number encodings: the operands of vmoveto and hlineto are numbers of form e (0 one byte, 1 and 2 two bytes, 3 three bytes, 4 16.16) with arbitrary bytes.
//
//vf:quick e=0..4 f=0..4
//vf:opt reach=drawn
func vhNumber() {
	var code []byte
	var v [2]int32
	for i := 0; i < 2; i++ {
		e := vfParam("e")
		if i == 1 {
			e = vfParam("f")
		}
		switch e {
		case 0:
			b := vfU8("b0")
			vfAssume(b >= 32 && b <= 246)
			code = append(code, b)
			v[i] = (int32(b) - 139) * 65536
		case 1:
			b, c := byte(vfInt("b0", 247, 250)), vfU8("b1")
			code = append(code, b, c)
			v[i] = ((int32(b)-247)*256 + int32(c) + 108) * 65536
		case 2:
			b, c := byte(vfInt("b0", 251, 254)), vfU8("b1")
			code = append(code, b, c)
			v[i] = (-(int32(b)-251)*256 - int32(c) - 108) * 65536
		case 3:
			x := vfI16("n")
			code = append(code, vfNum28(int(x))...)
			v[i] = int32(x) * 65536
		default:
			x := vfI32("n")
			code = append(code, vfNum255(x)...)
			v[i] = x
		}
		code = append(code, []byte{4, 6}[i])
	}
	code = append(code, 14)
	vfDrawOps(vfOne(code), 1, []vfT2{{4, v[:1]}, {6, v[1:]}})
}

// Sequences of a moveto (a: 0 rmoveto, 1 hmoveto, 2 vmoveto), two path operators o and q of the list above with their smallest operand count, another moveto and a line; w=1 adds a width.
//
//vf:quick a=0..2 o=0..13/3 q=1,6,9 w=0..1
//vf:thorough a=0..2 o=0..13 q=0..13 w=0..1
//vf:opt reach=drawn
func vhSequence() {
	var code []byte
	var ops []vfT2
	if vfParam("w") == 1 {
		code = append(code, vfNum28(int(vfI16("width")))...)
	}
	mv := []int{21, 22, 4}
	for i, op := range []int{mv[vfParam("a")], vfT2Ops[vfParam("o")], vfT2Ops[vfParam("q")], mv[(vfParam("a")+1)%3], 5} {
		n := 1
		for !vfT2Valid(op, n) {
			n++
		}
		var args []int32
		for j := 0; j < n; j++ {
			var v int32
			if (i+j)%2 == 0 {
				x := vfI16("arg")
				v = int32(x) * 65536
				code = append(code, vfNum28(int(x))...)
			} else {
				v = vfI32("arg")
				code = append(code, vfNum255(v)...)
			}
			args = append(args, v)
		}
		code = append(code, vfT2Code(op)...)
		ops = append(ops, vfT2{op, args})
	}
	code = append(code, 14)
	vfDrawOps(vfOne(code), 1, ops)
}

// Stem hints and hint masks: h horizontal and v vertical stems (k=0 no mask, k=1 hintmask, k=2 cntrmask, k=3 cntrmask then hintmask; i=1 leaves the vstemhm operator out, as a mask allows), a width when w=1; another hintmask in the middle of the contour and before the next moveto. Mask bytes are arbitrary.
//
//vf:quick h=0..2 v=0,1,7 k=0 i=0 w=0..1
//vf:quick h=0..2 v=0,1,7 k=1..3 i=0..1 w=0..1
//vf:quick h=24 v=24 k=1 i=0..1 w=0
//vf:thorough h=0..8 v=0..9,17,23 k=0..3 i=0..1 w=0..1
//vf:opt reach=drawn
func vhHints() {
	h, v, k := vfParam("h"), vfParam("v"), vfParam("k")
	var code []byte
	if vfParam("w") == 1 {
		code = append(code, vfNum28(int(vfI16("width")))...)
	}
	stem := func(n int) {
		for i := 0; i < 2*n; i++ {
			code = append(code, vfNum28(int(vfI16("stem")))...)
		}
	}
	mask := func(op byte) {
		code = append(code, op)
		code = append(code, vfBytes("mask", (h+v+7)/8)...)
	}
	if h > 0 {
		stem(h)
		if k > 0 {
			code = append(code, 18)
		} else {
			code = append(code, 1)
		}
	}
	if v > 0 {
		stem(v)
		if k == 0 {
			code = append(code, 3)
		} else if vfParam("i") == 0 {
			code = append(code, 23)
		}
	}
	switch k {
	case 1:
		mask(19)
	case 2:
		mask(20)
	case 3:
		mask(20)
		mask(19)
	}
	x, y, dx, dy := vfI16("x"), vfI16("y"), vfI16("dx"), vfI16("dy")
	xs := func(a ...int16) []int32 {
		var r []int32
		for _, v := range a {
			code = append(code, vfNum28(int(v))...)
			r = append(r, int32(v)*65536)
		}
		return r
	}
	var ops []vfT2
	if h+v+k == 0 && vfParam("w") == 1 {
		// the width belongs to the moveto
	}
	ops = append(ops, vfT2{21, xs(x, y)})
	code = append(code, 21)
	ops = append(ops, vfT2{6, xs(dx)})
	code = append(code, 6)
	if k > 0 {
		mask(19)
	}
	ops = append(ops, vfT2{7, xs(dy)})
	code = append(code, 7)
	if k > 0 {
		mask(19)
	}
	ops = append(ops, vfT2{22, xs(dx)})
	code = append(code, 22)
	ops = append(ops, vfT2{5, xs(dx, dy)})
	code = append(code, 5, 14)
	vfDrawOps(vfOne(code), 1, ops)
}

// A glyph without contours: endchar only, with hints, with a width, or inside a subroutine.
//
//vf:quick w=0..1 s=0..1
func vhBlank() {
	var code []byte
	if vfParam("w") == 1 {
		code = append(code, vfNum28(int(vfI16("width")))...)
	}
	c := &vfCFF{}
	if vfParam("s") == 1 {
		c.gsubrs = [][]byte{{14}}
		code = append(code, vfNum(-107)...)
		code = append(code, 29)
	} else {
		code = append(code, 14)
	}
	c.chars = [][]byte{vfCFFTri(0), code, vfCFFTri(20)}
	vfDrawOps(c, 1, nil)
	s := vfParse(vfCFFFont(c).bytes())
	x0, y0, x1, y1 := s.GlyphBounds(1)
	vfAssert(x0 == 0 && y0 == 0 && x1 == 0 && y1 == 0, "bounds of an empty glyph")
}

// vfPushSubrs are n subroutines, the i-th of which pushes i-5 (and the last one twice the value).
func vfPushSubrs(n int) [][]byte {
	var r [][]byte
	for i := 0; i < n; i++ {
		r = append(r, append(vfNum28(i-5), 11))
	}
	return r
}

// Subroutine biases: a local (g=0) or global (g=1) INDEX of n subroutines; the called index is d from the beginning (d < 8) or from the end; the call operand has form e. The other INDEX has m subroutines.
//
//vf:quick g=0..1 n=1,9,108,1239,1240 m=0,2 e=0..1
//vf:quick g=0 n=33899 m=0 e=0
//vf:quick g=1 n=33900 m=0 e=0
//vf:thorough g=0..1 n=1,9,107,108,109,1239,1240,1241,2263 m=0,2,1240 e=0..1
//vf:thorough g=0..1 n=33899,33900 m=0 e=0
//vf:opt reach=drawn steps=4e8
func vhBias() {
	n, m := vfParam("n"), vfParam("m")
	bias := func(n int) int {
		if n < 1240 {
			return 107
		} else if n < 33900 {
			return 1131
		}
		return 32768
	}
	i := vfInt("i", 0, 7)
	if n == 1 {
		i = 0
	} else if vfBool("end") {
		i = n - 1 - i
	}
	i = vfConc(i)
	c := &vfCFF{}
	c.gsubrs, c.lsubrs = vfPushSubrs(m), vfPushSubrs(n)
	op := byte(10)
	if vfParam("g") == 1 {
		c.gsubrs, c.lsubrs = vfPushSubrs(n), vfPushSubrs(m)
		op = 29
	}
	a, b := vfI16("a"), vfI16("b")
	code := vfCat(vfNum28(int(a)), vfNum28(int(b)), []byte{21}, vfNum28(int(b)))
	num := i - bias(n)
	if vfParam("e") == 0 {
		code = append(code, vfNum28(num)...)
	} else {
		code = append(code, vfNum255(int32(num)*65536)...)
	}
	code = append(code, op, 5, 14)
	c.chars = [][]byte{vfCFFTri(0), code, vfCFFTri(20)}
	vfDrawOps(c, 1, []vfT2{{21, []int32{int32(a) * 65536, int32(b) * 65536}}, {5, []int32{int32(b) * 65536, int32(i-5) * 65536}}})
}

// Nested subroutines: a chain of d calls alternating between local and global subroutines (m bit i: level i is global), each drawing a line before and after its call; the innermost ends with return (e=0) or endchar (e=1).
//
//vf:quick d=1..3 m=0..7 e=0..1
//vf:quick d=10 m=0,1023,341 e=0..1
//vf:thorough d=1..6 m=0..63 e=0..1
//vf:thorough d=7..10 m=0..1023/31 e=0..1
//vf:opt reach=drawn
func vhNested() {
	d, m := vfParam("d"), vfParam("m")
	c := &vfCFF{}
	var ops []vfT2
	line := func(code []byte) ([]byte, vfT2) {
		x, y := vfI16("x"), vfI16("y")
		code = append(code, vfNum28(int(x))...)
		code = append(code, vfNum28(int(y))...)
		return append(code, 5), vfT2{5, []int32{int32(x) * 65536, int32(y) * 65536}}
	}
	bodies := make([][]byte, d+1)
	var after []vfT2
	ops = append(ops, vfT2{21, []int32{0, 0}})
	bodies[0] = vfCat(vfNum(0), vfNum(0), []byte{21})
	// assign subroutine numbers: level i (1..d) goes to its INDEX in reverse order
	idx := make([]int, d+1)
	nl, ng := 0, 0
	for i := d; i >= 1; i-- {
		if m>>uint(i-1)&1 == 1 {
			idx[i] = ng
			ng++
		} else {
			idx[i] = nl
			nl++
		}
	}
	for i := 0; i <= d; i++ {
		var o vfT2
		bodies[i], o = line(bodies[i])
		ops = append(ops, o)
		if i < d {
			bodies[i] = append(bodies[i], vfNum(idx[i+1]-107)...)
			if m>>uint(i)&1 == 1 {
				bodies[i] = append(bodies[i], 29)
			} else {
				bodies[i] = append(bodies[i], 10)
			}
			bodies[i], o = line(bodies[i])
			after = append(after, o)
		}
	}
	for i := d; i >= 1; i-- {
		if vfParam("e") == 1 && i == d {
			bodies[i] = append(bodies[i], 14)
		} else {
			bodies[i] = append(bodies[i], 11)
		}
		if m>>uint(i-1)&1 == 1 {
			c.gsubrs = append(c.gsubrs, bodies[i])
		} else {
			c.lsubrs = append(c.lsubrs, bodies[i])
		}
	}
	bodies[0] = append(bodies[0], 14)
	if vfParam("e") == 0 {
		for i := d - 1; i >= 0; i-- {
			ops = append(ops, after[i])
		}
	}
	c.chars = [][]byte{vfCFFTri(0), bodies[0], vfCFFTri(20)}
	vfDrawOps(c, 1, ops)
}

// CID-keyed fonts: each glyph uses the local subroutines of the font that FDSelect (format s) assigns to it. f fonts, the first without local subroutines when z=1 (and then no glyph of it calls any).
//
//vf:quick f=2,3 s=0,3 z=0..1
//vf:opt reach=drawn
func vhFDSelect() {
	f, z := vfParam("f"), vfParam("z")
	c := &vfCFF{}
	for i := 0; i < f; i++ {
		fd := vfFD{}
		if i > 0 || z == 0 {
			for j := 0; j < 2; j++ {
				fd.lsubrs = append(fd.lsubrs, append(vfNum28(100*i+10*j), 11))
			}
		}
		c.fds = append(c.fds, fd)
	}
	const ng = 5
	var fd [ng]int
	for g := range fd {
		fd[g] = vfConc(vfInt("fd", z, f-1))
	}
	if vfParam("s") == 0 {
		c.fdsel = []byte{0}
		for _, x := range fd {
			c.fdsel = append(c.fdsel, byte(x))
		}
	} else {
		var r []byte
		n := 0
		for g, x := range fd {
			if g == 0 || x != fd[g-1] {
				r = vf16(r, uint16(g))
				r = append(r, byte(x))
				n++
			}
		}
		c.fdsel = vfCat([]byte{3}, vf16s(uint16(n)), r, vf16s(ng))
	}
	for g := 0; g < ng; g++ {
		c.chars = append(c.chars, vfCat(vfNum(0), vfNum(0), []byte{21}, vfNum(g), vfNum(g%2-107), []byte{10, 5, 14}))
	}
	c.charset = vfCharset0(1, 2, 3, 4)
	g := vfConc(vfInt("g", 0, ng-1))
	vfDrawOps(c, uint16(g), []vfT2{{21, []int32{0, 0}}, {5, []int32{int32(g) * 65536, int32(100*fd[g]+10*(g%2)) * 65536}}})
}

// GlyphBounds of a CFF glyph is the smallest integer box around the points of its outline. Coordinates are multiples of 1/4 below 4096; c=1 uses a curve. a=0 leaves all coordinates arbitrary, a=1 the horizontal and a=2 the vertical ones only.
//
//vf:quick c=0 a=0
//vf:quick c=1 a=1..2
//vf:thorough c=0..1 a=0
func vhBounds() {
	var v [6]int32
	var code []byte
	for i := range v {
		if a := vfParam("a"); a != 0 && a-1 != i%2 {
			v[i] = []int32{-5, 30, 7, -44, 50, 3}[i]
			continue
		}
		x := vfI16("v")
		vfAssume(x > -0x4000 && x < 0x4000)
		v[i] = int32(x)
	}
	num := func(i int) { code = append(code, vfNum255(v[i]*16384)...) }
	num(0)
	num(1)
	code = append(code, 21)
	if vfParam("c") == 0 {
		num(2)
		num(3)
		code = append(code, 5, 14)
	} else {
		for i := 0; i < 6; i++ {
			num(i)
		}
		code = append(code, 8, 14)
	}
	s := vfParse(vfCFFFont(vfOne(code)).bytes())
	x0, y0, x1, y1 := s.GlyphBounds(1)
	vfObs("b", int64(x0), int64(y0), int64(x1), int64(y1))
	lx, ly, hx, hy := v[0], v[1], v[0], v[1]
	px, py := v[0], v[1]
	pt := func(dx, dy int32) {
		px, py = px+dx, py+dy
		lx, ly, hx, hy = vfMin(lx, px), vfMin(ly, py), vfMax(hx, px), vfMax(hy, py)
	}
	if vfParam("c") == 0 {
		pt(v[2], v[3])
	} else {
		for i := 0; i < 6; i += 2 {
			pt(v[i], v[i+1])
		}
	}
	vfAssert(int32(x0) == lx>>2, "left bound")
	vfAssert(int32(y0) == ly>>2, "lower bound")
	vfAssert(int32(x1) == (hx+3)>>2, "right bound")
	vfAssert(int32(y1) == (hy+3)>>2, "upper bound")
}

func vfMin(a, b int32) int32 {
	if a < b {
		return a
	}
	return b
}
func vfMax(a, b int32) int32 {
	if a > b {
		return a
	}
	return b
}

// As many stem hints as a glyph may have (n), given by operators of at most 24 stems; a mask of n bits follows.
//
//vf:quick n=72,88,89,95,96 i=0,1
//vf:thorough n=49..96 i=0,1
//vf:opt reach=drawn
func vhManyHints() {
	n := vfParam("n")
	var code []byte
	for i := 0; i < n; i++ {
		code = append(code, vfNum28(int(vfI16("stem")))...)
		code = append(code, vfNum28(int(vfI16("stem")))...)
		if i%24 == 23 && i+1 < n {
			code = append(code, []byte{18, 18, 23}[i/24])
		}
	}
	if vfParam("i") == 1 {
		code = append(code, 23)
	}
	code = append(code, 19) // otherwise the last stems are implicitly vertical
	code = append(code, vfBytes("mask", (n+7)/8)...)
	x, y, dx, dy := vfI16("x"), vfI16("y"), vfI16("dx"), vfI16("dy")
	code = append(code, vfCat(vfNum28(int(x)), vfNum28(int(y)), []byte{21}, vfNum28(int(dx)), vfNum28(int(dy)), []byte{5, 14})...)
	vfDrawOps(vfOne(code), 1, []vfT2{{21, []int32{int32(x) * 65536, int32(y) * 65536}}, {5, []int32{int32(dx) * 65536, int32(dy) * 65536}}})
}
