package font

//vf:use kit.go cffkit.go cffsub.go subset.go

// vfCheckCFFSubset subsets to the list and compares every retained glyph in the subset and in its reparsed file with the source.
func vfCheckCFFSubset(c *vfCFF, list []uint16, how int, may bool) {
	s := vfParse(vfCFFFont(c).bytes())
	sub, err := s.Subset(append([]uint16{}, list...), SubsetOptions{Tables: vfTables(how)})
	if err != nil {
		vfAssert(may, "subsetting failed")
		vfReach("refused")
		return
	}
	re := vfReparse(sub, how)
	k := 0
	for i, g := range list {
		if g == 0 {
			continue // .notdef becomes empty
		}
		vfSameGlyph(s, g, sub, uint16(i), "subset")
		vfSameGlyph(s, g, re, uint16(i), "reparsed")
		k++
	}
	vfAssert(re.NumGlyphs() == uint16(len(list)), "number of glyphs")
	// the source still draws what it did
	t := vfParse(vfCFFFont(c).bytes())
	for g := range c.chars {
		vfSameGlyph(t, uint16(g), s, uint16(g), "source")
	}
}

// vfList is an arbitrary list of k distinct glyphs below n that starts with .notdef.
func vfList(k, n int) []uint16 {
	list := []uint16{0}
	for len(list) < k {
		g := uint16(vfConc(vfInt("g", 1, n-1)))
		for _, h := range list {
			vfAssume(h != g)
		}
		list = append(list, g)
	}
	return list
}

// Three glyphs that each make c calls of arbitrary subroutines among l local and g global ones, every subroutine drawing an arbitrary line; all lists of k glyphs.
//
//vf:quick l=2 g=2 c=1 k=2..3 how=0
//vf:quick l=3 g=0 c=2 k=2 how=2
//vf:quick l=0 g=3 c=2 k=2 how=1
//vf:quick l=1 g=1 c=0 k=2..4 how=0
//vf:thorough l=0..3 g=0..3 c=0..2 k=1..4 how=0..2
//vf:opt reach=same
func vhPrune() {
	l, g := vfParam("l"), vfParam("g")
	c := &vfCFF{chars: [][]byte{vfCFFTri(0)}}
	if l+g == 0 && vfParam("c") > 0 || vfParam("k") == 1 {
		vfReach("same")
		return
	}
	for i := 0; i < l; i++ {
		c.lsubrs = append(c.lsubrs, vfDrawSubr())
	}
	for i := 0; i < g; i++ {
		c.gsubrs = append(c.gsubrs, vfDrawSubr())
	}
	list := vfList(vfParam("k"), 4)
	for i := 1; i < 4; i++ {
		code := vfCat(vfNum(i), vfNum28(int(vfI16("y"))), []byte{21})
		used := false
		for _, h := range list {
			used = used || int(h) == i
		}
		for j := 0; j < vfParam("c"); j++ {
			k := 0
			if used {
				k = vfConc(vfInt("call", 0, l+g-1))
			}
			if k < l {
				code = append(code, vfCall(false, k, l)...)
			} else {
				code = append(code, vfCall(true, k-l, g)...)
			}
		}
		c.chars = append(c.chars, append(code, 14))
	}
	vfCheckCFFSubset(c, list, vfParam("how"), false)
}

// Nested calls: glyph 1 calls L0, which calls G1, which calls L2, which draws; glyph 2 calls L2 and G0; glyph 3 calls G1 directly, then L3, which ends the glyph. Unused subroutines lie between.
//
//vf:quick k=2..4 how=0
//vf:thorough k=2..4 how=0..2
//vf:opt reach=same
func vhNesting() {
	d := vfDrawSubr
	c := &vfCFF{}
	c.lsubrs = [][]byte{
		vfCat(d()[:7], vfCall(true, 1, 3), []byte{11}),
		d(),
		vfCat(d()[:7], vfNum28(int(vfI16("h"))), []byte{6, 11}),
		vfCat(d()[:7], []byte{14}),
		d(),
	}
	c.gsubrs = [][]byte{
		vfCat(vfNum(7), []byte{7, 11}),
		vfCat(vfCall(false, 2, 5), d()[:7], []byte{11}),
		d(),
	}
	mv := vfCat(vfNum(1), vfNum(2), []byte{21})
	c.chars = [][]byte{
		vfCFFTri(0),
		vfCat(mv, vfCall(false, 0, 5), d()[:7], []byte{14}),
		vfCat(mv, vfCall(false, 2, 5), vfCall(true, 0, 3), []byte{14}),
		vfCat(mv, vfCall(true, 1, 3), vfCall(false, 3, 5)),
	}
	vfCheckCFFSubset(c, vfList(vfParam("k"), 4), vfParam("how"), false)
}

// Bias changes: of n local (q=0) or global (q=1) subroutines, glyph 1 calls number 0, number n-1 and an arbitrary number among the first and last three, so that the subset has few; glyph 2 calls every u-th and the last one twice. The operand is encoded minimally (e=0), in three bytes (e=1) or as a 16.16 number (e=2).
//
//vf:quick n=109,216,1239,1240,1300 q=0..1 e=0 u=0
//vf:quick n=216,300 q=0 e=0..2 u=1
//vf:quick n=1300 q=1 e=1 u=0
//vf:thorough n=107..109,214..217,1238..1242,2263,2264 q=0..1 e=0..2 u=0,3
//vf:thorough n=108,216,300,1240,1241,1400 q=0..1 e=0..2 u=1
//vf:opt reach=same steps=1e9
func vhBiasChange() {
	n, e := vfParam("n"), vfParam("e")
	global := vfParam("q") == 1
	var subrs [][]byte
	for i := 0; i < n; i++ {
		subrs = append(subrs, vfCat(vfNum(i%100), vfNum(i/100), []byte{5, 11}))
	}
	call := func(i int) []byte {
		b := vfCall(global, i, n)
		op := b[len(b)-1]
		num := i - 107
		if n >= 1240 {
			num = i - 1131
		}
		switch e {
		case 1:
			return append(vfNum28(num), op)
		case 2:
			return append(vfNum255(int32(num)*65536), op)
		}
		return b
	}
	c := &vfCFF{}
	if global {
		c.gsubrs = subrs
	} else {
		c.lsubrs = subrs
	}
	k := vfInt("k", 0, 2)
	if vfBool("end") {
		k = n - 1 - k
	}
	k = vfConc(k)
	mv := vfCat(vfNum28(int(vfI16("x"))), vfNum28(int(vfI16("y"))), []byte{21})
	c.chars = [][]byte{vfCFFTri(0), vfCat(mv, call(0), vfNum28(int(vfI16("h"))), []byte{6}, call(k), call(n-1), vfNum28(int(vfI16("h"))), []byte{7, 14})}
	code := vfCat(vfNum(3), vfNum(4), []byte{21})
	if u := vfParam("u"); u > 0 {
		for i := 0; i < n; i += u {
			code = append(code, call(i)...)
		}
	}
	code = append(code, call(n-1)...)
	c.chars = append(c.chars, append(code, 14), vfCFFTri(30))
	list := []uint16{0, 1}
	if vfParam("u") > 0 {
		list = []uint16{0, 3, 2, 1}
	}
	vfCheckCFFSubset(c, list, 0, false)
}

// Mask bytes and hints: the glyph calls a subroutine with stem hints, then has a mask of h+v stems whose bytes are arbitrary (and may look like calls), and calls another subroutine.
//
//vf:quick h=1,8 v=1,9 m=19,20
//vf:thorough h=1..9 v=1..9 m=19,20
//vf:opt reach=same
func vhMasks() {
	h, v := vfParam("h"), vfParam("v")
	stem := func(n int, op byte) []byte {
		var b []byte
		for i := 0; i < 2*n; i++ {
			b = append(b, vfNum(5+i)...)
		}
		return append(b, op)
	}
	mask := func() []byte { return append([]byte{byte(vfParam("m"))}, vfBytes("mask", (h+v+7)/8)...) }
	c := &vfCFF{}
	c.lsubrs = [][]byte{vfDrawSubr(), append(stem(h, 18), 11), vfDrawSubr(), vfDrawSubr()}
	c.gsubrs = [][]byte{vfDrawSubr(), vfDrawSubr(), vfDrawSubr()}
	s := stem(v, 23)
	code := vfCat(vfCall(false, 1, 4), s[:len(s)-1], mask(), vfNum(1), vfNum(2), []byte{21}, vfCall(true, 2, 3), mask(), vfCall(false, 3, 4), []byte{14})
	c.chars = [][]byte{vfCFFTri(0), vfCFFTri(10), code}
	vfCheckCFFSubset(c, []uint16{0, 2}, 0, false)
}

// Unusual ways to pass a subroutine number: m=0 both numbers are pushed before two calls, m=1 the number is pushed by another subroutine, m=2 a call without an own operator between (the callee pushes an operand of the line), m=3 the number follows operands of the line. The subset draws the same or is refused.
//
//vf:quick m=0..3 how=0
//vf:opt
func vhIndirect() {
	d := vfDrawSubr
	c := &vfCFF{}
	c.lsubrs = [][]byte{d(), d(), append(vfNum(3-107), 11), d(), append(vfNum28(int(vfI16("n"))), 11)}
	mv := vfCat(vfNum(1), vfNum(2), []byte{21})
	var code []byte
	may := false
	switch vfParam("m") {
	case 0:
		code, may = vfCat(mv, vfNum(1-107), vfNum(3-107), []byte{10, 10, 14}), true
	case 1:
		code, may = vfCat(mv, vfNum(2-107), []byte{10, 10, 14}), true
	case 2:
		code = vfCat(mv, vfNum(9), vfNum(4-107), []byte{10, 5, 14})
	default:
		code = vfCat(mv, vfNum(9), vfNum(8), vfNum(7), vfNum(4-107), []byte{10, 5, 14})
	}
	c.chars = [][]byte{vfCFFTri(0), code, vfCFFTri(10)}
	vfCheckCFFSubset(c, []uint16{0, 1}, 0, may)
}

// CID-keyed font with a single font (FDSelect format s): glyphs call its local subroutines; the subset list may repeat a glyph (d=1), so that it is longer than the source.
//
//vf:quick s=0,3 d=0..1
//vf:opt reach=same
func vhSingleCID() {
	c := &vfCFF{fds: []vfFD{{lsubrs: [][]byte{vfDrawSubr(), vfDrawSubr(), vfDrawSubr()}}}, gsubrs: [][]byte{vfDrawSubr(), vfDrawSubr()}}
	mv := vfCat(vfNum(1), vfNum(2), []byte{21})
	c.chars = [][]byte{vfCFFTri(0), vfCat(mv, vfCall(false, 2, 3), []byte{14}), vfCat(mv, vfCall(true, 1, 2), vfCall(false, 0, 3), []byte{14})}
	c.charset = vfCharset0(1, 2)
	if vfParam("s") == 0 {
		c.fdsel = []byte{0, 0, 0, 0}
	} else {
		c.fdsel = vfCat([]byte{3}, vf16s(1, 0), []byte{0}, vf16s(3))
	}
	list := []uint16{0, 2}
	if vfParam("d") == 1 {
		list = []uint16{0, 2, 1, 2, 2, 1}
	}
	vfCheckCFFSubset(c, list, 0, false)
}

// Charstrings and subroutines that begin with a call whose number takes another number of bytes in the subset, of local
// and global subroutines with equal indices that call each other: glyph 1 begins with local a, which begins with global
// a, which begins with local b, which draws; glyph 2 begins with global b, which begins with local b; glyph 3 begins with
// local a as well.
//
//vf:quick n=240,1300 k=2..4
//vf:thorough n=215,216,240,1239,1240,1300 k=2..4
//vf:opt reach=same steps=1e9
func vhBegins() {
	n := vfParam("n")
	a, b := 1, n-2
	if vfBool("order") {
		a, b = b, a
	}
	c := &vfCFF{}
	for i := 0; i < n; i++ {
		c.lsubrs = append(c.lsubrs, vfCat(vfNum(i%100), vfNum(i/100), []byte{5, 11}))
		c.gsubrs = append(c.gsubrs, vfCat(vfNum(i/100), vfNum(i%100), []byte{5, 11}))
	}
	d := func() []byte { return vfDrawSubr()[:7] }
	c.lsubrs[b] = vfCat(vfNum(1), vfNum(2), []byte{21}, vfDrawSubr())
	c.gsubrs[a] = vfCat(vfCall(false, b, n), d(), []byte{11})
	c.lsubrs[a] = vfCat(vfCall(true, a, n), vfCall(true, 0, n), []byte{11})
	c.gsubrs[b] = vfCat(vfCall(false, b, n), vfCall(false, n/2, n), []byte{11})
	c.chars = [][]byte{
		vfCFFTri(0),
		vfCat(vfCall(false, a, n), d(), []byte{14}),
		vfCat(vfCall(true, b, n), vfCall(false, 0, n), []byte{14}),
		vfCat(vfCall(false, a, n), []byte{14}),
	}
	vfCheckCFFSubset(c, vfList(vfParam("k"), 4), 0, false)
}

// Many subroutines, around the last limit of the bias: the source has n, of which the subset uses u (of the others
// one).
//
//vf:quick n=33899,33900 u=3 q=0..1
//vf:quick n=33902 u=33900 q=0..1
//vf:thorough n=33902 u=33899..33901 q=0..1
//vf:opt reach=same steps=4e9
func vhManySubrs() {
	n, u, global := vfParam("n"), vfParam("u"), vfParam("q") == 1
	var subrs [][]byte
	for i := 0; i < n; i++ {
		subrs = append(subrs, []byte{11})
	}
	subrs[n-1], subrs[0], subrs[n/2] = vfDrawSubr(), vfDrawSubr(), vfDrawSubr()
	c := &vfCFF{gsubrs: subrs}
	if !global {
		c = &vfCFF{lsubrs: subrs}
	}
	mv := vfCat(vfNum(1), vfNum(2), []byte{21})
	c.chars = [][]byte{vfCFFTri(0), vfCat(mv, vfCall(global, n-1, n), vfCall(global, 0, n), []byte{14}), vfCat(mv, vfCall(global, n/2, n), []byte{14})}
	list := []uint16{0, 2, 1}
	for i, k := 0, 3; k < u; {
		code := append([]byte{}, mv...)
		for ; k < u && len(code) < 60000; i++ {
			if i != 0 && i != n-1 && i != n/2 {
				code = append(code, vfCall(global, i, n)...)
				k++
			}
		}
		list = append(list, uint16(len(c.chars)))
		c.chars = append(c.chars, append(code, 14))
	}
	vfCheckCFFSubset(c, list, 0, false)
}
