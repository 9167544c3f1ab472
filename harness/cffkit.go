package font

// Template CFF tables, assembled by hand so that any byte can be symbolic.

// vfIndex encodes an INDEX; offSize 0 picks the smallest.
func vfIndex(els [][]byte, offSize int) []byte {
	b := vf16(nil, uint16(len(els)))
	if len(els) == 0 {
		return b
	}
	n := 1
	for _, e := range els {
		n += len(e)
	}
	if offSize == 0 {
		offSize = 1
		for x := n >> 8; x > 0; x >>= 8 {
			offSize++
		}
	}
	b = append(b, byte(offSize))
	off := 1
	for i := 0; i <= len(els); i++ {
		for k := offSize - 1; k >= 0; k-- {
			b = append(b, byte(off>>(8*uint(k))))
		}
		if i < len(els) {
			off += len(els[i])
		}
	}
	for _, e := range els {
		b = append(b, e...)
	}
	return b
}

// vfOp5 is an integer operand in its longest DICT form.
func vfOp5(v int) []byte { return vf32([]byte{29}, uint32(int32(v))) }

// vfNum is an integer operand in its shortest form.
func vfNum(v int) []byte {
	switch {
	case -107 <= v && v <= 107:
		return []byte{byte(v + 139)}
	case 108 <= v && v <= 1131:
		return []byte{byte((v-108)/256 + 247), byte((v - 108) % 256)}
	case -1131 <= v && v <= -108:
		return []byte{byte((-v-108)/256 + 251), byte((-v - 108) % 256)}
	}
	return vfNum28(v)
}

// vfNum28 is an integer charstring operand in three bytes.
func vfNum28(v int) []byte { return []byte{28, byte(v >> 8), byte(v)} }

// vfNum255 is a 16.16 charstring operand.
func vfNum255(v int32) []byte { return vf32([]byte{255}, uint32(v)) }

type vfFD struct {
	priv   []byte
	lsubrs [][]byte
}

type vfCFF struct {
	name    string
	top     []byte // further Top DICT entries
	strs    [][]byte
	gsubrs  [][]byte
	chars   [][]byte
	charset []byte // nil: predefined ISOAdobe
	priv    []byte // Private DICT entries except Subrs
	lsubrs  [][]byte
	fds     []vfFD // CID-keyed font
	fdsel   []byte
	offSize int
	topEnd  []byte // entries at the end of the Top DICT
	raw     []byte // bytes after the table
}

func vfPrivate(priv []byte, lsubrs [][]byte, offSize int) ([]byte, []byte) {
	priv = append([]byte{}, priv...)
	if lsubrs == nil {
		return priv, nil
	}
	priv = append(priv, vfOp5(len(priv)+6)...)
	return append(priv, 19), vfIndex(lsubrs, offSize)
}

func (c *vfCFF) bytes() []byte {
	name := c.name
	if name == "" {
		name = "F"
	}
	h := []byte{1, 0, 4, 4}
	h = append(h, vfIndex([][]byte{[]byte(name)}, 1)...)
	strs := vfIndex(c.strs, c.offSize)
	gsubrs := vfIndex(c.gsubrs, c.offSize)
	chars := vfIndex(c.chars, c.offSize)

	// the Top DICT has a fixed length: every offset takes five bytes
	topLen := len(c.top) + len(c.topEnd) + 6
	if c.charset != nil {
		topLen += 6
	}
	if c.fds != nil {
		topLen += 7 + 7 + 7 // FDArray, FDSelect, ROS
	} else {
		topLen += 11
	}
	topIndexLen := 2 + 1 + 2*2 + topLen
	charset := len(h) + topIndexLen + len(strs) + len(gsubrs)
	charstr := charset + len(c.charset)
	rest := charstr + len(chars)

	var top, tail []byte
	if c.fds != nil {
		top = append(top, vfCat(vfNum(0), vfNum28(0), vfNum(0), []byte{12, 30})...) // ROS first
		var fontd [][]byte
		off := rest
		for _, fd := range c.fds {
			p, l := vfPrivate(fd.priv, fd.lsubrs, c.offSize)
			fontd = append(fontd, vfCat(vfOp5(len(p)), vfOp5(off), []byte{18}))
			tail = append(tail, p...)
			tail = append(tail, l...)
			off += len(p) + len(l)
		}
		arr := vfIndex(fontd, c.offSize)
		tail = append(tail, arr...)
		tail = append(tail, c.fdsel...)
		top = append(top, c.top...)
		top = append(top, vfCat(vfOp5(off), []byte{12, 36}, vfOp5(off+len(arr)), []byte{12, 37})...)
	} else {
		p, l := vfPrivate(c.priv, c.lsubrs, c.offSize)
		tail = vfCat(p, l)
		top = append(top, c.top...)
		top = append(top, vfCat(vfOp5(len(p)), vfOp5(rest), []byte{18})...)
	}
	if c.charset != nil {
		top = append(top, vfCat(vfOp5(charset), []byte{15})...)
	}
	top = append(top, vfCat(vfOp5(charstr), []byte{17})...)
	top = append(top, c.topEnd...)
	return vfCat(h, vfIndex([][]byte{top}, 2), strs, gsubrs, c.charset, chars, tail, c.raw)
}

// rawAt makes the operators of the Top DICT (each taking one offset) point to c.raw.
func (c *vfCFF) rawAt(ops ...[]byte) {
	for _, o := range ops {
		c.topEnd = append(append(c.topEnd, vfOp5(0)...), o...)
	}
	end := len(c.bytes()) - len(c.raw)
	c.topEnd = nil
	for _, o := range ops {
		c.topEnd = append(append(c.topEnd, vfOp5(end)...), o...)
	}
}

// vfCharset0 lists the string identifiers of the glyphs after .notdef.
func vfCharset0(sids ...uint16) []byte { return append([]byte{0}, vf16s(sids...)...) }

// vfCFFFont wraps a CFF table into an OpenType font.
func vfCFFFont(c *vfCFF) *vfFont {
	return &vfFont{cff: true, ng: len(c.chars), cffT: c.bytes()}
}

// vfCFFTri is a charstring drawing a triangle displaced by k.
func vfCFFTri(k int) []byte {
	return vfCat(vfNum(k), vfNum(0), []byte{21}, vfNum(100), vfNum(0), vfNum(-50), vfNum(100), []byte{5, 14})
}

func vfCFFTris(n int) [][]byte {
	var g [][]byte
	for i := 0; i < n; i++ {
		g = append(g, vfCFFTri(10*i))
	}
	return g
}
