package font

import (
	"github.com/golang/freetype/truetype"
	gosfnt "golang.org/x/image/font/sfnt"
)

//vf:use kit.go sfntref.go kernref.go

// vfPack lays the tables out in reverse order of the directory, without padding in between when packed is set.
func vfPack(b []byte, packed bool) []byte {
	n := int(vfGet16(b, 4))
	o := append([]byte{}, b[:12+16*n]...)
	for i := n - 1; i >= 0; i-- {
		p := 12 + 16*i
		off, l := int(vfGet32(b, p+8)), int(vfGet32(b, p+12))
		q := vf32(nil, uint32(len(o)))
		copy(o[p+8:], q)
		o = append(o, b[off:off+l]...)
		for !packed && len(o)&3 != 0 {
			o = append(o, 0xA5)
		}
	}
	return append(o, 0xA5, 0xA5, 0xA5, 0xA5)
}

// FromGoFreetype: fonts with arbitrary contents of the cvt, fpgm and prep tables of lengths up to l each, of the glyph (its length is arbitrary too), the metrics, a kern table (k=1) and vertical metrics (v=1); the tables are stored without padding with packed=1, in the reverse order of the directory. The result has the same tables, both the library and freetype accept it, and the freetype font and its bytes are unchanged.
//
//vf:quick l=1 packed=0..1 k=0 v=0
//vf:quick l=3 packed=1 k=0 v=0
//vf:quick l=0 packed=0..1 k=1 v=0..1
//vf:quick l=1 packed=0..1 k=1 v=0
//vf:thorough l=1..5 packed=0..1 k=0..1 v=0..1
//vf:opt reach=same
func vhFreetype() {
	instr := append([]byte{}, vfBytes("instr", vfConc(vfInt("ninstr", 0, 1)))...)
	g := vfSimple([]uint16{1}, []byte{1, 1}, []int16{vfI16("x"), 0}, []int16{0, vfI16("y")}, instr, [4]int16{0, 0, 1, 2})
	if len(g)%2 == 1 {
		g = append(g, 0)
	}
	f := &vfFont{glyphs: [][]byte{vfTriPts(0), g}, cmap: vfCmap(3, 10, vfCmap12([3]uint32{65, 65, 1})), adv: []uint16{vfU16("adv"), vfU16("adv")}, lsb: []int16{vfI16("lsb"), 5}}
	f.head = vfHead(false)
	copy(f.head[4:], vfBytes("head", 8))
	copy(f.head[36:], vfBytes("bbox", 8))
	f.os2 = vfOS2(4)
	for _, tag := range []string{"cvt ", "fpgm", "prep", "hdmx"}[:3+vfParam("k")+vfParam("v")&^vfParam("k")] {
		if n := vfConc(vfInt("len", 0, vfParam("l"))); n > 0 {
			f.extra = append(f.extra, vfTab{tag, append([]byte{}, vfBytes("data", n)...)})
		}
	}
	if vfParam("k") == 1 {
		f.kern = vfKernTab([]vfKernSub{{cov: 1, keys: []uint32{1<<16 | 1}, vals: []int16{vfI16("kern")}}})
	}
	if vfParam("v") == 1 {
		f.vhea = vf32(nil, 0x00011000)
		f.vhea = append(f.vhea, vf16s(500, 0xFE0C, 0, 1000, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2)...)
		f.vmtx = vf16s(vfU16("vadv"), 3, 900, 4)
	}
	b := vfPack(f.bytes(), vfParam("packed") == 1)
	key := string(b)
	s := vfParse([]byte(key))
	ft, err := truetype.Parse(b)
	vfAssume(err == nil)
	w := FromGoFreetype(ft)
	vfAssert(string(b) == key, "the bytes of the font changed")
	vfObs("len", int64(len(w)))
	vfCheckFile(w, true)
	in, out := vfDir([]byte(key)), vfDir(w)
	for tag, d := range in {
		switch tag {
		case "head":
			vfAssert(len(out[tag]) == 54 && string(out[tag][:8]) == string(d[:8]) && string(out[tag][12:]) == string(d[12:]), "head table")
		case "post", "vhea", "vmtx": // not kept by freetype (vmtx needs vhea)
		default:
			vfAssert(string(out[tag]) == string(d), "table contents")
		}
	}
	for tag := range out {
		_, ok := in[tag]
		vfAssert(ok, "additional table")
	}
	t := vfParse(w)
	vfAssert(t.GlyphIndex(65) == 1 && t.NumGlyphs() == 2, "mapping")
	for i := uint16(0); i < 2; i++ {
		vfAssert(t.GlyphAdvance(i) == s.GlyphAdvance(i), "advance")
		vfAssert(t.Kerning(1, i) == s.Kerning(1, i), "kerning")
	}
	_, err = truetype.Parse(w)
	vfAssert(err == nil, "freetype rejects the font")
	vfAssert(string(FromGoFreetype(ft)) == string(w), "second conversion differs")
	vfReach("same")
}

// FromGoSFNT: the bytes that were given to the sfnt package, for fonts with n arbitrary bytes in an additional table.
//
//vf:quick n=0..5
//vf:thorough n=0..9
//vf:opt reach=same
func vhGoSFNT() {
	f := &vfFont{glyphs: vfTris(2), cmap: vfCmap(3, 10, vfCmap12([3]uint32{65, 65, 1})), os2: vfOS2(4)}
	f.extra = []vfTab{{"zzzz", append([]byte{}, vfBytes("data", vfParam("n"))...)}}
	b := vfReorder(f, false)
	key := string(b)
	font, err := gosfnt.Parse(b)
	vfAssert(err == nil, "the sfnt package rejects the font")
	w := FromGoSFNT(font)
	vfAssert(string(w) == key && string(b) == key, "bytes of the font")
	vfParse(w)
	vfReach("same")
}
