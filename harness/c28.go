package font

//vf:use kit.go

import (
	"sort"
	"strconv"
)

func vfAFM(header string, metrics []byte, kern string) []byte {
	b := []byte("StartFontMetrics 4.1\nComment x\n" + header)
	b = append(b, metrics...)
	b = append(b, kern...)
	return append(b, "EndFontMetrics\n"...)
}

// vfAFMNum writes a number with arbitrary digits and returns the nearest integer, halves away from zero.
func vfAFMNum(b []byte, name string, neg bool, digits, dec int) ([]byte, int) {
	v := 0
	if neg {
		b = append(b, '-')
	}
	for i := 0; i < digits+dec; i++ {
		if i == digits {
			b = append(b, '.')
		}
		d := vfInt(name, 0, 9)
		b = append(b, byte('0'+d))
		if i < digits {
			v = v*10 + d
		} else if i == digits && 5 <= d {
			v++
		}
	}
	if neg {
		v = -v
	}
	return b, v
}

// vhAdvance: advance widths in any sign of any number of digits with an optional fraction.
//
//vf:quick digits=1..5 dec=0 neg=0
//vf:quick digits=1,3 dec=0 neg=1
//vf:quick digits=1..3 dec=1 neg=0..1
//vf:quick digits=1,2 dec=2 neg=0
//vf:thorough digits=1..5 dec=0 neg=0..1
//vf:thorough digits=1..3 dec=1 neg=0..1
//vf:thorough digits=1,2 dec=2 neg=0..1
//vf:opt reach=ok
func vhAdvance() {
	digits, dec := vfParam("digits"), vfParam("dec")
	m := []byte("StartCharMetrics 2\nC 65 ; WX ")
	m, v := vfAFMNum(m, "w", vfParam("neg") == 1, digits, dec)
	vfAssume(-32768 <= v && v <= 65535)
	m = append(m, " ; N A ; B 0 0 1 1 ;\nC -1 ; WX 500 ; N Aring ; B 0 0 1 1 ;\nEndCharMetrics\n"...)
	afm, err := ParseAFM(vfAFM("", m, ""))
	vfAssert(err == nil, "well-formed file rejected")
	vfObs("adv", int64(afm.GlyphAdvance(0)))
	vfAssert(afm.GlyphAdvance(0) == uint16(v), "advance")
	vfAssert(afm.GlyphAdvance(1) == 500 && afm.GlyphAdvance(2) == 0, "other advances")
	vfReach("ok")
}

// vhBounds: bounding boxes with negative and fractional numbers.
//
//vf:quick digits=1..2 dec=0 neg=0..15
//vf:quick digits=3 dec=0 neg=0,5,15
//vf:quick digits=1,2 dec=1 neg=0,2,5,8,15
//vf:thorough digits=1..4 dec=0 neg=0..15
//vf:thorough digits=1..3 dec=1 neg=0..15
//vf:opt reach=ok
func vhBounds() {
	digits, dec, neg := vfParam("digits"), vfParam("dec"), vfParam("neg")
	m := []byte("StartCharMetrics 1\nC 65 ; WX 100 ; N A ; B")
	var v [4]int
	sym := vfConc(vfInt("sym", 0, 3))
	for i := range v {
		m = append(m, ' ')
		if dec != 0 && i != sym { // one arbitrary number at a time
			m, v[i] = append(m, "12.5"...), 13
			continue
		}
		m, v[i] = vfAFMNum(m, "b"+string(rune('0'+i)), neg>>i&1 == 1, digits, dec)
	}
	m = append(m, " ;\nEndCharMetrics\n"...)
	afm, err := ParseAFM(vfAFM("", m, ""))
	vfAssert(err == nil, "well-formed file rejected")
	x0, y0, x1, y1 := afm.GlyphBounds(0)
	for i, b := range []int16{x0, y0, x1, y1} {
		vfObs("b", int64(b))
		vfAssert(int(b) == v[i], "bounds")
	}
	x0, y0, x1, y1 = afm.GlyphBounds(1)
	vfAssert(x0 == 0 && y0 == 0 && x1 == 0 && y1 == 0, "bounds outside the font")
	vfReach("ok")
}

// vhKern: kerning values, in any pair order, for exactly the listed pairs.
//
//vf:quick digits=1..3 dec=0 neg=0,1 dir=0,1
//vf:quick digits=1,2 dec=1 neg=0,1 dir=0
//vf:thorough digits=1..4 dec=0 neg=0,1 dir=0,1
//vf:thorough digits=1..3 dec=1 neg=0,1 dir=0,1
//vf:opt reach=ok
func vhKern() {
	digits, dec := vfParam("digits"), vfParam("dec")
	m := []byte("StartCharMetrics 3\nC 65 ; WX 100 ; N A ; B 0 0 1 1 ;\nC 66 ; WX 200 ; N B ; B 0 0 1 1 ;\nC -1 ; WX 300 ; N Vdotbelow ; B 0 0 1 1 ;\nEndCharMetrics\n")
	kern := []byte("StartKernData\n")
	if vfParam("dir") == 0 {
		kern = append(kern, "StartKernPairs 2\n"...)
	} else {
		kern = append(kern, "StartTrackKern 1\nTrackKern 0 1 2 3 4\nEndTrackKern\nStartKernPairs0 2\n"...)
	}
	kern = append(kern, "KPX A Vdotbelow "...)
	kern, k1 := vfAFMNum(kern, "k1", vfParam("neg") == 1, digits, dec)
	kern = append(kern, "\nKPX Vdotbelow B "...)
	kern, k2 := vfAFMNum(kern, "k2", true, 1, 0)
	kern = append(kern, "\nEndKernPairs\nEndKernData\n"...)
	afm, err := ParseAFM(vfAFM("", m, string(kern)))
	vfAssert(err == nil, "well-formed file rejected")
	l, r := uint16(vfInt("left", 0, 3)), uint16(vfInt("right", 0, 3))
	got := afm.Kerning(l, r)
	want := 0
	if l == 0 && r == 2 {
		want = k1
	} else if l == 2 && r == 1 {
		want = k2
	}
	vfObs("kern", int64(got))
	vfAssert(int(got) == want, "kerning")
	vfReach("ok")
}

// vhHeader: header fields in any sign, with fractions, and names with spaces.
//
//vf:quick field=0..6 digits=1,3 dec=0,1 neg=0,1
//vf:thorough field=0..6 digits=1..4 dec=0,1 neg=0,1
//vf:opt reach=ok
func vhHeader() {
	field, digits, dec, neg := vfParam("field"), vfParam("digits"), vfParam("dec"), vfParam("neg") == 1
	keys := []string{"CapHeight", "XHeight", "Ascender", "Descender", "UnderlinePosition", "UnderlineThickness", "FontBBox 1 2 3"}
	h := []byte("FontName Foo-Bar\nFullName Foo Bar\nFamilyName Foo  Baz\nWeight Semi Bold \n" + keys[field] + " ")
	h, v := vfAFMNum(h, "v", neg, digits, dec)
	h = append(h, "\nItalicAngle -12.5\n"...)
	m := []byte("StartCharMetrics 1\nC 65 ; WX 100 ; N A ; B 0 0 1 1 ;\nEndCharMetrics\n")
	afm, err := ParseAFM(vfAFM(string(h), m, ""))
	vfAssert(err == nil, "well-formed file rejected")
	var want [7]int
	want[field] = v
	got := []uint16{afm.CapHeight, afm.XHeight, afm.Ascender, afm.Descender, afm.UnderlinePosition, afm.UnderlineThickness}
	for i, g := range got {
		vfObs("f", int64(g))
		vfAssert(int(int16(g)) == want[i], "header field")
	}
	if field == 6 {
		vfAssert(afm.FontBBox == [4]int16{1, 2, 3, int16(want[6])}, "font bounds")
	}
	vfAssert(afm.FontName == "Foo-Bar" && afm.FullName == "Foo Bar" && afm.FamilyName == "Foo  Baz" && afm.Weight == "Semi Bold", "names")
	vfAssert(afm.ItalicAngle == -12.5, "italic angle")
	vfReach("ok")
}

// vhNames: names, runes and glyph IDs agree, whatever the character codes (decimal or hexadecimal) and the order of
// the fields in the lines; ligatures refer to the named glyphs.
//
//vf:quick form=0..3
//vf:opt reach=ok
func vhNames() {
	glyphs := []struct {
		name string
		r    rune
	}{{"space", ' '}, {"f", 'f'}, {"fi", 0xFB01}, {"i", 'i'}, {"Abreveacute", 0x1EAE}, {"Omega", 0x2126}}
	var perm []int
	rot := vfConc(vfInt("rot", 0, len(glyphs)-1))
	for i := range glyphs {
		perm = append(perm, (i+rot)%len(glyphs))
	}
	if vfBool("swap") {
		perm[0], perm[1] = perm[1], perm[0]
	}
	form := vfParam("form")
	m := []byte("StartCharMetrics 6\r\n")
	code := 0
	for i, p := range perm {
		g := glyphs[p]
		adv := string([]byte{'1' + byte(p), '0', '0'})
		lig := ""
		if g.name == "f" {
			lig = "L i fi ; "
		}
		c := "C 4" + string(rune('0'+i)) + " ; "
		if i == 2 {
			d, e := vfInt("c1", 0, 15), vfInt("c2", 0, 15)
			h := "0123456789ABCDEF"
			code = 16*d + e
			c = "CH <" + string([]byte{h[d], h[e]}) + "> ; "
		}
		switch form {
		case 0:
			m = append(m, c+"WX "+adv+" ; N "+g.name+" ; B 0 0 1 1 ; "+lig...)
		case 1:
			m = append(m, c+"N "+g.name+" ; "+lig+"WX "+adv+" ; B 0 0 1 1 ;"...)
		case 2:
			m = append(m, c+"B 0 0 1 1 ; N  "+g.name+" ;\t"+lig+"WX  "+adv+" ;"...)
		case 3:
			m = append(m, c+"B 0 0 1 1 ; WX  "+adv+" ; "+lig+"N  "+g.name...)
		}
		m = append(m, "\r\n"...)
	}
	m = append(m, "EndCharMetrics\r\n"...)
	afm, err := ParseAFM(vfAFM("", m, ""))
	vfAssert(err == nil, "well-formed file rejected")
	vfAssert(afm.NumGlyphs() == 6, "number of glyphs")
	id := map[string]uint16{}
	for i, p := range perm {
		g := glyphs[p]
		id[g.name] = uint16(i)
		vfAssert(afm.GlyphName(uint16(i)) == g.name, "glyph name")
		vfAssert(afm.FindGlyphName(g.name) == uint16(i), "glyph of a name")
		vfAssert(afm.GlyphIndex(g.r) == uint16(i), "glyph of a rune")
		vfAssert(int(afm.GlyphAdvance(uint16(i))) == 100*(p+1), "advance")
	}
	vfAssert(afm.CharMetrics[2].CharacterCode == code, "hexadecimal character code")
	vfAssert(afm.CharMetrics[1].CharacterCode == 41 && afm.CharMetrics[3].CharacterCode == 43, "character code")
	vfAssert(len(afm.Ligatures) == 1 && afm.Ligatures[[2]uint16{id["f"], id["i"]}] == id["fi"], "ligature")
	vfAssert(afm.GlyphName(6) == "" && afm.FindGlyphName("q") == 0 && afm.GlyphIndex('q') == 0, "not in the font")
	r := rune(vfU32("rune"))
	in := false
	for _, g := range glyphs {
		in = in || g.r == r
	}
	vfAssert(in || afm.GlyphIndex(r) == 0, "glyph of an unmapped rune")
	vfReach("ok")
}

// vhManyGlyphs: files of n glyphs with n ligatures and kerning pairs; the advance and bounds of glyph q and the kerning of the pair (q,0)
// have arbitrary digits.
//
//vf:quick n=127..129,255..258,1000 q=126
//vf:quick n=300,2000 q=255,256,299
//vf:thorough n=4200 q=0,4095,4096,4199
//vf:opt reach=ok steps=4e8
func vhManyGlyphs() {
	n, q := vfParam("n"), vfParam("q")
	var names []string
	for name := range glyphList {
		names = append(names, name)
	}
	sort.Strings(names)
	num := func(v int) string { return strconv.Itoa(v) }
	m := []byte("StartCharMetrics " + num(n) + "\n")
	k := []byte("StartKernData\nStartKernPairs " + num(n) + "\n")
	byRune := map[rune]int{}
	adv, kern, box := 0, 0, 0
	for i := 0; i < n; i++ {
		byRune[glyphList[names[i]]] = i
		m = append(m, "C "+num(i-1)+" ; WX "...)
		if i == q {
			m, adv = vfAFMNum(m, "adv", false, 2, 1)
		} else {
			m = append(m, num(i)...)
		}
		m = append(m, " ; N "+names[i]+" ; B "+num(-i)+" 1 2 "...)
		if i == q {
			m, box = vfAFMNum(m, "box", true, 2, 0)
		} else {
			m = append(m, num(i+5)...)
		}
		m = append(m, " ; L "+names[n-1-i]+" "+names[(i+7)%n]+" ;\n"...)
		k = append(k, "KPX "+names[i]+" "+names[i*i%n]+" "...)
		if i == q {
			k, kern = vfAFMNum(k, "kern", true, 2, 0)
		} else {
			k = append(k, num(1-i)...)
		}
		k = append(k, '\n')
	}
	m = append(m, "EndCharMetrics\n"...)
	k = append(k, "EndKernPairs\nEndKernData\n"...)
	afm, err := ParseAFM(vfAFM("", m, string(k)))
	vfAssert(err == nil, "well-formed file rejected")
	vfAssert(int(afm.NumGlyphs()) == n, "number of glyphs")
	vfAssert(len(afm.Ligatures) == n && len(afm.KernPairs) == n, "number of ligatures or kerning pairs")
	for i := 0; i < n; i++ {
		g := uint16(i)
		vfAssert(afm.GlyphName(g) == names[i] && afm.FindGlyphName(names[i]) == g, "glyph name")
		r := glyphList[names[i]]
		vfAssert(int(afm.GlyphIndex(r)) == byRune[r], "glyph of a rune")
		w, x, d := i, i+5, 1-i
		if i == q {
			w, x, d = adv, box, kern
		}
		vfAssert(int(afm.GlyphAdvance(g)) == w, "advance")
		b0, b1, b2, b3 := afm.GlyphBounds(g)
		vfAssert(int(b0) == -i && b1 == 1 && b2 == 2 && int(b3) == x, "bounds")
		vfAssert(int(afm.Kerning(g, uint16(i*i%n))) == d, "kerning")
		vfAssert(int(afm.Ligatures[[2]uint16{g, uint16(n - 1 - i)}]) == (i+7)%n, "ligature")
	}
	vfReach("ok")
}

// vhCrash: no bytes at any place of the file crash the parser, make it loop or allocate without bound.
//
//vf:quick at=0..2 n=0..3
//vf:quick at=3 n=0..2
//vf:quick at=4..9 n=0..3
//vf:thorough at=0..2 n=0..5
//vf:thorough at=3 n=0..2
//vf:thorough at=4..9 n=0..5
//vf:opt reach=ok hang=60
func vhCrash() {
	parts := []string{
		"", "StartFontMetrics 4.1\n",
		"FontBBox ", "\nCapHeight ", "\nStartCharMetrics ", "\nC ", " ; WX 1 ", "; N A ; B ", " ;\nC 1 ; N B ; L B A ;\nEndCharMetrics", "\nStartKernData\nStartKernPairs ", "\nKPX A B ",
		"\nEndKernPairs\nEndKernData\nEndFontMetrics\n",
	}
	fill := []string{"", "", "1 2 3 4", "5", "2", "65", "", "0 0 1 1", "", "1", "7"}
	at := vfParam("at") + 1
	var b []byte
	for i, p := range parts {
		b = append(b, p...)
		if i == at {
			b = append(b, vfBytes("b", vfParam("n"))...)
		} else if i < len(fill) {
			b = append(b, fill[i]...)
		}
	}
	vfAllocMax(1 << 24)
	afm, err := ParseAFM(b)
	vfReach("ok")
	vfAssert((afm == nil) == (err != nil), "a font or an error")
	if err == nil {
		g := vfU16("g")
		afm.GlyphAdvance(g)
		afm.GlyphBounds(g)
		afm.GlyphName(g)
		afm.Kerning(g, g)
		afm.NumGlyphs()
	}
}

// vhCount: any glyph and pair counts.
//
//vf:quick at=0,1 n=1..5
//vf:thorough at=0,1 n=1..6
//vf:opt reach=ok hang=60
func vhCount() {
	num := []byte{}
	neg := vfBool("neg")
	num, v := vfAFMNum(num, "n", neg, vfParam("n"), 0)
	vfAssume(v <= 8 || 65530 <= v)
	if vfBool("huge") {
		num = append(num, "0000000000"...)
	}
	var b []byte
	if vfParam("at") == 0 {
		b = append([]byte("StartFontMetrics 4.1\nStartCharMetrics "), num...)
		b = append(b, "\nC 65 ; WX 1 ; N A ; B 1 1 1 1 ;\nEndCharMetrics\nEndFontMetrics\n"...)
	} else {
		b = append([]byte("StartFontMetrics 4.1\nStartCharMetrics 1\nC 65 ; WX 1 ; N A ; B 1 1 1 1 ;\nEndCharMetrics\nStartKernData\nStartKernPairs "), num...)
		b = append(b, "\nKPX A A 3\nEndKernPairs\nEndKernData\nEndFontMetrics\n"...)
	}
	vfAllocMax(1 << 24)
	afm, err := ParseAFM(b)
	vfReach("ok")
	vfAssert((afm == nil) == (err != nil), "a font or an error")
}

// vhKernSections: several sections of kerning data in any order; only the pairs of the horizontal writing direction
// (0, the default) are used, and pairs with vertical kerning only have no horizontal kerning.
//
//vf:quick n=1..2 neg=0,1
//vf:quick n=3 neg=1
//vf:thorough n=1..4 neg=0,1
//vf:opt reach=ok,vertical
func vhKernSections() {
	n := vfParam("n")
	m := []byte("StartCharMetrics 4\nC 65 ; WX 100 ; N A ; B 0 0 1 1 ;\nC 66 ; WX 200 ; N B ; B 0 0 1 1 ;\nC -1 ; WX 300 ; N C ; B 0 0 1 1 ;\nC -1 ; WX 300 ; N D ; B 0 0 1 1 ;\nEndCharMetrics\n")
	kern := []byte("Comment y\nStartKernData\n")
	var want [4][4]int
	for i := 0; i < n; i++ {
		kind := vfConc(vfInt("kind", 0, 4))
		if kind == 4 {
			kern = append(kern, "StartTrackKern 2\nTrackKern 0 1 2 3 4\nTrackKern 1 1 2 3 4\nEndTrackKern\n"...)
			continue
		}
		kern = append(kern, []string{"StartKernPairs 1\nKPX ", "StartKernPairs0 1\nKPX ", "StartKernPairs1 1\nKPX ", "StartKernPairs 2\nKPY D D 7\nKPX "}[kind]...)
		l, r := i, vfConc(vfInt("right", 0, 1)) // a pair of its own
		kern = append(kern, 'A'+byte(l), ' ', 'A'+byte(r), ' ')
		var k int
		kern, k = vfAFMNum(kern, "k", vfParam("neg") == 1, 1, 0)
		kern = append(kern, "\nEndKernPairs\n"...)
		if kind == 2 {
			vfReach("vertical")
		} else {
			want[l][r] = k
		}
	}
	kern = append(kern, "EndKernData\n"...)
	afm, err := ParseAFM(vfAFM("", m, string(kern)))
	vfAssert(err == nil, "well-formed file rejected")
	for l := range want {
		for r := range want[l] {
			vfAssert(int(afm.Kerning(uint16(l), uint16(r))) == want[l][r], "kerning")
		}
	}
	vfReach("ok")
}
