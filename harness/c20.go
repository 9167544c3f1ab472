package font

import "strconv"

//vf:use kit.go cffkit.go cffnames.go subset.go

func vfSameFloats(a, b []float64, msg string) {
	vfAssert(len(a) == len(b), msg)
	for i := range a {
		vfAssert(a[i] == b[i], msg)
	}
}

func vfSameInts(a, b []int, msg string) {
	vfAssert(len(a) == len(b), msg)
	for i := range a {
		vfAssert(a[i] == b[i], msg)
	}
}

// vfSameCFF compares everything but offsets and the encoding, which the library does not keep.
func vfSameCFF(a, b *SFNT) {
	p, q := a.CFF.TopDICT(), b.CFF.TopDICT()
	vfAssert(a.CFF.Version() == b.CFF.Version() && a.CFF.name == b.CFF.name, "name")
	vfAssert(p.IsSynthetic == q.IsSynthetic && p.IsCID == q.IsCID, "font kind")
	vfAssert(p.Version == q.Version, "Version")
	vfAssert(p.Notice == q.Notice, "Notice")
	vfAssert(p.Copyright == q.Copyright, "Copyright")
	vfAssert(p.FullName == q.FullName, "FullName")
	vfAssert(p.FamilyName == q.FamilyName, "FamilyName")
	vfAssert(p.Weight == q.Weight, "Weight")
	vfAssert(p.PostScript == q.PostScript, "PostScript")
	vfAssert(p.BaseFontName == q.BaseFontName, "BaseFontName")
	vfAssert(p.IsFixedPitch == q.IsFixedPitch, "IsFixedPitch")
	vfAssert(p.PaintType == q.PaintType && p.CharstringType == q.CharstringType, "PaintType, CharstringType")
	vfAssert(p.UniqueID == q.UniqueID, "UniqueID")
	vfSameInts(p.XUID, q.XUID, "XUID")
	vfSameInts(p.BaseFontBlend, q.BaseFontBlend, "BaseFontBlend")
	vfSameFloats([]float64{p.ItalicAngle}, []float64{q.ItalicAngle}, "ItalicAngle")
	vfSameFloats([]float64{p.UnderlinePosition, p.UnderlineThickness}, []float64{q.UnderlinePosition, q.UnderlineThickness}, "underline")
	vfSameFloats(p.FontMatrix[:], q.FontMatrix[:], "FontMatrix")
	vfSameFloats(p.FontBBox[:], q.FontBBox[:], "FontBBox")
	vfSameFloats([]float64{p.StrokeWidth}, []float64{q.StrokeWidth}, "StrokeWidth")
	vfAssert(a.NumGlyphs() == b.NumGlyphs(), "number of glyphs")
	for g := uint16(0); g < a.NumGlyphs(); g++ {
		d, err := a.CFF.PrivateDICT(g)
		e, err2 := b.CFF.PrivateDICT(g)
		vfAssert(err == nil && err2 == nil, "no Private DICT")
		if g == 0 {
			vfSamePrivate(d, e)
		}
		n, ok := a.CFF.GlyphName(g)
		n2, ok2 := b.CFF.GlyphName(g)
		vfAssert(ok == ok2 && n == n2, "glyph name")
		vfAssert(a.GlyphName(g) == b.GlyphName(g), "glyph name of the font")
		u, v := &vfPath{}, &vfPath{}
		vfAssert(a.GlyphPath(u, g, 0, 0, 0, 1, NoHinting) == nil && b.GlyphPath(v, g, 0, 0, 0, 1, NoHinting) == nil, "no outline")
		vfAssert(vfSamePath(u, v), "outline")
	}
}

func vfSamePrivate(d, e *cffPrivateDICT) {
	vfSameFloats(d.BlueValues, e.BlueValues, "BlueValues")
	vfSameFloats(d.OtherBlues, e.OtherBlues, "OtherBlues")
	vfSameFloats(d.FamilyBlues, e.FamilyBlues, "FamilyBlues")
	vfSameFloats(d.FamilyOtherBlues, e.FamilyOtherBlues, "FamilyOtherBlues")
	vfSameFloats([]float64{d.BlueScale, d.BlueShift, d.BlueFuzz}, []float64{e.BlueScale, e.BlueShift, e.BlueFuzz}, "BlueScale, BlueShift, BlueFuzz")
	vfSameFloats([]float64{d.StdHW, d.StdVW}, []float64{e.StdHW, e.StdVW}, "StdHW, StdVW")
	vfSameFloats(d.StemSnapH, e.StemSnapH, "StemSnapH")
	vfSameFloats(d.StemSnapV, e.StemSnapV, "StemSnapV")
	vfAssert(d.ForceBold == e.ForceBold, "ForceBold")
	vfAssert(d.LanguageGroup == e.LanguageGroup, "LanguageGroup")
	vfAssert(d.InitialRandomSeed == e.InitialRandomSeed, "InitialRandomSeed")
	vfSameFloats([]float64{d.ExpansionFactor}, []float64{e.ExpansionFactor}, "ExpansionFactor")
	vfSameFloats([]float64{d.DefaultWidthX, d.NominalWidthX}, []float64{e.DefaultWidthX, e.NominalWidthX}, "widths")
}

// vfCFFAgain parses the font, makes the library write its CFF table (how=0: subset of all glyphs, 1: renamed glyphs) and compares
// the reparsed file.
func vfCFFAgain(c *vfCFF, how int) {
	s := vfParse(vfCFFFont(c).bytes())
	if vfAgainTop != nil || vfAgainPriv != nil {
		d, err := s.CFF.PrivateDICT(0)
		vfAssert(err == nil, "no Private DICT")
		vfDictValues(vfAgainTop, s.CFF.TopDICT(), nil)
		vfDictValues(vfAgainPriv, nil, d)
	}
	if how == 1 {
		var names []string
		for g := 0; g < len(c.chars); g++ {
			n, _ := s.CFF.GlyphName(uint16(g))
			names = append(names, n)
		}
		last := names[len(names)-1]
		names[len(names)-1] = "x.y" // names[0] is .notdef
		vfAssert(s.SetGlyphNames(append([]string(nil), names...)) == nil, "SetGlyphNames")
		n := s.GlyphName(uint16(len(names) - 1))
		vfAssert(n == "x.y", "new name")
		if len(names) == 1 {
			return
		}
		r := vfReparse(s, 0)
		vfSameCFF(s, r)
		names[len(names)-1] = last
		vfAssert(s.SetGlyphNames(names) == nil, "SetGlyphNames back")
		vfSameCFF(vfParse(vfCFFFont(c).bytes()), vfReparse(s, 0))
		vfReach("same")
		return
	}
	var list []uint16
	for g := range c.chars {
		list = append(list, uint16(g))
	}
	sub, err := s.Subset(list, SubsetOptions{Tables: vfTables(0)})
	vfAssert(err == nil, "subsetting failed")
	r := vfReparse(sub, 0)
	vfSameCFF(s, r)
	vfReach("same")
}

// vfReal is a real operand: every 0..9 of the text is encoded as such, # is replaced by the digits of v, most significant first.
func vfReal(pat string, v int) []byte {
	n := 0
	for i := 0; i < len(pat); i++ {
		if pat[i] == '#' {
			n++
		}
	}
	var nib []byte
	for i := 0; i < len(pat); i++ {
		switch c := pat[i]; c {
		case '#':
			n--
			d := v
			for k := 0; k < n; k++ {
				d /= 10
			}
			nib = append(nib, byte(d%10))
		case '.':
			nib = append(nib, 10)
		case 'e':
			nib = append(nib, 11)
		case 'm': // E-
			nib = append(nib, 12)
		case '-':
			nib = append(nib, 14)
		default:
			nib = append(nib, c-'0')
		}
	}
	nib = append(nib, 15)
	if len(nib)&1 != 0 {
		nib = append(nib, 15)
	}
	b := []byte{30}
	for i := 0; i < len(nib); i += 2 {
		b = append(b, nib[i]<<4|nib[i+1])
	}
	return b
}

var vfReals = []string{"###", ".###", "#.##", "##.#", "-##.#", "-.###", "#.##m5", "###m9", "-###e2", "###e6", ".0###", ".00###", ".1234567#8#9#", "1.0###5", "12345678.###", "###e9", "##0.#"}
var vfBases = []int{-512, 600, -1700, 32300, -33100, 99500, -100600, 999400, 1<<31 - 1024, -1 << 31}

// vfOperand is a number of the given kind: 0..9 integers from 1024 wide windows, 10..14 three-digit multiples of a power of ten,
// from 20 on real numbers.
func vfOperand(kind int) []byte {
	switch {
	case kind < 10:
		return vfOp5(vfBases[kind] + vfInt("value", 0, 1023))
	case kind < 20:
		k := vfInt("value", 0, 1023) - 512
		for i := 8; i < kind; i++ {
			k *= 10
		}
		return vfOp5(k)
	}
	v := vfInt("value", 0, 1023)
	vfAssume(v < 1000)
	return vfReal(vfReals[kind-20], v)
}

type vfDE struct {
	op  []byte
	val [][]byte
}

func vfDE1(op []byte, v ...[]byte) vfDE { return vfDE{op, v} }

func vfDict(es []vfDE) (b []byte) {
	for _, e := range es {
		b = append(append(b, vfCat(e.val...)...), e.op...)
	}
	return
}

var vfAgainTop, vfAgainPriv []vfDE // entries whose values are checked, too

// vfNumber decodes an operand.
func vfNumber(b []byte) float64 {
	switch c := b[0]; {
	case c == 28:
		return float64(int16(b[1])<<8 | int16(b[2]))
	case c == 29:
		return float64(int32(vfGet32(b, 1)))
	case c == 30:
		var t []byte
		for i := 2; i < 2*len(b); i++ {
			n := b[i/2] >> 4
			if i&1 != 0 {
				n = b[i/2] & 15
			}
			if n == 15 {
				break
			}
			t = append(t, [...]string{"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ".", "e", "e-", "", "-"}[vfConc(int(n))]...)
		}
		f, err := strconv.ParseFloat(string(t), 64)
		vfAssert(err == nil, "operand of the harness")
		return f
	case c < 247:
		return float64(c) - 139
	case c < 251:
		return float64(int(c)-247)*256 + float64(b[1]) + 108
	default:
		return -float64(int(c)-251)*256 - float64(b[1]) - 108
	}
}

// vfDictValues checks the parsed values of the entries of a Top DICT (p) or Private DICT (d).
func vfDictValues(es []vfDE, p *cffTopDICT, d *cffPrivateDICT) {
	b := func(x bool) []float64 {
		if x {
			return []float64{1}
		}
		return []float64{0}
	}
	f := func(x ...float64) []float64 { return x }
	is := func(x ...int) (fs []float64) {
		for _, i := range x {
			fs = append(fs, float64(i))
		}
		return
	}
	for _, e := range es {
		var want, got []float64
		for _, v := range e.val {
			want = append(want, vfNumber(v))
		}
		op := int(e.op[0])
		if op == 12 {
			op = 256 + int(e.op[1])
		}
		if p != nil {
			switch op {
			case 256 + 1:
				got, want[0] = b(p.IsFixedPitch), b(want[0] != 0)[0]
			case 256 + 2:
				got = f(p.ItalicAngle)
			case 256 + 3:
				got = f(p.UnderlinePosition)
			case 256 + 4:
				got = f(p.UnderlineThickness)
			case 256 + 5:
				got = is(p.PaintType)
			case 256 + 7:
				got = p.FontMatrix[:]
			case 13:
				got = is(p.UniqueID)
			case 5:
				got = p.FontBBox[:]
			case 256 + 8:
				got = f(p.StrokeWidth)
			case 14:
				got = is(p.XUID...)
			case 256 + 23:
				got = is(p.BaseFontBlend...)
			default:
				continue // strings
			}
		} else {
			switch op {
			case 6:
				got = d.BlueValues
			case 7:
				got = d.OtherBlues
			case 8:
				got = d.FamilyBlues
			case 9:
				got = d.FamilyOtherBlues
			case 256 + 9:
				got = f(d.BlueScale)
			case 256 + 10:
				got = f(d.BlueShift)
			case 256 + 11:
				got = f(d.BlueFuzz)
			case 10:
				got = f(d.StdHW)
			case 11:
				got = f(d.StdVW)
			case 256 + 12:
				got = d.StemSnapH
			case 256 + 13:
				got = d.StemSnapV
			case 256 + 14:
				got, want[0] = b(d.ForceBold), b(want[0] != 0)[0]
			case 256 + 17:
				got = is(d.LanguageGroup)
			case 256 + 18:
				got = f(d.ExpansionFactor)
			case 256 + 19:
				got = is(d.InitialRandomSeed)
			case 20:
				got = f(d.DefaultWidthX)
			case 21:
				got = f(d.NominalWidthX)
			}
		}
		vfSameFloats(got, want, "value of a dictionary entry")
	}
}

// vfDictAgain checks the dictionaries of the font and the font after a write.
func vfDictAgain(c *vfCFF, top, priv []vfDE, how int) {
	c.top, c.priv = vfDict(top), vfDict(priv)
	vfAgainTop, vfAgainPriv = top, priv
	vfCFFAgain(c, how)
	vfAgainTop, vfAgainPriv = nil, nil
}

// vfTopFull and vfPrivFull have an entry for every operator.
func vfTopFull() []vfDE {
	n := vfNum
	return []vfDE{
		{[]byte{0}, [][]byte{n(391)}}, {[]byte{1}, [][]byte{n(392)}}, {[]byte{12, 0}, [][]byte{n(5)}}, {[]byte{2}, [][]byte{n(393)}}, {[]byte{3}, [][]byte{n(391)}}, {[]byte{4}, [][]byte{n(388)}},
		{[]byte{12, 1}, [][]byte{n(1)}},
		{[]byte{12, 2}, [][]byte{vfReal("-12.5", 0)}}, {[]byte{12, 3}, [][]byte{vfReal("-75.5", 0)}}, {[]byte{12, 4}, [][]byte{vfReal("49.25", 0)}},
		{[]byte{12, 5}, [][]byte{n(2)}},
		{[]byte{12, 7}, [][]byte{vfReal(".0005", 0), n(0), vfReal("2m4", 0), vfReal(".0005", 0), n(0), n(0)}},
		{[]byte{13}, [][]byte{vfOp5(123456)}}, {[]byte{5}, [][]byte{n(-50), vfReal("-200.5", 0), n(1000), n(900)}}, {[]byte{12, 8}, [][]byte{vfReal("1.5", 0)}},
		{[]byte{14}, [][]byte{n(1), n(200), vfOp5(70000)}},
		{[]byte{12, 21}, [][]byte{n(392)}}, {[]byte{12, 22}, [][]byte{n(34)}}, {[]byte{12, 23}, [][]byte{n(3), n(-4)}},
	}
}

func vfPrivFull() []vfDE {
	n := vfNum
	return []vfDE{
		{[]byte{6}, [][]byte{n(-20), n(20), n(500), vfReal("15.5", 0)}}, {[]byte{7}, [][]byte{n(-220), n(10)}}, {[]byte{8}, [][]byte{n(-21), n(21)}}, {[]byte{9}, [][]byte{n(-221), n(11)}},
		{[]byte{12, 9}, [][]byte{vfReal(".0375", 0)}}, {[]byte{12, 10}, [][]byte{vfReal("6.5", 0)}}, {[]byte{12, 11}, [][]byte{n(0)}},
		{[]byte{10}, [][]byte{n(50)}}, {[]byte{11}, [][]byte{vfReal("80.25", 0)}},
		{[]byte{12, 12}, [][]byte{n(50), n(10)}}, {[]byte{12, 13}, [][]byte{n(80), vfReal("10.5", 0)}},
		{[]byte{12, 14}, [][]byte{n(1)}}, {[]byte{12, 17}, [][]byte{n(1)}}, {[]byte{12, 18}, [][]byte{vfReal(".08", 0)}}, {[]byte{12, 19}, [][]byte{n(7)}},
		{[]byte{20}, [][]byte{n(500)}}, {[]byte{21}, [][]byte{vfReal("600.5", 0)}},
	}
}

func vfCFFBase() *vfCFF {
	chars := vfCFFTris(3)
	chars[0] = []byte{14} // as in a subset
	return &vfCFF{name: "Fo-nt", chars: chars, strs: [][]byte{[]byte("1.0"), []byte("note"), []byte("Full Name")}, charset: vfCharset0(34, 66)}
}

// An arbitrary number in every Top DICT (d=0) or Private DICT (d=1) operator that takes a number or integer; f is the entry and k the kind of
// number (see vfOperand). All other entries are present too, o=0 or absent, o=1.
//
//vf:quick d=0 f=9 k=0..10,12,20..36 o=0 how=0
//vf:quick d=1 f=10 k=0..10,12,20..36 o=0 how=0
//vf:quick d=0 f=7,8,14 k=8,12,22 o=0 how=0
//vf:quick d=0 f=11,13 k=3,10,25 o=0 how=0
//vf:quick d=1 f=0..9,13,15,16 k=3,12,23 o=0 how=0
//vf:quick d=1 f=4,5,6,13,16 k=0,20 o=1 how=1
//vf:quick d=0 f=7,8,9,14 k=0,20 o=1 how=1
//vf:quick d=0 f=6,10,12,15,18 k=1,2,4,9,12 o=0 how=0
//vf:quick d=1 f=11,12,14 k=1,2,4,9,12 o=0 how=0
//vf:thorough d=0 f=6,10,12,15,18 k=0..14 o=0,1 how=0,1
//vf:thorough d=1 f=11,12,14 k=0..14 o=0,1 how=0,1
//vf:thorough d=0 f=7,8,9,11,13,14 k=0..14,20..36 o=0,1 how=0,1
//vf:thorough d=1 f=0..10,13,15,16 k=0..14,20..36 o=0,1 how=0,1
//vf:opt reach=same
func vhNumber() {
	vfAgainTop, vfAgainPriv = nil, nil
	c := vfCFFBase()
	top, priv := vfTopFull(), vfPrivFull()
	v := vfOperand(vfParam("k"))
	l := top
	if vfParam("d") == 1 {
		l = priv
	}
	e := &l[vfParam("f")]
	e.val[len(e.val)-1] = v
	if 2 < len(e.val) {
		e.val[0] = v
	}
	if vfParam("o") == 1 {
		if vfParam("d") == 1 {
			top, priv = nil, []vfDE{*e}
		} else {
			top, priv = []vfDE{*e}, nil
		}
	}
	c.top, c.priv = vfDict(top), vfDict(priv)
	vfCFFAgain(c, vfParam("how"))
}

// Any 32-bit integer in the operators that takes an integer.
//
//vf:quick d=0 f=12 o=1 how=0
//vf:thorough d=0 f=6,10,12,15,18 o=0,1 how=0,1
//vf:thorough d=1 f=11,12,14 o=0,1 how=0,1
//vf:opt reach=same
func vhInteger() {
	c := vfCFFBase()
	top, priv := vfTopFull(), vfPrivFull()
	v := vf32([]byte{29}, vfU32("value"))
	l := top
	if vfParam("d") == 1 {
		l = priv
	}
	e := &l[vfParam("f")]
	e.val[len(e.val)-1] = v
	if vfParam("o") == 1 {
		if vfParam("d") == 1 {
			top, priv = nil, []vfDE{*e}
		} else {
			top, priv = []vfDE{*e}, nil
		}
	}
	vfDictAgain(c, top, priv, vfParam("how"))
}

// Entries f and g alone in the Top DICT (d=0) or Private DICT (d=1), with all their numbers arbitrary small integers, which may be
// equal to each other and to the default values.
//
//vf:quick d=1 f=0..16 g=0..16
//vf:quick d=0 f=6..18 g=6..18
//vf:opt reach=same
func vhEntries() {
	d, f, g := vfParam("d"), vfParam("f"), vfParam("g")
	if g < f {
		vfReach("same")
		return // the pair is covered the other way around
	}
	c := vfCFFBase()
	l := vfTopFull()
	if d == 1 {
		l = vfPrivFull()
	}
	pick := []vfDE{l[f]}
	if f != g {
		pick = append(pick, l[g])
	}
	for i := range pick {
		for j := range pick[i].val {
			if len(pick[i].val) == 6 && (j == 1 || j == 2) {
				continue // font matrix
			}
			v := vfInt("value", 137, 141)
			pick[i].val[j] = []byte{byte(v)}
		}
	}
	if d == 1 {
		vfDictAgain(c, nil, pick, 0)
	} else {
		vfDictAgain(c, pick, nil, 0)
	}
}

// Entry f has real numbers of different forms (q) with an arbitrary digit, among all the other entries.
//
//vf:quick d=1 f=0..16 q=0..2
//vf:quick d=0 f=6..18 q=0..2
//vf:thorough d=1 f=0..16 q=0..8
//vf:thorough d=0 f=6..18 q=0..8
//vf:opt reach=same
func vhReal() {
	pats := []string{"-#.5", "#.25", ".0#", "#e2", "#m3", "-1#", "-.#e3", "12#.", "#.5m7"}
	top, priv := vfTopFull(), vfPrivFull()
	f, d := vfParam("f"), vfParam("d")
	e := &top[f]
	if d == 1 {
		e = &priv[f]
	}
	if d == 1 && (f == 11 || f == 12 || f == 14) || d == 0 && (f == 6 || f == 10 || f == 12 || f == 15 || f == 18) {
		pats = []string{"#e2", "-1#", "1#.0"} // takes an integer
	}
	digit := vfConc(vfInt("digit", 0, 9))
	for j := range e.val {
		if len(e.val) < 6 || j != 1 && j != 2 { // font matrix
			e.val[j] = vfReal(pats[(vfParam("q")+j)%len(pats)], (digit+j)%10)
		}
	}
	vfDictAgain(vfCFFBase(), top, priv, 0)
}

// Arbitrary string identifiers in every string operator around the border between standard and custom strings, with arbitrary custom
// strings (p=0: two of two letters and one of three, p=1: one-letter strings, which may be standard strings, p=2: empty strings).
// Equal strings, absent strings and identifiers beyond the String INDEX are included.
//
//vf:quick f=0..7 p=0 how=0
//vf:quick f=0,5 p=1,2 how=0,1
//vf:thorough f=0..7 p=0..2 how=0,1
//vf:opt reach=same
func vhString() {
	c := vfCFFBase()
	switch vfParam("p") {
	case 0:
		a, b := vfBytes("a", 2), vfBytes("b", 2)
		vfAssume('a' <= a[0] && 'a' <= b[0] && a[0] < 'c' && b[0] < 'c')
		c.strs = [][]byte{a, b, vfBytes("c", 3)}
		vfAssume(c.strs[2][0] == '#')
	case 1:
		c.strs = [][]byte{{byte(vfInt("a", 'A', 'D'))}, {byte(vfInt("b", 'B', 'E'))}, {'2', '2'}}
	case 2:
		c.strs = [][]byte{{}, {byte(vfInt("b", '#', '$'))}, {}}
	}
	top := vfTopFull()
	i := []int{0, 1, 2, 3, 4, 5, 16, 17}
	s := vfInt("sid", 387, 396)
	f := vfParam("f")
	top[i[f]].val[0] = vfNum28(s)
	top[i[(f+1)%8]].val[0] = vfNum(392)
	c.charset = vfCharset0(uint16(vfInt("n1", 390, 394)), 393)
	c.top = vfDict(top)
	vfCFFAgain(c, vfParam("how"))
}

// An arbitrary font name.
//
//vf:quick n=1..5 how=0
//vf:opt reach=same
func vhFontName() {
	c := vfCFFBase()
	c.name = string(vfBytes("name", vfParam("n")))
	vfCFFAgain(c, vfParam("how"))
}

// Glyph names as two runs of consecutive string identifiers with arbitrary starts, the first of n and the second of m glyphs,
// stored in charset format f (0..2); f=3 is the predefined ISOAdobe charset.
//
//vf:quick f=0..2 n=1,2,3,8 m=0,1,2,7 how=0
//vf:quick f=0,2 n=255..258 m=0,2 how=0
//vf:quick f=1 n=254,255,256 m=3 how=1
//vf:quick f=0..2 n=0 m=0 how=0,1
//vf:quick f=3 n=0,1,9 m=0 how=0,1
//vf:quick f=3 n=227,228,229,240 m=0 how=0
//vf:thorough f=0..2 n=1..9 m=0..9 how=0,1
//vf:thorough f=0..2 n=253..259 m=0..3 how=0,1
//vf:opt reach=same
func vhCharset() {
	c := vfCFFBase()
	n, m := vfParam("n"), vfParam("m")
	c.chars = [][]byte{{14}}
	for i := 0; i < n+m; i++ {
		c.chars = append(c.chars, []byte{14})
	}
	s, t := vfInt("s", 1, 3), vfInt("t", 387, 390)
	if 250 < n {
		s = vfInt("s", 133, 134) // up to the last standard strings, or into the custom ones
	}
	switch f := vfParam("f"); f {
	case 0:
		var sids []uint16
		for i := 0; i < n; i++ {
			sids = append(sids, uint16(s+i))
		}
		for i := 0; i < m; i++ {
			sids = append(sids, uint16(t+i))
		}
		c.charset = vfCharset0(sids...)
	case 1, 2:
		c.charset = []byte{byte(f)}
		run := func(s, n int) {
			for 0 < n {
				k := n
				if f == 1 && 256 < k {
					k = 256
				}
				c.charset = vf16(c.charset, uint16(s))
				if f == 1 {
					c.charset = append(c.charset, byte(k-1))
				} else {
					c.charset = vf16(c.charset, uint16(k-1))
				}
				s += k
				n -= k
			}
		}
		run(s, n)
		run(t, m)
	case 3:
		c.charset = nil
	}
	p := vfParse(vfCFFFont(c).bytes())
	for g := range c.chars {
		sid := g
		if c.charset != nil && 0 < g {
			if sid = s + g - 1; n < g {
				sid = t + g - n - 1
			}
		} else if 229 <= g {
			sid = 1000 // not in the predefined charset
		}
		want := ""
		if sid = vfConc(sid); sid < len(vfStdStrings) {
			want = vfStdStrings[sid]
		} else if sid-len(vfStdStrings) < len(c.strs) {
			want = string(c.strs[sid-len(vfStdStrings)])
		}
		name, ok := p.CFF.GlyphName(uint16(g))
		vfAssert(ok && name == want, "name of the charset")
	}
	vfCFFAgain(c, vfParam("how"))
}

// vfLine is a charstring with an arbitrary line.
func vfLine(name string) []byte {
	return vfCat(vfNum28(int(vfI16(name))), vfNum28(int(vfI16(name+"y"))), []byte{21}, vfNum28(int(vfI16(name+"l"))), []byte{6, 14})
}

// INDEX offset sizes: charstrings with arbitrary lines, padded (after the end operator) so that the INDEX has n bytes of data. k=1
// moves the padding to a glyph name, k=2 to a global and k=3 to a local subroutine.
//
//vf:quick n=250..257 k=0..3 how=0
//vf:quick n=65530..65537 k=0,2,3 how=0
//vf:quick n=65790..65793 k=0 how=1
//vf:thorough n=250..257 k=0..3 how=1
//vf:thorough n=65530..65540 k=0..3 how=0,1
//vf:thorough n=131000,131071,131072,200000 k=0,2,3 how=0
//vf:opt reach=same
func vhIndexSize() {
	c := vfCFFBase()
	n := vfParam("n")
	c.chars = [][]byte{{14}, vfLine("a"), vfLine("b"), vfLine("c")}
	c.charset = vfCharset0(34, 391, 35)
	c.strs = [][]byte{{'.', '1'}}
	pad := func(els [][]byte) {
		d := n
		for _, e := range els {
			d -= len(e)
		}
		for i := len(els) - 2; 0 < d; i-- {
			k := d
			if 65535 < len(els[i])+k {
				k = 65535 - len(els[i])
			}
			els[i] = append(els[i], make([]byte, k)...)
			d -= k
		}
	}
	switch vfParam("k") {
	case 0:
		pad(c.chars)
	case 1:
		c.strs = [][]byte{{'.', '1'}, []byte("second")}
		c.charset = vfCharset0(34, 391, 392)
		pad(c.strs)
	case 2:
		c.gsubrs = [][]byte{vfLine("a"), vfLine("b"), vfLine("c")}
		pad(c.gsubrs)
		for i := 1; i < 4; i++ {
			c.chars[i] = append(vfNum(i-1-107), 29)
		}
	case 3:
		c.lsubrs = [][]byte{vfLine("a"), vfLine("b"), vfLine("c")}
		pad(c.lsubrs)
		for i := 1; i < 4; i++ {
			c.chars[i] = append(vfNum(i-1-107), 10)
		}
	}
	vfCFFAgain(c, vfParam("how"))
}

// vfFill fills a DICT with array operators up to n bytes, using integers that take five bytes and single bytes.
func vfFill(b []byte, n int, ops ...[]byte) []byte {
	for _, o := range ops {
		at := []int{len(b)}
		for k := 0; k < 48 && len(b)+len(o) < n; k++ {
			if len(b)+len(o)+5 <= n {
				b = append(b, vfOp5(100001+k)...)
			} else {
				b = append(b, byte(140+k%50))
			}
			at = append(at, len(b))
		}
		if rem := n - len(b) - len(o); 0 < rem && rem < 3 {
			b = b[:at[len(at)-3]] // room for another entry
		} else if len(at) == 1 {
			break
		}
		b = append(b, o...)
	}
	vfAssert(len(b) == n, "DICT length")
	return b
}

// Private DICTs of n bytes, where the size of the offset to the local subroutines changes; the glyphs call these (l=1) or there are none.
//
//vf:quick n=0,9,100..112,1120..1135 l=1 how=0
//vf:quick n=104..108,1127..1131 l=0,1 how=1
//vf:thorough n=0..2,20..260,1100..1140 l=0,1 how=0,1
//vf:opt reach=same
func vhPrivateSize() {
	c := vfCFFBase()
	n := vfParam("n")
	if 1 < n {
		c.priv = vfFill(nil, n, []byte{6}, []byte{7}, []byte{8}, []byte{9}, []byte{12, 12}, []byte{12, 13})
	}
	if vfParam("l") != 0 {
		c.lsubrs = [][]byte{vfLine("a"), vfLine("b")}
		c.chars[1] = append(vfNum(-106), 10)
		c.chars[2] = append(vfNum(-107), 10)
	}
	vfCFFAgain(c, vfParam("how"))
}

// Top DICTs of n bytes before the offsets, where the size of its INDEX changes, and offsets around the borders of their encodings (a
// string of k bytes moves the data).
//
//vf:quick n=0,228..250 k=10 how=0
//vf:quick n=20 k=950..1090/3 how=0
//vf:quick n=230..236 k=660..690/10 how=1
//vf:quick n=20 k=32600..32740/7 how=0
//vf:thorough n=0,200..260 k=0,10 how=0,1
//vf:thorough n=20 k=900..1100 how=0,1
//vf:thorough n=20 k=32600..32750 how=0
//vf:opt reach=same
func vhTopSize() {
	c := vfCFFBase()
	c.chars[1] = vfLine("a")
	n := vfParam("n")
	if 0 < n {
		c.top = vfFill(nil, n, []byte{14}, []byte{12, 23})
	}
	c.strs = [][]byte{make([]byte, vfParam("k"))}
	for i := range c.strs[0] {
		c.strs[0][i] = 'a' + byte(i%26)
	}
	c.charset = vfCharset0(391, 66)
	vfCFFAgain(c, vfParam("how"))
}
