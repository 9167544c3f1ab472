package font

import (
	"bytes"
	"unicode/utf8"
)

//vf:use kit.go

type vfNameRec struct {
	platform, encoding, lang, name uint16
	value                          []byte
}

// vfNames builds a name table with the records' strings one after the other.
func vfNames(version uint16, recs []vfNameRec, tags [][]byte) []byte {
	hdr := 6 + 12*len(recs)
	if version == 1 {
		hdr += 2 + 4*len(tags)
	}
	b := vf16s(version, uint16(len(recs)), uint16(hdr))
	var st []byte
	for _, r := range recs {
		b = append(b, vf16s(r.platform, r.encoding, r.lang, r.name, uint16(len(r.value)), uint16(len(st)))...)
		st = append(st, r.value...)
	}
	if version == 1 {
		b = vf16(b, uint16(len(tags)))
		for _, t := range tags {
			b = append(b, vf16s(uint16(len(t)), uint16(len(st)))...)
			st = append(st, t...)
		}
	}
	return append(b, st...)
}

func vfUTF16(s string) (b []byte) {
	for _, r := range s {
		if 0x10000 <= r {
			r -= 0x10000
			b = vf16(vf16(b, 0xD800+uint16(r>>10)), 0xDC00+uint16(r&0x3FF))
		} else {
			b = vf16(b, uint16(r))
		}
	}
	return
}

// vfDecode16 decodes UTF-16BE; ok reports whether every surrogate is paired.
func vfDecode16(b []byte) (_ []byte, ok bool) {
	var r []byte
	for i := 0; i+1 < len(b); i += 2 {
		u := vfGet16(b, i)
		if 0xD800 <= u && u < 0xDC00 && i+3 < len(b) {
			if v := vfGet16(b, i+2); 0xDC00 <= v && v < 0xE000 {
				r = utf8.AppendRune(r, 0x10000+(rune(u)-0xD800)<<10+(rune(v)-0xDC00))
				i += 2
				continue
			}
		}
		if 0xD800 <= u && u < 0xE000 {
			return nil, false
		}
		r = utf8.AppendRune(r, rune(u))
	}
	return r, true
}

const vfMacRoman = "ÄÅÇÉÑÖÜáàâäãåçéèêëíìîïñóòôöõúùûü†°¢£§•¶ß®©™´¨≠ÆØ∞±≤≥¥µ∂∑∏π∫ªºΩæø¿¡¬√ƒ≈∆«»…\u00A0ÀÃÕŒœ–—“”‘’÷◊ÿŸ⁄€‹›ﬁﬂ‡·‚„‰ÂÊÁËÈÍÎÏÌÓÔ\uF8FFÒÚÛÙıˆ˜¯˘˙˚¸˝˛ˇ"

// vhText: the text of a name record is its bytes decoded as UTF-16BE (when well-formed) for the Unicode and Windows platforms, as Mac
// Roman for the Macintosh platform's Roman encoding, and the bytes themselves for any other encoding. Odd trailing
// bytes of UTF-16 text do not crash.
//
//vf:quick n=0..5 plat=0,1,3
//vf:quick n=0..1 plat=2
//vf:thorough n=0..8 plat=0,1,3
//vf:thorough n=0..2 plat=2
//vf:opt reach=ok
func vhText() {
	n := vfParam("n")
	val := vfBytes("v", n)
	if vfParam("plat") == 2 && n == 1 && vfBool("around") {
		val = []byte{'x', 0x8A, val[0], 0xDB, 0}
	}
	r := vfNameRec{name: 1, value: val}
	switch vfParam("plat") {
	case 0:
		r.platform, r.encoding = 0, vfU16("enc")
	case 1:
		r.platform, r.encoding = 3, vfU16("enc")
	case 2:
		r.platform, r.encoding = 1, 0
	case 3:
		r.platform, r.encoding = vfU16("plat"), vfU16("enc")
		vfAssume(r.platform != 0 && r.platform != 3 && !(r.platform == 1 && r.encoding == 0))
	}
	r.lang = vfU16("lang")
	s := vfParse((&vfFont{glyphs: vfTris(2), name: vfNames(0, []vfNameRec{r}, nil)}).bytes())
	recs := s.Name.Get(NameFontFamily)
	vfAssert(len(recs) == 1 && uint16(recs[0].Platform) == r.platform && uint16(recs[0].Encoding) == r.encoding && recs[0].Language == r.lang, "record fields")
	got := recs[0].String()
	vfObsB("text", []byte(got))
	vfReach("ok")
	switch vfParam("plat") {
	case 0, 1:
		if want, ok := vfDecode16(val); ok && n%2 == 0 {
			vfAssert(got == string(want), "UTF-16 text")
		}
	case 2:
		mac := []rune(vfMacRoman)
		var want []rune
		for _, c := range val {
			if c < 0x80 {
				want = append(want, rune(c))
			} else {
				want = append(want, mac[c-0x80])
			}
		}
		vfAssert(got == string(want), "Mac Roman text")
	case 3:
		vfAssert(got == string(val), "text of an unknown encoding")
	}
}

// vhRecords: every record's value is the string at its own offset and length in the storage, wherever it lies
// (strings may overlap), and Get lists the records of a name in table order; language tags likewise.
//
//vf:quick n=1,2 st=0..4 version=0,1
//vf:thorough n=1..3 st=0..5 version=0,1
//vf:opt reach=ok
func vhRecords() {
	n, st := vfParam("n"), vfParam("st")
	version := uint16(vfParam("version"))
	storage := make([]byte, st)
	for i := range storage {
		storage[i] = byte(0x40 + i)
	}
	recs := make([]vfNameRec, n)
	for i := range recs {
		recs[i] = vfNameRec{3, 1, 0x409, vfU16("id"), nil}
	}
	tab := vfNames(version, recs, [][]byte{nil}[:int(version)])
	offs := make([]int, 0, n+1)
	lens := make([]int, 0, n+1)
	put := func(p int) {
		o := vfConc(vfInt("off", 0, st))
		l := vfInt("len", 0, st)
		vfAssume(l <= st-o)
		l = vfConc(l)
		vfPut16(tab, p, uint16(l))
		vfPut16(tab, p+2, uint16(o))
		offs, lens = append(offs, o), append(lens, l)
	}
	for i := 0; i < n; i++ {
		put(6 + 12*i + 8)
	}
	if version == 1 {
		put(6 + 12*n + 2)
	}
	tab = append(tab, storage...)
	s := vfParse((&vfFont{glyphs: vfTris(2), name: tab}).bytes())
	id := vfU16("query")
	got := s.Name.Get(NameID(id))
	k := 0
	for i := 0; i < n; i++ {
		if recs[i].name == id {
			vfAssert(k < len(got), "record missing")
			vfAssert(string(got[k].Value) == string(storage[offs[i]:offs[i]+lens[i]]), "record value")
			vfAssert(uint16(got[k].Name) == id && got[k].Platform == PlatformWindows && got[k].Language == 0x409, "record fields")
			k++
		}
	}
	vfAssert(k == len(got), "extra record")
	if version == 1 {
		vfAssert(len(s.Name.LangTag) == 1, "language tag count")
		vfAssert(string(s.Name.LangTag[0].Value) == string(storage[offs[n]:offs[n]+lens[n]]), "language tag value")
	}
	vfReach("ok")
}

// vhMetadata: the metadata of a font file are the family and style of its English Windows records, in which the
// typographic names (16, 17) go before the basic ones (1, 2); records of other platforms and languages, and other
// names, do not matter.
//
//vf:quick version=0,1 set=0..3
//vf:opt reach=ok,none
func vhMetadata() {
	all := []vfNameRec{
		{0, 3, 0, 1, vfUTF16("Uni")},
		{1, 0, 0, 1, []byte("Macs")},
		{1, 0, 0, 2, []byte("Boldly")},
		{1, 0, 9, 1, []byte("Nine")},
		{3, 1, 0x407, 1, vfUTF16("Deut")},
		{3, 1, 0x407, 2, vfUTF16("Fett")},
		{3, 1, 0x407, 16, vfUTF16("DeutP")},
		{3, 1, 0x409, 1, vfUTF16("Basic")},
		{3, 1, 0x409, 2, vfUTF16("Bold Italic")},
		{3, 1, 0x409, 4, vfUTF16("Full")},
		{3, 1, 0x409, 16, vfUTF16("Typo")},
		{3, 1, 0x409, 17, vfUTF16("Light")},
		{3, 1, 0x40C, 1, vfUTF16("Franc")},
		{3, 1, 0x40C, 2, vfUTF16("Gras")},
		{3, 1, 0x809, 1, vfUTF16("Basic")},
		{3, 1, 0x809, 2, vfUTF16("Bold Italic")},
	}
	groups := [][]int{{0, 1, 2, 3}, {4, 5, 6}, {12, 13}, {14, 15}}
	with := groups[vfParam("set")]
	var recs []vfNameRec
	has := map[uint16]bool{}
	for i, r := range all {
		in := false
		for _, k := range with {
			in = in || k == i
		}
		if !in && r.lang != 0x409 {
			continue
		}
		if vfBool("has" + string(rune('a'+i))) {
			recs = append(recs, r)
			if r.platform == 3 && r.lang&0xFF == 9 {
				has[r.name] = true
			}
		}
	}
	f := (&vfFont{glyphs: vfTris(2), name: vfNames(uint16(vfParam("version")), recs, nil)}).bytes()
	md, err := getSFNTMetadata(bytes.NewReader(f))
	family, style := "", Regular
	if has[1] {
		family = "Basic"
	}
	if has[16] {
		family = "Typo"
	}
	if has[2] {
		style = Bold | Italic
	}
	if has[17] {
		style = Light
	}
	if family == "" {
		vfReach("none")
		vfAssert(err != nil, "metadata of a font without an English family name")
		return
	}
	vfReach("ok")
	vfAssert(err == nil, "metadata not read")
	vfAssert(md.Family == family, "family")
	vfAssert(md.Style == style, "style")
}

// vhMetadataText: the family name is decoded from UTF-16BE at the record's offset, and files that are cut off give an
// error.
//
//vf:quick n=1..3 cut=0
//vf:quick n=1 cut=1
//vf:opt reach=ok
func vhMetadataText() {
	val := vfBytes("v", 2*vfParam("n"))
	want, wok := vfDecode16(val)
	vfAssume(wok)
	recs := []vfNameRec{{3, 1, 0x409, 1, val}, {3, 1, 0x409, 2, vfUTF16("Black")}}
	f := (&vfFont{glyphs: vfTris(2), name: vfNames(0, recs, nil)}).bytes()
	if vfParam("cut") == 1 {
		n := vfConc(vfInt("n", 0, len(f)))
		md, err := getSFNTMetadata(bytes.NewReader(f[:n]))
		vfReach("ok")
		vfAssert(err != nil || md.Family == string(want) && md.Style == Black, "metadata of a cut file")
		return
	}
	md, err := getSFNTMetadata(bytes.NewReader(f))
	vfReach("ok")
	vfAssert(err == nil && md.Family == string(want) && md.Style == Black, "decoded family")
}

// vhFar: strings at the far end of a storage of 64 KiB and more, whose position in the table takes more than 16 bits.
//
//vf:quick n=1..3 version=0,1
//vf:opt reach=ok,far
func vhFar() {
	n, version := vfParam("n"), uint16(vfParam("version"))
	storage := make([]byte, 65536+16)
	for i := 1; i < len(storage); i += 2 {
		storage[i] = 'A' + byte(i>>1%26)
	}
	var recs []vfNameRec
	for i := 0; i < n; i++ {
		recs = append(recs, vfNameRec{3, 1, 0x409, uint16(1 + i), nil})
	}
	tab := vfNames(version, recs, [][]byte{nil}[:int(version)])
	which := vfConc(vfInt("which", 0, n-1+int(version))) // the far string, other strings are at the start
	off := vfConc(65520 + 2*vfInt("off", 0, 7))
	l := vfConc(2 * vfInt("len", 0, 8))
	p := 6 + 12*which + 8
	if which == n {
		p = 6 + 12*n + 2
	}
	vfPut16(tab, p, uint16(l))
	vfPut16(tab, p+2, uint16(off))
	if 65536 <= off+len(tab) {
		vfReach("far")
	}
	tab = append(tab, storage...)
	f := (&vfFont{glyphs: vfTris(2), name: tab}).bytes()
	s := vfParse(f)
	want := storage[off : off+l]
	for i := 0; i < n; i++ {
		r := s.Name.Get(NameID(1 + i))
		vfAssert(len(r) == 1, "record")
		if i == which {
			vfAssert(string(r[0].Value) == string(want), "far record")
		} else {
			vfAssert(len(r[0].Value) == 0, "empty record")
		}
	}
	if which == n {
		vfAssert(string(s.Name.LangTag[0].Value) == string(want), "far language tag")
	}
	if md, err := getSFNTMetadata(bytes.NewReader(f)); which == 0 && 0 < l {
		vfAssert(err == nil, "metadata")
		d, _ := vfDecode16(want)
		vfAssert(md.Family == string(d), "family name of the metadata")
	}
	vfReach("ok")
}

// vhLong: one record, or language tag, of l bytes (any of its bytes around the middle), up to the most that the length field can
// describe.
//
//vf:quick l=32766,32768,65534 which=0..2
//vf:thorough l=16384..65534/2730 which=0..2
//vf:opt reach=ok steps=4e8
func vhLong() {
	l, which := vfParam("l"), vfParam("which")
	val := make([]byte, l)
	for i := range val {
		val[i] = 'A' + byte(i%23)
		if which != 1 && i%2 == 0 {
			val[i] = 0
		}
	}
	c := vfU8("char")
	vfAssume(c < 0x80)
	val[l/2|1] = c
	rec := vfNameRec{platform: 3, encoding: 1, lang: 0x409, name: 1, value: val}
	if which == 1 {
		rec = vfNameRec{platform: 1, name: 1, value: val}
	}
	tab := vfNames(0, []vfNameRec{rec}, nil)
	if which == 2 {
		tab = vfNames(1, []vfNameRec{{platform: 3, encoding: 1, lang: 0x8000, name: 1, value: val[:4]}}, [][]byte{val})
	}
	s := vfParse((&vfFont{glyphs: vfTris(2), name: tab}).bytes())
	r := s.Name.Get(NameFontFamily)
	vfAssert(len(r) == 1, "record")
	if which == 2 {
		vfAssert(string(r[0].Value) == string(val[:4]), "record before a long language tag")
		vfAssert(len(s.Name.LangTag) == 1 && string(s.Name.LangTag[0].Value) == string(val), "long language tag")
	} else {
		vfAssert(string(r[0].Value) == string(val), "long record")
	}
	vfReach("ok")
}
