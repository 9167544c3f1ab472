package font

//vf:use kit.go kernref.go

// One to three subtables with arbitrary coverage flags and p sorted pairs each; any left and right glyph.
// The table is also written and parsed again.
//
//vf:quick s=0..2 p=0..2
//vf:quick s=3 p=1
//vf:quick s=1 p=4
//vf:thorough s=3 p=2
//vf:thorough s=1..2 p=3..4
//vf:opt reach=listed,unlisted
func vhKern() {
	ns, np := vfParam("s"), vfParam("p")
	var subs []vfKernSub
	for i := 0; i < ns; i++ {
		sub := vfKernSub{cov: vfU8("coverage")}
		last := uint32(0)
		for j := 0; j < np; j++ {
			k := vfU32("key")
			vfAssume(j == 0 || last < k)
			last = k
			sub.keys = append(sub.keys, k)
			sub.vals = append(sub.vals, vfI16("value"))
		}
		subs = append(subs, sub)
	}
	f := &vfFont{glyphs: vfTris(2), kern: vfKernTab(subs)}
	s := vfParse(f.bytes())
	l, r := vfU16("left"), vfU16("right")
	want, listed, fits := vfKernRef(subs, l, r)
	vfAssume(fits)
	k := s.Kerning(l, r)
	vfObs("kern", int64(k))
	vfAssert(k == want, "kerning of a pair")
	if listed {
		vfReach("listed")
	} else {
		vfReach("unlisted")
	}
	if ns*np == 0 {
		vfReach("listed")
	}
	f2 := &vfFont{glyphs: vfTris(2), kern: s.Kern.Write()}
	s2 := vfParse(f2.bytes())
	vfAssert(s2.Kerning(l, r) == want, "kerning of a pair after writing and parsing the table")
}

// Pairs in any order in the file (distinct), one subtable.
//
//vf:quick p=2..3
//vf:thorough p=4
func vhKernUnsorted() {
	np := vfParam("p")
	sub := vfKernSub{cov: 1}
	for j := 0; j < np; j++ {
		k := vfU32("key")
		for _, o := range sub.keys {
			vfAssume(o != k)
		}
		sub.keys = append(sub.keys, k)
		sub.vals = append(sub.vals, vfI16("value"))
	}
	f := &vfFont{glyphs: vfTris(2), kern: vfKernTab([]vfKernSub{sub})}
	s := vfParse(f.bytes())
	l, r := vfU16("left"), vfU16("right")
	want, _, _ := vfKernRef([]vfKernSub{sub}, l, r)
	k := s.Kerning(l, r)
	vfObs("kern", int64(k))
	vfAssert(k == want, "kerning of a pair of an unsorted subtable")
}

// A subtable of arbitrary version and format and n bytes of arbitrary content before a format 0 subtable with one pair.
//
//vf:quick n=0,8,14
//vf:thorough n=0..24
func vhKernSkip() {
	n := vfParam("n")
	ver, format, cov := vfU16("version"), vfU8("format"), vfU8("coverage")
	vfAssume(ver != 0 || format != 0)
	b := vf16s(0, 2, ver, uint16(6+n))
	b = append(b, format, cov)
	b = append(b, vfBytes("data", n)...)
	l, r, v := vfU16("l0"), vfU16("r0"), vfI16("value")
	b = append(b, vfKernTab([]vfKernSub{{cov: 1, keys: []uint32{uint32(l)<<16 | uint32(r)}, vals: []int16{v}}})[4:]...)
	f := &vfFont{glyphs: vfTris(2), kern: b}
	s := vfParse(f.bytes())
	ql, qr := vfU16("left"), vfU16("right")
	want := int16(0)
	if ql == l && qr == r {
		want = v
	}
	k := s.Kerning(ql, qr)
	vfObs("kern", int64(k))
	vfAssert(k == want, "kerning after a subtable of another format")
}

// A font without kern table has no kerning.
//
//vf:quick
//vf:thorough
func vhKernNone() {
	s := vfParse((&vfFont{glyphs: vfTris(2)}).bytes())
	vfAssert(s.Kerning(vfU16("left"), vfU16("right")) == 0, "kerning without kern table")
}

// Large tables: a last subtable of n pairs, of which those around number 10920 (the most that the length field can describe) have
// arbitrary values, and with two=1 a subtable of one pair before it. The table is written and parsed (how=0), or the font is merged
// with a font with another kern table and written and parsed (how=1).
//
//vf:quick n=10919..10922 two=0..1 how=0
//vf:quick n=10920..10921 two=0 how=1
//vf:thorough n=10917..10924 two=0..1 how=0..1
//vf:thorough n=21839..21842 two=0..1 how=0
//vf:opt reach=listed,unlisted steps=4e8
func vhKernLarge() {
	n, how, w := vfParam("n"), vfParam("how"), 105
	large := vfKernSub{cov: 1}
	for j := 0; j < n; j++ {
		k := uint32(1+j/w)<<16 | uint32(1+j%w)
		v := int16(j)
		if 10917 <= j && j < 10923 {
			v = vfI16("value")
		}
		large.keys = append(large.keys, k)
		large.vals = append(large.vals, v)
	}
	subs := []vfKernSub{large}
	if vfParam("two") == 1 {
		subs = []vfKernSub{{cov: 1, keys: []uint32{0x00010001}, vals: []int16{vfI16("first")}}, large}
	}
	ng := 2 + n/w
	s := vfParse((&vfFont{glyphs: vfTris(ng), kern: vfKernTab(subs)}).bytes())
	j := 10916 + vfConc(vfInt("pair", 0, 7))
	if vfBool("begin") {
		j = 0
	}
	l, r := uint16(1+j/w), uint16(1+j%w)
	want, listed, fits := vfKernRef(subs, l, r)
	vfAssume(fits)
	vfAssert(s.Kerning(l, r) == want, "kerning of a large table")
	if listed {
		vfReach("listed")
	} else {
		vfReach("unlisted")
	}
	var t *SFNT
	if how == 0 {
		t = vfParse((&vfFont{glyphs: vfTris(ng), kern: s.Kern.Write()}).bytes())
	} else {
		v := vfI16("other")
		o := vfParse((&vfFont{glyphs: vfTris(3), kern: vfKernTab([]vfKernSub{{cov: 1, keys: []uint32{0x00010002}, vals: []int16{v}}})}).bytes())
		vfAssert(s.Merge(o, MergeOptions{}) == nil, "merging failed")
		vfAssert(s.Kerning(uint16(ng), uint16(ng+1)) == v, "kerning of the other font")
		t = vfParse(s.Write())
		vfAssert(t.Kerning(uint16(ng), uint16(ng+1)) == v, "kerning of the other font after writing and parsing")
	}
	vfObs("kern", int64(want), int64(t.Kerning(l, r)))
	vfAssert(t.Kerning(l, r) == want, "kerning of a large table after writing and parsing")
}

// A subtable whose length is e bytes more than its pairs take (with arbitrary bytes there) before another subtable with one pair.
//
//vf:quick e=0..8 p=1
//vf:quick e=6,14 p=0,2
//vf:thorough e=9..40 p=0..2
func vhKernSlack() {
	e, np := vfParam("e"), vfParam("p")
	sub := vfKernSub{cov: 1}
	last := uint32(0)
	for j := 0; j < np; j++ {
		k := vfU32("key")
		vfAssume(j == 0 || last < k)
		last = k
		sub.keys = append(sub.keys, k)
		sub.vals = append(sub.vals, vfI16("value"))
	}
	second := vfKernSub{cov: 1 | vfU8("coverage")&0xA, keys: []uint32{vfU32("key2")}, vals: []int16{vfI16("value2")}}
	subs := []vfKernSub{sub, second}
	b := vfKernTab(subs[:1])
	vfPut16(b, 2, 2)
	vfPut16(b, 6, uint16(14+6*np+e))
	b = append(b, vfBytes("slack", e)...)
	b = append(b, vfKernTab(subs[1:])[4:]...)
	s := vfParse((&vfFont{glyphs: vfTris(2), kern: b}).bytes())
	l, r := vfU16("left"), vfU16("right")
	want, _, fits := vfKernRef(subs, l, r)
	vfAssume(fits)
	k := s.Kerning(l, r)
	vfObs("kern", int64(k))
	vfAssert(k == want, "kerning after a subtable with trailing bytes")
}
