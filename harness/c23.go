package font

//vf:use kit.go cffkit.go cffnames.go macnames.go

func vfNameFont(ng int, post []byte) *SFNT {
	f := &vfFont{glyphs: vfTris(ng), post: post}
	return vfParse(f.bytes())
}

// FindGlyphName finds a glyph that has the name, or reports 0 when no glyph has it.
func vfCheckFind(s *SFNT, name string, ng int) {
	id := s.FindGlyphName(name)
	vfObs("find", int64(id))
	exists := false
	for i := 0; i < ng; i++ {
		exists = exists || s.GlyphName(uint16(i)) == name
	}
	if exists {
		vfReach("found")
		vfAssert(s.GlyphName(id) == name, "found glyph has another name")
	} else {
		vfReach("missing")
		vfAssert(id == 0, "undefined name found")
	}
}

// post version 1: the standard names, any glyph ID.
//
//vf:quick
//vf:thorough
func vhPost1() {
	post := vfPost3()
	post[1] = 1
	s := vfNameFont(2, post)
	g := vfU16("glyph")
	n := s.GlyphName(g)
	vfObsB("name", []byte(n))
	if g < 258 {
		vfAssert(n == vfMacNames[vfConc(int(g))], "standard name")
		vfAssert(s.FindGlyphName(n) == g, "standard name finds its glyph")
	} else {
		vfAssert(n == "", "name outside the standard order")
	}
}

// post version 3: no names.
//
//vf:quick
//vf:thorough
func vhPost3() {
	s := vfNameFont(2, vfPost3())
	vfAssert(s.GlyphName(vfU16("glyph")) == "", "name of a font without names")
	vfAssert(s.FindGlyphName("A") == 0, "name found in a font without names")
}

// post version 2 with one arbitrary name index (over all standard names) and two strings.
//
//vf:quick
//vf:thorough
func vhPost2Any() {
	x := vfU16("index")
	strs := [][]byte{[]byte("foo"), []byte("bar.alt")}
	s := vfNameFont(3, vfPost2([]uint16{36, x, 259}, strs))
	n := s.GlyphName(1)
	vfObsB("name", []byte(n))
	switch {
	case x < 258:
		vfAssert(n == vfMacNames[vfConc(int(x))], "standard name")
	case x < 260:
		vfAssert(n == string(strs[vfConc(int(x)-258)]), "own name")
	default:
		vfAssert(n == "", "name outside the string data")
	}
	vfAssert(s.GlyphName(0) == "A" && s.GlyphName(2) == "bar.alt", "names of other glyphs")
	if n != "" {
		f := s.FindGlyphName(n)
		vfAssert(s.GlyphName(f) == n, "found glyph has another name")
	}
}

// post version 2: n glyphs with arbitrary indices around the first own name, k strings of arbitrary bytes and lengths up to l; any name is looked up.
//
//vf:quick n=2..3 k=1..2 l=1
//vf:thorough n=3..4 k=2..3 l=2
//vf:opt reach=found,missing
func vhPost2() {
	n, k := vfParam("n"), vfParam("k")
	var strs [][]byte
	for i := 0; i < k; i++ {
		strs = append(strs, vfBytes("str", vfConc(vfInt("len", 0, vfParam("l")))))
	}
	var idx []uint16
	for i := 0; i < n; i++ {
		x := vfU16("index")
		vfAssume(x >= 257)
		idx = append(idx, x)
	}
	s := vfNameFont(n, vfPost2(idx, strs))
	for i := 0; i < n; i++ {
		nm := s.GlyphName(uint16(i))
		for j := 0; j < k; j++ {
			if int(idx[i]) == 258+j {
				vfAssert(nm == string(strs[j]), "own name of a glyph")
			}
		}
		if idx[i] == 257 {
			vfAssert(nm == "dcroat", "last standard name")
		}
		if int(idx[i]) >= 258+k {
			vfAssert(nm == "", "name outside the string data")
		}
	}
	vfAssert(s.GlyphName(uint16(n)) == "", "name outside the font")
	q := string(vfBytes("query", 1))
	vfCheckFind(s, q, n)
	if a := s.GlyphName(0); a != "" {
		vfAssert(s.GlyphName(s.FindGlyphName(a)) == a, "found glyph has another name")
	}
}

// post version 2 with a name of l bytes between two short ones, of which a byte in the middle is arbitrary; names may have up to 63
// characters.
//
//vf:quick l=1,2,31,32,33,62,63
//vf:thorough l=1..63
func vhPost2Long() {
	l := vfParam("l")
	long := make([]byte, l)
	for i := range long {
		long[i] = 'a' + byte(i%26)
	}
	long[l/2] = vfU8("char")
	vfAssume(32 < long[l/2] && long[l/2] < 127)
	strs := [][]byte{[]byte("foo"), long, []byte("bar9")}
	s := vfNameFont(4, vfPost2([]uint16{0, 258, 259, 260}, strs))
	t := vfParse(s.Write())
	for i, str := range strs[1:] {
		vfAssert(t.GlyphName(uint16(2+i)) == string(str), "own name of a glyph")
		vfAssert(t.GlyphName(t.FindGlyphName(string(str))) == string(str), "lookup of a name")
	}
	vfAssert(t.GlyphName(1) == "foo", "own name of a glyph")
}

// Setting names of which one is l bytes long (names may have up to 63 characters) on a TrueType font with names (v=2) or without,
// before and after a lookup: a name that cannot be stored gives an error and leaves all names as they were.
//
//vf:quick l=62..65,255..257 v=2..3 first=0..1
//vf:opt reach=set,error
func vhSetNamesLong() {
	l, v := vfParam("l"), vfParam("v")
	post := vfPost3()
	was := []string{"", "", ""}
	if v == 2 {
		post = vfPost2([]uint16{0, 36, 258}, [][]byte{[]byte("foo")})
		was = []string{".notdef", "A", "foo"}
	}
	s := vfNameFont(3, post)
	if vfParam("first") == 1 {
		s.FindGlyphName("foo")
	}
	long := make([]byte, l)
	for i := range long {
		long[i] = 'a' + byte(i%26)
	}
	long[l/2] = vfU8("char")
	vfAssume(32 < long[l/2] && long[l/2] < 127)
	names := []string{".notdef", string(long), "Q"}
	err := s.SetGlyphNames(names)
	if err != nil {
		vfReach("error")
		vfAssert(63 < l, "valid names are not accepted")
		names = was
	}
	t := vfParse(s.Write())
	for i, name := range names {
		vfAssert(s.GlyphName(uint16(i)) == name && t.GlyphName(uint16(i)) == name, "names after setting them, or after failing to")
		if name != "" {
			vfAssert(s.GlyphName(s.FindGlyphName(name)) == name && t.GlyphName(t.FindGlyphName(name)) == name, "lookup of a name")
		}
	}
	if err != nil {
		vfAssert(s.FindGlyphName("Q") == 0, "lookup of a name that was not set")
	} else {
		vfReach("set")
	}
	if l < 64 {
		vfReach("error")
	} else {
		vfReach("set")
	}
}

// SetGlyphNames on fonts with and without names, before and after a lookup, m names of up to l arbitrary bytes for n glyphs; the names are read back, looked up, written and parsed.
//
//vf:quick n=3 m=2..4 l=1 v=2,3 first=0,1
//vf:thorough n=3..4 m=2..4 l=2 v=2,3 first=0,1
func vhSetNames() {
	n, m := vfParam("n"), vfParam("m")
	post := vfPost3()
	if vfParam("v") == 2 {
		post = vfPost2([]uint16{0, 36, 258, 37}[:n], [][]byte{[]byte("foo")})
	}
	s := vfNameFont(n, post)
	if vfParam("first") == 1 {
		s.FindGlyphName("foo")
	}
	var names []string
	names = append(names, ".notdef")
	for i := 1; i < m; i++ {
		nm := vfBytes("name", vfConc(vfInt("len", 1, vfParam("l"))))
		names = append(names, string(nm))
	}
	err := s.SetGlyphNames(names)
	vfAssert(err == nil, "setting names failed")
	c := m
	if n < c {
		c = n
	}
	for i := 0; i < c; i++ {
		vfAssert(s.GlyphName(uint16(i)) == names[i], "name after setting it")
		f := s.FindGlyphName(names[i])
		vfAssert(s.GlyphName(f) == names[i], "lookup after setting names finds a glyph of another name")
	}
	t := vfParse(s.Write())
	for i := 0; i < c; i++ {
		vfAssert(t.GlyphName(uint16(i)) == names[i], "name after writing and parsing")
		f := t.FindGlyphName(names[i])
		vfAssert(t.GlyphName(f) == names[i], "lookup after writing and parsing")
	}
	vfAssert(s.GlyphAdvance(1) == t.GlyphAdvance(1), "advance changed")
}

// Setting names twice gives the second names.
//
//vf:quick
//vf:thorough
func vhSetNamesTwice() {
	s := vfNameFont(3, vfPost3())
	a, b, c := string(vfBytes("a", 1)), string(vfBytes("b", 1)), string(vfBytes("c", 1))
	vfAssert(s.SetGlyphNames([]string{".notdef", a, b}) == nil, "first call failed")
	vfAssert(s.GlyphName(1) == a && s.GlyphName(2) == b, "first names")
	vfAssert(s.SetGlyphNames([]string{".notdef", b, c}) == nil, "second call failed")
	vfAssert(s.GlyphName(1) == b && s.GlyphName(2) == c, "second names")
	vfAssert(s.GlyphName(s.FindGlyphName(b)) == b && s.GlyphName(s.FindGlyphName(c)) == c, "lookup of second names")
}

// CFF glyph names: n glyphs with arbitrary string identifiers from f on (standard and custom strings, the latter with arbitrary
// bytes); any name is looked up.
//
//vf:quick n=2..3 f=0,388
//vf:thorough n=2..5 f=0,100,388
//vf:opt reach=found,missing
func vhCFFNames() {
	n, from := vfParam("n"), vfParam("f")
	c := &vfCFF{chars: vfCFFTris(n), strs: [][]byte{vfBytes("custom", 2), vfBytes("own", 1)}}
	var sids []int
	var words []uint16
	for i := 1; i < n; i++ {
		sid := from + vfConc(vfInt("sid", 0, 4))
		sids = append(sids, sid)
		words = append(words, uint16(sid))
	}
	c.charset = vfCharset0(words...)
	s := vfParse(vfCFFFont(c).bytes())
	g := vfU16("glyph")
	name := s.GlyphName(g)
	vfObsB("name", []byte(name))
	want := ""
	if int(g) < n {
		want = ".notdef"
		if i := vfConc(int(g)); 0 < i {
			if sid := sids[i-1]; sid < len(vfStdStrings) {
				want = vfStdStrings[sid]
			} else {
				want = string(c.strs[sid-len(vfStdStrings)])
			}
		}
	}
	vfAssert(name == want, "name of the charset")
	vfCheckFind(s, string(vfBytes("lookup", vfConc(vfInt("l", 1, 2)))), n)
	vfCheckFind(s, "space", n)
}

// SetGlyphNames on a CFF font of n glyphs with m names of arbitrary bytes: as many names as glyphs are set, any other number is an
// error which leaves the names as they were. The caller's list stays the caller's.
//
//vf:quick n=2..3 m=1..4 l=2 first=0..1
//vf:thorough n=2..5 m=1..6 l=3 first=0..1
//vf:opt reach=set,error
func vhSetNamesCFF() {
	n, m := vfParam("n"), vfParam("m")
	c := &vfCFF{chars: vfCFFTris(n), strs: [][]byte{[]byte("foo"), []byte("bar")}}
	c.charset = vfCharset0([]uint16{391, 34, 392, 36}[:n-1]...)
	s := vfParse(vfCFFFont(c).bytes())
	if vfParam("first") == 1 {
		s.FindGlyphName("foo")
	}
	var old []string
	for i := 0; i < n; i++ {
		old = append(old, s.GlyphName(uint16(i)))
	}
	vfAssert(old[1] == "foo", "name of the charset")
	names := []string{".notdef"}
	for i := 1; i < m; i++ {
		names = append(names, string(vfBytes("name", vfConc(vfInt("len", 1, vfParam("l"))))))
	}
	keep := append([]string{}, names...)
	err := s.SetGlyphNames(names)
	if m != n {
		vfReach("error")
		vfAssert(err != nil, "wrong number of names is accepted")
		keep = old
	} else {
		vfReach("set")
		vfAssert(err == nil, "setting names failed")
	}
	for i := range names {
		vfAssert(m != n || names[i] == keep[i], "list of the caller changed")
		names[i] = "changed"
	}
	t := vfParse(s.Write())
	for _, u := range []*SFNT{s, t} {
		for i := 0; i < n; i++ {
			vfAssert(u.GlyphName(uint16(i)) == keep[i], "name after setting it")
			vfAssert(u.GlyphName(u.FindGlyphName(keep[i])) == keep[i], "lookup after setting names finds a glyph of another name")
		}
		vfAssert(u.GlyphName(uint16(n)) == "", "name of a glyph outside of the font")
		for i := 0; i < n; i++ {
			vfAssert(u.GlyphAdvance(uint16(i)) == s.GlyphAdvance(uint16(i)), "advance changed")
			p, q := &vfPath{}, &vfPath{}
			vfAssert(u.GlyphPath(p, uint16(i), 0, 0, 0, 1, NoHinting) == nil && s.GlyphPath(q, uint16(i), 0, 0, 0, 1, NoHinting) == nil, "outline failed")
			vfAssert(len(p.op) == len(q.op) && len(p.c) == len(q.c) && vfSamePath(p, q), "outline changed")
		}
	}
}

// A CFF font of n+4 glyphs, named by one run of n consecutive string identifiers and three glyphs of which the last has an arbitrary one, in
// charset format f: names around the end of the run (glyphs beyond the strings have no name) and lookup of the last names.
//
//vf:quick f=2 n=32769,65531
//vf:quick f=1,2 n=256,257
//vf:thorough f=2 n=32766..32770
//vf:thorough f=0 n=32768,65531
//vf:opt reach=large steps=2e8
func vhCFFLarge() {
	n, f := vfParam("n"), vfParam("f")
	c := &vfCFF{chars: make([][]byte, n+4), charset: []byte{byte(f)}}
	for i := range c.chars {
		c.chars[i] = []byte{14}
	}
	var sids []int
	for i := 0; i < 3; i++ {
		sids = append(sids, 300+2*i)
	}
	sids[2] = vfConc(vfInt("sid", 387, 389))
	run := func(s, k int) {
		for 0 < k {
			m := k
			if f == 0 {
				m = 1
			} else if f == 1 && 256 < m {
				m = 256
			}
			c.charset = vf16(c.charset, uint16(s))
			if f == 1 {
				c.charset = append(c.charset, byte(m-1))
			} else if f == 2 {
				c.charset = vf16(c.charset, uint16(m-1))
			}
			s += m
			k -= m
		}
	}
	run(1, n)
	for _, s := range sids {
		run(s, 1)
	}
	s := vfParse(vfCFFFont(c).bytes())
	vfReach("large")
	name := func(sid int) string {
		if sid < len(vfStdStrings) {
			return vfStdStrings[sid]
		}
		return ""
	}
	vfAssert(s.GlyphName(1) == "space" && s.GlyphName(uint16(n)) == name(n) && s.GlyphName(uint16(n-1)) == name(n-1), "name of the charset")
	for i, sid := range sids {
		vfAssert(s.GlyphName(uint16(n+1+i)) == name(sid), "name of the charset")
	}
	vfAssert(s.GlyphName(uint16(vfInt("beyond", n+4, n+4))) == "", "name of a glyph that is not there")
}
