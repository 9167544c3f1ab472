package font

// vfSameGlyph compares the outline, bounds and (for simple glyphs) instructions and overlap flag of two glyphs.
func vfSameGlyph(a *SFNT, g uint16, b *SFNT, h uint16, what string) {
	p, q := &vfPath{}, &vfPath{}
	ea := a.GlyphPath(p, g, 0, 0, 0, 1, NoHinting)
	eb := b.GlyphPath(q, h, 0, 0, 0, 1, NoHinting)
	vfAssert((ea == nil) == (eb == nil), "glyph is drawable in only one font "+what)
	if ea != nil {
		vfReach("bad")
		return
	}
	vfObsPath("p", q)
	vfAssert(len(p.op) == len(q.op) && len(p.c) == len(q.c), "number of path commands "+what)
	vfAssert(vfSamePath(p, q), "outline "+what)
	a0, a1, a2, a3 := a.GlyphBounds(g)
	b0, b1, b2, b3 := b.GlyphBounds(h)
	vfAssert(a0 == b0 && a1 == b1 && a2 == b2 && a3 == b3, "bounds "+what)
	vfReach("same")
}

// vfInstr returns the instructions and the flag of the first point of a simple glyph record.
func vfInstr(b []byte) ([]byte, byte) {
	n := int(vfGet16(b, 0))
	p := 10 + 2*n
	l := int(vfGet16(b, p))
	return b[p+2 : p+2+l], b[p+2+l]
}

func vfSubset(s *SFNT, list []uint16, tables []string) *SFNT {
	sub, err := s.Subset(append([]uint16{}, list...), SubsetOptions{Tables: tables})
	vfAssert(err == nil, "subsetting failed")
	return sub
}

func vfTables(how int) []string {
	switch how {
	case 1:
		return KeepMinTables
	case 2:
		return KeepPDFTables
	}
	return KeepAllTables
}

// vfReparse writes and parses a font (a PDF subset as an embedded font).
func vfReparse(s *SFNT, how int) *SFNT {
	if how == 2 {
		t, err := ParseEmbeddedSFNT(s.Write(), 0)
		vfAssert(err == nil, "written subset is rejected")
		return t
	}
	return vfParse(s.Write())
}
