package font

// vfQuery runs every query on an arbitrary glyph; none may panic or loop.
func vfQuery(s *SFNT, g uint16) {
	p := &vfPath{}
	err := s.GlyphPath(p, g, 0, 0, 0, 1, NoHinting)
	a, b, c, d := s.GlyphBounds(g)
	vfObs("outline", vfB2i(err == nil), int64(len(p.op)), int64(a), int64(b), int64(c), int64(d))
	vfQueryMetrics(s, g)
}

func vfQueryMetrics(s *SFNT, g uint16) {
	x, y, z := s.VerticalMetrics()
	vfObs("m", int64(x), int64(y), int64(z), int64(s.UnitsPerEm()), int64(s.NumGlyphs()))
	vfObs("g", int64(s.GlyphAdvance(g)), int64(s.GlyphVerticalAdvance(g)), int64(s.Kerning(g, 1)), int64(s.Kerning(1, g)))
}

func vfQueryNames(s *SFNT, g uint16, r rune, name string) {
	vfObsB("name", []byte(s.GlyphName(g)))
	vfObs("n", int64(s.FindGlyphName(name)), int64(s.GlyphIndex(r)), int64(len(s.GlyphToUnicode(g))))
}
