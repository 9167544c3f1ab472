package font

// Fonts with one table of arbitrary bytes.

var vfTabNames = []string{"head", "hhea", "vhea", "maxp", "hmtx", "vmtx", "name", "post", "OS/2", "kern", "cmap", "loca"}

// vfTabFont is a two-glyph font whose table t is raw.
func vfTabFont(t int, raw []byte) *vfFont {
	f := &vfFont{glyphs: vfTris(2)}
	if len(raw) == 0 {
		raw = vfNone
		f.extra = []vfTab{{vfTabNames[t], nil}}
	}
	if t == 2 || t == 5 {
		f.vhea = vf16s(1, 0, 1, 2, 3, 1000, 0, 0, 1000, 1, 0, 0, 0, 0, 0, 0, 0, 1)
		f.vmtx = vf16s(1000, 5, 7)
	}
	switch t {
	case 0:
		f.head = raw
	case 1:
		f.hhea = raw
	case 2:
		f.vhea = raw
	case 3:
		f.maxp = raw
	case 4:
		f.hmtx = raw
	case 5:
		f.vmtx = raw
	case 6:
		f.name = raw
	case 7:
		f.post = raw
	case 8:
		f.os2 = raw
	case 9:
		f.kern = raw
	case 10:
		f.cmap = raw
	case 11:
		f.loca = raw
	}
	return f
}

// vfCmapSub is a cmap table with one Unicode subtable whose bytes after the format are raw.
func vfCmapSub(format uint16, raw []byte) []byte {
	return vfCmap(3, 10, append(vf16(nil, format), raw...))
}
