package font

// WOFF, WOFF2 and EOT containers.

// vfWOFFTab is a table of a WOFF file: comp is what is stored, orig the length and sum the checksum the directory gives.
type vfWOFFTab struct {
	tag  string
	comp []byte
	orig uint32
	sum  uint32
}

func vfStored(tag string, data []byte) vfWOFFTab {
	return vfWOFFTab{tag, data, uint32(len(data)), vfSum(data)}
}

func vfPacked(tag string, data []byte) vfWOFFTab {
	return vfWOFFTab{tag, vfZlib(data), uint32(len(data)), vfSum(data)}
}

// vfWOFF lays the tables out in the given order, from byte offset pad after the directory.
func vfWOFF(flavor uint32, tabs []vfWOFFTab, meta []byte) []byte {
	total := uint32(12 + 16*len(tabs))
	size := 44 + 20*len(tabs)
	for _, t := range tabs {
		total += (t.orig + 3) &^ 3
		size += (len(t.comp) + 3) &^ 3
	}
	metaOff := 0
	if len(meta) > 0 {
		metaOff = size
		size += len(meta)
	}
	b := []byte("wOFF")
	b = vf32(b, flavor)
	b = vf32(b, uint32(size))
	b = vf16(b, uint16(len(tabs)))
	b = vf16(b, 0)
	b = vf32(b, total)
	b = vf32(b, 0x00010000)
	b = vf32(b, uint32(metaOff))
	b = vf32(b, uint32(len(meta)))
	b = vf32(b, uint32(len(meta)))
	b = vf32(b, 0)
	b = vf32(b, 0)
	off := 44 + 20*len(tabs)
	for _, t := range tabs {
		b = append(b, t.tag...)
		b = vf32(b, uint32(off))
		b = vf32(b, uint32(len(t.comp)))
		b = vf32(b, t.orig)
		b = vf32(b, t.sum)
		off += (len(t.comp) + 3) &^ 3
	}
	for _, t := range tabs {
		b = append(b, t.comp...)
		for len(b)&3 != 0 {
			b = append(b, 0)
		}
	}
	return append(b, meta...)
}

// vfEOT builds an EOT file; strs are the family, style, version and full name and, for later versions, the root string.
func vfEOT(version, flags uint32, strs [][]byte, sig, eudc, data []byte) []byte {
	le32 := func(b []byte, v uint32) []byte { return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24)) }
	le16 := func(b []byte, v int) []byte { return append(b, byte(v), byte(v>>8)) }
	b := le32(nil, 0)
	b = le32(b, uint32(len(data)))
	b = le32(b, version)
	b = le32(b, flags)
	b = append(b, make([]byte, 12)...)
	b = le32(b, 400)
	b = le16(b, 0)
	b = append(b, 0x4C, 0x50)
	b = append(b, make([]byte, 24)...)
	b = le32(b, 0x12345678)
	b = append(b, make([]byte, 16)...)
	for _, s := range strs {
		b = le16(b, 0)
		b = le16(b, len(s))
		b = append(b, s...)
	}
	if version == 0x00020002 {
		b = le32(b, 0xAABBCCDD)
		b = le32(b, 1252)
		b = le16(b, 0)
		b = le16(b, len(sig))
		b = append(b, sig...)
		b = le32(b, 0)
		b = le32(b, uint32(len(eudc)))
		b = append(b, eudc...)
	}
	b = append(b, data...)
	copy(b, le32(nil, uint32(len(b))))
	return b
}

// The known table tags of the WOFF2 specification in order.
const vfW2Tags = "cmapheadhheahmtxmaxpnameOS/2postcvt fpgmglyflocaprepCFF VORGEBDTEBLCgasphdmxkernLTSHPCLTVDMXvheavmtxBASEGDEFGPOSGSUBEBSCJSTFMATHCBDTCBLCCOLRCPALSVG sbixacntavarbdatblocbslncvarfdscfeatfmtxfvargvarhstyjustlcarmortmorxopbdproptrakZapfSilfGlatGlocFeatSill"

// vfW2Tab is a table of a WOFF2 file; a transformed one has its transformed data and orig as original length.
type vfW2Tab struct {
	tag   string
	data  []byte
	tv    int
	trans bool
	orig  uint32
}

func vfB128(b []byte, v uint32) []byte {
	for i := 4; i > 0; i-- {
		if v>>(7*uint(i)) != 0 {
			b = append(b, byte(v>>(7*uint(i)))|0x80)
		}
	}
	return append(b, byte(v&0x7F))
}

func vf255(b []byte, v uint16) []byte {
	switch {
	case v < 253:
		return append(b, byte(v))
	case v < 506:
		return append(b, 255, byte(v-253))
	case v < 762:
		return append(b, 254, byte(v-506))
	}
	return append(b, 253, byte(v>>8), byte(v))
}

func vfW2Dir(tabs []vfW2Tab) []byte {
	var b []byte
	for _, t := range tabs {
		k := 63
		for i := 0; i < 63; i++ {
			if vfW2Tags[4*i:4*i+4] == t.tag {
				k = i
				break
			}
		}
		b = append(b, byte(t.tv<<6|k))
		if k == 63 {
			b = append(b, t.tag...)
		}
		b = vfB128(b, t.orig)
		if t.trans {
			b = vfB128(b, uint32(len(t.data)))
		}
	}
	return b
}

func vfW2Plain(tag string, data []byte) vfW2Tab {
	return vfW2Tab{tag, data, 0, false, uint32(len(data))}
}

// vfW2File puts a directory and compressed data into a file with the given padding after them.
func vfW2File(flavor uint32, n int, dir, comp []byte, pad int) []byte {
	b := []byte("wOF2")
	b = vf32(b, flavor)
	b = vf32(b, uint32(48+len(dir)+len(comp)+pad))
	b = vf16(b, uint16(n))
	b = vf16(b, 0)
	b = vf32(b, 1000)
	b = vf32(b, uint32(len(comp)))
	b = append(b, make([]byte, 24)...)
	b = append(b, dir...)
	b = append(b, comp...)
	return append(b, make([]byte, pad)...)
}

func vfW2(flavor uint32, tabs []vfW2Tab) []byte {
	var data []byte
	for _, t := range tabs {
		data = append(data, t.data...)
	}
	dir, comp := vfW2Dir(tabs), vfBrotli(data)
	return vfW2File(flavor, len(tabs), dir, comp, (4-(len(dir)+len(comp))&3)&3)
}

// vfW2Glyf are the streams of a transformed glyf table.
type vfW2Glyf struct {
	ng, long, opt                                                      int
	nContours, nPoints, flags, glyphs, comps, bits, boxes, instr, over []byte
}

func (g *vfW2Glyf) bytes() []byte {
	b := vf16s(0, uint16(g.opt), uint16(g.ng), uint16(g.long))
	if g.bits == nil {
		g.bits = make([]byte, (g.ng+31)/32*4)
	}
	for _, s := range [][]byte{g.nContours, g.nPoints, g.flags, g.glyphs, g.comps, append(append([]byte(nil), g.bits...), g.boxes...), g.instr} {
		b = vf32(b, uint32(len(s)))
	}
	return vfCat(b, g.nContours, g.nPoints, g.flags, g.glyphs, g.comps, g.bits, g.boxes, g.instr, g.over)
}

func vfLocaLen(ng, long int) uint32 { return uint32((ng + 1) * 2 * (1 + long)) }

// vfW2Font is a font with a transformed glyf table and the given other tables.
func vfW2Font(ng, long int, glyf []byte, hmtx vfW2Tab, head, hhea, maxp []byte) []byte {
	if head == nil {
		head = vfHead(long != 0)
		head[16] |= 8
	}
	if hhea == nil {
		hhea = vfHhea(ng)
	}
	if maxp == nil {
		maxp = vfMaxp(ng)
	}
	tabs := []vfW2Tab{vfW2Plain("OS/2", vfOS2(4)), vfW2Plain("cmap", vfCmap(3, 10, vfCmap12())), {"glyf", glyf, 0, true, uint32(len(glyf))}, vfW2Plain("head", head), vfW2Plain("hhea", hhea), hmtx, {"loca", nil, 0, true, vfLocaLen(ng, long)}, vfW2Plain("maxp", maxp), vfW2Plain("name", vfName()), vfW2Plain("post", vfPost3())}
	return vfW2(0x00010000, tabs)
}

// vfW2Hmtx is an untransformed metrics table of ng records.
func vfW2Hmtx(ng int) vfW2Tab {
	var h []byte
	for i := 0; i < ng; i++ {
		h = vf16(vf16(h, uint16(500+10*i)), uint16(7*i))
	}
	return vfW2Plain("hmtx", h)
}
