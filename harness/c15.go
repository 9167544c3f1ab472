package font

//vf:use kit.go woffkit.go sfntref.go

// vfHeadAny is a head table with arbitrary contents; with packed only some fields are, so that it compresses well.
func vfHeadAny(long, packed bool) []byte {
	h := vfHead(long)
	if packed {
		copy(h[8:12], vfBytes("head.a", 4))
		copy(h[20:36], make([]byte, 16))
		copy(h[34:40], vfBytes("head.b", 6))
		return h
	}
	copy(h[4:12], vfBytes("head.a", 8))
	copy(h[18:50], vfBytes("head.b", 32))
	return h
}

// vfWOFFSum sets the checksum of a head table, which is taken with a zero adjustment.
func vfWOFFSum(t vfWOFFTab, data []byte) vfWOFFTab {
	d := append([]byte(nil), data...)
	copy(d[8:12], make([]byte, 4))
	t.sum = vfSum(d)
	return t
}

// vfDataOf is a table of n arbitrary bytes, or one that compresses well.
func vfDataOf(name string, n int, packed bool) []byte {
	if packed {
		b := make([]byte, n)
		copy(b, vfBytes(name, 3))
		copy(b[n-2:], vfBytes(name, 2))
		return b
	}
	return vfBytes(name, n)
}

func vfWOFFTabOf(tag string, data []byte, packed bool) vfWOFFTab {
	var t vfWOFFTab
	if packed {
		t = vfPacked(tag, data)
	} else {
		t = vfStored(tag, data)
	}
	if tag == "head" {
		t = vfWOFFSum(t, data)
	}
	return t
}

func vfCheckWOFF(b []byte, in map[string][]byte, flavor uint32) {
	saved := append([]byte(nil), b...)
	out, err := ParseWOFF(b)
	vfAssert(err == nil, "well-formed file rejected")
	out2, err := ToSFNT(b)
	vfAssert(err == nil && string(out) == string(out2), "ToSFNT differs from ParseWOFF")
	vfAssert(string(saved) == string(b), "input changed")
	vfAssert(vfGet32(out, 0) == flavor, "version")
	vfCheckFile(out, true)
	vfSameTables(in, vfDir(out))
	h, h2 := in["head"], vfDir(out)["head"]
	vfAssert(string(h[28:36]) == string(h2[28:36]), "head dates")
	vfObsB("out", out)
	vfReach("ok")
}

// WOFF files with a head table (h: compressed) and tables of n and m arbitrary bytes, k: bit mask of which of these are
// compressed, order of the table data (bit 2) and a metadata block (bit 3). Compressed tables are smaller than the original
// (longer tables with arbitrary parts).
//
//vf:quick h=0,1 n=0..9 m=0..3 k=0
//vf:quick h=0,1 n=24..28 m=0..5 k=1
//vf:quick h=1 n=0..4 m=24..27 k=2,6,14
//vf:quick h=0,1 n=25..27 m=24..27 k=3,7,11,15
//vf:quick h=0 n=0..5 m=1..4 k=4,8,12
//vf:thorough h=0,1 n=10..40 m=0..12/3 k=0,4,8,12
//vf:thorough h=0,1 n=29..60 m=24..28 k=3,7,11,15
//vf:opt reach=ok
func vhWOFF() {
	k := vfParam("k")
	head := vfHeadAny(false, vfParam("h") != 0)
	n, m := vfDataOf("n", vfParam("n"), k&1 != 0), vfDataOf("m", vfParam("m"), k&2 != 0)
	in := map[string][]byte{"AAAA": n, "head": head, "zz z": m}
	fl := uint32(0x00010000)
	if k&8 != 0 {
		fl = 0x4F54544F
	}
	tabs := []vfWOFFTab{vfWOFFTabOf("AAAA", n, k&1 != 0), vfWOFFTabOf("head", head, vfParam("h") != 0), vfWOFFTabOf("zz z", m, k&2 != 0)}
	var meta []byte
	if k&8 != 0 {
		meta = vfBytes("meta", 5)
	}
	b := vfWOFF(fl, tabs, meta)
	if k&4 != 0 {
		// data of the last table first
		b = b[:44+60]
		for i := 2; i >= 0; i-- {
			b[44+20*i+4], b[44+20*i+5], b[44+20*i+6], b[44+20*i+7] = 0, 0, byte(len(b)>>8), byte(len(b))
			b = append(b, tabs[i].comp...)
			for len(b)&3 != 0 {
				b = append(b, 0)
			}
		}
		if len(meta) > 0 {
			copy(b[24:28], vf32(nil, uint32(len(b))))
			b = append(b, meta...)
		}
	}
	vfCheckWOFF(b, in, fl)
}

// WOFF files with t tables of three arbitrary bytes around the head table (header search fields, padding).
//
//vf:quick t=0..18
//vf:thorough t=19..40
//vf:opt reach=ok
func vhWOFFMany() {
	t := vfParam("t")
	in := map[string][]byte{}
	var tabs []vfWOFFTab
	head := vfHeadAny(true, true)
	for i := 0; i < t; i++ {
		tag := string([]byte{byte('0' + i*2), 'a', 'b', 'c'})
		if i*2 >= 0x38 && (i-1)*2 < 0x38 {
			in["head"] = head
			tabs = append(tabs, vfWOFFTabOf("head", head, true))
		}
		d := vfBytes("d", 3)
		in[tag] = d
		tabs = append(tabs, vfStored(tag, d))
	}
	if in["head"] == nil {
		in["head"] = head
		tabs = append(tabs, vfWOFFTabOf("head", head, false))
	}
	vfCheckWOFF(vfWOFF(0x00010000, tabs, nil), in, 0x00010000)
}

// A WOFF file with a wrong directory checksum or with compressed data shorter or longer than the directory says is rejected;
// any file that is accepted gives the original checksums, lengths and contents.
//
//vf:quick k=0..3
//vf:opt reach=err
func vhWOFFBad() {
	k := vfParam("k")
	head := vfHeadAny(false, k == 2)
	z := vfDataOf("z", 25, k > 0)
	tz := vfWOFFTabOf("zzzz", z, k > 0)
	th := vfWOFFTabOf("head", head, k == 2)
	switch k {
	case 0, 1:
		tz.sum = vfU32("sum")
	case 2:
		th.sum = vfU32("sum")
	case 3:
		tz.orig = uint32(vfInt("orig", len(tz.comp)+1, 40))
	}
	tabs := []vfWOFFTab{th, tz}
	if k == 3 {
		tz.sum = vfSum(z)
		tabs[1] = tz
	}
	b := vfWOFF(0x00010000, tabs, nil)
	out, err := ParseWOFF(b)
	if err != nil {
		vfReach("err")
		if k == 3 {
			vfAssert(tz.orig != 25, "well-formed file rejected")
		} else {
			vfAssert(vfNot(tz.sum == vfSum(z) && th.sum == vfWOFFSum(th, head).sum), "well-formed file rejected")
		}
		return
	}
	vfReach("ok")
	vfCheckFile(out, true)
	vfSameTables(map[string][]byte{"head": head, "zzzz": z}, vfDir(out))
}

func vfNot(b bool) bool { return !b }

// WOFF records at any offset: the table of a bytes is found at an arbitrary place within the file, in the presence of another
// table and of a gap. Every accepted file contains the bytes at that place.
//
//vf:quick a=1..5
//vf:opt reach=ok,err
func vhWOFFOffset() {
	a := vfParam("a")
	head := vfHeadAny(false, false)
	th := vfWOFFTabOf("head", head, false)
	z := make([]byte, a)
	b := vfWOFF(0x00010000, []vfWOFFTab{th, {"zzzz", z, uint32(a), vfU32("sum")}}, vfBytes("tail", 12))
	copy(b[24:28], make([]byte, 4))
	copy(b[44+40+54:], vfBytes("pad", 2))
	off := vfInt("off", 0, len(b)+4)
	copy(b[44+20+4:], vf32(nil, uint32(off)))
	out, err := ParseWOFF(b)
	if off < 44+40 || off+a > len(b) || off < 44+40+54 {
		vfReach("err")
		vfAssert(err != nil, "table outside of the file or over another one accepted")
		return
	}
	if err == nil {
		vfReach("ok")
		vfCheckFile(out, true)
		vfSameTables(map[string][]byte{"head": head, "zzzz": b[off : off+a]}, vfDir(out))
	}
}

// EOT files of each version with strings of arbitrary bytes (one of them of arbitrary length), signature and EUDC data, and d
// bytes of font data, with x: 0 plain, 1 encrypted, and t trailing bytes.
//
//vf:quick v=0..2 d=1,4 x=0,1 t=0..1
//vf:quick v=0..2 d=7 x=1 t=3
//vf:thorough v=0..2 d=2,3,5,16,100 x=0,1 t=0,1,5
//vf:opt reach=ok
func vhEOT() {
	v := vfParam("v")
	ver := [3]uint32{0x00010000, 0x00020001, 0x00020002}[v]
	ns := 4
	if v > 0 {
		ns = 5
	}
	data := vfBytes("data", vfParam("d"))
	flags := vfU32("flags")
	vfAssume(flags&4 == 0)
	vfAssume((flags&0x10000000 != 0) == (vfParam("x") == 1))
	enc := append([]byte(nil), data...)
	if vfParam("x") == 1 {
		for i := range enc {
			enc[i] ^= 0x50
		}
	}
	var sig, eudc []byte
	big := vfConc(vfInt("big", 0, ns-1+2*(v/2)))
	size := vfConc(vfInt("size", 0, 3))
	strs := make([][]byte, ns)
	for i := range strs {
		n := 1
		if i == big {
			n = size
		}
		strs[i] = vfBytes("str", n)
	}
	if v == 2 {
		sig, eudc = vfBytes("sig", 1), vfBytes("eudc", 2)
		if big == ns {
			sig = vfBytes("sig", size)
		} else if big == ns+1 {
			eudc = vfBytes("eudc", size)
		}
	}
	b := vfEOT(ver, flags, strs, sig, eudc, enc)
	copy(b[16:34], vfBytes("hdr", 18))
	copy(b[36:80], vfBytes("hdr2", 44))
	b = append(b, vfBytes("trail", vfParam("t"))...)
	sniff := b[3] | b[0] // EOTSize is small, so the data is not taken for an SFNT
	_ = sniff
	saved := append([]byte(nil), b...)
	out, err := ParseEOT(b)
	vfAssert(err == nil, "well-formed file rejected")
	vfAssert(string(out) == string(data), "font data")
	out2, err := ToSFNT(b)
	vfAssert(err == nil && string(out2) == string(data), "ToSFNT differs")
	vfAssert(string(b) == string(saved), "input changed")
	vfObsB("out", out)
	vfReach("ok")
}

// EOT files with compressed font data (which is not supported) are errors, whatever the other flags.
//
//vf:quick v=0..2
//vf:opt reach=ok
func vhEOTCompressed() {
	v := vfParam("v")
	ns := 4
	if v > 0 {
		ns = 5
	}
	b := vfEOT([3]uint32{0x00010000, 0x00020001, 0x00020002}[v], vfU32("flags")|4, make([][]byte, ns), nil, nil, vfBytes("data", 5))
	out, err := ParseEOT(b)
	vfAssert(err != nil && out == nil, "compressed data returned as font data")
	_, err = ToSFNT(b)
	vfAssert(err != nil, "compressed data returned as font data")
	vfReach("ok")
}

// EOT files with one long string of s bytes.
//
//vf:quick v=0..2 s=255,256,257,1000
//vf:thorough v=0..2 s=32767,32768,65535
//vf:opt reach=ok
func vhEOTLong() {
	v := vfParam("v")
	ver := [3]uint32{0x00010000, 0x00020001, 0x00020002}[v]
	ns := 4
	if v > 0 {
		ns = 5
	}
	data := vfBytes("data", 5)
	strs := make([][]byte, ns)
	k := vfConc(vfInt("k", 0, ns-1))
	strs[k] = make([]byte, vfParam("s"))
	var sig, eudc []byte
	if v == 2 {
		sig, eudc = make([]byte, vfParam("s")), make([]byte, 65536+vfParam("s"))
	}
	b := vfEOT(ver, 0, strs, sig, eudc, data)
	out, err := ParseEOT(b)
	vfAssert(err == nil, "well-formed file rejected")
	vfAssert(string(out) == string(data), "font data")
	vfReach("ok")
}
