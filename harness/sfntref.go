package font

// vfReorder lays out the font's tables, with the table data in reverse order when rev is set.
func vfReorder(f *vfFont, rev bool) []byte {
	b := f.bytes()
	n := int(vfGet16(b, 4))
	// sort the directory (the extra tables are appended)
	type rec struct {
		tag      string
		off, len int
	}
	var rs []rec
	for i := 0; i < n; i++ {
		p := 12 + 16*i
		r := rec{string(b[p : p+4]), int(vfGet32(b, p+8)), int(vfGet32(b, p+12))}
		k := len(rs)
		rs = append(rs, r)
		for k > 0 && rs[k-1].tag > r.tag {
			rs[k] = rs[k-1]
			k--
		}
		rs[k] = r
	}
	var data []byte
	offs := make([]int, n)
	for j := 0; j < n; j++ {
		i := j
		if rev {
			i = n - 1 - j
		}
		offs[i] = 12 + 16*n + len(data)
		data = append(data, b[rs[i].off:rs[i].off+rs[i].len]...)
		for len(data)&3 != 0 {
			data = append(data, 0)
		}
	}
	o := append([]byte{}, b[:12]...)
	for i, r := range rs {
		o = append(o, r.tag...)
		o = vf32(o, 0)
		o = vf32(o, uint32(offs[i]))
		o = vf32(o, uint32(r.len))
	}
	return append(o, data...)
}

func vfWords(b []byte, lo, hi int) uint32 {
	var s uint32
	for i := lo; i < hi; i += 4 {
		s += vfGet32(b, i)
	}
	return s
}

// vfCheckFile asserts that b is a well-formed SFNT file with correct checksums.
func vfCheckFile(b []byte, hasHead bool) {
	vfAssert(len(b) >= 12, "file too short")
	v := vfGet32(b, 0)
	vfAssert(v == 0x00010000 || v == 0x4F54544F, "bad version")
	n := int(vfGet16(b, 4))
	es := 0
	for 2<<uint(es) <= n {
		es++
	}
	vfAssert(int(vfGet16(b, 6)) == 16<<uint(es) && int(vfGet16(b, 8)) == es && int(vfGet16(b, 10)) == 16*n-16<<uint(es), "search fields of the header")
	vfAssert(len(b)&3 == 0, "file length")
	end := 12 + 16*n
	vfAssert(end <= len(b), "directory out of bounds")
	last := ""
	head := -1
	for i := 0; i < n; i++ {
		p := 12 + 16*i
		tag := string(b[p : p+4])
		off, l := int(vfGet32(b, p+8)), int(vfGet32(b, p+12))
		vfAssert(last < tag, "directory not sorted")
		last = tag
		vfAssert(off&3 == 0, "table not aligned")
		vfAssert(12+16*n <= off && off+l <= len(b), "table out of bounds")
		for j := 0; j < i; j++ {
			o2, l2 := int(vfGet32(b, 12+16*j+8)), int(vfGet32(b, 12+16*j+12))
			vfAssert(off >= o2+l2 || o2 >= off+l, "tables overlap")
		}
		pad := (l + 3) &^ 3
		for k := off + l; k < off+pad; k++ {
			vfAssert(b[k] == 0, "padding not zero")
		}
		sum := vfWords(b, off, off+pad)
		if tag == "head" {
			head = off
			sum -= vfGet32(b, off+8)
		}
		vfAssert(vfGet32(b, p+4) == sum, "table checksum")
		end += pad
	}
	vfAssert(end == len(b), "gaps between tables")
	vfAssert((head >= 0) == hasHead, "head table")
	if head >= 0 {
		vfAssert(vfWords(b, 0, len(b)) == 0xB1B0AFBA, "whole-file checksum")
	}
}

// vfSameTables compares the tables of two files, apart from the adjusted fields of head.
func vfSameTables(in, out map[string][]byte) {
	vfAssert(len(in) == len(out), "number of tables")
	for tag, d := range in {
		o, ok := out[tag]
		vfAssert(ok, "table lost")
		vfAssert(len(o) == len(d), "table length")
		if tag == "head" {
			vfAssert(string(o[:8])+string(o[12:28])+string(o[36:]) == string(d[:8])+string(d[12:28])+string(d[36:]), "head contents")
		} else {
			vfAssert(string(o) == string(d), "table contents")
		}
	}
}
