package font

// Reference lookup on the raw subtable bytes (s starts at the format field); ng is the glyph count.
func vfCmapRef(s []byte, r int32) uint16 {
	switch vfGet16(s, 0) {
	case 0:
		if 0 <= r && r < 256 {
			return uint16(s[6+r])
		}
		return 0
	case 4:
		n := int(vfGet16(s, 6)) / 2
		ends, starts, deltas, offs := 14, 16+2*n, 16+4*n, 16+6*n
		if r < 0 || r > 0xFFFF {
			return 0
		}
		for i := 0; i < n; i++ {
			e, st := int32(vfGet16(s, ends+2*i)), int32(vfGet16(s, starts+2*i))
			if e < r {
				continue
			}
			if r < st {
				return 0
			}
			if r == 0xFFFF {
				return 0 // the closing segment maps to .notdef
			}
			d, o := vfGet16(s, deltas+2*i), int(vfGet16(s, offs+2*i))
			if o == 0 {
				return uint16(r) + d
			}
			pos := offs + 2*i + o + 2*int(r-st)
			for p := offs; p+2 <= len(s); p += 2 {
				if p == pos {
					g := vfGet16(s, p)
					if g == 0 {
						return 0
					}
					return g + d
				}
			}
			vfAssert(false, "accepted segment points outside the subtable")
		}
		return 0
	case 6:
		first, n := int32(vfGet16(s, 6)), int32(vfGet16(s, 8))
		for i := int32(0); i < n; i++ {
			if r == first+i {
				return vfGet16(s, 10+2*int(i))
			}
		}
		return 0
	case 12:
		n := int(vfGet32(s, 12))
		for i := 0; i < n; i++ {
			p := 16 + 12*i
			st, e, g := int64(vfGet32(s, p)), int64(vfGet32(s, p+4)), int64(vfGet32(s, p+8))
			if st <= int64(r) && int64(r) <= e {
				return uint16(g + int64(r) - st)
			}
		}
		return 0
	}
	panic("format")
}

const vfNG = 300

func vfCmapFont(sub []byte) *SFNT {
	f := &vfFont{ng: vfNG, adv: []uint16{500}, lsb: []int16{0}, loca: make([]byte, 2*vfNG+2), glyf: []byte{0, 0, 0, 0}, cmap: vfCmap(3, 10, sub)}
	f.hmtx = make([]byte, 4+2*(vfNG-1))
	s, err := ParseSFNT(f.bytes(), 0)
	if err != nil {
		return nil
	}
	return s
}

// vfManyNG is the number of glyphs of the fonts with large character maps.
const vfManyNG = 60000

// vfManyCmap is a subtable of format f with n segments (format 4 and 12) or entries (6), next to what it maps rune r to.
// Segment i covers 1 to 4 runes from 10i+5 on; in format 4 every third one goes through the glyph array.
func vfManyCmap(f, n int) ([]byte, func(r int) int) {
	gid := func(r int) int {
		i, k := (r-5)/10, (r-5)%10
		if r < 5 || i >= n || k > i%4 {
			return 0
		}
		return 20000 + 3*i + k
	}
	switch f {
	case 4:
		var segs []vfSeg
		var arr []uint16
		for i := 0; i < n; i++ {
			st := 10*i + 5
			g := vfSeg{uint16(st), uint16(st + i%4), uint16(gid(st) - st), 0}
			if i%3 == 1 {
				g.delta = uint16(i)
				g.off = uint16(2 * (n + 1 - i + len(arr)))
				for k := 0; k <= i%4; k++ {
					arr = append(arr, uint16(gid(st+k)-i))
				}
			}
			segs = append(segs, g)
		}
		return vfCmap4(append(segs, vfSeg{0xFFFF, 0xFFFF, 1, 0}), arr), gid
	case 6:
		var arr []uint16
		for i := 0; i < n; i++ {
			arr = append(arr, uint16(50000-i))
		}
		return vfCmap6(300, arr), func(r int) int {
			if r < 300 || r >= 300+n {
				return 0
			}
			return 50000 - (r - 300)
		}
	}
	var gs [][3]uint32
	for i := 0; i < n; i++ {
		st := 10*i + 5
		gs = append(gs, [3]uint32{uint32(st), uint32(st + i%4), uint32(gid(st))})
	}
	return vfCmap12(gs...), gid
}

func vfManyFont(sub []byte) *SFNT {
	f := &vfFont{ng: vfManyNG, adv: []uint16{500}, lsb: []int16{0}, loca: make([]byte, 2*vfManyNG+2), glyf: []byte{0, 0, 0, 0}, cmap: vfCmap(3, 10, sub)}
	f.hmtx = make([]byte, 4+2*(vfManyNG-1))
	return vfParse(f.bytes())
}
