package font

type vfKernSub struct {
	cov  uint8
	keys []uint32
	vals []int16
}

// vfKernTab is a version 0 kern table with format 0 subtables.
func vfKernTab(subs []vfKernSub) []byte {
	b := vf16s(0, uint16(len(subs)))
	for _, s := range subs {
		n := len(s.keys)
		b = append(b, vf16s(0, uint16(14+6*n))...)
		b = append(b, 0, s.cov)
		sr, es := 1, 0
		for sr*2 <= n {
			sr *= 2
			es++
		}
		b = append(b, vf16s(uint16(n), uint16(6*sr), uint16(es), uint16(6*(n-sr)))...)
		for i, k := range s.keys {
			b = vf32(b, k)
			b = vf16(b, uint16(s.vals[i]))
		}
	}
	return b
}

// vfKernRef combines the horizontal subtables by their coverage flags. It reports whether the pair is listed
// and whether all intermediate sums fit the result type.
func vfKernRef(subs []vfKernSub, l, r uint16) (int16, bool, bool) {
	key := uint32(l)<<16 | uint32(r)
	acc, listed, fits := 0, false, true
	for _, s := range subs {
		horizontal := s.cov&1 != 0
		minimum := s.cov&2 != 0
		cross := s.cov&4 != 0
		override := s.cov&8 != 0
		hit, v := false, 0
		for i, k := range s.keys {
			if k == key {
				hit, v = true, int(s.vals[i])
			}
		}
		use := hit && horizontal && !cross
		n := acc
		if minimum {
			if n < v {
				n = v
			}
		} else if override {
			n = v
		} else {
			n += v
		}
		if use {
			acc = n
		}
		listed = listed || use
		fits = fits && -32768 <= acc && acc <= 32767
	}
	return int16(acc), listed, fits
}
