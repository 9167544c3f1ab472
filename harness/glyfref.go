package font

// Reference decoder for simple glyphs and reference drawing of quadratic contours.

type vfPts struct {
	ends   []int
	on     []bool
	xs, ys []int16
}

// vfRefSimple decodes the record of a simple glyph; ok is false if the data is truncated or inconsistent.
func vfRefSimple(g []byte) (p vfPts, ok bool) {
	n := int(vfGet16(g, 0))
	pos := 10
	last := -1
	for i := 0; i < n; i++ {
		e := int(vfGet16(g, pos))
		if e <= last {
			return p, false
		}
		last = e
		p.ends = append(p.ends, e)
		pos += 2
	}
	if pos+2 > len(g) {
		return p, n == 0
	}
	pos += 2 + int(vfGet16(g, pos))
	var flags []byte
	for len(flags) <= last {
		if pos >= len(g) {
			return p, false
		}
		f := g[pos]
		pos++
		k := 1
		if f&8 != 0 {
			if pos >= len(g) {
				return p, false
			}
			k += vfConc(int(g[pos]))
			pos++
		}
		for ; k > 0; k-- {
			if len(flags) > last {
				return p, false
			}
			flags = append(flags, f)
			p.on = append(p.on, f&1 != 0)
		}
	}
	for axis := 0; axis < 2; axis++ {
		short, same := byte(2)<<axis, byte(16)<<axis
		v := int16(0)
		for _, f := range flags {
			switch {
			case f&short != 0:
				if pos >= len(g) {
					return p, false
				}
				if f&same != 0 {
					v += int16(g[pos])
				} else {
					v -= int16(g[pos])
				}
				pos++
			case f&same == 0:
				if pos+2 > len(g) {
					return p, false
				}
				v += int16(vfGet16(g, pos))
				pos += 2
			}
			if axis == 0 {
				p.xs = append(p.xs, v)
			} else {
				p.ys = append(p.ys, v)
			}
		}
	}
	return p, true
}

// draw emits the path of the contours, scaled by f and moved by (x,y).
func (p vfPts) draw(q *vfPath, x, y, f float64) {
	s := 0
	for _, e := range p.ends {
		on, xs, ys := p.on[s:e+1], p.xs[s:e+1], p.ys[s:e+1]
		s = e + 1
		n := len(on)
		pt := func(i int) (float64, float64) { return x + f*float64(xs[i]), y + f*float64(ys[i]) }
		mid := func(i, j int) (float64, float64) {
			return x + f*(float64(int32(xs[i])+int32(xs[j]))/2), y + f*(float64(int32(ys[i])+int32(ys[j]))/2)
		}
		var order []int
		var sx, sy float64
		switch {
		case on[0]:
			sx, sy = pt(0)
			for i := 1; i < n; i++ {
				order = append(order, i)
			}
		case n == 1:
			continue // a single control point has no outline
		case on[1]:
			sx, sy = pt(1)
			for i := 2; i < n; i++ {
				order = append(order, i)
			}
			order = append(order, 0)
		default:
			sx, sy = mid(0, 1)
			for i := 1; i < n; i++ {
				order = append(order, i)
			}
			order = append(order, 0)
		}
		q.MoveTo(sx, sy)
		c := -1
		for _, i := range order {
			if on[i] {
				ex, ey := pt(i)
				if c < 0 {
					q.LineTo(ex, ey)
				} else {
					cx, cy := pt(c)
					q.QuadTo(cx, cy, ex, ey)
				}
				c = -1
				continue
			}
			if c >= 0 {
				cx, cy := pt(c)
				ex, ey := mid(c, i)
				q.QuadTo(cx, cy, ex, ey)
			}
			c = i
		}
		if c >= 0 {
			cx, cy := pt(c)
			q.QuadTo(cx, cy, sx, sy)
		}
		q.Close()
	}
}

// vfOutline draws a glyph that has to be drawn without error.
func vfOutline(s *SFNT, g uint16) *vfPath {
	p := &vfPath{}
	err := s.GlyphPath(p, g, 0, 0, 0, 1, NoHinting)
	vfAssert(err == nil, "outline of a well-formed glyph is rejected")
	return p
}
