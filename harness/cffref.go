package font

// Reference semantics of Type 2 path operators, written as the expansion into
// relative lines and curves that Adobe Technical Note 5177 gives.

type vfT2 struct {
	op   int
	args []int32
}

var vfT2Ops = []int{5, 6, 7, 8, 27, 26, 31, 30, 24, 25, 256 + 35, 256 + 34, 256 + 36, 256 + 37}

func vfT2Code(op int) []byte {
	if op >= 256 {
		return []byte{12, byte(op - 256)}
	}
	return []byte{byte(op)}
}

// vfT2Valid tells whether n operands are a valid count for the operator.
func vfT2Valid(op, n int) bool {
	switch op {
	case 21:
		return n == 2
	case 22, 4:
		return n == 1
	case 5:
		return n >= 2 && n%2 == 0
	case 6, 7:
		return n >= 1
	case 8:
		return n >= 6 && n%6 == 0
	case 24:
		return n >= 8 && n%6 == 2
	case 25:
		return n >= 8 && n%2 == 0
	case 26, 27, 30, 31:
		return n >= 4 && n%4 <= 1
	case 256 + 34:
		return n == 7
	case 256 + 35:
		return n == 13
	case 256 + 36:
		return n == 9
	case 256 + 37:
		return n == 11
	}
	return false
}

type vfPen struct {
	x, y int32
	p    *vfPath
	open bool
}

func vfFix(v int32) float64 { return 1.0 / 65536.0 * float64(v) }

func (q *vfPen) move(dx, dy int32) {
	if q.open {
		q.p.Close()
	}
	q.open = true
	q.x += dx
	q.y += dy
	q.p.MoveTo(vfFix(q.x), vfFix(q.y))
}

func (q *vfPen) line(dx, dy int32) {
	q.x += dx
	q.y += dy
	q.p.LineTo(vfFix(q.x), vfFix(q.y))
}

func (q *vfPen) curve(a, b, c, d, e, f int32) {
	x1, y1 := q.x+a, q.y+b
	x2, y2 := x1+c, y1+d
	q.x, q.y = x2+e, y2+f
	q.p.CubeTo(vfFix(x1), vfFix(y1), vfFix(x2), vfFix(y2), vfFix(q.x), vfFix(q.y))
}

func (q *vfPen) do(op int, a []int32) {
	switch op {
	case 21:
		q.move(a[0], a[1])
	case 22:
		q.move(a[0], 0)
	case 4:
		q.move(0, a[0])
	case 5:
		for ; len(a) > 0; a = a[2:] {
			q.line(a[0], a[1])
		}
	case 6, 7:
		for i, d := range a {
			if (i%2 == 0) == (op == 6) {
				q.line(d, 0)
			} else {
				q.line(0, d)
			}
		}
	case 8:
		for ; len(a) > 0; a = a[6:] {
			q.curve(a[0], a[1], a[2], a[3], a[4], a[5])
		}
	case 24:
		for ; len(a) > 2; a = a[6:] {
			q.curve(a[0], a[1], a[2], a[3], a[4], a[5])
		}
		q.line(a[0], a[1])
	case 25:
		for ; len(a) > 6; a = a[2:] {
			q.line(a[0], a[1])
		}
		q.curve(a[0], a[1], a[2], a[3], a[4], a[5])
	case 27: // dy1? {dxa dxb dyb dxc}+
		var dy int32
		if len(a)%4 == 1 {
			dy, a = a[0], a[1:]
		}
		for ; len(a) > 0; a = a[4:] {
			q.curve(a[0], dy, a[1], a[2], a[3], 0)
			dy = 0
		}
	case 26: // dx1? {dya dxb dyb dyc}+
		var dx int32
		if len(a)%4 == 1 {
			dx, a = a[0], a[1:]
		}
		for ; len(a) > 0; a = a[4:] {
			q.curve(dx, a[0], a[1], a[2], 0, a[3])
			dx = 0
		}
	case 30, 31:
		hor := op == 31
		for ; len(a) >= 4; a = a[4:] {
			var last int32
			if len(a) == 5 {
				last = a[4]
			}
			if hor {
				q.curve(a[0], 0, a[1], a[2], last, a[3])
			} else {
				q.curve(0, a[0], a[1], a[2], a[3], last)
			}
			hor = !hor
		}
	case 256 + 35:
		q.curve(a[0], a[1], a[2], a[3], a[4], a[5])
		q.curve(a[6], a[7], a[8], a[9], a[10], a[11])
	case 256 + 34: // dx1 dx2 dy2 dx3 dx4 dx5 dx6
		q.curve(a[0], 0, a[1], a[2], a[3], 0)
		q.curve(a[4], 0, a[5], -a[2], a[6], 0)
	case 256 + 36: // dx1 dy1 dx2 dy2 dx3 dx4 dx5 dy5 dx6
		q.curve(a[0], a[1], a[2], a[3], a[4], 0)
		q.curve(a[5], 0, a[6], a[7], a[8], -(a[1] + a[3] + a[7]))
	case 256 + 37: // dx1 dy1 dx2 dy2 dx3 dy3 dx4 dy4 dx5 dy5 d6
		dx := a[0] + a[2] + a[4] + a[6] + a[8]
		dy := a[1] + a[3] + a[5] + a[7] + a[9]
		ax, ay := dx, dy
		if ax < 0 {
			ax = -ax
		}
		if ay < 0 {
			ay = -ay
		}
		q.curve(a[0], a[1], a[2], a[3], a[4], a[5])
		if ax > ay {
			q.curve(a[6], a[7], a[8], a[9], a[10], -dy)
		} else {
			q.curve(a[6], a[7], a[8], a[9], -dx, a[10])
		}
	}
}

func vfT2Path(ops []vfT2) *vfPath {
	q := &vfPen{p: &vfPath{}}
	for _, o := range ops {
		q.do(o.op, o.args)
	}
	if q.open {
		q.p.Close()
	}
	return q.p
}

// vfNoIdleClose drops Close commands without an open contour.
func vfNoIdleClose(p *vfPath) {
	var op []int
	open := false
	for _, o := range p.op {
		if o == 1 {
			open = true
		} else if o == 5 {
			if !open {
				continue
			}
			open = false
		}
		op = append(op, o)
	}
	p.op = op
}
