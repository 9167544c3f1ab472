package font

// C25: type detection.

func vfMediaRef(b []byte) int {
	if len(b) < 4 {
		return 0
	}
	t := uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
	switch t {
	case 0x774F4646:
		return 1
	case 0x774F4632:
		return 2
	case 0x74727565, 0x00010000, 0x74746366:
		return 3
	case 0x4F54544F:
		return 4
	}
	if 36 < len(b) && b[34] == 0x4C && b[35] == 0x50 {
		return 5
	}
	return 0
}

var vfMedia = []string{"", "font/woff", "font/woff2", "font/truetype", "font/opentype", "application/vnd.ms-fontobject"}
var vfExt = []string{"", ".woff", ".woff2", ".ttf", ".otf", ".eot"}

// MediaType and Extension of n arbitrary bytes agree with the signature table.
//
//vf:quick n=0..5
//vf:quick n=34..40
//vf:opt reach=ok,err
func vhMediaType() {
	n := vfParam("n")
	b := vfBytes("b", n)
	want := vfMediaRef(b)
	s, err := MediaType(b)
	if err != nil {
		vfReach("err")
		vfAssert(want == 0, "recognised data rejected by MediaType")
		vfAssert(s == "", "media type with an error")
	} else {
		vfReach("ok")
		vfAssert(want != 0, "unrecognised data accepted by MediaType")
		vfAssert(s == vfMedia[want], "wrong media type")
	}
	vfAssert(Extension(b) == vfExt[want], "wrong extension")
}

// ToSFNT dispatches on the same classification.
//
//vf:quick n=0..4
//vf:quick n=37..40
//vf:opt reach=same,packed,unknown
func vhToSFNT() {
	n := vfParam("n")
	b := vfBytes("b", n)
	want := vfMediaRef(b)
	orig := append([]byte(nil), b...)
	out, err := ToSFNT(b)
	switch want {
	case 3, 4:
		vfReach("same")
		vfAssert(err == nil, "SFNT data rejected")
		vfAssert(len(out) == n, "SFNT data changed length")
		for i := range out {
			vfAssert(out[i] == orig[i], "SFNT data changed")
		}
	case 0:
		vfReach("unknown")
		vfAssert(err != nil, "unrecognised data accepted")
	default:
		vfReach("packed")
		vfAssert(err != nil, "packed header without content accepted")
		p := [6]string{"", "WOFF: ", "WOFF2: ", "", "", "EOT: "}[want]
		m := err.Error()
		vfAssert(len(p) <= len(m) && m[:len(p)] == p, "unpacked by the wrong reader")
	}
}
