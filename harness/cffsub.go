package font

// vfDrawSubr draws a line by an arbitrary displacement.
func vfDrawSubr() []byte {
	return vfCat(vfNum28(int(vfI16("dx"))), vfNum28(int(vfI16("dy"))), []byte{5, 11})
}

func vfSubrBias(n int) int {
	if n >= 33900 {
		return 32768
	} else if n >= 1240 {
		return 1131
	}
	return 107
}

// vfCall calls local or global subroutine i of n.
func vfCall(global bool, i, n int) []byte {
	op := byte(10)
	if global {
		op = 29
	}
	return append(vfNum(i-vfSubrBias(n)), op)
}
