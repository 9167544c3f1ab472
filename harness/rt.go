package font

// Runtime of the harnesses. The symbolic engine replaces every vf* function by
// an intrinsic; the bodies below are used for native replay of a model.

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"

	"github.com/andybalholm/brotli"
)

type vfObsRec struct {
	T string  `json:"t"`
	V []int64 `json:"v"`
}

type vfFail struct{ kind, msg, known string }

var vfSt struct {
	model    map[string]uint64
	params   map[string]int
	next     map[string]int
	obs      []vfObsRec
	reach    []string
	allocMax int64
}

func vfGet(name string) uint64 {
	k := vfSt.next[name]
	vfSt.next[name] = k + 1
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	return vfSt.model[name]
}

func vfU8(name string) uint8   { return uint8(vfGet(name)) }
func vfU16(name string) uint16 { return uint16(vfGet(name)) }
func vfU32(name string) uint32 { return uint32(vfGet(name)) }
func vfU64(name string) uint64 { return vfGet(name) }
func vfI8(name string) int8    { return int8(vfGet(name)) }
func vfI16(name string) int16  { return int16(vfGet(name)) }
func vfI32(name string) int32  { return int32(vfGet(name)) }
func vfI64(name string) int64  { return int64(vfGet(name)) }
func vfBool(name string) bool  { return vfGet(name) != 0 }

// vfInt is an arbitrary integer with lo <= v <= hi.
func vfInt(name string, lo, hi int) int {
	if lo == hi {
		return lo
	}
	v := int(vfGet(name)) + lo
	if v < lo || v > hi {
		panic(vfFail{kind: "assume", msg: name})
	}
	return v
}

// vfBytes are n arbitrary bytes.
func vfBytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(vfGet(name))
	}
	return b
}

func vfAssume(c bool) {
	if !c {
		panic(vfFail{kind: "assume"})
	}
}

func vfAssert(c bool, msg string) {
	if !c {
		panic(vfFail{kind: "assert", msg: msg})
	}
}

// vfKnown is an assertion whose failure is recorded in known-findings.jsonl under id.
func vfKnown(c bool, msg, id string) {
	if !c {
		panic(vfFail{kind: "known", msg: msg, known: id})
	}
}

func vfReach(tag string) { vfSt.reach = append(vfSt.reach, tag) }

func vfObs(tag string, v ...int64) {
	vfSt.obs = append(vfSt.obs, vfObsRec{tag, append([]int64(nil), v...)})
}

func vfObsB(tag string, b []byte) {
	o := vfObsRec{T: tag}
	for _, x := range b {
		o.V = append(o.V, int64(x))
	}
	vfSt.obs = append(vfSt.obs, o)
}

func vfParam(name string) int {
	v, ok := vfSt.params[name]
	if !ok {
		panic("missing parameter " + name)
	}
	return v
}

// vfConc splits the exploration over the values of v.
func vfConc(v int) int { return v }

// vfMapOrder sets the map iteration order: 0 insertion, 1 reverse, 2 every order.
func vfMapOrder(mode int) {}

// vfAllocMax bounds a single allocation until the end of the harness.
func vfAllocMax(n int) { vfSt.allocMax = int64(n) }

func vfZlib(b []byte) []byte {
	var w bytes.Buffer
	z, _ := zlib.NewWriterLevel(&w, 9)
	z.Write(b)
	z.Close()
	return w.Bytes()
}

func vfBrotli(b []byte) []byte {
	var w bytes.Buffer
	z := brotli.NewWriterLevel(&w, 5)
	z.Write(b)
	z.Close()
	return w.Bytes()
}

func vfUnbrotli(b []byte) []byte {
	r, err := io.ReadAll(brotli.NewReader(bytes.NewReader(b)))
	if err != nil {
		return nil
	}
	return r
}

func vfNative() bool { return true }
