package font

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"syscall"
)

type vfReq struct {
	H string            `json:"h"`
	P map[string]int    `json:"p"`
	M map[string]uint64 `json:"m"`
}

type vfRes struct {
	R     string     `json:"r"`
	Msg   string     `json:"msg,omitempty"`
	Known string     `json:"known,omitempty"`
	Obs   []vfObsRec `json:"obs,omitempty"`
	Reach []string   `json:"reach,omitempty"`
}

func vfRun1(q *vfReq) (res vfRes) {
	vfSt.model, vfSt.params, vfSt.next, vfSt.obs, vfSt.reach, vfSt.allocMax = q.M, q.P, map[string]int{}, nil, nil, 0
	h, ok := vfHarnesses[q.H]
	if !ok {
		return vfRes{R: "error", Msg: "no harness " + q.H}
	}
	var ms0, ms1 runtime.MemStats
	runtime.ReadMemStats(&ms0)
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(vfFail); ok {
				res = vfRes{R: f.kind, Msg: f.msg, Known: f.known}
			} else {
				res = vfRes{R: "panic", Msg: fmt.Sprintf("%v\n%s", r, debug.Stack())}
			}
		}
		runtime.ReadMemStats(&ms1)
		if vfSt.allocMax > 0 && res.R != "assume" && int64(ms1.TotalAlloc-ms0.TotalAlloc) > vfSt.allocMax {
			res = vfRes{R: "alloc", Msg: fmt.Sprintf("allocated %d bytes, bound %d; %s %s", ms1.TotalAlloc-ms0.TotalAlloc, vfSt.allocMax, res.R, res.Msg)}
		}
	}()
	h()
	return vfRes{R: "ok", Obs: vfSt.obs, Reach: vfSt.reach}
}

// VfMain answers replay requests on stdin, one JSON object per line.
func VfMain() {
	lim := syscall.Rlimit{Cur: 16 << 30, Max: 16 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		l, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var q vfReq
		var res vfRes
		if err := json.Unmarshal(l, &q); err != nil {
			res = vfRes{R: "error", Msg: err.Error()}
		} else {
			res = vfRun1(&q)
		}
		b, _ := json.Marshal(res)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}
