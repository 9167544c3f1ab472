package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Native runs harnesses compiled by the real compiler, for replays.
type Native struct {
	bin   string
	dir   string
	ready chan struct{}
	err   error
	mu    sync.Mutex
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	errb  *bytes.Buffer
	Runs  int
}

type NativeRes struct {
	R     string   `json:"r"`
	Msg   string   `json:"msg,omitempty"`
	Known string   `json:"known,omitempty"`
	Obs   []ObsJ   `json:"obs,omitempty"`
	Reach []string `json:"reach,omitempty"`
	Ms    float64  `json:"ms,omitempty"`
}

func (r *NativeRes) bad() bool {
	switch r.R {
	case "assert", "panic", "alloc", "hang", "crash", "known":
		return true
	}
	return false
}

func (n *Native) start() error {
	<-n.ready
	if n.err != nil {
		return n.err
	}
	n.cmd = exec.Command(n.bin)
	n.cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	n.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var err error
	if n.in, err = n.cmd.StdinPipe(); err != nil {
		return err
	}
	out, err := n.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	n.errb = &bytes.Buffer{}
	n.cmd.Stderr = n.errb
	if err := n.cmd.Start(); err != nil {
		return err
	}
	n.out = bufio.NewReaderSize(out, 1<<20)
	return nil
}

func (n *Native) kill() {
	if n.cmd != nil {
		n.cmd.Process.Kill()
		n.cmd.Wait()
		n.cmd = nil
	}
}

func (n *Native) Run(h string, params map[string]int, model map[string]uint64, timeout time.Duration) *NativeRes {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.cmd == nil {
		if err := n.start(); err != nil {
			return &NativeRes{R: "error", Msg: err.Error()}
		}
	}
	n.Runs++
	req, _ := json.Marshal(map[string]any{"h": h, "p": params, "m": model})
	n.in.Write(append(req, '\n'))
	type rd struct {
		l   string
		err error
	}
	ch := make(chan rd, 1)
	out := n.out
	go func() {
		l, err := out.ReadString('\n')
		ch <- rd{l, err}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			n.cmd.Wait()
			msg := n.errb.String()
			n.cmd = nil
			return &NativeRes{R: "crash", Msg: trunc(msg, 1500)}
		}
		var res NativeRes
		if err := json.Unmarshal([]byte(r.l), &res); err != nil {
			return &NativeRes{R: "error", Msg: "bad reply " + r.l}
		}
		return &res
	case <-time.After(timeout):
		n.kill()
		return &NativeRes{R: "hang", Msg: fmt.Sprintf("no answer after %v", timeout)}
	}
}

// buildNative compiles the replay binary in the background.
func buildNative(repo, dir string, overlay map[string]string, race bool) *Native {
	n := &Native{dir: dir, ready: make(chan struct{}), bin: filepath.Join(dir, "vfnative")}
	go func() {
		defer close(n.ready)
		rep := map[string]string{}
		for v, r := range overlay {
			rep[v] = r
		}
		mainSrc := filepath.Join(dir, "zzvf_main.go")
		os.WriteFile(mainSrc, []byte("package main\n\nimport font \"github.com/tdewolff/font\"\n\nfunc main() { font.VfMain() }\n"), 0o644)
		rep[filepath.Join(repo, "zzvf", "main.go")] = mainSrc
		js, _ := json.Marshal(map[string]any{"Replace": rep})
		ov := filepath.Join(dir, "overlay.json")
		os.WriteFile(ov, js, 0o644)
		mod := filepath.Join(dir, "go.mod")
		for _, f := range []string{"go.mod", "go.sum"} {
			b, err := os.ReadFile(filepath.Join(repo, f))
			if err != nil {
				n.err = err
				return
			}
			os.WriteFile(filepath.Join(dir, f), b, 0o644)
		}
		c := exec.Command("go", "build", "-overlay", ov, "-modfile", mod, "-o", n.bin, "./zzvf")
		c.Dir = repo
		out, err := c.CombinedOutput()
		if err != nil {
			n.err = fmt.Errorf("native build: %v\n%s", err, strings.TrimSpace(string(out)))
		}
	}()
	return n
}
