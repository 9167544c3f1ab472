package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Harness is one instance (function and parameters) to be explored.
type Harness struct {
	Name      string
	ID        string // name with parameters
	fn        *ssa.Function
	Params    map[string]int
	NoMerge   bool
	Steps     int64
	MaxPaths  int64
	Reach     []string
	IteSym    int
	TimeLimit time.Duration
	HangSec   float64

	paths      atomic.Int64
	assumed    atomic.Int64
	panics     atomic.Int64
	branches   atomic.Int64
	asserts    atomic.Int64
	trivial    atomic.Int64
	steps      atomic.Int64
	incomplete atomic.Int64
	pending    atomic.Int64
	started    time.Time
	finished   time.Time
	cut        atomic.Bool

	mu      sync.Mutex
	reached map[string]bool
	reduced map[string]int
	samples []*Trace
	nsample int
	rngs    uint64
}

func (h *Harness) maxIteSym() int {
	if h.IteSym > 0 {
		return h.IteSym
	}
	return 64
}

type Trace struct {
	Harness string            `json:"harness"`
	Params  map[string]int    `json:"params"`
	Model   map[string]uint64 `json:"model"`
	Obs     []ObsJ            `json:"obs,omitempty"`
}

type ObsJ struct {
	T string  `json:"t"`
	V []int64 `json:"v"`
}

// Work is a decision prefix to be explored.
type Work struct {
	h      *Harness
	prefix []Decision
	model  map[string]uint64
}

type Candidate struct {
	Harness string            `json:"harness"`
	Params  map[string]int    `json:"params"`
	Kind    string            `json:"kind"`
	Msg     string            `json:"msg"`
	Site    string            `json:"site"`
	Model   map[string]uint64 `json:"model"`
	Known   string            `json:"known,omitempty"`
	Native  *NativeRes        `json:"native,omitempty"`
	hid     string
}

type Known struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	Kind     string `json:"kind"`
	Harness  string `json:"harness"`
	Match    string `json:"match"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

type Explorer struct {
	p        *Program
	hs       []*Harness
	ms       []*Machine
	deadline time.Time
	stop     atomic.Bool
	pending  atomic.Int64
	solBin   string
	solMs    int

	mu       sync.Mutex
	notes    map[string]int
	seen     map[string]int
	found    *Candidate
	unconf   []*Candidate
	knownHit map[string]*Candidate
	knowns   []Known
	cross    []string
	ncross   int
	maxCross int
	nat      *Native
	natMu    sync.Mutex
	verbose  bool
	funcs    map[string]int64
	engErr   []string
	prop     string
	seed     uint64
}

func (ex *Explorer) note(s string) {
	ex.mu.Lock()
	ex.notes[s]++
	ex.mu.Unlock()
}

func (ex *Explorer) reduce(h *Harness, why string) {
	h.mu.Lock()
	h.reduced[why]++
	n := h.reduced[why]
	h.mu.Unlock()
	if ex.verbose && n <= 3 {
		fmt.Fprintf(os.Stderr, "  [%s] reduced: %s\n", h.ID, why)
	}
}

func (ex *Explorer) countBranch(m *Machine) { m.h.branches.Add(1) }
func (ex *Explorer) countAssert(m *Machine, trivial bool) {
	m.h.asserts.Add(1)
	if trivial {
		m.h.trivial.Add(1)
	}
}

func (ex *Explorer) crossCheck(m *Machine, nc *Term) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.ncross++
	if len(ex.cross) >= ex.maxCross {
		// reservoir sampling
		ex.seed = ex.seed*6364136223846793005 + 1442695040888963407
		k := int((ex.seed >> 33) % uint64(ex.ncross))
		if k >= ex.maxCross || ex.maxCross == 0 {
			return
		}
		ex.cross[k] = StandaloneQuery(m.tc, m.pc, nc)
		return
	}
	ex.cross = append(ex.cross, StandaloneQuery(m.tc, m.pc, nc))
}

func (m *Machine) exportModel(model []uint64) map[string]uint64 {
	r := map[string]uint64{}
	pre := m.h.ID + "|"
	for i, v := range m.tc.vars {
		if i < len(model) && model[i] != 0 && strings.HasPrefix(v.name, pre) {
			r[v.name[len(pre):]] = model[i]
		}
	}
	return r
}

func (m *Machine) push(w *Work) {
	w.h = m.h
	m.ex.pending.Add(1)
	w.h.pending.Add(1)
	m.lmu.Lock()
	m.local = append(m.local, w)
	m.lmu.Unlock()
}

func topFn(site string) string {
	if i := strings.IndexByte(site, '('); i >= 0 && !strings.HasPrefix(site, "(") {
		return site[:i]
	}
	if i := strings.Index(site, " < "); i >= 0 {
		site = site[:i]
	}
	if i := strings.LastIndexByte(site, '('); i > 0 {
		return site[:i]
	}
	return site
}

func (ex *Explorer) violation(m *Machine, kind, msg, site string, model []uint64, known string) {
	first := site
	if i := strings.Index(first, " < "); i >= 0 {
		first = first[:i]
	}
	key := m.h.Name + "|" + kind + "|" + msg + "|" + first + "|" + known
	ex.mu.Lock()
	ex.seen[key]++
	n := ex.seen[key]
	ex.mu.Unlock()
	if n > 4 || (kind == "hang" && n > 2) {
		return
	}
	c := &Candidate{Harness: m.h.Name, Params: m.h.Params, Kind: kind, Msg: msg, Site: site, Model: m.exportModel(model), Known: known, hid: m.h.ID}
	ex.confirm(c, m.h)
}

func (ex *Explorer) confirm(c *Candidate, h *Harness) {
	ex.natMu.Lock()
	defer ex.natMu.Unlock()
	if ex.stop.Load() {
		return
	}
	to := 10 * time.Second
	if h.HangSec > 0 {
		to = time.Duration(h.HangSec * float64(time.Second))
	}
	c.Native = ex.nat.Run(c.Harness, c.Params, c.Model, to)
	bad := c.Native.bad()
	if ex.verbose {
		fmt.Fprintf(os.Stderr, "  candidate [%s] %s: %s at %s\n    model %s\n    native: %s %s\n", c.hid, c.Kind, c.Msg, c.Site, modelStr(c.Model, 40), c.Native.R, trunc(c.Native.Msg, 600))
	}
	if !bad {
		if c.Kind == "hang" {
			ex.reduce(h, "step limit")
			return
		}
		ex.mu.Lock()
		ex.unconf = append(ex.unconf, c)
		ex.mu.Unlock()
		return
	}
	if k := ex.knownFor(c); k != nil {
		ex.mu.Lock()
		if ex.knownHit[k.ID] == nil {
			ex.knownHit[k.ID] = c
		}
		ex.mu.Unlock()
		return
	}
	ex.mu.Lock()
	if ex.found == nil {
		ex.found = c
	}
	ex.mu.Unlock()
	if !ex.keepGoing() {
		ex.stop.Store(true)
	}
}

func (ex *Explorer) keepGoing() bool { return os.Getenv("VF_ALL") != "" }

func (ex *Explorer) knownFor(c *Candidate) *Known {
	for i := range ex.knowns {
		k := &ex.knowns[i]
		if k.Property != ex.prop || k.Status == "fixed" {
			continue
		}
		if c.Native.R == "known" {
			if c.Native.Known == k.ID {
				return k
			}
			continue
		}
		if k.Kind == c.Native.R && (k.Harness == "" || k.Harness == c.Harness) && k.Match != "" && (strings.Contains(c.Native.Msg, k.Match)) {
			return k
		}
	}
	return nil
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func modelStr(m map[string]uint64, n int) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for i, k := range ks {
		if i >= n {
			sb.WriteString(" …")
			break
		}
		fmt.Fprintf(&sb, " %s=%#x", k, m[k])
	}
	return sb.String()
}

func newMachine(ex *Explorer) *Machine {
	m := &Machine{p: ex.p, ex: ex, inited: map[*ssa.Package]bool{}, funcs: map[*cfunc]int64{}}
	m.regStack = make([]V, 1<<14)
	m.resetCtx()
	return m
}

func (m *Machine) resetCtx() {
	if m.sol != nil {
		m.addStats()
		m.sol.Close()
	}
	m.tc = NewTermCtx()
	m.sol = NewSolver(m.tc, m.ex.solBin, m.ex.solMs)
}

type solStats struct {
	Queries, Sat, Unsat, Unknown int
	Time                         time.Duration
}

func (m *Machine) addStats() {
	s := m.sol
	m.stats.Queries += s.Queries
	m.stats.Sat += s.NSat
	m.stats.Unsat += s.NUnsat
	m.stats.Unknown += s.NUnk
	m.stats.Time += s.Time
	s.Queries, s.NSat, s.NUnsat, s.NUnk, s.Time = 0, 0, 0, 0, 0
}

func (m *Machine) setModel(mv []uint64) { m.model = mv; m.tc.NewEval() }

func (m *Machine) undoAll() {
	for i := len(m.journal) - 1; i >= 0; i-- {
		j := &m.journal[i]
		if j.f != nil {
			j.f()
		} else {
			*j.c = j.old
		}
	}
	clear(m.journal)
	m.journal = m.journal[:0]
}

func (ex *Explorer) runPath(m *Machine, w *Work) {
	if len(m.tc.terms) > 3_000_000 {
		m.resetCtx()
	}
	h := w.h
	if h.cut.Load() {
		h.incomplete.Add(1)
		return
	}
	m.h = h
	m.pc = m.pc[:0]
	m.pcSet = map[*Term]bool{}
	m.imp = w.model
	m.model = make([]uint64, len(m.tc.vars), len(m.tc.vars)+256)
	pre := h.ID + "|"
	for k, v := range w.model {
		if t, ok := m.tc.byN[pre+k]; ok {
			m.model[t.k] = v
		}
	}
	m.tc.NewEval()
	m.prefix = w.prefix
	m.dpos = 0
	m.trace = make([]Decision, 0, len(w.prefix)+64)
	m.journal = m.journal[:0]
	m.steps = 0
	m.limit = h.Steps
	m.top = nil
	m.depth = 0
	m.spec = 0
	m.obs = nil
	m.reach = nil
	m.nextVar = map[string]int{}
	m.side = nil
	m.regTop = 0
	m.mapOrder = 0
	m.allocMax = 0
	m.initing = 0
	m.pcMergeFail = map[*cblock]int{}
	m.pcShortFail = map[*cblock]int{}
	m.br = map[*V]*brState{}

	kind, msg := "ok", ""
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case *pathAbort:
				kind, msg = x.kind, x.msg
			case *TargetPanic:
				kind, msg = "panic", x.msg
				h.panics.Add(1)
				ex.violation(m, "panic", x.msg, x.site, m.model, "")
			default:
				kind = "engine"
				msg = fmt.Sprint(r) + " at " + m.site()
				st := string(debug.Stack())
				ex.mu.Lock()
				if len(ex.engErr) < 20 {
					ex.engErr = append(ex.engErr, h.ID+": "+msg)
				}
				ex.mu.Unlock()
				if ex.verbose {
					fmt.Fprintf(os.Stderr, "ENGINE ERROR [%s] %s\n%s\n", h.ID, msg, trunc(st, 4000))
				}
			}
		}()
		m.callFn(h.fn, nil, nil, nil)
	}()
	h.steps.Add(m.steps)
	switch kind {
	case "ok":
		n := h.paths.Add(1)
		h.mu.Lock()
		for _, t := range m.reach {
			h.reached[t] = true
		}
		h.nsample++
		take := len(h.samples) < 6
		if !take {
			h.rngs = h.rngs*6364136223846793005 + 1442695040888963407
			if k := int((h.rngs >> 33) % uint64(h.nsample)); k < 24 {
				take = true
			}
		}
		h.mu.Unlock()
		if take {
			t := &Trace{Harness: h.Name, Params: h.Params, Model: m.exportModel(m.model)}
			m.tc.NewEval()
			for _, o := range m.obs {
				oj := ObsJ{T: o.tag}
				for _, v := range o.v {
					switch x := v.r.(type) {
					case nil:
						oj.V = append(oj.V, int64(v.n))
					case *Term:
						r := m.tc.Eval(x, m.model)
						oj.V = append(oj.V, int64(r))
					default:
						oj.V = append(oj.V, -0x7777)
					}
				}
				t.Obs = append(t.Obs, oj)
			}
			h.mu.Lock()
			if len(h.samples) < 24 {
				h.samples = append(h.samples, t)
			} else {
				h.rngs = h.rngs*6364136223846793005 + 1442695040888963407
				h.samples[(h.rngs>>33)%24] = t
			}
			h.mu.Unlock()
		}
		if h.MaxPaths > 0 && n >= h.MaxPaths {
			if !h.cut.Swap(true) {
				ex.reduce(h, "path limit")
			}
		}
	case "assume":
		h.assumed.Add(1)
	case "done", "panic":
		h.paths.Add(1)
	case "deadline":
		h.incomplete.Add(1)
	case "limit":
		h.incomplete.Add(1)
		ex.violation(m, "hang", msg, m.site(), m.model, "")
	default:
		h.incomplete.Add(1)
		ex.reduce(h, kind+": "+msg)
	}
	m.undoAll()
	m.top = nil
}

func (ex *Explorer) next(m *Machine) *Work {
	idle := 0
	for {
		if ex.stop.Load() || time.Now().After(ex.deadline) {
			return nil
		}
		m.lmu.Lock()
		if n := len(m.local); n > 0 {
			w := m.local[n-1]
			m.local = m.local[:n-1]
			m.lmu.Unlock()
			return w
		}
		m.lmu.Unlock()
		for k := range ex.ms {
			o := ex.ms[(m.id+k)%len(ex.ms)]
			if o == m {
				continue
			}
			o.lmu.Lock()
			if len(o.local) > 0 {
				w := o.local[0]
				o.local = append([]*Work(nil), o.local[1:]...)
				o.lmu.Unlock()
				return w
			}
			o.lmu.Unlock()
		}
		if ex.pending.Load() == 0 {
			return nil
		}
		idle++
		if idle < 10 {
			time.Sleep(200 * time.Microsecond)
		} else {
			time.Sleep(2 * time.Millisecond)
		}
	}
}

func (ex *Explorer) explore(workers int) {
	for i := 0; i < workers; i++ {
		m := newMachine(ex)
		m.id = i
		ex.ms = append(ex.ms, m)
	}
	for i, h := range ex.hs {
		m := ex.ms[i%workers]
		ex.pending.Add(1)
		h.pending.Add(1)
		// front of the queue, so that early harnesses are taken last from the LIFO end
		m.local = append([]*Work{{h: h}}, m.local...)
	}
	var wg sync.WaitGroup
	for _, m := range ex.ms {
		wg.Add(1)
		go func(m *Machine) {
			defer wg.Done()
			for {
				w := ex.next(m)
				if w == nil {
					break
				}
				w.h.mu.Lock()
				if w.h.started.IsZero() {
					w.h.started = time.Now()
				} else if w.h.TimeLimit > 0 && time.Since(w.h.started) > w.h.TimeLimit {
					if !w.h.cut.Swap(true) {
						w.h.reduced["time limit of this harness"]++
					}
				}
				w.h.mu.Unlock()
				ex.runPath(m, w)
				if w.h.pending.Add(-1) == 0 {
					w.h.mu.Lock()
					w.h.finished = time.Now()
					w.h.mu.Unlock()
					if ex.verbose {
						fmt.Fprintf(os.Stderr, "  [%s] finished: %d paths, %d assumed away, %d asserts (%d trivial), %d branches, %.1fs\n", w.h.ID, w.h.paths.Load(), w.h.assumed.Load(), w.h.asserts.Load(), w.h.trivial.Load(), w.h.branches.Load(), w.h.finished.Sub(w.h.started).Seconds())
					}
				}
				ex.pending.Add(-1)
			}
			m.addStats()
			m.sol.Close()
		}(m)
	}
	done := make(chan struct{})
	if ex.verbose {
		go func() {
			for {
				select {
				case <-done:
					return
				case <-time.After(10 * time.Second):
				}
				var ps []string
				for _, h := range ex.hs {
					if h.pending.Load() > 0 {
						ps = append(ps, fmt.Sprintf("%s:%d/%d", h.ID, h.paths.Load(), h.pending.Load()))
					}
				}
				fmt.Fprintf(os.Stderr, "  .. %d pending; %s\n", ex.pending.Load(), trunc(strings.Join(ps, " "), 300))
			}
		}()
	}
	wg.Wait()
	close(done)
	for _, h := range ex.hs {
		if n := h.pending.Load(); n > 0 {
			h.incomplete.Add(n)
			if !ex.stop.Load() {
				ex.reduce(h, "overall time budget")
			}
		}
	}
	for _, m := range ex.ms {
		for cf, n := range m.funcs {
			ex.funcs[cf.name] += n
		}
	}
}

// crossCheckAll re-decides sampled unsat assertion queries with cvc5.
func (ex *Explorer) crossCheckAll(bin string, limit time.Duration) (n, agree, unk int, bad []string) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, q := range ex.cross {
		wg.Add(1)
		sem <- true
		go func(q string) {
			defer func() { <-sem; wg.Done() }()
			c := exec.Command(bin, fmt.Sprintf("--tlimit=%d", limit.Milliseconds()), "-")
			c.Stdin = strings.NewReader(q)
			out, _ := c.CombinedOutput()
			r := strings.TrimSpace(string(out))
			mu.Lock()
			defer mu.Unlock()
			n++
			switch {
			case r == "unsat":
				agree++
			case r == "sat":
				bad = append(bad, q)
			default:
				unk++
			}
		}(q)
	}
	wg.Wait()
	return
}

// validate replays sampled completed paths natively and compares the observations.
func (ex *Explorer) validate(max int) (n int, bad []string) {
	var all []*Trace
	for k := 0; len(all) < max; k++ {
		any := false
		for _, h := range ex.hs {
			if k < len(h.samples) && len(all) < max {
				all = append(all, h.samples[k])
				any = true
			}
		}
		if !any {
			break
		}
	}
	byName := map[string]*Harness{}
	for _, h := range ex.hs {
		byName[h.Name] = h
	}
	for _, t := range all {
		if ex.stop.Load() {
			break
		}
		r := ex.nat.Run(t.Harness, t.Params, t.Model, 20*time.Second)
		n++
		if r.bad() {
			c := &Candidate{Harness: t.Harness, Params: t.Params, Kind: "native", Msg: "replay of an explored path failed natively", Model: t.Model, Native: r}
			if ex.knownFor(c) == nil {
				ex.found = c
				return
			}
			continue
		}
		if r.R != "ok" {
			bad = append(bad, fmt.Sprintf("%s %v: native result %s %s; model %s", t.Harness, t.Params, r.R, r.Msg, modelStr(t.Model, 30)))
			continue
		}
		a, _ := json.Marshal(t.Obs)
		b, _ := json.Marshal(r.Obs)
		if len(t.Obs) == 0 && len(r.Obs) == 0 {
			continue
		}
		if string(a) != string(b) {
			bad = append(bad, fmt.Sprintf("%s %v: observations differ\n  engine %s\n  native %s\n  model %s", t.Harness, t.Params, trunc(string(a), 500), trunc(string(b), 500), modelStr(t.Model, 30)))
		}
	}
	return
}
