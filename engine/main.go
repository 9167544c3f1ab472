package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const pkgPath = "github.com/tdewolff/font"

type hdef struct {
	name     string
	quick    []string
	thorough []string
	opt      map[string]string
	doc      string
}

// parseHarness reads the harness functions and their directives.
func parseHarness(file string) (defs []*hdef, uses []string, err error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, nil, parser.ParseComments)
	if err != nil {
		return nil, nil, err
	}
	for _, cg := range f.Comments {
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//vf:use ") {
				uses = append(uses, strings.Fields(c.Text[9:])...)
			}
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Doc == nil || fd.Recv != nil {
			continue
		}
		h := &hdef{name: fd.Name.Name, opt: map[string]string{}}
		for _, c := range fd.Doc.List {
			t := c.Text
			switch {
			case strings.HasPrefix(t, "//vf:quick"):
				h.quick = append(h.quick, strings.TrimSpace(t[10:]))
			case strings.HasPrefix(t, "//vf:thorough"):
				h.thorough = append(h.thorough, strings.TrimSpace(t[13:]))
			case strings.HasPrefix(t, "//vf:opt"):
				for _, kv := range strings.Fields(t[8:]) {
					k, v, _ := strings.Cut(kv, "=")
					h.opt[k] = v
				}
			default:
				h.doc += strings.TrimSpace(strings.TrimPrefix(t, "//")) + " "
			}
		}
		if h.quick != nil || h.thorough != nil {
			defs = append(defs, h)
		}
	}
	return
}

// expand turns "n=3 k=0..2" into parameter maps.
func expand(line string) []map[string]int {
	out := []map[string]int{{}}
	for _, kv := range strings.Fields(line) {
		k, v, _ := strings.Cut(kv, "=")
		var vals []int
		for _, part := range strings.Split(v, ",") {
			if a, b, ok := strings.Cut(part, ".."); ok {
				lo, _ := strconv.Atoi(a)
				b, st, _ := strings.Cut(b, "/")
				hi, _ := strconv.Atoi(b)
				step, _ := strconv.Atoi(st)
				for i := lo; i <= hi; i += max(step, 1) {
					vals = append(vals, i)
				}
			} else {
				i, err := strconv.Atoi(part)
				if err != nil {
					fatal("bad harness parameter %q", kv)
				}
				vals = append(vals, i)
			}
		}
		var next []map[string]int
		for _, m := range out {
			for _, x := range vals {
				c := map[string]int{}
				for kk, vv := range m {
					c[kk] = vv
				}
				c[k] = x
				next = append(next, c)
			}
		}
		out = next
	}
	return out
}

func paramStr(p map[string]int) string {
	var ks []string
	for k := range p {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for i, k := range ks {
		if i > 0 {
			sb.WriteByte(',')
		}
		fmt.Fprintf(&sb, "%s=%d", k, p[k])
	}
	return sb.String()
}

func fatal(f string, a ...any) {
	fmt.Printf("ERROR: "+f+"\n", a...)
	os.Exit(2)
}

func loadProgram(repo, tmp string, overlay map[string][]byte) (*Program, error) {
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        repo,
		Overlay:    overlay,
		BuildFlags: []string{"-modfile=" + filepath.Join(tmp, "load.mod")},
		Env:        os.Environ(),
	}
	for _, f := range [][2]string{{"go.mod", "load.mod"}, {"go.sum", "load.sum"}} {
		b, err := os.ReadFile(filepath.Join(repo, f[0]))
		if err != nil {
			return nil, err
		}
		os.WriteFile(filepath.Join(tmp, f[1]), b, 0o644)
	}
	pkgs, err := packages.Load(cfg, pkgPath)
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("load: %v", e)
		}
	}
	prog, ps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	if len(ps) == 0 || ps[0] == nil {
		return nil, fmt.Errorf("no package")
	}
	p := &Program{prog: prog, main: ps[0], gidx: map[*ssa.Global]int{}, built: map[*ssa.Package]bool{}, fset: prog.Fset}
	p.ensureBuilt(p.main)
	if e := prog.ImportedPackage("errors"); e != nil {
		p.errT = p.rtype(pointerTo(e.Type("errorString").Type()))
	}
	if e := prog.ImportedPackage("fmt"); e != nil {
		p.wrapT = p.rtype(pointerTo(e.Type("wrapError").Type()))
	}
	return p, nil
}

func main() {
	prop := flag.String("p", "", "property id")
	tier := flag.String("tier", "", "quick or thorough")
	only := flag.String("h", "", "only harnesses whose id contains this")
	workers := flag.Int("j", runtime.NumCPU(), "workers")
	budget := flag.Float64("budget", 0, "exploration seconds")
	verbose := flag.Bool("v", false, "verbose")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verif directory")
	replay := flag.String("replay", "", "replay file")
	prof := flag.String("prof", "", "cpu profile")
	solver := flag.String("solver", "z3-new", "solver")
	solMs := flag.Int("solms", 20000, "solver timeout per query (ms)")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 63)
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(20 << 30)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	tmp, err := os.MkdirTemp("", "vf-"+*prop+"-")
	if err != nil {
		fatal("%v", err)
	}
	rc := run(*prop, *tier, *only, *workers, *budget, *verbose, *repo, *verif, *replay, *solver, *solMs, seed, tmp, t0)
	os.RemoveAll(tmp)
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(rc)
}

func run(prop, tier, only string, workers int, budget float64, verbose bool, repo, verif, replay, solver string, solMs int, seed uint64, tmp string, t0 time.Time) int {
	hdir := filepath.Join(verif, "harness")
	var rp *Candidate
	if replay != "" {
		b, err := os.ReadFile(replay)
		if err != nil {
			fatal("%v", err)
		}
		var x struct {
			Property string `json:"property"`
			Candidate
		}
		if err := json.Unmarshal(b, &x); err != nil {
			fatal("%v", err)
		}
		prop = x.Property
		rp = &x.Candidate
	}
	pf := filepath.Join(hdir, strings.ToLower(prop)+".go")
	defs, uses, err := parseHarness(pf)
	if err != nil {
		fatal("%v", err)
	}
	files := []string{"rt.go"}
	files = append(files, uses...)
	files = append(files, strings.ToLower(prop)+".go")
	overlay := map[string][]byte{}
	natOv := map[string]string{}
	for _, f := range files {
		b, err := os.ReadFile(filepath.Join(hdir, f))
		if err != nil {
			fatal("%v", err)
		}
		overlay[filepath.Join(repo, "zz_vf_"+f)] = b
		natOv[filepath.Join(repo, "zz_vf_"+f)] = filepath.Join(hdir, f)
	}
	natOv[filepath.Join(repo, "zz_vf_native.go")] = filepath.Join(hdir, "native.go")
	var reg strings.Builder
	reg.WriteString("package font\n\nvar vfHarnesses = map[string]func(){\n")
	for _, d := range defs {
		fmt.Fprintf(&reg, "\t%q: %s,\n", d.name, d.name)
	}
	reg.WriteString("}\n")
	regf := filepath.Join(tmp, "vfreg.go")
	os.WriteFile(regf, []byte(reg.String()), 0o644)
	natOv[filepath.Join(repo, "zz_vf_reg.go")] = regf

	nat := buildNative(repo, tmp, natOv, false)
	if rp != nil {
		r := nat.Run(rp.Harness, rp.Params, rp.Model, 30*time.Second)
		nat.kill()
		js, _ := json.MarshalIndent(r, "", " ")
		fmt.Println(string(js))
		if r.bad() {
			return 1
		}
		return 0
	}
	p, err := loadProgram(repo, tmp, overlay)
	if err != nil {
		<-nat.ready
		fatal("cannot load /repo with the harness of %s: %v", prop, err)
	}
	tLoad := time.Since(t0)
	if verbose {
		fmt.Fprintf(os.Stderr, "loaded in %.1fs\n", tLoad.Seconds())
	}
	if budget == 0 {
		budget = 240
		if tier == "thorough" {
			budget = 3600
		}
		if s := os.Getenv("VF_BUDGET"); s != "" {
			budget, _ = strconv.ParseFloat(s, 64)
		}
	}
	ex := &Explorer{p: p, solBin: solver, solMs: solMs, notes: map[string]int{}, seen: map[string]int{}, knownHit: map[string]*Candidate{}, nat: nat, verbose: verbose, funcs: map[string]int64{}, prop: prop, seed: seed + 1}
	ex.maxCross = 8
	if tier == "thorough" {
		ex.maxCross = 64
	}
	if b, err := os.ReadFile(filepath.Join(verif, "known-findings.jsonl")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if l = strings.TrimSpace(l); l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
				continue
			}
			var k Known
			if err := json.Unmarshal([]byte(l), &k); err != nil {
				fatal("known-findings.jsonl: %v", err)
			}
			ex.knowns = append(ex.knowns, k)
		}
	}
	for _, d := range defs {
		lines := d.quick
		if tier == "thorough" && d.thorough != nil {
			lines = d.thorough
		}
		fn := p.main.Func(d.name)
		if fn == nil {
			fatal("harness %s not found", d.name)
		}
		for _, l := range lines {
			for _, ps := range expand(l) {
				h := &Harness{Name: d.name, fn: fn, Params: ps, Steps: 5_000_000, reached: map[string]bool{}, reduced: map[string]int{}, rngs: seed*7919 + 12345}
				h.ID = d.name
				if len(ps) > 0 {
					h.ID += "[" + paramStr(ps) + "]"
				}
				if only != "" && !strings.Contains(h.ID, only) {
					continue
				}
				for k, v := range d.opt {
					n, _ := strconv.ParseFloat(v, 64)
					switch k {
					case "nomerge":
						h.NoMerge = true
					case "steps":
						h.Steps = int64(n)
					case "paths":
						h.MaxPaths = int64(n)
					case "time":
						h.TimeLimit = time.Duration(n * float64(time.Second))
						if tier == "thorough" {
							h.TimeLimit *= 10
						}
					case "ite":
						h.IteSym = int(n)
					case "hang":
						h.HangSec = n
					case "reach":
						h.Reach = strings.Split(v, ",")
					default:
						fatal("unknown option %s", k)
					}
				}
				ex.hs = append(ex.hs, h)
			}
		}
	}
	if len(ex.hs) == 0 {
		fatal("no harness selected")
	}
	ex.deadline = time.Now().Add(time.Duration(budget * float64(time.Second)))
	ex.explore(workers)
	tExp := time.Since(t0)
	<-nat.ready
	if nat.err != nil {
		fatal("%v", nat.err)
	}
	var valN int
	var valBad []string
	var cn, cagree, cunk int
	var cbad []string
	if ex.found == nil {
		nv := 48
		if tier == "thorough" {
			nv = 400
		}
		cdone := make(chan bool)
		go func() {
			cn, cagree, cunk, cbad = ex.crossCheckAll("cvc5", 10*time.Second)
			close(cdone)
		}()
		valN, valBad = ex.validate(nv)
		<-cdone
	}
	nat.kill()

	// vacuity
	var vac []string
	byFn := map[string]map[string]bool{}
	okFn := map[string]int64{}
	for _, h := range ex.hs {
		if byFn[h.Name] == nil {
			byFn[h.Name] = map[string]bool{}
		}
		for k := range h.reached {
			byFn[h.Name][k] = true
		}
		okFn[h.Name] += h.paths.Load()
	}
	seenFn := map[string]bool{}
	for _, h := range ex.hs {
		if seenFn[h.Name] {
			continue
		}
		seenFn[h.Name] = true
		if okFn[h.Name] == 0 {
			vac = append(vac, h.Name+": no completed path")
		}
		for _, r := range h.Reach {
			if !byFn[h.Name][r] {
				vac = append(vac, h.Name+": "+r+" not reached")
			}
		}
	}
	st := solStats{}
	var terms int
	for _, m := range ex.ms {
		st.Queries += m.stats.Queries
		st.Sat += m.stats.Sat
		st.Unsat += m.stats.Unsat
		st.Unknown += m.stats.Unknown
		st.Time += m.stats.Time
		terms += len(m.tc.terms)
	}
	var solErrs []string
	for len(solverErrs) > 0 {
		solErrs = append(solErrs, <-solverErrs)
	}

	// report
	var paths, assumed, steps, branches, asserts, trivial, incomplete int64
	var hj []any
	var samples []any
	complete := true
	for _, h := range ex.hs {
		paths += h.paths.Load()
		assumed += h.assumed.Load()
		steps += h.steps.Load()
		branches += h.branches.Load()
		asserts += h.asserts.Load()
		trivial += h.trivial.Load()
		incomplete += h.incomplete.Load()
		if h.incomplete.Load() > 0 || len(h.reduced) > 0 {
			complete = false
		}
		var rt []string
		for k := range h.reached {
			rt = append(rt, k)
		}
		sort.Strings(rt)
		e := map[string]any{"harness": h.Name, "bounds": h.Params, "paths": h.paths.Load(), "paths_assumed_away": h.assumed.Load(), "assertions_decided": h.asserts.Load(), "assertions_constant": h.trivial.Load(), "branch_queries": h.branches.Load(), "incomplete_paths": h.incomplete.Load(), "reached": rt}
		if len(h.reduced) > 0 {
			e["reduced_bound"] = h.reduced
		}
		hj = append(hj, e)
		if len(h.samples) > 0 && len(samples) < 12 {
			s := h.samples[len(h.samples)/2]
			o, _ := json.Marshal(s.Obs)
			samples = append(samples, map[string]any{"harness": h.ID, "model": trunc(modelStr(s.Model, 24), 600), "observations": trunc(string(o), 400)})
		}
	}
	type fc struct {
		n string
		c int64
	}
	var fns []fc
	for k, v := range ex.funcs {
		if strings.Contains(k, "tdewolff/") && !strings.Contains(k, ".vf") && !strings.Contains(k, ".vh") {
			fns = append(fns, fc{short(k), v})
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].n < fns[j].n })
	var fnl []string
	for _, f := range fns {
		fnl = append(fnl, f.n)
	}
	var notes []string
	for k := range ex.notes {
		notes = append(notes, k)
	}
	sort.Strings(notes)
	var docs []string
	for _, d := range defs {
		docs = append(docs, d.name+": "+strings.TrimSpace(d.doc))
	}
	nviol := 0
	if ex.found != nil {
		nviol = 1
	}
	cov := map[string]any{
		"states":                        paths,
		"transitions":                   steps,
		"traces_validated_against_impl": valN,
		"samples":                       samples,
		"rule":                          "states = symbolic paths executed to their end (each stands for every input satisfying its path condition); transitions = SSA instructions interpreted on them",
		"exhaustive":                    complete && ex.found == nil && len(ex.engErr) == 0,
		"paths_excluded_by_assumption":  assumed,
		"assertions_decided":            asserts,
		"assertions_constant":           trivial,
		"branch_and_value_decisions":    branches,
		"incomplete_paths":              incomplete,
		"solver":                        map[string]any{"binary": solver, "queries": st.Queries, "sat": st.Sat, "unsat": st.Unsat, "unknown": st.Unknown, "seconds": round(st.Time.Seconds()), "errors": solErrs},
		"cross_check":                   map[string]any{"solver": "cvc5", "queries": cn, "agree": cagree, "no_answer": cunk, "disagree": len(cbad), "unsat_assertion_queries_sampled_from": ex.ncross},
		"harnesses":                     hj,
		"harness_docs":                  docs,
		"functions_encoded":             fnl,
		"trace_mismatches":              valBad,
		"engine_errors":                 ex.engErr,
		"engine_notes":                  notes,
		"unconfirmed_candidates":        ex.unconf,
		"load_s":                        round(tLoad.Seconds()),
		"explore_s":                     round((tExp - tLoad).Seconds()),
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"go/ssa (x/tools v0.52.0) represents the compiled program; the engine interprets it with Go 64-bit little-endian semantics; sampled paths are replayed on the compiled code and compared",
			"bounds are the harness parameters listed under coverage.harnesses; inputs outside them are not covered",
			"brotli and zlib are stubbed as inverse functions on opaque payloads, fmt formatting of symbolic values as opaque text, time.Now as a fixed instant",
		}, "wall_s": round(time.Since(t0).Seconds()), "violations": nviol}
	if only == "" {
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		js, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(js, '\n'), 0o644)
	}
	fmt.Printf("%s %s: %d harness instances, %d paths, %d assertions (%d constant), %d solver queries (%.1fs), %d unknown, %d incomplete, validated %d traces (%d mismatches), cvc5 %d/%d agree; %.1fs\n",
		prop, tier, len(ex.hs), paths, asserts, trivial, st.Queries, st.Time.Seconds(), st.Unknown, incomplete, valN, len(valBad), cagree, cn, time.Since(t0).Seconds())
	for _, b := range valBad {
		fmt.Println("TRACE MISMATCH:", b)
	}
	for _, b := range cbad {
		fmt.Println("SOLVER DISAGREEMENT:", trunc(b, 2000))
	}
	for _, e := range ex.engErr {
		fmt.Println("ENGINE ERROR:", e)
	}
	for _, e := range solErrs {
		fmt.Println("SOLVER ERROR:", e)
	}
	for _, c := range ex.unconf {
		fmt.Printf("UNCONFIRMED (not reported): [%s] %s: %s at %s; native: %s; model%s\n", c.hid, c.Kind, c.Msg, c.Site, c.Native.R+" "+c.Native.Msg, modelStr(c.Model, 30))
	}
	for _, h := range ex.hs {
		for k, n := range h.reduced {
			fmt.Printf("REDUCED BOUND: [%s] %s (%d)\n", h.ID, k, n)
		}
	}
	for id, c := range ex.knownHit {
		what := id
		for _, k := range ex.knowns {
			if k.ID == id && k.What != "" {
				what = k.ID + ": " + k.What
			}
		}
		fmt.Printf("KNOWN-FINDING: property=%s %s (replayed: %s %s)\n", prop, what, c.Native.R, trunc(firstLine(c.Native.Msg), 160))
	}
	if c := ex.found; c != nil {
		rd := filepath.Join(verif, "evidence", "replay")
		os.MkdirAll(rd, 0o755)
		fn := filepath.Join(rd, prop+".json")
		js, _ := json.MarshalIndent(struct {
			Property string `json:"property"`
			*Candidate
			Command string `json:"command"`
		}{prop, c, "/verif/bin/vf -replay " + fn}, "", " ")
		os.WriteFile(fn, append(js, '\n'), 0o644)
		fmt.Printf("counterexample: harness %s [%s], %s: %s at %s\n  inputs:%s\n  replayed on the compiled code: %s: %s\n", c.Harness, paramStr(c.Params), c.Kind, c.Msg, c.Site, modelStr(c.Model, 60), c.Native.R, trunc(c.Native.Msg, 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, fn)
		return 1
	}
	if len(vac) > 0 && only == "" {
		for _, v := range vac {
			fmt.Println("VACUOUS:", v)
		}
		return 2
	}
	return 0
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }
