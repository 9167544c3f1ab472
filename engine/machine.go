package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	m         *Machine
	cf        *cfunc
	regs      []V
	pred      int
	block     *cblock
	ip        int
	result    V
	defers    []func() V
	caller    *frame
	panicking bool
	panic     *TargetPanic
	goexit    any
}

type Decision struct {
	Taken  bool
	Forced bool
	Val    uint64
	Kind   byte // 'b' branch, 'v' value, 'a' assume/assert
}

type jent struct {
	c   *V
	old V
	f   func()
}

type Obs struct {
	tag string
	v   []V
}

type Machine struct {
	baseMemo map[*Term]*baseVals
	p        *Program
	tc       *TermCtx
	sol      *Solver
	globals  []*V
	inited   map[*ssa.Package]bool
	initing  int

	// path state
	pc      []*Term
	pcSet   map[*Term]bool
	model   []uint64
	prefix  []Decision
	dpos    int
	trace   []Decision
	journal []jent
	steps   int64
	limit   int64
	top     *frame
	depth   int
	spec    int
	obs     []Obs
	reach   []string
	reduced map[string]int
	nextVar map[string]int
	side    [][]V // compressed payloads by id
	ops     map[string]bool

	h           *Harness
	ex          *Explorer
	local       []*Work
	funcs       map[*cfunc]int64
	regStack    []V
	regTop      int
	mapOrder    int
	allocMax    int64
	deadline    time.Time
	tick        int
	pcMergeFail map[*cblock]int
	pcShortFail map[*cblock]int
	br          map[*V]*brState
	id          int
	lmu         sync.Mutex
	imp         map[string]uint64
	stats       solStats
	lastH       *Harness
}

func (m *Machine) noSpec() {
	if m.spec > 0 {
		panic(specFail{})
	}
}

func (m *Machine) unsupported(msg string) {
	m.noSpec()
	panic(&pathAbort{"unsupported", msg + " at " + m.site()})
}

func (m *Machine) site() string {
	// innermost frames inside the repository
	var out []string
	for f := m.top; f != nil && len(out) < 3; f = f.caller {
		pos := token.NoPos
		if f.block != nil {
			if f.ip < len(f.block.pos) {
				for i := f.ip; i >= 0; i-- {
					if f.block.pos[i] != token.NoPos {
						pos = f.block.pos[i]
						break
					}
				}
			} else {
				pos = f.block.tpos
			}
		}
		if f.cf == nil {
			continue
		}
		p := m.p.fset.Position(pos)
		if p.IsValid() {
			out = append(out, fmt.Sprintf("%s(%s:%d)", short(f.cf.name), filepath.Base(p.Filename), p.Line))
		} else {
			out = append(out, short(f.cf.name))
		}
	}
	return strings.Join(out, " < ")
}

func short(s string) string {
	return strings.ReplaceAll(s, "github.com/tdewolff/", "")
}

func (m *Machine) rtPanic(msg string) {
	m.noSpec()
	v := V{}
	if m.p.errT != nil {
		v = V{r: &Iface{m.p.errT, V{r: &V{r: &Agg{[]V{sv("runtime error: " + msg)}}}}}}
	}
	panic(&TargetPanic{v: v, msg: "runtime error: " + msg, site: m.site(), rt: true})
}

func (m *Machine) global(i int) *V {
	for i >= len(m.globals) {
		m.globals = append(m.globals, nil)
	}
	if p := m.globals[i]; p != nil {
		return p
	}
	m.p.mu.Lock()
	g := m.p.gs[i]
	m.p.mu.Unlock()
	// allocate all globals of the package lazily, run its initialiser once
	p := new(V)
	*p = zero(g.Type().Underlying().(*types.Pointer).Elem())
	m.globals[i] = p
	m.initPkg(g.Pkg)
	return m.globals[i]
}

var noInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "reflect": true, "sync": true, "internal/poll": true, "internal/cpu": true, "internal/godebug": true, "net": true, "internal/reflectlite": true, "sync/atomic": true, "internal/abi": true, "internal/bytealg": true, "crypto/rand": true, "math/rand": true, "encoding/gob": true, "log": true, "internal/testlog": true, "internal/oserror": false}

func (m *Machine) initPkg(pkg *ssa.Package) {
	if pkg == nil || m.inited[pkg] {
		return
	}
	m.inited[pkg] = true
	if noInit[pkg.Pkg.Path()] || strings.HasPrefix(pkg.Pkg.Path(), "runtime/") {
		return
	}
	m.p.ensureBuilt(pkg)
	ini := pkg.Func("init")
	if ini == nil {
		return
	}
	// run without journal and outside the path's step count
	oj, os, ol, osp := m.journal, m.steps, m.limit, m.spec
	m.journal = nil
	m.limit = 1 << 40
	m.spec = 0
	m.initing++
	top := m.top
	func() {
		defer func() {
			if r := recover(); r != nil {
				if pa, ok := r.(*pathAbort); ok && pa.kind == "unsupported" {
					m.ex.note("init of " + pkg.Pkg.Path() + " incomplete: " + pa.msg)
					return
				}
				panic(r)
			}
		}()
		m.callFn(ini, nil, nil, nil)
	}()
	m.top = top
	m.initing--
	m.journal, m.steps, m.limit, m.spec = oj, os, ol, osp
}

// ---- memory ----

func (m *Machine) cell(v V) *V {
	switch p := v.r.(type) {
	case *V:
		return p
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	case *SymPtr:
		m.noSpec()
		k := m.concretize(p.idx)
		return &p.e[k]
	}
	m.unsupported(fmt.Sprintf("pointer %T", v.r))
	return nil
}

func (m *Machine) load(v V) V {
	if p, ok := v.r.(*V); ok {
		if a, ok := p.r.(*Agg); ok {
			return copyV(V{r: a})
		}
		return *p
	}
	if p, ok := v.r.(*SymPtr); ok {
		return m.symLoad(p.e, p.idx, p.ti)
	}
	return copyV(*m.cell(v))
}

func (m *Machine) set(c *V, v V) {
	if m.initing == 0 {
		m.journal = append(m.journal, jent{c: c, old: *c})
	}
	*c = v
}

func (m *Machine) storeCell(c *V, v V) {
	if a, ok := v.r.(*Agg); ok {
		if d, ok := c.r.(*Agg); ok && len(d.e) == len(a.e) {
			if d == a {
				return
			}
			for i := range a.e {
				m.storeCell(&d.e[i], a.e[i])
			}
			return
		}
		m.set(c, copyV(v))
		return
	}
	m.set(c, v)
}

func (m *Machine) store(pv, v V) {
	if p, ok := pv.r.(*SymPtr); ok {
		for i := p.idx.lo; i <= p.idx.hi && i < uint64(len(p.e)); i++ {
			c := m.tc.Eq(p.idx, m.tc.Const(64, i))
			if c == m.tc.False {
				continue
			}
			old := p.e[i]
			nv, ok := m.iteW(c, v, old, p.ti)
			if !ok {
				k := m.concretize(p.idx)
				m.storeCell(&p.e[k], v)
				return
			}
			m.set(&p.e[i], nv)
		}
		return
	}
	m.storeCell(m.cell(pv), v)
}

// width of a symbolic scalar
func symW(v V) (uint8, bool) {
	if t, ok := v.r.(*Term); ok {
		return t.w, true
	}
	return 0, false
}

// iteV merges two values under a condition; ok is false when they cannot be merged.
func (m *Machine) iteV(c *Term, a, b V) (V, bool) {
	ta, aok := a.r.(*Term)
	tb, bok := b.r.(*Term)
	switch {
	case aok && bok:
		return m.tv(m.tc.Ite(c, ta, tb)), true
	case aok && b.r == nil:
		return m.tv(m.tc.Ite(c, ta, m.tc.Const(ta.w, b.n))), true
	case bok && a.r == nil:
		return m.tv(m.tc.Ite(c, m.tc.Const(tb.w, a.n), tb)), true
	case a.r == nil && b.r == nil:
		if a.n == b.n {
			return a, true
		}
		return V{}, false // width unknown here; see iteW
	}
	fa, aok := a.r.(*FX)
	fb, bok := b.r.(*FX)
	if aok || bok {
		if !aok {
			if a.r != nil {
				return V{}, false
			}
			fa = m.fxConst(math.Float64frombits(a.n))
		}
		if !bok {
			if b.r != nil {
				return V{}, false
			}
			fb = m.fxConst(math.Float64frombits(b.n))
		}
		if fa == nil || fb == nil {
			return V{}, false
		}
		x, y, e, mb, ok := m.fxAlign(fa, fb)
		if !ok {
			return V{}, false
		}
		return m.fxV(m.tc.Ite(c, x, y), e, mb), true
	}
	if sameRef(a, b) {
		return a, true
	}
	return V{}, false
}

func (m *Machine) iteW(c *Term, a, b V, ti tinfo) (V, bool) {
	if a.r == nil && b.r == nil && a.n != b.n {
		switch ti.kind {
		case 1, 2:
			return m.tv(m.tc.Ite(c, m.tc.Const(ti.w, a.n), m.tc.Const(ti.w, b.n))), true
		case 3:
			fa, fb := m.fxConst(math.Float64frombits(a.n)), m.fxConst(math.Float64frombits(b.n))
			if fa == nil || fb == nil {
				return V{}, false
			}
			x, y, e, mb, ok := m.fxAlign(fa, fb)
			if !ok {
				return V{}, false
			}
			return m.fxV(m.tc.Ite(c, x, y), e, mb), true
		}
		return V{}, false
	}
	return m.iteV(c, a, b)
}

func sameRef(a, b V) bool {
	if a.n != b.n {
		return false
	}
	switch x := a.r.(type) {
	case nil:
		return b.r == nil
	case *V:
		y, ok := b.r.(*V)
		return ok && x == y
	case *MapV:
		y, ok := b.r.(*MapV)
		return ok && x == y
	case *Iface:
		y, ok := b.r.(*Iface)
		return ok && x == y
	case *Closure:
		y, ok := b.r.(*Closure)
		return ok && x == y
	case string:
		y, ok := b.r.(string)
		return ok && x == y
	case Slice:
		y, ok := b.r.(Slice)
		return ok && len(x) == len(y) && cap(x) == cap(y) && len(x) > 0 && &x[0] == &y[0]
	}
	return false
}

// tv wraps a term as a value (concrete when constant).
func (m *Machine) tv(t *Term) V {
	if t.op == OConst {
		return V{n: t.k}
	}
	return V{r: t}
}

func (m *Machine) term(v V, w uint8) *Term {
	if t, ok := v.r.(*Term); ok {
		if t.w != w {
			panic(fmt.Sprintf("term width %d want %d at %s", t.w, w, m.site()))
		}
		return t
	}
	if v.r != nil {
		m.unsupported(fmt.Sprintf("scalar expected, got %T", v.r))
	}
	return m.tc.Const(w, v.n)
}

func (m *Machine) maxIte(e []V, t *Term) int {
	for i := t.lo; i <= t.hi && i < uint64(len(e)); i++ {
		if e[i].r != nil {
			return m.h.maxIteSym()
		}
	}
	return 2048
}

// index64 performs the bounds check for a symbolic index and returns it as a 64-bit term.
func (m *Machine) index64(v V, ii tinfo, n int) *Term {
	t := v.r.(*Term)
	var t64 *Term
	if ii.signed {
		t64 = m.tc.Sext(t, 64)
	} else {
		t64 = m.tc.Zext(t, 64)
	}
	in := m.tc.Ult(t64, m.tc.Const(64, uint64(n)))
	if !m.branch(in) {
		m.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	return t64
}

func (m *Machine) symLoad(e []V, t *Term, ti tinfo) V {
	if t.IsConst() {
		return copyV(e[t.k])
	}
	hi := t.hi
	if hi >= uint64(len(e)) {
		hi = uint64(len(e)) - 1
	}
	if (ti.kind == 1 || ti.kind == 2) && int(hi-t.lo) < m.maxIte(e, t) {
		r := m.term(e[hi], ti.w)
		for i := int64(hi) - 1; i >= int64(t.lo); i-- {
			c := m.tc.Eq(t, m.tc.Const(64, uint64(i)))
			if c == m.tc.False {
				continue
			}
			r = m.tc.Ite(c, m.term(e[i], ti.w), r)
		}
		return m.tv(r)
	}
	k := m.concretize(t)
	return copyV(e[k])
}

// ---- branching ----

func (m *Machine) assertPC(t *Term) {
	if t.IsConst() {
		return
	}
	m.pc = append(m.pc, t)
	m.addPCSet(t)
}

func (m *Machine) addPCSet(t *Term) {
	m.pcSet[t] = true
	if t.op == OBAnd {
		m.addPCSet(t.a)
		m.addPCSet(t.b)
	}
}

func (m *Machine) evalB(t *Term) bool {
	return m.tc.Eval(t, m.model) != 0
}

func (m *Machine) branch(c *Term) bool {
	if c.IsConst() {
		return c.k != 0
	}
	m.noSpec()
	if m.initing > 0 {
		m.unsupported("symbolic branch in init")
	}
	nc := m.tc.Not(c)
	if m.pcSet[c] {
		return true
	}
	if m.pcSet[nc] {
		return false
	}
	if m.dpos < len(m.prefix) {
		d := m.prefix[m.dpos]
		m.dpos++
		if d.Kind != 'b' {
			panic("nondeterministic replay: expected branch at " + m.site())
		}
		m.trace = append(m.trace, d)
		if !d.Forced {
			if d.Taken {
				m.assertPC(c)
			} else {
				m.assertPC(nc)
			}
		} else {
			if d.Taken {
				m.pcSet[c] = true
			} else {
				m.pcSet[nc] = true
			}
		}
		return d.Taken
	}
	m.checkDeadline()
	mv := m.evalB(c)
	same, other := c, nc
	if !mv {
		same, other = nc, c
	}
	m.ex.countBranch(m)
	res, model := m.sol.Check(m.pc, other)
	switch res {
	case Unsat:
		m.trace = append(m.trace, Decision{Kind: 'b', Taken: mv, Forced: true})
		m.pcSet[same] = true
		return mv
	case Sat:
		w := &Work{prefix: append(append([]Decision(nil), m.trace...), Decision{Kind: 'b', Taken: !mv})}
		w.model = m.exportModel(model)
		m.push(w)
	case Unknown:
		m.reduce("solver unknown on branch")
	}
	m.trace = append(m.trace, Decision{Kind: 'b', Taken: mv})
	m.assertPC(same)
	return mv
}

func (m *Machine) reduce(why string) { m.ex.reduce(m.h, why) }

func (m *Machine) concretize(t *Term) uint64 {
	if t.IsConst() {
		return t.k
	}
	m.noSpec()
	if t.lo == t.hi {
		return t.lo
	}
	if v := m.tc.Eval(t, m.model); m.tc.Eq(t, m.tc.Const(t.w, v)) == m.tc.True {
		return v
	}
	for n := 0; ; n++ {
		if m.dpos < len(m.prefix) {
			d := m.prefix[m.dpos]
			m.dpos++
			if d.Kind != 'v' {
				panic("nondeterministic replay: expected value at " + m.site())
			}
			m.trace = append(m.trace, d)
			eq := m.tc.Eq(t, m.tc.Const(t.w, d.Val))
			if d.Taken {
				if !d.Forced {
					m.assertPC(eq)
				}
				return d.Val
			}
			m.assertPC(m.tc.Not(eq))
			continue
		}
		m.checkDeadline()
		v := m.tc.Eval(t, m.model)
		eq := m.tc.Eq(t, m.tc.Const(t.w, v))
		m.ex.countBranch(m)
		res, model := m.sol.Check(m.pc, m.tc.Not(eq))
		forced := false
		switch res {
		case Unsat:
			forced = true
		case Sat:
			w := &Work{prefix: append(append([]Decision(nil), m.trace...), Decision{Kind: 'v', Taken: false, Val: v})}
			w.model = m.exportModel(model)
			m.push(w)
		case Unknown:
			m.reduce("solver unknown on value split")
		}
		m.trace = append(m.trace, Decision{Kind: 'v', Taken: true, Val: v, Forced: forced})
		if !forced {
			m.assertPC(eq)
		}
		return v
	}
}

// pick fixes t to its current model value without exploring the others (reduces the bound).
func (m *Machine) pick(t *Term, why string) uint64 {
	if t.IsConst() {
		return t.k
	}
	m.noSpec()
	if m.dpos < len(m.prefix) {
		d := m.prefix[m.dpos]
		m.dpos++
		m.trace = append(m.trace, d)
		m.assertPC(m.tc.Eq(t, m.tc.Const(t.w, d.Val)))
		return d.Val
	}
	v := m.tc.Eval(t, m.model)
	m.trace = append(m.trace, Decision{Kind: 'v', Taken: true, Val: v})
	m.assertPC(m.tc.Eq(t, m.tc.Const(t.w, v)))
	m.reduce(why)
	return v
}

func (m *Machine) assume(c *Term) {
	if c.IsConst() {
		if c.k == 0 {
			panic(&pathAbort{"assume", ""})
		}
		return
	}
	m.noSpec()
	if m.pcSet[c] {
		return
	}
	if m.dpos < len(m.prefix) {
		d := m.prefix[m.dpos]
		m.dpos++
		if d.Kind != 'a' {
			panic("nondeterministic replay: expected assume at " + m.site())
		}
		m.trace = append(m.trace, d)
		m.assertPC(c)
		return
	}
	m.checkDeadline()
	if !m.evalB(c) {
		res, model := m.sol.Check(m.pc, c)
		switch res {
		case Unsat:
			panic(&pathAbort{"assume", ""})
		case Unknown:
			m.reduce("solver unknown on assume")
			panic(&pathAbort{"assume", "unknown"})
		}
		m.setModel(model)
	}
	m.trace = append(m.trace, Decision{Kind: 'a', Taken: true})
	m.assertPC(c)
}

func (m *Machine) vassert(c *Term, msg, known string) {
	if m.initing > 0 {
		return
	}
	if c.IsConst() && c.k != 0 {
		m.ex.countAssert(m, true)
		return
	}
	m.noSpec()
	if c.IsConst() {
		if m.dpos < len(m.prefix) {
			panic(&pathAbort{"done", "assert repeated"})
		}
		m.ex.countAssert(m, false)
		m.ex.violation(m, "assert", msg, m.site(), m.model, known)
		panic(&pathAbort{"done", "assert failed"})
	}
	if m.pcSet[c] {
		return
	}
	if m.dpos < len(m.prefix) {
		d := m.prefix[m.dpos]
		m.dpos++
		if d.Kind != 'a' {
			panic("nondeterministic replay: expected assert at " + m.site())
		}
		m.trace = append(m.trace, d)
		if !d.Forced {
			m.assertPC(c)
		} else {
			m.pcSet[c] = true
		}
		return
	}
	m.checkDeadline()
	m.ex.countAssert(m, false)
	nc := m.tc.Not(c)
	res, model := m.sol.Check(m.pc, nc)
	switch res {
	case Unsat:
		m.ex.crossCheck(m, nc)
		m.trace = append(m.trace, Decision{Kind: 'a', Taken: true, Forced: true})
		m.pcSet[c] = true
		return
	case Unknown:
		if d := os.Getenv("VF_DUMP"); d != "" {
			os.WriteFile(d, []byte(StandaloneQuery(m.tc, m.pc, nc)), 0o666)
		}
		m.reduce("solver unknown on assertion")
	case Sat:
		m.ex.violation(m, "assert", msg, m.site(), model, known)
	}
	if !m.evalB(c) {
		res, model := m.sol.Check(m.pc, c)
		if res != Sat {
			panic(&pathAbort{"done", "assert failed"})
		}
		m.setModel(model)
	}
	m.trace = append(m.trace, Decision{Kind: 'a', Taken: true})
	m.assertPC(c)
}

func (m *Machine) checkDeadline() {
	if time.Now().After(m.ex.deadline) || m.ex.stop.Load() {
		panic(&pathAbort{"deadline", ""})
	}
}

// ---- execution ----

func (m *Machine) callFn(fn *ssa.Function, args []V, fvs []V, caller *frame) V {
	cf := m.p.compiled(fn)
	if cf.intr != nil {
		return m.callIntr(cf, args, caller)
	}
	return m.run(cf, args, fvs, caller)
}

func (m *Machine) callIntr(cf *cfunc, args []V, caller *frame) V {
	m.noSpec()
	return cf.intr(m, args)
}

func (m *Machine) callClosure(cl *Closure, args []V, caller *frame) V {
	if cl.native != nil {
		return cl.native(m, args)
	}
	if cl.cf == nil {
		cf := m.p.compiled(cl.fn)
		if cf.intr != nil {
			return m.callIntr(cf, args, caller)
		}
		return m.run(cf, args, cl.fv, caller)
	}
	return m.run(cl.cf, args, cl.fv, caller)
}

const maxDepth = 2000

func (m *Machine) run(cf *cfunc, args []V, fvs []V, caller *frame) V {
	if m.initing > 0 && cf.fn.Synthetic == "package initializer" && cf.fn.Pkg != nil && m.depth > 0 && m.inited[cf.fn.Pkg] == false {
		return V{} // imports are initialised lazily
	}
	m.depth++
	if m.depth > maxDepth {
		m.depth--
		panic(&pathAbort{"limit", "call depth at " + m.site()})
	}
	if m.initing == 0 {
		m.funcs[cf]++
	}
	base := m.regTop
	need := cf.nregs
	if base+need > len(m.regStack) {
		n := make([]V, (base+need)*2+4096)
		// old frames keep referring to the old array
		m.regStack = n
		base = 0
		m.regTop = 0
	}
	regs := m.regStack[base : base+need : base+need]
	stk := m.regStack
	m.regTop = base + need
	copy(regs, args)
	copy(regs[cf.nparams:], fvs)
	fr := &frame{m: m, cf: cf, regs: regs, caller: caller, block: cf.blocks[0]}
	otop := m.top
	if caller == nil {
		fr.caller = otop
	}
	m.top = fr
	if cf.arith && fr.tryArith() {
		// result set
	} else if cf.hasDefer {
		for fr.block != nil {
			fr.runDefer()
		}
	} else {
		fr.loop()
	}
	m.top = otop
	m.depth--
	clear(regs)
	if &m.regStack[0] == &stk[0] {
		m.regTop = base
	}
	return fr.result
}

func (fr *frame) loop() {
	m := fr.m
	b := fr.block
	for {
		fr.ip = 0
		for i, op := range b.ops {
			fr.ip = i
			op(fr)
		}
		fr.ip = len(b.ops)
		m.steps += int64(len(b.ops)) + 1
		if m.steps > m.limit {
			panic(&pathAbort{"limit", "steps at " + m.site()})
		}
		nb := b.term(fr)
		if nb == nil {
			fr.block = nil
			return
		}
		fr.enter(nb)
		b = nb
		fr.block = b
	}
}

func (fr *frame) enter(nb *cblock) {
	if fr.pred < 0 { // phis already assigned by a merge
		return
	}
	switch len(nb.phis) {
	case 0:
	case 1:
		fr.regs[nb.phis[0].dst] = nb.phis[0].in[fr.pred].get(fr)
	default:
		var buf [8]V
		t := buf[:0]
		for i := range nb.phis {
			t = append(t, nb.phis[i].in[fr.pred].get(fr))
		}
		for i := range nb.phis {
			fr.regs[nb.phis[i].dst] = t[i]
		}
	}
}

func (fr *frame) runDefer() {
	m := fr.m
	depth, regTop, stk := m.depth, m.regTop, m.regStack
	defer func() {
		if fr.block == nil {
			return
		}
		r := recover()
		tp, ok := r.(*TargetPanic)
		if !ok {
			panic(r)
		}
		m.depth = depth
		if &m.regStack[0] == &stk[0] {
			m.regTop = regTop
		}
		m.top = fr
		fr.panicking = true
		fr.panic = tp
		fr.runDefers()
		// recovered
		fr.block = fr.cf.recover
		if fr.block == nil {
			fr.result = zero(fr.cf.fn.Signature.Results())
			if t, ok := fr.result.r.(Tuple); ok {
				if len(t) == 1 {
					fr.result = t[0]
				} else if len(t) == 0 {
					fr.result = V{}
				}
			}
		}
	}()
	fr.loop()
}

func (fr *frame) runDefers() {
	m := fr.m
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			depth := m.depth
			ok := false
			defer func() {
				if ok {
					return
				}
				r := recover()
				if tp, isT := r.(*TargetPanic); isT {
					m.depth = depth
					m.top = fr
					fr.panicking = true
					fr.panic = tp
					return
				}
				panic(r)
			}()
			d()
			ok = true
		}()
	}
	if fr.panicking {
		panic(fr.panic)
	}
}

func (fr *frame) doIf(b *cblock) *cblock {
	c := b.cond.get(fr)
	var taken bool
	if t, ok := c.r.(*Term); ok {
		m := fr.m
		if m.pcSet[t] {
			taken = true
		} else if m.pcSet[m.tc.Not(t)] {
			taken = false
		} else {
			if b.merge != nil && m.spec == 0 && !m.h.NoMerge {
				if fr.tryMerge(b, t) {
					fr.pred = -1
					return b.merge.join
				}
			}
			if b.short != nil && m.spec == 0 && !m.h.NoMerge {
				if nb := fr.tryShort(b); nb != nil {
					fr.pred = -1
					return nb
				}
			}
			taken = m.branch(t)
		}
	} else {
		taken = c.n != 0
	}
	if taken {
		fr.pred = b.tp
		return b.tb
	}
	fr.pred = b.fp
	return b.fb
}

// tryMerge evaluates the region between b and its join speculatively and merges the phis with ite.
func (fr *frame) tryMerge(b *cblock, cond *Term) (ok bool) {
	m := fr.m
	if m.pcMergeFail[b] > 3 {
		return false
	}
	join := b.merge.join
	saved := append([]V(nil), fr.regs...)
	depth, top, ip, blk := m.depth, m.top, fr.ip, fr.block
	defer func() {
		m.spec = 0
		fr.ip, fr.block = ip, blk
		m.depth, m.top = depth, top
		if !ok {
			if r := recover(); r != nil {
				if _, is := r.(specFail); !is {
					if tp, is := r.(*TargetPanic); is {
						_ = tp
					} else {
						panic(r)
					}
				}
			}
			copy(fr.regs, saved)
			m.pcMergeFail[b]++
			ok = false
		}
	}()
	m.spec = 1
	budget := 24
	vals, good := fr.evalRegion(b, cond, join, &budget)
	if !good {
		return false
	}
	m.spec = 0
	for i := range join.phis {
		fr.regs[join.phis[i].dst] = vals[i]
	}
	return true
}

type shortVal struct {
	c          *Term // goes to x
	xv, yv     []V
	hasX, hasY bool
}

// tryShort evaluates a condition that is spread over several blocks as one formula.
func (fr *frame) tryShort(b *cblock) (next *cblock) {
	m := fr.m
	if m.pcShortFail[b] > 3 {
		return nil
	}
	s := b.short
	saved := append([]V(nil), fr.regs...)
	depth, top, ip, blk := m.depth, m.top, fr.ip, fr.block
	defer func() {
		m.spec = 0
		fr.ip, fr.block = ip, blk
		m.depth, m.top = depth, top
		if next == nil {
			if r := recover(); r != nil {
				if _, is := r.(specFail); !is {
					if _, is := r.(*TargetPanic); !is {
						panic(r)
					}
				}
			}
			copy(fr.regs, saved)
			m.pcShortFail[b]++
		}
	}()
	m.spec = 1
	memo := map[*cblock]*shortVal{}
	v := fr.evalShort(b, s, b, memo)
	if v == nil {
		return nil
	}
	m.spec = 0
	fr.ip, fr.block = ip, blk
	m.depth, m.top = depth, top
	n := s.y
	vals := v.yv
	if v.hasX && (!v.hasY || m.branchShort(v.c)) {
		n, vals = s.x, v.xv
	}
	for i := range n.phis {
		fr.regs[n.phis[i].dst] = vals[i]
	}
	return n
}

func (m *Machine) branchShort(t *Term) bool {
	if t.IsConst() {
		return t.k != 0
	}
	if m.pcSet[t] {
		return true
	}
	if m.pcSet[m.tc.Not(t)] {
		return false
	}
	return m.branch(t)
}

func (fr *frame) evalShort(b *cblock, s *shortInfo, first *cblock, memo map[*cblock]*shortVal) *shortVal {
	if v, ok := memo[b]; ok {
		return v
	}
	m := fr.m
	if b != first {
		fr.block = b
		for i, op := range b.ops {
			fr.ip = i
			op(fr)
		}
		m.steps += int64(len(b.ops))
	}
	edge := func(n *cblock, pred int) *shortVal {
		if s.set[n] {
			return fr.evalShort(n, s, first, memo)
		}
		vals := make([]V, len(n.phis))
		for i := range n.phis {
			vals[i] = n.phis[i].in[pred].get(fr)
		}
		if n == s.x {
			return &shortVal{c: m.tc.Bool(true), xv: vals, hasX: true}
		}
		return &shortVal{c: m.tc.Bool(false), yv: vals, hasY: true}
	}
	var r *shortVal
	c := b.cond.get(fr)
	t, ok := c.r.(*Term)
	taken := c.n != 0
	if ok && m.pcSet[t] {
		ok, taken = false, true
	} else if ok && m.pcSet[m.tc.Not(t)] {
		ok, taken = false, false
	}
	if !ok {
		if taken {
			r = edge(b.tb, b.tp)
		} else {
			r = edge(b.fb, b.fp)
		}
	} else {
		p := edge(b.tb, b.tp)
		if p == nil {
			return nil
		}
		q := edge(b.fb, b.fp)
		if q == nil {
			return nil
		}
		r = &shortVal{c: m.tc.Ite(t, p.c, q.c), hasX: p.hasX || q.hasX, hasY: p.hasY || q.hasY}
		mix := func(n *cblock, a, b []V, ha, hb bool) ([]V, bool) {
			if !ha {
				return b, true
			}
			if !hb {
				return a, true
			}
			o := make([]V, len(a))
			for i := range a {
				v, ok := m.iteW(t, a[i], b[i], n.phis[i].ti)
				if !ok {
					return nil, false
				}
				o[i] = v
			}
			return o, true
		}
		var ok bool
		if r.xv, ok = mix(s.x, p.xv, q.xv, p.hasX, q.hasX); !ok {
			return nil
		}
		if r.yv, ok = mix(s.y, p.yv, q.yv, p.hasY, q.hasY); !ok {
			return nil
		}
	}
	memo[b] = r
	return r
}

// tryArith evaluates all paths through a loop-free arithmetic function and merges the results with ite.
func (fr *frame) tryArith() (ok bool) {
	m := fr.m
	if m.spec != 0 || m.h.NoMerge {
		return false
	}
	sym := false
	for i := 0; i < fr.cf.nparams; i++ {
		if _, is := fr.regs[i].r.(*Term); is {
			sym = true
		}
	}
	if !sym {
		return false
	}
	saved := append([]V(nil), fr.regs...)
	depth, top := m.depth, m.top
	defer func() {
		m.spec = 0
		m.depth, m.top = depth, top
		if !ok {
			if r := recover(); r != nil {
				if _, is := r.(specFail); !is {
					if _, is := r.(*TargetPanic); !is {
						panic(r)
					}
				}
			}
			copy(fr.regs, saved)
			fr.block, fr.ip, fr.pred = fr.cf.blocks[0], 0, 0
		}
	}()
	m.spec = 1
	budget := 3 * len(fr.cf.blocks)
	ti := infoOf(fr.cf.fn.Signature.Results().At(0).Type())
	v, good := fr.evalArith(fr.cf.blocks[0], -1, ti, &budget)
	if !good {
		return false
	}
	m.spec = 0
	fr.result, fr.block = v, nil
	return true
}

func (fr *frame) evalArith(b *cblock, pred int, ti tinfo, budget *int) (V, bool) {
	m := fr.m
	for {
		if *budget--; *budget < 0 {
			return V{}, false
		}
		fr.pred = pred
		fr.enter(b)
		fr.block = b
		for i, op := range b.ops {
			fr.ip = i
			op(fr)
		}
		m.steps += int64(len(b.ops))
		if b.jump != nil {
			b, pred = b.jump, b.jpred
			continue
		}
		if !b.isIf {
			b.term(fr) // return
			return fr.result, true
		}
		c := b.cond.get(fr)
		t, ok := c.r.(*Term)
		taken := c.n != 0
		if ok {
			if m.pcSet[t] {
				taken = true
			} else if m.pcSet[m.tc.Not(t)] {
				taken = false
			} else {
				fb, fp := b.fb, b.fp
				x, ok := fr.evalArith(b.tb, b.tp, ti, budget)
				if !ok {
					return V{}, false
				}
				y, ok := fr.evalArith(fb, fp, ti, budget)
				if !ok {
					return V{}, false
				}
				return m.iteW(t, x, y, ti)
			}
		}
		if taken {
			b, pred = b.tb, b.tp
		} else {
			b, pred = b.fb, b.fp
		}
	}
}

func (fr *frame) evalRegion(b *cblock, cond *Term, join *cblock, budget *int) ([]V, bool) {
	m := fr.m
	tv, ok := fr.evalPath(b.tb, b.tp, join, budget)
	if !ok {
		return nil, false
	}
	fvv, ok := fr.evalPath(b.fb, b.fp, join, budget)
	if !ok {
		return nil, false
	}
	out := make([]V, len(tv))
	for i := range tv {
		ti := join.phis[i].ti
		v, ok := m.iteW(cond, tv[i], fvv[i], ti)
		if !ok {
			return nil, false
		}
		out[i] = v
	}
	return out, true
}

// evalPath runs from block nb (entered through pred) to the join and returns the phi inputs.
func (fr *frame) evalPath(nb *cblock, pred int, join *cblock, budget *int) ([]V, bool) {
	m := fr.m
	for {
		if nb == join {
			out := make([]V, len(join.phis))
			for i := range join.phis {
				out[i] = join.phis[i].in[pred].get(fr)
			}
			return out, true
		}
		*budget--
		if *budget < 0 {
			return nil, false
		}
		fr.pred = pred
		fr.enter(nb)
		fr.block = nb
		for i, op := range nb.ops {
			fr.ip = i
			op(fr)
		}
		m.steps += int64(len(nb.ops))
		if nb.jump != nil {
			nb, pred = nb.jump, nb.jpred
			continue
		}
		c := nb.cond.get(fr)
		t, ok := c.r.(*Term)
		if !ok {
			if c.n != 0 {
				nb, pred = nb.tb, nb.tp
			} else {
				nb, pred = nb.fb, nb.fp
			}
			continue
		}
		if m.pcSet[t] {
			nb, pred = nb.tb, nb.tp
			continue
		}
		if m.pcSet[m.tc.Not(t)] {
			nb, pred = nb.fb, nb.fp
			continue
		}
		return fr.evalRegion(nb, t, join, budget)
	}
}
