package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Program is shared by all workers.
type Program struct {
	prog   *ssa.Program
	main   *ssa.Package
	mu     sync.Mutex
	cfs    sync.Map // *ssa.Function -> *cfunc
	rtypes typeutil.Map
	nrt    int
	gidx   map[*ssa.Global]int
	gs     []*ssa.Global
	built  map[*ssa.Package]bool
	errT   *RType // *errors.errorString
	wrapT  *RType // *fmt.wrapError
	fset   *token.FileSet
}

type opnd struct {
	k uint8 // 0 reg, 1 const, 2 global
	i int
	c V
}

func (o *opnd) get(fr *frame) V {
	switch o.k {
	case 0:
		return fr.regs[o.i]
	case 1:
		return o.c
	}
	return V{r: fr.m.global(o.i)}
}

type cphi struct {
	dst int
	ti  tinfo
	in  []opnd
}

type cblock struct {
	idx    int
	phis   []cphi
	ops    []func(fr *frame)
	pos    []token.Pos
	names  []string
	term   func(fr *frame) *cblock // sets fr.pred
	merge  *mergeInfo
	short  *shortInfo
	jump   *cblock // unconditional successor
	jpred  int
	cond   opnd // If
	isIf   bool
	tb, fb *cblock
	tp, fp int
	tpos   token.Pos
	pure   bool
	sb     *ssa.BasicBlock
}

type mergeInfo struct {
	join *cblock
}

// shortInfo describes a condition spread over several pure blocks (&&, ||) with exactly two exits.
type shortInfo struct {
	set  map[*cblock]bool
	x, y *cblock
}

type cfunc struct {
	fn       *ssa.Function
	nregs    int
	nparams  int
	nfv      int
	blocks   []*cblock
	hasDefer bool
	recover  *cblock
	intr     func(m *Machine, args []V) V
	name     string
	steps    int64
	arith    bool // loop-free, no memory access, one integer result, many blocks: evaluated as one ite
}

func (p *Program) rtype(t types.Type) *RType {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.rtypeL(t)
}

func (p *Program) rtypeL(t types.Type) *RType {
	if r := p.rtypes.At(t); r != nil {
		return r.(*RType)
	}
	p.nrt++
	r := &RType{t: t, id: p.nrt, methods: map[string]*ssa.Function{}, impl: map[types.Type]bool{}}
	p.rtypes.Set(t, r)
	return r
}

func (p *Program) lookupMethod(rt *RType, m *types.Func) *ssa.Function {
	key := m.Id()
	p.mu.Lock()
	defer p.mu.Unlock()
	if f, ok := rt.methods[key]; ok {
		return f
	}
	f := p.prog.LookupMethod(rt.t, m.Pkg(), m.Name())
	rt.methods[key] = f
	return f
}

func (p *Program) implements(rt *RType, it *types.Interface, key types.Type) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	if b, ok := rt.impl[key]; ok {
		return b
	}
	b := types.Implements(rt.t, it)
	rt.impl[key] = b
	return b
}

func (p *Program) globalIdx(g *ssa.Global) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	if i, ok := p.gidx[g]; ok {
		return i
	}
	i := len(p.gs)
	p.gs = append(p.gs, g)
	p.gidx[g] = i
	return i
}

func (p *Program) ensureBuilt(pkg *ssa.Package) {
	if pkg == nil {
		return
	}
	p.mu.Lock()
	b := p.built[pkg]
	if !b {
		p.built[pkg] = true
	}
	p.mu.Unlock()
	if !b {
		pkg.Build()
	} else {
		pkg.Build() // waits for a concurrent build (sync.Once)
	}
}

func (p *Program) compiled(fn *ssa.Function) *cfunc {
	if c, ok := p.cfs.Load(fn); ok {
		return c.(*cfunc)
	}
	c := p.compile(fn)
	act, _ := p.cfs.LoadOrStore(fn, c)
	return act.(*cfunc)
}

func (p *Program) compile(fn *ssa.Function) *cfunc {
	name := fn.String()
	cf := &cfunc{fn: fn, name: name}
	org := fn
	if fn.Origin() != nil {
		org = fn.Origin()
	}
	if in, ok := intrinsics[name]; ok {
		cf.intr = in
		return cf
	}
	if in, ok := intrinsics[org.String()]; ok {
		cf.intr = in
		return cf
	}
	if fn.Pkg != nil && fn.Pkg == p.main && strings.HasPrefix(fn.Name(), "vf") {
		if in, ok := vfIntrinsics[fn.Name()]; ok {
			cf.intr = in
			return cf
		}
	}
	pkg := fn.Pkg
	if pkg == nil && fn.Origin() != nil {
		pkg = fn.Origin().Pkg
	}
	p.ensureBuilt(pkg)
	if fn.Blocks == nil {
		res := fn.Signature.Results()
		cf.intr = func(m *Machine, args []V) V {
			if m.initing > 0 {
				m.ex.note("initialiser calls " + name + " (assembly or linkname), taken as zero")
				switch res.Len() {
				case 0:
					return V{}
				case 1:
					return zero(res.At(0).Type())
				}
				return zero(res)
			}
			m.unsupported("no body: " + name)
			return V{}
		}
		return cf
	}
	cc := &compiler{p: p, cf: cf, regs: map[ssa.Value]int{}}
	for _, x := range fn.Params {
		cc.reg(x)
	}
	cf.nparams = len(fn.Params)
	for _, x := range fn.FreeVars {
		cc.reg(x)
	}
	cf.nfv = len(fn.FreeVars)
	cf.blocks = make([]*cblock, len(fn.Blocks))
	for i, b := range fn.Blocks {
		cf.blocks[i] = &cblock{idx: i, sb: b}
	}
	for i, b := range fn.Blocks {
		cc.block(cf.blocks[i], b)
	}
	if fn.Recover != nil {
		cf.recover = cf.blocks[fn.Recover.Index]
	}
	cc.merges()
	cc.arith()
	cf.nregs = len(cc.regs)
	return cf
}

type compiler struct {
	p    *Program
	cf   *cfunc
	regs map[ssa.Value]int
}

func (c *compiler) reg(v ssa.Value) int {
	if i, ok := c.regs[v]; ok {
		return i
	}
	i := len(c.regs)
	c.regs[v] = i
	return i
}

func (c *compiler) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{k: 1, c: constV(x)}
	case *ssa.Global:
		return opnd{k: 2, i: c.p.globalIdx(x)}
	case *ssa.Function:
		return opnd{k: 1, c: V{r: &Closure{fn: x}}}
	case *ssa.Builtin:
		return opnd{k: 1}
	}
	return opnd{k: 0, i: c.reg(v)}
}

func constV(x *ssa.Const) V {
	if x.Value == nil {
		return zero(x.Type())
	}
	ti := infoOf(x.Type())
	switch ti.kind {
	case 2:
		return bv(constant.BoolVal(x.Value))
	case 1:
		v := constant.ToInt(x.Value)
		if i, ok := constant.Int64Val(v); ok {
			return V{n: uint64(i) & mask(ti.w)}
		}
		u, _ := constant.Uint64Val(v)
		return V{n: u & mask(ti.w)}
	case 3:
		f, _ := constant.Float64Val(x.Value)
		if ti.w == 32 {
			f32, _ := constant.Float32Val(x.Value)
			f = float64(f32)
		}
		return fv(f)
	case 4:
		if x.Value.Kind() == constant.String {
			return sv(constant.StringVal(x.Value))
		}
		i, _ := constant.Int64Val(x.Value)
		return sv(string(rune(i)))
	}
	panic(fmt.Sprintf("constV %v %v", x, x.Type()))
}

func edgeIdx(from, to *ssa.BasicBlock, nth int) int {
	k := 0
	for i, p := range to.Preds {
		if p == from {
			if k == nth {
				return i
			}
			k++
		}
	}
	panic("edgeIdx")
}

func (c *compiler) block(cb *cblock, b *ssa.BasicBlock) {
	cb.pure = true
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			ph := cphi{dst: c.reg(x), ti: infoOf(x.Type())}
			for _, e := range x.Edges {
				ph.in = append(ph.in, c.op(e))
			}
			cb.phis = append(cb.phis, ph)
			continue
		case *ssa.DebugRef:
			continue
		case *ssa.Jump:
			to := c.cf.blocks[b.Succs[0].Index]
			pi := edgeIdx(b, b.Succs[0], 0)
			cb.jump, cb.jpred = to, pi
			cb.term = func(fr *frame) *cblock { fr.pred = pi; return to }
			continue
		case *ssa.If:
			cb.isIf = true
			cb.cond = c.op(x.Cond)
			cb.tpos = x.Cond.Pos()
			cb.tb, cb.fb = c.cf.blocks[b.Succs[0].Index], c.cf.blocks[b.Succs[1].Index]
			cb.tp = edgeIdx(b, b.Succs[0], 0)
			n := 0
			if b.Succs[0] == b.Succs[1] {
				n = 1
			}
			cb.fp = edgeIdx(b, b.Succs[1], n)
			cb.term = func(fr *frame) *cblock { return fr.doIf(cb) }
			continue
		case *ssa.Return:
			cb.pure = false
			ops := make([]opnd, len(x.Results))
			for i, r := range x.Results {
				ops[i] = c.op(r)
			}
			cb.tpos = x.Pos()
			cb.term = func(fr *frame) *cblock {
				switch len(ops) {
				case 0:
				case 1:
					fr.result = ops[0].get(fr)
				default:
					t := make(Tuple, len(ops))
					for i := range ops {
						t[i] = ops[i].get(fr)
					}
					fr.result = V{r: t}
				}
				return nil
			}
			continue
		case *ssa.Panic:
			cb.pure = false
			o := c.op(x.X)
			pos := x.Pos()
			cb.tpos = pos
			cb.term = func(fr *frame) *cblock {
				fr.m.noSpec()
				v := o.get(fr)
				msg := "panic"
				if i, ok := v.r.(*Iface); ok {
					if s, ok := goStr(i.v); ok && infoOf(i.t.t).kind == 4 {
						msg = "panic: " + s
					} else {
						msg = "panic: " + i.t.t.String()
					}
				}
				panic(&TargetPanic{v: v, msg: msg, site: fr.m.site()})
			}
			continue
		}
		if !pureInstr(in) {
			cb.pure = false
		}
		f := c.instr(in)
		if f != nil {
			cb.ops = append(cb.ops, f)
			cb.pos = append(cb.pos, in.Pos())
		}
	}
}

func pureInstr(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.BinOp:
		switch x.Op {
		case token.QUO, token.REM:
			_, ok := x.Y.(*ssa.Const)
			return ok
		}
		return true
	case *ssa.UnOp:
		return x.Op != token.ARROW
	case *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Extract, *ssa.ChangeType, *ssa.Convert, *ssa.Slice, *ssa.DebugRef, *ssa.Phi, *ssa.Jump, *ssa.If:
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "min", "max":
				return true
			}
		}
	}
	return false
}

// merges computes, for every If, whether the region up to its immediate postdominator is small, acyclic and pure.
func (c *compiler) merges() {
	n := len(c.cf.blocks)
	if n > 600 {
		return
	}
	for _, cb := range c.cf.blocks {
		if !cb.isIf || cb.tb == cb.fb {
			continue
		}
		// forward region search: collect blocks reachable through pure blocks, find the single exit.
		if j := c.findJoin(cb); j != nil {
			cb.merge = &mergeInfo{join: j}
		}
		cb.short = c.findShort(cb)
	}
}

func (c *compiler) findShort(cb *cblock) *shortInfo {
	set := map[*cblock]bool{cb: true}
	var best *shortInfo
	for len(set) < 10 {
		// exits in order of discovery
		var exits []*cblock
		var blocks []*cblock
		for _, b := range c.cf.blocks {
			if set[b] {
				blocks = append(blocks, b)
			}
		}
		for _, b := range blocks {
			for _, e := range []*cblock{b.tb, b.fb} {
				if !set[e] {
					dup := false
					for _, o := range exits {
						dup = dup || o == e
					}
					if !dup {
						exits = append(exits, e)
					}
				} else if e == cb {
					return best
				}
			}
		}
		if len(set) > 1 && len(exits) == 2 {
			s := &shortInfo{set: map[*cblock]bool{}, x: exits[0], y: exits[1]}
			for b := range set {
				s.set[b] = true
			}
			best = s
		}
		var grow *cblock
		for _, e := range exits {
			if !e.pure || !e.isIf || e.tb == e.fb || len(e.phis) > 0 || len(e.ops) > 12 || e.tb == e || e.fb == e {
				continue
			}
			ok := true
			for _, p := range e.sb.Preds {
				ok = ok && set[c.cf.blocks[p.Index]]
			}
			if ok {
				grow = e
				break
			}
		}
		if grow == nil {
			break
		}
		set[grow] = true
	}
	return best
}

// arith marks functions that classify numbers by long chains of comparisons.
func (c *compiler) arith() {
	n := len(c.cf.blocks)
	if n < 3 || n > 2000 || c.cf.hasDefer || c.cf.fn.Signature.Results().Len() != 1 {
		return
	}
	if k := infoOf(c.cf.fn.Signature.Results().At(0).Type()).kind; k != 1 && k != 2 {
		return
	}
	state := make([]int, n)
	var visit func(b *ssa.BasicBlock) bool
	visit = func(b *ssa.BasicBlock) bool {
		if state[b.Index] != 0 {
			return state[b.Index] == 2
		}
		state[b.Index] = 1
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.Phi, *ssa.Jump, *ssa.If, *ssa.Return, *ssa.DebugRef:
				if bo, ok := x.(*ssa.BinOp); ok && !pureInstr(bo) {
					return false
				}
			default:
				return false
			}
		}
		for _, s := range b.Succs {
			if !visit(s) {
				return false
			}
		}
		state[b.Index] = 2
		return true
	}
	c.cf.arith = visit(c.cf.fn.Blocks[0])
}

func (c *compiler) findJoin(cb *cblock) *cblock {
	// candidate joins: successors reachable within depth; try those with >=2 preds
	cands := []*cblock{}
	seen := map[*cblock]bool{cb: true}
	queue := []*cblock{cb.tb, cb.fb}
	for len(queue) > 0 && len(seen) < 14 {
		b := queue[0]
		queue = queue[1:]
		if seen[b] {
			continue
		}
		seen[b] = true
		if len(b.sb.Preds) >= 2 {
			cands = append(cands, b)
		}
		for _, s := range b.sb.Succs {
			queue = append(queue, c.cf.blocks[s.Index])
		}
	}
	for _, j := range cands {
		if c.regionOK(cb, j) {
			return j
		}
	}
	return nil
}

func (c *compiler) regionOK(cb, join *cblock) bool {
	state := map[*cblock]int{}
	cnt := 0
	var visit func(b *cblock) bool
	visit = func(b *cblock) bool {
		if b == join {
			return true
		}
		if b == cb || state[b] == 1 {
			return false // cycle
		}
		if state[b] == 2 {
			return true
		}
		state[b] = 1
		cnt++
		if !b.pure || cnt > 10 || len(b.sb.Succs) == 0 {
			return false
		}
		for _, s := range b.sb.Succs {
			if !visit(c.cf.blocks[s.Index]) {
				return false
			}
		}
		state[b] = 2
		return true
	}
	if !visit(cb.tb) || !visit(cb.fb) {
		return false
	}
	// all preds of region blocks are in the region or cb
	for b := range state {
		for _, p := range b.sb.Preds {
			pb := c.cf.blocks[p.Index]
			if pb != cb && state[pb] == 0 {
				return false
			}
		}
	}
	// join must not be reached by zero phis with side effects only: fine either way
	return true
}

// ---- instructions ----

func (c *compiler) instr(in ssa.Instruction) func(fr *frame) {
	switch x := in.(type) {
	case *ssa.Alloc:
		d := c.reg(x)
		t := x.Type().Underlying().(*types.Pointer).Elem()
		agg := isAgg(t)
		return func(fr *frame) {
			p := new(V)
			if agg {
				*p = zero(t)
			}
			fr.regs[d] = V{r: p}
		}
	case *ssa.UnOp:
		return c.unop(x)
	case *ssa.BinOp:
		return c.binop(x)
	case *ssa.Store:
		a, v := c.op(x.Addr), c.op(x.Val)
		return func(fr *frame) {
			fr.m.noSpec()
			fr.m.store(a.get(fr), v.get(fr))
		}
	case *ssa.FieldAddr:
		d, b, f := c.reg(x), c.op(x.X), x.Field
		return func(fr *frame) {
			p := fr.m.cell(b.get(fr))
			fr.regs[d] = V{r: &p.r.(*Agg).e[f]}
		}
	case *ssa.Field:
		d, b, f := c.reg(x), c.op(x.X), x.Field
		return func(fr *frame) { fr.regs[d] = copyV(b.get(fr).r.(*Agg).e[f]) }
	case *ssa.IndexAddr:
		d, b, i := c.reg(x), c.op(x.X), c.op(x.Index)
		ii := infoOf(x.Index.Type())
		et := x.Type().Underlying().(*types.Pointer).Elem()
		eti := infoOf(et)
		scalar := eti.kind == 1 || eti.kind == 2
		return func(fr *frame) {
			var e []V
			bvv := b.get(fr)
			switch r := bvv.r.(type) {
			case Slice:
				e = r
			case nil:
				if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
					fr.m.rtPanic("invalid memory address or nil pointer dereference")
				}
			case *V:
				e = r.r.(*Agg).e
			default:
				fr.m.unsupported(fmt.Sprintf("IndexAddr on %T", bvv.r))
			}
			iv := i.get(fr)
			if iv.r == nil {
				idx := sxi(iv.n, ii)
				if idx < 0 || idx >= int64(len(e)) {
					fr.m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", idx, len(e)))
				}
				fr.regs[d] = V{r: &e[idx]}
				return
			}
			t := fr.m.index64(iv, ii, len(e))
			if t.IsConst() {
				fr.regs[d] = V{r: &e[t.k]}
				return
			}
			if scalar && int(t.hi-t.lo) < fr.m.maxIte(e, t) {
				fr.regs[d] = V{r: &SymPtr{e, t, eti}}
				return
			}
			k := fr.m.concretize(t)
			fr.regs[d] = V{r: &e[k]}
		}
	case *ssa.Index:
		d, b, i := c.reg(x), c.op(x.X), c.op(x.Index)
		ii := infoOf(x.Index.Type())
		return func(fr *frame) {
			bvv := b.get(fr)
			var e []V
			if a, ok := bvv.r.(*Agg); ok {
				e = a.e
			} else {
				n := strLen(bvv)
				iv := i.get(fr)
				if iv.r == nil {
					idx := sxi(iv.n, ii)
					if idx < 0 || idx >= int64(n) {
						fr.m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", idx, n))
					}
					fr.regs[d] = strAt(bvv, int(idx))
					return
				}
				e = strBytes(bvv)
			}
			iv := i.get(fr)
			if iv.r == nil {
				idx := sxi(iv.n, ii)
				if idx < 0 || idx >= int64(len(e)) {
					fr.m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", idx, len(e)))
				}
				fr.regs[d] = copyV(e[idx])
				return
			}
			t := fr.m.index64(iv, ii, len(e))
			fr.regs[d] = fr.m.symLoad(e, t, infoOf(x.Type()))
		}
	case *ssa.Lookup:
		return c.lookup(x)
	case *ssa.Slice:
		return c.slice(x)
	case *ssa.MakeSlice:
		d, l, cp := c.reg(x), c.op(x.Len), c.op(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		li, ci := infoOf(x.Len.Type()), infoOf(x.Cap.Type())
		agg := isAgg(et)
		esz := sizeof(et)
		return func(fr *frame) {
			m := fr.m
			m.noSpec()
			n := m.allocLen(l.get(fr), li, esz)
			var k int
			if cv := cp.get(fr); symOnly(cv) && n >= 0 && !agg {
				// a symbolic capacity stands for spare room; only its limits are checked
				k = m.allocCap(cv, ci, esz, n)
			} else {
				k = m.allocLen(cv, ci, esz)
			}
			if n < 0 || k < n {
				m.rtPanic("makeslice: len out of range")
			}
			s := make([]V, n, k)
			if agg {
				f := s[:k]
				for i := range f {
					f[i] = zero(et)
				}
			}
			fr.regs[d] = V{r: Slice(s)}
		}
	case *ssa.MakeMap:
		d := c.reg(x)
		return func(fr *frame) { fr.regs[d] = V{r: &MapV{idx: map[any]int{}}} }
	case *ssa.MapUpdate:
		mm, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		return func(fr *frame) {
			fr.m.noSpec()
			mp, _ := mm.get(fr).r.(*MapV)
			if mp == nil {
				fr.m.rtPanic("assignment to entry in nil map")
			}
			fr.m.mapSet(mp, k.get(fr), copyV(v.get(fr)))
		}
	case *ssa.MakeInterface:
		d, v := c.reg(x), c.op(x.X)
		rt := c.p.rtype(x.X.Type())
		return func(fr *frame) { fr.regs[d] = V{r: &Iface{rt, copyV(v.get(fr))}} }
	case *ssa.ChangeInterface:
		d, v := c.reg(x), c.op(x.X)
		return func(fr *frame) { fr.regs[d] = v.get(fr) }
	case *ssa.ChangeType:
		d, v := c.reg(x), c.op(x.X)
		return func(fr *frame) { fr.regs[d] = v.get(fr) }
	case *ssa.MultiConvert:
		return func(fr *frame) { fr.m.unsupported("MultiConvert") }
	case *ssa.Convert:
		return c.convert(x)
	case *ssa.SliceToArrayPointer:
		d, v := c.reg(x), c.op(x.X)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		return func(fr *frame) {
			s, _ := v.get(fr).r.(Slice)
			if int64(len(s)) < n {
				fr.m.rtPanic("cannot convert slice to array: length too short")
			}
			if s == nil {
				fr.regs[d] = V{}
				return
			}
			fr.regs[d] = V{r: &V{r: &Agg{s[:n:n]}}}
		}
	case *ssa.Extract:
		d, v, i := c.reg(x), c.op(x.Tuple), x.Index
		return func(fr *frame) { fr.regs[d] = v.get(fr).r.(Tuple)[i] }
	case *ssa.MakeClosure:
		d := c.reg(x)
		fn := x.Fn.(*ssa.Function)
		bs := make([]opnd, len(x.Bindings))
		for i, b := range x.Bindings {
			bs[i] = c.op(b)
		}
		return func(fr *frame) {
			cl := &Closure{fn: fn, fv: make([]V, len(bs))}
			for i := range bs {
				cl.fv[i] = bs[i].get(fr)
			}
			fr.regs[d] = V{r: cl}
		}
	case *ssa.TypeAssert:
		return c.typeAssert(x)
	case *ssa.Range:
		d, v := c.reg(x), c.op(x.X)
		return func(fr *frame) {
			xv := v.get(fr)
			if m, ok := xv.r.(*MapV); ok {
				fr.regs[d] = V{r: fr.m.mapIter(m)}
				return
			}
			if _, ok := x.X.Type().Underlying().(*types.Map); ok {
				fr.regs[d] = V{r: &MapIter{m: &MapV{}}}
				return
			}
			fr.regs[d] = V{r: &StrIter{s: xv}}
		}
	case *ssa.Next:
		d, v := c.reg(x), c.op(x.Iter)
		return func(fr *frame) { fr.regs[d] = fr.m.next(v.get(fr)) }
	case *ssa.Call:
		d := c.reg(x)
		call := c.call(&x.Call)
		return func(fr *frame) { fr.regs[d] = call(fr) }
	case *ssa.Defer:
		c.cf.hasDefer = true
		prep := c.prepCall(&x.Call)
		return func(fr *frame) {
			fr.m.noSpec()
			f := prep(fr)
			fr.defers = append(fr.defers, f)
		}
	case *ssa.RunDefers:
		return func(fr *frame) { fr.runDefers() }
	case *ssa.Go:
		return func(fr *frame) { fr.m.unsupported("go statement") }
	case *ssa.Select, *ssa.Send, *ssa.MakeChan:
		return func(fr *frame) { fr.m.unsupported("channels") }
	}
	s := fmt.Sprintf("%T", in)
	return func(fr *frame) { fr.m.unsupported("instruction " + s) }
}

func sxi(n uint64, ii tinfo) int64 {
	if ii.signed {
		return sx(n, ii.w)
	}
	if n>>63 != 0 {
		return math.MaxInt64
	}
	return int64(n)
}

func sizeof(t types.Type) int64 {
	return stdSizes.Sizeof(t)
}

var stdSizes = types.SizesFor("gc", "amd64")

func (c *compiler) typeAssert(x *ssa.TypeAssert) func(fr *frame) {
	d, v := c.reg(x), c.op(x.X)
	at := x.AssertedType
	it, isI := at.Underlying().(*types.Interface)
	var rt *RType
	if !isI {
		rt = c.p.rtype(at)
	}
	commaOk := x.CommaOk
	return func(fr *frame) {
		i, _ := v.get(fr).r.(*Iface)
		ok := false
		var res V
		if i != nil {
			if isI {
				ok = fr.m.p.implements(i.t, it, at)
				res = V{r: i}
			} else {
				ok = i.t == rt
				res = copyV(i.v)
			}
		}
		if commaOk {
			if !ok {
				res = zero(at)
			}
			fr.regs[d] = V{r: Tuple{res, bv(ok)}}
			return
		}
		if !ok {
			fr.m.rtPanic("interface conversion: type assertion to " + at.String() + " failed")
		}
		fr.regs[d] = res
	}
}

// prepCall evaluates callee and arguments, returns a thunk.
func (c *compiler) prepCall(cc *ssa.CallCommon) func(fr *frame) func() V {
	args := make([]opnd, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = c.op(a)
	}
	get := func(fr *frame) []V {
		r := make([]V, len(args))
		for i := range args {
			r[i] = copyV(args[i].get(fr))
		}
		return r
	}
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		mth := cc.Method
		return func(fr *frame) func() V {
			i, _ := recv.get(fr).r.(*Iface)
			if i == nil {
				fr.m.rtPanic("invalid memory address or nil pointer dereference")
			}
			fn := fr.m.p.lookupMethod(i.t, mth)
			if fn == nil {
				fr.m.unsupported("method not found " + mth.FullName())
			}
			a := append([]V{copyV(i.v)}, get(fr)...)
			return func() V { return fr.m.callFn(fn, a, nil, fr) }
		}
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		bi := c.builtin(f, cc)
		return func(fr *frame) func() V {
			a := get(fr)
			return func() V { return bi(fr, a) }
		}
	case *ssa.Function:
		return func(fr *frame) func() V {
			a := get(fr)
			return func() V { return fr.m.callFn(f, a, nil, fr) }
		}
	}
	fo := c.op(cc.Value)
	return func(fr *frame) func() V {
		cl, _ := fo.get(fr).r.(*Closure)
		if cl == nil {
			fr.m.rtPanic("invalid memory address or nil pointer dereference")
		}
		a := get(fr)
		return func() V { return fr.m.callClosure(cl, a, fr) }
	}
}

func (c *compiler) call(cc *ssa.CallCommon) func(fr *frame) V {
	args := make([]opnd, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = c.op(a)
	}
	if cc.IsInvoke() {
		prep := c.prepCall(cc)
		return func(fr *frame) V {
			fr.m.noSpec()
			return prep(fr)()
		}
	}
	if f, ok := cc.Value.(*ssa.Function); ok {
		var cf *cfunc
		return func(fr *frame) V {
			m := fr.m
			m.noSpec()
			if cf == nil {
				cf = m.p.compiled(f)
			}
			if cf.intr != nil {
				a := make([]V, len(args))
				for i := range args {
					a[i] = args[i].get(fr)
				}
				return m.callIntr(cf, a, fr)
			}
			var buf [8]V
			a := buf[:0]
			for i := range args {
				a = append(a, copyV(args[i].get(fr)))
			}
			return m.run(cf, a, nil, fr)
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		bi := c.builtin(b, cc)
		pure := false
		switch b.Name() {
		case "len", "cap", "min", "max", "ssa:wrapnilchk":
			pure = true
		}
		return func(fr *frame) V {
			if !pure {
				fr.m.noSpec()
			}
			a := make([]V, len(args))
			for i := range args {
				a[i] = args[i].get(fr)
			}
			return bi(fr, a)
		}
	}
	prep := c.prepCall(cc)
	return func(fr *frame) V {
		fr.m.noSpec()
		return prep(fr)()
	}
}
