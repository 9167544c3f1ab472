package main

// SMT solver process (z3 -in), incremental, one assertion per push level.

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

type Solver struct {
	ctx     *TermCtx
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	stack   []*Term          // asserted, one per level
	defined []map[int32]bool // term ids defined at each level (index 0 = base)
	isDef   map[int32]bool
	nvars   int // declared variables (declared at base level through reset-safe global decls)
	Queries int
	NSat    int
	NUnsat  int
	NUnk    int
	Time    time.Duration
	bin     string
	timeout int // ms
	buf     strings.Builder
	log     io.Writer
	dead    bool
	Port    int // queries decided by the portfolio
	PortBy  map[string]int
}

const firstMs = 1500

// portfolio decides pc ∧ extra with several solver processes; the first decisive answer counts.
func (s *Solver) portfolio(pc []*Term, extra *Term) (Result, []uint64) {
	q := StandaloneQuery(s.ctx, pc, extra)
	var sb strings.Builder
	seen := map[string]bool{}
	for _, l := range strings.Split(q, "\n") {
		if strings.HasPrefix(l, "(declare-fun v") {
			seen[strings.Fields(l)[1]] = true
		}
	}
	if len(seen) > 0 {
		sb.WriteString("(get-value (")
		for v := range seen {
			sb.WriteString(" " + v)
		}
		sb.WriteString("))\n")
	}
	q = "(set-option :produce-models true)\n" + q + sb.String()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(s.timeout)*time.Millisecond)
	defer cancel()
	cmds := [][]string{{"cvc5", "-"}, {s.bin, "-in", "-smt2"}}
	if s.bin != "z3" {
		cmds = append(cmds, []string{"z3", "-in", "-smt2"})
	}
	type ans struct{ who, out string }
	ch := make(chan ans, len(cmds))
	for _, c := range cmds {
		go func(c []string) {
			p := exec.CommandContext(ctx, c[0], c[1:]...)
			p.Stdin = strings.NewReader(q)
			out, _ := p.Output()
			ch <- ans{c[0], string(out)}
		}(c)
	}
	for range cmds {
		a := <-ch
		r, rest, _ := strings.Cut(strings.TrimSpace(a.out), "\n")
		switch strings.TrimSpace(r) {
		case "unsat":
			s.port(a.who)
			return Unsat, nil
		case "sat":
			mv := make([]uint64, len(s.ctx.vars))
			parseModel(rest, mv)
			s.port(a.who)
			return Sat, mv
		}
	}
	return Unknown, nil
}

func (s *Solver) port(who string) {
	s.Port++
	if s.PortBy == nil {
		s.PortBy = map[string]int{}
	}
	s.PortBy[who]++
}

func NewSolver(ctx *TermCtx, bin string, timeoutMs int) *Solver {
	s := &Solver{ctx: ctx, bin: bin, timeout: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.stack = nil
	s.defined = []map[int32]bool{{}}
	s.isDef = map[int32]bool{}
	s.nvars = 0
	s.dead = false
	s.send("(set-option :global-declarations false)\n(set-option :produce-models true)\n")
	s.send(fmt.Sprintf("(set-option :timeout %d)\n(set-logic QF_BV)\n", firstMs))
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) send(x string) {
	if s.log != nil {
		io.WriteString(s.log, x)
	}
	s.in.WriteString(x)
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func constStr(t *Term) string {
	if t.w == 0 {
		if t.k != 0 {
			return "true"
		}
		return "false"
	}
	return "(_ bv" + strconv.FormatUint(t.k, 10) + " " + strconv.Itoa(int(t.w)) + ")"
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		return constStr(t)
	case OVar:
		return "v" + strconv.Itoa(int(t.k))
	}
	return "t" + strconv.Itoa(int(t.id))
}

// define emits define-funs for t and its subterms at the current level.
func (s *Solver) define(root *Term) {
	type fr struct {
		t *Term
		i int
	}
	if root.op == OConst {
		return
	}
	st := []fr{{root, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		t := f.t
		if t.op == OConst || s.isDef[t.id] {
			st = st[:len(st)-1]
			continue
		}
		if t.op == OVar {
			s.mark(t.id)
			s.send("(declare-fun v" + strconv.Itoa(int(t.k)) + " () " + sortName(t.w) + ")\n")
			st = st[:len(st)-1]
			continue
		}
		var ch *Term
		switch f.i {
		case 0:
			ch = t.a
		case 1:
			ch = t.b
		case 2:
			ch = t.c
		}
		if f.i < 3 {
			f.i++
			if ch != nil && ch.op != OConst && !s.isDef[ch.id] {
				st = append(st, fr{ch, 0})
			}
			continue
		}
		s.mark(t.id)
		b := &s.buf
		b.Reset()
		b.WriteString("(define-fun t")
		b.WriteString(strconv.Itoa(int(t.id)))
		b.WriteString(" () ")
		b.WriteString(sortName(t.w))
		b.WriteString(" ")
		switch t.op {
		case OExtract:
			fmt.Fprintf(b, "((_ extract %d %d) %s)", int(t.k)+int(t.w)-1, t.k, s.ref(t.a))
		case OSext:
			fmt.Fprintf(b, "((_ sign_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
		default:
			b.WriteString("(")
			b.WriteString(opNames[t.op])
			b.WriteString(" ")
			b.WriteString(s.ref(t.a))
			if t.b != nil {
				b.WriteString(" ")
				b.WriteString(s.ref(t.b))
			}
			if t.c != nil {
				b.WriteString(" ")
				b.WriteString(s.ref(t.c))
			}
			b.WriteString(")")
		}
		b.WriteString(")\n")
		s.send(b.String())
		st = st[:len(st)-1]
	}
}

func (s *Solver) mark(id int32) {
	s.isDef[id] = true
	s.defined[len(s.defined)-1][id] = true
}

func (s *Solver) push() {
	s.send("(push 1)\n")
	s.defined = append(s.defined, map[int32]bool{})
}

func (s *Solver) pop(n int) {
	if n == 0 {
		return
	}
	s.send("(pop " + strconv.Itoa(n) + ")\n")
	for i := 0; i < n; i++ {
		top := s.defined[len(s.defined)-1]
		for id := range top {
			delete(s.isDef, id)
		}
		s.defined = s.defined[:len(s.defined)-1]
	}
}

// Sync makes the assertion stack equal to pc.
func (s *Solver) Sync(pc []*Term) {
	if s.dead {
		s.start()
	}
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if len(s.stack) > n {
		s.pop(len(s.stack) - n)
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		s.push()
		s.define(t)
		s.send("(assert " + s.ref(t) + ")\n")
		s.stack = append(s.stack, t)
	}
}

// Check decides pc ∧ extra. On Sat the model (by variable index) is returned.
func (s *Solver) Check(pc []*Term, extra *Term) (Result, []uint64) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	s.Sync(pc)
	if extra != nil {
		s.push()
		s.define(extra)
		s.send("(assert " + s.ref(extra) + ")\n")
	}
	s.send("(check-sat)\n")
	r, err := s.readLine()
	var res Result
	switch {
	case err != nil:
		s.Close()
		s.dead = true
		s.NUnk++
		return Unknown, nil
	case r == "sat":
		res = Sat
		s.NSat++
	case r == "unsat":
		res = Unsat
		s.NUnsat++
	case r == "unknown" || r == "timeout":
		if extra != nil {
			s.pop(1)
		}
		res, mv := s.portfolio(pc, extra)
		switch res {
		case Sat:
			s.NSat++
		case Unsat:
			s.NUnsat++
		default:
			s.NUnk++
		}
		return res, mv
	default:
		// any error line is inconclusive: restart the process
		solverErr(r)
		s.Close()
		s.dead = true
		s.NUnk++
		return Unknown, nil
	}
	var mv []uint64
	if res == Sat {
		mv = s.model()
	}
	if extra != nil {
		s.pop(1)
	}
	return res, mv
}

func (s *Solver) readLine() (string, error) {
	if err := s.in.Flush(); err != nil {
		return "", err
	}
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

func (s *Solver) model() []uint64 {
	mv := make([]uint64, len(s.ctx.vars))
	var q []int
	for i, v := range s.ctx.vars {
		if s.isDef[v.t.id] {
			q = append(q, i)
		}
	}
	if len(q) == 0 {
		return mv
	}
	s.send("(get-value (")
	for _, i := range q {
		s.send(" v" + strconv.Itoa(i))
	}
	s.send("))\n")
	s.in.Flush()
	// read a balanced s-expression
	depth := 0
	var sb strings.Builder
	for {
		ch, err := s.out.ReadByte()
		if err != nil {
			panic(err)
		}
		if ch == '(' {
			depth++
		} else if ch == ')' {
			depth--
		}
		sb.WriteByte(ch)
		if depth == 0 && ch == ')' {
			break
		}
	}
	s.out.ReadString('\n')
	parseModel(sb.String(), mv)
	return mv
}

func parseModel(text string, mv []uint64) {
	toks := strings.FieldsFunc(text, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\r' })
	for i := 0; i < len(toks); {
		if toks[i] == "" || toks[i][0] != 'v' {
			i++
			continue
		}
		idx, err := strconv.Atoi(toks[i][1:])
		if err != nil {
			panic("model parse: " + text)
		}
		v := toks[i+1]
		switch {
		case strings.HasPrefix(v, "#x"):
			mv[idx], _ = strconv.ParseUint(v[2:], 16, 64)
			i += 2
		case strings.HasPrefix(v, "#b"):
			mv[idx], _ = strconv.ParseUint(v[2:], 2, 64)
			i += 2
		case v == "true":
			mv[idx] = 1
			i += 2
		case v == "false":
			i += 2
		case v == "_": // (_ bvN w)
			mv[idx], _ = strconv.ParseUint(strings.TrimPrefix(toks[i+2], "bv"), 10, 64)
			i += 4
		default:
			panic("model parse: " + text)
		}
	}
}

var solverErrs = make(chan string, 100)

func solverErr(s string) {
	select {
	case solverErrs <- s:
	default:
	}
}

// StandaloneQuery renders pc ∧ extra as a self-contained SMT-LIB script.
func StandaloneQuery(ctx *TermCtx, pc []*Term, extra *Term) string {
	var sb strings.Builder
	s := &Solver{ctx: ctx, log: &sb, defined: []map[int32]bool{{}}, isDef: map[int32]bool{}}
	s.in = bufio.NewWriter(io.Discard)
	s.send("(set-logic QF_BV)\n")
	for _, t := range pc {
		s.define(t)
		s.send("(assert " + s.ref(t) + ")\n")
	}
	if extra != nil {
		s.define(extra)
		s.send("(assert " + s.ref(extra) + ")\n")
	}
	s.send("(check-sat)\n")
	return sb.String()
}
