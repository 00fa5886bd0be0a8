package main

// One SMT solver process per worker, driven over SMT-LIB2 with push/pop.

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type frame0 struct {
	lits  []*Term
	names []*Term // definitions introduced in this frame
}

type SolverStats struct {
	Queries, Sat, Unsat, Unknown int
	Time                         time.Duration
	MaxQuery                     time.Duration
	CrossChecked                 int
	CrossDisagree                int
}

type Solver struct {
	noModel bool
	ctx     *Ctx
	cmd     *exec.Cmd
	in      *bufio.Writer
	inC     io.WriteCloser
	out     *bufio.Reader
	defined map[*Term]bool
	stack   []frame0
	Stats   SolverStats
	timeout int // ms
	bin     []string
	cross   []string // second solver for cross-checking, one-shot
	crossN  int
}

func NewSolver(ctx *Ctx, bin []string, timeoutMs int) *Solver {
	s := &Solver{ctx: ctx, bin: bin, timeout: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start solver %v: %v", s.bin, err))
	}
	s.inC = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[*Term]bool{}
	s.stack = nil
	s.send("(set-option :print-success false)\n(set-option :produce-models true)\n")
	if strings.Contains(s.bin[0], "z3") {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
	}
	s.send("(set-logic QF_BV)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(x string) {
	s.in.WriteString(x)
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		panic(fmt.Sprintf("solver died: %v", err))
	}
	return strings.TrimSpace(l)
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	}
	return fmt.Sprintf("t%d", t.id)
}

func body(t *Term) string {
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.hi, t.lo, ref(t.a))
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, ref(t.a))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, ref(t.a))
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opName[t.op])
	for _, x := range [...]*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(ref(x))
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

// define emits the definitions t needs (iteratively, children first).
func (s *Solver) define(t *Term, emit func(string), defined map[*Term]bool, note func(*Term)) {
	if t.op == OConst || defined[t] {
		return
	}
	type item struct {
		t    *Term
		done bool
	}
	st := []item{{t, false}}
	for len(st) > 0 {
		it := st[len(st)-1]
		st = st[:len(st)-1]
		x := it.t
		if x.op == OConst || defined[x] {
			continue
		}
		if x.op == OVar {
			emit(fmt.Sprintf("(declare-fun t%d () %s)\n", x.id, sortName(x.w)))
			defined[x] = true
			note(x)
			if x.w > 0 && x.max < mask(x.w) {
				emit(fmt.Sprintf("(assert (bvule t%d (_ bv%d %d)))\n", x.id, x.max, x.w))
			}
			continue
		}
		if it.done {
			emit(fmt.Sprintf("(define-fun t%d () %s %s)\n", x.id, sortName(x.w), body(x)))
			defined[x] = true
			note(x)
			continue
		}
		st = append(st, item{x, true})
		for _, k := range [...]*Term{x.a, x.b, x.c} {
			if k != nil {
				st = append(st, item{k, false})
			}
		}
	}
}

func (s *Solver) push(lits []*Term) {
	s.send("(push 1)\n")
	f := frame0{lits: lits}
	for _, lit := range lits {
		s.define(lit, s.send, s.defined, func(t *Term) { f.names = append(f.names, t) })
		s.send("(assert " + ref(lit) + ")\n")
	}
	s.stack = append(s.stack, f)
}

func (s *Solver) popTo(n int) {
	if k := len(s.stack) - n; k > 0 {
		for _, f := range s.stack[n:] {
			for _, t := range f.names {
				delete(s.defined, t)
			}
		}
		s.stack = s.stack[:n]
		s.send(fmt.Sprintf("(pop %d)\n", k))
	}
}

// Check decides pc ∧ extra; on Sat it returns a model of all variables involved.
func (s *Solver) Check(pc []*Term, extra *Term) (Result, Model) {
	// keep the frames that still apply, push the rest in chunks
	n, at := 0, 0
frames:
	for ; n < len(s.stack); n++ {
		ls := s.stack[n].lits
		if at+len(ls) > len(pc) {
			break
		}
		for i, l := range ls {
			if pc[at+i] != l {
				break frames
			}
		}
		at += len(ls)
	}
	s.popTo(n)
	for at < len(pc) {
		k := min(16, len(pc)-at)
		s.push(append([]*Term{}, pc[at:at+k]...))
		at += k
	}
	base := len(s.stack)
	if extra != nil {
		s.push([]*Term{extra})
	}
	t0 := time.Now()
	s.send("(check-sat)\n")
	s.in.Flush()
	l := s.readLine()
	d := time.Since(t0)
	s.Stats.Queries++
	s.Stats.Time += d
	if d > s.Stats.MaxQuery {
		s.Stats.MaxQuery = d
	}
	if DebugQ > 0 && d.Milliseconds() > int64(DebugQ) {
		fmt.Printf("slow query %v: pc=%d extra=%v -> %s\n", d, len(pc), extra, l)
	}
	var res Result
	var m Model
	switch l {
	case "sat":
		res = Sat
		if !s.noModel {
			m = s.model()
		}
	case "unsat":
		res = Unsat
	default:
		if strings.HasPrefix(l, "(error") {
			panic("solver error: " + l)
		}
		res = Unknown
	}
	s.popTo(base)
	if res == Unknown {
		res, m = s.fallback(pc, extra)
	} else if s.cross != nil {
		s.crossN++
		r2, _ := s.oneShot(s.cross, pc, extra, 20, false)
		if r2 != Unknown {
			s.Stats.CrossChecked++
			if r2 != res {
				s.Stats.CrossDisagree++
				res = Unknown
			}
		}
	}
	switch res {
	case Sat:
		s.Stats.Sat++
		if m != nil { // the model must satisfy the query under our own evaluator
			e := newEval(m)
			for _, l := range pc {
				if e.eval(l) != 1 {
					panic("model does not satisfy path condition: " + l.String())
				}
			}
			if extra != nil && e.eval(extra) != 1 {
				panic("model does not satisfy query: " + extra.String())
			}
		}
	case Unsat:
		s.Stats.Unsat++
	default:
		s.Stats.Unknown++
	}
	return res, m
}

func (s *Solver) model() Model {
	m := Model{}
	var vs []*Term
	for t := range s.defined {
		if t.op == OVar {
			vs = append(vs, t)
		}
	}
	if len(vs) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vs {
		sb.WriteString(ref(v))
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n")
	s.send(sb.String())
	s.in.Flush()
	txt := s.readSexp()
	byID := map[string]*Term{}
	for _, v := range vs {
		byID[ref(v)] = v
	}
	parseValues(txt, byID, m)
	return m
}

func (s *Solver) readSexp() string {
	var sb strings.Builder
	depth := 0
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			panic("solver died reading model")
		}
		sb.WriteString(l)
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 && strings.TrimSpace(l) != "" {
			return sb.String()
		}
	}
}

func parseValues(txt string, byID map[string]*Term, m Model) {
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(txt))
	for i := 0; i < len(toks); i++ {
		v, ok := byID[toks[i]]
		if !ok {
			continue
		}
		x := toks[i+1]
		switch {
		case x == "true":
			m[v] = 1
		case x == "false":
			m[v] = 0
		case strings.HasPrefix(x, "#x"):
			var n uint64
			fmt.Sscanf(x[2:], "%x", &n)
			m[v] = n
		case strings.HasPrefix(x, "#b"):
			var n uint64
			for _, c := range x[2:] {
				n = n<<1 | uint64(c-'0')
			}
			m[v] = n
		case x == "(": // (_ bvN w)
			var n uint64
			fmt.Sscanf(toks[i+3], "bv%d", &n)
			m[v] = n
		}
	}
}

// fallback retries a query the incremental solver gave up on.
func (s *Solver) fallback(pc []*Term, extra *Term) (Result, Model) {
	for _, b := range [][]string{{"z3-new", "-in"}, {"cvc5", "--lang", "smt2", "--solve-bv-as-int=sum"}, {"cvc5", "--lang", "smt2"}} {
		r, m := s.oneShot(b, pc, extra, 60, true)
		if r != Unknown {
			return r, m
		}
	}
	return Unknown, nil
}

func (s *Solver) oneShot(bin []string, pc []*Term, extra *Term, secs int, wantModel bool) (Result, Model) {
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic QF_BV)\n")
	defined := map[*Term]bool{}
	emit := func(x string) { sb.WriteString(x) }
	note := func(*Term) {}
	lits := append([]*Term{}, pc...)
	if extra != nil {
		lits = append(lits, extra)
	}
	for _, l := range lits {
		s.define(l, emit, defined, note)
		sb.WriteString("(assert " + ref(l) + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	byID := map[string]*Term{}
	if wantModel {
		sb.WriteString("(get-value (")
		any := false
		for t := range defined {
			if t.op == OVar {
				byID[ref(t)] = t
				sb.WriteString(ref(t) + " ")
				any = true
			}
		}
		if !any {
			sb.WriteString("true")
		}
		sb.WriteString("))\n")
	}
	t0 := time.Now()
	args := append([]string{fmt.Sprint(secs)}, bin...)
	cmd := exec.Command("timeout", args...)
	cmd.Stdin = strings.NewReader(sb.String())
	out, _ := cmd.Output()
	s.Stats.Time += time.Since(t0)
	txt := string(out)
	lines := strings.SplitN(txt, "\n", 2)
	switch strings.TrimSpace(lines[0]) {
	case "unsat":
		return Unsat, nil
	case "sat":
		m := Model{}
		if wantModel && len(lines) > 1 {
			parseValues(lines[1], byID, m)
		}
		return Sat, m
	}
	return Unknown, nil
}
