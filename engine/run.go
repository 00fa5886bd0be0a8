package main

// One path: decisions, path condition, goroutines.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type endKind int

const (
	endDone endKind = iota
	endInfeasible
	endUnsupported
	endLimit
	endViolation
	endKilled
	endInternal
	endCut // an over-approximating bound (e.g. schedule budget) ended the path
)

var endNames = [...]string{"done", "infeasible", "unsupported", "limit", "violation", "killed", "internal", "cut"}

type pathEnd struct {
	kind endKind
	msg  string
}

// goPanic is a Go-level panic in the interpreted program.
type goPanic struct {
	v     Value // IfaceV
	where string
	stack string
}

type frame struct {
	r         *Run
	g         *G
	caller    *frame
	fn        *ssa.Function
	env       map[ssa.Value]Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    []*deferred
	result    Value
	panicking bool
	panic     interface{}
	pos       token.Pos
	bestEff   bool
	depth     int
}

type deferred struct {
	fn   Value
	args []Value
	pos  token.Pos
}

type Violation struct {
	Kind     string            `json:"kind"`
	Msg      string            `json:"msg"`
	Where    string            `json:"where"`
	Inputs   map[string]uint64 `json:"inputs"`
	Order    []string          `json:"order,omitempty"`
	Sched    []string          `json:"sched,omitempty"`
	Dec      []int32           `json:"decisions"`
	Harness  string            `json:"harness"`
	SchedDep bool              `json:"sched_dependent"`
	Trace    []string          `json:"trace,omitempty"`
}

type obs struct {
	name   string
	v      []*Term
	ln     *Term
	seq    bool
	signed bool
}

type Run struct {
	rawEq bool // comparing for vs.Same
	w     *Worker
	c     *Ctx
	s     *Solver
	P     *Prog
	hs    *Harness

	prefix []int32
	dec    []int32
	pc     []*Term
	model  Model
	ev     *evaler
	byName map[string]uint64 // model of the work item, by input name

	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]int
	consts  map[*ssa.Const]Value

	inputs  []*Term // in order of creation
	inNames map[string]int
	observ  []obs
	reached map[string]bool

	// scheduler
	gs       []*G
	runq     []*G
	cur      *G
	mainG    *G
	killed   bool
	settlers []*G
	doneCh   chan struct{}
	endSet   bool
	end      pathEnd
	panicVal interface{}
	handoff  int

	// schedule exploration
	schedMode  bool
	delays     int
	delaysUsed int
	schedLog   []string
	schedDep   bool
	raceOn     bool
	initing    int
	races      *raceState
	syncObjs   map[*Value]*syncObj
	onces      map[*Value]*onceObj

	// environment
	clock      *Term // nanoseconds since start of virtual time
	base       struct{ sec, nsec *Term }
	timers     []*timerObj
	timerSeq   int
	socks      map[*Value]*sock
	sockList   []*sock
	sent       []sentPkt
	listens    []listenRec
	failListen bool
	failWrites *Term
	extra      map[string]interface{}

	steps      int
	maxSteps   int
	timerFires int
	schedVars  int
	spawned    int
	starved    *G // runs only when nothing else can

	viols       []*Violation
	notes       map[string]int
	trace       []string
	states      int
	transitions int
}

// ---- decisions ----

// branch decides a symbolic condition, forking when both sides are feasible.
func (r *Run) branch(cond *Term) bool {
	if cond.IsConst() {
		return cond.val == 1
	}
	r.transitions++
	k := len(r.dec)
	if k < len(r.prefix) {
		d := r.prefix[k]
		r.dec = append(r.dec, d)
		v := d&1 == 1
		if d < 2 {
			if v {
				r.addPC(cond)
			} else {
				r.addPC(r.c.Not(cond))
			}
		}
		return v
	}
	v := r.evalModel(cond) == 1
	other := cond
	if v {
		other = r.c.Not(cond)
	}
	r.checkTime()
	res, m := r.s.Check(r.pc, other)
	switch res {
	case Sat:
		alt := append(append([]int32{}, r.dec...), b2i(!v))
		r.w.push(alt, m)
		r.dec = append(r.dec, b2i(v))
		r.addPC(r.c.Not(other))
	case Unsat:
		r.dec = append(r.dec, b2i(v)+2)
	default:
		r.note("solver-unknown branch")
		r.w.incomplete("solver gave up on a branch condition")
		r.dec = append(r.dec, b2i(v))
		r.addPC(r.c.Not(other))
	}
	return v
}

// checkTime ends a path that overran the time budget.
func (r *Run) checkTime() {
	if d := r.w.E.hard.Load(); d != 0 && time.Now().UnixNano() > d {
		panic(pathEnd{kind: endLimit, msg: "time budget"})
	}
}

func b2i(b bool) int32 {
	if b {
		return 1
	}
	return 0
}

func (r *Run) addPC(t *Term) {
	if t.IsTrue() {
		return
	}
	r.pc = append(r.pc, t)
}

func (r *Run) evalModel(t *Term) uint64 {
	if r.ev == nil {
		r.ev = newEval(r.model)
	}
	return r.ev.eval(t)
}

func (r *Run) setModel(m Model) {
	r.model = m
	r.ev = newEval(m)
}

// choose is a scheduling choice among n options: a fresh symbolic variable, so that the
// schedule is part of the path condition. A fresh variable is unconstrained, so all its
// values are feasible and the alternatives need no query of their own; the solver confirms
// the path condition as a whole at the end of the path.
func (r *Run) choose(n int, what string) int {
	if n <= 1 {
		return 0
	}
	r.transitions++
	t := r.freshInput("sched."+what, 8, uint64(n-1))
	r.schedVars++
	k := len(r.dec)
	d := int32(0)
	if k < len(r.prefix) {
		d = r.prefix[k]
	} else {
		for i := n - 1; i >= 1; i-- {
			m := make(Model, len(r.model)+1)
			for x, v := range r.model {
				m[x] = v
			}
			m[t] = uint64(i)
			r.w.push(append(append([]int32{}, r.dec...), int32(i)), m)
		}
	}
	r.dec = append(r.dec, d)
	r.model[t] = uint64(d)
	r.ev = nil
	r.addPC(r.c.Eq(t, r.c.Const(uint64(d), 8)))
	return int(d)
}

// concretize forks over the feasible values of t.
func (r *Run) concretize(t *Term, what string) int64 {
	for {
		if t.IsConst() {
			return sext64(t.val, t.w)
		}
		k := len(r.dec)
		var v uint64
		if k < len(r.prefix) {
			// the value tried is stored as an extra decision word pair
			v = uint64(uint32(r.prefix[k])) | uint64(uint32(r.prefix[k+1]))<<32
			r.dec = append(r.dec, r.prefix[k], r.prefix[k+1])
		} else {
			v = r.evalModel(t)
			r.dec = append(r.dec, int32(uint32(v)), int32(uint32(v>>32)))
		}
		if r.branch(r.c.Eq(t, r.c.Const(v, t.w))) {
			return sext64(v, t.w)
		}
	}
}

func (r *Run) assume(cond *Term) {
	if cond.IsTrue() {
		return
	}
	if cond.IsFalse() {
		panic(pathEnd{kind: endInfeasible})
	}
	k := len(r.dec)
	if k < len(r.prefix) {
		r.dec = append(r.dec, r.prefix[k])
		r.addPC(cond)
		return
	}
	if r.evalModel(cond) != 1 {
		res, m := r.s.Check(r.pc, cond)
		switch res {
		case Unsat:
			panic(pathEnd{kind: endInfeasible})
		case Unknown:
			r.w.incomplete("solver gave up on an assumption")
			panic(pathEnd{kind: endLimit, msg: "unknown assumption"})
		}
		r.setModel(m)
	}
	r.dec = append(r.dec, 1)
	r.addPC(cond)
}

// assertion checks cond over all values of the path.
func (r *Run) assertion(cond *Term, msg string) {
	r.w.stats.asserts++
	k := len(r.dec)
	if k < len(r.prefix) {
		d := r.prefix[k]
		r.dec = append(r.dec, d)
		if d == 0 { // assumed after a violation
			r.addPC(cond)
		}
		return
	}
	if cond.IsTrue() {
		r.dec = append(r.dec, 1)
		r.w.stats.trivAsserts++
		return
	}
	neg := r.c.Not(cond)
	var m Model
	res := Sat
	if r.evalModel(neg) == 1 {
		m = r.model
	} else {
		res, m = r.s.Check(r.pc, neg)
	}
	switch res {
	case Sat:
		r.violation("assert", msg, m)
		if cond.IsFalse() {
			panic(pathEnd{kind: endViolation, msg: msg})
		}
		// continue on the side where it holds, if any
		if r.evalModel(cond) != 1 {
			res2, m2 := r.s.Check(r.pc, cond)
			if res2 != Sat {
				panic(pathEnd{kind: endViolation, msg: msg})
			}
			r.setModel(m2)
		}
		r.dec = append(r.dec, 0)
		r.addPC(cond)
	case Unsat:
		r.dec = append(r.dec, 1)
		r.w.stats.proved++
	default:
		r.w.incomplete("solver gave up on assertion: " + msg)
		r.dec = append(r.dec, 1)
	}
}

func (r *Run) inputValues(m Model) (map[string]uint64, []string) {
	in := map[string]uint64{}
	var order []string
	e := newEval(m)
	for _, t := range r.inputs {
		in[t.name] = e.eval(t)
		order = append(order, t.name)
	}
	return in, order
}

func (r *Run) violation(kind, msg string, m Model) {
	in, order := r.inputValues(m)
	v := &Violation{Kind: kind, Msg: msg, Where: r.where(), Inputs: in, Order: order,
		Dec: append([]int32{}, r.dec...), Harness: r.hs.Name, SchedDep: r.schedDep,
		Sched: append([]string{}, r.schedLog...)}
	r.viols = append(r.viols, v)
	r.w.report(v)
}

func (r *Run) note(s string) { r.w.note(s) }

// freshInput makes a named input variable.
func (r *Run) freshInput(name string, w uint8, max uint64) *Term {
	n := r.inNames[name]
	r.inNames[name] = n + 1
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n+1)
	}
	t := r.c.Var(name, w, max)
	r.inputs = append(r.inputs, t)
	if v, ok := r.byName[name]; ok {
		if v > max {
			panic("model value out of range for " + name)
		}
		if _, dup := r.model[t]; !dup {
			r.model[t] = v
		}
	}
	return t
}

// ---- running one path ----

func (w *Worker) runPath(prefix []int32, model map[string]uint64) (r *Run) {
	if len(w.ctx.tab) > 3_000_000 {
		w.reset()
	}
	r = &Run{w: w, c: w.ctx, s: w.solver, P: w.P, hs: w.hs, prefix: prefix,
		globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]int{}, consts: w.consts,
		inNames: map[string]int{}, reached: map[string]bool{}, doneCh: make(chan struct{}),
		syncObjs: map[*Value]*syncObj{}, onces: map[*Value]*onceObj{}, socks: map[*Value]*sock{},
		extra: map[string]interface{}{}, maxSteps: w.X.MaxSteps}
	r.byName = model
	r.setModel(Model{})
	r.clock = r.c.Int(0)
	g := r.newG(nil)
	r.mainG = g
	r.cur = g
	g.name = "main"
	go r.gMain(g, func() {
		r.initModule()
		r.callFn(nil, r.hs.fn, nil, token.NoPos)
	})
	g.wake <- struct{}{}
	<-r.doneCh
	r.killed = true
	for _, g := range r.gs {
		close(g.wake)
	}
	for _, g := range r.gs {
		<-g.exited
	}
	return r
}

func (r *Run) finishPath(e pathEnd) {
	if !r.endSet {
		r.endSet = true
		r.end = e
		close(r.doneCh)
	}
}

// gMain is the native goroutine of an interpreted goroutine.
func (r *Run) gMain(g *G, body func()) {
	defer close(g.exited)
	<-g.wake
	if r.killed {
		return
	}
	defer func() {
		x := recover()
		if r.killed {
			return
		}
		switch x := x.(type) {
		case nil:
			g.dead = true
			if g == r.mainG {
				r.finishPath(pathEnd{kind: endDone})
				return
			}
			r.exitG(g)
		case pathEnd:
			r.finishPath(x)
		case *goPanic:
			if len(r.dec) < len(r.prefix) {
				// cannot happen: the prefix was explored past here
				r.finishPath(pathEnd{kind: endInternal, msg: "panic within replayed prefix: " + r.panicText(x)})
				return
			}
			r.violationAt("panic", "uncaught panic: "+r.panicText(x), x.where)
			r.finishPath(pathEnd{kind: endViolation, msg: r.panicText(x)})
		default:
			buf := make([]byte, 8192)
			n := runtimeStack(buf)
			r.finishPath(pathEnd{kind: endInternal, msg: fmt.Sprintf("engine: %v%s\n%s", x, r.where(), buf[:n])})
		}
	}()
	body()
}

func (r *Run) violationAt(kind, msg, where string) {
	in, order := r.inputValues(r.model)
	v := &Violation{Kind: kind, Msg: msg, Where: where, Inputs: in, Order: order,
		Dec: append([]int32{}, r.dec...), Harness: r.hs.Name, SchedDep: r.schedDep,
		Sched: append([]string{}, r.schedLog...)}
	r.viols = append(r.viols, v)
	r.w.report(v)
}

func (r *Run) panicText(p *goPanic) string {
	iv, ok := p.v.(IfaceV)
	if !ok {
		return "?"
	}
	if s, ok := iv.v.(*StrV); ok {
		if s.lazy == nil {
			if x, ok := r.concreteStr(s); ok {
				return x
			}
		}
		return "string"
	}
	if iv.t != nil {
		return iv.t.String()
	}
	return "nil"
}

// throw raises a Go run-time panic.
func (r *Run) throw(format string, a ...interface{}) {
	msg := "runtime error: " + fmt.Sprintf(format, a...)
	panic(&goPanic{v: IfaceV{r.P.runtimeErr, r.mkStr(msg)}, where: r.where()})
}

// require: Go run-time check; if cond can be false, that side panics.
func (r *Run) require(cond *Term, format string, a ...interface{}) {
	if cond.IsTrue() {
		return
	}
	if !r.branch(cond) {
		r.throw(format, a...)
	}
}

// ---- globals ----

func (r *Run) global(g *ssa.Global) *Value {
	if s, ok := r.globals[g]; ok {
		return s
	}
	r.initPkg(g.Pkg)
	if s, ok := r.globals[g]; ok {
		return s
	}
	panic("global not allocated: " + g.String())
}

func (r *Run) initModule() {
	for _, p := range r.P.eager {
		r.initPkg(p)
	}
}

func (r *Run) initPkg(p *ssa.Package) {
	if r.inited[p] != 0 {
		return
	}
	r.inited[p] = 1
	buildPkg(p)
	names := make([]string, 0, len(p.Members))
	for n := range p.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if g, ok := p.Members[n].(*ssa.Global); ok {
			v := new(Value)
			*v = r.zero(g.Type().(*types.Pointer).Elem())
			r.globals[g] = v
		}
	}
	if r.P.noInit[p.Pkg.Path()] || strings.HasPrefix(p.Pkg.Path(), "runtime") || strings.HasPrefix(p.Pkg.Path(), "internal/") && !okInternal[p.Pkg.Path()] {
		r.inited[p] = 2
		if path := p.Pkg.Path(); path == "os" || path == "internal/poll" {
			*r.globals[p.Var("ErrDeadlineExceeded")] = r.deadlineErr()
		}
		return
	}
	if fn := p.Func("init"); fn != nil {
		// run lazily here, but before everything else in Go: no races, no switches
		on := r.raceOn
		r.raceOn = false
		r.initing++
		r.callInit(fn)
		r.initing--
		r.raceOn = on
	}
	r.inited[p] = 2
}

var okInternal = map[string]bool{"internal/bytealg": false, "internal/stringslite": true, "internal/oserror": true, "internal/itoa": true}

func (r *Run) callInit(fn *ssa.Function) {
	fr := &frame{r: r, g: r.cur, caller: r.cur.fr, fn: fn, env: map[ssa.Value]Value{}, bestEff: true}
	for _, l := range fn.Locals {
		v := new(Value)
		*v = r.zero(l.Type().Underlying().(*types.Pointer).Elem())
		fr.env[l] = v
	}
	fr.block = fn.Blocks[0]
	r.cur.fr = fr
	for fr.block != nil {
		r.runFrame(fr)
	}
	r.cur.fr = fr.caller
}

func debugf(format string, a ...interface{}) {
	if DebugTrace {
		fmt.Fprintf(os.Stderr, format+"\n", a...)
	}
}
