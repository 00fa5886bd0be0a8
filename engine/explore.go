package main

// Exploration: a shared work list of path prefixes and a pool of workers.

import (
	"fmt"
	"go/constant"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Limits bound one exploration.
type Limits struct {
	MaxSteps      int
	MaxGoroutines int
	MaxAlloc      int
	MaxFires      int
	MaxPaths      int // per harness
	Time          time.Duration
	SolverMs      int
	Workers       int
	Cross         bool // cross-check every query with a second solver
	Validate      int  // traces per harness kept for validation against the real code
	Probes        int  // unsupported-path models kept per harness
	AfterViol     time.Duration
}

type workItem struct {
	h      int
	prefix []int32
	model  map[string]uint64
}

// Trace is one completed path with concrete inputs and the observations it predicts.
type Trace struct {
	Harness string            `json:"harness"`
	Inputs  map[string]uint64 `json:"inputs"`
	Obs     []string          `json:"obs"`
	Why     string            `json:"why,omitempty"`
	Dep     bool              `json:"sched_dependent,omitempty"`
	Dec     []int32           `json:"decisions,omitempty"`
}

type HStats struct {
	Paths       map[string]int `json:"paths"`
	Reached     map[string]int `json:"reached"`
	Unsupported map[string]int `json:"unsupported,omitempty"`
	Incomplete  map[string]int `json:"incomplete,omitempty"`
	Notes       map[string]int `json:"notes,omitempty"`
	Bounds      map[string]int `json:"-"`
	Inputs      int            `json:"max_symbolic_inputs"`
	MaxSteps    int            `json:"max_steps"`
	States      int            `json:"states"`
	Transitions int            `json:"transitions"`
	Asserts     int            `json:"assertions_checked"`
	Trivial     int            `json:"assertions_folded"`
	Proved      int            `json:"assertions_by_query"`
	Dropped     int            `json:"paths_not_explored"`
	MaxGs       int            `json:"max_goroutines"`
	SchedPaths  int            `json:"schedule_variants"`

	traces []Trace
	probes []Trace
	viols  []*Violation
	seenV  map[string]int
	queue  []workItem
	active int
	done   int
}

type Explorer struct {
	mu       sync.Mutex
	cond     *sync.Cond
	P        *Prog
	X        Limits
	hs       []*Harness
	st       []*HStats
	rr       int
	active   int
	deadline time.Time
	hard     atomic.Int64 // when running paths are cut off
	stop     bool
	violAt   time.Time
	funcs    map[*ssa.Function]int
	solver   SolverStats
	internal []string
	wall     time.Duration
	quietV   bool
}

type Worker struct {
	id     int
	E      *Explorer
	ctx    *Ctx
	solver *Solver
	P      *Prog
	hs     *Harness
	hi     int
	X      *Limits
	consts map[*ssa.Const]Value
	funcs  map[*ssa.Function]int
	stats  struct{ asserts, trivAsserts, proved int }
	cur    *workItem
}

func (w *Worker) reset() {
	if w.solver != nil {
		w.E.addSolver(w.solver)
		w.solver.Close()
	}
	w.ctx = NewCtx()
	w.consts = map[*ssa.Const]Value{}
	w.solver = NewSolver(w.ctx, []string{"z3", "-in"}, w.X.SolverMs)
	if w.X.Cross {
		w.solver.cross = []string{"cvc5", "--lang", "smt2"}
	}
}

func (E *Explorer) addSolver(s *Solver) {
	E.mu.Lock()
	defer E.mu.Unlock()
	a, b := &E.solver, s.Stats
	a.Queries += b.Queries
	a.Sat += b.Sat
	a.Unsat += b.Unsat
	a.Unknown += b.Unknown
	a.Time += b.Time
	a.CrossChecked += b.CrossChecked
	a.CrossDisagree += b.CrossDisagree
	if b.MaxQuery > a.MaxQuery {
		a.MaxQuery = b.MaxQuery
	}
}

// push adds an alternative to the work list.
func (w *Worker) push(alt []int32, m Model) {
	bn := make(map[string]uint64, len(m))
	for t, v := range m {
		bn[t.name] = v
	}
	E := w.E
	E.mu.Lock()
	st := E.st[w.hi]
	st.queue = append(st.queue, workItem{w.hi, alt, bn})
	E.mu.Unlock()
	E.cond.Signal()
}

func (w *Worker) incomplete(msg string) {
	w.E.mu.Lock()
	w.E.st[w.hi].Incomplete[msg]++
	w.E.mu.Unlock()
}

func (w *Worker) note(s string) {
	w.E.mu.Lock()
	w.E.st[w.hi].Notes[s]++
	w.E.mu.Unlock()
}

func (w *Worker) report(v *Violation) {
	E := w.E
	E.mu.Lock()
	defer E.mu.Unlock()
	st := E.st[w.hi]
	k := v.Kind + "|" + v.Msg
	st.seenV[k]++
	if st.seenV[k] > 4 {
		return
	}
	st.viols = append(st.viols, v)
	if E.violAt.IsZero() {
		E.violAt = time.Now()
		if d := time.Now().Add(E.X.AfterViol); d.Before(E.deadline) {
			E.deadline = d
			E.hard.Store(d.UnixNano())
		}
	}
}

func NewExplorer(P *Prog, X Limits, hs []*Harness) *Explorer {
	E := &Explorer{P: P, X: X, hs: hs, funcs: map[*ssa.Function]int{}}
	E.cond = sync.NewCond(&E.mu)
	for i := range hs {
		E.st = append(E.st, &HStats{Paths: map[string]int{}, Reached: map[string]int{}, Unsupported: map[string]int{},
			Incomplete: map[string]int{}, Notes: map[string]int{}, Bounds: map[string]int{}, seenV: map[string]int{},
			queue: []workItem{{h: i, model: map[string]uint64{}}}})
	}
	return E
}

// take returns the next work item: harnesses in turn, depth first within each.
func (E *Explorer) take() (workItem, bool) {
	E.mu.Lock()
	defer E.mu.Unlock()
	for {
		if E.stop || time.Now().After(E.deadline) {
			E.stop = true
			E.cond.Broadcast()
			return workItem{}, false
		}
		n := len(E.hs)
		for k := 0; k < n; k++ {
			i := (E.rr + k) % n
			st := E.st[i]
			if len(st.queue) == 0 {
				continue
			}
			if E.X.MaxPaths > 0 && st.done+st.active >= E.X.MaxPaths {
				st.Dropped += len(st.queue)
				st.queue = nil
				st.Incomplete["path bound"]++
				continue
			}
			// alternate ends so that a budgeted search is not confined to one corner
			var it workItem
			if (st.done+st.active)%8 == 7 {
				it = st.queue[0]
				st.queue = st.queue[1:]
			} else {
				it = st.queue[len(st.queue)-1]
				st.queue = st.queue[:len(st.queue)-1]
			}
			E.rr = i + 1
			E.active++
			st.active++
			return it, true
		}
		if E.active == 0 {
			E.cond.Broadcast()
			return workItem{}, false
		}
		E.cond.Wait()
	}
}

func (E *Explorer) Run() {
	t0 := time.Now()
	E.deadline = t0.Add(E.X.Time)
	E.hard.Store(E.deadline.Add(E.X.Time / 20).UnixNano())
	stopTick := make(chan struct{})
	go func() {
		for {
			select {
			case <-stopTick:
				return
			case <-time.After(200 * time.Millisecond):
				E.cond.Broadcast()
			}
		}
	}()
	var wg sync.WaitGroup
	for i := 0; i < E.X.Workers; i++ {
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			w := &Worker{id: id, E: E, P: E.P, X: &E.X, funcs: map[*ssa.Function]int{}}
			for {
				it, ok := E.take()
				if !ok {
					break
				}
				if w.solver == nil {
					w.reset()
				}
				w.hi = it.h
				w.hs = E.hs[it.h]
				w.cur = &it
				w.one(&it)
			}
			if w.solver != nil {
				E.addSolver(w.solver)
				w.solver.Close()
			}
			E.mu.Lock()
			for f, n := range w.funcs {
				E.funcs[f] += n
			}
			E.mu.Unlock()
		}(i)
	}
	wg.Wait()
	close(stopTick)
	for i, st := range E.st {
		if len(st.queue) > 0 {
			st.Dropped += len(st.queue)
			st.Incomplete["time budget"]++
		}
		_ = i
	}
	E.wall = time.Since(t0)
}

func (w *Worker) one(it *workItem) {
	w.stats.asserts, w.stats.trivAsserts, w.stats.proved = 0, 0, 0
	r := w.runPath(it.prefix, it.model)
	E := w.E
	if r.schedVars > 0 && r.end.kind == endDone {
		w.solver.noModel = true
		res, _ := w.solver.Check(r.pc, nil)
		w.solver.noModel = false
		if res == Unsat {
			r.end = pathEnd{kind: endInternal, msg: "infeasible path was executed"}
		}
	}
	E.mu.Lock()
	defer func() {
		E.active--
		E.mu.Unlock()
		E.cond.Broadcast()
	}()
	st := E.st[w.hi]
	st.active--
	st.done++
	st.Paths[endNames[r.end.kind]]++
	st.Asserts += w.stats.asserts
	st.Trivial += w.stats.trivAsserts
	st.Proved += w.stats.proved
	st.States += r.states + 1
	st.Transitions += r.transitions
	if len(r.inputs) > st.Inputs {
		st.Inputs = len(r.inputs)
	}
	if r.steps > st.MaxSteps {
		st.MaxSteps = r.steps
	}
	if len(r.gs) > st.MaxGs {
		st.MaxGs = len(r.gs)
	}
	if r.schedDep {
		st.SchedPaths++
	}
	for l := range r.reached {
		st.Reached[l]++
	}
	switch r.end.kind {
	case endInternal:
		if len(E.internal) < 5 {
			E.internal = append(E.internal, w.hs.Name+": "+r.end.msg)
		}
		st.Incomplete["engine error"]++
	case endUnsupported:
		k := r.end.msg
		if i := strings.Index(k, " <- "); i >= 0 {
			j := strings.Index(k[i+4:], " <- ")
			if j >= 0 {
				k = k[:i+4+j]
			}
		}
		st.Unsupported[k]++
		if st.Unsupported[k] <= 3 && len(st.probes) < E.X.Probes {
			in, _ := r.inputValues(r.model)
			st.probes = append(st.probes, Trace{Harness: w.hs.Name, Inputs: in, Why: r.end.msg, Dep: r.schedDep})
		}
	case endLimit, endCut:
		k := r.end.msg
		if i := strings.Index(k, " <- "); i >= 0 {
			k = k[:i]
		}
		st.Incomplete[k]++
		if st.Incomplete[k] <= 3 && len(st.probes) < E.X.Probes {
			in, _ := r.inputValues(r.model)
			st.probes = append(st.probes, Trace{Harness: w.hs.Name, Inputs: in, Why: r.end.msg, Dep: r.schedDep})
		}
	case endDone:
		if E.X.Validate > 0 && !r.schedDep && len(r.viols) == 0 {
			// reservoir: keep the first few and then every so often
			keep := len(st.traces) < E.X.Validate
			slot := len(st.traces)
			if !keep && st.done%7 == 0 {
				keep = true
				slot = (st.done / 7) % len(st.traces)
			}
			if keep {
				in, _ := r.inputValues(r.model)
				tr := Trace{Harness: w.hs.Name, Inputs: in, Obs: r.renderObs()}
				if slot == len(st.traces) {
					st.traces = append(st.traces, tr)
				} else {
					st.traces[slot] = tr
				}
			}
		}
	}
}

// renderObs evaluates the observations under the path's model.
func (r *Run) renderObs() []string {
	e := newEval(r.model)
	var out []string
	for _, o := range r.observ {
		out = append(out, o.name+"="+o.render(e))
	}
	return out
}

func (o obs) render(e *evaler) string {
	if !o.seq {
		if o.signed {
			return fmt.Sprint(sext64(e.eval(o.v[0]), o.v[0].w))
		}
		return fmt.Sprint(e.eval(o.v[0]))
	}
	n := int(e.eval(o.ln))
	var sb strings.Builder
	for i := 0; i < n && i < len(o.v); i++ {
		fmt.Fprintf(&sb, "%02x", e.eval(o.v[i]))
	}
	return fmt.Sprintf("%d:%s", n, sb.String())
}

// Functions lists the interpreted functions of the repository (and how many others).
func (E *Explorer) Functions() (repo []string, other []string) {
	for f := range E.funcs {
		if f.Pkg == nil || f.Synthetic != "" {
			continue
		}
		p := f.Pkg.Pkg.Path()
		switch {
		case E.P.isHarness(p):
		case E.P.isRepo(p):
			repo = append(repo, strings.ReplaceAll(f.String(), E.P.module, ""))
		default:
			other = append(other, f.String())
		}
	}
	sort.Strings(repo)
	sort.Strings(other)
	return
}

func (c *Checker) labels(h *Harness) []string {
	seen := map[*ssa.Function]bool{}
	lab := map[string]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Pkg != c.P.harnessPkg {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			walk(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var rands [12]*ssa.Value
				for _, op := range in.Operands(rands[:0]) {
					if op != nil && *op != nil {
						if g, ok := (*op).(*ssa.Function); ok {
							walk(g)
						}
					}
				}
				if call, ok := in.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil && g.Pkg == c.P.vsPkg && g.Name() == "Reach" {
						if k, ok := call.Common().Args[0].(*ssa.Const); ok && k.Value != nil {
							lab[constantString(k)] = true
						}
					}
				}
			}
		}
	}
	walk(h.fn)
	var out []string
	for l := range lab {
		out = append(out, l)
	}
	sort.Strings(out)
	return out
}

func constantString(k *ssa.Const) string { return constant.StringVal(k.Value) }
