package main

// One check: explore the property's harnesses, replay what the solver found on the real
// code, validate sampled paths against it, write the evidence.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type known struct {
	property, harness, msg string
	text                   string
}

// known findings: lines "known: property=<id> harness=<name> msg=<part of the message> -- <text>"
func loadKnown(file string) []known {
	f, err := os.Open(file)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		k := known{}
		head, text, _ := strings.Cut(l[len("known:"):], " -- ")
		k.text = text
		head, k.msg, _ = strings.Cut(head, " msg=")
		for _, w := range strings.Fields(head) {
			a, b, _ := strings.Cut(w, "=")
			switch a {
			case "property":
				k.property = b
			case "harness":
				k.harness = b
			}
		}
		out = append(out, k)
	}
	return out
}

type confirmed struct {
	rf   *ReplayFile
	path string
}

type Checker struct {
	repo, verif, id, tier string
	P                     *Prog
	E                     *Explorer
	nat                   *Native
	unconfirmed           []map[string]string
	replays               int
	validated             int
	agreed                int
	disagree              []map[string]interface{}
	probed                int
	probeFail             int
	seed                  int
}

func limitsFor(tier string) Limits {
	X := Limits{MaxSteps: 6_000_000, MaxGoroutines: 4000, MaxAlloc: 1 << 16, MaxFires: 400,
		SolverMs: 10000, Workers: 8, Validate: 6, Probes: 6}
	if tier == "thorough" {
		X.Time = 600 * time.Second
		X.AfterViol = 20 * time.Second
		X.Validate = 25
		X.Probes = 25
		X.MaxFires = 2000
		X.MaxSteps = 40_000_000
	} else {
		X.Time = 240 * time.Second
		X.AfterViol = 6 * time.Second
	}
	return X
}

func (c *Checker) run(X Limits, only string) int {
	t0 := time.Now()
	hdir := filepath.Join(c.verif, "harness")
	Thorough = c.tier == "thorough"
	P, err := Load(c.repo, hdir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load the program:", err)
		return 2
	}
	c.P = P
	names := P.harnessesFor(c.id)
	if only != "" {
		names = []string{only}
	}
	if len(names) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", c.id)
		return 2
	}
	var hs []*Harness
	for _, n := range names {
		h := P.harness(n)
		if h == nil {
			fmt.Fprintln(os.Stderr, "no harness", n)
			return 2
		}
		hs = append(hs, h)
	}
	c.nat, err = NewNative(c.repo, hdir, names)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer c.nat.Close()
	built := make(chan error, 1)
	go func() {
		_, err := c.nat.Bin(false)
		built <- err
	}()
	c.E = NewExplorer(P, X, hs)
	c.E.Run()
	if err := <-built; err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	viols := c.judge()
	kn := loadKnown(filepath.Join(c.verif, "known-findings.txt"))
	var fresh []confirmed
	printed := map[string]bool{}
	for _, v := range viols {
		isKnown := false
		for _, k := range kn {
			if k.property == c.id && (k.harness == "" || k.harness == v.rf.Harness) && strings.Contains(v.rf.Msg, k.msg) {
				isKnown = true
				if !printed[k.text] {
					printed[k.text] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, k.text)
				}
			}
		}
		if !isKnown {
			fresh = append(fresh, v)
		}
	}
	for _, s := range c.E.internal {
		fmt.Fprintln(os.Stderr, "engine error:", s)
	}
	c.evidence(time.Since(t0), len(fresh), only == "")
	c.summary(time.Since(t0))
	if len(fresh) > 0 {
		for _, v := range fresh {
			fmt.Printf("  %s: %s (%s) [%s]\n", v.rf.Harness, v.rf.Msg, v.rf.Kind, v.rf.How)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, fresh[0].path)
		return 1
	}
	return 0
}

func failing(k string) bool {
	switch k {
	case "fail", "panic", "deadlock", "hang", "race":
		return true
	}
	return false
}

// stress repeats the native runs of sampled paths (a test of the harnesses themselves).
var stress, _ = strconv.Atoi(os.Getenv("VERIF_STRESS"))

// judge replays the candidates on the real code.
func (c *Checker) judge() []confirmed {
	var out []confirmed
	rdir := filepath.Join(c.verif, "evidence", "replays")
	add := func(rf *ReplayFile) {
		os.MkdirAll(rdir, 0o755)
		p := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", c.id, len(out)+1))
		js, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(p, js, 0o644)
		out = append(out, confirmed{rf, p})
	}
	type key struct{ h, k, m string }
	done := map[key]bool{}
	for i, st := range c.E.st {
		// native-reproducible kinds first
		sort.SliceStable(st.viols, func(a, b int) bool { return !st.viols[a].SchedDep && st.viols[b].SchedDep })
		budget := 40
		for _, v := range st.viols {
			k := key{v.Harness, v.Kind, v.Msg}
			if v.Kind == "race" {
				k.m = ""
			}
			if done[k] || budget == 0 || len(out) >= 5 {
				continue
			}
			budget--
			rf := &ReplayFile{Property: c.id, Harness: v.Harness, Kind: v.Kind, Msg: v.Msg, Where: v.Where,
				Thorough: Thorough, Inputs: v.Inputs, Dec: v.Dec, Sched: v.Sched}
			multi := st.MaxGs > 1
			tries := 1
			if multi {
				tries = 12
			}
			race := v.Kind == "race"
			if race {
				tries = 24
			}
			res := c.tryNative(rf, race, tries)
			if failing(res.Kind) {
				rf.Native = res.Kind + ": " + res.Msg
				rf.How = "replay on the compiled code"
				done[k] = true
				add(rf)
				continue
			}
			if multi {
				// the schedule decides: re-execute the real code's SSA concretely along it
				if c.reexec(i, v) {
					rf.Native = res.Kind
					rf.How = "re-execution along the recorded schedule with concrete inputs"
					done[k] = true
					add(rf)
					continue
				}
			}
			c.unconfirmed = append(c.unconfirmed, map[string]string{"harness": v.Harness, "kind": v.Kind, "msg": v.Msg, "native": res.Kind + " " + res.Msg, "where": v.Where})
		}
	}
	if len(out) > 0 {
		return out
	}
	// probes: where the engine stopped, the real code is run on the path's inputs
	type job struct {
		tr    Trace
		probe bool
		res   NativeResult
	}
	var jobs []*job
	for _, st := range c.E.st {
		for _, t := range st.probes {
			jobs = append(jobs, &job{tr: t, probe: true})
		}
		for _, t := range st.traces {
			jobs = append(jobs, &job{tr: t})
		}
	}
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for _, j := range jobs {
		wg.Add(1)
		go func(j *job) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			to := 60 * time.Second
			if j.probe {
				to = 20 * time.Second
			}
			rf := &ReplayFile{Harness: j.tr.Harness, Inputs: j.tr.Inputs, Thorough: Thorough}
			for n := 0; n < stress; n++ {
				if r := c.nat.Run(rf, false, to); r.Kind != "done" {
					fmt.Printf("stress: %s: %s %s\n", j.tr.Harness, r.Kind, r.Msg)
				}
			}
			j.res = c.nat.Run(rf, false, to)
			if j.probe || !failing(j.res.Kind) || j.res.Kind == "hang" {
				return
			}
			// a single failure of a path judged good must come back to count
			for n := 0; n < 4; n++ {
				if r := c.nat.Run(rf, false, to); failing(r.Kind) && r.Kind != "hang" {
					return
				}
			}
			j.res.Kind = "error"
		}(j)
	}
	wg.Wait()
	for _, j := range jobs {
		rf := &ReplayFile{Property: c.id, Harness: j.tr.Harness, Kind: "native", Thorough: Thorough, Inputs: j.tr.Inputs}
		if j.probe {
			c.probed++
			bad := failing(j.res.Kind)
			if j.res.Kind == "hang" && !strings.Contains(j.tr.Why, "bound") {
				bad = false
			}
			if bad {
				c.probeFail++
				rf.Msg = j.res.Msg
				rf.Where = j.tr.Why
				rf.Native = j.res.Kind + ": " + j.res.Msg
				rf.How = "run of the compiled code on the inputs of a path the engine could not finish"
				if len(out) < 5 {
					add(rf)
				}
			}
			continue
		}
		c.validated++
		same := j.res.Kind == "done" && len(j.res.Obs) == len(j.tr.Obs)
		diff := ""
		for k := 0; same && k < len(j.tr.Obs); k++ {
			if j.res.Obs[k] != j.tr.Obs[k] {
				same = false
				diff = j.tr.Obs[k] + " / " + j.res.Obs[k]
			}
		}
		if same {
			c.agreed++
			continue
		}
		if j.res.Kind != "hang" && failing(j.res.Kind) {
			rf.Msg = j.res.Msg
			rf.Native = j.res.Kind + ": " + j.res.Msg
			rf.How = "run of the compiled code on a sampled path's inputs"
			if len(out) < 5 {
				add(rf)
			}
			continue
		}
		if len(c.disagree) < 10 {
			if diff == "" {
				diff = fmt.Sprintf("engine %v / native %v", j.tr.Obs, j.res.Obs)
			}
			if len(diff) > 2000 {
				diff = diff[:2000]
			}
			c.disagree = append(c.disagree, map[string]interface{}{"harness": j.tr.Harness, "native": j.res.Kind + " " + j.res.Msg, "difference": diff, "inputs": compact(j.tr.Inputs)})
		}
	}
	return out
}

func (c *Checker) tryNative(rf *ReplayFile, race bool, tries int) NativeResult {
	var mu sync.Mutex
	var best NativeResult
	got := false
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i := 0; i < tries; i++ {
		sem <- struct{}{}
		mu.Lock()
		stop := got
		mu.Unlock()
		if stop {
			<-sem
			break
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			r := c.nat.Run(rf, race, 20*time.Second)
			mu.Lock()
			defer mu.Unlock()
			c.replays++
			if got {
				return
			}
			best = r
			if failing(r.Kind) {
				got = true
			}
		}()
		if i == 0 {
			wg.Wait() // usually the first one settles it
		}
	}
	wg.Wait()
	return best
}

// reexec runs one path again with constants for inputs and the recorded decisions.
func (c *Checker) reexec(hi int, v *Violation) bool {
	X := c.E.X
	X.Workers = 1
	X.Validate = 0
	E := NewExplorer(c.P, X, []*Harness{c.E.hs[hi]})
	w := &Worker{E: E, P: c.P, X: &X, hs: E.hs[0], funcs: nil}
	w.funcs = map[*ssaFunction]int{}
	w.reset()
	defer w.solver.Close()
	r := w.runPath(v.Dec, v.Inputs)
	_ = r
	for _, x := range E.st[0].viols {
		if x.Kind == v.Kind && x.Msg == v.Msg {
			return true
		}
	}
	return false
}

func compact(in map[string]uint64) map[string]uint64 {
	out := map[string]uint64{}
	n := 0
	var ks []string
	for k := range in {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if in[k] != 0 && n < 60 {
			out[k] = in[k]
			n++
		}
	}
	return out
}

func (c *Checker) evidence(wall time.Duration, nviol int, write bool) {
	E := c.E
	repoF, otherF := E.Functions()
	states, trans, asserts, trivial, proved := 0, 0, 0, 0, 0
	hst := map[string]interface{}{}
	complete := true
	var gaps []string
	var samples []interface{}
	paths := 0
	for i, st := range E.st {
		n := E.hs[i].Name
		states += st.States
		trans += st.Transitions
		asserts += st.Asserts
		trivial += st.Trivial
		proved += st.Proved
		for _, k := range st.Paths {
			paths += k
		}
		hst[n] = st
		if len(st.Incomplete) > 0 || len(st.Unsupported) > 0 {
			complete = false
			for k, v := range st.Incomplete {
				gaps = append(gaps, fmt.Sprintf("%s: %s (%d)", n, k, v))
			}
			for k, v := range st.Unsupported {
				gaps = append(gaps, fmt.Sprintf("%s: not encoded: %s (%d paths)", n, k, v))
			}
		}
		for _, l := range c.labels(E.hs[i]) {
			if st.Reached[l] == 0 {
				gaps = append(gaps, fmt.Sprintf("%s: label %q not reached", n, l))
				complete = false
			}
		}
		if len(st.traces) > 0 {
			t := st.traces[len(st.traces)-1]
			samples = append(samples, map[string]interface{}{"harness": n, "nonzero_inputs": compact(t.Inputs), "observations": trunc(t.Obs)})
		}
	}
	sort.Strings(gaps)
	if len(samples) == 0 {
		samples = append(samples, "no completed path was sampled")
	}
	ev := map[string]interface{}{
		"property": c.id, "tier": c.tier, "seed": c.seed, "level": "model_checking", "wall_s": round(wall.Seconds()), "violations": nviol,
		"assumptions": []string{
			"the bounds listed under coverage.bounds; nothing is claimed beyond them",
			"the engine's meaning of Go SSA and of the intrinsics it replaces (sync, time, net sockets, fmt/logrus output), validated per run on sampled paths against the compiled code",
			"data-race-free interleavings at synchronisation operations; schedules limited to the stated number of delays",
			"z3's verdicts (a cvc5 cross-check of every query is available with -cross)"},
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": c.agreed, "samples": samples,
			"paths": paths, "exhaustive": complete, "gaps": gaps,
			"assertions_checked": asserts, "assertions_folded_to_true": trivial, "assertions_discharged_by_solver": proved,
			"solver": map[string]interface{}{"queries": E.solver.Queries, "sat": E.solver.Sat, "unsat": E.solver.Unsat, "unknown": E.solver.Unknown,
				"time_s": round(E.solver.Time.Seconds()), "max_query_s": round(E.solver.MaxQuery.Seconds()),
				"cross_checked": E.solver.CrossChecked, "cross_disagreements": E.solver.CrossDisagree, "binary": "z3 (fallback z3-new, cvc5)"},
			"functions_encoded": repoF, "library_functions_interpreted": otherF,
			"harnesses": hst, "bounds": c.bounds(),
			"traces_replayed": c.validated, "trace_disagreements": c.disagree, "candidate_replays": c.replays,
			"unconfirmed_candidates": c.unconfirmed, "probes": c.probed,
		},
	}
	if !write {
		return
	}
	dir := filepath.Join(c.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	js, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		err = os.WriteFile(filepath.Join(dir, c.id+".json"), append(js, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
	}
}

func trunc(o []string) []string {
	var out []string
	for i, s := range o {
		if i >= 20 {
			break
		}
		if len(s) > 200 {
			s = s[:200] + "..."
		}
		out = append(out, s)
	}
	return out
}

func round(f float64) float64 {
	v, _ := strconv.ParseFloat(fmt.Sprintf("%.3f", f), 64)
	return v
}

func (c *Checker) bounds() map[string]interface{} {
	b := map[string][]string{}
	for i, st := range c.E.st {
		for k := range st.Bounds {
			b[c.E.hs[i].Name] = append(b[c.E.hs[i].Name], k)
		}
		sort.Strings(b[c.E.hs[i].Name])
	}
	X := c.E.X
	return map[string]interface{}{"harness": b, "engine": map[string]interface{}{
		"max_steps_per_path": X.MaxSteps, "max_goroutines": X.MaxGoroutines, "max_timer_events": X.MaxFires,
		"max_allocation": X.MaxAlloc, "time_budget_s": X.Time.Seconds(), "solver_timeout_ms": X.SolverMs}}
}

func (c *Checker) summary(wall time.Duration) {
	E := c.E
	for i, st := range E.st {
		fmt.Printf("%s: paths %v asserts %d (folded %d, solver %d) reached %v", E.hs[i].Name, st.Paths, st.Asserts, st.Trivial, st.Proved, st.Reached)
		if len(st.Incomplete) > 0 {
			fmt.Printf(" incomplete %v", st.Incomplete)
		}
		if len(st.Unsupported) > 0 {
			fmt.Printf(" unsupported %v", st.Unsupported)
		}
		if st.Dropped > 0 {
			fmt.Printf(" dropped %d", st.Dropped)
		}
		for _, l := range c.labels(E.hs[i]) {
			if st.Reached[l] == 0 {
				fmt.Printf(" UNREACHED %q", l)
			}
		}
		fmt.Println()
	}
	fmt.Printf("%s %s: solver %d queries (%d unsat, %d unknown) %.1fs; traces %d/%d agree; candidates unconfirmed %d; probes %d; explore %.1fs wall %.1fs\n",
		c.id, c.tier, E.solver.Queries, E.solver.Unsat, E.solver.Unknown, E.solver.Time.Seconds(), c.agreed, c.validated, len(c.unconfirmed), c.probed, E.wall.Seconds(), wall.Seconds())
	for _, u := range c.unconfirmed {
		fmt.Printf("  unconfirmed: %v\n", u)
	}
	for _, u := range c.disagree {
		fmt.Printf("  disagreement: %v\n", u)
	}
}
