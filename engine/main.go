package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strconv"
	"time"

	"golang.org/x/tools/go/ssa"
)

type ssaFunction = ssa.Function

var (
	DebugQ     int
	DebugTrace bool
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	id := flag.String("id", "", "property")
	only := flag.String("only", "", "run only this harness (no evidence is written)")
	tier := flag.String("tier", "quick", "quick or thorough")
	secs := flag.Int("time", 0, "time budget in seconds")
	workers := flag.Int("workers", 8, "workers")
	cross := flag.Bool("cross", false, "cross-check all queries with cvc5")
	replay := flag.String("replay", "", "replay file")
	flag.IntVar(&DebugQ, "debugq", 0, "print queries slower than this many ms")
	flag.Parse()
	if *replay != "" {
		os.Exit(doReplay(*repo, *verif, *replay))
	}
	X := limitsFor(*tier)
	X.Workers = *workers
	X.Cross = *cross
	if *secs > 0 {
		X.Time = time.Duration(*secs) * time.Second
	}
	c := &Checker{repo: *repo, verif: *verif, id: *id, tier: *tier}
	c.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	os.Exit(c.run(X, *only))
}

// doReplay runs a recorded counterexample on the compiled code.
func doReplay(repo, verif, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf ReplayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	nat, err := NewNative(repo, verif+"/harness", []string{rf.Harness})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer nat.Close()
	n := 1
	if rf.Sched != nil || rf.Kind == "race" {
		n = 24
	}
	for i := 0; i < n; i++ {
		r := nat.Run(&rf, rf.Kind == "race", 30*time.Second)
		if failing(r.Kind) {
			fmt.Printf("reproduced: %s %s\n%s\n", r.Kind, r.Msg, r.Out)
			return 1
		}
		if i == n-1 {
			fmt.Printf("not reproduced: %s %s\n%s\n", r.Kind, r.Msg, r.Out)
		}
	}
	return 0
}
