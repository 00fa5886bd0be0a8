//go:build go1.21

package h

import (
	"encoding/json"
	"os"
	"testing"
	"testing/synctest"

	"github.com/jsimonetti/go-artnet/zz_verif/vs"
)

func TestReplay(t *testing.T) {
	b, err := os.ReadFile(os.Getenv("VS_REPLAY"))
	if err != nil {
		t.Fatal(err)
	}
	var rp struct {
		Harness  string            `json:"harness"`
		Inputs   map[string]uint64 `json:"inputs"`
		Thorough bool              `json:"thorough"`
	}
	if err := json.Unmarshal(b, &rp); err != nil {
		t.Fatal(err)
	}
	f := table[rp.Harness]
	if f == nil {
		t.Fatal("no such harness: " + rp.Harness)
	}
	synctest.Test(t, func(t *testing.T) {
		vs.Begin(rp.Inputs, rp.Thorough)
		f()
		vs.End()
	})
}
