// Package run runs one check, as selected by the environment, within a test
// binary so that the testing support for virtual time is available.
package run

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"testing"
	"time"

	"verifharness/checks"
	"verifharness/mon"
)

func TestRun(t *testing.T) {
	id := os.Getenv("VERIF_CHECK")
	f, ok := checks.Reg[id]
	if !ok {
		t.Fatalf("harness: no check %q", id)
	}
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	round, _ := strconv.ParseUint(os.Getenv("VERIF_ROUND"), 10, 64)
	c := mon.New(t, id, seed+round*1000003, os.Getenv("VERIF_TIER"), mon.RaceEnabled, os.Getenv("VERIF_OUT"))
	c.Round = int(round)
	budget, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	c.Budget = time.Duration(budget) * time.Second
	f(c)
	c.Finish()
}

// TestMerge counts the distinct observations of several processes.
func TestMerge(t *testing.T) {
	dir := os.Getenv("VERIF_MERGE")
	if dir == "" {
		t.Skip()
	}
	files, _ := filepath.Glob(filepath.Join(dir, "*.hashes"))
	var all []uint64
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		for ; len(b) >= 8; b = b[8:] {
			all = append(all, binary.LittleEndian.Uint64(b))
		}
	}
	slices.Sort(all)
	fmt.Printf("distinct=%d\n", len(slices.Compact(all)))
}
