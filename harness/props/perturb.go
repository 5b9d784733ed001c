package props

import (
	"math/rand"
	"os"
	"strconv"
	"time"

	"verif.local/harness/h"
	"verif.local/harness/yield"
)

func tiers(quick, thorough int) func(string) int {
	return func(t string) int {
		if t == "thorough" {
			return thorough
		}
		return quick
	}
}

// perturbed runs f with scheduling points that yield and sleep at random, in the builds that have
// them, and records which schedules were seen.
func perturbed(c *h.Ctx, f func()) {
	if c.Build == "" || c.Build == "race" {
		f()
		return
	}
	r := c.R
	if n, _ := strconv.Atoi(os.Getenv("VERIF_SITES")); n > 0 && r.Intn(2) == 0 {
		// one long stop at one place
		fresh := 1 + r.Intn([]int{40, 200, 600}[r.Intn(3)])
		yield.Directed(fresh, 1+r.Intn(3)*r.Intn(4), time.Duration(1+r.Intn(4))*time.Millisecond)
		f()
		rep := yield.Stop()
		if rep.Hit {
			c.Count("directed_stops", 1)
			c.SeenHash("stopped_at", uint64(rep.HitAt))
		}
		observed(c, rep)
		return
	}
	prob := []uint32{600, 3000, 12000, 30000}[r.Intn(4)]
	slow := []uint32{0, 20, 120, 600}[r.Intn(4)]
	yield.Random(c.Seed*1000003+int64(c.Idx), prob, slow, time.Duration(20+r.Intn(300))*time.Microsecond)
	f()
	observed(c, yield.Stop())
}

func observed(c *h.Ctx, rep yield.Report) {
	c.Count("switches", rep.Switches)
	c.SeenHash("schedules", rep.Hash)
	for p := range rep.Pairs {
		c.SeenHash("switch_pairs", uint64(p))
	}
	for s := range rep.Sites {
		c.SeenHash("sites", uint64(s))
	}
}

// newRand is an independent source for another goroutine.
func newRand(r randSrc) randSrc { return rand.New(rand.NewSource(r.Int63())) }
