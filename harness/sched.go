//go:build sched

package main

import (
	"encoding/json"

	"github.com/dpeckett/archivefs/memfs"
	"github.com/dpeckett/archivefs/vsync"
)

// Suite "sched": every program is run under many schedules of an enumerating scheduler; the
// distinct histories (calls, returns, results) are recorded for validation against MemFs.

func init() { suites["sched"] = schedSuite }

// A thread waited for something other than the locks the scheduler controls.
var stuck bool

func schedSuite(c *Ctx, raw json.RawMessage) {
	var p hProg
	fatal(json.Unmarshal(raw, &p))
	if stuck {
		return
	}
	bound := envInt("SCHED_P", 1)
	maxRuns := envInt("SCHED_RUNS", 400)
	randRuns := envInt("SCHED_RAND", 100)
	w := newHistWorld()
	seen := map[string]bool{}
	one := func(choose func(step, running int, enabled []int) int) vsync.Outcome {
		fsys := memfs.New()
		for _, op := range p.Setup {
			w.do(fsys, op)
		}
		log := &histLog{}
		var bodies []func()
		for t, ops := range p.Prog {
			bodies = append(bodies, func() {
				for _, op := range ops {
					// the call is made at the first step after it, so nothing is lost by a yield here
					vsync.Yield()
					log.call(t, op)
					log.ret(t, w.do(fsys, op))
				}
			})
		}
		o := vsync.Run(bodies, choose)
		c.Stats["schedules"]++
		c.Checks++
		if o.Stuck {
			// not a verdict: these sources are left to real threads
			stuck = true
			c.Stats["not schedulable"]++
			return o
		}
		if o.Deadlock {
			c.Fail("deadlock", "an operation waits forever: schedule %v of %s; history %s", o.Choices, raw, log.String())
			return o
		}
		for _, x := range o.Panics {
			c.Fail("panic", "panic: %s: schedule %v of %s", x, o.Choices, raw)
		}
		if len(o.Panics) == 0 {
			h := log.canonical()
			b, err := json.Marshal(h)
			fatal(err)
			if !seen[string(b)] {
				seen[string(b)] = true
				c.Record(histRec{Setup: p.Setup, Ev: h, N: len(p.Prog), Sched: o.Choices})
			}
		}
		return o
	}

	// Systematic exploration of all schedules with at most `bound` preemptions: a depth-first search
	// over decisions, replaying a prefix and then running without preemption.
	type item struct {
		prefix []int
		cost   int
	}
	stack := []item{{nil, 0}}
	runs := 0
	for len(stack) > 0 && runs < maxRuns && len(c.Bad) == 0 && !stuck {
		it := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		var running []int
		o := one(func(step, run int, enabled []int) int {
			running = append(running, run)
			if step < len(it.prefix) {
				return it.prefix[step]
			}
			return pick(run, enabled)
		})
		runs++
		for s := len(o.Choices) - 1; s >= len(it.prefix); s-- {
			cost := it.cost
			// deviations of the default choice after the prefix
			for _, e := range o.Enabled[s] {
				if e == o.Choices[s] {
					continue
				}
				k := cost
				if contains(o.Enabled[s], running[s]) {
					k++ // the running thread could have gone on
				}
				if k <= bound {
					stack = append(stack, item{append(append([]int(nil), o.Choices[:s]...), e), k})
				}
			}
		}
		if runs == maxRuns && len(stack) > 0 {
			// the rest is sampled
			c.Rng.Shuffle(len(stack), func(i, j int) { stack[i], stack[j] = stack[j], stack[i] })
			c.Stats["programs not exhausted"]++
		}
	}
	for i := 0; i < randRuns && len(c.Bad) == 0 && !stuck; i++ {
		rate := []int{2, 4, 10, 30}[i%4]
		one(func(step, run int, enabled []int) int {
			if c.Rng.Intn(rate) == 0 {
				return enabled[c.Rng.Intn(len(enabled))]
			}
			return pick(run, enabled)
		})
	}
}

func pick(run int, enabled []int) int {
	if contains(enabled, run) {
		return run
	}
	return enabled[0]
}

func contains(l []int, x int) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}
