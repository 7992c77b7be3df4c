package main

import (
	"context"
	"sync"
	"time"
)

// Replay is the replay file: one exactly repeatable execution.
type Replay struct {
	Property string      `json:"property"`
	Workload string      `json:"workload"`
	Race     bool        `json:"race,omitempty"`
	Class    string      `json:"class"`
	Msg      string      `json:"msg"`
	Seed     uint64      `json:"seed"`
	Sched    uint64      `json:"sched,omitempty"`
	Plan     *Plan       `json:"plan"`
	Strategy *Strategy   `json:"strategy"`
	BySeed   bool        `json:"by_seed,omitempty"` // decisions overflowed: replay from the seed
	Script   [][3]uint32 `json:"script"`            // [decision index, value, kind]; all others take the default
	Hash     uint64      `json:"hash"`
	Original struct {
		Ops, Decisions int
	} `json:"original"`
	Trace []string `json:"trace,omitempty"`
}

func (r *Replay) job() *Job {
	return &Job{WL: r.Workload, Seed: r.Seed, Sched: r.Sched, Plan: r.Plan, Strategy: r.Strategy, Replay: !r.BySeed, Script: r.Script, Verbose: true}
}

type cand struct {
	plan   *Plan
	script [][3]uint32
	sched  uint64
	res    *Result
}

// minimise shrinks the operation sequence, then the schedule and fault trace,
// while the same violation class persists.
func minimise(bin string, wl string, seed uint64, r0 *Result, plan *Plan, strat *Strategy, budget time.Duration, log func(string, ...any)) *Replay {
	deadline := time.Now().Add(budget)
	class := r0.Class
	cur := cand{plan: plan, script: r0.Script, res: r0}
	jobOf := func(p *Plan, s [][3]uint32) *Job {
		return &Job{WL: wl, Seed: seed, Plan: p, Strategy: strat, Replay: true, Script: s, MaxSteps: 4 * (r0.Stats.Steps + 50000)}
	}
	// first reports the first candidate (in order) that still fails.
	first := func(cs []func() *Job) int {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		res := make([]*Result, len(cs))
		var wg sync.WaitGroup
		sem := make(chan struct{}, 8)
		for i := range cs {
			wg.Add(1)
			sem <- struct{}{}
			go func(i int) {
				defer wg.Done()
				defer func() { <-sem }()
				if time.Now().After(deadline) {
					return
				}
				j := cs[i]()
				r := runJob(ctx, bin, j)
				if r.Status == "violation" && r.Class == class {
					res[i] = r
				}
			}(i)
		}
		wg.Wait()
		for i, r := range res {
			if r != nil {
				j := cs[i]()
				cur.plan = j.Plan
				if j.Replay {
					cur.script = j.Script
				} else {
					cur.script = r.Script
				}
				cur.res = r
				return i
			}
		}
		return -1
	}
	// Does the scripted replay fail at all?
	if r0.Stats.Overflow || first([]func() *Job{func() *Job { return jobOf(cur.plan, cur.script) }}) < 0 {
		log("replay by decision list not possible (overflow=%v): keeping the seed", r0.Stats.Overflow)
		rp := &Replay{Workload: wl, Class: class, Msg: r0.Msg, Seed: seed, Plan: plan, Strategy: strat, BySeed: true, Hash: r0.Stats.Hash}
		return rp
	}
	without := func(p *Plan, from, to int) *Plan {
		q := &Plan{Knobs: p.Knobs}
		q.Ops = append(append([]Op{}, p.Ops[:from]...), p.Ops[to:]...)
		return q
	}
	// 1. operations: scripted first, then a few fresh schedules per candidate.
	for chunk := (len(cur.plan.Ops) + 1) / 2; chunk >= 1 && time.Now().Before(deadline); {
		removed := false
		for from := 0; from < len(cur.plan.Ops) && time.Now().Before(deadline); {
			to := min(from+chunk, len(cur.plan.Ops))
			if to-from == len(cur.plan.Ops) && len(cur.plan.Ops) <= 1 {
				break
			}
			q := without(cur.plan, from, to)
			var cs []func() *Job
			sc := cur.script
			cs = append(cs, func() *Job { return jobOf(q, sc) })
			for k := uint64(1); k <= 7; k++ {
				k := k
				cs = append(cs, func() *Job {
					return &Job{WL: wl, Seed: seed, Sched: seed*1000 + k + uint64(len(q.Ops))*77, Plan: q, Strategy: strat, MaxSteps: 4 * (r0.Stats.Steps + 50000)}
				})
			}
			if first(cs) >= 0 {
				removed = true
			} else {
				from = to
			}
		}
		if chunk == 1 && !removed {
			break
		}
		if chunk > 1 {
			chunk /= 2
		} else if !removed {
			break
		}
	}
	// 2. decisions: ddmin, from the end (later decisions do not shift earlier ones).
	drop := func(s [][3]uint32, from, to int) [][3]uint32 {
		return append(append([][3]uint32{}, s[:from]...), s[to:]...)
	}
	for chunk := (len(cur.script) + 1) / 2; chunk >= 1 && time.Now().Before(deadline); chunk /= 2 {
		for end := len(cur.script); end > 0 && time.Now().Before(deadline); {
			// up to 8 disjoint chunks tried in parallel; take the first that works
			var cs []func() *Job
			var ends []int
			for k, e := 0, end; k < 8 && e > 0; k, e = k+1, e-chunk {
				from, to := max(0, e-chunk), e
				s := drop(cur.script, from, to)
				p := cur.plan
				cs = append(cs, func() *Job { return jobOf(p, s) })
				ends = append(ends, from)
			}
			if i := first(cs); i >= 0 {
				end = min(ends[i], len(cur.script))
			} else {
				end = ends[len(ends)-1]
			}
		}
	}
	rp := &Replay{Workload: wl, Class: class, Seed: seed, Plan: cur.plan, Strategy: strat, Script: cur.script}
	// Final run: fills message, hash and trace.
	j := rp.job()
	r := runJob(context.Background(), bin, j)
	if r.Status != "violation" || r.Class != class {
		log("minimised case did not reproduce (%s %s); keeping the seed", r.Status, r.Class)
		return &Replay{Workload: wl, Class: class, Msg: r0.Msg, Seed: seed, Plan: plan, Strategy: strat, BySeed: true, Hash: r0.Stats.Hash}
	}
	rp.Msg, rp.Hash, rp.Trace = r.Msg, r.Stats.Hash, r.Trace
	return rp
}
