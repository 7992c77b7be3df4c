// dsim: builds the simulator around /repo's working tree and drives it.
package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var verif = "/verif"

func die(f string, a ...any) {
	fmt.Printf("ERROR: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	if v := os.Getenv("VERIF_ROOT"); v != "" {
		verif = v
	} else if wd, err := os.Getwd(); err == nil {
		for d := wd; d != "/"; d = filepath.Dir(d) {
			if _, err := os.Stat(filepath.Join(d, "tools/dsim")); err == nil {
				verif = d
				break
			}
		}
	}
	if len(os.Args) < 2 {
		die("usage: dsim check|replay|run|determinism ...")
	}
	switch os.Args[1] {
	case "check":
		cmdCheck(os.Args[2:])
	case "replay":
		cmdReplay(os.Args[2:])
	case "run":
		cmdRun(os.Args[2:])
	case "build":
		d := os.Args[2]
		must(os.MkdirAll(d, 0o755))
		t := time.Now()
		i, err := build(verif, d, len(os.Args) > 3)
		fmt.Println(i, err, time.Since(t))
		if err != nil {
			os.Exit(2)
		}
	case "determinism":
		cmdDeterminism(os.Args[2:])
	default:
		die("unknown command %s", os.Args[1])
	}
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func scratch() (string, func()) {
	d, err := os.MkdirTemp("", "dsim-")
	must(err)
	return d, func() { os.RemoveAll(d) }
}

// stage is one workload searched with one binary.
type stage struct {
	wl   string
	race bool
	// share of the property's time budget
	share float64
}

type totals struct {
	runs, nontriv              int
	steps, switches, decisions uint64
	simNanos                   float64
	faults, probes             map[string]int64
	hashes, hists              map[uint64]struct{}
	sites                      map[uint16]struct{}
	strat                      map[string]int64
	jumps, fjumps              uint64
	stages                     []map[string]any
	samples                    []any
	determinism                int
	maxSteps                   uint64
}

func newTotals() *totals {
	return &totals{faults: map[string]int64{}, probes: map[string]int64{}, hashes: map[uint64]struct{}{}, hists: map[uint64]struct{}{}, sites: map[uint16]struct{}{}, strat: map[string]int64{}}
}

type finding struct {
	seed uint64
	st   stage
	res  *Result
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	tier := fs.String("tier", envOr("VERIF_TIER", "quick"), "")
	seedF := fs.Uint64("seed", envU("VERIF_SEED", 1), "")
	budget := fs.Float64("budget", 0, "seconds of search")
	keep := fs.String("bin", "", "directory with prebuilt sim / sim-race (development only)")
	maxRuns := fs.Int("runs", 0, "")
	noMin := fs.Bool("nomin", false, "")
	if len(args) < 1 {
		die("check: property?")
	}
	id := args[0]
	must(fs.Parse(args[1:]))
	p, ok := properties[id]
	if !ok {
		die("unknown property %s", id)
	}
	start := time.Now()
	dir, cleanup := scratch()
	defer cleanup()
	exit := func(code int) { cleanup(); os.Exit(code) }

	needRace := false
	for _, s := range p.stages {
		needRace = needRace || s.race
	}
	bins := map[bool]string{}
	var info *buildInfo
	if *keep != "" {
		bins[false] = filepath.Join(*keep, "sim")
		bins[true] = filepath.Join(*keep, "sim-race")
		info = &buildInfo{}
	} else {
		var err error
		info, err = build(verif, dir, false)
		if err != nil {
			fmt.Printf("ERROR: build: %v\n", err)
			exit(2)
		}
		bins[false] = info.Bin
		if needRace {
			if err := buildRace(verif, dir); err != nil {
				fmt.Printf("ERROR: build -race: %v\n", err)
				exit(2)
			}
			bins[true] = filepath.Join(dir, "sim-race")
		}
	}
	buildS := time.Since(start).Seconds()

	total := p.quickS
	if *tier == "thorough" {
		total = p.thoroughS
	}
	if *budget > 0 {
		total = *budget
	}
	known := loadKnown(id)
	tot := newTotals()
	var found *finding
	searchStart := time.Now()
	var shares float64
	for _, s := range p.stages {
		shares += s.share
	}
	knownHit := map[string]int{}
	for _, s := range p.stages {
		d := time.Duration(total * s.share / shares * float64(time.Second))
		f, err := search(bins[s.race], id, s, *seedF, d, *maxRuns, tot, known, knownHit)
		if err != nil {
			fmt.Printf("ERROR: %s: %v\n", s.wl, err)
			exit(2)
		}
		if f != nil {
			found = f
			break
		}
	}
	searchS := time.Since(searchStart).Seconds()
	for _, k := range known {
		if k.Status == "known" {
			fmt.Printf("KNOWN-FINDING: property=%s %s (seen %d times in this run)\n", id, k.What, knownHit[k.Match])
		}
	}
	viol := 0
	code := 0
	if found != nil {
		viol = 1
		code = 1
		// Confirm: the same seed must fail the same way.
		job := &Job{WL: found.st.wl, Seed: found.seed, Verbose: true}
		r2 := runJob(context.Background(), bins[found.st.race], job)
		if r2.Status != "violation" || r2.Class != found.res.Class || r2.Stats.Hash != found.res.Stats.Hash {
			fmt.Printf("ERROR: seed %d of %s is not repeatable: %s/%s/%x then %s/%s/%x\n%s\n", found.seed, found.st.wl, found.res.Status, found.res.Class, found.res.Stats.Hash, r2.Status, r2.Class, r2.Stats.Hash, r2.Msg)
			exit(2)
		}
		if r2.Plan == nil { // the child crashed: regenerate plan and strategy
			r2.Plan, r2.Strategy = planOf(bins[found.st.race], found.st.wl, found.seed)
		}
		nops, ndec := len(r2.Plan.Ops), len(r2.Script)
		mb := 45 * time.Second
		if *noMin {
			mb = 0
		}
		rp := minimise(bins[found.st.race], found.st.wl, found.seed, r2, r2.Plan, r2.Strategy, mb, func(f string, a ...any) { fmt.Printf("minimise: "+f+"\n", a...) })
		rp.Property, rp.Race = id, found.st.race
		rp.Original.Ops, rp.Original.Decisions = nops, ndec
		must(os.MkdirAll(filepath.Join(verif, "replays"), 0o755))
		path := filepath.Join(verif, "replays", fmt.Sprintf("%s-%s-%d.json", id, found.st.wl, found.seed))
		b, _ := json.MarshalIndent(rp, "", " ")
		must(os.WriteFile(path, b, 0o644))
		fmt.Printf("violation of %s: class=%s workload=%s seed=%d ops %d->%d decisions %d->%d\n%s\n", id, rp.Class, rp.Workload, rp.Seed, nops, len(rp.Plan.Ops), ndec, len(rp.Script), rp.Msg)
		for i, l := range rp.Trace {
			if i >= 60 {
				fmt.Println("  ...")
				break
			}
			fmt.Println("  " + l)
		}
		// Replay in a fresh process must fail the same way.
		r3 := runJob(context.Background(), bins[found.st.race], rp.job())
		if r3.Status != "violation" || r3.Class != rp.Class || (rp.Hash != 0 && r3.Stats.Hash != rp.Hash) {
			fmt.Printf("ERROR: replay of %s does not reproduce: %s %s\n", path, r3.Status, r3.Class)
			exit(2)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	}
	writeEvidence(id, p, *tier, *seedF, tot, info, viol, time.Since(start).Seconds(), buildS, searchS)
	if code == 0 {
		fmt.Printf("ok %s: %d runs, %d distinct schedules, %d distinct histories, build %.1fs search %.1fs\n", id, tot.runs, len(tot.hashes), len(tot.hists), buildS, searchS)
	}
	exit(code)
}

func planOf(bin, wl string, seed uint64) (*Plan, *Strategy) {
	// The generator is a pure function of the seed: ask for it with a step
	// budget of zero work.
	r := runJob(context.Background(), bin, &Job{WL: "plan:" + wl, Seed: seed, Verbose: true})
	if r.Plan == nil {
		die("cannot regenerate the plan of %s seed %d: %s", wl, seed, r.Msg)
	}
	return r.Plan, r.Strategy
}

func seedOf(base uint64, i int) uint64 { return base*10_000_000 + uint64(i) + 1 }

func search(bin, id string, s stage, base uint64, d time.Duration, maxRuns int, tot *totals, known []knownEntry, knownHit map[string]int) (*finding, error) {
	deadline := time.Now().Add(d)
	t0 := time.Now()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var next atomic.Int64
	var mu sync.Mutex
	var best *finding
	var herr error
	runs, nherr := 0, 0
	firstHash := map[uint64][2]uint64{}
	const detN = 16
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1) - 1)
				if i >= detN && time.Now().After(deadline) || maxRuns > 0 && i >= maxRuns || ctx.Err() != nil {
					return
				}
				seed := seedOf(base, i)
				job := &Job{WL: s.wl, Seed: seed, Verbose: i < 2}
				r := runJob(ctx, bin, job)
				mu.Lock()
				switch r.Status {
				case "cancelled":
					mu.Unlock()
					return
				case "harness_error":
					if herr == nil && best == nil {
						herr = fmt.Errorf("seed %d: %s: %s", seed, r.Class, r.Msg)
					}
					nherr++ // go on for a while: a violation says more
					stop := nherr >= 8
					if stop {
						cancel()
					}
					mu.Unlock()
					if stop {
						return
					}
					continue
				case "violation":
					if k := matchKnown(known, s.wl, r); k != nil {
						knownHit[k.Match]++
					} else {
						if best == nil || seed < best.seed {
							best = &finding{seed, s, r}
						}
						cancel()
						mu.Unlock()
						return
					}
				}
				runs++
				tot.add(r)
				if i < detN {
					firstHash[seed] = [2]uint64{r.Stats.Hash, r.Hist}
				}
				if i < 2 && len(tot.samples) < 4 {
					tot.samples = append(tot.samples, sample(s, seed, r))
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if best != nil {
		tot.runs++
		return best, nil
	}
	if herr != nil {
		return nil, herr
	}
	// Determinism: the first seeds again, one process each; hashes must agree.
	var dmu sync.Mutex
	var dwg sync.WaitGroup
	sem := make(chan struct{}, 3)
	for seed, h := range firstHash {
		dwg.Add(1)
		sem <- struct{}{}
		go func() {
			defer dwg.Done()
			defer func() { <-sem }()
			r := runJob(context.Background(), bin, &Job{WL: s.wl, Seed: seed})
			dmu.Lock()
			defer dmu.Unlock()
			if r.Stats.Hash != h[0] || r.Hist != h[1] {
				herr = fmt.Errorf("seed %d is not deterministic: %x/%x then %x/%x (%s %s)", seed, h[0], h[1], r.Stats.Hash, r.Hist, r.Status, r.Msg)
			}
			tot.determinism++
		}()
	}
	dwg.Wait()
	el := time.Since(t0).Seconds()
	tot.stages = append(tot.stages, map[string]any{"workload": s.wl, "race_detector": s.race, "runs": runs, "seconds": round(el), "first_seed": seedOf(base, 0), "last_seed": seedOf(base, max(runs-1, 0)), "runs_per_hour": int(float64(runs) / el * 3600)})
	return nil, herr
}

func (t *totals) add(r *Result) {
	t.runs++
	st := r.Stats
	t.steps += st.Steps
	t.switches += st.Switches
	t.decisions += uint64(st.Decisions)
	t.jumps += st.Jumps
	t.fjumps += st.ForcedJumps
	t.simNanos += float64(st.SimNanos)
	if st.Steps > t.maxSteps {
		t.maxSteps = st.Steps
	}
	for k, v := range r.Faults {
		t.faults[k] += v
	}
	for k, v := range r.Probes {
		t.probes[k] += v
	}
	if st.Logged > 0 {
		if _, ok := t.hashes[st.Hash]; !ok {
			t.hashes[st.Hash] = struct{}{}
		}
		t.nontriv++
	}
	t.hists[r.Hist] = struct{}{}
	for _, s := range r.Sites {
		t.sites[s] = struct{}{}
	}
}

func sample(s stage, seed uint64, r *Result) any {
	tr := r.Trace
	if len(tr) > 25 {
		tr = tr[:25]
	}
	return map[string]any{"workload": s.wl, "seed": seed, "plan": r.Plan, "strategy": r.Strategy, "non_default_decisions": len(r.Script), "trace_head": tr, "outcome": r.Status}
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func writeEvidence(id string, p *property, tier string, seed uint64, t *totals, info *buildInfo, viol int, wall, buildS, searchS float64) {
	cov := map[string]any{
		"evaluations":         t.runs,
		"distinct_nontrivial": len(t.hashes),
		"rule": "One evaluation is one simulated execution of the real code in its own process: a workload plan generated from the seed, run under a seeded scheduler, clock, network and fault injector. " +
			"Non-trivial: at least one scheduling, time or fault decision differed from the default (run to block, FIFO, no fault). Distinct: by the hash of the whole context-switch and decision sequence (goroutine, switch point, decision value).",
		"samples":                         t.samples,
		"runs_with_non_default_decisions": t.nontriv,
		"distinct_observable_histories":   len(t.hists),
		"distinct_preemption_sites":       len(t.sites),
		"preemption_points_instrumented":  info.Points,
		"yield_points_passed":             t.steps,
		"preemptive_switches":             t.switches,
		"decisions":                       t.decisions,
		"simulated_seconds":               round(t.simNanos / 1e9),
		"clock_jumps_when_idle":           t.jumps,
		"slow_task_clock_jumps":           t.fjumps,
		"faults_injected":                 t.faults,
		"probes_reached":                  t.probes,
		"stages":                          t.stages,
		"determinism_reruns_equal":        t.determinism,
		"runs_per_hour":                   int(float64(t.runs) / max(searchS, 0.001) * 3600),
		"build_seconds":                   round(buildS),
		"search_seconds":                  round(searchS),
		"longest_run_yield_points":        t.maxSteps,
		"real_components":                 p.real,
		"stub_components":                 p.stub,
	}
	fa := map[string]any{}
	_ = fa
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(wall), "violations": viol,
		"assumptions": append([]string{
			"Go 1.27.3 toolchain with the overlay of tools/dsim/patches.go; one P, cooperative preemption at every statement of the code under test and at every sync primitive",
			"sequentially consistent interleavings only; the race-detector stages (where listed) judge unsynchronised accesses",
			"sampling: a clean batch is evidence, not proof",
		}, p.assume...),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Join(verif, "evidence"), 0o755))
	must(os.WriteFile(filepath.Join(verif, "evidence", id+".json"), b, 0o644))
}

func cmdReplay(args []string) {
	if len(args) < 1 {
		die("replay FILE")
	}
	b, err := os.ReadFile(args[0])
	must(err)
	var rp Replay
	must(json.Unmarshal(b, &rp))
	dir, cleanup := scratch()
	defer cleanup()
	info, err := build(verif, dir, false)
	must(err)
	bin := info.Bin
	if rp.Race {
		must(buildRace(verif, dir))
		bin = filepath.Join(dir, "sim-race")
	}
	r := runJob(context.Background(), bin, rp.job())
	for _, l := range r.Trace {
		fmt.Println("  " + l)
	}
	fmt.Printf("%s %s hash=%x (file: %s hash=%x)\n%s\n", r.Status, r.Class, r.Stats.Hash, rp.Class, rp.Hash, r.Msg)
	if r.Status == "violation" && r.Class == rp.Class {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, args[0])
		cleanup()
		os.Exit(1)
	}
	if r.Status == "harness_error" {
		cleanup()
		os.Exit(2)
	}
}

func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	bin := fs.String("bin", "", "")
	seed := fs.Uint64("seed", 1, "")
	must(fs.Parse(args[1:]))
	r := runJob(context.Background(), *bin, &Job{WL: args[0], Seed: *seed, Verbose: true})
	if r.Plan != nil {
		b, _ := json.Marshal(r.Plan)
		fmt.Println(string(b))
	}
	for _, l := range r.Trace {
		fmt.Println("  " + l)
	}
	fmt.Printf("%s %s %+v faults=%v probes=%v strat=%+v\n%s\n", r.Status, r.Class, r.Stats, r.Faults, r.Probes, r.Strategy, r.Msg)
}

// cmdDeterminism runs many seeds twice at different worker counts and diffs.
func cmdDeterminism(args []string) {
	fs := flag.NewFlagSet("determinism", flag.ExitOnError)
	bin := fs.String("bin", "", "")
	n := fs.Int("n", 300, "")
	base := fs.Uint64("seed", 77, "")
	must(fs.Parse(args))
	wls := fs.Args()
	if len(wls) == 0 {
		seen := map[string]bool{}
		for _, p := range properties {
			for _, s := range p.stages {
				if !s.race && !seen[s.wl] {
					seen[s.wl] = true
					wls = append(wls, s.wl)
				}
			}
		}
		sort.Strings(wls)
	}
	bad := 0
	for _, wl := range wls {
		pass := func(workers int) map[uint64]string {
			out := map[uint64]string{}
			var mu sync.Mutex
			var wg sync.WaitGroup
			var next atomic.Int64
			for w := 0; w < workers; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for {
						i := int(next.Add(1) - 1)
						if i >= *n {
							return
						}
						r := runJob(context.Background(), *bin, &Job{WL: wl, Seed: seedOf(*base, i), Verbose: true})
						k := fmt.Sprintf("%s/%s/%x/%x/%d/%s", r.Status, r.Class, r.Stats.Hash, r.Hist, r.Stats.SimNanos, strings.Join(r.Trace, "\n"))
						mu.Lock()
						out[seedOf(*base, i)] = k
						mu.Unlock()
					}
				}()
			}
			wg.Wait()
			return out
		}
		a, b := pass(8), pass(3)
		d := 0
		for s, x := range a {
			if b[s] != x {
				d++
				if d <= 3 {
					fmt.Printf("%s seed %d differs:\n%.300s\n%.300s\n", wl, s, x, b[s])
				}
			}
		}
		fmt.Printf("%s: %d seeds twice, %d differ\n", wl, len(a), d)
		bad += d
	}
	if bad > 0 {
		os.Exit(2)
	}
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func envU(k string, d uint64) uint64 {
	var n uint64
	if _, err := fmt.Sscan(os.Getenv(k), &n); err != nil {
		return d
	}
	return n
}
