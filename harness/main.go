// Harness: one process = one simulated execution. The job arrives on stdin as
// JSON, the result leaves on fd 3.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log/slog"
	"os"
	"os/signal"
	"runtime"
	"sort"
	"strings"
	"syscall"

	"github.com/Aize-Public/forego/ctx/log"
)

// Op is one step of a generated workload.
type Op struct {
	T int    `json:"t"` // task
	K string `json:"k"` // kind
	A int64  `json:"a,omitempty"`
	B int64  `json:"b,omitempty"`
	C int64  `json:"c,omitempty"`
	S string `json:"s,omitempty"`
}

// Plan is everything the workload does; schedules and faults come on top.
type Plan struct {
	Knobs map[string]int64 `json:"knobs,omitempty"`
	Ops   []Op             `json:"ops"`
}

func (p *Plan) Knob(k string) int64 { return p.Knobs[k] }

// oneHuge keeps a run affordable: only one op may be of more than 300 kB.
func (p *Plan) oneHuge() {
	seen := false
	for i := range p.Ops {
		if p.Ops[i].A > 300000 {
			if seen {
				p.Ops[i].A = 131072
			}
			seen = true
		}
	}
}

// ByTask groups the ops by task, tasks in ascending order.
func (p *Plan) ByTask() (ids []int, ops map[int][]Op) {
	ops = map[int][]Op{}
	for _, o := range p.Ops {
		if _, ok := ops[o.T]; !ok {
			ids = append(ids, o.T)
		}
		ops[o.T] = append(ops[o.T], o)
	}
	sort.Ints(ids)
	return
}

type Workload struct {
	ID  string
	Gen func(r *Rng) *Plan
	Run func(e *Env, p *Plan)
}

var workloads = map[string]*Workload{}

func register(w *Workload) { workloads[w.ID] = w }

// Strategy is the schedule-search configuration of one run.
type Strategy struct {
	Kind  int    `json:"kind"`
	P     uint32 `json:"p"`
	JumpP uint32 `json:"jump_p"`
	D     int    `json:"d"`
	K     uint64 `json:"k"`
}

type Job struct {
	WL       string      `json:"wl"`
	Seed     uint64      `json:"seed"`
	Sched    uint64      `json:"sched"` // schedule seed; 0: derived from Seed
	Plan     *Plan       `json:"plan,omitempty"`
	Strategy *Strategy   `json:"strategy,omitempty"`
	Replay   bool        `json:"replay,omitempty"`
	Script   [][3]uint32 `json:"script,omitempty"` // idx, val, kind
	Verbose  bool        `json:"verbose,omitempty"`
	MaxSteps uint64      `json:"max_steps,omitempty"`
}

type Result struct {
	Status   string           `json:"status"` // ok | violation | harness_error
	Class    string           `json:"class,omitempty"`
	Msg      string           `json:"msg,omitempty"`
	Faults   map[string]int64 `json:"faults,omitempty"`
	Probes   map[string]int64 `json:"probes,omitempty"`
	Stats    runtime.SimStats `json:"stats"`
	Plan     *Plan            `json:"plan,omitempty"`
	Strategy *Strategy        `json:"strategy,omitempty"`
	Script   [][3]uint32      `json:"script,omitempty"`
	Trace    []string         `json:"trace,omitempty"`
	Sites    []uint16         `json:"sites,omitempty"`
	Hist     uint64           `json:"hist"` // hash of the observable history
}

var startFrame bool

func main() {
	in, err := io.ReadAll(os.Stdin)
	if err != nil {
		fatalHarness("stdin: %v", err)
	}
	var job Job
	if err := json.Unmarshal(in, &job); err != nil {
		fatalHarness("job: %v", err)
	}
	planOnly := strings.HasPrefix(job.WL, "plan:")
	job.WL = strings.TrimPrefix(job.WL, "plan:")
	w := workloads[job.WL]
	if w == nil {
		fatalHarness("unknown workload %q", job.WL)
	}
	gen := NewRng(job.Seed*0x9e3779b97f4a7c15 + 1)
	plan := job.Plan
	if plan == nil {
		plan = w.Gen(gen)
		if plan.Knobs == nil {
			plan.Knobs = map[string]int64{}
		}
		// many a wall clock is coarse
		plan.Knobs["tick"] = pick(NewRng(job.Seed*0x94d049bb133111eb+5), int64(0), 0, 0, 0, 1000, 1e6, 16e6)
		plan.Knobs["twin"] = pick(NewRng(job.Seed*0x94d049bb133111eb+6), int64(0), 0, 0, 1)
	}
	runtime.SimSetWallTick(plan.Knobs["tick"])
	st := job.Strategy
	if st == nil {
		st = genStrategy(NewRng(job.Seed*0xd1342543de82ef95 + 7))
	}
	e := newEnv(&job, plan, st)
	if plan.Knobs["tick"] > 1 {
		e.Fault("coarse_wall_clock")
	}
	if planOnly {
		job.Verbose = true
		e.finish("ok", "", "")
	}
	signal.Sim = true
	os.SimExit = e.onExit
	log.SetDefaultLoggerLevel(slog.Level(1000))
	e.Net = newSimNet(e)
	cfg := &runtime.SimConfig{
		Seed: job.Sched, Strategy: st.Kind, P: st.P, JumpP: st.JumpP, D: st.D, K: st.K,
		Replay: job.Replay, MaxSteps: job.MaxSteps,
	}
	if job.Sched == 0 {
		cfg.Seed = job.Seed*0xa0761d6478bd642f + 3
	}
	for _, d := range job.Script {
		cfg.Script = append(cfg.Script, runtime.SimDec{Idx: d[0], Val: uint16(d[1]), Kind: uint16(d[2])})
	}
	if !raceEnabled { // a run needs a fraction of this
		lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	runtime.SimStart(cfg)
	func() {
		defer func() {
			if r := recover(); r != nil {
				e.onPanic("main", r)
			}
		}()
		w.Run(e, plan)
	}()
	runtime.SimStop()
	e.finish("ok", "", "")
}

func genStrategy(r *Rng) *Strategy {
	s := &Strategy{}
	switch r.N(8) {
	case 0, 1, 2:
		s.Kind = 0
	case 3, 4:
		s.Kind = 1
	case 5, 6:
		s.Kind = 2
	case 7:
		s.Kind = 3
	}
	s.P = []uint32{200, 1000, 3000, 8000, 20000, 40000}[r.N(6)]
	s.JumpP = []uint32{0, 0, 0, 20, 300, 3000}[r.N(6)]
	s.D = 1 + r.N(5)
	s.K = []uint64{100, 300, 1000, 3000, 10000}[r.N(5)]
	return s
}

func fatalHarness(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS: "+f+"\n", a...)
	syscall.Exit(4)
}

// Rng is a splitmix64 stream for plan generation.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }
func (r *Rng) U() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	return x ^ x>>31
}
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U() % uint64(n))
}
func (r *Rng) Range(lo, hi int) int { return lo + r.N(hi-lo+1) }
func (r *Rng) Bool() bool           { return r.U()&1 == 1 }
func (r *Rng) P(num, den int) bool  { return r.N(den) < num }
func (r *Rng) I(n int64) int64      { return int64(r.U() % uint64(n)) }
func pick[T any](r *Rng, xs ...T) T { return xs[r.N(len(xs))] }
