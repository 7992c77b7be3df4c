package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Env is what a workload sees of the simulator. Book-keeping is done in
// go:norace functions on preallocated memory: it must neither race nor
// introduce happens-before edges that would hide races of the code under test.
type Env struct {
	job   *Job
	plan  *Plan
	strat *Strategy
	Net   *SimNet

	run     tasks
	ntasks  int
	ndone   int
	taskNm  [256]string
	taskEnd [256]bool

	ctrName [128]string
	ctrVal  [128]int64
	nctr    int

	trace  []string
	ntrace int
	hist   uint64

	ended   bool
	exitFn  func(code int)
	crashOK func(stack string, v any) bool
}

func newEnv(j *Job, p *Plan, s *Strategy) *Env {
	return &Env{job: j, plan: p, strat: s, trace: make([]string, 4000), hist: 0xcbf29ce484222325}
}

//go:norace
func (e *Env) count(prefix, name string) {
	for i := 0; i < e.nctr; i++ {
		n := e.ctrName[i]
		if len(n) == len(prefix)+len(name) && n[:len(prefix)] == prefix && n[len(prefix):] == name {
			e.ctrVal[i]++
			return
		}
	}
	if e.nctr < len(e.ctrName) {
		e.ctrName[e.nctr] = prefix + name
		e.ctrVal[e.nctr] = 1
		e.nctr++
	}
}

// Fault counts a fault that actually fired.
func (e *Env) Fault(kind string) { e.count("f:", kind) }

// Probe counts a rare condition that was reached.
func (e *Env) Probe(name string) { e.count("p:", name) }

// Ev appends to the event trace (and to the history hash).
func (e *Env) Ev(f string, a ...any) {
	o := runtime.SimPause()
	s := fmt.Sprintf(f, a...)
	e.ev(s)
	runtime.SimResume(o)
}

//go:norace
func (e *Env) ev(s string) {
	for i := 0; i < len(s); i++ {
		e.hist = (e.hist ^ uint64(s[i])) * 0x100000001b3
	}
	if e.ntrace < len(e.trace) {
		d := time.Duration(runtime.SimMono() - simEpoch)
		e.trace[e.ntrace] = fmt.Sprintf("%6d %14s g%-4d %s", runtime.SimSeq(), d, runtime.SimGoid(), s)
		e.ntrace++
	}
}

var simEpoch = runtime.SimMono()

// Fail reports a violation and ends the execution at once.
func (e *Env) Fail(class, f string, a ...any) {
	runtime.SimStop()
	e.finish("violation", class, fmt.Sprintf(f, a...))
}

// Harness reports trouble of the harness itself.
func (e *Env) Harness(f string, a ...any) {
	runtime.SimStop()
	e.finish("harness_error", "harness", fmt.Sprintf(f, a...)+"\n"+string(debug.Stack()))
}

func (e *Env) finish(status, class, msg string) {
	runtime.SimPause()
	if e.ended {
		select {}
	}
	e.ended = true
	r := &Result{Status: status, Class: class, Msg: msg, Faults: map[string]int64{}, Probes: map[string]int64{}, Stats: runtime.SimGetStats(), Hist: e.hist}
	for i := 0; i < e.nctr; i++ {
		n := e.ctrName[i]
		if strings.HasPrefix(n, "f:") {
			r.Faults[n[2:]] = e.ctrVal[i]
		} else {
			r.Probes[n[2:]] = e.ctrVal[i]
		}
	}
	if status != "ok" || e.job.Verbose {
		r.Plan = e.plan
		r.Strategy = e.strat
		for _, d := range runtime.SimGetLog() {
			r.Script = append(r.Script, [3]uint32{d.Idx, uint32(d.Val), uint32(d.Kind)})
		}
		r.Trace = e.trace[:e.ntrace]
	}
	sites := runtime.SimSites()
	for i, w := range sites {
		for b := 0; b < 64; b++ {
			if w&(1<<b) != 0 {
				r.Sites = append(r.Sites, uint16(i*64+b))
			}
		}
	}
	b, err := json.Marshal(r)
	if err != nil {
		fatalHarness("marshal: %v", err)
	}
	for len(b) > 0 {
		n, err := syscall.Write(3, b)
		if err != nil {
			fatalHarness("write: %v", err)
		}
		b = b[n:]
	}
	syscall.Exit(0)
}

func (e *Env) onExit(code int) {
	if e.exitFn != nil {
		e.exitFn(code)
	}
	e.Fail("exit", "the process called os.Exit(%d)\n%s", code, debug.Stack())
}

// blame tells whose panic a stack belongs to: "forego" when the first frame
// below the panic that is neither standard library nor dependency is forego's.
func blame(stack string) string {
	lines := strings.Split(stack, "\n")
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			start = i
		}
	}
	for _, l := range lines[start:] {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "created by") {
			continue
		}
		if strings.HasPrefix(l, "github.com/Aize-Public/forego/") {
			return "forego"
		}
		if strings.HasPrefix(l, "main.") {
			return "harness"
		}
	}
	for _, l := range lines {
		if strings.HasPrefix(l, "created by github.com/Aize-Public/forego/") {
			return "forego"
		}
	}
	return "other"
}

func (e *Env) onPanic(where string, r any) {
	o := runtime.SimPause()
	st := string(debug.Stack())
	runtime.SimResume(o)
	if _, ok := r.(taskExit); ok {
		return
	}
	if _, ok := r.(runtime.Error); ok && blame(st) == "harness" {
		e.Fail("unusable-result", "what was returned can't be used: panic in %s: %v\n%s", where, r, trimStack(st))
	}
	if blame(st) == "harness" {
		e.Harness("panic in %s: %v\n%s", where, r, st)
	}
	e.Fail("panic", "panic in %s: %v\n%s", where, r, trimStack(st))
}

type taskExit struct{}

func trimStack(s string) string {
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

// Go starts a workload task.
func (e *Env) Go(name string, f func()) {
	id := e.taskStart(name)
	e.run.start()
	go func() {
		defer e.run.done()
		defer e.taskDone(id)
		defer func() {
			if r := recover(); r != nil {
				e.onPanic(name, r)
			}
		}()
		f()
	}()
}

//go:norace
func (e *Env) taskStart(name string) int {
	id := e.ntasks
	if id < len(e.taskNm) {
		e.taskNm[id] = name
	}
	e.ntasks++
	return id
}

//go:norace
func (e *Env) taskDone(id int) {
	if id < len(e.taskEnd) {
		e.taskEnd[id] = true
	}
	e.ndone++
}

//go:norace
func (e *Env) Pending() (out []string) {
	for i := 0; i < e.ntasks && i < len(e.taskNm); i++ {
		if !e.taskEnd[i] {
			out = append(out, e.taskNm[i])
		}
	}
	return
}

// Join waits for all tasks; not finishing within d of simulated time is a
// violation of class.
func (e *Env) Join(d time.Duration, class, what string) {
	if !e.TryJoin(d) {
		e.Fail(class, "%s: still not finished after %s of simulated time: %v\n%s", what, d, e.Pending(), foregoStacks())
	}
}

func (e *Env) TryJoin(d time.Duration) bool {
	ch := e.run.idle()
	return ch == nil || recvTimeout(ch, d)
}

// tasks counts the running tasks. (Not a sync.WaitGroup: callbacks in server
// goroutines may start a task while Join waits.)
type tasks struct {
	mu  sync.Mutex
	n   int
	end chan struct{} // closed when n gets to 0
}

func (t *tasks) start() {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.n == 0 {
		t.end = make(chan struct{})
	}
	t.n++
}

func (t *tasks) done() {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.n--
	if t.n == 0 {
		close(t.end)
	}
}

func (t *tasks) idle() <-chan struct{} {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.n == 0 {
		return nil
	}
	return t.end
}

func recvTimeout(ch <-chan struct{}, d time.Duration) bool {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-ch:
		return true
	case <-t.C:
		select {
		case <-ch:
			return true
		default:
			return false
		}
	}
}

// foregoStacks returns the stacks of goroutines that are in forego code.
func foregoStacks() string {
	o := runtime.SimPause()
	defer runtime.SimResume(o)
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "github.com/Aize-Public/forego/") && !strings.Contains(g, "foregoStacks") {
			out = append(out, g)
		}
	}
	s := strings.Join(out, "\n\n")
	if len(s) > 8000 {
		s = s[:8000] + "..."
	}
	return s
}

// Leaks lists goroutines whose stack (not just creator) is in forego code and
// does not contain any of the allowed substrings.
func (e *Env) Leaks(allow ...string) []string {
	o := runtime.SimPause()
	defer runtime.SimResume(o)
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
next:
	for _, g := range strings.Split(string(buf), "\n\n") {
		if !strings.Contains(g, "github.com/Aize-Public/forego/") || strings.Contains(g, ".Leaks(") {
			continue
		}
		for _, a := range allow {
			if strings.Contains(g, a) {
				continue next
			}
		}
		out = append(out, g)
	}
	return out
}

// Sleep lets simulated time pass.
func (e *Env) Sleep(d time.Duration) { time.Sleep(d) }

// Slack is by how much anything may be later than its time: simulated time
// stands still while somebody can run, unless this run has slow tasks, and
// those take no more than 20 seconds altogether.
func (e *Env) Slack() time.Duration {
	if e.strat.JumpP == 0 {
		return 2 * time.Second
	}
	return 22 * time.Second
}

// Flip and Choose are scheduler-recorded decisions; false/0 is the benign value.
func (e *Env) Flip(num, den int) bool { return runtime.SimFlip(num * 65536 / den) }
func (e *Env) Choose(n int) int       { return runtime.SimChoose(n) }

// WallJump moves the wall clock, leaving monotonic time alone.
func (e *Env) WallJump(d time.Duration) {
	runtime.SimSetWall(runtime.SimWall() + int64(d))
	e.Fault("wall_clock_jump")
}

func (e *Env) Seq() int64 { return runtime.SimSeq() }

// N is a race-neutral counter.
type N struct{ v int64 }

//go:norace
func (n *N) Add(d int64) int64 { n.v += d; return n.v }

//go:norace
func (n *N) Get() int64 { return n.v }

//go:norace
func (n *N) Set(v int64) { n.v = v }

// L is a race-neutral log of values; max is how many are expected.
type L[T any] struct {
	buf []T
	n   int
}

func NewL[T any](max int) *L[T] { return &L[T]{buf: make([]T, max)} }

//go:norace
func (l *L[T]) Add(v T) int {
	if l.n >= len(l.buf) {
		if l.n > 1<<24 {
			fatalHarness("L overflow")
		}
		// not append, which tells the race detector
		buf := make([]T, 2*l.n+16)
		for i := 0; i < l.n; i++ {
			buf[i] = l.buf[i]
		}
		l.buf = buf
	}
	l.buf[l.n] = v
	l.n++
	return l.n - 1
}

//go:norace
func (l *L[T]) At(i int) T { return l.buf[i] }

//go:norace
func (l *L[T]) Put(i int, v T) { l.buf[i] = v }

//go:norace
func (l *L[T]) All() []T { return l.buf[:l.n] }

//go:norace
func (l *L[T]) Len() int { return l.n }

var _ = os.Stderr

// Box is a race-neutral variable.
type Box[T any] struct{ v T }

//go:norace
func (b *Box[T]) Get() T { return b.v }

//go:norace
func (b *Box[T]) Set(v T) { b.v = v }
