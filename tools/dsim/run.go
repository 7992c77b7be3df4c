package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Op struct {
	T int    `json:"t"`
	K string `json:"k"`
	A int64  `json:"a,omitempty"`
	B int64  `json:"b,omitempty"`
	C int64  `json:"c,omitempty"`
	S string `json:"s,omitempty"`
}

type Plan struct {
	Knobs map[string]int64 `json:"knobs,omitempty"`
	Ops   []Op             `json:"ops"`
}

type Strategy struct {
	Kind  int    `json:"kind"`
	P     uint32 `json:"p"`
	JumpP uint32 `json:"jump_p"`
	D     int    `json:"d"`
	K     uint64 `json:"k"`
}

type Job struct {
	WL       string      `json:"wl"`
	Seed     uint64      `json:"seed"`
	Sched    uint64      `json:"sched,omitempty"`
	Plan     *Plan       `json:"plan,omitempty"`
	Strategy *Strategy   `json:"strategy,omitempty"`
	Replay   bool        `json:"replay,omitempty"`
	Script   [][3]uint32 `json:"script,omitempty"`
	Verbose  bool        `json:"verbose,omitempty"`
	MaxSteps uint64      `json:"max_steps,omitempty"`
}

type Stats struct {
	Steps, Switches, Picks, Jumps, ForcedJumps uint64
	Decisions, Logged                          uint32
	Overflow                                   bool
	Hash                                       uint64
	SimNanos                                   int64
	Sites                                      int
}

type Result struct {
	Status   string           `json:"status"`
	Class    string           `json:"class,omitempty"`
	Msg      string           `json:"msg,omitempty"`
	Faults   map[string]int64 `json:"faults,omitempty"`
	Probes   map[string]int64 `json:"probes,omitempty"`
	Stats    Stats            `json:"stats"`
	Plan     *Plan            `json:"plan,omitempty"`
	Strategy *Strategy        `json:"strategy,omitempty"`
	Script   [][3]uint32      `json:"script,omitempty"`
	Trace    []string         `json:"trace,omitempty"`
	Sites    []uint16         `json:"sites,omitempty"`
	Hist     uint64           `json:"hist"`
}

const runTimeout = 120 * time.Second

// alone is held shared by each run; a run that was killed, most likely since
// memory ran out, is repeated with no other one beside it.
var alone sync.RWMutex

// runJob runs one simulated execution in its own process.
func runJob(ctx context.Context, bin string, job *Job) *Result {
	alone.RLock()
	r := runOnce(ctx, bin, job)
	alone.RUnlock()
	if r.Class == "killed" && ctx.Err() == nil {
		alone.Lock()
		r = runOnce(ctx, bin, job)
		alone.Unlock()
	}
	return r
}

func runOnce(ctx context.Context, bin string, job *Job) *Result {
	in, _ := json.Marshal(job)
	pr, pw, err := os.Pipe()
	if err != nil {
		return &Result{Status: "harness_error", Msg: err.Error()}
	}
	defer pr.Close()
	cctx, cancel := context.WithTimeout(ctx, runTimeout)
	defer cancel()
	c := exec.CommandContext(cctx, bin)
	c.Stdin = bytes.NewReader(in)
	se := &limited{max: 64 << 10}
	c.Stderr = se
	c.ExtraFiles = []*os.File{pw}
	c.Env = []string{"GOMAXPROCS=1", "GOGC=off", "GOTRACEBACK=all", "TZ=UTC", "HOME=/nonexistent", "PATH=/usr/bin",
		"GODEBUG=updatemaxprocs=0,asyncpreemptoff=1,randautoseed=1",
		"GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0 history_size=3"}
	if err := c.Start(); err != nil {
		pw.Close()
		return &Result{Status: "harness_error", Msg: err.Error()}
	}
	pw.Close()
	done := make(chan []byte, 1)
	go func() { b, _ := io.ReadAll(pr); done <- b }()
	werr := c.Wait()
	b := <-done
	if ctx.Err() != nil {
		return &Result{Status: "cancelled"}
	}
	if cctx.Err() != nil {
		return &Result{Status: "harness_error", Class: "watchdog", Msg: "wall-clock watchdog: " + tail(se.String(), 2000)}
	}
	if len(b) > 0 && b[0] == '{' {
		r := &Result{}
		if err := json.Unmarshal(b, r); err != nil {
			return &Result{Status: "harness_error", Msg: "bad result: " + err.Error()}
		}
		return r
	}
	r := &Result{Status: "harness_error"}
	if len(b) >= 96 && string(b[:8]) == "SIMCRASH" {
		u := func(i int) uint64 { return binary.LittleEndian.Uint64(b[8+8*i:]) }
		n := int(u(0))
		r.Stats = Stats{Steps: u(1), Switches: u(2), Picks: u(3), Jumps: u(4), ForcedJumps: u(5), Decisions: uint32(u(6)), Logged: uint32(n), Hash: u(7), SimNanos: int64(u(8)), Overflow: u(9) != 0, Sites: int(u(10))}
		for i, p := 0, b[96:]; i < n && len(p) >= 8; i, p = i+1, p[8:] {
			r.Script = append(r.Script, [3]uint32{binary.LittleEndian.Uint32(p), uint32(binary.LittleEndian.Uint16(p[4:])), uint32(binary.LittleEndian.Uint16(p[6:]))})
		}
	}
	classifyCrash(r, se.String(), werr)
	return r
}

func classifyCrash(r *Result, stderr string, werr error) {
	r.Msg = stderr
	if len(r.Msg) > 6000 {
		r.Msg = r.Msg[:6000] + "\n..."
	}
	switch {
	case strings.Contains(stderr, "WARNING: DATA RACE"):
		who := raceBlame(stderr)
		// one side is enough: what forego hands out or takes over is its business, and the state of the harness is race-neutral
		if len(who) == 2 && (who[0] == "forego" || who[1] == "forego") {
			r.Status, r.Class = "violation", "data-race"
			return
		}
		r.Class = "race-harness"
		r.Msg = fmt.Sprintf("%v\n%s", who, r.Msg)
	case strings.Contains(stderr, "HARNESS:"):
		r.Class = "harness"
	case strings.Contains(stderr, "fatal error: sim: all goroutines are asleep"):
		r.Status, r.Class = "violation", "deadlock"
	case strings.Contains(stderr, "fatal error: sim: step budget exceeded"):
		r.Status, r.Class = "violation", "livelock"
	case strings.Contains(stderr, "panic: ") || strings.Contains(stderr, "fatal error: "):
		i := strings.Index(stderr, "panic: ")
		if j := strings.Index(stderr, "fatal error: "); i < 0 || j >= 0 && j < i {
			i = j
		}
		s := stderr[i:]
		if g := strings.Index(s, "\ngoroutine "); g >= 0 {
			head := s[:g]
			st := s[g+1:]
			if e := strings.Index(st, "\n\n"); e >= 0 {
				st = st[:e]
			}
			b := blame(st)
			if b == "harness" && (strings.Contains(st, "\ngithub.com/Aize-Public/forego/") || strings.Contains(st, "\ncreated by github.com/Aize-Public/forego/")) {
				b = "forego" // a callback panicked on a task of forego, or was given something unusable
			}
			if b == "harness" && (strings.Contains(head, "runtime error: ") || strings.Contains(head, "interface conversion: ") || strings.HasPrefix(head, "fatal error: concurrent map")) {
				r.Status, r.Class = "violation", "unusable-result"
				r.Msg = "what was returned can't be used: " + head + "\n" + st
				return
			}
			if b == "forego" || b == "other" && strings.Contains(st, "/net/http.") {
				r.Status, r.Class = "violation", "crash"
				r.Msg = "the process died: " + head + "\n" + st
				return
			}
			r.Class = "crash-" + b
		}
	default:
		r.Class = "abnormal"
		if x, ok := werr.(*exec.ExitError); ok {
			if w, ok := x.Sys().(syscall.WaitStatus); ok && w.Signaled() && w.Signal() == syscall.SIGKILL {
				r.Class = "killed"
			}
		}
		r.Msg = fmt.Sprintf("child ended abnormally: %v\n%s", werr, r.Msg)
	}
}

// blame names the owner of the first frame of a stack that is neither standard
// library nor a dependency.
func blame(stack string) string {
	lines := strings.Split(stack, "\n")
	for _, l := range lines {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "created by") {
			continue
		}
		if strings.HasPrefix(l, "github.com/Aize-Public/forego/") {
			return "forego"
		}
		if strings.HasPrefix(l, "main.") {
			return "harness"
		}
	}
	for _, l := range lines {
		if strings.HasPrefix(l, "created by github.com/Aize-Public/forego/") {
			return "forego"
		}
	}
	return "other"
}

var raceHead = regexp.MustCompile(`(?m)^(Read|Write|Previous read|Previous write|Atomic read|Atomic write|Previous atomic \w+) at 0x`)

func raceBlame(s string) (who []string) {
	i := strings.Index(s, "WARNING: DATA RACE")
	s = s[i:]
	if j := strings.Index(s[10:], "=================="); j >= 0 {
		s = s[:j+10]
	}
	locs := raceHead.FindAllStringIndex(s, -1)
	for k, l := range locs {
		end := len(s)
		if k+1 < len(locs) {
			end = locs[k+1][0]
		}
		blk := s[l[0]:end]
		if e := strings.Index(blk, "\n\n"); e >= 0 {
			blk = blk[:e]
		}
		w := "other"
		for _, ln := range strings.Split(blk, "\n")[1:] {
			ln = strings.TrimPrefix(ln, "  ")
			if strings.HasPrefix(ln, "github.com/Aize-Public/forego/") {
				w = "forego"
				break
			}
			if strings.HasPrefix(ln, "main.") {
				w = "harness"
				break
			}
		}
		who = append(who, w)
	}
	return
}

type limited struct {
	bytes.Buffer
	max int
}

func (l *limited) Write(p []byte) (int, error) {
	n := len(p)
	if room := l.max - l.Len(); room < len(p) {
		p = p[:max(room, 0)]
	}
	l.Buffer.Write(p)
	return n, nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
