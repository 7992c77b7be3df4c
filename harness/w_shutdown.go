package main

import (
	"context"
	"errors"
	"sync/atomic"
	"syscall"
	"time"

	"os/signal"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/shutdown"
)

// C01: the shutdown completes exactly when no hold is active.
// C02: Begin is broadcast once, Started5Sec follows.
// C03: signal escalation.
func init() {
	register(&Workload{ID: "C01", Gen: func(r *Rng) *Plan {
		p := &Plan{Knobs: map[string]int64{"tasks": int64(r.Range(2, 6)), "span": pick(r, int64(0), 10, 1000)}}
		n := r.Range(4, 14)
		if r.P(1, 12) {
			n = r.Range(20, 60)
		}
		for i := 0; i < n; i++ {
			o := Op{T: r.N(int(p.Knobs["tasks"])), A: r.I(p.Knobs["span"] + 1), B: r.I(p.Knobs["span"] + 1)}
			switch r.N(8) {
			case 0, 1, 2:
				o.K = "hold"
			case 3, 4:
				o.K = "done"
			case 5:
				o.K = "begin"
			case 6:
				o.K = "holdwait"
			case 7:
				o.K = "waitsig"
			}
			p.Ops = append(p.Ops, o)
		}
		if r.P(1, 4) { // somebody has been in HoldAndWait for long
			p.Knobs["blocked"] = 1 + r.I(5000)
		}
		if r.P(1, 24) { // very many holds at once
			p.Ops = append(p.Ops, Op{T: r.N(int(p.Knobs["tasks"])), K: "crowd", A: r.I(p.Knobs["span"] + 1), B: r.I(3), C: pick(r, int64(65), 128, 130, 256, 257, 300)})
		}
		return p
	}, Run: runC01})

	register(&Workload{ID: "C02", Gen: func(r *Rng) *Plan {
		tasks := r.Range(2, 7)
		p := &Plan{Knobs: map[string]int64{"tasks": int64(tasks)}}
		n := r.Range(3, 14)
		span := pick(r, int64(0), 3, 3000, 12000)
		for i := 0; i < n; i++ {
			o := Op{T: r.N(tasks), A: r.I(span + 1)}
			switch r.N(8) {
			case 0, 1, 2:
				o.K = "begin"
			case 3:
				o.K = "poll"
			case 4:
				o.K = "wait"
			case 5:
				o.K = "wait5"
			case 6:
				o.K = "holdwait"
			case 7:
				o.K = "holdctx"
			}
			p.Ops = append(p.Ops, o)
		}
		if r.P(1, 4) {
			p.Ops = append(p.Ops, Op{T: tasks + 1, K: "wall", A: r.I(span + 1), B: r.I(20000) - 10000})
		}
		return p
	}, Run: runC02})

	register(&Workload{ID: "C03", Gen: func(r *Rng) *Plan {
		p := &Plan{Knobs: map[string]int64{"waiters": 1, "holds": int64(r.N(3))}}
		n := r.Range(1, 6)
		span := pick(r, int64(1), 50, 4000)
		for i := 0; i < n; i++ {
			p.Ops = append(p.Ops, Op{T: 0, K: "sig", A: r.I(span + 1), B: r.I(3), C: r.I(2)})
		}
		for i := 0; i < int(p.Knobs["holds"]); i++ {
			// a service holding until: 0 a fixed time, 1 started + delay, 2 ctx cancelled + delay, 3 never
			p.Ops = append(p.Ops, Op{T: 1 + i, K: "svc", A: r.I(span + 1), B: r.I(4)})
		}
		if r.P(1, 4) {
			p.Ops = append(p.Ops, Op{T: 9, K: "begin", A: r.I(span + 1)})
		}
		if r.P(1, 4) { // something else cancels the root context
			p.Ops = append(p.Ops, Op{T: 10, K: "cancel", A: r.I(span + 1)})
		}
		return p
	}, Run: runC03})
}

func runC01(e *Env, p *Plan) {
	type hold struct{ from, relStart, relEnd int64 } // Seq stamps
	holds := NewL[hold](256)
	ids, ops := p.ByTask()
	check := func(what string, asked, done int64) {
		// done was observed at Seq `done`, requested at Seq `asked`: it is wrong
		// if some hold was continuously active over the whole [asked, done].
		for _, h := range holds.All() {
			if h.from != 0 && h.from < asked && (h.relStart == 0 || h.relStart > done) {
				e.Fail("early-completion", "%s reported complete at #%d (asked at #%d) while a hold taken at #%d was not released (release began at #%d)", what, done, asked, h.from, h.relStart)
			}
		}
	}
	begun := &N{}
	go func() {
		// holdwait users need a begin at some point
		time.Sleep(30 * time.Minute)
		shutdown.Begin()
		begun.Set(1)
	}()
	for _, id := range ids {
		id := id
		e.Go("task", func() {
			for _, o := range ops[id] {
				if o.A > 0 {
					time.Sleep(time.Duration(o.A) * time.Millisecond)
				}
				switch o.K {
				case "begin":
					begun.Set(1)
					shutdown.Begin()
				case "hold", "holdwait":
					i := holds.Add(hold{})
					var rel shutdown.ReleaseFn
					if o.K == "hold" {
						rel = shutdown.Hold()
					} else {
						rel = shutdown.HoldAndWait()
						select {
						case <-shutdown.Started():
						default:
							e.Fail("holdwait-early", "HoldAndWait returned before the shutdown started")
						}
					}
					holds.Put(i, hold{from: e.Seq()})
					e.Ev("t%d %s", id, o.K)
					if o.B > 0 {
						time.Sleep(time.Duration(o.B) * time.Millisecond)
					}
					h := holds.At(i)
					h.relStart = e.Seq()
					holds.Put(i, h)
					rel.Release()
					h.relEnd = e.Seq()
					holds.Put(i, h)
					e.Ev("t%d released", id)
				case "crowd":
					var rels []shutdown.ReleaseFn
					for i := int64(0); i < o.C; i++ {
						rels = append(rels, shutdown.Hold())
					}
					var relStart atomic.Int64
					asked := e.Seq()
					ch := shutdown.Done()
					e.Go("crowd-watch", func() {
						if recvTimeout(ch, 2*time.Hour) {
							now := e.Seq()
							if at := relStart.Load(); at == 0 || at > now {
								e.Fail("early-completion", "Done (asked at #%d) reported complete at #%d while one of %d holds of a task was active (its release began at #%d)", asked, now, o.C, at)
							}
							check("Done", asked, now)
						}
					})
					for i, rel := range rels {
						if i == len(rels)-1 {
							time.Sleep(time.Duration(o.B) * time.Second)
							relStart.Store(e.Seq())
						}
						rel.Release()
					}
				case "done":
					asked := e.Seq()
					ch := shutdown.Done()
					if recvTimeout(ch, 2*time.Hour) {
						now := e.Seq()
						e.Ev("t%d done observed", id)
						check("Done", asked, now)
					} else {
						e.Fail("no-completion", "Done not closed two hours after all holds could have been released\n%s", foregoStacks())
					}
				case "waitsig":
					asked := e.Seq()
					c, cf := ctx.WithCancel(context.Background())
					shutdown.WaitForSignal(c, func(err error) { e.Fail("cancel", "WaitForSignal cancelled the context without a signal") })
					now := e.Seq()
					cf(nil)
					e.Ev("t%d waitforsignal returned", id)
					check("WaitForSignal", asked, now)
				}
			}
		})
	}
	if k := p.Knob("blocked"); k != 0 {
		relStart := &N{}
		e.Go("blocked", func() {
			rel := shutdown.HoldAndWait()
			time.Sleep(time.Duration(k) * time.Millisecond)
			relStart.Set(e.Seq())
			rel.Release()
		})
		e.Go("asks", func() {
			time.Sleep(6 * time.Minute) // by now the hold is taken, if it has not been released already
			if recvTimeout(shutdown.Done(), 2*time.Hour) {
				now := e.Seq()
				if at := relStart.Get(); at == 0 || at > now {
					e.Fail("early-completion", "Done reported complete at #%d while somebody has been in HoldAndWait for minutes (release began at #%d)", now, at)
				}
			}
		})
	}
	e.Join(5*time.Hour, "liveness", "shutdown users")
	// Everything is released: completion must be reported, and promptly so.
	t0 := time.Now()
	if !recvTimeout(shutdown.Done(), 10*time.Minute) {
		e.Fail("no-completion", "no hold is active, yet Done is not reported")
	}
	if d := time.Since(t0); d > e.Slack() {
		e.Fail("late-completion", "no hold is active, yet Done took %s", d)
	}
	// A hold taken now must be respected by whoever asks afterwards.
	rel := shutdown.Hold()
	ch := shutdown.Done()
	if recvTimeout(ch, 30*time.Second) {
		e.Fail("early-completion", "Done reported complete while the only hold was active")
	}
	rel.Release()
	if !recvTimeout(ch, 10*time.Minute) {
		e.Fail("no-completion", "a Done channel asked for under a hold was not closed after its release")
	}
}

func isClosed(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

func runC02(e *Env, p *Plan) {
	ids, ops := p.ByTask()
	firstBegin, firstBeginAt := &N{}, &N{} // before calling Begin for the first time
	beginReturned := &N{}
	mono := func() int64 { return int64(time.Since(simT0)) }
	begin := func() {
		if firstBegin.Get() == 0 {
			firstBeginAt.Set(mono() + 1)
			firstBegin.Set(1)
		}
		shutdown.Begin()
		if !isClosed(shutdown.Started()) {
			e.Fail("begin-not-broadcast", "Begin returned but Started is not closed")
		}
		if beginReturned.Get() == 0 {
			beginReturned.Set(mono() + 1)
		}
	}
	sawStarted := func(what string) {
		if firstBegin.Get() == 0 {
			e.Fail("started-early", "%s reported a started shutdown before any Begin", what)
		}
	}
	saw5 := func() {
		sawStarted("Started5Sec")
		if el := mono() + 1 - firstBeginAt.Get(); el < int64(5*time.Second) {
			e.Fail("5sec-early", "Started5Sec closed %s after the first Begin", time.Duration(el))
		}
		// (somebody may be slow in between)
		if e.strat.JumpP == 0 && !isClosed(shutdown.Started()) {
			e.Fail("5sec-before-started", "Started5Sec is closed, Started is not")
		}
	}
	for _, id := range ids {
		id := id
		e.Go("task", func() {
			for _, o := range ops[id] {
				if o.A > 0 {
					time.Sleep(time.Duration(o.A) * time.Millisecond)
				}
				switch o.K {
				case "begin":
					begin()
					e.Ev("t%d begin", id)
				case "poll":
					st := isClosed(shutdown.Started())
					s5 := isClosed(shutdown.Started5Sec())
					if st {
						sawStarted("Started")
					} else if beginReturned.Get() != 0 {
						// began strictly before this poll?
						if isClosed(shutdown.Started()) == false {
							e.Fail("begin-not-broadcast", "Begin has returned, Started is still open")
						}
					}
					if s5 {
						saw5()
					}
					e.Ev("t%d poll %v %v", id, st, s5)
				case "wait":
					if recvTimeout(shutdown.Started(), 2*time.Minute) {
						sawStarted("Started")
						e.Ev("t%d started", id)
					}
				case "wait5":
					if recvTimeout(shutdown.Started5Sec(), 2*time.Minute) {
						saw5()
						e.Ev("t%d started5", id)
					}
				case "wall":
					e.WallJump(time.Duration(o.B) * time.Millisecond)
				case "holdwait":
					e.Go("holdwait", func() {
						rel := shutdown.HoldAndWait()
						sawStarted("HoldAndWait")
						if isClosed(shutdown.Done()) {
							e.Fail("hold-lost", "Done is reported while HoldAndWait is held")
						}
						rel.Release()
						e.Ev("t%d holdwait", id)
					})
				case "holdctx":
					// Done must not depend on Begin
					rel := shutdown.Hold()
					if isClosed(shutdown.Done()) {
						e.Fail("hold-lost", "Done is reported while a hold is active")
					}
					rel.Release()
				}
			}
		})
	}
	seen, seen5 := &N{}, &N{}
	e.Go("watch", func() {
		<-shutdown.Started()
		seen.Set(mono())
		<-shutdown.Started5Sec()
		seen5.Set(mono())
	})
	time.Sleep(10 * time.Minute)
	if firstBegin.Get() == 0 {
		if isClosed(shutdown.Started()) || isClosed(shutdown.Started5Sec()) {
			e.Fail("started-early", "started without Begin")
		}
	}
	begin()
	begin()
	e.Join(time.Hour, "liveness", "users of Started/Started5Sec/HoldAndWait")
	if !recvTimeout(shutdown.Started5Sec(), time.Hour) {
		e.Fail("5sec-never", "Started5Sec not closed one hour after Begin")
	}
	saw5()
	// Started is sticky and identical for late comers.
	if !isClosed(shutdown.Started()) {
		e.Fail("not-sticky", "Started re-opened")
	}
	if d := time.Duration(seen5.Get() - seen.Get()); d > 5*time.Second+e.Slack() {
		e.Fail("5sec-late", "Started5Sec closed only %s after Started", d)
	}
	if d := time.Duration(seen.Get() - beginReturned.Get()); d > e.Slack() {
		e.Fail("started-late", "Started was noticed only %s after Begin", d)
	}
}

var simT0 = time.Now()

func runC03(e *Env, p *Plan) {
	sigs := []syscall.Signal{syscall.SIGINT, syscall.SIGTERM, syscall.SIGQUIT}
	root, cancel := ctx.WithCancel(context.Background())
	sent := &N{}       // signals handed to the process
	cancels := &N{}    // root cancellations
	outside := &N{}    // the root context was cancelled, but not by a signal
	activeFrom := &N{} // number of holds whose release has not begun
	anyBegin := &N{}
	returned := &N{}
	e.exitFn = func(code int) {
		if sent.Get() < 3 {
			e.Fail("exit-early", "os.Exit(%d) after %d signals", code, sent.Get())
		}
		if code != -1 {
			e.Fail("exit-code", "os.Exit(%d) instead of os.Exit(-1)", code)
		}
		if cancels.Get() == 0 && outside.Get() == 0 {
			e.Fail("exit-before-cancel", "os.Exit on a third signal, but the root context was never cancelled")
		}
		if returned.Get() != 0 {
			e.Fail("exit-after-return", "os.Exit after WaitForSignal returned")
		}
		e.Probe("exit")
		e.finish("ok", "", "")
	}
	// A keeper hold lets WaitForSignal start waiting before services run down.
	ready := make(chan struct{})
	ids, ops := p.ByTask()
	keeper := shutdown.Hold()
	activeFrom.Add(1)
	holdsUp := make(chan struct{}, 16)
	nsvc := 0
	for _, id := range ids {
		id := id
		for _, o := range ops[id] {
			o := o
			switch o.K {
			case "svc":
				nsvc++
				go func() {
					rel := shutdown.Hold()
					activeFrom.Add(1)
					holdsUp <- struct{}{}
					switch o.B {
					case 1:
						<-shutdown.Started()
						if anyBegin.Get() == 0 && sent.Get() < 1 {
							e.Fail("begin-early", "shutdown started with no signal and no Begin")
						}
					case 2:
						<-root.Done()
						if cancels.Get() < 1 && outside.Get() == 0 {
							e.Fail("cancel-early", "root context cancelled with %d signals", sent.Get())
						}
					case 3:
						select {}
					}
					time.Sleep(time.Duration(o.A) * time.Millisecond)
					activeFrom.Add(-1)
					rel.Release()
				}()
			}
		}
	}
	for i := 0; i < nsvc; i++ {
		<-holdsUp
	}
	waitRet := make(chan struct{})
	e.Go("main", func() {
		close(ready)
		shutdown.WaitForSignal(root, func(err error) {
			if err == nil {
				e.Fail("cancel-nil", "root context cancelled without a cause")
			}
			if sent.Get() < 2 {
				e.Fail("cancel-early", "root context cancelled after %d signals", sent.Get())
			}
			if cancels.Add(1) > 1 {
				e.Fail("cancel-twice", "root context cancelled twice")
			}
			e.Ev("cancel")
			cancel(err)
		})
		returned.Set(1)
		e.Ev("returned")
		if n := activeFrom.Get(); n > 0 {
			e.Fail("early-return", "WaitForSignal returned while %d holds were active", n)
		}
		close(waitRet)
	})
	<-ready
	// A signal before the process registered its handlers kills the process:
	// wait until it did.
	for i := 0; ; i++ {
		if signal.SimNotified() {
			break
		}
		if i > 1000 {
			e.Fail("no-handler", "WaitForSignal does not listen to signals")
		}
		time.Sleep(time.Millisecond)
	}
	nsig := 0
	for _, id := range ids {
		for _, o := range ops[id] {
			o := o
			switch o.K {
			case "sig":
				nsig++
			case "cancel":
				e.Go("cancel", func() {
					time.Sleep(time.Duration(o.A) * time.Millisecond)
					outside.Set(1)
					e.Fault("root_context_cancelled")
					cancel(errors.New("outside"))
				})
			case "begin":
				e.Go("begin", func() {
					time.Sleep(time.Duration(o.A) * time.Millisecond)
					anyBegin.Set(1)
					shutdown.Begin()
				})
			}
		}
	}
	e.Go("signals", func() {
		k := 0
		for _, o := range ops[0] {
			if o.K != "sig" {
				continue
			}
			time.Sleep(time.Duration(o.A) * time.Millisecond)
			sent.Add(1)
			k++
			e.Ev("signal %d", k)
			e.Fault("signal")
			if !signal.SimDeliver(sigs[int(o.B)%3]) && returned.Get() == 0 {
				e.Fail("no-handler", "%v has the default action (it kills the process)", sigs[int(o.B)%3])
			}
			if o.C == 1 {
				continue
			}
			// the reaction to this signal must come (bounded), unless the wait is already over
			switch k {
			case 1:
				if !recvTimeout(shutdown.Started(), e.Slack()) && returned.Get() == 0 {
					e.Fail("signal-ignored", "first signal did not start the shutdown")
				}
			case 2:
				t := time.Now()
				for cancels.Get() == 0 && outside.Get() == 0 && returned.Get() == 0 {
					if time.Since(t) > e.Slack() {
						e.Fail("signal-ignored", "second signal did not cancel the root context")
					}
					time.Sleep(time.Second)
				}
			case 3:
				t := time.Now()
				for returned.Get() == 0 {
					if time.Since(t) > e.Slack() {
						e.Fail("signal-ignored", "third signal did not exit the process")
					}
					time.Sleep(time.Second)
				}
			}
		}
	})
	time.Sleep(30 * time.Minute)
	if returned.Get() != 0 {
		e.Fail("early-return", "WaitForSignal returned while the keeper hold was active")
	}
	// what the signals so far must have caused
	if sent.Get() >= 1 && !isClosed(shutdown.Started()) {
		e.Fail("signal-ignored", "signals were sent, shutdown not started")
	}
	if sent.Get() >= 2 && cancels.Get() == 0 && outside.Get() == 0 {
		e.Fail("signal-ignored", "%d signals were sent, root context not cancelled", sent.Get())
	}
	if sent.Get() >= 3 {
		e.Fail("signal-ignored", "%d signals were sent, the process did not exit", sent.Get())
	}
	if sent.Get() == 1 && cancels.Get() != 0 {
		e.Fail("cancel-early", "cancelled by a single signal")
	}
	if sent.Get() == 0 && anyBegin.Get() == 0 && isClosed(shutdown.Started()) {
		e.Fail("begin-early", "started with no signal")
	}
	activeFrom.Add(-1)
	keeper.Release()
	time.Sleep(30 * time.Minute)
	if activeFrom.Get() == 0 {
		if !recvTimeout(waitRet, 30*time.Minute) {
			e.Fail("no-return", "all holds are released, WaitForSignal does not return\n%s", foregoStacks())
		}
		e.Probe("returned")
	} else if returned.Get() != 0 {
		e.Fail("early-return", "WaitForSignal returned with %d active holds", activeFrom.Get())
	}
}
