package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"runtime"
	"strings"
	"time"

	"github.com/Aize-Public/forego/ctx"
	fhttp "github.com/Aize-Public/forego/http"
	"github.com/Aize-Public/forego/shutdown"
)

func init() {
	register(&Workload{ID: "C04", Gen: genC04, Run: runC04})
}

// netKnobs draws the network's behaviour; each fault kind is off in about half
// of the runs.
func netKnobs(r *Rng, k map[string]int64, faults bool) {
	k["seg"] = pick(r, int64(0), 0, 5, 30)
	k["short"] = pick(r, int64(0), 0, 5, 30)
	k["delay"] = pick(r, int64(0), 0, 5, 30)
	k["maxdelay"] = pick(r, int64(1), 20, 400, 5000)
	k["window"] = pick(r, int64(64<<10), 64<<10, 4096, 600)
	k["emfile"] = pick(r, int64(0), 0, 0, 5)
	if faults {
		k["reset"] = pick(r, int64(0), 0, 1, 4)
		k["stall"] = pick(r, int64(0), 0, 1, 4)
		k["stallfor"] = pick(r, int64(100), 5000, 40000)
	}
}

func applyNet(e *Env, p *Plan) {
	c := &e.Net.Cfg
	pc := func(k string) int { return int(p.Knob(k) * 65536 / 100) }
	c.SegP, c.ShortReadP, c.DelayP = pc("seg"), pc("short"), pc("delay")
	c.MaxDelay = time.Duration(p.Knob("maxdelay")) * time.Millisecond
	c.ResetP, c.StallP = pc("reset"), pc("stall")
	c.StallFor = time.Duration(p.Knob("stallfor")) * time.Millisecond
	c.AcceptErrP = pc("emfile")
	if w := p.Knob("window"); w > 0 {
		c.Window = int(w)
	}
}

// calm ends all network faults.
//
//go:norace
func calm(e *Env) {
	c := &e.Net.Cfg
	c.SegP, c.ShortReadP, c.DelayP, c.ResetP, c.StallP, c.AcceptErrP, c.RefuseP = 0, 0, 0, 0, 0, 0, 0
}

type httpFix struct {
	e      *Env
	s      *fhttp.Server
	c      ctx.C
	cancel ctx.CancelFunc
	port   int
}

// newHTTP starts a forego server on the simulated network.
func newHTTP(e *Env, setup func(c ctx.C, s *fhttp.Server)) *httpFix {
	f := &httpFix{e: e}
	f.c, f.cancel = ctx.Background()
	f.s = fhttp.NewServer(f.c)
	setup(f.c, f.s)
	addr, err := f.s.Listen(f.c, "127.0.0.1:0")
	if err != nil {
		e.Fail("listen", "Listen: %v", err)
	}
	f.port = addr.Port
	return f
}

// rawConn is a harness client: one connection, plain HTTP/1.1.
type rawConn struct {
	c  *simConn
	br *bufio.Reader
}

func dialRaw(e *Env, port int) (*rawConn, error) {
	c, err := e.Net.DialRaw(port)
	if err != nil {
		return nil, err
	}
	return &rawConn{c, bufio.NewReader(c)}, nil
}

func reqBytes(method, path, hdr string, body []byte) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: sim\r\n%s", method, path, hdr)
	if body != nil {
		fmt.Fprintf(&b, "Content-Length: %d\r\n", len(body))
	}
	b.WriteString("\r\n")
	b.Write(body)
	return b.Bytes()
}

// response reads one response; body is what was read even when err is set.
func (r *rawConn) response(method string) (*http.Response, []byte, error) {
	res, err := http.ReadResponse(r.br, &http.Request{Method: method})
	if err != nil {
		return nil, nil, err
	}
	body, err := io.ReadAll(res.Body)
	return res, body, err
}

func (r *rawConn) do(method, path, hdr string, body []byte) (*http.Response, []byte, error) {
	if _, err := r.c.Write(reqBytes(method, path, hdr, body)); err != nil {
		return nil, nil, err
	}
	return r.response(method)
}

func ms(v int64) time.Duration { return time.Duration(v) * time.Millisecond }

// pattern is a body that is wrong wherever it is cut, shifted or mixed.
func pattern(id int, n int) []byte {
	b := make([]byte, 0, n+16)
	for i := 0; len(b) < n; i++ {
		b = append(b, fmt.Sprintf("<%d:%d>", id, i)...)
	}
	return b[:n]
}

// --- C04: graceful shutdown -----------------------------------------------------

func genC04(r *Rng) *Plan {
	span := pick(r, int64(50), 500, 8000)
	p := &Plan{Knobs: map[string]int64{
		"begin": r.I(span), "late": pick(r, int64(-1), -1, 0, 1, 50), "servers": int64(1 + r.N(2)),
		"hang": int64(r.N(6) / 5), "cancel": pick(r, int64(-1), -1, -1, -1, r.I(2*span)),
		"twin": int64(r.N(3) / 2), "used": int64(r.N(6) / 5),
	}}
	netKnobs(r, p.Knobs, false)
	if p.Knobs["delay"] > 0 && p.Knobs["maxdelay"] > 400 {
		p.Knobs["maxdelay"] = 400
	}
	for t := 1; t <= 1+r.N(4); t++ {
		for i, n := 0, 1+r.N(3); i < n; i++ {
			p.Ops = append(p.Ops, Op{T: t, K: pick(r, "req", "req", "req", "req", "idle", "new", "api", "call"), A: r.I(span), B: pick(r, int64(0), 1, r.I(span), 2*span), C: pick(r, int64(0), 10, 5000, 70000)})
		}
	}
	return p
}

type c04req struct {
	id       int
	server   int
	t0       N // handler started
	t1       N // handler returned
	got      N // client has a complete, correct response
	hung     N
	started  N
	returned N
}

func runC04(e *Env, p *Plan) {
	applyNet(e, p)
	const maxReq = 64
	reqs := NewL[*c04req](maxReq)
	for i := 0; i < maxReq; i++ {
		reqs.Add(&c04req{id: i})
	}
	hang := make(chan struct{})
	var beginSeq N
	var beginAt time.Time
	handler := func(w http.ResponseWriter, r *http.Request) {
		var id, dur, size int
		if _, err := fmt.Sscanf(r.URL.RawQuery, "%d-%d-%d", &id, &dur, &size); err != nil {
			e.Harness("query %q", r.URL.RawQuery)
		}
		q := reqs.At(id)
		if q.started.Add(1) != 1 {
			e.Fail("twice", "request %d was handled twice", id)
		}
		q.t0.Set(e.Seq())
		body := pattern(id, size)
		if len(body) > 0 { // first half now, the rest in the end
			w.Header().Set("Content-Length", fmt.Sprint(size))
			_, _ = w.Write(body[:size/2])
		}
		if p.Knob("hang") == 1 && id == 0 {
			q.hung.Set(1)
			e.Probe("hung_handler")
			<-hang
		}
		time.Sleep(ms(int64(dur)))
		_, _ = w.Write(body[size/2:])
		q.t1.Set(e.Seq())
		q.returned.Set(1)
	}
	var fix []*httpFix
	for i := int64(0); i < max(1, p.Knob("servers")); i++ {
		fix = append(fix, newHTTP(e, func(c ctx.C, s *fhttp.Server) {
			s.HandleFunc("/work", handler)
			s.HandleRequest("/api", func(c ctx.C, in []byte, r *http.Request) ([]byte, error) {
				rec := &bufWriter{h: http.Header{}}
				handler(rec, r)
				return rec.b.Bytes(), nil
			})
			fhttp.CallHandler{Path: "/call", ReadTimeout: time.Hour, Handler: func(c ctx.C, call *fhttp.Call) error {
				rec := &bufWriter{h: http.Header{}}
				handler(rec, &http.Request{URL: &url.URL{RawQuery: pathID(c)}})
				call.Write(rec.b.Bytes())
				return nil
			}}.Register(s)
		}))
	}
	var twins []int // more ports of the same servers
	if p.Knob("twin") == 1 {
		for _, f := range fix {
			addr, err := f.s.Listen(f.c, "127.0.0.1:0")
			if err != nil {
				e.Fail("listen", "a second Listen: %v", err)
			}
			twins = append(twins, addr.Port)
		}
		e.Probe("two_ports")
	}
	if p.Knob("used") == 1 { // a Listen which fails
		if addr, err := fix[0].s.Listen(fix[0].c, fmt.Sprintf("127.0.0.1:%d", fix[0].port)); err == nil {
			e.Fail("listen", "listening to a port in use gives %v", addr)
		}
		e.Fault("port_in_use")
	}
	stop := make(chan struct{}) // ends idle clients
	var cancelled N
	ids, byTask := p.ByTask()
	next := 0
	for _, t := range ids {
		t, ops := t, byTask[t]
		first := next
		next += len(ops)
		if next > maxReq {
			break
		}
		port := fix[t%len(fix)].port
		if t%2 == 0 && twins != nil {
			port = twins[t%len(fix)]
		}
		e.Go(fmt.Sprintf("client%d", t), func() {
			var rc *rawConn
			for i, o := range ops {
				id := first + i
				time.Sleep(ms(o.A))
				if rc == nil {
					var err error
					if rc, err = dialRaw(e, port); err != nil {
						if beginSeq.Get() == 0 {
							e.Fail("refused", "connection refused before the shutdown: %v", err)
						}
						return
					}
				}
				if o.K == "new" || o.K == "idle" {
					// a connection that never, or no longer, asks for anything
					e.Probe("idle_conn")
					one := make([]byte, 1)
					idle := rc
					rc = nil
					e.Go("idle", func() { _, _ = idle.c.Read(one); idle.c.Close() })
					e.Go("idle-end", func() { <-stop; idle.c.Close() })
					continue
				}
				path := "/work"
				if o.K == "api" || o.K == "call" {
					path = "/" + o.K
				}
				res, body, err := rc.do("POST", fmt.Sprintf("%s?%d-%d-%d", path, id, o.B, o.C), fmt.Sprintf("User-Agent: sim-%d-%d-%d\r\n", id, o.B, o.C), []byte("x"))
				q := reqs.At(id)
				if err != nil {
					e.Ev("request %d: %v", id, err)
					if q.t0.Get() != 0 && (beginSeq.Get() == 0 || q.t0.Get() < beginSeq.Get()) && q.hung.Get() == 0 {
						e.Fail("dropped", "request %d was being handled when the shutdown began, and got no complete response: %v (%d bytes)", id, err, len(body))
					}
					if beginSeq.Get() == 0 {
						e.Fail("dropped", "request %d got no response although nothing was shut down: %v", id, err)
					}
					rc.c.Close()
					return
				}
				if o.K == "call" && res.StatusCode == 400 && q.started.Get() == 0 && cancelled.Get() != 0 {
					rc.c.Close() // not read any more
					return
				}
				want := 200
				if o.C == 0 && path != "/work" {
					want = 204
				}
				if res.StatusCode != want || !bytes.Equal(body, pattern(id, int(o.C))) {
					e.Fail("wrong", "request %d: status %d, %d bytes; expected %d, %d", id, res.StatusCode, len(body), want, o.C)
				}
				q.got.Set(1)
				e.Probe("answered")
				if beginSeq.Get() != 0 {
					e.Probe("answered_after_begin")
				}
				if res.Close {
					rc.c.Close()
					rc = nil
				}
			}
			if rc != nil {
				rc.c.Close()
			}
		})
	}
	// late listener: a server starting around the time the shutdown begins
	if late := p.Knob("late"); late >= 0 {
		e.Go("late", func() {
			time.Sleep(ms(p.Knob("begin")))
			for i := int64(0); i < late; i++ {
				runtime.Gosched()
			}
			s := fhttp.NewServer(fix[0].c)
			done := make(chan struct{})
			go func() {
				defer close(done)
				_, _ = s.Listen(fix[0].c, "127.0.0.1:0")
			}()
			if !recvTimeout(done, 5*time.Second+e.Slack()) {
				e.Fail("listen-stuck", "Listen, called while the process shuts down, does not return\n%s", foregoStacks())
			}
			e.Probe("late_listen")
		})
	}
	if at := p.Knob("cancel"); at >= 0 {
		e.Go("cancel", func() {
			time.Sleep(ms(at))
			cancelled.Set(1)
			e.Fault("cancel_root")
			fix[0].cancel(nil)
		})
	}
	time.Sleep(ms(p.Knob("begin")))
	if isClosed(shutdown.Started()) {
		e.Fail("started", "shutdown started on its own")
	}
	beginAt = time.Now()
	beginSeq.Set(e.Seq())
	shutdown.Begin()
	if !recvTimeout(shutdown.Done(), 10*time.Minute) {
		e.Fail("stuck", "shutdown not done 10 minutes after its begin\n%s", foregoStacks())
	}
	doneAt := time.Now()
	if d := doneAt.Sub(beginAt); d > 35*time.Second+e.Slack() {
		e.Fail("late", "the shutdown took %s", d)
	}
	doneSeq := e.Seq()
	// Done is when the process exits: nothing may be unfinished, unless the 30
	// seconds granted are over or the root context was cancelled.
	graceOver := doneAt.Sub(beginAt) >= 30*time.Second || cancelled.Get() != 0
	for _, q := range reqs.All() {
		if q.t0.Get() == 0 {
			continue
		}
		if q.t0.Get() < beginSeq.Get() && (q.t1.Get() == 0 || q.t1.Get() > doneSeq) {
			e.Probe("inflight_at_done")
			if !graceOver {
				e.Fail("inflight", "the shutdown is done %s after it began, while request %d, received before, is still being handled", doneAt.Sub(beginAt), q.id)
			}
		}
	}
	for _, port := range twins {
		if e.Net.Listening(port) && cancelled.Get() == 0 {
			e.Fail("listening", "the shutdown is done and port %d still accepts connections", port)
		}
	}
	for _, f := range fix {
		if e.Net.Listening(f.port) && cancelled.Get() == 0 {
			e.Fail("listening", "the shutdown is done and port %d still accepts connections", f.port)
		}
	}
	// the kernel closes what the process had open
	if !graceOver {
		e.Probe("exit_closes")
		for _, c := range e.Net.Open(false) {
			c.Close()
		}
	}
	close(hang)
	close(stop)
	e.Join(30*time.Minute, "stuck", "clients after the end of the server")
	if !graceOver {
		for _, q := range reqs.All() {
			if q.t0.Get() != 0 && q.t0.Get() < beginSeq.Get() && q.got.Get() == 0 && q.hung.Get() == 0 {
				e.Fail("dropped", "request %d was being handled when the shutdown began, and got no response", q.id)
			}
		}
	}
	e.Ev("done")
}

type bufWriter struct {
	h http.Header
	b bytes.Buffer
}

func (w *bufWriter) Header() http.Header         { return w.h }
func (w *bufWriter) WriteHeader(int)             {}
func (w *bufWriter) Write(b []byte) (int, error) { return w.b.Write(b) }

var _ = strings.Contains
