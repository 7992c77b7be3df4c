package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"strconv"
	"strings"
	"time"

	"github.com/anishathalye/porcupine"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	fhttp "github.com/Aize-Public/forego/http"
)

func init() {
	register(&Workload{ID: "C29", Gen: genC29, Run: runC29})
	register(&Workload{ID: "C31", Gen: genC31, Run: runC31})
}

// --- C29: readiness is what was set, liveness and description are always there ---------

func genC29(r *Rng) *Plan {
	p := &Plan{Knobs: map[string]int64{"servers": int64(1 + r.N(2)), "late": r.I(5), "latekind": r.I(8)}}
	netKnobs(r, p.Knobs, true)
	p.Knobs["maxdelay"] = min(p.Knobs["maxdelay"], 400)
	span := pick(r, int64(0), 3, 200)
	for t := 1; t <= 2+r.N(4); t++ {
		for i, n := 0, 1+r.N(5); i < n; i++ {
			p.Ops = append(p.Ops, Op{T: t, K: pick(r, "set", "set", "ready", "ready", "ready", "head", "live", "openapi"),
				A: r.I(span + 1), B: pick(r, int64(200), 204, 204, 500, 503, 503, 429), C: int64(r.N(2))})
		}
	}
	return p
}

type c29late0 struct {
	R  api.Request `url:"/c29late0"`
	R2 api.Request `url:"/c29late0/two"`
	R3 api.Request `url:"/c29late0/three"`
	In string      `api:"in" json:"in"`
}

func (*c29late0) Do(c ctx.C) error { return nil }

type c29late1 struct {
	R   api.Request `url:"/c29late1"`
	R2  api.Request `url:"/c29late1/two"`
	R3  api.Request `url:"/c29late1/three"`
	Out string      `api:"out" json:"out"`
}

func (*c29late1) Do(c ctx.C) error { return nil }

func runC29(e *Env, p *Plan) {
	applyNet(e, p)
	quiet := p.Knob("reset") == 0 && p.Knob("stall") == 0
	var fix []*httpFix
	var hist []*Hist
	var lost N
	for i := int64(0); i < max(1, p.Knob("servers")); i++ {
		fix = append(fix, newHTTP(e, func(c ctx.C, s *fhttp.Server) {
			s.HandleFunc("/work", func(w http.ResponseWriter, r *http.Request) {})
			s.HandleRequest("/request", func(c ctx.C, in []byte, r *http.Request) ([]byte, error) { return nil, nil })
		}))
		hist = append(hist, e.NewHist(200))
	}
	ids, byTask := p.ByTask()
	for _, t := range ids {
		t, ops := t, byTask[t]
		e.Go(fmt.Sprintf("client%d", t), func() {
			conn, last := map[int]*rawConn{}, map[int]time.Time{}
			for _, o := range ops {
				time.Sleep(ms(o.A))
				si := int(o.C) % len(fix)
				f, h := fix[si], hist[si]
				if o.K == "set" {
					h.Do(t, mapIn{Op: "store", Key: "ready", Val: int(o.B)}, func() any { f.s.SetReady(int(o.B)); return mapOut{} })
					continue
				}
				rc := conn[si]
				t0 := time.Now()
				if rc == nil {
					var err error
					if rc, err = dialRaw(e, f.port); err != nil {
						e.Fail("refused", "dial: %v", err)
					}
					conn[si] = rc
					last[si] = t0
				}
				since := last[si]
				method, path := "GET", "/"+o.K
				if o.K == "head" {
					method, path = "HEAD", "/ready"
				}
				if o.K == "openapi" {
					path = "/openapi.json"
				}
				call := e.Seq()
				_ = rc.c.SetReadDeadline(time.Now().Add(time.Hour))
				res, body, err := rc.do(method, path, "", nil)
				ret := e.Seq()
				if err != nil {
					// the server gives up on an idle or slow connection after 30 s
					if quiet && time.Since(since) < 25*time.Second {
						e.Fail("no-answer", "%s %s: %v after %s, although the connection had no trouble", method, path, err, time.Since(since))
					}
					rc.c.Close()
					delete(conn, si)
					lost.Set(1)
					continue
				}
				last[si] = time.Now()
				switch o.K {
				case "live":
					if res.StatusCode != 204 {
						e.Fail("live", "/live answers %d", res.StatusCode)
					}
				case "openapi":
					var doc struct {
						Paths map[string]any `json:"paths"`
					}
					if err := json.Unmarshal(body, &doc); err != nil || res.StatusCode != 200 {
						e.Fail("openapi", "/openapi.json answers %d: %v: %.300q", res.StatusCode, err, body)
					}
					for _, w := range []string{"/work", "/request"} {
						if _, ok := doc.Paths[w]; !ok {
							e.Fail("openapi", "/openapi.json does not have %s: %.300q", w, body)
						}
					}
				default:
					h.Add(t, mapIn{Op: "load", Key: "ready"}, mapOut{res.StatusCode, true}, call, ret)
					e.Probe("ready")
				}
			}
			for _, rc := range conn {
				rc.c.Close()
			}
		})
	}
	e.Join(24*time.Hour, "stuck", "clients")
	calm(e)
	// What is registered later is described, and by its own server alone. A path
	// is not registered while the description is being made: a request whose
	// answer was lost may still be at it, as far as anybody knows.
	for i, f := range fix {
		if lost.Get() != 0 {
			break
		}
		want := []string{"/work", "/request"}
		for round := int64(0); round < p.Knob("late"); round++ {
			path := fmt.Sprintf("/late%d-%d", i, round)
			switch (round + p.Knob("latekind")) % 4 {
			case 0:
				f.s.HandleFunc(path, func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(202) })
			case 1:
				f.s.Handle(path, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(202) }))
			case 2:
				f.s.HandleRequest(path, func(c ctx.C, in []byte, r *http.Request) ([]byte, error) { return nil, nil })
			case 3:
				path = fmt.Sprintf("/c29late%d", i)
				if _, err := f.s.RegisterAPI(f.c, []fhttp.Doable{&c29late0{}, &c29late1{}}[i%2]); err != nil {
					e.Fail("register", "RegisterAPI: %v", err)
				}
				want = append(want, path+"/two", path+"/three")
			}
			want = append(want, path)
			if round+1 < p.Knob("late") && p.Knob("latekind")&4 != 0 {
				continue
			}
			e.Probe("late")
			for k, f := range fix {
				rc, err := dialRaw(e, f.port)
				if err != nil {
					e.Fail("refused", "dial: %v", err)
				}
				res, body, err := rc.do("GET", "/openapi.json", "", nil)
				if err != nil {
					e.Fail("no-answer", "GET /openapi.json: %v", err)
				}
				rc.c.Close()
				var doc struct {
					Paths map[string]map[string]any `json:"paths"`
				}
				if err := json.Unmarshal(body, &doc); err != nil || res.StatusCode != 200 {
					e.Fail("openapi", "/openapi.json answers %d: %v: %.300q", res.StatusCode, err, body)
				}
				if k != i {
					for p := range doc.Paths {
						if strings.HasPrefix(p, fmt.Sprintf("/late%d-", i)) || strings.HasPrefix(p, fmt.Sprintf("/c29late%d", i)) {
							e.Fail("openapi", "/openapi.json of server %d has %s, a path of server %d", k, p, i)
						}
					}
					continue
				}
				for _, w := range want {
					if _, ok := doc.Paths[w]; !ok {
						e.Fail("openapi", "/openapi.json does not have %s, registered after it was first asked for: %.300q", w, body)
					}
				}
			}
		}
	}
	m := mapModel()
	m.Init = func() any { return mapOut{204, true} } // ready from the start
	for i, h := range hist {
		m.Partition = func(h []porcupine.Operation) [][]porcupine.Operation { return [][]porcupine.Operation{h} }
		h.Check("ready", fmt.Sprintf("readiness of server %d", i), m)
		noServerLeft(e, fix[i])
	}
}

// --- C31: each request is counted once, with the status its client got -----------------

var c31codes = []int{0, 200, 201, 204, 302, 404, 409, 500, 503}

// c31took is how long a handler takes, sometimes what only a long poll does.
func c31took(r *Rng) int64 {
	if r.P(1, 32) {
		return pick(r, int64(29_900), 65_432, 154_321, 543_210)
	}
	return pick(r, int64(0), 0, 0, 100, 3000)
}

func genC31(r *Rng) *Plan {
	p := &Plan{Knobs: map[string]int64{"scrape": int64(r.N(3)), "bare": pick(r, int64(0), 0, 1)}}
	netKnobs(r, p.Knobs, true)
	p.Knobs["maxdelay"] = min(p.Knobs["maxdelay"], 400)
	for t := 1; t <= 1+r.N(6); t++ {
		for i, n := 0, 1+r.N(5); i < n; i++ {
			p.Ops = append(p.Ops, Op{T: t, K: pick(r, "exact", "exact", "sub", "sub", "request", "request", "call", "live", "none", "mux"),
				A: r.I(int64(len(c31codes))), B: c31took(r), C: r.I(1 << 13)})
		}
	}
	if r.P(1, 24) { // many
		for i := 20 + r.N(60); i >= 0; i-- {
			p.Ops = append(p.Ops, Op{T: 1 + i%4, K: pick(r, "exact", "sub", "request", "call", "none", "mux"), A: r.I(int64(len(c31codes))), C: r.I(1 << 13)})
		}
	}
	return p
}

// c31empty: the handler begins with an empty Write.
func c31empty(code int, c int64) bool { return c&(64|128|8) == 64|128 }

const noneOdd = "/none/\x01\t\"\\é\nz"

// c31none has the unregistered paths requests go to, as sent and as they read.
var c31long = "/none/" + strings.Repeat("0123456789", 20)
var c31none = [][2]string{{"/none/0", "/none/0"}, {"/none/0/", "/none/0/"}, {"/none/%01%09%22%5c%c3%a9%0Az", noneOdd}, {"/none/%ff", "/none/\xff"}, {"/none/", "/none/"},
	{"/none/AbC", "/none/AbC"}, {"/none/abc", "/none/abc"}, {c31long + "1", c31long + "1"}, {c31long + "2", c31long + "2"}}

type c31key struct {
	method, path string
	code         int
}

// requestMetric parses the http_request metric into counts and sums.
func requestMetric(e *Env, text string) (count map[c31key]int64, sum map[c31key]float64) {
	_, _, samples, err := parseProm(text)
	if err != nil {
		e.Fail("format", "%v in\n%s", err, text)
	}
	count, sum = map[c31key]int64{}, map[c31key]float64{}
	for _, s := range samples {
		if s.name != "http_request_count" && s.name != "http_request_sum" {
			continue
		}
		var k c31key
		k.method, k.path = s.lab["method"], s.lab["path"]
		k.code, _ = strconv.Atoi(s.lab["code"])
		switch k.path {
		case "/none/0", "/none/0/", "/none/", noneOdd, "/none/AbC", "/none/abc", c31long + "1", c31long + "2":
		default: // the label of a path which is not UTF-8 is anything that is
			if strings.HasPrefix(k.path, "/none/") {
				k.path = "/none/bad"
			}
		}
		if s.name == "http_request_count" {
			count[k] = int64(s.val)
		} else {
			sum[k] = s.val
		}
	}
	return
}

type c31req struct {
	key    c31key
	code   N // 0: no answer
	took   N // by the handler, at least
	t0, t1 N
	sent   N
}

func runC31(e *Env, p *Plan) {
	applyNet(e, p)
	quiet := p.Knob("reset") == 0 && p.Knob("stall") == 0
	behave := func(w http.ResponseWriter, r *http.Request, q *c31req, code int, c int64) {
		time.Sleep(time.Duration(q.took.Get()))
		if c&1 != 0 { // the headers leave before the body
			w.Header().Set("X-Sim", "1")
		}
		if c&6 == 6 && code != 0 {
			e.Probe("early_hints")
			w.Header().Set("Link", "</a>; rel=preload")
			w.WriteHeader(103)
		}
		if c31empty(code, c) {
			_, _ = w.Write(nil) // this sends the headers
		}
		if code != 0 {
			w.WriteHeader(code)
			if c&8 != 0 && code != 204 {
				_, _ = w.Write([]byte("body"))
			}
			if c&48 == 48 {
				e.Probe("double_header")
				w.WriteHeader(500) // too late: it has no effect
			}
		} else if c&8 != 0 {
			_, _ = w.Write([]byte("body"))
		}
	}
	reqs := NewL[*c31req](200)
	ops := NewL[Op](200)
	find := func(ua string) (*c31req, Op) {
		id, err := strconv.Atoi(strings.TrimPrefix(ua, "sim-"))
		if err != nil || id >= reqs.Len() {
			e.Harness("user agent %q", ua)
		}
		return reqs.At(id), ops.At(id)
	}
	handler := func(w http.ResponseWriter, r *http.Request) {
		q, o := find(r.UserAgent())
		behave(w, r, q, c31codes[o.A], o.C)
	}
	f := newHTTP(e, func(c ctx.C, s *fhttp.Server) {
		s.HandleFunc("/exact", handler)
		s.Handle("/sub/", http.HandlerFunc(handler))
		s.Mux().HandleFunc("/mux", handler)
		s.HandleRequest("/request", func(c ctx.C, in []byte, r *http.Request) ([]byte, error) {
			q, o := find(r.UserAgent())
			time.Sleep(time.Duration(q.took.Get()))
			switch code := c31codes[o.A]; {
			case code >= 400 && o.C&1 != 0:
				return nil, fhttp.NewErrorf(c, code, "refused")
			case code >= 400:
				return nil, fmt.Errorf("failed")
			case code == 200:
				return []byte(`{}`), nil
			}
			return nil, nil
		})
		fhttp.CallHandler{Path: "/call", Handler: func(c ctx.C, call *fhttp.Call) error {
			id, _ := strconv.Atoi(pathID(c))
			q, o := reqs.At(id), ops.At(id)
			time.Sleep(time.Duration(q.took.Get()))
			switch code := c31codes[o.A]; {
			case code >= 400:
				return fhttp.NewErrorf(c, code, "refused")
			case code == 200:
				call.Write([]byte("x"))
			}
			return nil
		}}.Register(s)
		s.SetupPrometheus(c, "/metrics")
	})
	// the handlers served by somebody else's server
	var bare *http.Server
	var bareLn net.Listener
	if p.Knob("bare") == 1 {
		bare = &http.Server{Handler: f.s.Mux(), ReadTimeout: 30 * time.Second}
		var err error
		if bareLn, err = net.Listen("tcp", "127.0.0.1:0"); err != nil {
			e.Harness("listen: %v", err)
		}
		go func() { _ = bare.Serve(bareLn) }()
	}
	expect := func(o Op) int {
		code := c31codes[o.A]
		switch o.K {
		case "exact", "sub", "mux":
			if code == 0 || c31empty(code, o.C) {
				return 200
			}
			return code
		case "request":
			switch {
			case code >= 400 && o.C&1 != 0, code == 200:
				return code
			case code >= 400:
				return 500
			}
			return 204
		case "call":
			if code >= 400 || code == 200 {
				return code
			}
			return 204
		case "live":
			return 204
		}
		return 404
	}
	ids, byTask := p.ByTask()
	for _, t := range ids {
		t, list := t, byTask[t]
		first := reqs.Len()
		if first+len(list) > 190 {
			break
		}
		port := f.port
		if bare != nil && t%2 == 0 {
			port = bareLn.Addr().(*net.TCPAddr).Port
			list = append([]Op(nil), list...)
			for i := range list {
				if k := list[i].K; k != "exact" && k != "sub" { // the others aren't counted there
					list[i].K = "exact"
				}
			}
		}
		for _, o := range list {
			path := "/" + o.K
			if o.K == "none" {
				path = c31none[int(o.A)%len(c31none)][1]
			}
			label := path
			if o.K == "sub" {
				label = "/sub/" // as registered
			}
			if label == "/none/\xff" {
				label = "/none/bad"
			}
			method := "POST"
			if o.K == "live" || o.C&256 != 0 {
				method = "GET"
			}
			switch o.K {
			case "exact", "sub", "none":
				if m := o.C >> 10; m >= 5 {
					method = []string{"HEAD", "PUT", "DELETE"}[m-5]
				}
			}
			q := &c31req{key: c31key{method, label, 0}}
			switch o.K {
			case "exact", "sub", "mux", "request", "call":
				q.took.Set(int64(ms(o.B)))
			}
			reqs.Add(q)
			ops.Add(o)
		}
		e.Go(fmt.Sprintf("client%d", t), func() {
			var rc *rawConn
			idleSince := time.Now()
			for i, o := range list {
				id := first + i
				q := reqs.At(id)
				if rc != nil && time.Since(idleSince) > 10*time.Second {
					rc.c.Close()
					rc = nil
				}
				if rc == nil {
					idleSince = time.Now()
					var err error
					if rc, err = dialRaw(e, port); err != nil {
						e.Fail("refused", "dial: %v", err)
					}
				}
				path := q.key.path
				if o.K == "none" {
					path = c31none[int(o.A)%len(c31none)][0]
				}
				if o.K == "sub" {
					path = fmt.Sprintf("/sub/%d", id)
				}
				if o.C&512 != 0 {
					path += "?q=1"
				}
				var body []byte
				if q.key.method == "POST" || q.key.method == "PUT" {
					body = bytes.Repeat([]byte("b"), int(o.C%7))
				}
				_ = rc.c.SetReadDeadline(time.Now().Add(time.Hour))
				q.t0.Set(int64(time.Since(simStart)))
				q.sent.Set(1)
				_, err := rc.c.Write(reqBytes(q.key.method, path, fmt.Sprintf("User-Agent: sim-%d\r\n", id), body))
				var res *http.Response
				for err == nil {
					res, _, err = rc.response(q.key.method)
					if err != nil || res.StatusCode >= 200 {
						break
					}
				}
				q.t1.Set(int64(time.Since(simStart)))
				if err != nil {
					if res == nil { // else the head has arrived
						if quiet && time.Since(idleSince) < 25*time.Second {
							e.Fail("no-answer", "request %d (%s %s): %v, although the connection had no trouble", id, q.key.method, path, err)
						}
					} else {
						q.code.Set(int64(res.StatusCode))
					}
					rc.c.Close()
					rc = nil
				} else {
					q.code.Set(int64(res.StatusCode))
					if res.Close {
						rc.c.Close()
						rc = nil
					}
				}
				idleSince = time.Now()
				if c := int(q.code.Get()); c != 0 && c != expect(o) && q.t1.Get()-q.t0.Get() < int64(20*time.Second) {
					e.Fail("status", "request %d (%s %s): status %d, its handler gave %d", id, q.key.method, path, c, expect(o))
				}
			}
			if rc != nil {
				rc.c.Close()
			}
		})
	}
	// counts seen while requests are in progress
	if p.Knob("scrape") > 0 {
		e.Go("scraper", func() {
			last := map[c31key]int64{}
			for i := 0; i < 4; i++ {
				time.Sleep(ms(p.Knob("scrape") * 300))
				rc, err := dialRaw(e, f.port)
				if err != nil {
					e.Fail("refused", "dial: %v", err)
				}
				_ = rc.c.SetReadDeadline(time.Now().Add(time.Hour))
				res, body, err := rc.do("GET", "/metrics", "User-Agent: scraper\r\n", nil)
				rc.c.Close()
				if err != nil || res.StatusCode != 200 {
					continue
				}
				e.Probe("scrape")
				count, _ := requestMetric(e, string(body))
				started := map[c31key]int64{}
				for i := 0; i < reqs.Len(); i++ {
					k := reqs.At(i).key
					started[k] += reqs.At(i).sent.Get()
				}
				seen := map[c31key]int64{}
				for k, n := range count {
					seen[c31key{k.method, k.path, 0}] += n
				}
				for k, n := range seen {
					if k.path != "/metrics" && n > started[k] {
						e.Fail("overcounted", "%s %s: the metric counts %d requests, %d were sent", k.method, k.path, n, started[k])
					}
				}
				for k, n := range last {
					if count[k] < n {
						e.Fail("regress", "%v: counted %d, then %d", k, n, count[k])
					}
				}
				last = count
			}
		})
	}
	e.Join(24*time.Hour, "stuck", "clients")
	calm(e)
	if bare != nil {
		time.Sleep(20 * time.Minute)
		_ = bare.Close()
	}
	noServerLeft(e, f)
	var sb strings.Builder
	if err := fhttp.Metrics.Request.Print("http_request", &sb); err != nil {
		e.Fail("scrape-error", "Print: %v", err)
	}
	count, sum := requestMetric(e, sb.String())
	sent := map[c31key]int64{}     // by method and path
	unknown := map[c31key]int64{}  // of those, not answered
	answered := map[c31key]int64{} // by code
	took := map[c31key]float64{}
	for i := 0; i < reqs.Len(); i++ {
		q := reqs.At(i)
		if q.sent.Get() == 0 {
			continue
		}
		sent[q.key]++
		if c := int(q.code.Get()); c != 0 {
			k := q.key
			k.code = c
			answered[k]++
			took[k] += time.Duration(q.took.Get()).Seconds()
		} else {
			unknown[q.key]++
		}
	}
	e.Ev("counted %d keys", len(answered))
	seen := map[c31key]int64{}
	for k, n := range count {
		if k.path == "/metrics" {
			continue
		}
		base := c31key{k.method, k.path, 0}
		seen[base] += n
		if sent[base] == 0 {
			e.Fail("alien", "%v: %d requests counted, none sent\n%s", k, n, sb.String())
		}
		if n > answered[k]+unknown[base] {
			e.Fail("overcounted", "%v: %d requests counted; %d were answered, and %d with this method and path got no answer\n%s", k, n, answered[k], unknown[base], sb.String())
		}
	}
	for k, n := range answered {
		if count[k] < n {
			e.Fail("undercounted", "%v: %d requests were answered, %d are counted\n%s", k, n, count[k], sb.String())
		}
		if sum[k] < took[k]-1e-6 {
			e.Fail("duration", "%v: %v seconds for %d requests that took %v", k, sum[k], n, took[k])
		}
	}
	for k, n := range seen {
		if n > sent[k] {
			e.Fail("overcounted", "%s %s: %d counted, %d sent\n%s", k.method, k.path, n, sent[k], sb.String())
		}
	}
}

var simStart = time.Now()
