package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"time"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	fhttp "github.com/Aize-Public/forego/http"
)

func init() {
	register(&Workload{ID: "C28", Gen: genC28, Run: runC28})
}

// --- C28: the HTTP client against a server that may do anything -----------------------------

var answers = []string{
	"cl", "cl", "chunked", "chunked", "untilclose", "nocontent", "status", "status", "gzip",
	"shortcl", "shortcl", "shortchunk", "noend", "noanswer", "halfhead", "garbage", "stall", "stallbody", "trickle", "continue", "redirect", "excess", "notjson", "resetbody",
}

func genC28(r *Rng) *Plan {
	p := &Plan{Knobs: map[string]int64{"refuse": pick(r, int64(0), 0, 0, 10)}}
	netKnobs(r, p.Knobs, r.P(1, 4))
	p.Knobs["maxdelay"] = min(p.Knobs["maxdelay"], 400)
	p.Knobs["emfile"] = 0
	defer func() { p.Knobs["keepctx"] = pick(r, int64(0), 1) }()
	for t := 1; t <= 1+r.N(4); t++ {
		for i, n := 0, 1+r.N(5); i < n; i++ {
			p.Ops = append(p.Ops, Op{T: t, K: pick(r, "get", "post", "api") + ":" + pick(r, answers...),
				A: pick(r, int64(0), 1, 700, 5000, 70000), B: pick(r, int64(0), 0, 1, 50, 900, 9000), C: r.I(1 << 12)})
		}
		if r.P(1, 24) { // large
			p.Knobs["window"], p.Knobs["seg"], p.Knobs["short"] = 64<<10, min(p.Knobs["seg"], 5), min(p.Knobs["short"], 5)
			p.Ops = append(p.Ops, Op{T: t, K: pick(r, "get", "post", "api") + ":" + pick(r, answers...), A: pick(r, int64(131072), 300000, 1200000), C: r.I(1 << 12)})
			p.oneHuge()
		}
	}
	if r.P(1, 24) { // many of one kind
		k := pick(r, "get", "post", "api") + ":" + pick(r, answers...)
		for i := 10 + r.N(30); i >= 0; i-- {
			p.Ops = append(p.Ops, Op{T: 1 + i%4, K: k, A: pick(r, int64(0), 1, 700), C: r.I(1 << 12)})
		}
	}
	return p
}

// cliOp is the client's side of an operation.
type cliOp struct {
	R    api.Request `url:"/x"`
	ID   int         `api:"in" json:"id"`
	Text string      `api:"in" json:"text"`
	Out  string      `api:"out" json:"out"`
	N    int         `api:"out" json:"n"`
	Both string      `api:"both" json:"both"`
}

func (o *cliOp) Do(c ctx.C) error { return nil }

var cliStatus = []int{400, 404, 409, 418, 429, 500, 503, 201, 206, 202, 599, 401}

func runC28(e *Env, p *Plan) {
	applyNet(e, p)
	e.Net.Cfg.RefuseP = int(p.Knob("refuse") * 65536 / 100)
	quiet := p.Knob("reset") == 0 && p.Knob("stall") == 0 && p.Knob("refuse") == 0
	ops := map[int]Op{}
	ids, byTask := p.ByTask()
	next := 1
	for _, t := range ids {
		for _, o := range byTask[t] {
			if !strings.Contains(o.K, ":") {
				return
			}
			ops[next] = o
			next++
		}
	}
	if next > 100 {
		return
	}
	arrived := NewL[*N](128)
	complete := NewL[*N](128)
	elsewhere := NewL[*N](128)
	var began, ended N
	for i := 0; i < 128; i++ {
		arrived.Add(&N{})
		complete.Add(&N{})
		elsewhere.Add(&N{})
	}
	bodyOf := func(id int, o Op, isAPI bool) []byte {
		if isAPI {
			j, _ := json.Marshal(map[string]any{"out": string(pattern(id, int(o.A))), "n": id, "both": fmt.Sprint("b", id), "ID": 5, "extra": nil})
			return j
		}
		return pattern(id, int(o.A))
	}
	reqBody := func(id int, o Op) []byte { return pattern(id+500, int(o.C)%3000) }
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		e.Harness("listen: %v", err)
	}
	port := ln.Addr().(*net.TCPAddr).Port
	quit := make(chan struct{})
	serve := func(c net.Conn) {
		defer c.Close()
		br := bufio.NewReader(c)
		for {
			req, err := http.ReadRequest(br)
			if err != nil {
				return
			}
			in, err := io.ReadAll(req.Body)
			id, aerr := strconv.Atoi(strings.TrimPrefix(req.URL.RawQuery, "id="))
			o, ok := ops[id]
			if aerr != nil || !ok {
				// the API operation carries its id in the body
				var v struct{ ID int }
				_ = json.Unmarshal(in, &v)
				id = v.ID
				if o, ok = ops[id]; !ok && err == nil {
					e.Fail("alien", "the client sent a request nobody asked for: %s %s %.200q", req.Method, req.URL, in)
				}
			}
			what, kind, _ := strings.Cut(o.K, ":")
			if req.URL.Path == "/elsewhere" {
				kind = "cl"
			}
			arrived.At(id).Add(1)
			if err != nil {
				return
			}
			complete.At(id).Add(1)
			if req.URL.Path == "/elsewhere" {
				elsewhere.At(id).Add(1)
			}
			switch what {
			case "get":
				if req.Method != "GET" || len(in) != 0 {
					e.Fail("request", "request %d: %s with a body of %d bytes, expected GET", id, req.Method, len(in))
				}
			case "post":
				if kind != "cl" && (req.Method != "POST" || !bytes.Equal(in, reqBody(id, o)) || req.Header.Get("Content-Type") != "application/json") {
					e.Fail("request", "request %d: the body arrived different: %s, %d bytes, %d sent", id, req.Method, len(in), len(reqBody(id, o)))
				}
			case "api":
				var v map[string]any
				if err := json.Unmarshal(in, &v); req.URL.Path != "/elsewhere" && (err != nil || v["text"] != string(reqBody(id, o)) || v["id"] != float64(id) || v["out"] != nil || v["both"] != "q" || req.Method != "POST") {
					e.Fail("request", "operation %d arrived different: %v %.300q", id, err, in)
				}
			}
			body := bodyOf(id, o, what == "api")
			w := func(f string, a ...any) bool { _, err := fmt.Fprintf(c, f, a...); return err == nil }
			chunk := func(b []byte) bool {
				for len(b) > 0 {
					n := min(len(b), 1000+int(o.C))
					if !w("%x\r\n%s\r\n", n, b[:n]) {
						return false
					}
					b = b[n:]
				}
				return true
			}
			head := "HTTP/1.1 200 OK\r\nX-Id: " + fmt.Sprint(id) + "\r\n"
			cut := 0
			if len(body) > 0 {
				cut = int(o.C) % len(body)
			}
			e.Fault("answer_" + kind)
			switch kind {
			case "cl":
				w("%sContent-Length: %d\r\n\r\n%s", head, len(body), body)
			case "excess": // more than announced: not part of the body
				w("%sContent-Length: %d\r\n\r\n%s", head, len(body), body)
				w("junk that follows")
				return
			case "notjson":
				w("%sContent-Length: %d\r\n\r\n%s", head, 3, "[1]")
			case "chunked":
				if w("%sTransfer-Encoding: chunked\r\n\r\n", head) && chunk(body) {
					w("0\r\n\r\n")
				}
			case "untilclose":
				w("%sConnection: close\r\n\r\n%s", head, body)
				return
			case "gzip":
				var b bytes.Buffer
				z := gzip.NewWriter(&b)
				_, _ = z.Write(body)
				z.Close()
				w("%sContent-Encoding: gzip\r\nContent-Length: %d\r\n\r\n%s", head, b.Len(), b.Bytes())
			case "nocontent":
				w("HTTP/1.1 204 No Content\r\n\r\n")
			case "status":
				code := cliStatus[int(o.C)%len(cliStatus)]
				switch {
				case o.C&64 != 0: // and never ends
					w("HTTP/1.1 %d Whatever\r\nContent-Length: %d\r\n\r\n%s", code, len(body)+1, body)
					select {
					case <-quit:
					case <-time.After(10 * time.Hour):
					}
					return
				default:
					w("HTTP/1.1 %d Whatever\r\nContent-Length: %d\r\n\r\n%s", code, len(body), body)
				}
			case "shortcl":
				w("%sContent-Length: %d\r\n\r\n%s", head, len(body)+1+int(o.C)%50, body)
				return
			case "resetbody":
				w("%sContent-Length: %d\r\n\r\n%s", head, len(body)+1+int(o.C)%50, body)
				c.(*simConn).Reset()
				return
			case "shortchunk":
				if w("%sTransfer-Encoding: chunked\r\n\r\n", head) {
					chunk(body[:cut])
					w("%x\r\n%s", len(body)-cut+1, body[cut:])
				}
				return
			case "noend":
				if w("%sTransfer-Encoding: chunked\r\n\r\n", head) {
					chunk(body)
				}
				return
			case "noanswer":
				return
			case "halfhead":
				w("%s", head[:int(o.C)%len(head)])
				return
			case "garbage":
				w("\x00\x01 what is this\r\n\r\n")
				return
			case "stall", "stallbody":
				if kind == "stallbody" {
					w("%sContent-Length: %d\r\n\r\n%s", head, len(body)+1, body)
				}
				select {
				case <-quit:
				case <-time.After(10 * time.Hour):
				}
				return
			case "trickle":
				w("%sContent-Length: %d\r\n\r\n", head, len(body))
				for i := 0; i < len(body); {
					n := min(len(body)-i, 1+len(body)/5)
					w("%s", body[i:i+n])
					i += n
					time.Sleep(time.Second)
				}
			case "continue":
				w("HTTP/1.1 103 Early Hints\r\nLink: x\r\n\r\n%sContent-Length: %d\r\n\r\n%s", head, len(body), body)
			case "redirect":
				w("HTTP/1.1 307 Elsewhere\r\nLocation: /elsewhere?id=%d\r\nContent-Length: 3\r\n\r\nbye", id)
			}
			if o.C&128 != 0 {
				return // without having said so
			}
		}
	}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go serve(c)
		}
	}()
	base := &url.URL{Scheme: "http", Host: fmt.Sprintf("127.0.0.1:%d", port)}
	ctxs := NewL[func(error)](128)
	first := 1
	for _, t := range ids {
		list, first0 := byTask[t], first
		first += len(list)
		e.Go(fmt.Sprintf("client%d", t), func() {
			for i, o := range list {
				id := first0 + i
				what, kind, _ := strings.Cut(o.K, ":")
				isAPI := what == "api"
				want := bodyOf(id, o, isAPI)
				c, cf := ctx.Background()
				var cf2 context.CancelFunc = func() {}
				never := kind == "stall" || kind == "stallbody" || kind == "status" && o.C&64 != 0
				limited := o.B != 0 || kind == "stall" || kind == "stallbody"
				limit := ms(o.B)
				if limit == 0 {
					limit = ms(700)
				}
				if limited {
					if o.C&1 != 0 {
						c, cf2 = ctx.WithTimeout(c, limit)
					} else {
						time.AfterFunc(limit, func() { cf(nil) })
					}
				}
				t0 := time.Now()
				alone := began.Get() == ended.Get()
				began.Add(1)
				mine := began.Get()
				u := fmt.Sprintf("%s/y?id=%d", base, id)
				var got []byte
				var err error
				op := &cliOp{ID: id, Text: string(reqBody(id, o)), Both: "q"}
				if isAPI {
					err = fhttp.Client{BaseUrl: base}.API(c, op)
				} else if what == "get" {
					got, err = fhttp.DefaultClient.Get(c, u)
				} else {
					got, err = fhttp.Client{}.Post(c, u, reqBody(id, o))
				}
				el := time.Since(t0)
				alone = alone && began.Get() == mine
				ended.Add(1)
				expired := limited && c.Err() != nil
				// net/http hands an answered connection on before its caller has the
				// answer: what another request meets there may break this one.
				var ue *url.Error
				shared := !alone && errors.As(err, &ue)
				if limited && el > limit+e.Slack() {
					e.Fail("late", "request %d (%s): its context ended after %s, it returned after %s", id, o.K, limit, el)
				}
				// net/http repeats a GET which met a dead connection, not one that was answered
				if n := complete.At(id).Get(); n > 1 && (what != "get" && kind != "redirect" || kind == "status" && quiet) {
					e.Fail("twice", "request %d (%s) was sent %d times", id, o.K, n)
				}
				e.Ev("request %d: %d bytes, %v", id, len(got), err != nil)
				if err == nil && !limited && never && kind != "status" {
					e.Fail("success", "request %d (%s) succeeded", id, o.K)
				}
				ok := err == nil
				sendable := false
				switch kind {
				case "cl", "chunked", "untilclose", "gzip", "trickle", "continue", "redirect", "excess":
					sendable = kind != "redirect" || elsewhere.At(id).Get() > 0
					if ok && isAPI && (op.Out != string(pattern(id, int(o.A))) || op.N != id || op.Both != fmt.Sprint("b", id) || op.ID != id) {
						e.Fail("wrong", "operation %d (%s): a response of %d bytes gives %d bytes and %d", id, kind, len(want), len(op.Out), op.N)
					}
					if ok && !isAPI && !bytes.Equal(got, want) {
						e.Fail("wrong", "request %d (%s): got %d bytes, the response has %d, without an error", id, kind, len(got), len(want))
					}
					if kind == "untilclose" && ok && isAPI && len(op.Out) == 0 && o.A > 0 {
						e.Fail("wrong", "operation %d: empty", id)
					}
				case "nocontent":
					sendable = true
					if ok && (len(got) != 0 || op.Out != "") {
						e.Fail("wrong", "request %d: 204 with %d bytes", id, len(got))
					}
				case "notjson":
					sendable = !isAPI
					if ok && (isAPI || string(got) != "[1]") {
						e.Fail("wrong", "request %d: %q accepted", id, got)
					}
				case "status":
					code := cliStatus[int(o.C)%len(cliStatus)]
					if ok {
						e.Fail("success", "request %d was answered with %d and succeeded", id, code)
					}
					if len(got) != 0 || op.Out != "" {
						e.Fail("success", "request %d was answered with %d and has a result", id, code)
					}
					if c := fhttp.ErrorCode(err, 0); c != code && (c != 0 || quiet && !shared && !expired && o.C&128 == 0 && complete.At(id).Get() > 0 && el < 5*time.Minute) {
						e.Fail("code", "request %d was answered with %d, the error has code %d: %v", id, code, c, err)
					}
					if el > time.Hour && complete.At(id).Get() > 0 {
						e.Fail("late", "request %d was answered with %d, the call returned after %s", id, code, el)
					}
					e.Probe("status")
				default: // no complete response
					if ok {
						e.Fail("success", "request %d (%s): got %d bytes without an error, the response is not complete", id, kind, len(got))
					}
				}
				if !ok && alone && mine == 1 && quiet && !expired && arrived.At(id).Get() == 0 && el < 5*time.Minute {
					e.Fail("failed", "request %d (%s), the first of all, was never sent: %v", id, o.K, err)
				}
				if !ok {
					// a shared connection may have been closed by the server: that is
					// only allowed to fail a request which the transport can't repeat
					if sendable && quiet && !shared && !expired && complete.At(id).Get() > 0 && el < 5*time.Minute {
						e.Fail("failed", "request %d (%s) fails although its answer was sent: %v", id, o.K, err)
					}
					if c := c.Err(); never && kind != "status" && quiet && expired && !errors.Is(err, c) && !errors.Is(err, context.Cause(context.Background())) && !isTimeout(err) && arrived.At(id).Get() > 0 && el < 5*time.Hour {
						e.Fail("cause", "request %d: its context ended with %v and the error does not say so: %v", id, c, err)
					}
				} else {
					e.Probe("ok_" + kind)
				}
				if p.Knob("keepctx") == 1 {
					// a context may well live longer than its requests
					defer cf2()
					ctxs.Add(cf)
					continue
				}
				cf2()
				cf(nil)
			}
		})
	}
	e.Join(48*time.Hour, "stuck", "client requests")
	calm(e)
	// What the client keeps is idle connections, and those not for long.
	for i := 0; i < 30; i++ {
		time.Sleep(time.Minute)
		if len(e.Net.Open(true)) == 0 {
			break
		}
	}
	if open := e.Net.Open(true); len(open) > 0 {
		e.Fail("conn-leak", "all requests have returned, and half an hour later the client holds %d connections", len(open))
	}
	for _, cf := range ctxs.All() {
		cf(nil)
	}
	close(quit)
	ln.Close()
	if l := e.Leaks(); len(l) > 0 {
		e.Fail("leak", "%d goroutines are left behind:\n%s", len(l), strings.Join(l, "\n\n"))
	}
	e.Ev("done")
}
