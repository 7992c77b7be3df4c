package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	fhttp "github.com/Aize-Public/forego/http"
	"github.com/Aize-Public/forego/http/ws"
	"github.com/Aize-Public/forego/shutdown"
)

func init() {
	register(&Workload{ID: "C05", Gen: genC05, Run: runC05})
	register(&Workload{ID: "C06", Gen: genC06, Run: runC06})
	register(&Workload{ID: "C07", Gen: genC07, Run: runC07})
	register(&Workload{ID: "C30", Gen: genC30, Run: runC30})
}

// --- C05: the API: one request, one execution, its own response -----------------

// apiLab is what the operations share: a counter per request id.
type apiLab struct {
	e     *Env
	execs *L[*N]
}

func newAPILab(e *Env, n int) *apiLab {
	l := &apiLab{e: e, execs: NewL[*N](n)}
	for i := 0; i < n; i++ {
		l.execs.Add(&N{})
	}
	return l
}

func (l *apiLab) exec(id int) {
	if id < 0 || id >= l.execs.Len() {
		l.e.Fail("alien", "an operation was executed with id %d, which nobody sent", id)
	}
	if l.execs.At(id).Add(1) > 1 {
		l.e.Fail("twice", "request %d was executed twice", id)
	}
}

func (l *apiLab) n(id int) int64 { return l.execs.At(id).Get() }

type apiEcho struct {
	R     api.Request `url:"/api/echo"`
	Lab   *apiLab
	Limit int

	ID    int            `api:"in,out,required" json:"id"`
	Text  string         `api:"in" json:"text"`
	Wait  int            `api:"in" json:"wait"`
	Opt   *string        `api:"both" json:"opt"`
	Bag   map[string]int `api:"both" json:"bag"`
	Nick  string         `api:"both" enc:"nick" json:"other"`
	Plain string         `api:"both"`
	Mix   *apiMix        `api:"both" json:"mix"`
	Out   string         `api:"out" json:"out"`
	Lim   int            `api:"out" json:"lim"`
	Extra []string       `api:"out" json:"extra"`

	scratch []string
}

// apiMix has values of many kinds.
type apiMix struct {
	I    map[int]mixItem    `json:"i"`
	U8   map[uint8]string   `json:"u8"`
	L    []mixItem          `json:"l"`
	LP   []*mixItem         `json:"lp"`
	P    *mixItem           `json:"p"`
	None *mixItem           `json:"none"`
	T    time.Time          `json:"t"`
	F    float64            `json:"f"`
	F32  float32            `json:"f32"`
	B    bool               `json:"b"`
	U    uint64             `json:"u"`
	N    int64              `json:"n"`
	S8   int8               `json:"s8"`
	U16  uint16             `json:"u16"`
	K    mixKind            `json:"k"`
	KM   map[mixKind]bool   `json:"km"`
	G    [][]int            `json:"g"`
	A    any                `json:"a"`
	Arr  [3]int             `json:"arr"`
	Omit string             `json:"omit,omitempty"`
	OmN  int                `json:"omn,omitempty"`
	In   struct{ X, Y int } `json:"in"`
	Caps string
}

type mixKind string

type mixItem struct {
	S string   `json:"s"`
	N int      `json:"n"`
	L []string `json:"l"`
}

func mixString(m *apiMix) string { return fmt.Sprintf("%+v (p %+v, lp %+v)", *m, m.P, m.LP) }

// mixOf is what request id carries.
func mixOf(id int) *apiMix {
	r := NewRng(uint64(id))
	str := func() string { return pick(r, "", "a", "null", "\u00e9\u2028\x01\"<&", "12", "x y", "true") }
	item := func() mixItem {
		i := mixItem{S: str(), N: int(r.I(3)) - 1}
		for n := r.N(3); n > 0; n-- {
			i.L = append(i.L, str())
		}
		return i
	}
	m := &apiMix{T: time.Date(2000+r.N(50), 1, 2, 3, 4, 5, r.N(3)*1000, time.UTC),
		F:   pick(r, 0, 0.1, -2.5, 1e300, 5e-324, 1e21, 123456789, -1e-9),
		F32: pick(r, float32(0), 0.1, -2.5, 3e38, 1e-40),
		B:   r.P(1, 2), U: pick(r, uint64(0), 1, 1<<53+1, 1<<63-1, 1<<63, 1<<64-1), N: pick(r, int64(0), -1, 1<<53+1, 1<<63-1, -1<<63),
		S8: int8(r.N(256) - 128), U16: uint16(pick(r, 0, 1, 65535)), K: mixKind(str()), Omit: str(), OmN: r.N(3) - 1, Caps: str(), Arr: [3]int{id, -1, 0}}
	m.In.X = id
	for n := r.N(4); n > 0; n-- {
		if m.I == nil {
			m.I, m.U8, m.KM = map[int]mixItem{}, map[uint8]string{}, map[mixKind]bool{}
		}
		m.I[r.N(100)-50] = item()
		m.U8[uint8(r.N(256))] = str()
		m.KM[mixKind(str())] = r.P(1, 2)
		m.L = append(m.L, item())
		it := item()
		m.LP = append(m.LP, &it, nil)
		m.G = append(m.G, []int{n, id}, []int{})
	}
	if r.P(1, 2) {
		it := item()
		m.P = &it
	}
	switch r.N(5) {
	case 0:
		m.A = str()
	case 1:
		m.A = []any{str(), true, nil}
	case 2:
		m.A = map[string]any{"k": str(), "f": 1.5}
	case 3:
		m.A = -7.0
	}
	return m
}

// change is what the operation does to it.
func (m *apiMix) change() {
	m.N, m.U, m.S8, m.B = ^m.N, ^m.U, ^m.S8, !m.B
	m.L = append(m.L, mixItem{S: m.Caps})
	m.Omit, m.Caps = m.Caps, m.Omit
	if m.I != nil {
		m.I[99] = mixItem{N: 99}
	}
	m.P, m.None = m.None, m.P
	m.T = m.T.Add(time.Hour)
}

func transform(s string) string { return "<" + strings.ToUpper(s) + ">" }

func (o *apiEcho) Do(c ctx.C) error {
	o.Lab.exec(o.ID)
	if o.Out != "" || o.Extra != nil || len(o.scratch) != 0 || o.Lim != 0 {
		o.Lab.e.Fail("state", "request %d starts with state of another one: %+v", o.ID, *o)
	}
	o.scratch = append(o.scratch, o.Text)
	if o.Wait > 0 {
		time.Sleep(ms(int64(o.Wait)))
	}
	o.Lim = o.Limit
	o.Limit += o.ID
	o.Out = transform(o.Text)
	o.Extra = []string{fmt.Sprint(o.ID), "x"}
	if o.Bag != nil {
		o.Bag["seen"] = o.ID
	}
	if o.Nick != "" {
		o.Nick += "!"
	}
	if o.Plain != "" {
		o.Plain += "!"
	}
	if o.Mix != nil {
		if want := mixOf(o.ID); !reflect.DeepEqual(o.Mix, want) {
			o.Lab.e.Fail("inputs", "request %d was executed with %s, it was sent with %s", o.ID, mixString(o.Mix), mixString(want))
		}
		o.Mix.change()
	}
	// the context is the request's own
	tags := map[string]string{}
	_ = ctx.RangeTag(c, func(k string, j ctx.JSON) error { tags[k] = string(j); return nil })
	if tags["path"] != `"/api/echo"` {
		o.Lab.e.Fail("context", "request %d sees path tag %s", o.ID, tags["path"])
	}
	if ua := tags["ua"]; ua == "" || strings.HasPrefix(ua, `"sim-`) && ua != fmt.Sprintf(`"sim-%d"`, o.ID) {
		o.Lab.e.Fail("context", "request %d sees the user agent tag %s", o.ID, ua)
	}
	return nil
}

type apiFail struct {
	R    api.Request `url:"/api/fail"`
	Lab  *apiLab
	ID   int    `api:"in,required" json:"id"`
	Kind int    `api:"in" json:"kind"`
	Out  string `api:"out" json:"out"`
	// can't be encoded, if anything is in it
	Bad map[string][]struct {
		X *apiBad `json:"x"`
	} `api:"out" json:"bad"`
}

type apiBad struct{}

func (*apiBad) MarshalNode(c ctx.C) (enc.Node, error) { return nil, errors.New("s3cret marshal") }

func (o *apiFail) Do(c ctx.C) error {
	o.Lab.exec(o.ID)
	o.Out = "half done"
	switch o.Kind {
	case 0:
		return fhttp.NewErrorf(c, 418, "teapot %d \"q\"", o.ID)
	case 1:
		return fhttp.NewErrorf(c, 503, "s3cret %d", o.ID)
	case 2:
		return errors.New("s3cret plain")
	case 3:
		return ctx.NewErrorf(c, "wrapped: %w", fhttp.NewErrorf(c, 404, "gone %d", o.ID))
	case 4:
		panic("s3cret panic")
	case 6:
		o.Bad = map[string][]struct {
			X *apiBad `json:"x"`
		}{"a": {{X: &apiBad{}}}}
		return nil
	default:
		return ctx.NewErrorf(c, "s3cret ctx")
	}
}

var failCode = []int{418, 503, 500, 404, 0, 500, 500}

type apiAuth struct {
	R   api.Request `url:"/api/auth"`
	Lab *apiLab
	UID string `api:"auth,required"`
	ID  int    `api:"in,required" json:"id"`
	Out string `api:"out" json:"out"`
}

func (o *apiAuth) Do(c ctx.C) error {
	o.Lab.exec(o.ID)
	o.Lab.e.Fail("auth", "an operation requiring authentication was executed without it")
	return nil
}

// apiOpt requires nothing, and is known by two paths.
type apiOpt struct {
	R    api.Request `url:"/api/opt"`
	Also api.Request `url:"/api/opt/also"`
	Lab  *apiLab
	ID   int    `api:"in" json:"id"`
	Text string `api:"both" json:"text"`
	N    *int   `api:"both" json:"n"`
	Out  string `api:"out" json:"out"`
}

func (o *apiOpt) Do(c ctx.C) error {
	if o.ID != 0 {
		o.Lab.exec(o.ID)
	}
	if o.Out != "" {
		o.Lab.e.Fail("state", "request %d starts with state of another one: %+v", o.ID, *o)
	}
	o.Out = fmt.Sprint(o.ID) + transform(o.Text)
	return nil
}

func genC05(r *Rng) *Plan {
	p := &Plan{Knobs: map[string]int64{}}
	netKnobs(r, p.Knobs, r.P(1, 2))
	if p.Knobs["maxdelay"] > 400 {
		p.Knobs["maxdelay"] = 400
	}
	for t := 1; t <= 1+r.N(4); t++ {
		for i, n := 0, 1+r.N(4); i < n; i++ {
			p.Ops = append(p.Ops, Op{T: t, K: pick(r, "echo", "echo", "echo", "pipe", "cli", "cli", "fail", "missing", "auth", "raw", "close", "opt", "opt", "optbad"),
				A: pick(r, int64(0), 1, 2, 3, 100, 6000, 17000, 40000), B: r.I(64), C: pick(r, int64(0), 0, 1, 500)})
		}
		switch r.N(24) {
		case 0: // many
			ks := pick(r, []string{"echo", "cli", "pipe"}, []string{"fail", "missing", "raw", "auth", "echo"}, []string{"opt", "optbad"})
			for i := r.N(40); i >= 0; i-- {
				p.Ops = append(p.Ops, Op{T: t, K: pick(r, ks...), A: pick(r, int64(0), 3, 100), B: r.I(64)})
			}
		case 1: // large
			p.Knobs["window"], p.Knobs["seg"], p.Knobs["short"] = 64<<10, min(p.Knobs["seg"], 5), min(p.Knobs["short"], 5)
			p.Ops = append(p.Ops, Op{T: t, K: pick(r, "echo", "cli", "raw", "raw"), A: pick(r, int64(70000), 131072, 300000, 1200000), B: r.I(64)})
			p.oneHuge()
		}
	}
	return p
}

func runC05(e *Env, p *Plan) {
	applyNet(e, p)
	lab := newAPILab(e, 512)
	f := newHTTP(e, func(c ctx.C, s *fhttp.Server) {
		s.MustRegisterAPI(c, &apiEcho{Lab: lab, Limit: 7})
		s.MustRegisterAPI(c, &apiFail{Lab: lab})
		s.MustRegisterAPI(c, &apiAuth{Lab: lab})
		s.MustRegisterAPI(c, &apiOpt{Lab: lab})
		s.HandleRequest("/raw", func(c ctx.C, in []byte, r *http.Request) ([]byte, error) {
			id, _ := strconv.Atoi(r.URL.RawQuery)
			lab.exec(id)
			return in, nil
		})
		s.HandleRequest("/rawfail", func(c ctx.C, in []byte, r *http.Request) ([]byte, error) {
			id, _ := strconv.Atoi(r.URL.RawQuery)
			lab.exec(id)
			return append([]byte("half done "), in...), fhttp.NewErrorf(c, 409+id%2*93, "s3cret %d", id)
		})
	})
	base := &url.URL{Scheme: "http", Host: fmt.Sprintf("127.0.0.1:%d", f.port)}
	quiet := p.Knob("reset") == 0 && p.Knob("stall") == 0
	// verify one answer to the echo
	checkEcho := func(id int, text string, opt *string, bag map[string]int, mix bool, body []byte) {
		var got struct {
			Mix   *apiMix        `json:"mix"`
			ID    int            `json:"id"`
			Opt   *string        `json:"opt"`
			Bag   map[string]int `json:"bag"`
			Out   string         `json:"out"`
			Lim   int            `json:"lim"`
			Extra []string       `json:"extra"`
			Text  *string        `json:"text"`
			Nick  string         `json:"nick"`
			Plain string         `json:"Plain"`
		}
		if err := json.Unmarshal(body, &got); err != nil {
			e.Fail("garbled", "request %d: the response is not JSON: %v: %.200q", id, err, body)
		}
		okBag := len(got.Bag) == 0
		if bag != nil {
			okBag = len(got.Bag) == len(bag)+1 && got.Bag["seen"] == id && got.Bag["a"] == bag["a"]
		}
		if (got.Mix != nil) != mix {
			e.Fail("mixed", "request %d: the response does not belong to it: %.300q", id, body)
		}
		if mix {
			want := mixOf(id)
			want.change()
			if !reflect.DeepEqual(got.Mix, want) {
				e.Fail("outputs", "request %d: the response has %s, the operation had %s", id, mixString(got.Mix), mixString(want))
			}
		}
		okOpt := (got.Opt == nil) == (opt == nil) && (opt == nil || *opt == *got.Opt)
		if got.ID != id || got.Out != transform(text) || got.Lim != 7 || len(got.Extra) != 2 || got.Extra[0] != fmt.Sprint(id) || !okBag || !okOpt || got.Text != nil ||
			got.Nick != fmt.Sprintf("n%d!", id) || got.Plain != fmt.Sprintf("p%d!", id) {
			e.Fail("mixed", "request %d: the response does not belong to it: %.300q", id, body)
		}
	}
	mkEcho := func(id int, o Op) (body []byte, text string, opt *string, bag map[string]int) {
		text = string(pattern(id, int(o.A)))
		m := map[string]any{"id": id, "text": text, "wait": o.C, "out": "injected", "lim": 99, "Limit": 1000, "Lab": nil, "nick": fmt.Sprint("n", id), "Plain": fmt.Sprint("p", id)}
		if o.B&1 != 0 {
			s := fmt.Sprintf("opt %d", id)
			opt = &s
			m["opt"] = s
		}
		if o.B&2 != 0 {
			bag = map[string]int{"a": id}
			m["bag"] = bag
		}
		if o.B&8 != 0 {
			m["mix"] = mixOf(id)
		}
		body, _ = json.Marshal(m)
		return
	}
	decode := func(id int, res *http.Response, body []byte, asked bool) []byte {
		if res.Header.Get("Content-Encoding") == "gzip" {
			if !asked {
				e.Fail("gzip", "request %d did not accept gzip, the response is compressed", id)
			}
			e.Probe("gzip")
			z, err := gzip.NewReader(bytes.NewReader(body))
			if err == nil {
				body, err = io.ReadAll(z)
			}
			if err != nil {
				e.Fail("garbled", "request %d: broken gzip: %v", id, err)
			}
		}
		return body
	}
	ids, byTask := p.ByTask()
	next := 1
	for _, t := range ids {
		t, ops := t, byTask[t]
		first := next
		next += len(ops) * 3
		if next > 500 {
			break
		}
		e.Go(fmt.Sprintf("client%d", t), func() {
			var rc *rawConn
			var since time.Time
			drop := func() {
				if rc != nil {
					rc.c.Close()
				}
				rc = nil
			}
			defer drop()
			// The server gives a request 30 seconds, from the end of the one before.
			lax := func() bool { return !quiet || time.Since(since) > 25*time.Second }
			dead := func(id int, what string, err error) {
				if !lax() {
					e.Fail("no-answer", "request %d (%s): %v, although the connection had no trouble", id, what, err)
				}
				e.Probe("failed_request")
				drop()
			}
			for i, o := range ops {
				id := first + i*3
				if rc == nil {
					since = time.Now()
					var err error
					if rc, err = dialRaw(e, f.port); err != nil {
						e.Fail("refused", "dial: %v", err)
					}
				}
				hdr := fmt.Sprintf("User-Agent: sim-%d\r\nContent-Type: application/json\r\n", id)
				asked := o.B&4 != 0
				if asked {
					hdr += "Accept: gzip\r\n"
				}
				switch o.K {
				case "echo", "pipe":
					k := 1
					var out []byte
					if o.K == "pipe" {
						k = 3
					}
					for j := 0; j < k; j++ {
						b, _, _, _ := mkEcho(id+j, o)
						h := strings.Replace(hdr, fmt.Sprintf("sim-%d\r", id), fmt.Sprintf("sim-%d\r", id+j), 1)
						out = append(out, reqBytes("POST", "/api/echo", h, b)...)
					}
					werr := make(chan error, 1)
					go func(c *simConn) { _, err := c.Write(out); werr <- err }(rc.c)
					for j := 0; j < k; j++ {
						res, body, err := rc.response("POST")
						if err != nil {
							dead(id+j, o.K, err)
							break
						}
						if res.StatusCode != 200 {
							if lax() && res.StatusCode == 400 && lab.n(id+j) == 0 {
								drop()
								break
							}
							e.Fail("status", "request %d: status %d: %.200q", id+j, res.StatusCode, body)
						}
						if ct := res.Header.Get("Content-Type"); ct != "application/json" {
							e.Fail("garbled", "request %d: content type %q", id+j, ct)
						}
						body = decode(id+j, res, body, asked)
						_, text, opt, bag := mkEcho(id+j, o)
						checkEcho(id+j, text, opt, bag, o.B&8 != 0, body)
						if lab.n(id+j) != 1 {
							e.Fail("not-executed", "request %d was answered and executed %d times", id+j, lab.n(id+j))
						}
						since = time.Now()
						e.Probe("echo")
					}
					<-werr
				case "cli":
					t0 := time.Now()
					_, text, opt, bag := mkEcho(id, o)
					op := &apiEcho{ID: id, Text: text, Wait: int(o.C), Opt: opt, Bag: bag, Nick: fmt.Sprint("n", id), Plain: fmt.Sprint("p", id)}
					if o.B&8 != 0 {
						op.Mix = mixOf(id)
					}
					err := fhttp.Client{BaseUrl: base}.API(f.c, op)
					if err != nil {
						if quiet && time.Since(t0) < 25*time.Second {
							e.Fail("no-answer", "request %d (client): %v, although the connection had no trouble", id, err)
						}
						if op.Out != "" {
							e.Fail("garbled", "request %d: the client reported %v and filled the response", id, err)
						}
						continue
					}
					j, _ := json.Marshal(map[string]any{"id": op.ID, "opt": op.Opt, "bag": op.Bag, "mix": op.Mix, "out": op.Out, "lim": op.Lim, "extra": op.Extra, "nick": op.Nick, "Plain": op.Plain})
					checkEcho(id, text, opt, bag, o.B&8 != 0, j)
					if lab.n(id) != 1 {
						e.Fail("not-executed", "request %d was answered and executed %d times", id, lab.n(id))
					}
					e.Probe("cli")
				case "raw":
					path, bad := "/raw", o.B%4 == 3
					if bad {
						path = "/rawfail"
					}
					res, body, err := rc.do("POST", fmt.Sprintf("%s?%d", path, id), hdr, pattern(id, int(o.A)))
					if err != nil {
						dead(id, "raw", err)
						continue
					}
					want := 200
					if o.A == 0 {
						want = 204
					}
					if bad {
						want = 409 + id%2*93
					}
					if res.StatusCode != want {
						if lax() && res.StatusCode == 400 && lab.n(id) == 0 {
							drop()
							continue
						}
						e.Fail("status", "request %d: status %d", id, res.StatusCode)
					}
					if body = decode(id, res, body, asked); bad {
						said := bytes.Contains(body, []byte(fmt.Sprintf("s3cret %d", id)))
						if said != (want < 500) || bytes.Contains(body, []byte("half done")) {
							e.Fail("leak", "request %d failed with %d and its response is %.300q", id, want, body)
						}
					} else if !bytes.Equal(body, pattern(id, int(o.A))) {
						e.Fail("mixed", "request %d: the response does not belong to it: %.300q", id, body)
					}
					since = time.Now()
				case "fail":
					kind := int(o.B) % 7
					res, body, err := rc.do("POST", "/api/fail", hdr, []byte(fmt.Sprintf(`{"id":%d,"kind":%d}`, id, kind)))
					if err != nil {
						if kind == 4 {
							e.Probe("panicked")
							drop()
							continue
						}
						dead(id, "fail", err)
						continue
					}
					if strings.Contains(string(body), "s3cret") {
						e.Fail("leak", "request %d: the response reveals an internal error: %q", id, body)
					}
					if strings.Contains(string(body), "half done") {
						e.Fail("garbled", "request %d failed and the response carries its output: %q", id, body)
					}
					if res.StatusCode != failCode[kind] {
						if kind == 4 && res.StatusCode >= 500 || lax() && res.StatusCode == 400 && lab.n(id) == 0 {
							drop()
							continue
						}
						e.Fail("status", "request %d failed with code %d, the response has %d: %.200q", id, failCode[kind], res.StatusCode, body)
					}
					var er struct {
						Error string `json:"error"`
					}
					if err := json.Unmarshal(body, &er); err != nil {
						e.Fail("garbled", "request %d: the error is not JSON: %q", id, body)
					}
					if failCode[kind] < 500 != strings.Contains(er.Error, fmt.Sprint(id)) {
						e.Fail("garbled", "request %d: error %q for code %d", id, er.Error, failCode[kind])
					}
					since = time.Now()
				case "opt", "optbad":
					path := pick(NewRng(uint64(o.B)), "/api/opt", "/api/opt/also")
					sent, text, n := id, string(pattern(id, int(min(o.A, 100)))), ""
					b := fmt.Sprintf(`{"id":%d,"text":%q}`, id, text)
					if o.K == "opt" {
						switch o.B >> 1 & 7 {
						case 0: // nothing is required
							b, sent, text = "", 0, ""
						case 1:
							b, sent, text = " {} \n", 0, ""
						case 2:
							n = "7"
							b = fmt.Sprintf(`{"n":7,"out":"x","id":%d,"text":%q}`, id, text)
						case 3:
							b, text = fmt.Sprintf(`{"id":%d,"text":null,"n":null}`, id), ""
						}
					} else {
						b = pick(NewRng(uint64(o.B)+uint64(o.C)<<8), b[:len(b)-1], b+" x", b+b, b+"]", "x", "[1]", "1", `"x"`, "{", "}", "\x00", `{"id":`, `{"id":}`,
							`{"id":"x"}`, `{"n":"x"}`, `{"text":{}}`, "["+b+"]", b[1:], strings.Replace(b, ":", " ", 1), `{"id":[]}`, `{`+b+`}`, "true", `{"text"}`, `{'id':1}`)
						if o.B&32 != 0 { // acceptable, but not there
							path = pick(NewRng(uint64(o.B)+uint64(o.C)<<8), "/api/opt/", "/api/op", "/api/optt", "/API/OPT", "/api/opt/also/", "/api/opt/al", "/api", "/", "/opt", "/api/opt/also/api/opt")
							b = fmt.Sprintf(`{"id":%d,"text":%q}`, id, text)
						}
					}
					res, body, err := rc.do("POST", path, hdr, []byte(b))
					if err != nil {
						dead(id, o.K, err)
						continue
					}
					if o.K == "optbad" {
						if res.StatusCode < 400 || lab.n(id) != 0 {
							e.Fail("accepted", "request %d (%s %s): status %d, executed %d times: %.200q", id, path, b, res.StatusCode, lab.n(id), body)
						}
						since = time.Now()
						continue
					}
					if res.StatusCode != 200 {
						if lax() && res.StatusCode == 400 && lab.n(id) == 0 {
							drop()
							continue
						}
						e.Fail("status", "request %d (%s %s): status %d: %.200q", id, path, b, res.StatusCode, body)
					}
					var got struct {
						Text *string         `json:"text"`
						Out  string          `json:"out"`
						N    json.RawMessage `json:"n"`
					}
					body = decode(id, res, body, asked)
					if err := json.Unmarshal(body, &got); err != nil {
						e.Fail("garbled", "request %d: the response is not JSON: %v: %.200q", id, err, body)
					}
					if gn := string(got.N); got.Text == nil || *got.Text != text || got.Out != fmt.Sprint(sent)+transform(text) || gn != n && (n != "" || gn != "null") {
						e.Fail("mixed", "request %d (%s): the response does not belong to it: %.300q", id, b, body)
					}
					if sent != 0 && lab.n(id) != 1 {
						e.Fail("not-executed", "request %d was answered and executed %d times", id, lab.n(id))
					}
					since = time.Now()
					e.Probe("opt")
				case "missing", "auth":
					path, b := "/api/auth", fmt.Sprintf(`{"id":%d,"UID":"root"}`, id)
					if o.K == "missing" {
						path = "/api/echo"
						b = pick(NewRng(uint64(o.B)), `{"text":"no id"}`, `{"id":0}`, `{}`, `[1]`, `{"id":"x"}`, `{"id":`, ``, `{"id":null,"ID":499}`,
							fmt.Sprintf(`{"id":%d} x`, id), fmt.Sprintf(`{"id":%d}{"id":499}`, id), fmt.Sprintf(`{"id":%d}]`, id), fmt.Sprintf(`{"id":%d,"id":}`, id),
							fmt.Sprintf(`{"id":%d.5e1}`, id), fmt.Sprintf(`{"id":%d,"mix":{"s8":300}}`, id), fmt.Sprintf(`{"id":%d,"mix":{"u":-1}}`, id),
							fmt.Sprintf(`{"id":%d,"mix":{"u16":65536}}`, id), fmt.Sprintf(`{"id":%d,"mix":{"n":9223372036854775808}}`, id), fmt.Sprintf(`{"id":%d,"mix":{"f32":1e40}}`, id),
							fmt.Sprintf(`{"id":%d,"mix":{"u8":{"256":""}}}`, id), fmt.Sprintf(`{"id":%d,"mix":{"i":{"x":{}}}}`, id), fmt.Sprintf(`{"id":%d,"mix":{"b":3}}`, id),
							fmt.Sprintf(`{"id":%d,"mix":{"l":{}}}`, id), fmt.Sprintf(`{"id":%d,"bag":[]}`, id), fmt.Sprintf(`{"id":%d,"text":{}}`, id))
					}
					res, body, err := rc.do("POST", path, hdr, []byte(b))
					if err != nil {
						dead(id, o.K, err)
						continue
					}
					if res.StatusCode < 400 {
						e.Fail("accepted", "request %d (%s %s): status %d: %.200q", id, path, b, res.StatusCode, body)
					}
					if lab.n(id) != 0 || lab.n(0) != 0 || lab.n(499) != 0 {
						e.Fail("accepted", "request %d (%s %s) is unacceptable and was executed", id, path, b)
					}
					since = time.Now()
				case "close":
					drop()
				}
			}
		})
	}
	e.Join(24*time.Hour, "stuck", "API clients")
	// once the faults stop, the service works
	calm(e)
	http.DefaultTransport.(*http.Transport).CloseIdleConnections()
	for try := 0; ; try++ {
		t0 := time.Now()
		id := 501 + try
		rc, err := dialRaw(e, f.port)
		if err != nil {
			e.Fail("refused", "dial: %v", err)
		}
		b, text, opt, bag := mkEcho(id, Op{A: 50, B: 3})
		res, body, err := rc.do("POST", "/api/echo", "", b)
		if (err != nil || res.StatusCode != 200) && try < 8 && time.Since(t0) > 20*time.Second {
			continue // the time was up
		}
		if err != nil || res.StatusCode != 200 {
			e.Fail("unserved", "after all faults: a plain request fails: %v %+v", err, res)
		}
		checkEcho(id, text, opt, bag, false, body)
		rc.c.Close()
		break
	}
	noServerLeft(e, f)
	e.Ev("done %d", next)
}

// noServerLeft checks that the server kept nothing of clients that are gone.
func noServerLeft(e *Env, f *httpFix) {
	for i := 0; i < 20; i++ {
		time.Sleep(time.Minute)
		if len(e.Net.Open(false)) == 0 {
			break
		}
	}
	if open := e.Net.Open(false); len(open) > 0 {
		e.Fail("conn-leak", "%d connections are still open 20 minutes after their clients went\n%s", len(open), foregoStacks())
	}
	if l := e.Leaks("http.Server.Listen", "http.(*Server).Listen", "http.(*listener).Accept"); len(l) > 0 {
		sort.Strings(l)
		e.Fail("leak", "%d goroutines are left behind by clients that went:\n%s", len(l), strings.Join(l, "\n\n"))
	}
}

// --- C06: a truncated request is never executed ------------------------------------

func genC06(r *Rng) *Plan {
	p := &Plan{Knobs: map[string]int64{}}
	netKnobs(r, p.Knobs, false)
	for t := 1; t <= 1+r.N(5); t++ {
		for i, n := 0, 1+r.N(2); i < n; i++ {
			p.Ops = append(p.Ops, Op{T: t, K: pick(r, "api", "raw", "call", "callshort"), A: r.I(1000), B: r.I(12), C: pick(r, int64(0), 0, 10, 9000, 30000)})
		}
	}
	if r.P(1, 24) { // many of one kind
		k := pick(r, "api", "raw", "call")
		for i := 10 + r.N(30); i >= 0; i-- {
			p.Ops = append(p.Ops, Op{T: 1 + i%4, K: k, A: r.I(1000), B: r.I(12), C: pick(r, int64(0), 0, 10)})
		}
	}
	return p
}

func runC06(e *Env, p *Plan) {
	applyNet(e, p)
	lab := newAPILab(e, 256)
	call := func(path string, d time.Duration) fhttp.CallHandler {
		return fhttp.CallHandler{Path: path, ReadTimeout: d, Handler: func(c ctx.C, call *fhttp.Call) error {
			n, _ := strconv.Atoi(pathID(c))
			lab.exec(n)
			call.Write([]byte("done"))
			return nil
		}}
	}
	f := newHTTP(e, func(c ctx.C, s *fhttp.Server) {
		s.MustRegisterAPI(c, &apiEcho{Lab: lab, Limit: 7})
		s.HandleRequest("/raw", func(c ctx.C, in []byte, r *http.Request) ([]byte, error) {
			n, _ := strconv.Atoi(pathID(c))
			lab.exec(n)
			return []byte("done"), nil
		})
		call("/call", 0).Register(s)
		call("/callshort", 2*time.Second).Register(s)
	})
	ids, byTask := p.ByTask()
	next := 1
	for _, t := range ids {
		t, ops := t, byTask[t]
		first := next
		next += len(ops)
		if next > 250 {
			break
		}
		e.Go(fmt.Sprintf("client%d", t), func() {
			for i, o := range ops {
				id := first + i
				path := "/" + o.K
				body := []byte(fmt.Sprintf(`{"id":%d,"text":"x"}`, id))
				if o.K == "api" {
					path = "/api/echo"
				}
				whole := len(body)
				body = append(body, bytes.Repeat([]byte(" "), int(o.C))...) // whole long before its end
				chunked := o.B&1 != 0
				hdr := fmt.Sprintf("POST %s HTTP/1.1\r\nHost: sim\r\nUser-Agent: sim-%d\r\n", path, id)
				var msg []byte
				headLen := 0
				if chunked {
					hdr += "Transfer-Encoding: chunked\r\n\r\n"
					headLen = len(hdr)
					msg = append(msg, hdr...)
					msg = append(msg, fmt.Sprintf("%x\r\n%s\r\n", whole, body[:whole])...)
					for rest := body[whole:]; len(rest) > 0; {
						n := min(len(rest), 4000)
						msg = append(msg, fmt.Sprintf("%x\r\n%s\r\n", n, rest[:n])...)
						rest = rest[n:]
					}
					msg = append(msg, "0\r\n\r\n"...)
				} else {
					hdr += fmt.Sprintf("Content-Length: %d\r\n\r\n", len(body))
					headLen = len(hdr)
					msg = append([]byte(hdr), body...)
				}
				// cut: somewhere in the last bytes, in the body, in the head; or not at all
				var cut int
				switch v := int(o.A); v % 5 {
				case 0:
					cut = len(msg)
				case 1:
					cut = len(msg) - 1 - v/5%min(8, len(msg)-headLen-1)
				case 2:
					cut = headLen + v/5*131%(len(msg)-headLen)
				case 3:
					cut = v / 5 * 7 % headLen
				case 4:
					cut = len(msg) - 1
					if len(body) > whole && !chunked {
						cut = headLen + whole
					}
				}
				complete := cut == len(msg)
				c, err := e.Net.DialRaw(f.port)
				if err != nil {
					e.Fail("refused", "dial: %v", err)
				}
				t0 := time.Now()
				_, werr := c.Write(msg[:cut])
				ending := o.B >> 1
				if complete {
					ending = 5
				}
				switch ending {
				case 0:
					e.Fault("client_close")
					c.Close()
				case 1:
					e.Fault("client_reset")
					time.Sleep(ms(o.A))
					c.Reset()
					c.Close()
				case 2:
					e.Fault("client_half_close")
					_ = c.CloseWrite()
				case 3:
					e.Fault("client_stall") // never sends the rest
				case 4:
					e.Fault("client_drip")
					e.Go("drip", func() {
						for j := 0; cut+j+1 < len(msg) && j < 30; j++ { // never completes
							time.Sleep(ms(7000))
							if _, err := c.Write(msg[cut+j : cut+j+1]); err != nil {
								return
							}
						}
					})
				}
				if ending >= 2 {
					// the server ends it: an answer, or the end of the connection
					_ = c.SetReadDeadline(time.Now().Add(30 * time.Minute))
					rc := &rawConn{c, bufio.NewReader(c)}
					res, rb, err := rc.response("POST")
					el := time.Since(t0)
					if err != nil && strings.Contains(err.Error(), "timeout") {
						e.Fail("unanswered", "request %d (%s, %d of %d bytes sent): neither answered nor disconnected after %s", id, path, cut, len(msg), el)
					}
					hops := 8 + (len(msg)+5000)/e.Net.Cfg.Window
					if lim := 30*time.Second + e.Slack() + time.Duration(hops)*ms(p.Knob("maxdelay")) + time.Second; !complete && p.Knob("stall") == 0 && el > lim {
						e.Fail("late", "request %d (%s, %d of %d bytes sent): answered or disconnected only after %s", id, path, cut, len(msg), el)
					}
					if complete {
						if (err != nil || res.StatusCode != 200) && el < 1500*time.Millisecond {
							e.Fail("refused", "request %d was complete: %v %+v", id, err, res)
						}
						if err == nil && res.StatusCode == 200 {
							e.Probe("complete")
							if lab.n(id) != 1 {
								e.Fail("not-executed", "request %d was answered, and executed %d times", id, lab.n(id))
							}
						}
					} else if err == nil && res.StatusCode < 400 {
						e.Fail("accepted", "request %d (%s), of which %d of %d bytes were sent, is answered with %d: %.100q", id, path, cut, len(msg), res.StatusCode, rb)
					}
					if ending == 3 && err == nil {
						e.Probe("answered_in_stall")
					}
					c.Close()
				}
				if !complete {
					e.Probe("truncated")
				}
				_ = werr
				if !complete && lab.n(id) != 0 {
					e.Fail("executed", "request %d (%s) was executed with %d of %d bytes received", id, path, cut, len(msg))
				}
			}
		})
	}
	e.Join(24*time.Hour, "stuck", "clients")
	calm(e)
	noServerLeft(e, f)
	// nothing truncated may have been executed later either
	for _, t := range ids {
		first := 1
		for _, u := range ids {
			if u == t {
				break
			}
			first += len(byTask[u])
		}
		for i, o := range byTask[t] {
			if first+i < 250 && int(o.A)%5 != 0 && lab.n(first+i) != 0 {
				e.Fail("executed", "request %d was executed although never sent completely", first+i)
			}
		}
	}
	e.Ev("done %d", next)
}

// pathID is the number in the user agent of the request being served.
func pathID(c ctx.C) (id string) {
	_ = ctx.RangeTag(c, func(k string, j ctx.JSON) error {
		if k == "ua" {
			id = strings.TrimSuffix(strings.TrimPrefix(string(j), `"sim-`), `"`)
		}
		return nil
	})
	return
}

// --- C07: no client can take the server down ------------------------------------------

var hostile = []string{
	"garbage", "bighead", "manyhead", "method", "path", "upgrade", "expect", "smuggle", "metrics", "deep", "types", "wsframe", "wsjson", "wsrpc", "wsdrop", "idle", "trace", "preface",
}

func genC07(r *Rng) *Plan {
	p := &Plan{Knobs: map[string]int64{}}
	netKnobs(r, p.Knobs, false)
	p.Knobs["maxdelay"] = min(p.Knobs["maxdelay"], 400)
	for t := 1; t <= 1+r.N(5); t++ {
		for i, n := 0, 1+r.N(4); i < n; i++ {
			p.Ops = append(p.Ops, Op{T: t, K: pick(r, hostile...), A: r.I(1 << 30), B: r.I(5), C: pick(r, int64(0), 100, 20000)})
		}
	}
	if r.P(1, 12) { // many of one kind, or even of one message
		k, a := pick(r, hostile...), r.I(1<<30)
		n := 10 + r.N(30)
		if r.P(1, 3) {
			n = 70 + r.N(230)
			k = pick(r, "upgrade", "upgrade", "upgrade", "upgrade", "wsjson", "wsrpc", "wsdrop", "expect", "types", "method", "smuggle")
		}
		b := pick(r, int64(-1), -1, r.I(5))
		for i := n; i >= 0; i-- {
			o := Op{T: 1 + i%4, K: k, A: a, B: b, C: pick(r, int64(0), 100)}
			if n%2 == 0 {
				o.A = r.I(1 << 30)
			}
			if b < 0 {
				o.B = r.I(5)
			}
			if k == "deep" && i > 4 {
				continue // 30 of them take gigabytes
			}
			p.Ops = append(p.Ops, o)
		}
	}
	return p
}

// wsHandshake upgrades a raw connection.
func (r *rawConn) wsHandshake(path string) error {
	_, err := r.c.Write([]byte("GET " + path + " HTTP/1.1\r\nHost: sim\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nOrigin: http://sim/\r\nSec-WebSocket-Version: 13\r\n\r\n"))
	if err != nil {
		return err
	}
	return r.wsAccepted()
}

func (r *rawConn) wsAccepted() error {
	res, err := http.ReadResponse(r.br, &http.Request{Method: "GET"})
	if err != nil {
		return err
	}
	if res.StatusCode != 101 {
		return fmt.Errorf("handshake: status %d", res.StatusCode)
	}
	return nil
}

// wsFrame encodes a client frame.
func wsFrame(op byte, fin bool, payload []byte) []byte {
	b := []byte{op}
	if fin {
		b[0] |= 0x80
	}
	switch n := len(payload); {
	case n <= 125:
		b = append(b, 0x80|byte(n))
	case n < 65536:
		b = append(b, 0x80|126, byte(n>>8), byte(n))
	default:
		b = append(b, 0x80|127, 0, 0, 0, 0, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	}
	mask := [4]byte{1, 2, 3, 4}
	b = append(b, mask[:]...)
	for i, x := range payload {
		b = append(b, x^mask[i%4])
	}
	return b
}

func hostileBytes(o Op) [][]byte {
	r := NewRng(uint64(o.A))
	rnd := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.U())
		}
		return b
	}
	post := func(path string, body string) []byte {
		return reqBytes("POST", path, "Content-Type: application/json\r\n", []byte(body))
	}
	switch o.K {
	case "garbage":
		return [][]byte{rnd(1 + r.N(3000))}
	case "bighead":
		return [][]byte{[]byte("GET /live HTTP/1.1\r\nHost: x\r\nX-Big: " + strings.Repeat("a", 100+r.N(1200000)) + "\r\n\r\n")}
	case "manyhead":
		return [][]byte{[]byte("GET /live HTTP/1.1\r\nHost: x\r\n" + strings.Repeat("A: b\r\n", r.N(3000)) + "\r\n")}
	case "method":
		return [][]byte{reqBytes(pick(r, "GET", "HEAD", "OPTIONS", "CONNECT", "BREW", "PRI", "POST", "PUT"), pick(r, "/api/echo", "/raw?0", "/call", "/ws", "/metrics", "/ready", "/openapi.json", "*"), "", nil)}
	case "path":
		return [][]byte{reqBytes("GET", pick(r, "/../../etc/passwd", "//", "/%00", "/%zz", "/"+strings.Repeat("a/", 5000), "/api/echo/", "http://other/live", "/\xff\xfe", "/a b", "", "/live?"+strings.Repeat("x", 9000)), pick(r, "", "User-Agent: \xff\"\\\r\n"), nil)}
	case "upgrade":
		h := []string{"Upgrade", "dGhlIHNhbXBsZSBub25jZQ==", "http://x/", "13", "websocket"}
		for i := r.N(3) / 2; i >= 0; i-- { // one thing is wrong, or two
			switch r.N(8) {
			case 0:
				h[0] = pick(r, "close", "", "keep-alive")
			case 1:
				h[1] = pick(r, "", "short", strings.Repeat("k", 3000))
			case 2:
				h[3] = pick(r, "8", "x", "")
			case 3:
				h[4] = pick(r, "h2c", "", "WEBSOCKET, x")
			default:
				h[2] = pick(r, "%%", ":", "null", "", "\x01", "//", strings.Repeat("/", 3000))
			}
		}
		return [][]byte{[]byte("GET " + pick(r, "/ws", "/plain") + " HTTP/1.1\r\nHost: x\r\nUpgrade: " + h[4] + "\r\nConnection: " + h[0] + "\r\nSec-WebSocket-Key: " + h[1] + "\r\nOrigin: " + h[2] + "\r\nSec-WebSocket-Version: " + h[3] + "\r\n\r\n")}
	case "expect":
		return [][]byte{[]byte("POST /api/echo HTTP/1.1\r\nHost: x\r\nExpect: " + pick(r, "100-continue", "200-maybe") + "\r\nContent-Length: 30\r\n\r\n")}
	case "smuggle":
		return [][]byte{[]byte("POST /api/echo HTTP/1.1\r\nHost: x\r\n" + pick(r, "Content-Length: -1\r\n", "Content-Length: 5\r\nContent-Length: 6\r\n", "Transfer-Encoding: chunked\r\nContent-Length: 3\r\n", "Transfer-Encoding: gzip\r\n", "Content-Length: 99999999999999999999\r\n", "Transfer-Encoding: chunked\r\n") + "\r\n" + pick(r, "zz\r\n", "ffffffffffffffffff\r\n", "5\r\nabc", "0\r\nX: y\r\n\r\n", "3\r\n{}\n\r\n0\r\n\r\n"))}
	case "metrics":
		var out [][]byte
		for i := r.N(4); i >= 0; i-- {
			out = append(out, reqBytes("GET", "/metrics", "", nil))
		}
		return out
	case "deep":
		n := pick(r, 100, 1000, 3000)
		return [][]byte{post("/api/echo", `{"id":1,"bag":`+strings.Repeat(`{"a":`, n)+"1"+strings.Repeat("}", n)+"}")}
	case "types":
		v := pick(r, `"x"`, `1e999`, `-0`, `1.5`, `[]`, `{}`, `null`, `true`, `123456789012345678901234567890`, `"\ud800"`, `{"":{"":[]}}`, `[[[]]]`, `"2020"`, "\"\xff\"")
		return [][]byte{post("/api/any", `{"id":`+fmt.Sprint(200+r.N(50))+`,"`+pick(r, "i", "u8", "f", "s", "l", "m", "t", "p", "st", "n", "b", "raw", "arr", "by", "d")+`":`+v+`}`)}
	case "preface":
		return [][]byte{[]byte("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n"), rnd(50)}
	case "trace":
		return [][]byte{[]byte("\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03"), rnd(300)}
	case "wsframe":
		var out [][]byte
		for i := 1 + r.N(4); i > 0; i-- {
			op := pick(r, byte(0), 1, 2, 3, 7, 8, 9, 10, 15)
			f := wsFrame(op|byte(r.N(8))<<4*byte(r.N(2)), r.P(3, 4), rnd(r.N(200)))
			if r.P(1, 6) { // absurd length
				f = append([]byte{0x81, 0xff}, rnd(r.N(12))...)
			}
			if r.P(1, 6) { // unmasked
				f = append([]byte{0x81, 3}, "123"...)
			}
			out = append(out, f)
		}
		return out
	case "wsjson", "wsrpc":
		var out [][]byte
		for i := 1 + r.N(5); i > 0; i-- {
			ch := pick(r, "", "a", "a", "b")
			v := pick(r, `1`, `"x"`, `{}`, `[]`, `null`, `{"id":1}`, `"`+strings.Repeat("y", int(o.C))+`"`)
			j := pick(r,
				`{"channel":"`+ch+`","type":"`+pick(r, "open", "new", "close", "", "data", "return")+`","path":"`+pick(r, "victim", "poke", "boom", "nope", "init", "")+`","data":`+v+`}`,
				v, `{"type":1}`, `{"channel":{}}`, `{`, ``, `{"path":"poke","channel":"a"}`, `{"channel":"a","path":"boom","data":`+v+`}`, `{"channel":"a","type":"open","path":"victim"}`)
			out = append(out, wsFrame(1, true, []byte(j)))
		}
		return out
	case "wsdrop":
		f := wsFrame(1, true, []byte(`{"channel":"a","type":"open","path":"victim","data":"x"}`))
		return [][]byte{f[:r.N(len(f))]}
	}
	return nil
}

type apiAny struct {
	R   api.Request `url:"/api/any"`
	Lab *apiLab
	ID  int               `api:"in,required" json:"id"`
	I   int               `api:"both" json:"i"`
	U8  uint8             `api:"both" json:"u8"`
	F   float64           `api:"both" json:"f"`
	S   string            `api:"both" json:"s"`
	L   []int             `api:"both" json:"l"`
	M   map[string]string `api:"both" json:"m"`
	T   time.Time         `api:"both" json:"t"`
	P   *int              `api:"both" json:"p"`
	St  struct{ A []any } `api:"both" json:"st"`
	N   any               `api:"both" json:"n"`
	B   bool              `api:"both" json:"b"`
	Raw json.RawMessage   `api:"both" json:"raw"`
	Arr [2]int            `api:"both" json:"arr"`
	By  []byte            `api:"both" json:"by"`
	D   time.Duration     `api:"both" json:"d"`
}

func (o *apiAny) Do(c ctx.C) error { return nil }

func runC07(e *Env, p *Plan) {
	applyNet(e, p)
	lab := newAPILab(e, 2048)
	f := newHTTP(e, func(c ctx.C, s *fhttp.Server) {
		s.MustRegisterAPI(c, &apiEcho{Lab: lab, Limit: 7})
		s.MustRegisterAPI(c, &apiAny{Lab: lab})
		s.HandleRequest("/raw", func(c ctx.C, in []byte, r *http.Request) ([]byte, error) { return in, nil })
		fhttp.CallHandler{Path: "/call", Handler: func(c ctx.C, call *fhttp.Call) error { call.Write([]byte("ok")); return nil }}.Register(s)
		s.SetupPrometheus(c, "")
		h := &ws.RpcHandler{}
		h.MustRegister(c, &Victim{})
		s.Handle("/ws", h.Server())
		s.Handle("/plain", ws.Handler{OnData: func(c ctx.C, conn *ws.Conn, n enc.Node) error { return conn.Send(c, n) }}.Server())
	})
	stop := make(chan struct{})
	ids, byTask := p.ByTask()
	for _, t := range ids {
		t, ops := t, byTask[t]
		e.Go(fmt.Sprintf("hostile%d", t), func() {
			for _, o := range ops {
				rc, err := dialRaw(e, f.port)
				if err != nil {
					e.Fail("refused", "dial: %v", err)
				}
				e.Fault("hostile_" + o.K)
				if strings.HasPrefix(o.K, "ws") {
					path := "/ws"
					if o.A&1 == 0 && o.K != "wsrpc" {
						path = "/plain"
					}
					_ = rc.c.SetReadDeadline(time.Now().Add(time.Hour))
					if err := rc.wsHandshake(path); err != nil {
						rc.c.Close()
						continue
					}
				}
				_ = rc.c.SetWriteDeadline(time.Now().Add(10 * time.Minute)) // it does not read, so the server may not either
				for _, b := range hostileBytes(o) {
					if _, err := rc.c.Write(b); err != nil {
						break
					}
				}
				switch o.B {
				case 0:
					rc.c.Reset()
					rc.c.Close()
				case 1:
					_ = rc.c.CloseWrite()
					fallthrough
				case 2:
					_ = rc.c.SetReadDeadline(time.Now().Add(time.Minute))
					_, _ = io.Copy(io.Discard, rc.c)
					rc.c.Close()
				case 3:
					rc.c.Close()
				case 4: // stays until the end, reading nothing
					e.Fault("stuck_client")
					go func() { <-stop; rc.c.Close() }()
				}
			}
		})
	}
	// Meanwhile, and afterwards, others are served.
	next := 1
	good := func(what, kind string) {
		id := next
		next++
		text := fmt.Sprintf("g%d", id)
		t0 := time.Now()
		rc, err := dialRaw(e, f.port)
		if err != nil {
			e.Fail("refused", "%s: dial: %v", what, err)
		}
		defer rc.c.Close()
		_ = rc.c.SetReadDeadline(time.Now().Add(time.Hour))
		slow := func() bool { // its 30 seconds were over
			return time.Since(t0) > 20*time.Second && time.Since(t0) < 50*time.Minute
		}
		if strings.HasPrefix(kind, "ws") {
			path, msgs := "/plain", []string{`{"text":"` + text + `"}`}
			if kind == "wsrpc" {
				path, msgs = "/ws", []string{`{"channel":"` + text + `","type":"open","path":"victim","data":"x"}`, `{"channel":"` + text + `","path":"poke","data":{}}`, `{"channel":"` + text + `","path":"poke","data":{}}`}
			}
			if err := rc.wsHandshake(path); err != nil {
				if slow() {
					return
				}
				e.Fail("unserved", "%s: an ordinary websocket can't connect: %v", what, err)
			}
			for _, m := range msgs {
				if _, err := rc.c.Write(wsFrame(1, true, []byte(m))); err != nil {
					e.Fail("unserved", "%s: an ordinary websocket can't send: %v", what, err)
				}
			}
			peer := &wsPeer{e, rc, what}
			for i := 1; ; {
				_, b, err := peer.frame()
				if err != nil {
					e.Fail("unserved", "%s: an ordinary websocket (%s) waits for its answer and gets: %v", what, path, err)
				}
				var got struct {
					Text, Channel, Path string
					Data                any
				}
				_ = json.Unmarshal(b, &got)
				if kind == "ws" && got.Text == text {
					break
				}
				if kind == "wsrpc" && got.Path == "poked" {
					if got.Channel != text || got.Data != float64(i) {
						e.Fail("unserved", "%s: call %d of an ordinary websocket, channel %s, is answered with %s", what, i, text, b)
					}
					if i++; i > 2 {
						break
					}
				}
			}
			if time.Since(t0) > 50*time.Minute {
				e.Fail("unserved", "%s: an ordinary websocket is answered after %s", what, time.Since(t0))
			}
			e.Probe("good_" + kind)
			return
		}
		method, path, body, want := "POST", "/api/echo", fmt.Sprintf(`{"id":%d,"text":%q}`, id, text), strings.ToUpper(text)
		switch kind {
		case "any":
			path, body, want = "/api/any", fmt.Sprintf(`{"id":%d,"s":%q,"l":[1,2]}`, id, text), text
		case "raw":
			path, body, want = "/raw", text, text
		case "call":
			path, body, want = "/call", text, "ok"
		case "metrics":
			method, path, body, want = "GET", "/metrics", "", "go_info"
		}
		res, out, err := rc.do(method, path, "", []byte(body))
		if (err != nil || res.StatusCode != 200) && slow() {
			return
		}
		if err != nil || res.StatusCode != 200 || !bytes.Contains(out, []byte(want)) {
			e.Fail("unserved", "%s: an ordinary request of %s fails: %v %+v %.200q", what, path, err, res, out)
		}
		e.Probe("good_" + kind)
	}
	kinds := []string{"echo", "wsrpc", "raw", "ws", "call", "any", "metrics"}
	turn := int(p.Knob("maxdelay")) + len(p.Ops)
	for i := 0; i < 4 && len(e.Pending()) > 0; i++ {
		good("while others misbehave", kinds[(turn+i)%len(kinds)])
		time.Sleep(ms(int64(i * 100)))
	}
	e.Join(24*time.Hour, "stuck", "hostile clients")
	good("after others misbehaved", kinds[turn%len(kinds)])
	close(stop)
	calm(e)
	for _, k := range kinds {
		good("after all faults", k)
	}
	noServerLeft(e, f)
	shutdown.Begin()
	if !recvTimeout(shutdown.Done(), 20*time.Minute) {
		e.Fail("hold-leak", "the shutdown does not complete although all clients are gone\n%s", foregoStacks())
	}
	e.Ev("done")
}

// Victim is a websocket object with a method that panics.
type Victim struct{ N int }

func (v *Victim) Init(c ws.C, in any) error {
	if in == nil {
		return errors.New("no init data")
	}
	return nil
}
func (v *Victim) Poke(c ws.C, in map[string]any) error { v.N++; return c.Reply("poked", v.N) }
func (v *Victim) Boom(c ws.C) error                    { panic("boom") }

// --- C30: CallHandler ------------------------------------------------------------------

func genC30(r *Rng) *Plan {
	p := &Plan{Knobs: map[string]int64{"timeout": pick(r, int64(0), 500, 3000), "max": pick(r, int64(0), 1, 1000, 20000)}}
	netKnobs(r, p.Knobs, false)
	p.Knobs["maxdelay"] = min(p.Knobs["maxdelay"], 400)
	for t := 1; t <= 1+r.N(5); t++ {
		for i, n := 0, 1+r.N(4); i < n; i++ {
			p.Ops = append(p.Ops, Op{T: t, K: pick(r, "ok", "ok", "ok", "slow", "latebody", "cut", "err", "errbody", "over", "exact", "get"),
				A: pick(r, int64(0), 1, 500, 9000, 70000), B: r.I(900), C: r.I(6)})
		}
	}
	if r.P(1, 30) { // a large answer
		p.Knobs["huge"], p.Knobs["window"], p.Knobs["maxdelay"] = 1+r.I(int64(len(p.Ops))), 64<<10, min(p.Knobs["maxdelay"], 20)
	}
	if r.P(1, 24) { // many of one kind
		k := pick(r, "ok", "cut", "err", "errbody", "over", "exact")
		for i := 10 + r.N(30); i >= 0; i-- {
			p.Ops = append(p.Ops, Op{T: 1 + i%4, K: k, A: pick(r, int64(0), 1, 500), B: r.I(20), C: r.I(6)})
		}
	}
	return p
}

func runC30(e *Env, p *Plan) {
	applyNet(e, p)
	lab := newAPILab(e, 256)
	timeout := ms(p.Knob("timeout"))
	limit := int(p.Knob("max"))
	outOf := func(id int) []byte {
		if p.Knob("huge") == int64(id) {
			return pattern(id, 1200000)
		}
		return pattern(id, id*37%5000)
	}
	ops := map[int]Op{}
	f := newHTTP(e, func(c ctx.C, s *fhttp.Server) {
		fhttp.CallHandler{Path: "/call", ReadTimeout: timeout, MaxLength: limit, Handler: func(c ctx.C, call *fhttp.Call) error {
			id, _ := strconv.Atoi(pathID(c))
			lab.exec(id)
			o := ops[id]
			dl, ok := c.Deadline()
			want := timeout
			if want == 0 {
				want = 30 * time.Second
			}
			if !ok || time.Until(dl) > want {
				e.Fail("deadline", "call %d has deadline %v %s from now; the read timeout is %s", id, ok, time.Until(dl), want)
			}
			out := outOf(id)
			if o.C == 1 {
				call.Write([]byte("to be replaced"))
				call.SetBody(append([]byte(nil), out...))
			} else {
				for len(out) > 0 {
					n := min(len(out), 700)
					if len(out) > 5000 {
						n = 5000
					}
					call.Write(out[:n])
					out = out[n:]
					if len(out) < 5000 {
						time.Sleep(ms(o.B % 20))
					}
				}
			}
			switch o.K {
			case "err":
				return errors.New("s3cret")
			case "errbody":
				return fhttp.NewErrorf(c, 409, "s3cret")
			}
			return nil
		}}.Register(s)
	})
	max := limit
	if max == 0 {
		max = 1 << 20
	}
	ids, byTask := p.ByTask()
	next := 1
	for _, t := range ids {
		for _, o := range byTask[t] {
			ops[next] = o
			next++
		}
	}
	first := 1
	for _, t := range ids {
		t, list, first0 := t, byTask[t], first
		first += len(list)
		if first > 250 {
			break
		}
		e.Go(fmt.Sprintf("client%d", t), func() {
			for i, o := range list {
				id := first0 + i
				size := int(o.A)
				switch o.K {
				case "over":
					size = max + 1 + int(o.B)
				case "exact":
					size = max
				default:
					size = min(size, max)
				}
				if size > 300000 {
					size = max // keep it affordable: one in a few is that large
					if o.K == "over" {
						size++
					}
				}
				body := bytes.Repeat([]byte("b"), size)
				method := "POST"
				if o.K == "get" {
					method, body = "GET", nil
				}
				hdr := fmt.Sprintf("User-Agent: sim-%d\r\n", id)
				msg := reqBytes(method, "/call", hdr, body)
				if o.C&2 != 0 && body != nil { // unknown length
					var b bytes.Buffer
					fmt.Fprintf(&b, "%s /call HTTP/1.1\r\nHost: sim\r\n%sTransfer-Encoding: chunked\r\n\r\n", method, hdr)
					for rest := body; len(rest) > 0; {
						n := min(len(rest), 5000)
						fmt.Fprintf(&b, "%x\r\n%s\r\n", n, rest[:n])
						rest = rest[n:]
					}
					b.WriteString("0\r\n\r\n")
					msg = b.Bytes()
				}
				rc, err := dialRaw(e, f.port)
				if err != nil {
					e.Fail("refused", "dial: %v", err)
				}
				t0 := time.Now()
				lim := timeout
				if lim == 0 {
					lim = 30 * time.Second
				}
				// what the network and slow tasks may add
				hops := 8 + (len(msg)+5000)/e.Net.Cfg.Window
				if p.Knob("huge") != 0 {
					hops += 1200000 / e.Net.Cfg.Window
				}
				slack := e.Slack() + time.Duration(hops)*ms(p.Knob("maxdelay")) + time.Second
				part := len(msg)
				if (o.K == "slow" || o.K == "latebody" || o.K == "cut") && len(body) > 0 {
					part = len(msg) - min(len(body), 1+int(o.B)) // at least the last byte is missing
					if o.C&2 != 0 {
						part = len(msg) - 5
					}
				}
				go func() {
					_, _ = rc.c.Write(msg[:part])
					if o.K == "latebody" && part < len(msg) { // when it no longer counts
						time.Sleep(lim + slack)
						e.Fault("late_body")
						_, _ = rc.c.Write(msg[part:])
					}
					if o.K == "cut" && part < len(msg) {
						e.Fault("client_half_close")
						_ = rc.c.CloseWrite()
					}
				}()
				_ = rc.c.SetReadDeadline(time.Now().Add(time.Hour))
				res, got, err := rc.response(method)
				el := time.Since(t0)
				if err != nil && el > 59*time.Minute {
					e.Fail("unanswered", "call %d (%s): no answer and not disconnected", id, o.K)
				}
				if el > lim+slack {
					e.Fail("late", "call %d (%s): ended after %s, its timeout is %s", id, o.K, el, lim)
				}
				code := 0
				if err == nil {
					code = res.StatusCode
				}
				if strings.Contains(string(got), "s3cret") {
					e.Fail("leak", "call %d: the response reveals an internal error", id)
				}
				ontime := el < lim*3/4 && el < 20*time.Second
				n := lab.n(id)
				switch {
				case part < len(msg):
					e.Probe("incomplete")
					if n != 0 || code != 0 && code < 400 {
						e.Fail("executed", "call %d: handled (%d times, status %d) without its complete body", id, n, code)
					}
				case size > max:
					e.Probe("oversized")
					if n != 0 || code != 0 && code < 400 {
						e.Fail("oversized", "call %d: a body of %d bytes was accepted (%d times, status %d), the maximum is %d", id, size, n, code, max)
					}
				case o.K == "err" || o.K == "errbody":
					want := 500
					if o.K == "errbody" {
						want = 409
					}
					if code != want && ontime || code != 0 && code < 400 {
						e.Fail("status", "call %d failed with %d, the response has %d (%v)", id, want, code, err)
					}
					if len(got) != 0 {
						e.Fail("garbled", "call %d failed and the response has a body: %.100q", id, got)
					}
				default:
					want := outOf(id)
					wc := 200
					if len(want) == 0 {
						wc = 204
					}
					if code == wc {
						e.Probe("answered")
						if !bytes.Equal(got, want) || n != 1 {
							e.Fail("mixed", "call %d (executed %d times): the response does not belong to it: %.100q", id, n, got)
						}
					} else if ontime || code != 0 && code < 400 {
						e.Fail("status", "call %d (%s): %v, status %d after %s", id, o.K, err, code, el)
					}
				}
				rc.c.Close()
			}
		})
	}
	e.Join(24*time.Hour, "stuck", "calls")
	calm(e)
	noServerLeft(e, f)
	e.Ev("done %d", next)
}
