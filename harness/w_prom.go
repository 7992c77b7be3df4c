package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/Aize-Public/forego/utils/prom"
)

// C19: metrics under concurrent observation and scraping. Observation number i
// has value 4^i or -4^i (for counters and histograms possibly divided by 64), so
// that every scraped sum identifies exactly which observations it contains.
func init() {
	register(&Workload{ID: "C19", Gen: func(r *Rng) *Plan {
		tasks := r.Range(2, 6)
		p := &Plan{Knobs: map[string]int64{"series": pick(r, int64(1), 2, 3, 11), "off": int64(r.N(len(promPairs))), "frac": int64(r.N(2)), "gauge": int64(r.N(4) / 3), "many": pick(r, int64(0), 0, 0, 0, 0, 0, 0, 300), "wstall": int64(r.N(3) / 2), "werr": int64(r.N(4) / 3), "http": int64(r.N(4) / 3)}}
		n := r.Range(4, 24)
		for i := 0; i < n; i++ {
			o := Op{T: r.N(tasks), A: r.I(p.Knobs["series"]), B: pick(r, int64(0), 0, 1, 20)}
			switch r.N(10) {
			case 0, 1, 2:
				o.K = "hist"
				o.C = r.I(2) // negative
			case 3, 4:
				o.K = "count"
				o.C = int64(r.N(4) / 3)
			case 5, 6:
				o.K = pick(r, "inc", "dec")
			default:
				o.K = "scrape"
				if r.P(1, 5) {
					o.K = "since"
				}
			}
			p.Ops = append(p.Ops, o)
		}
		return p
	}, Run: runC19})
	register(&Workload{ID: "C19reg", Gen: func(r *Rng) *Plan {
		tasks := r.Range(2, 5)
		p := &Plan{Knobs: map[string]int64{"wstall": int64(r.N(3) / 2)}}
		n := r.Range(3, 14)
		for i := 0; i < n; i++ {
			p.Ops = append(p.Ops, Op{T: r.N(tasks), K: pick(r, "reg", "reg", "same", "scrape", "scrape", "scrape", "func", "func", "unfunc"), A: r.I(3)})
		}
		return p
	}, Run: runC19reg})
}

type obs struct {
	kind       string // hist count gauge
	series     int
	val        float64
	start, end int64
}

// series parsed from one scrape of one metric
type promSample struct {
	name   string
	labels string // canonical
	lab    map[string]string
	val    float64
}

// canon is the same for equal sets of labels; bounds of buckets are compared as numbers.
func canon(lab map[string]string) string {
	var l []string
	for k, v := range lab {
		if k == "le" {
			f, err := strconv.ParseFloat(v, 64)
			if err == nil {
				v = fmt.Sprint(f)
			}
		}
		l = append(l, fmt.Sprintf("%s=%q", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

// promLabels reads the labels of a sample as the text exposition format has
// them: any UTF-8 in the value, with \\, \" and \n as the only escapes.
func promLabels(s string) (lab map[string]string, rest string, err error) {
	bad := func(what string) (map[string]string, string, error) {
		return nil, "", fmt.Errorf("%s in the labels {%s", what, s)
	}
	lab = map[string]string{}
	i := 0
	for {
		if i < len(s) && s[i] == '}' {
			return lab, s[i+1:], nil
		}
		j := i
		for j < len(s) && (s[j] == '_' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || j > i && s[j] >= '0' && s[j] <= '9') {
			j++
		}
		k := s[i:j]
		if k == "" || !strings.HasPrefix(s[j:], `="`) {
			return bad("no name and value")
		}
		if _, dup := lab[k]; dup {
			return bad("a duplicate name")
		}
		var v []byte
		for i = j + 2; ; i++ {
			if i >= len(s) || s[i] == '\n' {
				return bad("an open string")
			}
			if s[i] == '"' {
				i++
				break
			}
			if s[i] != '\\' {
				v = append(v, s[i])
				continue
			}
			i++
			if i >= len(s) {
				return bad("an open string")
			}
			switch s[i] {
			case '\\', '"':
				v = append(v, s[i])
			case 'n':
				v = append(v, '\n')
			default:
				return bad(fmt.Sprintf("an invalid escape \\%c", s[i]))
			}
		}
		if !utf8.Valid(v) {
			return bad("invalid UTF-8")
		}
		lab[k] = string(v)
		if i < len(s) && s[i] == ',' {
			i++
		} else if i >= len(s) || s[i] != '}' {
			return bad("garbage after a value")
		}
	}
}

func parseProm(text string) (help, typ map[string]int, out []promSample, err error) {
	help, typ = map[string]int{}, map[string]int{}
	if text != "" && !strings.HasSuffix(text, "\n") {
		return nil, nil, nil, fmt.Errorf("the last line is cut: %q", text)
	}
	seen := map[string]bool{}
	for _, l := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "# ") {
			f := strings.SplitN(l, " ", 4)
			if len(f) < 3 {
				return nil, nil, nil, fmt.Errorf("bad comment %q", l)
			}
			switch f[1] {
			case "HELP":
				help[f[2]]++
			case "TYPE":
				typ[f[2]]++
				if len(f) == 4 {
					typ[f[2]+" "+f[3]]++
				}
			}
			continue
		}
		i := strings.IndexAny(l, "{ ")
		if i < 0 {
			return nil, nil, nil, fmt.Errorf("bad line %q", l)
		}
		s := promSample{name: l[:i]}
		val := l[i:]
		if val[0] == '{' {
			if s.lab, val, err = promLabels(val[1:]); err != nil {
				return nil, nil, nil, err
			}
			s.labels = canon(s.lab)
		}
		if s.val, err = strconv.ParseFloat(strings.TrimPrefix(val, " "), 64); err != nil || !strings.HasPrefix(val, " ") {
			return nil, nil, nil, fmt.Errorf("bad value in %q", l)
		}
		if seen[s.name+"{"+s.labels] {
			return nil, nil, nil, fmt.Errorf("duplicate sample %q", l)
		}
		seen[s.name+"{"+s.labels] = true
		out = append(out, s)
	}
	return
}

type stallWriter struct {
	e     *Env
	buf   bytes.Buffer
	stall bool
	fail  bool
	n     int
}

var errWriter = errors.New("client gone")

func (w *stallWriter) Write(b []byte) (int, error) {
	w.n++
	if w.fail && w.e.Flip(1, 6) {
		w.e.Fault("scrape_write_error")
		return 0, errWriter
	}
	if w.stall && w.e.Flip(1, 4) {
		w.e.Fault("scrape_stall")
		time.Sleep(10 * time.Hour)
	}
	return w.buf.Write(b)
}

func (w *stallWriter) Header() http.Header { return http.Header{} }
func (w *stallWriter) WriteHeader(int)     {}

var promBuckets = []float64{-3000, -1, 0, .25, 1, 5, 100, 4096, 1 << 20}

// different pairs which something careless may take for the same
var promPairs = [][]string{{"plain", ""}, {"a,b", "c"}, {"a\"b\\c,d=\"", "x{y} z\n\té\x01"}, {"", "plain"}, {"a", "b,c"}, {"a,", "b,c"}, {"a|b", "c"}, {"a", "b|c"}, {"plain", "\",t=\""}, {" plain", ""}, {"Plain", ""}, {strings.Repeat("long ", 60) + "1", ""}, {strings.Repeat("long ", 60) + "2", ""}}

func runC19(e *Env, p *Plan) {
	h := &prom.Histogram{Desc: "hist", Buckets: promBuckets, Labels: []string{"s", "t"}}
	ct := &prom.Counter{Name: "cnt", Desc: "counter", Labels: []string{"s", "t"}, Gauge: p.Knob("gauge") == 1}
	g := &prom.Gauge{Desc: "gauge", Labels: []string{"s", "t"}}
	if p.Knob("http") == 1 {
		prom.Register("h", h)
		prom.Register("g", g)
	}
	off := int(p.Knob("off")) % len(promPairs)
	label := append(append([][]string(nil), promPairs[off:]...), promPairs[:off]...)
	lmap := func(i int) map[string]string {
		return map[string]string{"s": label[i%len(label)][0], "t": label[i%len(label)][1]}
	}
	scale := 1.0
	if p.Knob("frac") == 1 {
		scale = 1.0 / 64
	}
	// many other series, each observed once before all else
	many := int(p.Knob("many"))
	for i := 0; i < many; i++ {
		l := []string{fmt.Sprint("m", i), "x"}
		h.Observe(float64(i), l...)
		ct.Observe(float64(i), l...)
		g.Counter(l...).Inc(i)
	}
	lstr := func(i int) string { return canon(lmap(i)) }
	bucket := func(i int, le string) string {
		m := lmap(i)
		m["le"] = le
		return "h_bucket{" + canon(m) + "}"
	}
	all := NewL[obs](200)
	// the last accepted set per series: scrapes that follow each other must grow
	type seen struct {
		set uint64
		ret int64
	}
	var accepted [3][11]L[seen]
	for i := range accepted {
		for j := range accepted[i] {
			accepted[i][j] = *NewL[seen](len(p.Ops) + 1)
		}
	}
	kinds := map[string]int{"hist": 0, "count": 1, "gauge": 2}
	// verify one series of one scrape: set is a bit set of observation indices
	verify := func(kind string, series int, set uint64, call, ret int64) {
		for i, o := range all.All() {
			if o.kind != kind || o.series != series {
				if set&(1<<i) != 0 {
					e.Fail("alien", "scrape of %s series %d contains observation %d, made on another metric or series", kind, series, i)
				}
				continue
			}
			in := set&(1<<i) != 0
			if !in && o.end != 0 && o.end < call {
				e.Fail("lost", "scrape of %s series %d does not contain observation %d, which had returned before", kind, series, i)
			}
			if in && o.start > ret {
				e.Fail("future", "scrape of %s series %d contains observation %d of the future", kind, series, i)
			}
		}
		if set>>all.Len() != 0 {
			e.Fail("alien", "scrape of %s series %d contains observations nobody made: set %b", kind, series, set)
		}
		acc := &accepted[kinds[kind]][series]
		for _, a := range acc.All() {
			if a.ret < call && a.set&^set != 0 {
				e.Fail("regress", "scrape of %s series %d lost observations an earlier scrape had: %b then %b", kind, series, a.set, set)
			}
		}
		acc.Add(seen{set, ret})
		e.Ev("scrape %s/%d %b", kind, series, set)
	}
	// digits -1, 0, 1 in base 4
	decode := func(sum, scale float64, what string) (set uint64) {
		v := sum / scale
		if v != math.Trunc(v) || math.Abs(v) > 1<<52 {
			e.Fail("garbage", "%s: %v is no sum of observations", what, sum)
		}
		n := int64(v)
		for i := 0; n != 0 && i < 40; i++ {
			d := n & 3
			if d == 3 {
				d = -1
			}
			if d == 2 {
				e.Fail("garbage", "%s: %v is no sum of observations", what, sum)
			}
			if d != 0 {
				set |= 1 << i
				if i < all.Len() && (all.At(i).val < 0) != (d < 0) {
					e.Fail("garbage", "%s: observation %d counted with the wrong sign", what, i)
				}
			}
			n = (n - d) / 4
		}
		return
	}
	hs := &prom.Histogram{Desc: "since", Buckets: prom.DefaultBuckets}
	nSince := &N{}
	var sinceLo, sinceHi N    // bounds of the sum, in ns
	handler := prom.Handler() // one for everybody, as in a server
	scrape := func(id int, final bool) {
		w := &stallWriter{e: e}
		if !final {
			w.stall = p.Knob("wstall") == 1
			w.fail = p.Knob("werr") == 1
		}
		call := e.Seq()
		var err error
		if p.Knob("http") == 1 {
			handler(w, &http.Request{})
			if w.fail {
				return
			}
			err2 := ct.Print(w)
			if err2 != nil {
				e.Fail("scrape-error", "Print: %v", err2)
			}
		} else {
			for _, f := range []func(w io.Writer) error{
				func(w io.Writer) error { return h.Print("h", w) },
				func(w io.Writer) error { return ct.Print(w) },
				func(w io.Writer) error { return g.Print("g", w) },
			} {
				err = f(w)
				if err != nil {
					break
				}
			}
		}
		if err != nil {
			if err != errWriter {
				e.Fail("scrape-error", "Print: %v", err)
			}
			return
		}
		ret := e.Seq()
		help, typ, samples, err := parseProm(w.buf.String())
		if err != nil {
			e.Fail("format", "%v in\n%s", err, w.buf.String())
		}
		got := map[string]float64{}
		bases := map[string]bool{}
		for _, s := range samples {
			got[s.name+"{"+s.labels+"}"] = s.val
			for _, m := range []string{"h", "cnt", "g"} {
				if s.name == m || strings.HasPrefix(s.name, m+"_") && m == "h" {
					bases[m] = true
				}
			}
		}
		for m := range bases {
			if help[m] != 1 || typ[m] != 1 {
				e.Fail("format", "metric %s has %d HELP and %d TYPE lines", m, help[m], typ[m])
			}
			t := map[string]string{"h": "histogram", "g": "gauge", "cnt": "counter"}[m]
			if m == "cnt" && ct.Gauge {
				t = "gauge"
			}
			if typ[m+" "+t] != 1 {
				e.Fail("format", "metric %s is not declared as a %s", m, t)
			}
		}
		e.Probe("scrape")
		known := map[string]bool{}
		for s := 0; s < int(max(1, p.Knob("series"))); s++ {
			known[lstr(s)] = true
		}
		for i := 0; i < many; i++ {
			l := canon(map[string]string{"s": fmt.Sprint("m", i), "t": "x"})
			known[l] = true
			for _, n := range []string{"cnt", "g", "h_sum"} {
				if v, ok := got[n+"{"+l+"}"]; !ok || v != float64(i) {
					e.Fail("lost", "the scrape has %v (present %v) for %s{%s}, observed once as %d before it", v, ok, n, l, i)
				}
			}
		}
		for _, s := range samples {
			if n := s.name; (n == "cnt" || n == "g" || n == "h_sum" || n == "h_count") && !known[s.labels] {
				e.Fail("alien", "the scrape has %s{%s}, a series nobody observed", n, s.labels)
			}
		}
		for s := 0; s < int(max(1, p.Knob("series"))); s++ {
			l := "{" + lstr(s) + "}"
			// histogram
			sum, ok := got["h_sum"+l]
			cnt, ok2 := got["h_count"+l]
			inf, ok3 := got[bucket(s, "+Inf")]
			if ok != ok2 || ok != ok3 {
				e.Fail("format", "histogram series %d is incomplete: %s", s, w.buf.String())
			}
			set := uint64(0)
			if ok {
				set = decode(sum, scale, fmt.Sprintf("histogram series %d", s))
				n, per := 0, make([]int, len(promBuckets))
				for i := 0; i < 53; i++ {
					if set&(1<<i) != 0 && i < all.Len() {
						n++
						for b, le := range promBuckets {
							if all.At(i).val <= le {
								per[b]++
							}
						}
					}
				}
				if int(cnt) != n || int(inf) != n {
					e.Fail("inconsistent", "histogram series %d: sum %v is %d observations, count says %v, +Inf says %v", s, sum, n, cnt, inf)
				}
				for b, le := range promBuckets {
					v, ok := got[bucket(s, fmt.Sprint(le))]
					if !ok || int(v) != per[b] {
						e.Fail("inconsistent", "histogram series %d bucket %v: %v (present %v), want %d for sum %v", s, le, v, ok, per[b], sum)
					}
				}
			}
			verify("hist", s, set, call, ret)
			verify("count", s, decode(got["cnt"+l], scale, fmt.Sprintf("counter series %d", s)), call, ret)
			verify("gauge", s, decode(got["g"+l], 1, fmt.Sprintf("gauge series %d", s)), call, ret)
		}
	}
	ids, ops := p.ByTask()
	for _, id := range ids {
		id := id
		e.Go("task", func() {
			for _, o := range ops[id] {
				time.Sleep(time.Duration(o.B))
				s := int(o.A) % int(max(1, p.Knob("series")))
				if o.K == "scrape" {
					scrape(id, false)
					continue
				}
				if o.K == "since" {
					t0 := time.Now()
					time.Sleep(time.Duration(o.A) * time.Second)
					lo := time.Since(t0)
					hs.ObserveSince(t0)
					sinceHi.Add(int64(time.Since(t0)))
					sinceLo.Add(int64(lo))
					nSince.Add(1)
					continue
				}
				ob := obs{series: s, kind: o.K}
				if o.K == "inc" || o.K == "dec" {
					ob.kind = "gauge"
				}
				i := all.Add(ob) // start 0: not yet started, keeps its index
				switch o.K {
				case "hist", "count":
					ob.val = scale * float64(uint64(1)<<(2*i))
					if o.C == 1 {
						ob.val = -ob.val
					}
				case "inc":
					ob.val = float64(uint64(1) << (2 * i))
				case "dec":
					ob.val = -float64(uint64(1) << (2 * i))
				}
				ob.start = e.Seq()
				all.Put(i, ob)
				t0 := time.Now()
				switch o.K {
				case "hist":
					h.Observe(ob.val, label[s]...)
				case "count":
					ct.Observe(ob.val, label[s]...)
				case "inc":
					g.Counter(label[s]...).Inc(int(ob.val))
				case "dec":
					g.Counter(label[s]...).Dec(int(-ob.val))
				}
				if d := time.Since(t0); d > time.Hour {
					e.Fail("blocked", "an observation was blocked for %s by a stalled scrape", d)
				}
				ob.end = e.Seq()
				all.Put(i, ob)
			}
		})
	}
	e.Join(500000*time.Hour, "liveness", "metrics users")
	scrape(99, true)
	w := &stallWriter{e: e}
	if err := hs.Print("s", w); err != nil {
		e.Fail("scrape-error", "Print: %v", err)
	}
	_, _, samples, err := parseProm(w.buf.String())
	if err != nil {
		e.Fail("format", "%v", err)
	}
	var sum, cnt, below float64
	le := math.Inf(-1)
	for _, s := range samples {
		switch s.name {
		case "s_bucket":
			to, err := strconv.ParseFloat(s.lab["le"], 64)
			if err != nil || to <= le || s.val < below {
				e.Fail("since", "bucket %q after %v: count %v after %v", s.lab["le"], le, s.val, below)
			}
			le, below = to, s.val
		case "s_sum":
			sum = s.val
		case "s_count":
			cnt = s.val
		}
	}
	if nSince.Get() > 0 && (below != cnt || !math.IsInf(le, 1)) {
		e.Fail("since", "the last bucket is %v with %v of %v", le, below, cnt)
	}
	if int64(cnt) != nSince.Get() || sum < float64(sinceLo.Get())/1e9-1e-4 || sum > float64(sinceHi.Get())/1e9+1e-4 {
		e.Fail("since", "ObserveSince: count %v, sum %v; want %d observations between %v and %v ns", cnt, sum, nSince.Get(), sinceLo.Get(), sinceHi.Get())
	}
}

// Registration against scraping through the registry.
func runC19reg(e *Env, p *Plan) {
	ids, ops := p.ByTask()
	seq := &N{}
	done := NewL[string](100)
	gauge := prom.Register("zgauge", &prom.Gauge{Desc: "g", Labels: []string{"l"}})
	// values of the gauge: each is set once; 0 stands for none
	type set struct {
		label     string
		val       float64
		call, ret int64
	}
	sets := NewL[set](100)
	asked := &N{} // calls of the custom function
	handler := prom.Handler()
	var tried, rejected [3]N
	prom.Register("zcustom", &prom.Custom{Desc: "c", Type: "summary", Func: func() map[string]any {
		n := asked.Add(1)
		return map[string]any{"zcustom_a": n, `zcustom{q="1"}`: n, "zcustom_b": float64(n)}
	}})
	for _, id := range ids {
		id := id
		e.Go("task", func() {
			for _, o := range ops[id] {
				t0 := time.Now()
				switch o.K {
				case "same":
					// several tasks register the same name: one of them succeeds
					func() {
						defer func() {
							if recover() != nil {
								rejected[o.A%3].Add(1)
							}
						}()
						tried[o.A%3].Add(1)
						h := prom.Register(fmt.Sprint("same", o.A%3), &prom.Histogram{Desc: "d", Buckets: promBuckets})
						h.Observe(1)
						done.Add(fmt.Sprint("same", o.A%3))
					}()
				case "reg":
					name := fmt.Sprintf("m%d", seq.Add(1))
					h := prom.Register(name, &prom.Histogram{Desc: "d", Buckets: promBuckets})
					h.Observe(1)
					done.Add(name)
				case "func", "unfunc":
					w := set{label: fmt.Sprint("l", o.A%2)}
					if o.K == "func" {
						w.val = float64(seq.Add(1))
					}
					w.call = e.Seq()
					i := sets.Add(w)
					if o.K == "func" {
						gauge.SetFunc(func() float64 { return w.val }, w.label)
					} else {
						gauge.SetFunc(nil, w.label)
					}
					w.ret = e.Seq()
					sets.Put(i, w)
				case "scrape":
					must := append([]string(nil), done.All()...)
					w := &stallWriter{e: e, stall: p.Knob("wstall") == 1}
					lo := asked.Get()
					call := e.Seq()
					handler(w, &http.Request{})
					ret := e.Seq()
					hi := asked.Get()
					_, _, samples, err := parseProm(w.buf.String())
					if err != nil {
						e.Fail("format", "%v in\n%s", err, w.buf.String())
					}
					var custom []float64
					vals := map[string]float64{"l0": 0, "l1": 0}
					for _, s := range samples {
						if strings.HasPrefix(s.name, "zcustom") {
							custom = append(custom, s.val)
						}
						if s.name == "zgauge" {
							vals[s.lab["l"]] = s.val
						}
					}
					if len(custom) != 3 || custom[0] != custom[1] || custom[1] != custom[2] || int64(custom[0]) <= lo || int64(custom[0]) > hi {
						e.Fail("custom", "the custom metric, called %d to %d times, shows %v", lo+1, hi, custom)
					}
					for l, v := range vals {
						// some write of v, or the initial state, which nothing replaced before the scrape
						ok := false
						all := sets.All()
						for i := -1; i < len(all); i++ {
							w := set{label: l, call: -1, ret: -1}
							if i >= 0 {
								w = all[i]
							}
							if w.label != l || w.val != v || w.call > ret {
								continue
							}
							replaced := false
							for _, x := range all {
								if x.label == l && w.ret != 0 && x.call > w.ret && x.ret != 0 && x.ret < call {
									replaced = true
								}
							}
							ok = ok || !replaced
						}
						if !ok {
							e.Fail("gauge-func", "the scrape shows %v for %s, which is not what was set last\n%+v", v, l, all)
						}
					}
					for _, m := range must {
						n := 0
						for _, s := range samples {
							if s.name == m+"_count" {
								n++
								if s.val != 1 {
									e.Fail("lost", "metric %s: count %v", m, s.val)
								}
							}
						}
						if n != 1 {
							e.Fail("lost", "registered metric %s appears %d times in the scrape", m, n)
						}
					}
				}
				if d := time.Since(t0); o.K != "scrape" && d > time.Hour {
					e.Fail("blocked", "%s was blocked for %s by a stalled scrape", o.K, d)
				}
			}
		})
	}
	e.Join(500000*time.Hour, "liveness", "registry users")
	for i := range tried {
		if n, bad := tried[i].Get(), rejected[i].Get(); n > 0 && bad != n-1 {
			e.Fail("duplicate", "of %d registrations under one name %d were rejected", n, bad)
		}
	}
	for _, name := range done.All() {
		dup := func() (ok bool) {
			defer func() { ok = recover() != nil }()
			if seq.Get()%2 == 0 {
				prom.Register(name, &prom.Gauge{})
			} else {
				prom.Register(name, &prom.Histogram{})
			}
			return
		}()
		if !dup {
			e.Fail("duplicate", "a second metric %q was accepted", name)
		}
	}
}
