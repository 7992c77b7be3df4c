package main

import (
	"errors"
	"fmt"
	"slices"
	"strings"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/utils/caches"
	"github.com/anishathalye/porcupine"
)

func init() {
	register(&Workload{ID: "C12", Gen: genC12, Run: runC12})
	register(&Workload{ID: "C13", Gen: genC13, Run: runC13})
	register(&Workload{ID: "C14", Gen: genC14, Run: runC14})
	register(&Workload{ID: "C15", Gen: genC15, Run: runC15})
}

var cacheKeys = func() (l []string) {
	for i := 0; i < 64; i++ {
		l = append(l, fmt.Sprintf("%c%s", 'a'+i%26, []string{"", "1", "2"}[i/26]))
	}
	return
}()

// --- C12: single flight, TTL, independence of keys -------------------------

func genC12(r *Rng) *Plan {
	tasks, keys := r.Range(2, 7), r.Range(1, 4)
	span := pick(r, int64(0), 3, 100, 3000)
	p := &Plan{Knobs: map[string]int64{
		"keys": int64(keys), "span": span, "ttl": pick(r, int64(0), 1, span+1, span*4+1, 3600_000),
		"fetch": pick(r, int64(0), 1, span+1), "err": int64(r.N(4)), "stuck": int64(r.N(4) / 3), "panic": int64(r.N(6) / 5),
	}}
	n := r.Range(3, 20)
	if r.P(1, 6) { // many keys
		keys, n = r.Range(8, 60), r.Range(40, 150)
		p.Knobs["keys"] = int64(keys)
	}
	for i := 0; i < n; i++ {
		p.Ops = append(p.Ops, Op{T: r.N(tasks), K: "req", A: r.I(int64(keys)), B: r.I(span + 1)})
	}
	if r.P(1, 4) {
		p.Ops = append(p.Ops, Op{T: tasks + 1, K: "wall", B: r.I(span + 1), C: r.I(7200_000) - 3600_000})
	}
	return p
}

type fetchRec struct {
	key        string
	start, end int64         // Seq
	startAt    time.Duration // mono
	endAt      time.Duration
	ttl        time.Duration
	val        string
	err        error
	doneAt     time.Duration // the requester that fetched has returned
	stuck      bool
}

func runC12(e *Env, p *Plan) {
	c := ctx.TODO()
	mono := func() time.Duration { return time.Since(simT0) }
	fetches := NewL[fetchRec](400)
	inFlight := map[string]*N{}
	last := map[string]*N{} // index+1 of the latest finished fetch
	for _, k := range cacheKeys {
		inFlight[k], last[k] = &N{}, &N{}
	}
	type fault struct{}
	keys := cacheKeys[:max(1, p.Knob("keys"))]
	stuckKey := ""
	if p.Knob("stuck") == 1 && len(keys) > 1 {
		stuckKey = keys[0]
	}
	seq := &N{}
	cur := make([]int, 64) // per task: index+1 of the fetch its request ran
	var taskOf func(c ctx.C) int = func(c ctx.C) int { return c.Value(taskKey{}).(int) }
	rc := caches.NewRequestLRU(c, 64, func(c ctx.C, k string) (string, time.Duration, error) {
		id := taskOf(c)
		if n := inFlight[k].Add(1); n != 1 {
			e.Fail("double-fetch", "%d fetches of %q in progress at once", n, k)
		}
		f := fetchRec{key: k, start: e.Seq(), startAt: mono()}
		if i := last[k].Get(); i > 0 {
			l := fetches.At(int(i - 1))
			if l.ttl > 0 && f.startAt < l.endAt+l.ttl {
				e.Fail("early-refetch", "%q fetched again %s after its last fetch, whose TTL is %s", k, f.startAt-l.endAt, l.ttl)
			}
		}
		n := seq.Add(1)
		f.val = fmt.Sprintf("%s:%d", k, n)
		f.ttl = time.Duration(p.Knob("ttl")) * time.Millisecond
		if p.Knob("err") > 0 && e.Flip(1, 4) {
			e.Fault("fetch_error")
			f.err = fmt.Errorf("err-%s", f.val)
			if p.Knob("err") > 1 && e.Flip(1, 2) {
				f.ttl = 0
			}
		} else if p.Knob("err") == 3 && e.Flip(1, 4) {
			f.ttl = 0
		}
		if cur[id] != 0 {
			e.Fail("double-fetch", "one request fetched twice")
		}
		if k == stuckKey {
			f.stuck = true
			time.Sleep(10 * time.Hour)
		} else if d := p.Knob("fetch"); d > 0 {
			time.Sleep(time.Duration(e.Choose(int(d)+1)) * time.Millisecond)
		}
		inFlight[k].Add(-1)
		if p.Knob("panic") == 1 && e.Flip(1, 4) {
			e.Fault("fetch_panic")
			last[k].Set(0)
			panic(fault{})
		}
		f.end, f.endAt = e.Seq(), mono()
		i := fetches.Add(f)
		last[k].Set(int64(i + 1))
		cur[id] = i + 1
		return f.val, f.ttl, f.err
	})
	e.twinRequestLRU(c, p)
	ids, ops := p.ByTask()
	for ti, id := range ids {
		ti, id := ti, id
		c := ctx.WithValue(c, taskKey{}, ti)
		e.Go("task", func() {
			for _, o := range ops[id] {
				time.Sleep(time.Duration(o.B) * time.Millisecond)
				if o.K == "wall" {
					e.WallJump(time.Duration(o.C) * time.Millisecond)
					continue
				}
				k := keys[int(o.A)%len(keys)]
				cur[ti] = 0
				call, callAt := e.Seq(), mono()
				v, hit, err, panicked := func() (v string, h caches.HitMiss, err error, panicked bool) {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(fault); !ok {
								panic(r)
							}
							panicked = true
						}
					}()
					v, h, err = rc.Request(c, k)
					return
				}()
				if panicked {
					continue
				}
				retAt := mono()
				e.Ev("t%d %s -> %s %s %v", id, k, v, hit, err)
				if k != stuckKey && retAt-callAt > time.Hour {
					e.Fail("blocked", "a request for %q took %s while only %q was being fetched slowly\n", k, retAt-callAt, stuckKey)
				}
				if i := cur[ti]; i > 0 {
					f := fetches.At(i - 1)
					f.doneAt = retAt
					fetches.Put(i-1, f)
					want := caches.MISS
					if f.err != nil {
						want = caches.ERR
					}
					if f.key != k || v != f.val || err != f.err || hit != want {
						e.Fail("wrong-result", "request for %q fetched %+v but returned %q, %s, %v", k, f, v, hit, err)
					}
					continue
				}
				// served from the cache
				if hit != caches.HIT {
					e.Fail("wrong-flag", "request for %q did not fetch, yet reports %q", k, hit)
				}
				e.Probe("hit")
				var src *fetchRec
				for _, f := range fetches.All() {
					if f.val == v {
						f := f
						src = &f
					}
				}
				if src == nil || src.key != k || src.err != err {
					e.Fail("wrong-result", "cached answer for %q is %q, %v: fetched by %+v", k, v, err, src)
				}
				if src.ttl <= 0 {
					e.Fail("uncacheable", "answer %q for %q has no TTL but was reused", v, k)
				}
				if src.doneAt != 0 && callAt > src.doneAt+src.ttl {
					e.Fail("stale", "answer %q for %q was served %s after it was fetched, its TTL is %s", v, k, callAt-src.doneAt, src.ttl)
				}
				_ = call
			}
		})
	}
	e.Join(1000*time.Hour, "liveness", "requests")
	if stuckKey != "" {
		e.Probe("stuck_key")
	}
}

type taskKey struct{}

// --- C13: freshness after invalidation ---------------------------------------

func genC13(r *Rng) *Plan {
	tasks, keys := r.Range(2, 6), r.Range(1, 4)
	span := pick(r, int64(0), 2, 50)
	p := &Plan{Knobs: map[string]int64{
		"keys": int64(keys), "size": int64(r.Range(1, 4)), "ttl": pick(r, int64(0), 1, span*2+1, 3600_000), "fetch": pick(r, int64(0), 1, span+1),
		"err": int64(r.N(3) / 2),
	}}
	n := r.Range(4, 22)
	if r.P(1, 6) { // many keys
		keys, n = r.Range(8, 60), r.Range(40, 150)
		p.Knobs["keys"], p.Knobs["size"] = int64(keys), int64(r.Range(4, 64))
	}
	for i := 0; i < n; i++ {
		o := Op{T: r.N(tasks), K: "req", A: r.I(int64(keys)), B: r.I(span + 1)}
		if r.P(1, 3) {
			o.K = "write"
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

func runC13(e *Env, p *Plan) {
	c := ctx.TODO()
	keys := cacheKeys[:max(1, p.Knob("keys"))]
	store := map[string]*N{}   // the backing store: current version
	settled := map[string]*N{} // version whose invalidation has returned
	for _, k := range keys {
		store[k], settled[k] = &N{}, &N{}
	}
	errFetch := errors.New("fetch failed")
	rc := caches.NewRequestLRU(c, int(max(1, p.Knob("size"))), func(c ctx.C, k string) (string, time.Duration, error) {
		d := time.Duration(p.Knob("fetch")) * time.Millisecond
		if d > 0 {
			time.Sleep(d / 2)
		}
		v := store[k].Get()
		if d > 0 {
			time.Sleep(d / 2)
		}
		if p.Knob("err") == 1 && e.Flip(1, 5) {
			e.Fault("fetch_error")
			return "", 0, errFetch
		}
		return fmt.Sprintf("%s=%d", k, v), time.Duration(p.Knob("ttl")) * time.Millisecond, nil
	})
	e.twinRequestLRU(c, p)
	ids, ops := p.ByTask()
	for _, id := range ids {
		id := id
		e.Go("task", func() {
			for _, o := range ops[id] {
				time.Sleep(time.Duration(o.B) * time.Millisecond)
				k := keys[int(o.A)%len(keys)]
				if o.K == "write" {
					v := store[k].Add(1)
					rc.Invalidate(c, k)
					if v > settled[k].Get() {
						settled[k].Set(v)
					}
					e.Ev("t%d write %s=%d", id, k, v)
					continue
				}
				floor := settled[k].Get()
				s, hit, err := rc.Request(c, k)
				ceil := store[k].Get()
				e.Ev("t%d req %s -> %s %s", id, k, s, hit)
				if err != nil {
					if err != errFetch {
						e.Fail("error", "Request(%q): %v", k, err)
					}
					continue
				}
				var gk string
				var gv int64
				i := strings.IndexByte(s, '=')
				gk = s[:max(0, i)]
				fmt.Sscan(s[i+1:], &gv)
				if gk != k {
					e.Fail("wrong-key", "Request(%q) answered with the value of %q", k, gk)
				}
				if gv < floor {
					e.Fail("stale", "Request(%q) answered version %d although version %d was invalidated before the request", k, gv, floor)
				}
				if gv > ceil {
					e.Fail("wrong-value", "Request(%q) answered version %d, only %d written", k, gv, ceil)
				}
			}
		})
	}
	e.Join(10*time.Hour, "liveness", "cache users")
	for _, k := range keys {
		s, _, err := rc.Request(c, k)
		if want := fmt.Sprintf("%s=%d", k, store[k].Get()); err == nil && s != want {
			e.Fail("stale", "at rest Request(%q) answers %q, want %q", k, s, want)
		}
	}
}

// --- C14: LRU against a reference ---------------------------------------------

type lruIn struct {
	Op   string
	Key  string
	Size int // of the element, if loaded by this call
	Max  int
}
type lruOut struct {
	Val  string
	Flag caches.HitMiss
	Keys string // sorted
}

func genC14(r *Rng) *Plan {
	tasks, keys := r.Range(1, 4), r.Range(1, 6)
	maxSize := r.Range(1, 8)
	p := &Plan{Knobs: map[string]int64{"keys": int64(keys), "max": int64(maxSize), "err": int64(r.N(3) / 2), "zero": int64(r.N(3) / 2), "sizes": int64(r.Range(1, 4)), "panic": int64(r.N(6) / 5)}}
	n := r.Range(4, 24)
	if r.P(1, 3) { // many entries, long histories, little concurrency
		tasks, keys, maxSize, n = r.Range(1, 2), r.Range(8, 30), r.Range(5, 20), r.Range(40, 160)
		p.Knobs["keys"], p.Knobs["max"], p.Knobs["sizes"] = int64(keys), int64(maxSize), pick(r, int64(1), 1, 2)
	}
	if r.P(1, 50) { // a large cache
		tasks, keys, maxSize, n = 1, r.Range(120, 300), r.Range(60, 280), r.Range(300, 500)
		p.Knobs["keys"], p.Knobs["max"], p.Knobs["sizes"] = int64(keys), int64(maxSize), 1
	}
	for i := 0; i < n; i++ {
		o := Op{T: r.N(tasks), K: "get", A: r.I(int64(keys)), B: pick(r, int64(0), 0, 1)}
		switch r.N(8) {
		case 0:
			o.K = "inv"
		case 1:
			o.K = "keys"
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

type keyser interface{ Keys() []string }

func sortedKeys(l []string) string {
	l = append([]string(nil), l...)
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j] < l[i] {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	return strings.Join(l, " ")
}

type lruEnt struct {
	k, v string
	size int
}

// lruModel: a list of entries, least recently used first, encoded as a string
// so that states are comparable.
func lruModel() porcupine.Model {
	dec := func(s string) (out []lruEnt) {
		if s == "" {
			return nil
		}
		for _, x := range strings.Split(s, ";") {
			var en lruEnt
			fmt.Sscanf(x, "%s %s %d", &en.k, &en.v, &en.size)
			out = append(out, en)
		}
		return
	}
	enc := func(l []lruEnt) string {
		var sb strings.Builder
		for i, x := range l {
			if i > 0 {
				sb.WriteByte(';')
			}
			fmt.Fprintf(&sb, "%s %s %d", x.k, x.v, x.size)
		}
		return sb.String()
	}
	return porcupine.Model{
		Init: func() any { return "" },
		Step: func(st, in, out any) (bool, any) {
			l := dec(st.(string))
			i, o := in.(lruIn), out.(lruOut)
			at := -1
			for j, x := range l {
				if x.k == i.Key {
					at = j
				}
			}
			switch i.Op {
			case "get":
				if at >= 0 {
					x := l[at]
					l = append(append(append([]lruEnt(nil), l[:at]...), l[at+1:]...), x)
					return o.Flag == caches.HIT && o.Val == x.v, enc(l)
				}
				switch o.Flag {
				case caches.ERR, caches.NO, "panic":
					return true, st
				case caches.MISS:
					l = append(l, lruEnt{i.Key, o.Val, i.Size})
					sum := 0
					for _, x := range l {
						sum += x.size
					}
					for sum > i.Max {
						sum -= l[0].size
						l = l[1:]
					}
					return true, enc(l)
				}
				return false, st
			case "inv":
				if at >= 0 {
					l = append(append([]lruEnt(nil), l[:at]...), l[at+1:]...)
				}
				return true, enc(l)
			case "keys":
				var ks []string
				for _, x := range l {
					ks = append(ks, x.k)
				}
				return sortedKeys(ks) == o.Keys, st
			}
			panic(i.Op)
		},
		Equal: func(a, b any) bool { return a == b },
	}
}

func runC14(e *Env, p *Plan) {
	c := ctx.TODO()
	var keys []string
	for i := int64(0); i < min(400, max(1, p.Knob("keys"))); i++ {
		keys = append(keys, map[bool]string{true: string('A' + rune(i)), false: fmt.Sprint("k", i)}[i < 26])
	}
	maxSize := int(max(1, p.Knob("max")))
	seq := &N{}
	type fault struct{}
	type loaded struct {
		val  string
		size int
		flag caches.HitMiss
		n    int
	}
	cur := make([]loaded, 64)
	lru := caches.NewLRU(c, maxSize, func(c ctx.C, k string) (string, int, error) {
		id := c.Value(taskKey{}).(int)
		l := loaded{val: fmt.Sprintf("%s%d", k, seq.Add(1)), size: 1 + e.Choose(int(max(1, p.Knob("sizes")))), flag: caches.MISS, n: cur[id].n + 1}
		defer func() { cur[id] = l }()
		if p.Knob("err") == 1 && e.Flip(1, 4) {
			e.Fault("load_error")
			l.flag = caches.ERR
			return "", l.size, errStop
		}
		if p.Knob("panic") == 1 && e.Flip(1, 4) {
			e.Fault("load_panic")
			l.flag = "panic"
			panic(fault{})
		}
		if p.Knob("zero") == 1 && e.Flip(1, 4) {
			l.size, l.flag = 0, caches.NO
		}
		return l.val, l.size, nil
	})
	h := e.NewHist(400)
	e.twinLRU(c, p)
	ids, ops := p.ByTask()
	for ti, id := range ids {
		ti, id := ti, id
		c := ctx.WithValue(c, taskKey{}, ti)
		e.Go("task", func() {
			for _, o := range ops[id] {
				k := keys[int(o.A)%len(keys)]
				time.Sleep(time.Duration(o.B))
				switch o.K {
				case "inv":
					h.Do(id, lruIn{Op: "inv", Key: k}, func() any { lru.Invalidate(c, k); return lruOut{} })
				case "keys":
					call := e.Seq()
					ks := lru.(keyser).Keys()
					h.Add(id, lruIn{Op: "keys"}, lruOut{Keys: sortedKeys(ks)}, call, e.Seq())
				case "get":
					cur[ti] = loaded{}
					call := e.Seq()
					var out lruOut
					var err error
					func() {
						defer func() {
							if r := recover(); r != nil {
								if _, ok := r.(fault); !ok {
									panic(r)
								}
								out.Flag = "panic"
							}
						}()
						out.Val, out.Flag, err = lru.Get(c, k)
					}()
					ret := e.Seq()
					l := cur[ti]
					if l.n > 1 {
						e.Fail("double-load", "one Get(%q) loaded %d times", k, l.n)
					}
					if (err != nil) != (out.Flag == caches.ERR) {
						e.Fail("wrong-flag", "Get(%q): flag %s, error %v", k, out.Flag, err)
					}
					if l.n == 0 && out.Flag != caches.HIT || l.n == 1 && out.Flag != l.flag {
						e.Fail("wrong-flag", "Get(%q): flag %s, loads %d (%s)", k, out.Flag, l.n, l.flag)
					}
					if l.n == 1 && (l.flag == caches.MISS || l.flag == caches.NO) && out.Val != l.val {
						e.Fail("wrong-value", "Get(%q) loaded %q, returned %q", k, l.val, out.Val)
					}
					h.Add(id, lruIn{"get", k, l.size, maxSize}, out, call, ret)
				}
			}
		})
	}
	e.Join(10*time.Hour, "liveness", "LRU users")
	call := e.Seq()
	ks := lru.(keyser).Keys()
	if s := fmt.Sprint(lru); len(ks) > 0 {
		var size, most, n int
		var oldest string
		if k, err := fmt.Sscanf(s, "LRU{%d/%d, %d entries, oldest %s", &size, &most, &n, &oldest); k != 4 || size > most || most != maxSize || n != len(ks) || !slices.Contains(ks, strings.TrimSuffix(oldest, "}")) {
			e.Fail("string", "%s (%v), the keys are %v", s, err, ks)
		}
	} else if want := fmt.Sprintf("LRU{0/%d, empty}", maxSize); s != want {
		e.Fail("string", "%s, want %s", s, want)
	}
	h.Add(99, lruIn{Op: "keys"}, lruOut{Keys: sortedKeys(ks)}, call, e.Seq())
	h.Check("lru", "LRU cache", lruModel())
}

// --- C15: memory cache ---------------------------------------------------------

func genC15(r *Rng) *Plan {
	tasks, keys := r.Range(2, 5), r.Range(1, 3)
	p := &Plan{Knobs: map[string]int64{"keys": int64(keys), "err": int64(r.N(2)), "panic": int64(r.N(6) / 5), "fetch": pick(r, int64(0), 0, 1, 30)}}
	n := r.Range(4, 20)
	if r.P(1, 6) { // many keys
		keys, n = r.Range(8, 60), r.Range(40, 150)
		p.Knobs["keys"] = int64(keys)
	}
	for i := 0; i < n; i++ {
		o := Op{T: r.N(tasks), K: "get", A: r.I(int64(keys)), B: pick(r, int64(0), 0, 5)}
		if r.P(1, 4) {
			o.K = "write"
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

type memIn struct {
	Op, Key string
}
type memOut struct {
	Val  string
	Flag caches.HitMiss
}

func runC15(e *Env, p *Plan) {
	c := ctx.TODO()
	keys := cacheKeys[:max(1, p.Knob("keys"))]
	type fault struct{}
	ver, settled := map[string]*N{}, map[string]*N{}
	for _, k := range keys {
		ver[k], settled[k] = &N{}, &N{}
	}
	cur := make([]int, 64)
	seq := &N{}
	m := caches.Mem(c, func(c ctx.C, k string) (string, error) {
		id := c.Value(taskKey{}).(int)
		cur[id]++
		v := ver[k].Get()
		if d := p.Knob("fetch"); d > 0 {
			time.Sleep(time.Duration(e.Choose(int(d))) * time.Millisecond)
		}
		if p.Knob("err") == 1 && e.Flip(1, 4) {
			e.Fault("load_error")
			return fmt.Sprintf("%s err", k), errStop
		}
		if p.Knob("panic") == 1 && e.Flip(1, 4) {
			e.Fault("load_panic")
			panic(fault{})
		}
		return fmt.Sprintf("%s %d %d", k, v, seq.Add(1)), nil
	})
	h := e.NewHist(200)
	e.twinMem(c, p)
	ids, ops := p.ByTask()
	for ti, id := range ids {
		ti, id := ti, id
		c := ctx.WithValue(c, taskKey{}, ti)
		e.Go("task", func() {
			for _, o := range ops[id] {
				k := keys[int(o.A)%len(keys)]
				time.Sleep(time.Duration(o.B))
				if o.K == "write" {
					v := ver[k].Add(1)
					h.Do(id, memIn{"inv", k}, func() any { m.Invalidate(c, k); return memOut{} })
					if v > settled[k].Get() {
						settled[k].Set(v)
					}
					continue
				}
				cur[ti] = 0
				floor := settled[k].Get()
				call := e.Seq()
				var out memOut
				var err error
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(fault); !ok {
								panic(r)
							}
							out.Flag = "panic"
						}
					}()
					out.Val, out.Flag, err = m.Get(c, k)
				}()
				ret := e.Seq()
				n := cur[ti]
				switch out.Flag {
				case caches.HIT, caches.MISS:
					var gk string
					var gv, gs int64
					fmt.Sscan(out.Val, &gk, &gv, &gs)
					if gk != k || gs == 0 {
						e.Fail("wrong-key", "Get(%q) = %q", k, out.Val)
					}
					if gv < floor {
						e.Fail("stale", "Get(%q) = version %d although %d was invalidated before", k, gv, floor)
					}
					if err != nil || (n == 0) != (out.Flag == caches.HIT) || n > 1 {
						e.Fail("wrong-flag", "Get(%q): %s, %d loads, %v", k, out.Flag, n, err)
					}
				case caches.ERR:
					if err != errStop || n != 1 {
						e.Fail("wrong-flag", "Get(%q): %s, %d loads, %v", k, out.Flag, n, err)
					}
				case "panic":
				default:
					e.Fail("wrong-flag", "Get(%q): flag %q", k, out.Flag)
				}
				e.Ev("t%d get %s -> %v", id, k, out)
				h.Add(id, memIn{"get", k}, out, call, ret)
			}
		})
	}
	e.Join(10*time.Hour, "liveness", "Mem users")
	model := mapModel()
	model.Partition = func(h []porcupine.Operation) (out [][]porcupine.Operation) {
		for _, k := range keys {
			var l []porcupine.Operation
			for _, o := range h {
				if o.Input.(memIn).Key == k {
					l = append(l, o)
				}
			}
			if len(l) > 0 {
				out = append(out, l)
			}
		}
		return
	}
	model.Init = func() any { return "" }
	model.Step = func(st, in, out any) (bool, any) {
		s, i, o := st.(string), in.(memIn), out.(memOut)
		if i.Op == "inv" {
			return true, ""
		}
		switch o.Flag {
		case caches.HIT:
			return s != "" && s == o.Val, s
		case caches.MISS:
			return s == "", o.Val
		}
		return s == "", s // failed loads are not cached, and only happen when nothing is
	}
	h.Check("mem", "memory cache", model)
}
