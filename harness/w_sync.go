package main

import (
	"fmt"
	"sync/atomic"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/utils/lists"
	fsync "github.com/Aize-Public/forego/utils/sync"
)

func init() {
	register(&Workload{ID: "C16", Gen: func(r *Rng) *Plan { return genMapOps(r, mapOps16) }, Run: runC16})
	register(&Workload{ID: "C18", Gen: func(r *Rng) *Plan { return genMapOps(r, mapOps18) }, Run: runC18})
	register(&Workload{ID: "C17", Gen: genC17, Run: runC17})
}

var mapOps16 = []string{"load", "load", "get", "store", "store", "store", "delete", "delete", "loadanddelete", "loadorstore", "loadorstore", "getorstore", "getorstore", "range", "range", "rangeerr", "map", "isempty", "marshal", "unmarshal", "stop"}
var mapOps18 = []string{"add", "add", "add", "add", "has", "has", "remove", "remove", "remove", "all", "all"}

func genMapOps(r *Rng, kinds []string) *Plan {
	tasks, keys := r.Range(2, 5), r.Range(1, 4)
	p := &Plan{Knobs: map[string]int64{"keys": int64(keys), "nil": int64(r.N(2)), "pre": int64(r.N(keys + 1))}}
	// swarm: a subset of the operations
	var ks []string
	for _, k := range kinds {
		if r.P(2, 3) {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		ks = kinds
	}
	n := r.Range(4, 18)
	if r.P(1, 6) { // many keys
		keys, n = r.Range(8, 60), r.Range(20, 100)
		p.Knobs["keys"], p.Knobs["pre"] = int64(keys), int64(r.N(keys+1))
	}
	if r.P(1, 10) {
		p.Knobs["bulk"] = pick(r, int64(100), 300, 1500)
	}
	for i := 0; i < n; i++ {
		p.Ops = append(p.Ops, Op{T: r.N(tasks), K: pick(r, ks...), A: r.I(int64(keys)), B: int64(i + 1), C: r.I(5)})
	}
	return p
}

func runC16(e *Env, p *Plan) {
	m := &fsync.Map[string, any]{}
	keys := cacheKeys[:max(1, p.Knob("keys"))]
	h := e.NewHist(10 + (len(p.Ops)+2)*(len(keys)+1))
	val := func(o Op) any {
		if p.Knob("nil") == 1 && o.C == 0 {
			return nil
		}
		return o.B
	}
	for i := 0; i < int(p.Knob("pre")) && i < len(keys); i++ {
		k := keys[i]
		h.Do(0, mapIn{"store", k, int64(1000 + i)}, func() any { m.Store(k, int64(1000+i)); return mapOut{} })
	}
	// many other keys, which nobody changes
	bulk := int(p.Knob("bulk"))
	for i := 0; i < bulk; i++ {
		m.Store(fmt.Sprint("bulk", i), int64(i))
	}
	c := ctx.TODO()
	e.twinMap(p)
	ids, ops := p.ByTask()
	for _, id := range ids {
		id := id
		e.Go("task", func() {
			for _, o := range ops[id] {
				k := keys[int(o.A)%len(keys)]
				v := val(o)
				switch o.K {
				case "load":
					h.Do(id+1, mapIn{"load", k, nil}, func() any { v, ok := m.Load(k); return mapOut{v, ok} })
				case "get":
					h.Do(id+1, mapIn{"get", k, nil}, func() any { return mapOut{m.Get(k), true} })
				case "store":
					h.Do(id+1, mapIn{"store", k, v}, func() any { m.Store(k, v); return mapOut{} })
				case "delete":
					h.Do(id+1, mapIn{"delete", k, nil}, func() any { m.Delete(k); return mapOut{} })
				case "loadanddelete":
					h.Do(id+1, mapIn{"loadordelete", k, nil}, func() any { v, ok := m.LoadAndDelete(k); return mapOut{v, ok} })
				case "loadorstore":
					h.Do(id+1, mapIn{"loadorstore", k, v}, func() any { v, ok := m.LoadOrStore(k, v); return mapOut{v, ok} })
				case "getorstore":
					h.Do(id+1, mapIn{"getorstore", k, v}, func() any { return mapOut{m.GetOrStore(k, v), true} })
				case "range", "rangeerr", "map", "marshal":
					// every key: what was seen is a load at some point of the call
					call := e.Seq()
					seen := map[string]any{}
					visit := func(k string, v any) {
						if _, dup := seen[k]; dup {
							e.Fail("range-duplicate", "%s visited %q twice", o.K, k)
						}
						seen[k] = v
					}
					switch o.K {
					case "range":
						m.Range(func(k string, v any) bool { visit(k, v); return true })
					case "rangeerr":
						if err := m.RangeErr(func(k string, v any) error { visit(k, v); return nil }); err != nil {
							e.Fail("range-error", "RangeErr: %v", err)
						}
					case "map":
						for k, v := range m.Map() {
							visit(k, v)
						}
					case "marshal":
						n, err := m.MarshalNode(c)
						if err != nil {
							e.Fail("marshal", "marshal: %v", err)
						}
						mm, ok := n.(enc.Map)
						if !ok {
							e.Fail("marshal", "marshal gives %T", n)
						}
						for k, n := range mm {
							switch n := n.(type) {
							case enc.Nil:
								visit(k, nil)
							case enc.Integer:
								visit(k, int64(n))
							default:
								e.Fail("marshal", "marshal gives %T for %q", n, k)
							}
						}
					}
					ret := e.Seq()
					for i := 0; i < bulk; i++ {
						k := fmt.Sprint("bulk", i)
						if v, ok := seen[k]; !ok || v != int64(i) {
							e.Fail("range-lost", "%s gave %v, %v for %q, which is %d throughout", o.K, v, ok, k, i)
						}
						delete(seen, k)
					}
					for _, k := range keys {
						v, ok := seen[k]
						h.Add(id+1, mapIn{"load", k, nil}, mapOut{v, ok}, call, ret)
						delete(seen, k)
					}
					if len(seen) > 0 {
						e.Fail("range-alien", "%s gave keys nobody stored: %v", o.K, seen)
					}
				case "unmarshal":
					// stores every key of the document
					doc := enc.Map{k: enc.Integer(o.B)}
					call := e.Seq()
					if err := m.UnmarshalNode(c, doc); err != nil {
						e.Fail("unmarshal", "unmarshal: %v", err)
					}
					h.Add(id+1, mapIn{"store", k, o.B}, mapOut{}, call, e.Seq())
				case "stop": // stopping after the first one
					n := 0
					m.Range(func(string, any) bool { n++; return false })
					if n > 1 {
						e.Fail("range-stop", "Range went on after false")
					}
					n = 0
					err := m.RangeErr(func(string, any) error { n++; return errStop })
					if n > 1 || n == 1 && err != errStop || n == 0 && err != nil {
						e.Fail("range-stop", "RangeErr went on after an error: %d calls, returned %v", n, err)
					}
				case "isempty":
					call := e.Seq()
					empty := m.IsEmpty()
					ret := e.Seq()
					if empty && bulk > 0 {
						e.Fail("view", "IsEmpty with %d keys", bulk)
					}
					if empty {
						for _, k := range keys {
							h.Add(id+1, mapIn{"load", k, nil}, mapOut{nil, false}, call, ret)
						}
					}
				}
			}
		})
	}
	e.Join(time.Hour, "liveness", "map users")
	// quiescent: all views agree
	for _, k := range keys {
		v, ok := m.Load(k)
		h.Add(0, mapIn{"load", k, nil}, mapOut{v, ok}, e.Seq(), e.Seq())
		v2, ok2 := m.Map()[k]
		if v != v2 || ok != ok2 {
			e.Fail("view", "Load(%q)=%v,%v but Map() has %v,%v", k, v, ok, v2, ok2)
		}
	}
	if m.IsEmpty() != (len(m.Map()) == 0) {
		e.Fail("view", "IsEmpty=%v, Map()=%v", m.IsEmpty(), m.Map())
	}
	h.Check("linearizability", "utils/sync.Map", mapModel())
}

var errStop = fmt.Errorf("stop")

func runC18(e *Env, p *Plan) {
	s := &lists.Set[string]{}
	keys := cacheKeys[:max(1, p.Knob("keys"))]
	h := e.NewHist(10 + (len(p.Ops)+2)*(len(keys)+1))
	for i := 0; i < int(p.Knob("pre")) && i < len(keys); i++ {
		k := keys[i]
		h.Do(0, mapIn{"add", k, nil}, func() any { return mapOut{nil, s.Add(k)} })
	}
	e.twinSet(p)
	ids, ops := p.ByTask()
	bulk := int(p.Knob("bulk"))
	for i := 0; i < bulk; i++ {
		if !s.Add(fmt.Sprint("bulk", i)) {
			e.Fail("bulk", "Add of a new member returned false")
		}
	}
	all := func(id int) {
		call := e.Seq()
		l := s.All()
		ret := e.Seq()
		seen := map[string]bool{}
		for _, k := range l {
			if seen[k] {
				e.Fail("all-duplicate", "All() lists %q twice", k)
			}
			seen[k] = true
		}
		for i := 0; i < bulk; i++ {
			k := fmt.Sprint("bulk", i)
			if !seen[k] {
				e.Fail("all-lost", "All() misses %q of %d members", k, bulk)
			}
			delete(seen, k)
		}
		for _, k := range keys {
			h.Add(id, mapIn{"has", k, nil}, mapOut{nil, seen[k]}, call, ret)
			delete(seen, k)
		}
		if len(seen) > 0 {
			e.Fail("all-alien", "All() lists members nobody added: %v", seen)
		}
	}
	for _, id := range ids {
		id := id
		e.Go("task", func() {
			for _, o := range ops[id] {
				k := keys[int(o.A)%len(keys)]
				switch o.K {
				case "add":
					h.Do(id+1, mapIn{"add", k, nil}, func() any { return mapOut{nil, s.Add(k)} })
				case "has":
					h.Do(id+1, mapIn{"has", k, nil}, func() any { return mapOut{nil, s.Has(k)} })
				case "remove":
					h.Do(id+1, mapIn{"remove", k, nil}, func() any { return mapOut{nil, s.Remove(k)} })
				case "all":
					all(id + 1)
				}
			}
		})
	}
	e.Join(time.Hour, "liveness", "set users")
	all(0)
	h.Check("linearizability", "utils/lists.Set", mapModel())
}

// --- C17: timed mutex ------------------------------------------------------

func genC17(r *Rng) *Plan {
	tasks := r.Range(2, 6)
	p := &Plan{Knobs: map[string]int64{"metrics": int64(r.N(4) / 3)}}
	n := r.Range(3, 14)
	span := pick(r, int64(0), 2, 100, 2000)
	for i := 0; i < n; i++ {
		k := "lock"
		if r.P(2, 3) {
			k = "try"
		}
		// A: pause before, B: critical section, C: timeout
		p.Ops = append(p.Ops, Op{T: r.N(tasks), K: k, A: r.I(span + 1), B: r.I(span + 1), C: pick(r, int64(0), 1, span, span*3, 3600_000)})
	}
	if p.Knobs["metrics"] == 0 && r.P(1, 3) { // some hold it for an hour
		p.Knobs["long"] = 1
		for i := range p.Ops {
			if r.P(1, 4) {
				p.Ops[i].B = 3600_000
			}
			p.Ops[i].C = min(p.Ops[i].C, pick(r, int64(60_000), 60_000, 1200_000, 2400_000))
			if p.Ops[i].C == 60_000 && r.P(1, 2) {
				p.Ops[i].C = pick(r, int64(1200_000), 2400_000)
			}
		}
	}
	return p
}

func runC17(e *Env, p *Plan) {
	ids, ops := p.ByTask()
	holders := &N{}
	enter := func(what string) {
		if n := holders.Add(1); n != 1 {
			e.Fail("exclusion", "%s: %d holders at once", what, n)
		}
	}
	leave := func() { holders.Add(-1) }
	if p.Knob("metrics") == 1 {
		m := &fsync.MetricsMutex{}
		shared := 0
		for _, id := range ids {
			id := id
			e.Go("task", func() {
				for _, o := range ops[id] {
					time.Sleep(time.Duration(o.A) * time.Millisecond)
					m.Lock()
					enter("MetricsMutex")
					shared++
					time.Sleep(time.Duration(o.B) * time.Millisecond)
					shared++
					leave()
					m.Unlock()
				}
			})
		}
		e.Join(time.Hour, "liveness", "MetricsMutex users")
		if shared != 2*len(p.Ops) {
			e.Fail("lost-update", "shared counter %d, want %d", shared, 2*len(p.Ops))
		}
		return
	}
	m := &fsync.Mutex{}
	e.twinMutex(p)
	shared, want := 0, &N{}
	var freed atomic.Int64 // when the lock was last released
	started := time.Now()
	freed.Store(0)
	// taken: the lock was not left unused while somebody asked for it.
	taken := func(t0 time.Time, what string) {
		since := started.Add(time.Duration(freed.Load()))
		if since.Before(t0) {
			since = t0
		}
		if idle := time.Since(since); idle > e.Slack() {
			e.Fail("idle", "%s: the lock was free for %s while it was asked for", what, idle)
		}
	}
	for _, id := range ids {
		id := id
		e.Go("task", func() {
			for _, o := range ops[id] {
				time.Sleep(time.Duration(o.A) * time.Millisecond)
				t0 := time.Now()
				if o.K == "lock" {
					m.Lock()
				} else {
					d := time.Duration(o.C) * time.Millisecond
					ok := m.TryLock(d)
					el := time.Since(t0)
					e.Ev("t%d trylock(%s) %v", id, d, ok)
					if !ok {
						e.Probe("timeout")
						if el < d {
							e.Fail("early-timeout", "TryLock(%s) gave up after %s", d, el)
						}
						if el > d+e.Slack() {
							e.Fail("late-timeout", "TryLock(%s) gave up only after %s", d, el)
						}
						if d >= time.Hour && p.Knob("long") == 0 {
							e.Fail("missed-lock", "TryLock(%s) failed though every holder released within minutes", d)
						}
						continue
					}
					if el > d+e.Slack() {
						e.Fail("late-timeout", "TryLock(%s) succeeded only after %s", d, el)
					}
					e.Probe("locked")
				}
				enter(o.K)
				taken(t0, o.K)
				shared++
				time.Sleep(time.Duration(o.B) * time.Millisecond)
				shared++
				want.Add(2)
				freed.Store(int64(time.Since(started)))
				leave()
				m.Unlock()
			}
		})
	}
	e.Join(48*time.Hour, "liveness", "Mutex users")
	if int64(shared) != want.Get() {
		e.Fail("lost-update", "shared counter %d, want %d", shared, want.Get())
	}
	// Abandoned attempts must neither keep the lock nor linger.
	if !m.TryLock(time.Hour) {
		e.Fail("stuck", "the lock is not available though everybody released it\n%s", foregoStacks())
	}
	m.Unlock()
	time.Sleep(10 * time.Minute)
	if l := e.Leaks(); len(l) > 0 {
		e.Fail("leak", "goroutines of timed-out attempts linger:\n%s", l[0])
	}
	if !m.Mutex.TryLock() {
		e.Fail("stuck", "the lock is held though nobody holds it")
	}
}
