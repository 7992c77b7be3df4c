package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/storage"
	"github.com/anishathalye/porcupine"
)

// C20: the key-value store is linearizable, Range sees one instant.
func init() {
	register(&Workload{ID: "C20", Gen: func(r *Rng) *Plan {
		tasks, keys := r.Range(2, 5), r.Range(1, 4)
		p := &Plan{Knobs: map[string]int64{"keys": int64(keys), "pre": int64(r.N(keys + 1))}}
		n := r.Range(4, 16)
		if r.P(1, 8) {
			p.Knobs["bulk"] = pick(r, int64(100), 300, 1500)
		}
		if r.P(1, 8) { // many records
			tasks, keys, n = r.Range(1, 2), r.Range(8, 60), r.Range(20, 60)
			p.Knobs["keys"], p.Knobs["pre"] = int64(keys), int64(r.N(keys+1))
		}
		for i := 0; i < n; i++ {
			o := Op{T: r.N(tasks), K: pick(r, "get", "put", "put", "put", "del", "range", "range", "range", "reenter", "badfilter", "cancelled"), A: r.I(int64(keys)), B: r.I(6), C: r.I(5)}
			p.Ops = append(p.Ops, o)
		}
		return p
	}, Run: runC20})
}

type kvIn struct {
	Op, Key, Val string
	Filter       int
}
type kvOut struct {
	Val string
	All string
}

// records: version, a type of three, a nested map
func kvRec(n int, typ int64) (enc.Map, string) {
	if typ%5 == 4 { // nothing in it: a record all the same
		return enc.Map{}, "0//0"
	}
	t := []string{"x", "y", ""}[typ%3]
	m := enc.Map{"n": enc.Integer(n), "nest": enc.Map{"a": enc.Integer(int(typ % 2)), "b": enc.String("k"), "c": enc.List{enc.Integer(1)}}}
	if t != "" {
		m["t"] = enc.String(t)
	}
	return m, fmt.Sprintf("%d/%s/%d", n, t, typ%2)
}

func kvDec(m enc.Map) string {
	if m == nil {
		return ""
	}
	n, _ := m["n"].(enc.Integer)
	t, _ := m["t"].(enc.String)
	nest, _ := m["nest"].(enc.Map)
	a, _ := nest["a"].(enc.Integer)
	return fmt.Sprintf("%d/%s/%d", n, string(t), a)
}

var kvFilters = [][]storage.Filter{
	nil,
	{{Field: "t", Cmp: storage.Equal, Val: enc.String("x")}},
	{{Field: "t", Cmp: storage.NotEqual, Val: enc.String("x")}},
	{{Field: "t", Cmp: storage.Equal, Val: enc.Nil{}}},
	{{Field: "nest", Cmp: storage.Equal, Val: enc.Map{"c": enc.List{enc.Integer(1)}, "b": enc.String("k"), "a": enc.Integer(1)}}},
	{{Field: "t", Cmp: storage.NotEqual, Val: enc.String("y")}, {Field: "nest", Cmp: storage.NotEqual, Val: enc.Map{"a": enc.Integer(1), "b": enc.String("k"), "c": enc.List{enc.Integer(1)}}}},
}

func kvMatch(f int, v string) bool {
	p := strings.Split(v, "/")
	t, a := p[1], p[2]
	switch f {
	case 0:
		return true
	case 1:
		return t == "x"
	case 2:
		return t != "x"
	case 3:
		return t == ""
	case 4:
		return a == "1"
	case 5:
		return t != "y" && a != "1"
	}
	panic("filter")
}

func kvModel() porcupine.Model {
	dec := func(s string) map[string]string {
		m := map[string]string{}
		for _, x := range strings.Split(s, ";") {
			if k, v, ok := strings.Cut(x, "="); ok {
				m[k] = v
			}
		}
		return m
	}
	encS := func(m map[string]string) string {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s := ""
		for _, k := range ks {
			s += k + "=" + m[k] + ";"
		}
		return s
	}
	return porcupine.Model{
		Init: func() any { return "" },
		Step: func(st, in, out any) (bool, any) {
			m := dec(st.(string))
			i, o := in.(kvIn), out.(kvOut)
			switch i.Op {
			case "get":
				return m[i.Key] == o.Val, st
			case "put":
				m[i.Key] = i.Val
				return true, encS(m)
			case "del":
				delete(m, i.Key)
				return true, encS(m)
			case "range":
				for k, v := range m {
					if !kvMatch(i.Filter, v) {
						delete(m, k)
					}
				}
				return encS(m) == o.All, st
			case "nonempty":
				return len(m) > 0, st
			case "empty":
				return len(m) == 0, st
			}
			panic(i.Op)
		},
		Equal: func(a, b any) bool { return a == b },
	}
}

func runC20(e *Env, p *Plan) {
	var kv storage.KeyValue = storage.NewMemKeyValue()
	c := ctx.TODO()
	e.twinKV(c, p)
	h := e.NewHist(300)
	keys := cacheKeys[:max(1, p.Knob("keys"))]
	seq := &N{}
	type held struct {
		m    enc.Map
		want string
	}
	records := NewL[held](10 + (len(p.Ops)+2)*len(keys))
	hold := func(m enc.Map) string {
		s := kvDec(m)
		if m != nil {
			records.Add(held{m, s})
		}
		return s
	}
	put := func(id int, k string, typ int64) {
		n, s := kvRec(int(seq.Add(1)), typ)
		h.Do(id, kvIn{Op: "put", Key: k, Val: s}, func() any {
			if err := kv.Upsert(c, k, n); err != nil {
				e.Fail("error", "Upsert: %v", err)
			}
			return kvOut{}
		})
	}
	for i := 0; i < int(p.Knob("pre")) && i < len(keys); i++ {
		put(0, keys[i], int64(i))
	}
	// many other records, which nobody changes
	bulk := int(p.Knob("bulk"))
	for i := 0; i < bulk; i++ {
		n, _ := kvRec(i, int64(i%3))
		if err := kv.Upsert(c, fmt.Sprint("bulk", i), n); err != nil {
			e.Fail("error", "Upsert: %v", err)
		}
	}
	rngC := func(c ctx.C, id, f int, fn func(n int) error) (n int, err error) {
		seen := map[string]string{}
		call := e.Seq()
		err = kv.Range(c, func(c ctx.C, k string, v enc.Map) error {
			if _, dup := seen[k]; dup {
				e.Fail("range-duplicate", "Range gave %q twice", k)
			}
			n++
			if strings.HasPrefix(k, "bulk") {
				seen[k] = kvDec(v)
			} else {
				seen[k] = hold(v)
			}
			return fn(n)
		}, kvFilters[f]...)
		ret := e.Seq()
		if err == nil && n == len(seen) && fn(-n) == nil {
			for i := 0; i < bulk; i++ {
				k := fmt.Sprint("bulk", i)
				_, want := kvRec(i, int64(i%3))
				if s, ok := seen[k]; ok != kvMatch(f, want) || ok && s != want {
					e.Fail("range-lost", "Range with filter %d gave %q (present %v) for %q, which is %s throughout", f, s, ok, k, want)
				}
				delete(seen, k)
			}
		}
		if err == nil && n >= len(seen) && fn(-n) == nil {
			var ks []string
			for k := range seen {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			s := ""
			for _, k := range ks {
				s += k + "=" + seen[k] + ";"
			}
			h.Add(id, kvIn{Op: "range", Filter: f}, kvOut{All: s}, call, ret)
		}
		return n, err
	}
	rng := func(id, f int, fn func(n int) error) (n int, err error) { return rngC(c, id, f, fn) }
	ids, ops := p.ByTask()
	for _, id := range ids {
		id := id
		e.Go("task", func() {
			for _, o := range ops[id] {
				k := keys[int(o.A)%len(keys)]
				switch o.K {
				case "get":
					h.Do(id+1, kvIn{Op: "get", Key: k}, func() any {
						v, err := kv.Get(c, k)
						if err != nil {
							e.Fail("error", "Get: %v", err)
						}
						return kvOut{Val: hold(v)}
					})
				case "put":
					put(id+1, k, o.C)
				case "del":
					h.Do(id+1, kvIn{Op: "del", Key: k}, func() any {
						if err := kv.Delete(c, k); err != nil {
							e.Fail("error", "Delete: %v", err)
						}
						return kvOut{}
					})
				case "range":
					f := int(o.B) % len(kvFilters)
					switch o.C {
					default:
						if _, err := rng(id+1, f, func(int) error { return nil }); err != nil {
							e.Fail("error", "Range: %v", err)
						}
					case 2: // end of data: stops, no error
						at := 1 + int(o.A)/2
						n, err := rng(id+1, f, func(n int) error {
							if n == at || n < 0 {
								return storage.EOD
							}
							return nil
						})
						if err != nil || n > at {
							e.Fail("range-stop", "Range stopped with EOD: %d calls, %v", n, err)
						}
					case 3: // an error stops and is passed on
						at := 1 + int(o.A)/2
						n, err := rng(id+1, f, func(n int) error {
							if n == at {
								return errStop
							}
							return nil
						})
						if n > at || n == at && !errors.Is(err, errStop) || n < at && err != nil {
							e.Fail("range-stop", "Range stopped with an error: %d calls, %v", n, err)
						}
					}
				case "cancelled": // before or during the range: all of it or an error
					c, cf := ctx.WithCancel(c)
					if o.C == 0 {
						cf(errStop)
					}
					_, err := rngC(c, id+1, int(o.B)%len(kvFilters), func(n int) error {
						if int64(n) == o.C {
							cf(errStop)
						}
						return nil
					})
					if err != nil && c.Err() == nil {
						e.Fail("error", "Range: %v", err)
					}
					cf(nil)
				case "reenter": // the callback may use the store
					if _, err := rng(id+1, int(o.B)%len(kvFilters), func(n int) error {
						if n == 1 {
							put(id+1, k, o.C)
						}
						return nil
					}); err != nil {
						e.Fail("error", "Range: %v", err)
					}
				case "badfilter":
					n := 0
					bad := storage.Filter{Field: "n", Cmp: storage.Greater, Val: enc.Integer(0)}
					if o.C == 1 {
						bad = storage.Filter{Field: "t", Cmp: "like", Val: enc.String("x")}
					}
					f := append([]storage.Filter{}, kvFilters[int(o.B)%len(kvFilters)]...)
					if o.C < 2 {
						f = append(f, bad)
					} else {
						f = append([]storage.Filter{bad}, f...)
					}
					_ = kv.Range(c, func(c ctx.C, k string, v enc.Map) error { n++; return nil }, f...)
					if n > 0 {
						e.Fail("bad-filter", "an unsupported filter let %d records pass", n)
					}
				}
			}
		})
	}
	e.Join(10*time.Hour, "liveness", "store users")
	if _, err := rng(0, 0, func(int) error { return nil }); err != nil {
		e.Fail("error", "Range: %v", err)
	}
	for _, r := range records.All() {
		if s := kvDec(r.m); s != r.want {
			e.Fail("changed", "a record read as %s is %s after later writes", r.want, s)
		}
	}
	h.Check("linearizability", "key-value store", kvModel())
}
