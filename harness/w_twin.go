package main

import (
	"fmt"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/storage"
	ftest "github.com/Aize-Public/forego/test"
	"github.com/Aize-Public/forego/utils/caches"
	"github.com/Aize-Public/forego/utils/lists"
	fsync "github.com/Aize-Public/forego/utils/sync"
)

// twin: in some runs one more task uses a second instance of whatever the run
// is about, with the same keys and values of its own. Instances share nothing:
// each must behave as if it was alone.
func (e *Env) twin(p *Plan, step func(i int, k string) (got, want any)) {
	if p.Knob("twin") == 0 {
		return
	}
	e.Fault("second_instance")
	e.Go("twin", func() {
		for i := 0; i < 8; i++ {
			time.Sleep(time.Duration(e.Choose(3)) * time.Millisecond)
			if got, want := step(i, cacheKeys[i%2]); fmt.Sprint(got) != fmt.Sprint(want) {
				e.Fail("second-instance", "step %d on an instance nobody else uses: got %v, want %v", i, got, want)
			}
		}
	})
}

func twinCache(get func(k string) (string, caches.HitMiss, error), drop func(k string)) func(i int, k string) (any, any) {
	// miss, miss, hit, hit, miss (invalidated), hit, ...
	ver := map[string]int{}
	return func(i int, k string) (any, any) {
		if i == 4 || i == 5 {
			drop(k)
			ver[k]++
		}
		v, _, err := get(k)
		return []any{v, err}, []any{fmt.Sprintf("twin-%s-%d", k, ver[k]), nil}
	}
}

// twinLoader counts its loads per key.
func twinLoader() func(k string) string {
	n := map[string]int{}
	return func(k string) string {
		n[k]++
		return fmt.Sprintf("twin-%s-%d", k, n[k]-1)
	}
}

func (e *Env) twinRequestLRU(c ctx.C, p *Plan) {
	if p.Knob("twin") == 0 {
		return
	}
	load := twinLoader()
	m := caches.NewRequestLRU(c, 64, func(c ctx.C, k string) (string, time.Duration, error) {
		v := load(k)
		time.Sleep(time.Duration(e.Choose(3)) * time.Millisecond)
		return v, 100 * time.Hour, nil
	})
	e.twin(p, twinCache(func(k string) (string, caches.HitMiss, error) { return m.Request(c, k) }, func(k string) { m.Invalidate(c, k) }))
}

func (e *Env) twinLRU(c ctx.C, p *Plan) {
	if p.Knob("twin") == 0 {
		return
	}
	load := twinLoader()
	m := caches.NewLRU(c, 64, func(c ctx.C, k string) (string, int, error) { return load(k), 1, nil })
	e.twin(p, twinCache(func(k string) (string, caches.HitMiss, error) { return m.Get(c, k) }, func(k string) { m.Invalidate(c, k) }))
}

func (e *Env) twinMem(c ctx.C, p *Plan) {
	if p.Knob("twin") == 0 {
		return
	}
	load := twinLoader()
	m := caches.Mem(c, func(c ctx.C, k string) (string, error) { return load(k), nil })
	e.twin(p, twinCache(func(k string) (string, caches.HitMiss, error) { return m.Get(c, k) }, func(k string) { m.Invalidate(c, k) }))
}

func (e *Env) twinMap(p *Plan) {
	m, own := &fsync.Map[string, any]{}, map[string]any{}
	e.twin(p, func(i int, k string) (any, any) {
		if i == 4 {
			m.Delete(k)
			delete(own, k)
		} else {
			m.Store(k, fmt.Sprint("twin-", i))
			own[k] = fmt.Sprint("twin-", i)
		}
		time.Sleep(time.Duration(e.Choose(2)) * time.Millisecond)
		return m.Map(), own
	})
}

func (e *Env) twinSet(p *Plan) {
	s, own := &lists.Set[string]{}, map[string]bool{}
	e.twin(p, func(i int, k string) (any, any) {
		var got, want bool
		if i == 4 {
			got, want = s.Remove(k), own[k]
			delete(own, k)
		} else {
			got, want = s.Add(k), !own[k]
			own[k] = true
		}
		time.Sleep(time.Duration(e.Choose(2)) * time.Millisecond)
		all := map[string]bool{}
		for _, k := range s.All() {
			all[k] = true
		}
		return []any{got, all}, []any{want, own}
	})
}

func (e *Env) twinMutex(p *Plan) {
	m := &fsync.Mutex{}
	e.twin(p, func(i int, k string) (any, any) {
		got := m.TryLock(time.Hour)
		time.Sleep(time.Duration(e.Choose(3)) * time.Millisecond)
		again := m.TryLock(time.Millisecond)
		if got {
			m.Unlock()
		}
		return []any{got, again}, []any{true, false}
	})
}

func (e *Env) twinKV(c ctx.C, p *Plan) {
	if p.Knob("twin") == 0 {
		return
	}
	kv, own := storage.NewMemKeyValue(), map[string]string{}
	e.twin(p, func(i int, k string) (any, any) {
		var err error
		if i == 4 {
			err = kv.Delete(c, k)
			delete(own, k)
		} else {
			own[k] = fmt.Sprint("twin-", i)
			err = kv.Upsert(c, k, enc.Map{"twin": enc.String(own[k])})
		}
		time.Sleep(time.Duration(e.Choose(2)) * time.Millisecond)
		got := map[string]string{}
		err2 := kv.Range(c, func(c ctx.C, k string, v enc.Map) error {
			s, _ := v["twin"].(enc.String)
			got[k] = string(s)
			return nil
		})
		return []any{got, err, err2}, []any{own, nil, nil}
	})
}

func (e *Env) twinPipe(c ctx.C, p *Plan) {
	if p.Knob("twin") == 0 {
		return
	}
	a, b := enc.NewPipe(2)
	e.twin(p, func(i int, k string) (any, any) {
		if i%2 == 1 {
			a, b = b, a
		}
		want := enc.String(fmt.Sprint("twin-", i))
		werr := a.Write(c, want)
		time.Sleep(time.Duration(e.Choose(2)) * time.Millisecond)
		n, rerr := b.Read(c)
		if i == 7 {
			a.Close(c)
		}
		return []any{n, werr, rerr}, []any{want, nil, nil}
	})
}

func (e *Env) twinRWC(p *Plan) {
	if p.Knob("twin") == 0 {
		return
	}
	b := ftest.NewBufferedRWC()
	e.twin(p, func(i int, k string) (any, any) {
		want := fmt.Sprint("twin-", i)
		b.Append([]byte(want))
		_, werr := b.Write([]byte(want))
		time.Sleep(time.Duration(e.Choose(2)) * time.Millisecond)
		has, buf := b.HasRead(), make([]byte, 20)
		n, err := b.Read(buf)
		w := ""
		if len(b.Written) > 0 {
			w = string(b.Written[len(b.Written)-1])
		}
		return []any{has, string(buf[:n]), err, werr, b.HasRead(), w, len(b.Written), b.IsReadClosed()}, []any{true, want, nil, nil, false, want, i + 1, false}
	})
}
