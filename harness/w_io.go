package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	ftest "github.com/Aize-Public/forego/test"
	"github.com/Aize-Public/forego/utils"
)

func init() {
	register(&Workload{ID: "C21", Gen: genC21, Run: runC21})
	register(&Workload{ID: "C22", Gen: genC22, Run: runC22})
	register(&Workload{ID: "C27", Gen: genC27, Run: runC27})
}

// --- C21: enc.Pipe -----------------------------------------------------------

func genC21(r *Rng) *Plan {
	p := &Plan{Knobs: map[string]int64{"buf": pick(r, int64(0), 1, 2, 3, 16), "readers": int64(r.Range(1, 2)), "readers2": int64(r.Range(1, 2)), "nil": int64(r.N(2))}}
	span := pick(r, int64(0), 3, 100)
	n := r.Range(3, 20)
	if r.P(1, 8) {
		n = r.Range(30, 120)
	} else if r.P(1, 4) { // they rest for hours
		p.Knobs["lazy"] = int64(r.Range(1, 3))
	}
	// tasks 0-1 write to side A, 2-3 to side B, 4+ readers (implicit)
	for i := 0; i < n; i++ {
		o := Op{T: r.N(4), K: "write", A: r.I(span + 1)}
		if r.P(1, 4) {
			o.K, o.B = "cwrite", r.I(span+2) // with a timeout
		}
		p.Ops = append(p.Ops, o)
	}
	// per side: when it is closed (after all writers, or in the middle by another task)
	for side := 0; side < 2; side++ {
		o := Op{T: 10 + side, K: "close", A: r.I(span*4 + 1), B: r.I(2)} // B=1: early
		p.Ops = append(p.Ops, o)
	}
	for i := 0; i < r.N(4); i++ {
		p.Ops = append(p.Ops, Op{T: 20 + r.N(2), K: "cread", A: r.I(span + 1), B: r.I(span + 2)})
	}
	return p
}

type pipeItem struct {
	writer, seq     int
	start, end      int64
	err             error
	recv            int // times received
	recvAt          int64
	recvEnd         int64
	closedAtCall    bool // Close had returned before the write was called
	closeCalledDone bool // Close had been called when the write returned
}

func runC21(e *Env, p *Plan) {
	var side [2]enc.Pipe
	side[0], side[1] = enc.NewPipe(int(p.Knob("buf")))
	bg := ctx.TODO()
	e.twinPipe(bg, p)
	type dir struct {
		items                 *L[pipeItem]
		order                 [3]*L[int] // per reader: received items
		closeCalled, closeRet N
		eofs                  N
		writersLeft           N
		perWriterLast         [64][2]int
	}
	var ds [2]*dir
	for i := range ds {
		ds[i] = &dir{items: NewL[pipeItem](200)}
		ds[i].order[0], ds[i].order[1], ds[i].order[2] = NewL[int](400), NewL[int](400), NewL[int](400)
	}
	ids, ops := p.ByTask()
	for _, id := range ids {
		if id < 4 {
			ds[id/2].writersLeft.Add(1)
		}
	}
	doClose := func(s int) {
		d := ds[s]
		d.closeCalled.Set(e.Seq())
		if err := side[s].Close(bg); err != nil {
			e.Fail("close-error", "Close: %v", err)
		}
		if d.closeRet.Get() == 0 {
			d.closeRet.Set(e.Seq())
		}
		e.Ev("closed %d", s)
	}
	// gotItem: the reader r of the direction fed by side s received a node
	gotItem := func(s, r int, n enc.Node, call, ret int64) {
		d := ds[s]
		i, ok := n.(enc.Integer)
		if n == nil && p.Knob("nil") == 1 {
			i, ok = 1, true
		}
		if !ok || int(i) < 0 || int(i) >= d.items.Len() || d.items.At(int(i)).start == 0 {
			e.Fail("alien", "received %v, which nobody wrote to this side", n)
		}
		it := d.items.At(int(i))
		it.recv++
		if it.recv > 1 {
			e.Fail("duplicate", "item %d of side %d received twice", i, s)
		}
		it.recvAt, it.recvEnd = call, ret
		d.items.Put(int(i), it)
		d.order[r].Add(int(i))
	}
	read := func(s, r int, c ctx.C) (enc.Node, error) {
		d := ds[s]
		call := e.Seq()
		n, err := side[1-s].Read(c)
		ret := e.Seq()
		if err == nil {
			gotItem(s, r, n, call, ret)
			return n, nil
		}
		if err == io.EOF {
			if d.closeCalled.Get() == 0 {
				e.Fail("early-eof", "EOF on a side nobody closed")
			}
			d.eofs.Add(1)
			return nil, err
		}
		if c.Err() == nil {
			e.Fail("read-error", "Read: %v though neither closed nor cancelled", err)
		}
		if !errors.Is(err, c.Err()) {
			e.Fail("read-error", "Read: %v, context says %v", err, c.Err())
		}
		return nil, err
	}
	for _, id := range ids {
		id := id
		switch {
		case id < 4:
			s := id / 2
			d := ds[s]
			e.Go("writer", func() {
				k := 0
				for _, o := range ops[id] {
					time.Sleep(time.Duration(o.A) * time.Millisecond)
					if p.Knob("lazy")&1 != 0 && o.A%2 == 1 {
						time.Sleep(time.Hour)
					}
					c := bg
					cf := func() {}
					t0 := time.Now()
					if o.K == "cwrite" {
						c, cf = ctx.WithTimeout(c, time.Duration(o.B)*time.Millisecond)
					}
					i := d.items.Add(pipeItem{})
					k++
					it := pipeItem{writer: id, seq: k, start: e.Seq(), closedAtCall: d.closeRet.Get() != 0}
					d.items.Put(i, it)
					var n enc.Node = enc.Integer(i)
					if i == 1 && p.Knob("nil") == 1 {
						n = nil
					}
					err := side[s].Write(c, n)
					if o.K == "cwrite" && time.Since(t0) > time.Duration(o.B)*time.Millisecond+e.Slack() {
						e.Fail("late", "a cancelled Write returned only after %s", time.Since(t0))
					}
					it = d.items.At(i)
					it.end, it.err, it.closeCalledDone = e.Seq(), err, d.closeCalled.Get() != 0
					d.items.Put(i, it)
					e.Ev("side %d write %d: %v", s, i, err)
					switch {
					case err == nil:
						if it.closedAtCall {
							e.Fail("write-after-close", "Write after Close succeeded")
						}
					case c.Err() != nil && errors.Is(err, c.Err()):
					case errors.Is(err, io.ErrClosedPipe):
						if !it.closeCalledDone {
							e.Fail("write-error", "Write: %v although nobody closed this side", err)
						}
					default:
						e.Fail("write-error", "Write: %v", err)
					}
					cf()
				}
				if d.writersLeft.Add(-1) == 0 {
					doClose(s)
				}
			})
		case id == 10 || id == 11:
			for _, o := range ops[id] {
				if o.B == 1 || ds[id-10].writersLeft.Get() == 0 {
					e.Go("closer", func() {
						time.Sleep(time.Duration(o.A) * time.Millisecond)
						doClose(id - 10)
						doClose(id - 10) // harmless
					})
				}
			}
		default:
			s := id % 2
			e.Go("creader", func() {
				for _, o := range ops[id] {
					time.Sleep(time.Duration(o.A) * time.Millisecond)
					c, cf := ctx.WithTimeout(bg, time.Duration(o.B)*time.Millisecond)
					t0 := time.Now()
					_, err := read(s, 2, c)
					if time.Since(t0) > time.Duration(o.B)*time.Millisecond+e.Slack() {
						e.Fail("late", "a cancelled Read returned only after %s", time.Since(t0))
					}
					e.Ev("cread %d %v", s, err)
					cf()
				}
			})
		}
	}
	for s := 0; s < 2; s++ {
		s := s
		nr := int(p.Knob([]string{"readers", "readers2"}[s]))
		hasClose := ds[s].writersLeft.Get() > 0
		for _, id := range ids {
			hasClose = hasClose || id == 10+s
		}
		if !hasClose {
			continue
		}
		for r := 0; r < max(nr, 1); r++ {
			r := r % 2
			e.Go("reader", func() {
				for {
					if p.Knob("lazy")&2 != 0 && e.Flip(1, 2) {
						time.Sleep(time.Hour)
					}
					if _, err := read(s, r, bg); err != nil {
						// EOF is final
						if _, err := read(s, r, bg); err != io.EOF {
							e.Fail("after-eof", "Read after EOF: %v", err)
						}
						return
					}
				}
			})
		}
	}
	e.Join(1000*time.Hour, "liveness", "pipe users")
	for s, d := range ds {
		items := d.items.All()
		for i, it := range items {
			if it.err == nil && it.recv == 0 && d.eofs.Get() > 0 {
				e.Fail("lost", "side %d: item %d was written without error but never received (the reader got EOF)", s, i)
			}
			if it.err != nil && it.recv > 0 {
				e.Fail("ghost", "side %d: Write of item %d failed (%v), yet it was received", s, i, it.err)
			}
		}
		// FIFO: if item i was fully written before item j was begun, then nobody
		// gets j in a Read that ended before the Read that got i began.
		for i, a := range items {
			for j, b := range items {
				if a.recv > 0 && b.recv > 0 && a.end < b.start && b.recvEnd < a.recvAt {
					e.Fail("order", "side %d: item %d was written before %d but received after it", s, i, j)
				}
			}
		}
		for r := range d.order {
			var last [64]int
			for _, i := range d.order[r].All() {
				it := items[i]
				if it.seq < last[it.writer] {
					e.Fail("order", "side %d: one reader got the items of writer %d out of order", s, it.writer)
				}
				last[it.writer] = it.seq
			}
		}
	}
}

// --- C22: utils.ReadAll -------------------------------------------------------

func genC22(r *Rng) *Plan {
	// one stream, mostly; or several at once, whose bytes do not mix
	p := &Plan{Knobs: map[string]int64{"streams": pick(r, int64(1), 1, 1, 2, 3, 4)}}
	for s := int64(0); s < p.Knobs["streams"]; s++ {
		genC22stream(r, p, int(s))
	}
	return p
}

func genC22stream(r *Rng, p *Plan, s int) {
	k := func(name string, v int64) { p.Knobs[fmt.Sprint(name, s)] = v }
	span := pick(r, int64(0), 5, 200)
	timeout, cancel, end := pick(r, int64(-1), -1, 0, span+1, span*5), pick(r, int64(-1), -1, span*3), int64(r.N(5))
	k("close", int64(r.N(3))) // 0 nil, 1 unblocks the reader, 2 unblocks, fails
	k("wrap", int64(r.N(2)))
	k("append", int64(r.N(2)))
	k("err", int64(r.N(6)))
	k("start", pick(r, 0, 0, 1, span*2))
	if end == 4 && timeout < 0 && cancel < 0 {
		timeout = span * 3
	}
	k("timeout", timeout)
	k("cancel", cancel)
	k("end", end) // 0 EOF alone, 1 EOF with the last data, 2 error alone, 3 error with data, 4 blocks until closed
	var ops []Op
	n := r.N(8)
	for i := 0; i < n; i++ {
		ops = append(ops, Op{T: s, K: "data", A: r.I(span + 1), B: pick(r, int64(0), 1, 7, 8191, 8192, 8193, 20000)})
	}
	switch r.N(16) {
	case 0: // a lot
		for n := 1 + r.N(12); n > 0; n-- {
			ops = append(ops, Op{T: s, K: "data", B: pick(r, int64(0), 8192, 65535, 65536, 65537, 200000)})
		}
	case 1: // nothing, many times
		at := r.N(len(ops) + 1)
		for n := 50 + r.N(200); n > 0; n-- {
			ops = append(ops[:at:at], append([]Op{{T: s, K: "data"}}, ops[at:]...)...)
		}
	}
	p.Ops = append(p.Ops, ops...)
}

type scriptReader struct {
	e      *Env
	ops    []Op
	end    int
	err    error
	sent   *L[byte] // everything handed out
	closed chan struct{}
	left   []byte
	n      byte
	step   byte // odd: every value comes
	nclose N
	ended  N
	reads  N
	after  N // reads begun after ReadAll returned
	done   N
}

func (r *scriptReader) Read(b []byte) (int, error) {
	if r.reads.Add(1) != 1 {
		r.e.Fail("concurrent-read", "the reader is read twice at once")
	}
	defer r.reads.Add(-1)
	if r.ended.Get() != 0 {
		r.e.Fail("read-after-end", "the reader is read again after its end")
	}
	for len(r.left) == 0 {
		if len(r.ops) == 0 {
			switch r.end {
			case 4:
				<-r.closed
				r.ended.Set(1)
				return 0, io.ErrClosedPipe
			default:
				r.ended.Set(1)
				return 0, r.err
			}
		}
		o := r.ops[0]
		r.ops = r.ops[1:]
		if o.A > 0 {
			t := time.NewTimer(time.Duration(o.A) * time.Millisecond)
			select {
			case <-t.C:
			case <-r.closed:
				t.Stop()
				r.ended.Set(1)
				return 0, io.ErrClosedPipe
			}
		}
		if o.B == 0 {
			return 0, nil
		}
		r.left = make([]byte, o.B)
		for i := range r.left {
			r.n += r.step
			r.left[i] = r.n
		}
	}
	n := min(len(b), len(r.left))
	if n > 1 && r.e.Flip(1, 4) {
		r.e.Fault("short_read")
		n = 1 + r.e.Choose(n-1)
	}
	copy(b, r.left[:n])
	for _, x := range b[:n] {
		r.sent.Add(x)
	}
	r.left = r.left[n:]
	if len(r.left) == 0 && len(r.ops) == 0 && (r.end == 1 || r.end == 3) {
		r.ended.Set(1)
		r.e.Probe("data_with_end")
		return n, r.err
	}
	return n, nil
}

func (r *scriptReader) Close() error {
	if r.nclose.Add(1) == 1 {
		close(r.closed)
	}
	return nil
}

func runC22(e *Env, p *Plan) {
	leak := false
	for s := int64(0); s < max(1, p.Knob("streams")); s++ {
		s := int(s)
		if p.Knob(fmt.Sprint("close", s)) == 0 && p.Knob(fmt.Sprint("end", s)) == 4 {
			leak = true // nobody can stop this reader
		}
		e.Go(fmt.Sprint("stream", s), func() { runC22stream(e, p, s) })
	}
	e.Join(100*time.Hour, "liveness", "ReadAll and helpers")
	if !leak {
		time.Sleep(time.Hour)
		if l := e.Leaks(); len(l) > 0 {
			e.Fail("leak", "a goroutine stays behind:\n%s", l[0])
		}
	}
}

func runC22stream(e *Env, p *Plan, s int) {
	knob := func(name string) int64 { return p.Knob(fmt.Sprint(name, s)) }
	size := 0
	var ops []Op
	for _, o := range p.Ops {
		if o.T == s {
			ops = append(ops, o)
			size += int(o.B)
		}
	}
	time.Sleep(ms(knob("start")))
	r := &scriptReader{e: e, ops: ops, step: byte(2*s + 1), end: int(knob("end")), sent: NewL[byte](size), closed: make(chan struct{})}
	// a failure is one whatever it is made of: only a bare EOF is the end
	failure := []error{errors.New("disk on fire"), fmt.Errorf("connection lost: %w", io.EOF), io.ErrUnexpectedEOF, context.Canceled, os.ErrDeadlineExceeded, io.ErrClosedPipe}[knob("err")%6]
	r.err = io.EOF
	if r.end == 2 || r.end == 3 {
		r.err = failure
		if knob("wrap") == 1 {
			r.err = fmt.Errorf("wrapped: %w", failure)
		}
	}
	var total time.Duration
	for _, o := range ops {
		total += time.Duration(o.A) * time.Millisecond
	}
	base, cancel := context.WithCancel(context.Background())
	defer cancel()
	var c ctx.C = base
	if t := knob("timeout"); t >= 0 {
		cc, cf := ctx.WithTimeout(c, time.Duration(t)*time.Millisecond)
		defer cf()
		c = cc
	}
	if t := knob("cancel"); t >= 0 {
		e.Go(fmt.Sprint("cancel", s), func() {
			time.Sleep(time.Duration(t) * time.Millisecond)
			e.Fault("cancel")
			cancel()
		})
	}
	var closeFn func() error
	switch knob("close") {
	case 1:
		closeFn = r.Close
	case 2:
		closeFn = func() error { r.Close(); return errors.New("close failed") }
	}
	t0 := time.Now()
	out, err := utils.ReadAll(c, r, closeFn)
	el := time.Since(t0)
	cerr := c.Err()
	saved := append([]byte(nil), out...)
	ncloseAtRet := r.nclose.Get()
	e.Ev("ReadAll: %d bytes, %v, cancelled %v", len(out), err, cerr)
	limit := total
	for _, k := range []string{"timeout", "cancel"} {
		if t := knob(k); t >= 0 && (time.Duration(t)*time.Millisecond < limit || r.end == 4) {
			limit = time.Duration(t) * time.Millisecond
		}
	}
	if el > limit+e.Slack() {
		e.Fail("late", "ReadAll returned after %s; the stream takes %s, its context allows %s", el, total, limit)
	}
	if closeFn != nil && ncloseAtRet != 1 {
		e.Fail("close-count", "close was called %d times", ncloseAtRet)
	}
	ended := r.ended.Get() != 0
	switch {
	case err == nil:
		if !ended || r.err != io.EOF || r.end == 4 {
			e.Fail("false-success", "ReadAll succeeded on a stream that ended with %v (ended %v)", r.err, ended)
		}
		if !bytes.Equal(saved, r.sent.All()) {
			e.Fail("lost-data", "ReadAll returned %d bytes of the %d the stream gave", len(saved), r.sent.Len())
		}
		e.Probe("success")
	case cerr != nil && errors.Is(err, cerr):
		e.Probe("cancelled")
		if !bytes.HasPrefix(r.sent.All(), saved) {
			e.Fail("wrong-data", "after a cancellation ReadAll returned %d bytes that are no prefix of the stream", len(saved))
		}
		if knob("append") == 1 { // the result is the caller's, to append to
			out = append(out, 0xee, 0xee, 0xee)
			saved = append([]byte(nil), out...)
		}
		time.Sleep(time.Hour)
		if !bytes.Equal(saved, out) {
			e.Fail("unstable-result", "the bytes ReadAll returned changed afterwards")
		}
	case errors.Is(err, failure) && r.end >= 2 && ended:
		e.Probe("failed")
		if !bytes.Equal(saved, r.sent.All()) {
			e.Fail("lost-data", "ReadAll returned %d bytes with the error, the stream gave %d", len(saved), r.sent.Len())
		}
	default:
		e.Fail("wrong-error", "ReadAll: %v; stream error %v (ended %v), context %v", err, r.err, ended, cerr)
	}
}

// --- C27: test.BufferedRWC ------------------------------------------------------

func genC27(r *Rng) *Plan {
	p := &Plan{Knobs: map[string]int64{"readers": int64(r.Range(1, 3)), "bufsz": pick(r, int64(1), 3, 100, 5000), "how": int64(r.N(6) / 5), "reuse": int64(r.N(6) / 5), "early": int64(r.N(3) / 2), "zero": int64(r.N(4) / 3), "busy": int64(r.N(4) / 3), "poll": int64(r.N(3) / 2)}}
	span := pick(r, int64(0), 0, 10)
	n := r.Range(1, 12)
	feeders, most := r.Range(1, 3), int64(8)
	switch r.N(10) {
	case 0:
		n = r.Range(20, 60)
	case 1:
		most = 9000
	case 2:
		n, most = r.Range(100, 400), 3
	}
	for i := 0; i < n; i++ {
		p.Ops = append(p.Ops, Op{T: r.N(feeders), K: pick(r, "append", "append", "write"), A: r.I(span + 1), B: 1 + r.I(most)})
	}
	return p
}

func runC27(e *Env, p *Plan) {
	b := ftest.NewBufferedRWC()
	e.twinRWC(p)
	ids, ops := p.ByTask()
	chunks := NewL[[]byte](100)
	var writes [3]L[[]byte]
	for i := range writes {
		writes[i] = *NewL[[]byte](100)
	}
	lent := NewL[[]byte](100) // what follows the chunks in memory
	nappend := &N{}
	left := &N{}
	var next N
	closeAll := func() {
		if p.Knob("how") == 0 {
			b.SetReadClosed()
		} else if err := b.Close(); err != nil {
			e.Fail("close-error", "Close: %v", err)
		}
		if !b.IsReadClosed() {
			e.Fail("closed", "not closed after it was")
		}
	}
	left.Set(int64(len(ids)))
	total := 0
	for _, o := range p.Ops {
		if o.K == "append" {
			total += int(o.B)
		}
	}
	readBytes := &N{}
	var chunkOf [256]int // of each byte, if they are few enough to be distinct
	type readRec struct {
		r          int
		call, ret  int64
		first, end byte
	}
	reads := NewL[readRec](total + 100)
	for _, id := range ids {
		id := id
		e.Go("feeder", func() {
			reuse := make([]byte, 10000)
			for _, o := range ops[id] {
				time.Sleep(time.Duration(o.A) * time.Millisecond)
				if o.K == "write" {
					w := reuse[:o.B]
					if p.Knob("reuse") == 0 {
						w = make([]byte, o.B)
					}
					for i := range w {
						w[i] = byte(id)<<6 | byte(writes[id%3].Len()+i)&63
					}
					writes[id%3].Add(append([]byte(nil), w...))
					n, err := b.Write(w)
					if err != nil || n != len(w) {
						e.Fail("write-error", "Write: %d, %v", n, err)
					}
					continue
				}
				ch := make([]byte, o.B)
				first := next.Add(int64(len(ch))) - int64(len(ch)) + 1
				for i := range ch {
					ch[i] = byte(first + int64(i))
					if total < 256 {
						chunkOf[first+int64(i)] = chunks.Len() + 1
					}
				}
				chunks.Add(ch)
				whole := bytes.Repeat([]byte{0xee}, len(ch)+20)
				lent.Add(whole[len(ch):])
				b.Append(append(whole[:0], ch...))
				nappend.Add(1)
			}
			if left.Add(-1) == 0 {
				// all data must reach the readers although nothing else happens
				t0 := time.Now()
				for readBytes.Get() < int64(total) && (p.Knob("early") == 0 || p.Knob("how") != 0) {
					if time.Since(t0) > time.Hour {
						e.Fail("lost-wakeup", "%d bytes appended, %d read, readers do not get the rest\n%s", total, readBytes.Get(), foregoStacks())
					}
					time.Sleep(time.Minute)
				}
				closeAll()
			}
		})
	}
	got := make([]L[byte], 3)
	for i := range got {
		got[i] = *NewL[byte](2000 + total)
	}
	if p.Knob("poll") == 1 && len(ids) > 0 {
		e.Go("poller", func() {
			for i := 0; i < 6; i++ {
				time.Sleep(time.Duration(e.Choose(4)) * time.Millisecond)
				if b.IsReadClosed() && left.Get() > 0 {
					e.Fail("closed", "IsReadClosed before it was")
				}
				if b.HasRead() && next.Get() == 0 {
					e.Fail("hasread", "HasRead and nothing was ever appended")
				}
			}
		})
	}
	// one reader takes a long time over what it got: the others get the rest
	most := int64(0)
	for _, o := range p.Ops {
		most = max(most, o.B)
	}
	busy := p.Knob("busy") == 1 && p.Knob("readers") > 1 && p.Knob("bufsz") >= most
	if len(ids) > 0 {
		for r := 0; r < int(max(1, p.Knob("readers"))); r++ {
			r := r % 3
			e.Go("reader", func() {
				buf := make([]byte, max(1, p.Knob("bufsz")))
				for {
					if p.Knob("zero") == 1 && e.Flip(1, 3) {
						// reading nothing neither waits nor takes anything away
						if n, err := b.Read(nil); n != 0 || err != nil && (err != io.EOF || left.Get() > 0) {
							e.Fail("zero-read", "Read of 0 bytes: %d, %v", n, err)
						}
					}
					call := e.Seq()
					n, err := b.Read(buf)
					if n > 0 {
						reads.Add(readRec{r, call, e.Seq(), buf[0], buf[n-1]})
					}
					if n == 0 && err == nil {
						e.Fail("empty-read", "Read returned nothing and no error")
					}
					for _, x := range buf[:n] {
						got[r].Add(x)
					}
					readBytes.Add(int64(n))
					if busy && r == 0 && n > 0 {
						e.Probe("busy_reader")
						for t0 := time.Now(); readBytes.Get() < int64(total) && time.Since(t0) < 2*time.Hour; {
							time.Sleep(time.Minute)
						}
					}
					if err == io.EOF {
						if left.Get() > 0 {
							e.Fail("early-eof", "EOF before the end")
						}
						return
					}
					if err != nil {
						e.Fail("read-error", "Read: %v", err)
					}
				}
			})
		}
	}
	if p.Knob("how") == 0 {
		e.Join(10*time.Hour, "liveness", "readers after SetReadClosed")
	} else {
		e.Join(10*time.Hour, "close-wakeup", "readers after Close")
	}
	if len(ids) > 0 && (!b.IsReadClosed() || b.HasRead()) {
		e.Fail("closed", "closed, and all was read: IsReadClosed=%v HasRead=%v", b.IsReadClosed(), b.HasRead())
	}
	for _, l := range lent.All() {
		if bytes.Count(l, []byte{0xee}) != len(l) {
			e.Fail("overwritten", "the memory after an appended chunk was written to: %v", l)
		}
	}
	var all []byte
	for r := range got {
		all = append(all, got[r].All()...)
	}
	var want []byte
	for _, c := range chunks.All() {
		want = append(want, c...)
	}
	if len(ids) > 0 {
		if p.Knob("readers") <= 1 && len(ids) == 1 && !bytes.Equal(all, want) {
			e.Fail("stream", "read %v, want %v", all, want)
		}
		if total < 256 {
			for _, a := range reads.All() {
				if chunkOf[a.first] == 0 || chunkOf[a.first] != chunkOf[a.end] || a.end < a.first {
					continue // alien bytes are found below
				}
				for _, b := range reads.All() {
					if a.ret < b.call && (chunkOf[a.first] == chunkOf[b.first] || len(ids) == 1) && a.first > b.first {
						e.Fail("order", "byte %d was read after byte %d", b.first, a.first)
					}
				}
			}
			if p.Knob("readers") <= 1 { // chunks are not mixed
				seen, last := map[int]bool{}, 0
				for _, x := range all {
					if k := chunkOf[x]; k != last {
						if seen[k] {
							e.Fail("order", "read %v: chunk %v is mixed with another", all, want)
						}
						seen[k], last = true, k
					}
				}
			}
		}
		var cnt [256]int
		for _, x := range want {
			cnt[x]++
		}
		for _, x := range all {
			cnt[x]--
		}
		for x, n := range cnt {
			if n != 0 {
				e.Fail("conservation", "byte %d: %d lost", x, n)
			}
		}
	}
	// what was written, in order per writer
	var perID [3]int
	for _, w := range b.Written {
		id := int(w[0] >> 6)
		if id > 2 || perID[id] >= writes[id].Len() || !bytes.Equal(w, writes[id].At(perID[id])) {
			class := "written"
			if p.Knob("reuse") == 1 {
				class = "written-reused" // the writer used its buffer again, as io.Writer allows
			}
			e.Fail(class, "Written holds %v, which is not what the writer passed", w)
		}
		perID[id]++
	}
	for id := range perID {
		if perID[id] != writes[id].Len() {
			e.Fail("written", "writer %d: %d of %d writes recorded", id, perID[id], writes[id].Len())
		}
	}
	if len(ids) > 0 {
		if _, err := b.Write([]byte("x")); err != io.ErrClosedPipe {
			e.Fail("after-close", "Write after the end: %v", err)
		}
	}
}
