package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/Aize-Public/forego/ctx"
)

func init() {
	register(&Workload{ID: "C23", Gen: genC23, Run: runC23})
	register(&Workload{ID: "C24", Gen: genC24, Run: runC24})
}

// --- C23: contexts inherit values, and exactly the right cancellations ---------

var ctxKinds = []string{"cancel", "timeout", "deadline", "span", "tag", "value", "tracking", "detach"}

func genC23(r *Rng) *Plan {
	span := pick(r, int64(20), 1000, 60000)
	p := &Plan{Knobs: map[string]int64{"span": span}}
	node := func(t int) Op {
		k := pick(r, ctxKinds...)
		if r.P(1, 4) {
			k = "detach"
		}
		d := r.I(span + 1)
		if r.P(1, 6) {
			d = 100 * 3600 * 1000 // it is over before that
		}
		return Op{T: t, K: "n:" + k, A: r.I(40), B: d, C: r.I(100)}
	}
	for i, n := 0, 1+r.N(14); i < n; i++ {
		p.Ops = append(p.Ops, node(0))
	}
	if r.P(1, 10) { // one long path
		for i, n := len(p.Ops), 20+r.N(60); i < n; i++ {
			o := node(0)
			if o.A = int64(i); o.K == "n:detach" && i > 0 && r.P(3, 4) {
				o.K = "n:tag"
			}
			p.Ops = append(p.Ops, o)
		}
	}
	for t := 1; t <= 1+r.N(4); t++ {
		for i, n := 0, 1+r.N(9); i < n; i++ {
			switch r.N(7) {
			case 0, 1:
				p.Ops = append(p.Ops, Op{T: t, K: "cancel", A: r.I(40), B: r.I(3)})
			case 2, 3:
				p.Ops = append(p.Ops, Op{T: t, K: "poll", A: r.I(40)})
			case 4:
				p.Ops = append(p.Ops, Op{T: t, K: "sleep", A: r.I(span + 1)})
			case 5:
				p.Ops = append(p.Ops, Op{T: t, K: "wait", A: r.I(40), B: r.I(span + 1)})
			case 6:
				p.Ops = append(p.Ops, node(t))
			}
		}
	}
	return p
}

type ctxNode struct {
	name   string
	kind   string
	parent *ctxNode
	c      ctx.C
	cancel ctx.CancelFunc // cancel, span
	stop   func()         // timeout
	cause  error
	// begun: somebody called cancel with cause (0), Exit (1), stop (2)
	begun [3]N
	done  N
	at    time.Time // deadline
	tag   string
	key   int
}

type ctxKey int

// enders returns the nodes which may end n, nearest first.
func (n *ctxNode) enders() (out []*ctxNode) {
	for ; n != nil && n.kind != "detach"; n = n.parent {
		if n.cancel != nil || n.stop != nil {
			out = append(out, n)
		}
	}
	return
}

func (n *ctxNode) detached() bool {
	for ; n != nil; n = n.parent {
		if n.kind == "detach" {
			return true
		}
	}
	return false
}

func newCtxNode(e *Env, parent *ctxNode, kind, name string, d time.Duration) *ctxNode {
	n := &ctxNode{name: name, kind: kind, parent: parent, cause: errors.New("cause of " + name)}
	pc := parent.c
	switch kind {
	case "cancel":
		n.c, n.cancel = ctx.WithCancel(pc)
	case "span":
		n.c, n.cancel = ctx.Span(pc, name)
	case "timeout":
		n.at = time.Now().Add(d)
		n.c, n.stop = ctx.WithTimeout(pc, d)
	case "deadline":
		n.at = time.Now().Add(d)
		n.c, n.stop = ctx.WithDeadline(pc, n.at)
	case "tag":
		n.tag = fmt.Sprint("k-", len(name)%3) // keys repeat
		n.c = ctx.WithTag(pc, n.tag, name)
	case "value":
		n.key = len(name)%3 + 1
		n.c = ctx.WithValue(pc, ctxKey(n.key), n)
	case "tracking":
		n.c = ctx.WithTracking(pc, "id-"+name)
	case "detach":
		n.c = ctx.Detach(pc)
	}
	return n
}

// ended says what the model knows about n: may it have ended, must it have?
func (n *ctxNode) ended(now time.Time) (may, must bool, why string) {
	for _, a := range n.enders() {
		b := a.begun[0].Get() + a.begun[1].Get() + a.begun[2].Get()
		if b > 0 || !a.at.IsZero() && !now.Before(a.at) {
			may = true
			why += " " + a.name
		}
		if a.done.Get() > 0 {
			must = true
		}
	}
	return
}

func (n *ctxNode) path() string {
	s := ""
	for ; n != nil; n = n.parent {
		s = "/" + n.name + "(" + n.kind + ")" + s
	}
	return s
}

func checkCtxNode(e *Env, n *ctxNode, eventual bool) {
	now0 := time.Now()
	_, must, _ := n.ended(now0)
	own := n.done.Get() > 0 // it was ended itself, by a call that has returned
	cause := ctx.Cause(n.c)
	err := n.c.Err()
	may, _, why := n.ended(time.Now())
	if cause != nil && err == nil {
		e.Fail("cause-without-end", "%s: Cause is %q while Err is nil", n.path(), cause)
	}
	if err == nil {
		if own {
			e.Fail("not-ended", "%s: cancelled, still alive", n.path())
		}
		if eventual && must {
			e.Fail("not-ended", "%s: still alive long after one it descends from was ended:%s", n.path(), why)
		}
	} else {
		e.Probe("ended_polled")
		if !may {
			e.Fail("ended", "%s: ended (%v, cause %v) although nothing it descends from did", n.path(), err, cause)
		}
		cause = ctx.Cause(n.c)
		var okCause bool
		for _, a := range n.enders() {
			switch {
			case cause == a.cause:
				okCause = okCause || a.begun[0].Get() > 0
			case cause == context.Canceled:
				okCause = okCause || a.begun[1].Get()+a.begun[2].Get() > 0
			case cause == context.DeadlineExceeded:
				okCause = okCause || !a.at.IsZero() && !time.Now().Before(a.at)
			}
		}
		if !okCause {
			e.Fail("cause", "%s: ended with cause %v, which is none of those that ended:%s", n.path(), cause, why)
		}
		if !isClosed(n.c.Done()) {
			e.Fail("done", "%s: Err is %v but Done is not closed", n.path(), err)
		}
	}
	// deadline: the earliest up to the nearest Detach
	var want time.Time
	for _, a := range n.enders() {
		if !a.at.IsZero() && (want.IsZero() || a.at.Before(want)) {
			want = a.at
		}
	}
	got, ok := n.c.Deadline()
	if ok != !want.IsZero() {
		e.Fail("deadline", "%s: deadline %v reported, expected %v", n.path(), ok, !want.IsZero())
	}
	if ok {
		if d := got.Sub(want); d < 0 || d > e.Slack() {
			e.Fail("deadline", "%s: deadline is %s later than the earliest one of its path", n.path(), d)
		}
	}
	// tags, parents first, through everything
	var wantTags, gotTags []string
	inner := map[string]string{}
	for a := n; a != nil; a = a.parent {
		if a.tag != "" {
			wantTags = append([]string{fmt.Sprintf("%s=%q", a.tag, a.name)}, wantTags...)
			if got, ok := inner[a.tag]; !ok {
				inner[a.tag] = a.name
				if j := fmt.Sprintf("%s", n.c.Value(a.tag)); j != fmt.Sprintf("%q", a.name) {
					e.Fail("tags", "%s: the value of tag %s is %s, expected that of %s %s", n.path(), a.tag, j, a.name, got)
				}
			}
		}
	}
	collect := func(stopAt int) error {
		gotTags = nil
		return ctx.RangeTag(n.c, func(k string, j ctx.JSON) error {
			if k == "tracking-id" {
				return nil
			}
			gotTags = append(gotTags, k+"="+string(j))
			if len(gotTags) == stopAt {
				return errStop
			}
			return nil
		})
	}
	if err := collect(-1); err != nil || !reflect.DeepEqual(gotTags, wantTags) {
		e.Fail("tags", "%s: tags %v (%v), expected %v", n.path(), gotTags, err, wantTags)
	}
	if len(wantTags) > 1 {
		at := 1 + e.Choose(len(wantTags))
		if err := collect(at); err != errStop || len(gotTags) != at {
			e.Fail("tags", "%s: ranging over tags did not stop at the first error: %v, %v", n.path(), gotTags, err)
		}
	}
	for key := 1; key <= 3; key++ {
		var want any
		for a := n; a != nil; a = a.parent {
			if a.key == key {
				want = a
				break
			}
		}
		if got := n.c.Value(ctxKey(key)); got != want {
			e.Fail("value", "%s: Value(%d) is %v, expected %v", n.path(), key, got, want)
		}
	}
	wantID := "*"
	for a := n; a != nil; a = a.parent {
		if a.kind == "tracking" {
			wantID = "id-" + a.name
			break
		}
		if a.kind == "span" {
			break
		}
	}
	if wantID != "*" && ctx.GetTracking(n.c) != wantID {
		e.Fail("value", "%s: tracking id %q, expected %q", n.path(), ctx.GetTracking(n.c), wantID)
	}
}

func runC23(e *Env, p *Plan) {
	root := &ctxNode{name: "root", kind: "cancel", cause: errors.New("cause of root")}
	root.c, root.cancel = ctx.Background()
	shared := []*ctxNode{root}
	span := time.Duration(p.Knob("span")) * time.Millisecond
	ids, byTask := p.ByTask()
	for i, o := range byTask[0] {
		if k, ok := strings.CutPrefix(o.K, "n:"); ok {
			par := shared[int(o.A)%len(shared)]
			shared = append(shared, newCtxNode(e, par, k, fmt.Sprintf("n%d", i+1), time.Duration(o.B)*time.Millisecond))
		}
	}
	own := map[int][]*ctxNode{}
	lists := map[int]*L[*ctxNode]{}
	for _, t := range ids {
		lists[t] = NewL[*ctxNode](40)
		own[t] = shared
	}
	for _, t := range ids {
		if t == 0 {
			continue
		}
		t, ops := t, byTask[t]
		e.Go(fmt.Sprintf("t%d", t), func() {
			nodes := append([]*ctxNode(nil), shared...)
			for i, o := range ops {
				n := nodes[int(o.A)%len(nodes)]
				switch o.K {
				case "cancel":
					switch {
					case n.cancel != nil && o.B == 0:
						n.begun[1].Add(1)
						n.cancel.Exit()
						n.done.Add(1)
					case n.cancel != nil:
						n.begun[0].Add(1)
						n.cancel(n.cause)
						n.done.Add(1)
					case n.stop != nil:
						n.begun[2].Add(1)
						n.stop()
						n.done.Add(1)
					}
					e.Fault("cancel")
					checkCtxNode(e, n, false)
				case "poll":
					checkCtxNode(e, n, false)
				case "sleep":
					time.Sleep(time.Duration(o.A) * time.Millisecond)
				case "wait":
					tm := time.NewTimer(time.Duration(o.B) * time.Millisecond)
					select {
					case <-n.c.Done():
						e.Probe("wait_ended")
						if n.c.Err() == nil {
							e.Fail("done", "%s: Done is closed but Err is nil", n.path())
						}
						checkCtxNode(e, n, false)
					case <-tm.C:
					}
					tm.Stop()
				default:
					if k, ok := strings.CutPrefix(o.K, "n:"); ok {
						x := newCtxNode(e, n, k, fmt.Sprintf("t%d.%d", t, i), time.Duration(o.B)*time.Millisecond)
						nodes = append(nodes, x)
						lists[t].Add(x)
						checkCtxNode(e, x, false)
					}
				}
			}
		})
	}
	e.Join(24*time.Hour, "stuck", "context operations")
	time.Sleep(10*time.Minute + 2*span)
	now := time.Now()
	check := func(n *ctxNode) {
		_, must, why := n.ended(now)
		for _, a := range n.enders() {
			if !a.at.IsZero() && now.Sub(a.at) > e.Slack() {
				must = true // a deadline long past
				why += " deadline of " + a.name
			}
		}
		if must && n.c.Err() == nil {
			e.Fail("not-ended", "%s: still alive long after the end of what it descends from:%s", n.path(), why)
		}
		if n.detached() {
			e.Probe("detached")
		}
		checkCtxNode(e, n, true)
	}
	for _, n := range shared {
		check(n)
	}
	for _, t := range ids {
		for _, n := range lists[t].All() {
			check(n)
		}
	}
	for _, n := range shared { // stop the timers
		if n.stop != nil {
			n.stop()
		}
	}
	e.Ev("%d contexts", len(shared))
}

// --- C24: tracking ids ------------------------------------------------------------

func genC24(r *Rng) *Plan {
	p := &Plan{Knobs: map[string]int64{}}
	for i, n := 0, r.N(6); i < n; i++ {
		p.Ops = append(p.Ops, Op{T: 0, K: pick(r, "tracking", "tracking", "span", "tag", "detach", "cancel", "auto"), A: r.I(20)})
	}
	for t := 1; t <= 2+r.N(4); t++ {
		for i, n := 0, 1+r.N(6); i < n; i++ {
			p.Ops = append(p.Ops, Op{T: t, K: pick(r, "span", "span", "span", "span", "tag", "detach", "auto", "tracking"), A: r.I(20), B: r.I(2)})
		}
	}
	switch r.N(16) {
	case 0: // a lot of one parent
		p.Ops = append(p.Ops, Op{T: 1 + r.N(3), K: "bulk", A: r.I(20), C: pick(r, int64(20), 40, 300)})
		if r.P(1, 10) {
			p.Ops[len(p.Ops)-1].C = pick(r, int64(5000), 70_000)
		}
	case 1: // deeply nested
		p.Ops = append(p.Ops, Op{T: 1 + r.N(3), K: "deep", A: r.I(20), C: pick(r, int64(20), 40, 150)})
	}
	return p
}

type trackNode struct {
	c  ctx.C
	id string
}

func runC24(e *Env, p *Plan) {
	root, cf := ctx.Background()
	defer cf(nil)
	type gen struct{ id, parent string }
	all := NewL[gen](2000)
	nodes := NewL[trackNode](2000)
	many := NewL[[]gen](8) // of huge bulks
	derive := func(n trackNode, o Op, sugg string) trackNode {
		out := n
		switch o.K {
		case "tracking":
			out = trackNode{ctx.WithTracking(n.c, sugg), sugg}
			all.Add(gen{sugg, ""})
		case "auto":
			c := ctx.WithTracking(n.c, "")
			out = trackNode{c, ctx.GetTracking(c)}
			all.Add(gen{out.id, ""})
		case "span":
			c, cf := ctx.Span(n.c, "x")
			if o.A%5 == 0 { // an ended span keeps its id
				cf(nil)
			}
			out = trackNode{c, ctx.GetTracking(c)}
			all.Add(gen{out.id, n.id})
			if n.id != "" {
				e.Probe("child_span")
			}
		case "tag":
			out.c = ctx.WithTag(n.c, "t", 1)
		case "detach":
			out.c = ctx.Detach(n.c)
		case "cancel":
			c, cf := ctx.WithCancel(n.c)
			out.c = c
			if o.B == 1 {
				cf(nil)
			}
		}
		nodes.Add(out)
		if got := ctx.GetTracking(out.c); got != out.id {
			e.Fail("tracking", "tracking id is %q, expected %q", got, out.id)
		}
		var tag string
		_ = ctx.RangeTag(out.c, func(k string, j ctx.JSON) error {
			if k == "tracking-id" {
				_ = json.Unmarshal(j, &tag)
			}
			return nil
		})
		if tag != out.id {
			e.Fail("tag", "the tracking-id tag is %q, the tracking id is %q", tag, out.id)
		}
		return out
	}
	ids, byTask := p.ByTask()
	shared := []trackNode{{root, ""}}
	// what a caller suggests is anything, and never what another one does
	sugg := func(t, i int, o Op) string {
		return fmt.Sprintf([]string{"req-%d-%d", "REQ-%d-%d", "Req %d-%d", "req-%d-%d\u00e9\u0130", "\"<%d&%d>", "{%d:%d}", "rEq-%d-%d" + strings.Repeat("0123456789", 30),
			"00000000-0000-4000-8000-00000%03d%04d", "00000000-0000-4000-8000-0000A%03d%04d", "\n%d\t%d\\", "#%d #%d", " %d-%d ", "\u2028%d/%d/"}[(o.A+int64(i))%13], t, i)
	}
	for i, o := range byTask[0] {
		shared = append(shared, derive(shared[int(o.A)%len(shared)], o, sugg(0, i, o)))
	}
	for _, t := range ids {
		if t == 0 {
			continue
		}
		t, ops := t, byTask[t]
		e.Go(fmt.Sprintf("t%d", t), func() {
			nodes := append([]trackNode(nil), shared...)
			for i, o := range ops {
				n := nodes[int(o.A)%len(nodes)]
				if k := o.K; k == "bulk" || k == "deep" {
					o.K = "span"
					if o.C >= 5000 {
						var mine []gen
						for i := int64(0); i < o.C; i++ {
							c, cf := ctx.Span(n.c, "x")
							mine = append(mine, gen{ctx.GetTracking(c), n.id})
							cf(nil)
						}
						many.Add(mine)
						continue
					}
					for i := int64(0); i < o.C; i++ {
						if x := derive(n, o, ""); k == "deep" {
							n = x
						}
					}
					continue
				}
				n = derive(n, o, sugg(t, i, o))
				if o.B == 1 {
					nodes = append(nodes, n)
				}
			}
		})
	}
	e.Join(24*time.Hour, "stuck", "spans")
	for _, n := range nodes.All() {
		if got := ctx.GetTracking(n.c); got != n.id {
			e.Fail("unstable", "the tracking id was %q, now it is %q", n.id, got)
		}
	}
	seen := map[string]bool{}
	gens := all.All()
	for _, l := range many.All() {
		gens = append(gens, l...)
	}
	for _, g := range gens {
		if g.id == "" {
			e.Fail("empty", "a span has no tracking id")
		}
		if seen[g.id] {
			e.Fail("duplicate", "two spans got the tracking id %q", g.id)
		}
		seen[g.id] = true
		if g.parent != "" && !strings.HasPrefix(g.id, g.parent) {
			e.Fail("prefix", "the tracking id %q does not extend that of its parent, %q", g.id, g.parent)
		}
	}
	e.Ev("%d ids", len(seen))
}
