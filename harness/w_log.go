package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"log/slog"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/enc"
)

func init() {
	register(&Workload{ID: "C25", Gen: genC25, Run: runC25})
	register(&Workload{ID: "C26", Gen: genC26, Run: runC26})
}

// --- C25: every record, whole, in its own log and no other ----------------------

func genC25(r *Rng) *Plan {
	p := &Plan{Knobs: map[string]int64{
		"level": pick(r, int64(-8), -4, 0, 4), "slow": int64(r.N(3)), "failp": pick(r, int64(0), 0, 0, 10),
		"setlevel": int64(r.N(3) / 2),
	}}
	node := func(t int) Op {
		return Op{T: t, K: "n:" + pick(r, "slog", "slog", "func", "helper", "helper", "tag", "tag", "tags", "bytes", "detach", "span", "cancel"), A: r.I(40), B: r.I(4), C: r.I(16)}
	}
	for i, n := 0, r.N(9); i < n; i++ {
		p.Ops = append(p.Ops, node(0))
	}
	most := 7
	if r.P(1, 12) {
		most = 30
	}
	for t := 1; t <= 1+r.N(4); t++ {
		for i, n := 0, 1+r.N(most); i < n; i++ {
			if r.P(1, 6) {
				p.Ops = append(p.Ops, node(t))
				continue
			}
			p.Ops = append(p.Ops, Op{T: t, K: "log", A: r.I(40), B: r.I(6), C: r.I(512) | pick(r, int64(0), 0, 512, 1024, 512+1024)})
		}
	}
	return p
}

// names which also mean something else in a record
var tagNames = []string{"level", "msg", "message", "time", "src", "tags", "a \"b\"\n"}

type logSink struct {
	e      *Env
	id     int
	lines  *L[string] // slog sinks: one element per Write
	slow   int
	failp  int
	inside N
	failed *L[string]
}

func (s *logSink) Write(b []byte) (int, error) {
	if s.inside.Add(1) != 1 {
		s.e.Fail("interleaved", "sink %d: two records are written at once", s.id)
	}
	defer s.inside.Add(-1)
	cp := string(b)
	switch s.slow {
	case 1:
		runtime.Gosched()
	case 2:
		time.Sleep(time.Second)
	}
	if s.failp > 0 && s.e.Flip(s.failp, 100) {
		s.e.Fault("log_write_error")
		s.failed.Add(cp)
		return 0, errors.New("disk full")
	}
	if string(b) != cp {
		s.e.Fail("corrupt", "sink %d: the record changed while it was being written", s.id)
	}
	s.lines.Add(cp)
	return len(b), nil
}

type funcRec struct {
	level slog.Level
	src   string
	f     string
	args  []any
}

type logNode struct {
	name    string
	c       ctx.C
	sink    int // index, or -1
	isFunc  bool
	helpers int     // index of the nearest helper, or -1
	tags    []kvTag // parents first
	hasID   bool
}

type kvTag struct{ k, v string }

type retag struct {
	v    string
	k    string
	json string
}

// shyError is an error as well.
type shyError struct{ what string }

func (a shyError) Error() string { return a.what }

func (a shyError) LogAs(t *log.Tags) any {
	(*t)["k2"] = ctx.JSON(`"was shy"`)
	return "shy"
}

func (a retag) LogAs(t *log.Tags) any {
	(*t)[a.k] = ctx.JSON(a.json)
	return a.v
}

type logCall struct {
	id       int
	node     *logNode
	level    slog.Level
	msg      string
	secret   string
	extra    []kvTag
	errs     []error
	line     int
	call     int64
	ret      int64
	nargs    int
	custom   bool
	filtered bool
	argsWant []any
}

func runC25(e *Env, p *Plan) {
	sinks := NewL[*logSink](300)
	recs := NewL[*L[funcRec]](300) // by sink id, nil for slog sinks
	helperCalls := NewL[*N](300)
	failp := int(p.Knob("failp"))
	newSink := func() *logSink {
		s := &logSink{e: e, lines: NewL[string](500), slow: int(p.Knob("slow")), failp: failp, failed: NewL[string](500)}
		s.id = sinks.Add(s)
		recs.Add(nil)
		return s
	}
	bg, cf := ctx.Background()
	defer cf(nil)
	rs := newSink()
	root := &logNode{name: "root", sink: rs.id, helpers: -1}
	root.c = log.WithSlogLogger(bg, log.NewDefaultSlogLogger(rs))
	derive := func(n *logNode, o Op, name string) *logNode {
		x := *n
		x.name = n.name + "/" + name
		x.tags = append([]kvTag(nil), n.tags...)
		switch o.K {
		case "n:slog":
			s := newSink()
			x.sink, x.isFunc = s.id, false
			if o.C%2 == 0 && o.T == 0 { // sets the level, so only while nothing is logged
				x.c = log.WithSlogLogger(n.c, log.NewDefaultSlogLogger(s))
				break
			}
			x.c = log.WithSlogLogger(n.c, slog.New(slog.NewJSONHandler(s, &slog.HandlerOptions{Level: log.DefaultLoggerLevel,
				ReplaceAttr: func(g []string, a slog.Attr) slog.Attr {
					if a.Key == slog.MessageKey && len(g) == 0 {
						a.Key = "message"
					}
					if a.Key == slog.LevelKey && len(g) == 0 {
						return slog.String("level", strings.ToLower(a.Value.Any().(slog.Level).String()))
					}
					return a
				}})))
		case "n:func":
			s := newSink()
			l := NewL[funcRec](500)
			recs.Put(s.id, l)
			x.sink, x.isFunc = s.id, true
			x.c = log.WithLogFunc(n.c, func(c ctx.C, level slog.Level, src, f string, args ...any) {
				l.Add(funcRec{level, src, f, args})
			})
		case "n:helper":
			ct := &N{}
			x.helpers = helperCalls.Add(ct)
			x.c = log.WithHelper(n.c, func() { ct.Add(1) })
		case "n:tag":
			k := fmt.Sprintf("k%d", o.B)
			if o.C < int64(len(tagNames)) {
				k = tagNames[o.C]
			}
			v := fmt.Sprintf(`"%s\n{}"`, name)
			x.tags = append(x.tags, kvTag{k, v})
			x.c = ctx.WithTag(n.c, k, ctx.JSON(v))
		case "n:tags": // many
			x.c = n.c
			for i := 0; i < 20+int(o.C); i++ {
				k := fmt.Sprint("m", i)
				x.tags = append(x.tags, kvTag{k, fmt.Sprint(i)})
				x.c = ctx.WithTag(x.c, k, i)
			}
		case "n:bytes": // JSON or not
			k := fmt.Sprintf("k%d", o.B)
			b := []string{`{"a":[1]}`, "not json", "", `{"a":`, "\xff\"\n"}[o.C%5]
			v := b
			if o.C%5 != 0 {
				j, _ := json.Marshal([]byte(b))
				v = string(j)
			}
			x.tags = append(x.tags, kvTag{k, v})
			x.c = ctx.WithTag(n.c, k, []byte(b))
		case "n:detach":
			x.c = ctx.Detach(n.c)
		case "n:span":
			x.c, _ = ctx.Span(n.c, name)
			x.hasID = true
		case "n:cancel": // what is logged after the end is logged all the same
			var end ctx.CancelFunc
			x.c, end = ctx.WithCancel(n.c)
			end(errors.New("over"))
		}
		return &x
	}
	ids, byTask := p.ByTask()
	shared := []*logNode{root}
	for i, o := range byTask[0] {
		shared = append(shared, derive(shared[int(o.A)%len(shared)], o, fmt.Sprintf("n%d", i)))
	}
	level := slog.Level(p.Knob("level"))
	log.SetDefaultLoggerLevel(level)
	calls := NewL[*logCall](1000)
	var nid N
	doCall := func(n *logNode, o Op) {
		id := int(nid.Add(1))
		lc := &logCall{id: id, node: n, secret: fmt.Sprintf("hunter%d-pw", id)}
		if o.C>>7&3 == 1 {
			lc.secret += strings.Repeat("x", 100+id)
		}
		f := "id=<%d>"
		args := []any{id}
		lc.msg = fmt.Sprintf("id=<%d>", id)
		if o.C&1 != 0 {
			f += " %s"
			args = append(args, log.RedactedString(lc.secret))
			lc.msg += " ***"
			e.Probe("redacted")
		}
		if o.C&2 != 0 {
			f += " %v"
			args = append(args, retag{v: "shown", k: "k0", json: `{"re":[1,"x"]}`})
			lc.msg += " shown"
			lc.extra = append(lc.extra, kvTag{"k0", `{"re":[1,"x"]}`})
		}
		if o.C&4 != 0 {
			f += " %v"
			ec := n.c
			if o.C&64 != 0 { // an error of another context, with tags of its own
				ec = ctx.WithTag(ctx.WithTag(shared[id%len(shared)].c, "k1", id), "other", "theirs")
			}
			err := ctx.NewErrorf(ec, "oops %d \"q\"\n", id)
			if o.C&8 != 0 {
				err = fmt.Errorf("plain %d", id)
			}
			many := 1
			if o.C>>7&3 == 2 {
				many = 1 + id%12
			}
			for ; many > 0; many-- {
				args = append(args, err)
				lc.msg += " " + err.Error()
				lc.errs = append(lc.errs, err)
				if many > 1 {
					f += " %v"
					err = fmt.Errorf("and %d: %w", many, err)
				}
			}
		}
		if o.C&16 != 0 {
			f += " %q"
			args = append(args, "a\nb\"\x00")
			lc.msg += fmt.Sprintf(" %q", "a\nb\"\x00")
		}
		if o.C>>7&3 == 3 {
			f += " %s."
			args = append(args, strings.Repeat("long ", 1+id%4*5000))
			lc.msg += " " + strings.Repeat("long ", 1+id%4*5000) + "."
		}
		if o.C&512 != 0 { // anywhere
			for i := 0; i <= id%12; i++ {
				f += " %s"
				args = append(args, log.RedactedString(lc.secret))
				lc.msg += " ***"
			}
		}
		if o.C&1024 != 0 { // how it wants to be logged comes first
			f += " %v"
			args = append(args, shyError{lc.secret})
			lc.msg += " shy"
			lc.extra = append(lc.extra, kvTag{"k2", `"was shy"`})
		}
		if o.C&63 == 32 { // nothing to format
			lc.extra = nil
			f = fmt.Sprintf("id=<%d> at 100%%%%\n", id)
			args = nil
			lc.msg = fmt.Sprintf("id=<%d> at 100%%\n", id)
		}
		lc.argsWant = append([]any(nil), args...)
		lc.nargs = len(args)
		lc.call = e.Seq()
		_, _, line, _ := runtime.Caller(0)
		switch o.B {
		case 0:
			lc.level, lc.line = slog.LevelError, line+4
			log.Errorf(n.c, f, args...)
		case 1:
			lc.level, lc.line = slog.LevelWarn, line+7
			log.Warnf(n.c, f, args...)
		case 2:
			lc.level, lc.line = slog.LevelInfo, line+10
			log.Infof(n.c, f, args...)
		case 3, 4:
			lc.level, lc.line = slog.LevelDebug, line+13
			log.Debugf(n.c, f, args...)
		default:
			lc.level, lc.custom = slog.LevelWarn+1, true
			log.Customf(n.c, lc.level, "elsewhere:1", f, args...)
		}
		lc.ret = e.Seq()
		if !reflect.DeepEqual(args, lc.argsWant) {
			e.Fail("args", "logging changed the arguments of its caller: %v became %v", lc.argsWant, args)
		}
		calls.Add(lc)
	}
	var lvCall, lvRet N
	if p.Knob("setlevel") == 1 {
		e.Go("level", func() {
			runtime.Gosched()
			lvCall.Set(e.Seq())
			log.SetDefaultLoggerLevel(slog.LevelWarn)
			lvRet.Set(e.Seq())
		})
	}
	for _, t := range ids {
		if t == 0 {
			continue
		}
		t, ops := t, byTask[t]
		e.Go(fmt.Sprintf("t%d", t), func() {
			nodes := append([]*logNode(nil), shared...)
			for i, o := range ops {
				n := nodes[int(o.A)%len(nodes)]
				if o.K == "log" {
					doCall(n, o)
				} else {
					nodes = append(nodes, derive(n, o, fmt.Sprintf("t%d.%d", t, i)))
				}
			}
		})
	}
	e.Join(24*time.Hour, "stuck", "logging")

	// what each record must look like
	want := map[int]map[int]*logCall{} // sink, id
	helperWant := map[int]int{}
	for _, lc := range calls.All() {
		if want[lc.node.sink] == nil {
			want[lc.node.sink] = map[int]*logCall{}
		}
		want[lc.node.sink][lc.id] = lc
		if lc.node.helpers >= 0 {
			helperWant[lc.node.helpers]++
		}
	}
	for i, h := range helperCalls.All() {
		if w := helperWant[i]; w == 0 && h.Get() != 0 {
			e.Fail("helper", "the helper of one context was called %d times for records of others", h.Get())
		} else if w > 0 && h.Get() < int64(w) {
			e.Fail("helper", "a helper was called %d times for %d records", h.Get(), w)
		}
	}
	emitted := func(lc *logCall) (may, must bool) {
		if lc.node.isFunc {
			return true, true
		}
		may, must = lc.level >= level, lc.level >= level
		if lvCall.Get() != 0 {
			after := lc.level >= slog.LevelWarn
			switch {
			case lc.ret < lvCall.Get():
			case lvRet.Get() != 0 && lc.call > lvRet.Get():
				may, must = after, after
			default:
				may, must = may || after, must && after
			}
		}
		return
	}
	idOf := func(msg string) int {
		var id int
		if _, err := fmt.Sscanf(msg, "id=<%d>", &id); err != nil {
			return -1
		}
		return id
	}
	srcOK := func(lc *logCall, src string) bool {
		if lc.custom {
			return src == "elsewhere:1"
		}
		return strings.HasSuffix(src, fmt.Sprintf("w_log.go:%d", lc.line))
	}
	for si, s := range sinks.All() {
		seen := map[int]int{}
		if l := recs.At(si); l != nil {
			if s.lines.Len() > 0 {
				e.Harness("func sink with lines")
			}
			for _, r := range l.All() {
				id := idOf(r.f)
				if len(r.args) > 0 {
					id, _ = r.args[0].(int)
				}
				lc := want[si][id]
				if lc == nil {
					e.Fail("misrouted", "log function %d got record %d, which was not logged on its context", si, id)
				}
				seen[id]++
				if r.level != lc.level || !srcOK(lc, r.src) || !reflect.DeepEqual(r.args, lc.argsWant) {
					e.Fail("record", "log function %d got record %d as level %v src %q args %v; logged with level %v (line %d) %v", si, id, r.level, r.src, r.args, lc.level, lc.line, lc.argsWant)
				}
			}
		}
		for _, line := range s.lines.All() {
			if strings.Count(line, "\n") != 1 || !strings.HasSuffix(line, "\n") {
				e.Fail("line", "sink %d: a record is not one line: %q", si, line)
			}
			var m struct {
				Level   string                     `json:"level"`
				Message string                     `json:"message"`
				Src     string                     `json:"src"`
				Tags    map[string]json.RawMessage `json:"tags"`
			}
			if err := json.Unmarshal([]byte(line), &m); err != nil {
				e.Fail("line", "sink %d: a record is not JSON: %v: %q", si, err, line)
			}
			id := idOf(m.Message)
			lc := want[si][id]
			if lc == nil {
				e.Fail("misrouted", "sink %d got a record which was not logged on its context: %q", si, line)
			}
			seen[id]++
			if may, _ := emitted(lc); !may {
				e.Fail("level", "a record of level %v was logged although the minimum is %v: %q", lc.level, level, line)
			}
			if strings.Contains(line, lc.secret) {
				e.Fail("secret", "a redacted string was logged: %q", line)
			}
			if m.Message != lc.msg || m.Level != strings.ToLower(lc.level.String()) || !srcOK(lc, m.Src) {
				e.Fail("record", "record %d logged as %q; expected message %q level %v line %d", id, line, lc.msg, lc.level, lc.line)
			}
			wt := map[string]string{}
			for _, t := range append(append([]kvTag(nil), lc.node.tags...), lc.extra...) {
				wt[t.k] = t.v
			}
			for k, v := range wt {
				if !jsonEq(m.Tags[k], []byte(v)) {
					e.Fail("tags", "record %d: tag %s is %s, expected %s: %q", id, k, m.Tags[k], v, line)
				}
			}
			extra := len(m.Tags) - len(wt)
			if lc.node.hasID {
				extra--
			}
			if len(lc.errs) > 0 {
				extra--
				var errs []map[string]any
				if json.Unmarshal(m.Tags["error"], &errs) != nil || len(errs) != len(lc.errs) {
					e.Fail("tags", "record %d: the error tag is %s", id, m.Tags["error"])
				}
				for i, err := range lc.errs {
					if errs[i]["error"] != err.Error() {
						e.Fail("tags", "record %d: the error is %q, and was logged as %v", id, err, errs[i]["error"])
					}
					var ce ctx.Error
					if errors.As(err, &ce) {
						var stack []any
						for _, s := range ce.Stack {
							stack = append(stack, s)
						}
						if !reflect.DeepEqual(errs[i]["stack"], any(stack)) {
							e.Fail("tags", "record %d: the stack of the error is %q, and was logged as %v", id, stack, errs[i]["stack"])
						}
					}
				}
			}
			if extra != 0 {
				e.Fail("tags", "record %d has tags nobody set, or lacks some: %q, expected %v", id, line, wt)
			}
		}
		for _, line := range s.failed.All() {
			var m struct {
				Message string `json:"message"`
			}
			_ = json.Unmarshal([]byte(line), &m)
			seen[idOf(m.Message)]++
		}
		for id, lc := range want[si] {
			_, must := emitted(lc)
			if n := seen[id]; n > 1 {
				e.Fail("duplicate", "record %d was logged %d times", id, n)
			} else if n == 0 && must {
				e.Fail("lost", "record %d (level %v, minimum %v), logged on %s, did not reach its sink %d", id, lc.level, level, lc.node.name, si)
			}
		}
	}
	e.Ev("%d records", calls.Len())
}

func jsonEq(a, b []byte) bool {
	var x, y any
	if json.Unmarshal(a, &x) != nil || json.Unmarshal(b, &y) != nil {
		return false
	}
	return reflect.DeepEqual(x, y)
}

// --- C26: one codec, many goroutines ------------------------------------------------

type legacyA struct{ s string }

func (l legacyA) MarshalJSON() ([]byte, error)  { return json.Marshal(l.s) }
func (l *legacyA) UnmarshalJSON(j []byte) error { return json.Unmarshal(j, &l.s) }

type legacyB struct{ s string }

func (l legacyB) MarshalJSON() ([]byte, error) { return json.Marshal([]string{l.s}) }
func (l *legacyB) UnmarshalJSON(j []byte) error {
	var x []string
	if err := json.Unmarshal(j, &x); err != nil {
		return err
	}
	l.s = strings.Join(x, ",")
	return nil
}

type codecT struct {
	S  string              `json:"s"`
	N  int64               `json:"n,omitempty"`
	F  float64             `json:"f"`
	B  bool                `json:"b"`
	P  *codecT             `json:"p,omitempty"`
	L  []codecT            `json:"l"`
	M  map[string]int      `json:"m"`
	R  json.RawMessage     `json:"r"`
	A  legacyA             `json:"a"`
	BB legacyB             `json:"bb"`
	T  time.Time           `json:"t"`
	ET enc.Time            `json:"et"`
	ED enc.Duration        `json:"ed"`
	TL []enc.Time          `json:"tl"`
	X  enc.Node            `json:"x"`
	I  map[int]string      `json:"i"`
	Q  []*string           `json:"q"`
	Y  [2]int              `json:"y"`
	Sk string              `json:"-"`
	MM map[string]enc.Node `json:"mm"`
}

func genC26(r *Rng) *Plan {
	p := &Plan{Knobs: map[string]int64{"path": r.I(5)}}
	for t := 1; t <= 2+r.N(4); t++ {
		for i, n := 0, 1+r.N(4); i < n; i++ {
			p.Ops = append(p.Ops, Op{T: t, K: pick(r, "marshal", "unmarshal", "unmarshal", "node", "node", "json", "shared", "nodejson", "unhandled", "unhandled", "bad", "bad", "factory", "errors", "list", "duration", "twin", "twin", "twin"), A: r.I(1 << 40)})
		}
	}
	return p
}

// codecTime is most often one that others have too.
func codecTime(r *Rng) enc.Time {
	return enc.Time(pick(r, time.Unix(int64(r.N(3)), 0), time.Unix(int64(r.N(3)), 0), time.Unix(1e9, int64(r.N(3))), time.Unix(r.I(1<<33), r.I(1e9))).UTC())
}

func codecVal(r *Rng, depth int) codecT {
	str := func() string {
		return pick(r, "", "a", "é\n\"<>&", strings.Repeat("x", r.N(40)), "\u2028z")
	}
	s := str()
	v := codecT{S: str(), N: r.I(1<<53) - 1<<52, F: float64(r.N(1000)) / 8, B: r.Bool(),
		M: map[string]int{"x": r.N(9), str(): r.N(5)}, R: json.RawMessage(fmt.Sprintf(`{"k":[%d,null,"v"]}`, r.N(99))),
		A: legacyA{str()}, BB: legacyB{str()}, T: time.Unix(int64(r.N(1<<30)), int64(r.N(1e9))).UTC(),
		X:  enc.Map{"n": enc.Integer(r.N(9)), "l": enc.List{enc.String(str()), enc.Nil{}, enc.Bool(true)}},
		ET: codecTime(r), ED: pick(r, enc.Duration(r.I(1<<50)-1<<49), 0, enc.Duration(time.Second), enc.Duration(time.Minute)),
		I: map[int]string{r.N(9): str()}, Q: []*string{&s, nil}, Y: [2]int{r.N(5), r.N(5)},
		MM: map[string]enc.Node{"d": enc.Float(0.5)}, Sk: "skipped"}
	for i := r.N(3); i > 0; i-- {
		v.TL = append(v.TL, codecTime(r))
	}
	if depth > 0 {
		if r.Bool() {
			c := codecVal(r, depth-1)
			v.P = &c
		}
		for i := r.N(3); i > 0; i-- {
			v.L = append(v.L, codecVal(r, depth-1))
		}
	}
	return v
}

// Four types called entry, each of its own function.

func twinThere[T any](c ctx.C, h enc.Handler, v T, n enc.Node) string {
	out, err := h.Marshal(c, v)
	if err != nil {
		return err.Error()
	}
	var got T
	if err := h.Unmarshal(c, n, &got); err != nil {
		return err.Error()
	}
	var m map[string]any // in whatever order the fields went
	if err := json.Unmarshal(enc.JSON{}.Encode(c, out), &m); err != nil {
		return err.Error()
	}
	return fmt.Sprintf("%v %+v", m, got)
}

func twin0(c ctx.C, h enc.Handler, k int) (string, string) {
	type entry struct {
		ID   int    `json:"id"`
		Name string `json:"name"`
	}
	got := twinThere(c, h, entry{k, "x"}, enc.Map{"id": enc.Integer(int64(k)), "name": enc.String("y"), "user": enc.String("z")})
	return got, fmt.Sprintf(`map[id:%d name:x] {ID:%d Name:y}`, k, k)
}

func twin1(c ctx.C, h enc.Handler, k int) (string, string) {
	type entry struct {
		ID   int    `json:"key"`
		Name string `json:"user"`
	}
	got := twinThere(c, h, entry{k, "x"}, enc.Map{"key": enc.Integer(int64(k)), "name": enc.String("y"), "user": enc.String("z")})
	return got, fmt.Sprintf(`map[key:%d user:x] {ID:%d Name:z}`, k, k)
}

func twin2(c ctx.C, h enc.Handler, k int) (string, string) {
	type entry struct {
		Name string `json:"id"`
		ID   int    `json:"name"`
	}
	got := twinThere(c, h, entry{"x", k}, enc.Map{"name": enc.Integer(int64(k)), "id": enc.String("y")})
	return got, fmt.Sprintf(`map[id:x name:%d] {Name:y ID:%d}`, k, k)
}

func twin3(c ctx.C, h enc.Handler, k int) (string, string) {
	type entry struct {
		Name string `json:"-"`
		L    []int  `json:"id"`
		ID   int
	}
	got := twinThere(c, h, entry{"x", []int{k}, k}, enc.Map{"ID": enc.Integer(int64(k)), "id": enc.List{enc.Integer(1), enc.Integer(int64(k))}, "name": enc.Nil{}})
	return got, fmt.Sprintf(`map[ID:%d id:[%d]] {Name: L:[1 %d] ID:%d}`, k, k, k, k)
}

func runC26(e *Env, p *Plan) {
	c, cf := ctx.Background()
	defer cf(nil)
	c = log.WithLogFunc(c, func(ctx.C, slog.Level, string, string, ...any) {})
	// one handler is used by everybody, and so is the path it starts from
	handler := enc.Handler{}
	for i := int64(0); i < p.Knob("path"); i++ {
		handler = handler.Append(fmt.Sprint("p", i))
	}
	type path struct {
		then string
		kept []any
	}
	type collect struct{}
	strict := handler
	strict.UnhandledFields = func(c ctx.C, p []any, n enc.Node) error {
		l := c.Value(collect{}).(*[]path)
		*l = append(*l, path{fmt.Sprint(p), p})
		return nil
	}
	making := handler
	making.Factory = map[reflect.Type]func(c ctx.C, n enc.Node) (any, error){
		reflect.TypeOf(legacyA{}): func(c ctx.C, n enc.Node) (any, error) { return legacyA{"made"}, nil },
	}
	var sharedNode enc.Node = enc.Map{"s": enc.String("shared"), "l": enc.List{enc.Map{"s": enc.String("in")}}, "m": enc.Map{"x": enc.Integer(3)},
		"a": enc.String("leg"), "bb": enc.List{enc.String("B")}, "i": enc.Map{"4": enc.String("four")}, "p": enc.Map{"n": enc.Digits("7")},
		"r": enc.List{enc.Integer(1)}, "f": enc.Digits("0.25"), "x": enc.Map{"y": enc.Nil{}}, "t": enc.String("2020-01-02T03:04:05Z")}
	sharedVal := codecVal(NewRng(99), 2)
	// one operation; the result depends on nothing but o
	do := func(o Op) (out any) {
		switch o.K {
		case "marshal":
			n, err := handler.Marshal(c, codecVal(NewRng(uint64(o.A)), 1))
			if err != nil {
				return err.Error()
			}
			return string(enc.JSON{}.Encode(c, n))
		case "json":
			v := codecVal(NewRng(uint64(o.A)), 1)
			j, err := enc.MarshalJSON(c, &v)
			return fmt.Sprintf("%s %v", j, err)
		case "shared":
			j, err := enc.MarshalJSON(c, &sharedVal)
			return fmt.Sprintf("%s %v", j, err)
		case "unmarshal":
			v := codecVal(NewRng(uint64(o.A)), 1)
			std, err := json.Marshal(v)
			if err != nil {
				e.Harness("%v", err)
			}
			var got codecT
			if err := enc.UnmarshalJSON(c, std, &got); err != nil {
				return err.Error()
			}
			simple := func(v codecT) string { return fmt.Sprint(v.S, v.N, v.F, v.B, v.M, v.ET, v.ED, v.TL, v.T, v.Y, v.I) }
			if got, want := simple(got), simple(v); got != want {
				e.Fail("wrong", "decoding %s gives %s, it is %s", std, got, want)
			}
			return got
		case "node":
			var got codecT
			if err := handler.Unmarshal(c, sharedNode, &got); err != nil {
				return err.Error()
			}
			return got
		case "unhandled":
			x := func(k string) enc.Node {
				return enc.Map{"n": enc.Integer(3), k: enc.Map{}, k + "2": enc.Nil{}}
			}
			n := enc.Map{"s": enc.String("z"), fmt.Sprint("u", o.A%7): enc.Integer(1), fmt.Sprint("v", o.A%5): enc.List{},
				"p": enc.Map{"w": enc.Bool(true), "p": x("deep")}, "l": enc.List{x("a"), x("b")}}
			var l []path
			var got codecT
			c := ctx.WithValue(c, collect{}, &l)
			if err := strict.Unmarshal(c, n, &got); err != nil {
				return err.Error()
			}
			var out []string
			for _, x := range l {
				if now := fmt.Sprint(x.kept); now != x.then {
					e.Fail("path-changed", "the path of an unhandled field was %s when it was given, and is %s now", x.then, now)
				}
				out = append(out, x.then)
			}
			sort.Strings(out)
			return strings.Join(out, "\n")
		case "bad":
			var got codecT
			var n enc.Node = []enc.Node{
				enc.Map{"p": enc.Map{"p": enc.Map{"s": enc.List{}}}},
				enc.Map{"l": enc.List{enc.Map{}, enc.Map{"b": enc.String("no")}}},
				enc.Map{"m": enc.Map{"k": enc.String("no")}},
				enc.Map{"i": enc.Map{"k": enc.String("no")}},
				enc.Map{"t": enc.String("no")},
				enc.List{enc.Nil{}},
				enc.Map{"y": enc.List{enc.Integer(1), enc.Integer(2), enc.Integer(3)}},
			}[o.A%7]
			err := handler.Unmarshal(c, n, &got)
			return struct {
				err string
				v   codecT
			}{fmt.Sprint(err), got}
		case "factory":
			var got struct {
				L []struct{ E int }
				F float64
			}
			err := making.Unmarshal(c, enc.Map{"L": enc.List{enc.Map{"E": enc.Digits(fmt.Sprint(o.A % 100))}}, "F": enc.Digits("1.5")}, &got)
			return fmt.Sprintf("%q %+v", fmt.Sprint(err), got)
		case "errors":
			j, err := enc.MarshalJSON(c, map[string]any{"e": ctx.NewErrorf(c, "error %d", o.A), "t": time.Unix(o.A%1e9, 0).UTC(), "d": enc.Duration(o.A)})
			return fmt.Sprintf("%q %v", j, err)
		case "list":
			var got []codecT
			err := handler.Unmarshal(c, enc.List{sharedNode, enc.Map{"n": enc.Digits(fmt.Sprint(o.A))}, sharedNode}, &got)
			return fmt.Sprintf("%v %d %+v", err, len(got), got[1].N)
		case "duration":
			var got struct{ D enc.Duration }
			err := handler.Unmarshal(c, enc.Map{"D": enc.String(time.Duration(o.A).String())}, &got)
			return fmt.Sprintf("%v %v", err, got)
		case "nodejson":
			return string(enc.JSON{Indent: o.A&1 == 1}.Encode(c, sharedNode))
		case "twin":
			// several types, one name: what one is coded as says nothing of another
			got, want := [...]func(ctx.C, enc.Handler, int) (string, string){twin0, twin1, twin2, twin3}[o.A%4](c, handler, int(o.A/4%1000))
			if got != want {
				e.Fail("wrong", "a type which shares its name with others: %s, not %s", got, want)
			}
			return got
		}
		return nil
	}
	type res struct {
		o   Op
		out any
	}
	all := NewL[res](len(p.Ops) + 1)
	ids, byTask := p.ByTask()
	for _, t := range ids {
		t, ops := t, byTask[t]
		e.Go(fmt.Sprintf("t%d", t), func() {
			for _, o := range ops {
				all.Add(res{o, do(o)})
			}
		})
	}
	e.Join(24*time.Hour, "stuck", "codec use")
	// The oracle: the same operations again, one after the other. It comes
	// second so that it does not warm up what the concurrent ones share.
	for _, r := range all.All() {
		if want := do(r.o); !reflect.DeepEqual(r.out, want) {
			e.Fail("wrong", "%s: %+v with others at work, %+v alone", r.o.K, r.out, want)
		}
		if _, bad := r.out.(error); bad {
			e.Fail("error", "%s: %v", r.o.K, r.out)
		}
		if s, ok := r.out.(string); ok && (r.o.K == "marshal" || r.o.K == "unmarshal" || r.o.K == "node" || r.o.K == "nodejson") && !json.Valid([]byte(s)) {
			e.Fail("error", "%s: %s", r.o.K, s)
		}
	}
	e.Ev("%d ops", all.Len())
}
