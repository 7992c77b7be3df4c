package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	fhttp "github.com/Aize-Public/forego/http"
	"github.com/Aize-Public/forego/http/ws"
	"github.com/Aize-Public/forego/shutdown"
)

func init() {
	register(&Workload{ID: "C11", Gen: genC11, Run: runC11})
	register(&Workload{ID: "C10", Gen: genC10, Run: runC10})
	register(&Workload{ID: "C09", Gen: genC09, Run: runC09})
	register(&Workload{ID: "C08", Gen: genC08, Run: runC08})
}

// wsPeer is a scripted websocket client: it writes raw frames and reads
// strictly, failing the run on anything that is not a well-formed server frame.
type wsPeer struct {
	e    *Env
	rc   *rawConn
	name string
}

// dialWS connects; nil means the network did not let it through.
func dialWS(e *Env, port int, path, name string) *wsPeer {
	rc, err := dialRaw(e, port)
	if err != nil {
		return nil
	}
	_ = rc.c.SetReadDeadline(time.Now().Add(24 * time.Hour))
	if err := rc.wsHandshake(path); err != nil {
		rc.c.Close()
		return nil
	}
	return &wsPeer{e, rc, name}
}

func (p *wsPeer) send(b []byte) error {
	_, err := p.rc.c.Write(b)
	return err
}

// msg encodes one text message: in frags extra fragments, with a ping or a pong
// between them if ctl is set.
func wsMessage(payload []byte, frags int, ctl byte, rnd int64) []byte {
	var out []byte
	op := byte(1)
	r := NewRng(uint64(rnd))
	if r.P(1, 8) {
		op = 2
	}
	for i := 0; i < frags; i++ {
		n := r.N(len(payload) + 1)
		out = append(out, wsFrame(op, false, payload[:n])...)
		payload = payload[n:]
		op = 0
		if ctl != 0 && r.P(1, 2) {
			out = append(out, wsFrame(ctl, true, []byte("ctl"))...)
		}
	}
	return append(out, wsFrame(op, true, payload)...)
}

// frame reads one frame; io errors are returned, malformed frames are violations.
func (p *wsPeer) frame() (op byte, payload []byte, err error) {
	var h [2]byte
	if h[0], err = p.rc.br.ReadByte(); err != nil {
		return 0, nil, err
	}
	if h[1], err = p.rc.br.ReadByte(); err != nil {
		return 0, nil, io.ErrUnexpectedEOF
	}
	op = h[0] & 15
	bad := func(what string) {
		p.e.Fail("malformed", "%s: the server sent %s: header %x", p.name, what, h)
	}
	if h[0]&0x70 != 0 {
		bad("a frame with reserved bits")
	}
	switch op {
	case 1, 2, 8, 9, 10:
	default:
		bad("a frame with an unexpected opcode")
	}
	if h[0]&0x80 == 0 {
		bad("an unfinished frame")
	}
	if h[1]&0x80 != 0 {
		bad("a masked frame")
	}
	n := uint64(h[1])
	switch n {
	case 126:
		var b [2]byte
		if _, err = io.ReadFull(p.rc.br, b[:]); err != nil {
			return 0, nil, io.ErrUnexpectedEOF
		}
		n = uint64(binary.BigEndian.Uint16(b[:]))
	case 127:
		var b [8]byte
		if _, err = io.ReadFull(p.rc.br, b[:]); err != nil {
			return 0, nil, io.ErrUnexpectedEOF
		}
		n = binary.BigEndian.Uint64(b[:])
	}
	if n > 1<<24 || op >= 8 && n > 125 {
		bad(fmt.Sprintf("a frame of %d bytes", n))
	}
	payload = make([]byte, n)
	if _, err = io.ReadFull(p.rc.br, payload); err != nil {
		return 0, nil, io.ErrUnexpectedEOF
	}
	if op == 8 && n == 1 {
		bad("a close frame of one byte")
	}
	if op == 8 && n >= 2 {
		if c := int(payload[0])<<8 | int(payload[1]); c < 1000 || c > 4999 || c >= 1004 && c <= 1006 || c == 1015 {
			bad(fmt.Sprintf("a close frame with code %d", c))
		}
	}
	return op, payload, nil
}

// drain reads everything until the end.
func (p *wsPeer) drain(f func(op byte, payload []byte)) error {
	closed := false
	for {
		op, b, err := p.frame()
		if err != nil {
			return err
		}
		if closed && op != 8 { // x/net's Close repeats the close frame
			p.e.Fail("after-close", "%s: the server sent a frame (opcode %d, %d bytes) after its close frame", p.name, op, len(b))
		}
		closed = closed || op == 8
		if f != nil {
			f(op, b)
		}
	}
}

func isTimeout(err error) bool {
	var t interface{ Timeout() bool }
	return errors.As(err, &t) && t.Timeout()
}

type wsMsg struct {
	S   int    `json:"s"`
	Pad string `json:"pad"`
}

func wsPad(id, seq int, n int64) string { return string(pattern(id*1000+seq, int(n))) }

// --- C08: messages from a client ------------------------------------------------------

func genC08(r *Rng) *Plan {
	p := &Plan{Knobs: map[string]int64{}}
	netKnobs(r, p.Knobs, r.P(1, 3))
	p.Knobs["maxdelay"] = min(p.Knobs["maxdelay"], 400)
	for t := 1; t <= 1+r.N(4); t++ {
		n := 1 + r.N(7)
		switch r.N(24) {
		case 0: // many
			for i := r.N(60); i >= 0; i-- {
				p.Ops = append(p.Ops, Op{T: t, K: pick(r, "msg", "frag", "ping"), A: pick(r, int64(0), 1, 100), B: r.I(1 << 20)})
			}
		case 1: // large
			p.Knobs["window"], p.Knobs["seg"], p.Knobs["short"] = 64<<10, min(p.Knobs["seg"], 5), min(p.Knobs["short"], 5)
			p.Ops = append(p.Ops, Op{T: t, K: pick(r, "msg", "frag"), A: pick(r, int64(131072), 300000, 1200000), B: r.I(1 << 20)})
			p.oneHuge()
		}
		for i := 0; i < n; i++ {
			p.Ops = append(p.Ops, Op{T: t, K: pick(r, "msg", "msg", "msg", "msg", "frag", "frag", "ping", "pong", "pause"),
				A: pick(r, int64(0), 1, 90, 105, 120, 140, 5000, 65500, 70000), B: r.I(1 << 20), C: pick(r, int64(0), 0, 0, 1, 70, 3000)})
		}
		p.Ops = append(p.Ops, Op{T: t, K: pick(r, "close", "close", "fin", "fin", "cut", "reset", "gone", "fail", "panic", "midfrag", "badcont", "badjson", "badop", "refuse"), A: r.I(200), B: r.I(1 << 20)})
		if r.P(1, 2) { // messages nobody may see
			p.Ops = append(p.Ops, Op{T: t, K: "msg", A: r.I(300), B: r.I(1 << 20)})
		}
	}
	return p
}

type wsKey struct{}

// wsPing is the content of the ping which is operation i.
func wsPing(i int, o Op) string {
	s := fmt.Sprint(i, "\x00\xff\u00e9") + strings.Repeat("p", 125)
	return s[:[]int{0, 2, 20, 125}[o.B%4]]
}

// wsSide is what a handler records about one connection.
type wsSide struct {
	id       int
	busy, n  N // OnData running; messages delivered
	over     N // OnData returned an error or panicked
	ended    N
	failAt   int
	how      string
	slow     []int64
	expected []string
}

func runC08(e *Env, p *Plan) {
	applyNet(e, p)
	ids, byTask := p.ByTask()
	sides := make([]*wsSide, 16)
	for _, t := range ids {
		if t < 0 || t > 14 {
			return
		}
		s := &wsSide{id: t, failAt: -1}
		sides[t] = s
		seq := 0
	ops:
		for _, o := range byTask[t] {
			switch o.K {
			case "msg", "frag":
				s.expected = append(s.expected, wsPad(t, seq, o.A))
				s.slow = append(s.slow, o.C)
				seq++
			case "fail", "panic":
				// the last message makes the handler fail
				s.failAt = seq - 1
				s.how = o.K
				break ops
			case "refuse":
				s.how = o.K
			case "pause", "ping", "pong":
			default:
				break ops
			}
		}
	}
	quiet := p.Knob("reset") == 0 && p.Knob("stall") == 0
	ctxs := NewL[context.Context](16)
	f := newHTTP(e, func(c ctx.C, s *fhttp.Server) {
		h := ws.Handler{
			OnConnect: func(c ctx.C, conn *ws.Conn) (ctx.C, error) {
				id, _ := strconv.Atoi(strings.TrimPrefix(pathID(c), "c"))
				if id < 1 || id >= len(sides) || sides[id] == nil {
					e.Fail("alien", "a connection nobody made: %d", id)
				}
				side := sides[id]
				if conn.SID() == "" {
					e.Fail("sid", "connection without a session id")
				}
				if side.how == "refuse" {
					return c, errors.New("refused")
				}
				c = context.WithValue(c, wsKey{}, side)
				ctxs.Add(c)
				return c, nil
			},
			OnData: func(c ctx.C, conn *ws.Conn, n enc.Node) error {
				side, _ := c.Value(wsKey{}).(*wsSide)
				if side == nil {
					e.Fail("context", "OnData got a context which is not the one from OnConnect")
				}
				if side.busy.Add(1) != 1 {
					e.Fail("parallel", "connection %d: two messages handled at the same time", side.id)
				}
				defer side.busy.Add(-1)
				k := int(side.n.Get())
				if side.over.Get() != 0 {
					e.Fail("after-end", "connection %d: message %d delivered after the handler failed", side.id, k)
				}
				var m wsMsg
				if err := enc.Unmarshal(c, n, &m); err != nil {
					e.Fail("garbled", "connection %d: message %d: %v: %.200s", side.id, k, err, n)
				}
				if k >= len(side.expected) {
					e.Fail("extra", "connection %d: message %d delivered, only %d were completely sent", side.id, k, len(side.expected))
				}
				if m.S != k {
					e.Fail("order", "connection %d: message %d delivered, expected %d", side.id, m.S, k)
				}
				if m.Pad != side.expected[k] {
					e.Fail("garbled", "connection %d: message %d arrived different: %d bytes, %d sent", side.id, k, len(m.Pad), len(side.expected[k]))
				}
				side.n.Add(1)
				if d := side.slow[k]; d > 0 {
					time.Sleep(ms(d))
				}
				if k == side.failAt {
					side.over.Set(1)
					if side.how == "panic" {
						panic("s3cret")
					}
					return errors.New("enough")
				}
				return nil
			},
		}
		s.Handle("/ws", h.Server())
	})
	for _, t := range ids {
		t, ops, side := t, byTask[t], sides[t]
		e.Go(fmt.Sprintf("client%d", t), func() {
			rc, err := dialRaw(e, f.port)
			if err != nil {
				e.Fail("refused", "dial: %v", err)
			}
			_ = rc.c.SetReadDeadline(time.Now().Add(24 * time.Hour))
			hs := "GET /ws HTTP/1.1\r\nHost: sim\r\nUser-Agent: sim-" + fmt.Sprint(t) + "\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nOrigin: http://sim/\r\nSec-WebSocket-Version: 13\r\n\r\n"
			t0 := time.Now()
			if _, err = rc.c.Write([]byte(hs)); err == nil {
				err = rc.wsAccepted()
			}
			if err != nil {
				if quiet && time.Since(t0) < 20*time.Second {
					e.Fail("refused", "handshake: %v", err)
				}
				rc.c.Close()
				return
			}
			peer := &wsPeer{e, rc, fmt.Sprintf("client %d", t)}
			seq, pings := 0, 0
			clean, sentAll := true, false
			var cut []byte
			stopReader := make(chan struct{})
			pongs := &N{}
			disc := &N{}
			sent := map[string]bool{} // as a ping
			for i, o := range ops {
				if o.K == "ping" {
					sent[wsPing(i, o)] = true
				}
			}
			go func() {
				defer close(stopReader)
				peer.drain(func(op byte, b []byte) {
					switch op {
					case 10:
						pongs.Add(1)
						if string(b) != "ctl" && !sent[string(b)] {
							e.Fail("pong", "client %d: a pong of %q answers no ping", t, b)
						}
					case 1:
						if !bytes.Contains(b, []byte(`"disconnect"`)) || side.over.Get() == 0 && clean {
							e.Fail("extra", "client %d: unexpected message %.200q", t, b)
						}
						disc.Add(1)
					}
				})
			}()
		ops:
			for i, o := range ops {
				var err error
				switch o.K {
				case "msg", "frag":
					if sentAll {
						if side.over.Get() != 0 || side.how == "fail" || side.how == "panic" {
							_ = peer.send(wsMessage([]byte(`{"s":`+fmt.Sprint(seq)+`}`), 0, 0, 0))
						}
						break // after the end
					}
					j, _ := json.Marshal(wsMsg{S: seq, Pad: wsPad(t, seq, o.A)})
					frags, ctl := 0, byte(0)
					if o.K == "frag" {
						frags = 1 + int(o.B%3)
						ctl = []byte{0, 9, 10}[o.B/3%3]
						e.Probe("fragmented")
					}
					seq++
					err = peer.send(wsMessage(j, frags, ctl, o.B))
				case "ping":
					pings++
					err = peer.send(wsFrame(9, true, []byte(wsPing(i, o))))
				case "pong":
					err = peer.send(wsFrame(10, true, nil))
				case "pause":
					time.Sleep(ms(o.B % 3000))
				case "close":
					err = peer.send(wsFrame(8, true, []byte{3, 232}))
					sentAll = true
				case "fin":
					_ = rc.c.CloseWrite()
					sentAll = true
					break ops
				case "fail", "panic":
					sentAll = true
					if seq == 0 {
						_ = rc.c.CloseWrite()
						break ops
					}
				case "cut": // a message that is not completely sent
					j, _ := json.Marshal(wsMsg{S: seq, Pad: wsPad(t, seq, o.A)})
					cut = wsMessage(j, int(o.B%2), 0, o.B)
					n := 1 + int(o.B/2)%(len(cut)-1)
					if o.A%2 == 1 { // what is missing is only blank
						cut = wsMessage(append(j, bytes.Repeat([]byte(" "), 100)...), int(o.B%2), 0, o.B)
						n = len(cut) - 1 - int(o.B/2%60)
					}
					cut = cut[:n]
					_ = peer.send(cut)
					e.Fault("truncated_message")
					if o.B&1024 != 0 { // it breaks, after the server got this much
						time.Sleep(ms(o.B % 9000))
						e.Fault("client_reset")
						rc.c.Reset()
						clean, sentAll = false, true
						break ops
					}
					_ = rc.c.CloseWrite()
					sentAll = true
					break ops
				case "midfrag": // a new message begins inside another
					// both together, or one alone, may well be valid
					part := [][2]string{{`{"s":`, `{"s":%d}`}, {` `, `{"s":%d}`}, {`{`, `"s":%d}`}, {`{"s":9}`, `{"s":%d}`}}[o.A%4]
					_ = peer.send(wsFrame(1, false, []byte(part[0])))
					if o.B%3 == 0 { // and nothing else
						_ = rc.c.CloseWrite()
						e.Fault("truncated_message")
						sentAll = true
						break ops
					}
					_ = peer.send(wsFrame(1+byte(o.A/4%2), true, []byte(fmt.Sprintf(part[1], seq))))
					e.Fault("bad_fragment")
					sentAll = true
				case "badcont":
					_ = peer.send(wsFrame(0, true, []byte(`{"s":`+fmt.Sprint(seq)+`}`)))
					e.Fault("bad_fragment")
					sentAll = true
				case "badjson":
					_ = peer.send(wsFrame(1, true, []byte(`{"s":`+fmt.Sprint(seq))))
					sentAll = true
				case "badop":
					_ = peer.send(wsFrame(3+byte(o.B%5), true, []byte(`{"s":`+fmt.Sprint(seq)+`}`)))
					sentAll = true
				case "reset":
					e.Fault("client_reset")
					rc.c.Reset()
					clean, sentAll = false, true
					break ops
				case "gone":
					rc.c.Close()
					clean, sentAll = false, true
					break ops
				}
				if err != nil {
					clean = clean && (side.over.Get() != 0 || sentAll || side.how == "refuse")
					break
				}
			}
			if !sentAll {
				_ = rc.c.CloseWrite()
			}
			// Every ending closes the connection.
			<-stopReader
			rc.c.Close()
			if quiet && clean {
				want := len(side.expected)
				if side.how == "refuse" {
					want = 0
				}
				// let the handler finish
				for i := 0; i < 600 && int(side.n.Get()) < want; i++ {
					time.Sleep(time.Second)
				}
				if int(side.n.Get()) != want {
					e.Fail("lost", "connection %d: %d of %d messages delivered, although the connection had no trouble", t, side.n.Get(), want)
				}
				e.Probe("complete")
				_ = pings
			}
			e.Ev("connection %d: %d delivered, disconnect %d, pongs %d", t, side.n.Get(), disc.Get(), pongs.Get())
			if disc.Get() > 1 {
				e.Fail("extra", "client %d was told %d times that it is disconnected", t, disc.Get())
			}
		})
	}
	e.Join(24*time.Hour, "stuck", "websocket clients")
	calm(e)
	noServerLeft(e, f)
	for _, c := range ctxs.All() {
		if c.Err() == nil {
			e.Fail("context", "a connection ended and its context is not cancelled")
		}
	}
	shutdown.Begin()
	if !recvTimeout(shutdown.Done(), 20*time.Minute) {
		e.Fail("hold-leak", "the shutdown does not complete although all clients are gone\n%s", foregoStacks())
	}
	e.Ev("done")
}

// --- C09: messages to a client ---------------------------------------------------------

func genC09(r *Rng) *Plan {
	p := &Plan{Knobs: map[string]int64{
		"conns":   1 + r.I(3),
		"end":     pick(r, int64(0), 1, 2, 3, 4, 5), // how it ends
		"endat":   pick(r, int64(0), 1, 50, 400, 3000),
		"reader":  pick(r, int64(0), 0, 1, 20), // pause of the client between reads, ms
		"reading": pick(r, int64(1), 1, 1, 0),  // 0: the client stops reading at some point
		"shared":  r.I(2),
	}}
	netKnobs(r, p.Knobs, r.P(1, 4))
	p.Knobs["maxdelay"] = min(p.Knobs["maxdelay"], 400)
	for t := 1; t <= 1+r.N(5); t++ {
		n := 1 + r.N(5)
		switch r.N(24) {
		case 0: // many
			for i := r.N(30); i >= 0; i-- {
				p.Ops = append(p.Ops, Op{T: t, K: "send", A: pick(r, int64(0), 60, 110)})
			}
		case 1: // large
			p.Knobs["window"], p.Knobs["seg"], p.Knobs["short"] = 64<<10, min(p.Knobs["seg"], 5), min(p.Knobs["short"], 5)
			p.Ops = append(p.Ops, Op{T: t, K: "send", A: pick(r, int64(131072), 300000)})
		}
		for i := 0; i < n; i++ {
			p.Ops = append(p.Ops, Op{T: t, K: pick(r, "send", "send", "send", "sendctx", "pause", "ping", "close", "plain", "plain"),
				A: pick(r, int64(0), 3, 60, 95, 100, 110, 130, 3000, 65480, 65520, 90000), B: r.I(500), C: r.I(1 << 16)})
		}
	}
	return p
}

type wsOut struct {
	C   int    `json:"c"` // connection
	T   int    `json:"t"` // sender
	S   int    `json:"s"`
	Pad string `json:"pad"`
}

// wsPlain is one of a few messages, so that many are equal.
func wsPlain(k int64) any {
	switch k % 8 {
	case 0, 1:
		return ws.Frame{Type: "error", Channel: fmt.Sprint(k / 8 % 2), Data: enc.String("no")}
	case 2:
		return ws.Frame{Path: "tally", Type: "part", Data: enc.Map{"i": enc.Integer(k / 8 % 2)}}
	case 3:
		return "tick"
	case 4:
		return nil
	case 5:
		return []any{1, "x", nil}
	case 6:
		return map[string]any{}
	}
	return k / 8 % 2
}

// wsPlainText is the message as JSON sees it.
func wsPlainText(m any) string {
	b, err := json.Marshal(m)
	if f, ok := m.(ws.Frame); ok {
		x := map[string]any{}
		for k, v := range map[string]string{"channel": f.Channel, "path": f.Path, "type": f.Type} {
			if v != "" {
				x[k] = v
			}
		}
		if f.Data != nil {
			x["data"] = json.RawMessage(enc.JSON{}.Encode(nil, f.Data))
		}
		b, err = json.Marshal(x)
	}
	var x any
	if err == nil {
		err = json.Unmarshal(b, &x)
	}
	if err != nil {
		return fmt.Sprintf("pad: %v", err) // dealt with elsewhere
	}
	return fmt.Sprintf("%v", x)
}

func runC09(e *Env, p *Plan) {
	applyNet(e, p)
	ids, byTask := p.ByTask()
	conns := int(p.Knob("conns"))
	if conns < 1 || conns > 6 || len(ids) > 8 {
		return
	}
	quiet := p.Knob("reset") == 0 && p.Knob("stall") == 0
	type side struct {
		conn                *ws.Conn
		ok                  [10]N // messages of each sender whose Send succeeded (a prefix is not required)
		sent                *L[wsOut]
		okSeq               *L[[2]int]
		plain, plainOK      *L[string] // messages without a number, equal to others before them
		closing, ended, cut N          // Close was called; the handler has returned
	}
	sides := make([]*side, conns)
	for i := range sides {
		sides[i] = &side{plain: NewL[string](2*len(p.Ops) + 10), plainOK: NewL[string](2*len(p.Ops) + 10), sent: NewL[wsOut](2*len(p.Ops) + 100), okSeq: NewL[[2]int](2*len(p.Ops) + 100)}
	}
	left, released := &N{}, &N{}
	f := newHTTP(e, func(c ctx.C, s *fhttp.Server) {
		s.Handle("/ws", ws.Handler{
			OnConnect: func(c ctx.C, conn *ws.Conn) (ctx.C, error) {
				id, _ := strconv.Atoi(pathID(c))
				s := sides[id-1]
				s.conn = conn
				for _, t := range ids {
					t, ops := t, byTask[t]
					left.Add(1)
					e.Go(fmt.Sprintf("sender%d.%d", id, t), func() {
						defer left.Add(-1)
						for k, o := range ops {
							switch o.K {
							case "send", "sendctx":
								m := wsOut{id, t, k, wsPad(t, k, o.A)}
								before := s.closing.Get()
								s.sent.Add(m)
								c := c
								if o.K == "sendctx" { // a context of its own, which ends later
									c2, cf := ctx.WithTimeout(c, ms(o.B))
									time.AfterFunc(ms(o.B)*2, cf)
									c = c2
								}
								if err := conn.Send(c, m); err == nil {
									s.okSeq.Add([2]int{t, k})
								} else if c.Err() != nil && o.K == "sendctx" {
									s.cut.Add(1)
								} else if quiet && s.cut.Get() == 0 && before == 0 && s.closing.Get() == 0 && s.ended.Get() == 0 && p.Knob("end") < 2 {
									e.Fail("send-error", "connection %d: Send fails although nobody closed it: %v", id, err)
								}
							case "plain":
								m := wsPlain(o.C)
								s.plain.Add(wsPlainText(m))
								if err := conn.Send(c, m); err == nil {
									s.plainOK.Add(wsPlainText(m))
								}
							case "pause":
								time.Sleep(ms(o.B))
							case "close":
								if o.C%4 == 0 {
									s.closing.Add(1)
									e.Probe("close_while_sending")
									t0 := time.Now()
									_ = conn.Close(c, ws.GOING_AWAY)
									if d := time.Since(t0); d > time.Minute+e.Slack() {
										e.Fail("close-late", "connection %d: Close took %s", id, d)
									}
								}
							}
						}
					})
				}
				return c, nil
			},
			OnData: func(c ctx.C, conn *ws.Conn, n enc.Node) error {
				id, _ := strconv.Atoi(pathID(c))
				s := sides[id-1]
				var m wsOut
				_ = enc.Unmarshal(c, n, &m)
				if m.S >= 0 { // echo
					m.T = 9
					s.sent.Add(m)
					if conn.Send(c, m) == nil {
						s.okSeq.Add([2]int{9, m.S})
					}
				}
				if m.S < 0 {
					s.closing.Add(1)
					return errors.New("told to")
				}
				return nil
			},
		}.Server())
	})
	for i := 0; i < conns; i++ {
		id, s := i+1, sides[i]
		e.Go(fmt.Sprintf("client%d", id), func() {
			t0 := time.Now()
			rc, err := dialRaw(e, f.port)
			if err == nil {
				_ = rc.c.SetReadDeadline(time.Now().Add(24 * time.Hour))
				hs := "GET /ws HTTP/1.1\r\nHost: sim\r\nUser-Agent: sim-" + fmt.Sprint(id) + "\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nOrigin: http://sim/\r\nSec-WebSocket-Version: 13\r\n\r\n"
				if _, err = rc.c.Write([]byte(hs)); err == nil {
					err = rc.wsAccepted()
				}
			}
			if err != nil {
				if quiet && time.Since(t0) < 20*time.Second {
					e.Fail("refused", "handshake: %v", err)
				}
				if rc != nil {
					rc.c.Close()
				}
				return
			}
			peer := &wsPeer{e, rc, fmt.Sprintf("client %d", id)}
			pings, echoes := &N{}, &N{}
			end := p.Knob("end")
			writerDone := make(chan struct{})
			halfClosed := &N{}
			go func() { // what the client sends meanwhile
				defer close(writerDone)
				r := NewRng(uint64(p.Knob("endat")*7 + int64(id)))
				if end >= 3 {
					for k := 0; k < 3; k++ {
						time.Sleep(ms(r.I(100)))
						if end == 3 {
							pings.Add(1)
							_ = peer.send(wsFrame(9, true, []byte("p"+fmt.Sprint(k))))
						} else {
							echoes.Add(1)
							j, _ := json.Marshal(wsOut{id, 9, k, wsPad(9, k, r.I(3000))})
							_ = peer.send(wsFrame(1, true, j))
						}
					}
				}
				time.Sleep(ms(p.Knob("endat")))
				switch end {
				case 2, 5:
					s.closing.Add(1)
					_ = peer.send(wsFrame(8, true, nil))
				case 4:
					_ = peer.send(wsFrame(1, true, []byte(`{"s":-1}`)))
				}
				// otherwise it stays until everything was sent
			}()
			got := map[[2]int]bool{}
			last := map[int]int{}
			pongs := 0
			nread := 0
			plain, nplain := map[string]int{}, 0
			sawClose := false
			for {
				if p.Knob("reading") == 0 && nread == 2 {
					// reads nothing any more, for a long time
					e.Fault("client_not_reading")
					time.Sleep(time.Hour)
					nread++
					if !quiet {
						break
					}
				}
				op, b, err := peer.frame()
				if err != nil {
					if isTimeout(err) {
						e.Fail("stuck", "connection %d: never ends", id)
					}
					break
				}
				nread++
				if sawClose && op != 8 {
					e.Fail("after-close", "connection %d: a frame with opcode %d follows the close frame", id, op)
				}
				switch op {
				case 8:
					if len(b) >= 2 && !sawClose { // the code is what Close was called with
						c := int(b[0])<<8 | int(b[1])
						if c != ws.EXIT && (c != ws.GOING_AWAY || s.closing.Get() == 0) {
							e.Fail("close-code", "connection %d: closed with code %d", id, c)
						}
						if c != ws.GOING_AWAY && quiet && (end < 2 || end == 3) && halfClosed.Get() == 0 && released.Get() == 0 {
							e.Fail("close-code", "connection %d: closed with code %d, it was closed with %d", id, c, ws.GOING_AWAY)
						}
					}
					sawClose = true
				case 9:
				case 10:
					if string(b) != "p"+fmt.Sprint(pongs) {
						e.Fail("pong", "connection %d: pong %q, expected p%d", id, b, pongs)
					}
					pongs++
				case 2:
					e.Fail("malformed", "connection %d: a binary message", id)
				case 1:
					if bytes.Contains(b, []byte(`"disconnect"`)) && end == 4 {
						break
					}
					if text := wsPlainText(json.RawMessage(b)); !strings.Contains(text, "pad:") {
						plain[text]++
						nplain++
						n := 0
						for _, x := range s.plain.All() {
							if x == text {
								n++
							}
						}
						if n == 0 {
							e.Fail("garbled", "connection %d: a message that nobody sent: %.200q", id, b)
						}
						if plain[text] > n {
							e.Fail("twice", "connection %d: %s was sent %d times and arrives %d times", id, text, n, plain[text])
						}
						break
					}
					var m wsOut
					if err := json.Unmarshal(b, &m); err != nil {
						e.Fail("garbled", "connection %d: a message is not JSON: %v: %.200q", id, err, b)
					}
					var op Op
					if l := byTask[m.T]; m.T != 9 && m.S >= 0 && m.S < len(l) {
						op = l[m.S]
					}
					known := false
					for _, x := range s.sent.All() {
						known = known || x == m
					}
					_ = op
					if !known {
						e.Fail("garbled", "connection %d: a message that nobody sent: sender %d message %d (%d bytes)", id, m.T, m.S, len(b))
					}
					k := [2]int{m.T, m.S}
					if got[k] {
						e.Fail("twice", "connection %d: message %d of sender %d arrives twice", id, m.S, m.T)
					}
					got[k] = true
					if l, ok := last[m.T]; ok && l > m.S {
						e.Fail("order", "connection %d: sender %d: message %d arrives after %d", id, m.T, m.S, l)
					}
					last[m.T] = m.S
				}
				if d := p.Knob("reader"); d > 0 {
					time.Sleep(ms(d))
				}
				if end < 2 || end == 3 {
					// done when all the senders are and everything has arrived
					if left.Get() == 0 && len(got) >= s.okSeq.Len() && nplain >= s.plainOK.Len() && pongs >= int(pings.Get()) && halfClosed.Get() == 0 {
						halfClosed.Set(1)
						_ = rc.c.CloseWrite()
					}
				}
			}
			rc.c.Close()
			<-writerDone
			e.Ev("connection %d: %d received, %d pongs", id, len(got), pongs)
			// Whatever Send reported as sent has arrived, if the connection was
			// read to its end and nothing the client sent could make it break.
			if quiet && end < 2 {
				for _, k := range s.okSeq.All() {
					if !got[k] {
						e.Fail("lost", "connection %d: message %d of sender %d was sent and never arrived", id, k[1], k[0])
					}
				}
				for _, x := range s.plainOK.All() {
					if plain[x]--; plain[x] < 0 {
						e.Fail("lost", "connection %d: %s was sent and did not arrive each time", id, x)
					}
				}
				e.Probe("all_arrived")
			}
		})
	}
	// Clients that wait for more than there is are released.
	for i := 0; i < 400; i++ {
		time.Sleep(30 * time.Second)
		if left.Get() == 0 && i > 20 {
			released.Set(1)
			for _, c := range e.Net.Open(true) {
				_ = c.CloseWrite()
			}
		}
		if len(e.Pending()) == 0 {
			break
		}
	}
	e.Join(24*time.Hour, "stuck", "senders and clients")
	calm(e)
	noServerLeft(e, f)
	e.Ev("done")
}

// --- C10: RPC over a websocket -----------------------------------------------------------

func genC10(r *Rng) *Plan {
	p := &Plan{Knobs: map[string]int64{"pipeline": r.I(2), "debug": r.I(2), "careful": r.I(2), "names": r.I(int64(len(rpcNames)))}}
	netKnobs(r, p.Knobs, r.P(1, 4))
	p.Knobs["maxdelay"] = min(p.Knobs["maxdelay"], 400)
	for t := 1; t <= 1+r.N(4); t++ {
		p.Ops = append(p.Ops, Op{T: t, K: "open", A: r.I(3), B: r.I(50), C: r.I(4)})
		n := 1 + r.N(9)
		if r.P(1, 16) { // many channels
			for i := r.N(30); i >= 0; i-- {
				p.Ops = append(p.Ops, Op{T: t, K: "open", A: r.I(3), B: r.I(50), C: r.I(4)})
			}
			n += r.N(20)
		}
		for i := 0; i < n; i++ {
			p.Ops = append(p.Ops, Op{T: t, K: pick(r, "open", "open", "inc", "inc", "inc", "get", "get", "many", "later", "note", "note", "fail", "badarg", "noarg", "close", "close", "openfail", "badfield", "ping", "pause"),
				A: r.I(3), B: r.I(50), C: r.I(4)})
		}
		if r.P(1, 2) {
			p.Ops = append(p.Ops, Op{T: t, K: pick(r, "nopath", "nomethod", "nochan", "panic", "initpanic", "cclose", "closeall", "badframe", "hidden"), A: r.I(3), B: r.I(50), C: r.I(4)})
			if r.P(1, 2) {
				p.Ops = append(p.Ops, Op{T: t, K: "inc", A: r.I(3), B: r.I(50)})
			}
		}
	}
	return p
}

// rpcLab is shared by all the objects of a run.
type rpcLab struct {
	e     *Env
	alive *N
	calls *L[string] // side effects: "conn/chan/what"
}

type Tally struct {
	Step  int
	Lab   *rpcLab
	total int
	name  string
	busy  N
}

func (o *Tally) enter() func() {
	if o.busy.Add(1) != 1 {
		o.Lab.e.Fail("parallel", "object %s: two calls at the same time", o.name)
	}
	return func() { o.busy.Add(-1) }
}

type tallyInit struct {
	Name  string `json:"name"`
	Start int    `json:"start"`
	Hello bool   `json:"hello"`
	Fail  string `json:"fail"`
	Boom  bool   `json:"boom"`
}

func (o *Tally) Init(c ws.C, in tallyInit) error {
	defer o.enter()()
	if o.total != 0 || o.name != "" {
		o.Lab.e.Fail("state", "object %s starts with the state of %s", in.Name, o.name)
	}
	if o.Step != 3 {
		o.Lab.e.Fail("state", "object %s starts with Step=%d, it was registered with 3", in.Name, o.Step)
	}
	o.name, o.total = in.Name, in.Start
	if in.Boom {
		panic("s3cret")
	}
	if in.Hello {
		if err := c.Reply("hello", in.Name); err != nil {
			return err
		}
	}
	if in.Fail != "" {
		o.Step = 99
		return errors.New(in.Fail)
	}
	return nil
}

func (o *Tally) Inc(c ws.C, amt int) error {
	defer o.enter()()
	t := o.total
	time.Sleep(time.Millisecond)
	o.total = t + amt*o.Step
	return c.Reply("total", o.total)
}

func (o *Tally) Get(c ws.C) error {
	defer o.enter()()
	return c.Reply("total", o.total)
}

func (o *Tally) Many(c ws.C, n int) error {
	defer o.enter()()
	for i := 0; i < n; i++ {
		if err := c.Reply("part", map[string]any{"i": i, "of": n, "name": o.name, "pad": strings.Repeat("x", i*40)}); err != nil {
			return err
		}
	}
	return nil
}

// Later replies after the call has returned.
func (o *Tally) Later(c ws.C, id int) error {
	defer o.enter()()
	o.Lab.alive.Add(1)
	name := o.name
	o.Lab.e.Go("later", func() {
		defer o.Lab.alive.Add(-1)
		time.Sleep(ms(int64(id % 40)))
		_ = c.Reply("later", fmt.Sprintf("%s#%d", name, id))
	})
	return nil
}

// Note has a side effect and replies nothing.
func (o *Tally) Note(c ws.C, id int) error {
	defer o.enter()()
	o.Lab.calls.Add(fmt.Sprintf("%s#%d", o.name, id))
	return nil
}

func (o *Tally) Fail(c ws.C, m struct {
	Msg string `json:"msg"`
}) error {
	defer o.enter()()
	o.total++
	return errors.New(m.Msg)
}

func (o *Tally) Boom(c ws.C) error { panic("s3cret") }
func (o *Tally) Bye(c ws.C) error  { return c.Close() }

// exported, but not handlers: none of them takes the channel's context first
func (o *Tally) Aside(c ctx.C, n int) error       { return o.leak("aside") }
func (o *Tally) Plain(n int) error                { return o.leak("plain") }
func (o *Tally) Watch(c ctx.C) error              { return o.leak("watch") }
func (o *Tally) Bare() error                      { return o.leak("bare") }
func (o *Tally) Three(c ws.C, n int, m int) error { return o.leak("three") }
func (o *Tally) leak(name string) error {
	o.Lab.e.Fail("callable", "a client called %s, which is not a handler", name)
	return nil
}

func (o *Tally) Hidden(n int) error {
	o.Lab.e.Fail("exposed", "a method without ws.C was called")
	return nil
}
func (o *Tally) hidden(c ws.C, n int) error {
	o.Lab.e.Fail("exposed", "a private method was called")
	return nil
}

// Plain has no Init and no arguments.
type Plain struct {
	Tag string
	N   *N
	n   int
}

func (o *Plain) Inc(c ws.C, amt int) error { o.n += amt; return c.Reply("total", o.n) }
func (o *Plain) Get(c ws.C) error          { return c.Reply("total", fmt.Sprint(o.Tag, o.n)) }

// Bare has no defaults at all.
type Bare struct{ n int }

func (o *Bare) Inc(c ws.C, amt int) error { o.n += amt; return c.Reply("total", o.n) }
func (o *Bare) Get(c ws.C) error          { return c.Reply("total", o.n) }

// rpcModel is one connection as the client may observe it.
type rpcModel struct {
	chans map[string]*rpcChan
	// frames expected, in order; "later" frames are collected apart
	want  []string
	later map[string]bool
	notes []string
	dead  string // how the connection ends
	// channels that were closed
	closed map[string]bool
	names  int64 // which names it gives its channels
	// careful clients use what is open, under many names
	careful bool
	open    []string
}

var rpcNames = [][]string{{"a", "b", "long channel \"name\" \u00e9"}, {"a", "A", " a"}, {"a", "a ", "a\n"}, {"0", "00", strings.Repeat("0", 300)}, {"a", "b", "a/b"}, {"null", "\x00", "<&>"}}

// choose is the channel a careful client uses for o.
func (m *rpcModel) choose(ch string, i int, o Op) string {
	var open []string
	for _, n := range m.open {
		if m.chans[n] != nil {
			open = append(open, n)
		}
	}
	m.open = open
	switch o.K {
	case "open", "openfail", "badfield", "initpanic":
		if m.chans[ch] != nil {
			ch = fmt.Sprint("ch-", i)
		}
		m.open = append(m.open, ch)
	default:
		if len(open) > 0 {
			ch = open[int(o.A*7+o.B)%len(open)]
		}
	}
	return ch
}

type rpcChan struct {
	kind  string
	name  string
	total int
}

func frameKey(ch, path, typ string, data any) string {
	j, _ := json.Marshal(data)
	if typ == "error" || typ == "return" && data != nil {
		j = []byte(`"(error)"`)
	}
	return fmt.Sprintf("ch=%s path=%s type=%s data=%s", ch, path, typ, j)
}

// step runs one operation on the model and returns the frame to send.
func (m *rpcModel) step(t, i int, o Op) (raw []byte) {
	ch := rpcNames[m.names%int64(len(rpcNames))][o.A%3]
	if m.careful {
		ch = m.choose(ch, i, o)
	}
	c := m.chans[ch]
	put := func(path, typ string, data any) { m.want = append(m.want, frameKey(ch, path, typ, data)) }
	enc := func(typ, path string, data any) []byte {
		f := map[string]any{"channel": ch, "type": typ}
		if path != "" {
			f["path"] = path
		}
		if data != nil {
			f["data"] = data
		}
		if typ == "" && o.C%2 == 0 {
			delete(f, "type")
		}
		j, _ := json.Marshal(f)
		return j
	}
	die := func(how string) { m.dead = how }
	call := func(path string, arg any, f func(c *rpcChan)) []byte {
		b := enc([]string{"", "data"}[o.C%2], path, arg)
		if c == nil && m.careful {
			return nil
		} else if c == nil {
			die("disconnect")
		} else {
			f(c)
		}
		return b
	}
	onTally := func(path string, arg any, f func(c *rpcChan)) []byte {
		if m.careful && c != nil && c.kind != "tally" {
			return nil
		}
		return call(path, arg, func(c *rpcChan) {
			if c.kind != "tally" {
				die("disconnect")
				return
			}
			f(c)
		})
	}
	ret := func(path string) { put(path, "return", nil) }
	fail := func(path string) { put(path, "return", 1); put("", "error", nil) }
	n := int(o.B)
	switch o.K {
	case "open":
		if c != nil { // what opening a channel twice means is not defined
			return nil
		}
		if o.C == 3 {
			m.chans[ch] = &rpcChan{kind: "plain"}
			return enc("new", "plain", nil)
		}
		if o.C == 2 {
			m.chans[ch] = &rpcChan{kind: "bare"}
			return enc("new", "bare", nil)
		}
		name := fmt.Sprintf("%d/%d", t, i)
		hello := o.C == 1
		m.chans[ch] = &rpcChan{kind: "tally", name: name, total: n}
		if hello {
			put("hello", "", name)
		}
		return enc([]string{"open", "new"}[o.B%2], "tally", map[string]any{"name": name, "start": n, "hello": hello, "step": 50, "Step": 50})
	case "openfail":
		if c != nil {
			return nil
		}
		put("", "error", nil)
		return enc("open", "tally", map[string]any{"name": "f", "fail": "no luck"})
	case "badfield":
		if c != nil {
			return nil
		}
		put("", "error", nil)
		return enc("open", "tally", map[string]any{"start": "x"})
	case "inc":
		return call("inc", n, func(c *rpcChan) {
			if c.kind == "tally" {
				c.total += n * 3
			} else {
				c.total += n
			}
			put("total", "", c.total)
			ret("inc")
		})
	case "get":
		return call("get", nil, func(c *rpcChan) {
			if c.kind == "plain" {
				put("total", "", fmt.Sprint("T", c.total))
			} else {
				put("total", "", c.total)
			}
			ret("get")
		})
	case "many":
		return onTally("many", n%7, func(c *rpcChan) {
			for k := 0; k < n%7; k++ {
				put("part", "", map[string]any{"i": k, "of": n % 7, "name": c.name, "pad": strings.Repeat("x", k*40)})
			}
			ret("many")
		})
	case "later":
		id := t*10000 + i*100 + n
		return onTally("later", id, func(c *rpcChan) {
			m.later[frameKey(ch, "later", "", fmt.Sprintf("%s#%d", c.name, id))] = true
			ret("later")
		})
	case "note":
		id := i*100 + n
		return onTally("note", id, func(c *rpcChan) {
			m.notes = append(m.notes, fmt.Sprintf("%s#%d", c.name, id))
			ret("note")
		})
	case "fail":
		return onTally("fail", map[string]any{"msg": fmt.Sprint("bad ", n)}, func(c *rpcChan) { c.total++; fail("fail") })
	case "badarg":
		return call("inc", "not a number", func(c *rpcChan) { fail("inc") })
	case "noarg": // a missing argument is the zero value
		return onTally("note", nil, func(c *rpcChan) {
			m.notes = append(m.notes, c.name+"#0")
			ret("note")
		})
	case "close":
		if c == nil {
			if !m.closed[ch] || m.careful {
				return nil
			}
			// closing it again can't be answered as if it were open
			die("any")
			return enc("close", "", nil)
		}
		m.closed[ch] = true
		delete(m.chans, ch)
		put("", "close", nil)
		return enc("close", "", nil)
	case "nopath":
		die("disconnect")
		return enc("open", "nope", 1)
	case "nomethod":
		return call(pick(NewRng(uint64(n)), "nope", "init", "Inc", "", "hidden", "lab", "total", "aside", "plain", "bare", "three", "watch", "leak", "Aside"), 1, func(c *rpcChan) { die("disconnect") })
	case "hidden":
		return call(pick(NewRng(uint64(n)), "hidden", "aside", "plain", "bare", "three", "watch"), 1, func(c *rpcChan) { die("disconnect") })
	case "nochan":
		ch = "zzz"
		die("disconnect")
		return enc("", "inc", 1)
	case "panic":
		return onTally("boom", nil, func(c *rpcChan) { die("any") })
	case "initpanic":
		if c != nil {
			return nil
		}
		die("any")
		return enc("open", "tally", map[string]any{"boom": true})
	case "cclose":
		return onTally("bye", nil, func(c *rpcChan) { die("close") })
	case "closeall":
		ch = ""
		die("close")
		return enc("close", "", nil)
	case "badframe":
		die("disconnect")
		return []byte([]string{`{"type":1}`, `[1]`, `"x"`, `{"channel":{}}`, `7`}[n%5])
	}
	return nil
}

func runC10(e *Env, p *Plan) {
	applyNet(e, p)
	ids, byTask := p.ByTask()
	if len(ids) > 10 {
		return
	}
	quiet := p.Knob("reset") == 0 && p.Knob("stall") == 0
	lab := &rpcLab{e: e, alive: &N{}, calls: NewL[string](400 + 4*len(p.Ops))}
	f := newHTTP(e, func(c ctx.C, s *fhttp.Server) {
		h := &ws.RpcHandler{}
		h.MustRegister(c, &Tally{Step: 3, Lab: lab, total: 0})
		h.MustRegister(c, &Plain{Tag: "T", n: 7})
		h.MustRegister(c, &Bare{})
		s.Handle("/ws", h.Server())
	})
	notes, maybe := map[string]int{}, map[string]int{}
	lenient := &N{}
	if !quiet {
		lenient.Set(1)
	}
	for _, t := range ids {
		t, ops := t, byTask[t]
		m := &rpcModel{chans: map[string]*rpcChan{}, later: map[string]bool{}, closed: map[string]bool{}, careful: p.Knob("careful") == 1, names: p.Knob("names")}
		var frames [][]byte
		var upto []int // frames expected once k requests are done
		deadly := 1 << 30
		for i, o := range ops {
			if o.K == "pause" || o.K == "ping" {
				frames, upto = append(frames, []byte{byte(len(o.K))}), append(upto, len(m.want))
				continue
			}
			if b := m.step(t, i, o); b != nil {
				frames, upto = append(frames, b), append(upto, len(m.want))
				if m.dead != "" {
					deadly = len(frames) - 1
					// what follows must have no effect
					for j := i + 1; j < len(ops); j++ {
						m2 := &rpcModel{chans: map[string]*rpcChan{}, later: map[string]bool{}, closed: map[string]bool{}, names: m.names}
						for k, v := range m.chans {
							cp := *v
							m2.chans[k] = &cp
						}
						if b := m2.step(t, j, ops[j]); b != nil {
							frames, upto = append(frames, b), append(upto, len(m.want))
						}
						if m.dead != "disconnect" { // what had arrived when the connection was closed may be done
							for _, n := range m2.notes {
								maybe[n]++
							}
						}
					}
					break
				}
			}
		}
		for _, n := range m.notes {
			notes[n]++
		}
		e.Go(fmt.Sprintf("client%d", t), func() {
			t0 := time.Now()
			peer := dialWS(e, f.port, "/ws", fmt.Sprintf("client %d", t))
			if peer == nil {
				if quiet && time.Since(t0) < 20*time.Second {
					e.Fail("refused", "handshake failed")
				}
				lenient.Set(1)
				return
			}
			var seen *N = &N{}
			over := make(chan struct{})
			pongs, endAt := &N{}, &N{}
			go func() {
				defer close(over)
				got := 0
				later := map[string]bool{}
				disc, closed := false, false
				err := peer.drain(func(op byte, b []byte) {
					switch op {
					case 10:
						pongs.Add(1)
						return
					case 8:
						closed = true
						return
					}
					var fr struct {
						Channel *string `json:"channel"`
						Path    string  `json:"path"`
						Type    *string `json:"type"`
						Data    any     `json:"data"`
					}
					if err := json.Unmarshal(b, &fr); err != nil || fr.Type == nil {
						e.Fail("garbled", "client %d: bad frame %.200q: %v", t, b, err)
					}
					ch := ""
					if fr.Channel != nil {
						ch = *fr.Channel
					}
					k := frameKey(ch, fr.Path, *fr.Type, fr.Data)
					switch {
					case fr.Path == "later" && *fr.Type == "":
						if later[k] || !m.later[k] {
							e.Fail("misrouted", "client %d: unexpected %s", t, k)
						}
						later[k] = true
						return
					case *fr.Type == "disconnect":
						if disc || m.dead != "disconnect" && m.dead != "any" || got != len(m.want) {
							e.Fail("disconnected", "client %d is disconnected after %d of %d frames, its end should be %q: %.300q", t, got, len(m.want), m.dead, b)
						}
						disc = true
						return
					}
					if strings.Contains(string(b), "s3cret") {
						e.Fail("leak", "client %d: %.200q", t, b)
					}
					if got >= len(m.want) {
						e.Fail("extra", "client %d: unexpected frame after all %d: %s", t, got, k)
					}
					if k != m.want[got] {
						e.Fail("wrong", "client %d: frame %d is\n  %s, expected\n  %s", t, got, k, m.want[got])
					}
					got++
					seen.Set(int64(got))
					if m.dead == "" && got == len(m.want) && len(later) == len(m.later) {
						e.Probe("all_frames")
					}
				})
				e.Ev("client %d: %d of %d frames, disconnect=%v", t, got, len(m.want), disc)
				if isTimeout(err) {
					e.Fail("stuck", "client %d: got %d of %d frames and then nothing, although the connection should have ended (%q)", t, got, len(m.want), m.dead)
				}
				if quiet && m.dead == "disconnect" && !disc && err == io.EOF {
					e.Fail("silent", "client %d is dropped without being told", t)
				}
				// (a server that stalls for the five seconds a close may take need not say it)
				if quiet && m.dead == "close" && !closed && err == io.EOF && time.Since(time.Unix(0, endAt.Get())) < 4*time.Second {
					e.Fail("silent", "client %d: no close frame", t)
				}
			}()
			// The requests that follow the deadly one may make the server reset
			// the connection before its answers are read: then we wait first.
			sent := 0
			var werr error
			for i, b := range frames {
				if len(b) == 1 && b[0] == 5 {
					time.Sleep(ms(700))
					continue
				}
				if len(b) == 1 && b[0] == 4 {
					werr = peer.send(wsFrame(9, true, nil))
					continue
				}
				if p.Knob("pipeline") == 0 || m.dead != "" && i == len(frames)-1 {
					for k := 0; k < 2000 && int(seen.Get()) < min(upto[max(0, i-1)], len(m.want)) && !isClosed(over); k++ {
						time.Sleep(ms(100))
					}
				}
				if i >= deadly && endAt.Get() == 0 {
					endAt.Set(time.Now().UnixNano())
				}
				if werr = peer.send(wsMessage(b, int(i%5/4), 0, int64(i))); werr != nil {
					break
				}
				sent++
			}
			if werr != nil && quiet && m.dead == "" {
				e.Fail("dropped", "client %d: %v after %d of %d requests", t, werr, sent, len(frames))
			}
			if m.dead == "" {
				for k := 0; k < 6000 && int(seen.Get()) < len(m.want) && !isClosed(over); k++ {
					time.Sleep(ms(100))
				}
				if quiet && int(seen.Get()) != len(m.want) {
					e.Fail("missing", "client %d got %d of the %d frames it should have: %s is missing\n%s", t, seen.Get(), len(m.want), m.want[seen.Get()], foregoStacks())
				}
				time.Sleep(ms(200))
				_ = peer.rc.c.CloseWrite()
			}
			<-over
			peer.rc.c.Close()
		})
	}
	e.Join(48*time.Hour, "stuck", "websocket clients")
	calm(e)
	noServerLeft(e, f)
	done := map[string]int{}
	for _, n := range lab.calls.All() {
		done[n]++
	}
	for n, k := range done {
		if k > notes[n]+maybe[n] {
			e.Fail("executed", "call %s was executed %d times, and requested %d times", n, k, notes[n])
		}
	}
	for n, k := range notes {
		if lenient.Get() == 0 && (done[n] < k || done[n] > k+maybe[n]) {
			e.Fail("executed", "call %s was executed %d times, and requested %d times", n, done[n], k)
		}
	}
	shutdown.Begin()
	if !recvTimeout(shutdown.Done(), 20*time.Minute) {
		e.Fail("hold-leak", "the shutdown does not complete although all clients are gone\n%s", foregoStacks())
	}
	e.Ev("done")
}

// --- C11: the end of a websocket ------------------------------------------------------

func genC11(r *Rng) *Plan {
	p := &Plan{Knobs: map[string]int64{"shutat": pick(r, int64(0), 0, 30, 500, 4000), "cancel": r.I(3)}}
	netKnobs(r, p.Knobs, r.P(1, 3))
	p.Knobs["maxdelay"] = min(p.Knobs["maxdelay"], 400)
	for t := 1; t <= 1+r.N(5); t++ {
		p.Ops = append(p.Ops, Op{T: t, K: pick(r, "fin", "close", "reset", "gone", "stay", "stay", "srvclose", "fail", "panic", "cclose", "garbage", "cutoff"),
			A: r.I(1200), // when
			// bit 0: rpc; bits 1-2: what the connection is doing; bit 3: does the client read
			// bits 4-5: 3 for a slow set-up; bits 6-8: 7 for a refused one
			B: r.I(512),
			C: pick(r, int64(0), 10, 900, 20000)})
	}
	return p
}

type Lasting struct {
	Lab *wsLab
}

type wsLab struct {
	e     *Env
	conns [16]wsLife
}

type wsLife struct {
	open, busy, closedAt N
	server               atomic.Pointer[simConn]
	conn                 atomic.Pointer[ws.Conn]
	flood, sends         N
}

// work is what a message makes the server do.
func (l *wsLab) work(c ctx.C, id int, what int, d int64, send func(any) error) error {
	w := &l.conns[id]
	if w.closedAt.Get() != 0 {
		l.e.Fail("after-end", "connection %d: a message is delivered after its handler has returned", id)
	}
	w.busy.Add(1)
	defer w.busy.Add(-1)
	switch what {
	case 1: // busy
		time.Sleep(ms(d))
	case 2: // sends from the handler, until it fails or is done
		for i := 0; i < 20; i++ {
			if send(strings.Repeat("f", 3000)) != nil {
				break
			}
		}
	case 3: // sends from elsewhere
		w.flood.Add(1)
		l.e.Go(fmt.Sprintf("flood%d", id), func() {
			defer w.flood.Add(-1)
			for i := 0; i < 40; i++ {
				if err := send(strings.Repeat("g", 2000)); err != nil {
					if i > 3 {
						l.e.Probe("flood_cut")
					}
					break
				}
				w.sends.Add(1)
				time.Sleep(ms(7))
			}
		})
	}
	return nil
}

func (o *Lasting) Init(c ws.C, id int) error {
	o.Lab.opened(c, id, nil)
	return nil
}

func (l *wsLab) opened(c context.Context, id int, conn *ws.Conn) {
	if id < 1 || id > 15 {
		l.e.Fail("alien", "connection %d", id)
	}
	w := &l.conns[id]
	w.conn.Store(conn)
	w.open.Set(1)
}

// ended: the server has closed its side.
func (w *wsLife) ended() bool { return w.server.Load() != nil && w.server.Load().IsClosed() }

type lastingArg struct{ ID, What, D, How int }

func (o *Lasting) Work(c ws.C, a lastingArg) error {
	if err := o.Lab.work(c, a.ID, a.What, int64(a.D), func(v any) error { return c.Reply("x", v) }); err != nil {
		return err
	}
	switch a.How {
	case 1:
		return errors.New("told to")
	case 2:
		panic("told to")
	case 3:
		return c.Close()
	}
	return nil
}

func runC11(e *Env, p *Plan) {
	applyNet(e, p)
	if len(p.Ops) > 12 {
		return
	}
	quiet := p.Knob("reset") == 0 && p.Knob("stall") == 0
	lab := &wsLab{e: e}
	f := newHTTP(e, func(c ctx.C, s *fhttp.Server) {
		h := &ws.RpcHandler{}
		h.MustRegister(c, &Lasting{Lab: lab})
		s.Handle("/rpc", h.Server())
		s.Handle("/ws", ws.Handler{
			OnConnect: func(c ctx.C, conn *ws.Conn) (ctx.C, error) {
				id, _ := strconv.Atoi(pathID(c))
				lab.opened(c, id, conn)
				if id <= len(p.Ops) {
					o, w := p.Ops[id-1], &lab.conns[id]
					w.busy.Add(1)
					defer w.busy.Add(-1)
					if o.B>>4&3 == 3 {
						time.Sleep(ms(o.C))
					}
					if o.B>>6&7 == 7 {
						return c, errors.New("refused")
					}
				}
				return c, nil
			},
			OnData: func(c ctx.C, conn *ws.Conn, n enc.Node) error {
				var a lastingArg
				if err := enc.Unmarshal(c, n, &a); err != nil {
					return err
				}
				if err := lab.work(c, a.ID, a.What, int64(a.D), func(v any) error { return conn.Send(c, v) }); err != nil {
					return err
				}
				switch a.How {
				case 1:
					return errors.New("told to")
				case 2:
					panic("told to")
				case 3:
					return conn.Close(c, 1000)
				}
				return nil
			},
		}.Server())
	})
	release := make(chan struct{})
	begun := &N{}
	stuckable := &N{} // clients that neither read nor leave
	for i, o := range p.Ops {
		id, o := i+1, o
		rpc, what, reads := o.B&1 != 0, int(o.B>>1&3), o.B&8 != 0
		if o.T < 1 {
			continue
		}
		e.Go(fmt.Sprintf("client%d", id), func() {
			path := "/ws"
			if rpc {
				path = "/rpc"
			}
			t0 := time.Now()
			rc, err := dialRaw(e, f.port)
			if err != nil {
				return // the shutdown may have begun
			}
			defer rc.c.Close()
			lab.conns[id].server.Store(rc.c.peer)
			_ = rc.c.SetReadDeadline(time.Now().Add(24 * time.Hour))
			hs := "GET " + path + " HTTP/1.1\r\nHost: sim\r\nUser-Agent: sim-" + fmt.Sprint(id) + "\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nOrigin: http://sim/\r\nSec-WebSocket-Version: 13\r\n\r\n"
			if _, err = rc.c.Write([]byte(hs)); err == nil {
				err = rc.wsAccepted()
			}
			if err != nil {
				if quiet && begun.Get() == 0 && time.Since(t0) < 20*time.Second {
					e.Fail("refused", "handshake: %v", err)
				}
				return
			}
			peer := &wsPeer{e, rc, fmt.Sprintf("client %d", id)}
			how := 0
			switch o.K {
			case "fail":
				how = 1
			case "panic":
				how = 2
			case "cclose":
				how = 3
			}
			arg := fmt.Sprintf(`{"ID":%d,"What":%d,"D":%d,"How":%d}`, id, what, o.C, how)
			var out []byte
			if rpc {
				out = wsFrame(1, true, []byte(fmt.Sprintf(`{"channel":"q","type":"open","path":"lasting","data":%d}`, id)))
				arg = `{"channel":"q","path":"work","data":` + arg + `}`
			}
			out = append(out, wsFrame(1, true, []byte(arg))...)
			over := make(chan struct{})
			if reads {
				go func() {
					defer close(over)
					if err := peer.drain(nil); isTimeout(err) {
						e.Fail("stuck", "connection %d (%s) does not end", id, o.K)
					}
				}()
			}
			if peer.send(out) != nil {
				return
			}
			time.Sleep(ms(o.A))
			w := &lab.conns[id]
			e.Fault("end_" + o.K)
			switch o.K {
			case "fin":
				_ = rc.c.CloseWrite()
			case "close":
				_ = peer.send(wsFrame(8, true, []byte{3, 232}))
			case "reset":
				rc.c.Reset()
			case "gone":
				rc.c.Close()
			case "garbage":
				_ = peer.send([]byte{0x93, 0x85, 1, 2, 3})
				_ = rc.c.CloseWrite()
			case "cutoff":
				_ = peer.send(wsFrame(1, true, []byte(arg))[:9])
				_ = rc.c.CloseWrite()
			case "srvclose":
				if w.open.Get() != 0 && w.conn.Load() != nil {
					t1 := time.Now()
					_ = w.conn.Load().Close(f.c, ws.GOING_AWAY)
					if d := time.Since(t1); d > time.Minute+e.Slack() {
						e.Fail("close-late", "connection %d: Close took %s", id, d)
					}
				} else {
					rc.c.Close()
				}
			case "stay":
				<-release
				if !reads {
					if what >= 2 {
						stuckable.Add(1)
						rc.c.Close() // the handler is in a Send which only the client can end
						return
					}
				}
			}
			// Now the connection has ended, or is about to: the handler
			// returns, although this client does not go away.
			hard := o.K == "reset" || o.K == "gone" || reads || what < 2 && how != 1
			if !hard {
				time.Sleep(time.Minute)
				rc.c.Close()
			}
			if w.open.Get() == 0 {
				if how == 0 || !quiet {
					time.Sleep(10 * time.Minute)
				}
				return
			}
			for k := 0; k < 1200 && !w.ended(); k++ {
				time.Sleep(time.Second)
			}
			if !w.ended() {
				e.Fail("stuck", "connection %d (%s, rpc=%v, activity %d, client reads=%v): not closed 20 minutes after the end\n%s", id, o.K, rpc, what, reads, foregoStacks())
			}
			time.Sleep(2 * time.Minute)
			w.closedAt.Set(1)
			if reads {
				<-over
			}
			// what is sent now fails, and nothing worse
			if w.conn.Load() != nil {
				if err := w.conn.Load().Send(f.c, "late"); err == nil {
					e.Fail("send-after-end", "connection %d: Send succeeds after the end", id)
				}
				_ = w.conn.Load().Close(f.c, 1000)
			}
			e.Ev("connection %d over", id)
		})
	}
	alive := func() (n int, s string) {
		for i := range lab.conns {
			w := &lab.conns[i]
			if w.open.Get() != 0 && !w.ended() {
				n++
				s += fmt.Sprint(" ", i)
			}
			if w.busy.Get() != 0 {
				n++
				s += fmt.Sprint(" (busy)", i)
			}
		}
		return
	}
	shutAt := p.Knob("shutat")
	if shutAt == 0 {
		shutAt = 6000
	}
	time.Sleep(ms(shutAt))
	// The shutdown waits for every connection that is established now.
	before := [16]int64{}
	for i := range lab.conns {
		before[i] = lab.conns[i].open.Get()
	}
	begun.Set(1)
	shutdown.Begin()
	e.Go("shutdown", func() {
		<-shutdown.Done()
		for i := range lab.conns {
			w := &lab.conns[i]
			if before[i] != 0 && w.busy.Get() != 0 {
				e.Fail("early-done", "the shutdown is done while connection %d is handling a message", i)
			}
		}
		time.Sleep(ms(50))
		for i := range lab.conns {
			if w := &lab.conns[i]; before[i] != 0 && !w.ended() {
				time.Sleep(time.Minute) // the handler releases its hold just before it returns
				if !w.ended() {
					e.Fail("early-done", "the shutdown is done while connection %d is open", i)
				}
			}
		}
		e.Ev("shutdown done")
	})
	time.Sleep(ms(300))
	if n, _ := alive(); n > 0 {
		e.Probe("alive_at_shutdown")
	}
	if p.Knob("cancel") != 0 {
		// cancelling the context of the server ends the connections
		f.cancel(nil)
		e.Fault("server_context_cancelled")
	}
	close(release)
	if p.Knob("cancel") == 0 { // then the clients have to leave
		time.Sleep(time.Minute)
		for _, c := range e.Net.Open(true) {
			c.Close()
		}
	}
	e.Join(24*time.Hour, "stuck", "connections and the shutdown")
	calm(e)
	for i := 0; i < 20; i++ {
		time.Sleep(time.Minute)
		if len(e.Net.Open(false)) == 0 {
			break
		}
	}
	if open := e.Net.Open(false); len(open) > 0 {
		e.Fail("conn-leak", "%d connections are still open after everything ended\n%s", len(open), foregoStacks())
	}
	if n, s := alive(); n > 0 {
		e.Fail("stuck", "connections still alive:%s", s)
	}
	if l := e.Leaks(); len(l) > 0 {
		e.Fail("leak", "%d goroutines are left behind:\n%s", len(l), strings.Join(l, "\n\n"))
	}
	e.Ev("done")
}
