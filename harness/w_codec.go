package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"log/slog"
	"strconv"
	"strings"
	"time"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/api/openapi"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/enc"
)

func init() {
	register(&Workload{ID: "C32", Gen: genC32, Run: runC32})
}

// --- C32: equal input, equal output -----------------------------------------------------

// Every operation of a plan is done by several tasks, with the same content in
// another order of insertion; the order of iteration over maps is drawn anew
// by the simulator each time.
func genC32(r *Rng) *Plan {
	p := &Plan{Knobs: map[string]int64{}}
	tasks := 2 + r.N(3)
	for i := 1 + r.N(4); i > 0; i-- {
		o := Op{K: pick(r, "map", "map", "mixed", "node", "string", "sorted", "bad", "bad", "same", "unhandled", "stop", "openapi", "roundtrip", "set", "badenc", "badenc", "collide"), A: r.I(1 << 40), B: pick(r, 1+r.I(12), 1+r.I(12), 1+r.I(100))}
		for n := 2 + r.N(4); n > 0; n-- {
			o.T, o.C = 1+r.N(tasks), r.I(1<<30)
			p.Ops = append(p.Ops, o)
		}
	}
	return p
}

type c32Refuses int

func (x c32Refuses) MarshalNode(ctx.C) (enc.Node, error) {
	return nil, fmt.Errorf("refused %d", int(x))
}

type opOne struct {
	any `url:"/one" doc:"d"`

	In  map[string]shapeA `api:"in" json:"in"`
	Out []shapeB          `api:"out" json:"out"`
	UID string            `api:"auth,required"`
}

func (o *opOne) Do(c ctx.C) error { return nil }

type opTwo struct {
	R api.Request `url:"/two"`

	X shapeB  `api:"in,out" json:"x"`
	Y *shapeA `api:"out" json:"y"`
	F float64 `api:"in,required" json:"f" example:"1.5"`
	Z shapeC  `api:"in,out" json:"z" example:"{\"z\":1,\"y\":{\"b\":1,\"a\":2,\"c\":[]},\"x\":0}"`
}

func (o *opTwo) Do(c ctx.C) error { return nil }

type shapeA struct {
	S  string            `json:"s" doc:"s"`
	M  map[string]int    `json:"m"`
	B  *shapeB           `json:"b"`
	T  time.Time         `json:"t"`
	XS []map[string]bool `json:"xs"`
}

type shapeB struct {
	A []shapeA `json:"a"`
	N int64    `json:"n" example:"7"`
	X any      `json:"x"`
}

// shapeC has what the description treats specially, with examples.
type shapeC struct {
	J json.RawMessage   `json:"j" example:"{\"q\":1}"`
	D enc.Duration      `json:"d" example:"1s"`
	K docKey            `json:"k" example:"12"`
	B docFlag           `json:"b" example:"true"`
	L []string          `json:"l" example:"[\"a\",\"b\"]"`
	E map[string]docKey `json:"e" example:"{\"d\":1,\"a\":2,\"c\":3,\"b\":4,\"f\":5,\"e\":6}"`
	G any               `json:"g" example:"{\"d\":1,\"a\":{\"y\":1,\"x\":2},\"c\":3}"`
	S struct {
		Q int
		P map[string]int
	} `json:"s" example:"{\"Q\":1,\"P\":{\"b\":1,\"a\":2}}"`
	N enc.Node `json:"n"`
	Y []byte   `json:"y"`
}

type docKey int

func (k docKey) MarshalJSON() ([]byte, error) { return []byte(strconv.Itoa(int(k))), nil }

type docFlag struct{}

func (docFlag) MarshalJSON() ([]byte, error) { return []byte("true"), nil }

// filled makes a map of n entries of the values made by f, inserted in an order given by ord.
func filled[K comparable, V any](n int, ord *Rng, key func(i int) K, val func(i int) V) map[K]V {
	m := map[K]V{}
	perm := make([]int, n)
	for i := range perm {
		j := ord.N(i + 1)
		perm[i] = perm[j]
		perm[j] = i
	}
	for _, i := range perm {
		m[key(i)] = val(i)
		if ord.N(4) == 0 { // deleting leaves traces in the table
			m[key(i+n)] = val(i)
			delete(m, key(i+n))
			m[key(i)] = val(i)
		}
	}
	return m
}

// c32Key returns a different key for each i; in most styles some are close relatives.
func c32Key(style int64, prefix string, i int) string {
	switch style % 7 {
	case 0: // the same but for the case
		return []string{prefix, strings.ToUpper(prefix)}[i%2] + fmt.Sprint(i/2)
	case 1: // of the same start
		return strings.Repeat(prefix, i)
	case 2: // the same length
		return fmt.Sprintf("%s%04d", prefix, i)
	case 3: // the same number
		return strings.Repeat("0", i/3) + []string{"7", "70", "7 "}[i%3]
	case 4: // the same but for the accents, and for blanks
		return []string{"e", "é", "e\u0301", "E", " e", "e "}[i%6] + strings.Repeat("x", i/6)
	case 5: // a long common start
		return strings.Repeat(prefix, 40) + fmt.Sprint(i)
	}
	return fmt.Sprint(prefix, i)
}

func c32Node(content uint64, depth, n int, ord *Rng) enc.Node {
	r := NewRng(content)
	m := n / 2
	if m > 6 {
		m = 3
	}
	switch k := r.N(8); {
	case depth > 0 && k < 4:
		return enc.Map(filled(n, ord, func(i int) string { return c32Key(int64(content%7), "k", i) },
			func(i int) enc.Node { return c32Node(content+uint64(i)*31, depth-1, m, ord) }))
	case depth > 0 && k == 4:
		l := enc.List{}
		for i := 0; i < n; i++ {
			l = append(l, c32Node(content+uint64(i)*17, depth-1, m, ord))
		}
		return l
	case depth > 0 && k == 5:
		l := enc.Pairs{}
		for i := 0; i < n; i++ {
			l = append(l, enc.Pair{Name: fmt.Sprintf("N%d", i), JSON: fmt.Sprintf("n%d", i), Value: c32Node(content+uint64(i)*13, depth-1, m, ord)})
		}
		return l
	case k == 6:
		return enc.Float(float64(r.N(1000)) / 16)
	case k == 7:
		return enc.Digits(fmt.Sprint(r.N(1000)))
	case k == 0:
		return enc.Nil{}
	case k == 1:
		return enc.Bool(true)
	case k == 2:
		return enc.Integer(r.N(1 << 30))
	}
	return enc.String(pick(r, "", "a\"b", "é\n", "x", strings.Repeat("xyz<é>", r.N(300))))
}

func runC32(e *Env, p *Plan) {
	c, cf := ctx.Background()
	defer cf(nil)
	c = log.WithLogFunc(c, func(ctx.C, slog.Level, string, string, ...any) {})
	str := func(v any, err error) string {
		if b, ok := v.([]byte); ok {
			v = string(b)
		}
		if err != nil {
			return "error: " + err.Error()
		}
		return fmt.Sprint(v)
	}
	do := func(o Op) string {
		ord := NewRng(uint64(o.C))
		n := int(o.B)
		val := func(i int) int { return (i*i + int(o.A)) % 1000 }
		switch o.K {
		case "map":
			return str(enc.MarshalJSON(c, filled(n, ord, func(i int) string { return c32Key(o.A>>3, "k", i) }, val)))
		case "mixed":
			return str(enc.MarshalJSON(c, struct {
				I map[int]map[string]int     `json:"i"`
				F map[float64]string         `json:"f"`
				A any                        `json:"a"`
				L []map[enc.String]enc.Float `json:"l"`
				U map[uint8]*map[string]bool `json:"u"`
			}{
				I: filled(n, ord, func(i int) int { return i - 3 }, func(i int) map[string]int {
					return filled(n/2, ord, func(i int) string { return c32Key(o.A>>3, "s", i) }, val)
				}),
				F: filled(n, ord, func(i int) float64 { return float64(i) / 4 }, func(i int) string { return fmt.Sprint(i) }),
				A: map[string]any{"z": filled(n, ord, func(i int) string { return c32Key(o.A>>3, "q", i) }, func(i int) any { return []any{i, nil, "x"} })},
				L: []map[enc.String]enc.Float{filled(n, ord, func(i int) enc.String { return enc.String(c32Key(o.A>>3, "e", i)) }, func(i int) enc.Float { return enc.Float(i) })},
				U: filled(n, ord, func(i int) uint8 { return uint8(i) }, func(i int) *map[string]bool {
					m := filled(n/2, ord, func(i int) string { return c32Key(o.A>>3, "b", i) }, func(i int) bool { return i%2 == 0 })
					return &m
				}),
			}))
		case "node":
			return str(enc.JSON{Indent: o.A&1 == 1}.Encode(c, c32Node(uint64(o.A), 3, n, ord)), nil)
		case "string":
			x := c32Node(uint64(o.A), 3, n, ord)
			return fmt.Sprintf("%s\n%v\n%#v", x.String(), x, x.GoString())
		case "sorted": // the string forms of equal nodes decide what a storage filter matches
			return enc.Map(filled(n, ord, func(i int) string { return c32Key(o.A>>3, "k", i) }, func(i int) enc.Node {
				return enc.Map(filled(n/2, ord, func(i int) string { return c32Key(o.A>>3, "v", i) }, func(i int) enc.Node { return enc.Integer(val(i)) }))
			})).GoString()
		case "bad": // more than one thing is wrong
			var into struct {
				M map[string]int  `json:"m"`
				I map[int]string  `json:"i"`
				B map[string]bool `json:"b"`
			}
			m := enc.Map{
				"m": enc.Map(filled(n, ord, func(i int) string { return c32Key(o.A>>3, "k", i) }, func(i int) enc.Node {
					if i%2 == 0 {
						return enc.String(fmt.Sprint("no", i))
					}
					return enc.Integer(i)
				})),
			}
			if o.A&1 == 1 {
				m = enc.Map{"i": enc.Map(filled(n, ord, func(i int) string {
					if i%2 == 0 {
						return fmt.Sprint(i)
					}
					return fmt.Sprint("no", i)
				}, func(i int) enc.Node { return enc.List{} }))}
			}
			err := enc.Unmarshal(c, m, &into)
			return str(into, err)
		case "badenc": // more than one value can't be encoded
			m := filled(n, ord, func(i int) string { return c32Key(o.A>>3, "k", i) }, func(i int) any {
				switch (i + int(o.A>>8)) % 5 {
				case 0:
					return func(int) {}
				case 1:
					return []any{i, c32Refuses(i)}
				case 2:
					return struct{ X any }{func(string) bool { return true }}
				}
				return i
			})
			if o.A&1 == 1 {
				return str(enc.MarshalJSON(c, map[string]any{"a": m, "b": func() {}, "c": c32Refuses(-1)}))
			}
			return str(enc.MarshalJSON(c, m))
		case "collide": // keys of different types that are written alike
			m := filled(n, ord, func(i int) any {
				switch i % 5 {
				case 0:
					return i / 5
				case 1:
					return fmt.Sprint(i/5 + int(o.A%2)*5000) // in half of the maps, each is one of those before
				case 2:
					return int64(1000 + i)
				case 3:
					return enc.String(fmt.Sprint("e", i))
				}
				return uint8(100 + i)
			}, val)
			return str(enc.MarshalJSON(c, m))
		case "same": // keys that mean the same
			var into map[int]string
			m := enc.Map(filled(n, ord, func(i int) string { return strings.Repeat("0", i) + "1" }, func(i int) enc.Node { return enc.String(fmt.Sprint("v", i)) }))
			err := enc.Unmarshal(c, m, &into)
			return str(into, err)
		case "unhandled", "stop":
			var got []string
			h := enc.Handler{UnhandledFields: func(c ctx.C, p []any, _ enc.Node) error {
				got = append(got, fmt.Sprint(p))
				if o.K == "stop" && len(got)*3 > n {
					return fmt.Errorf("stop at %v", p)
				}
				return nil
			}}
			var into shapeA
			m := filled(n, ord, func(i int) string { return c32Key(o.A>>3, "u", i) }, func(i int) enc.Node { return enc.Integer(i) })
			m["s"] = enc.String("s")
			m["b"] = enc.Map(filled(n, ord, func(i int) string { return fmt.Sprint("w", i) }, func(i int) enc.Node { return enc.Integer(i) }))
			err := h.Unmarshal(c, enc.Map(m), &into)
			if o.K == "stop" && len(got)*3 > n && err == nil {
				e.Fail("unhandled-error", "the callback refused %v, the decoding did not fail", got)
			}
			if err != nil {
				return "error: " + err.Error()
			}
			return str(enc.MarshalJSON(c, into))
		case "openapi":
			s := openapi.NewService("t")
			var err error
			add := func(h interface {
				UpdateOpenAPI(ctx.C, *openapi.Service) (*openapi.PathItem, error)
			}, err2 error) {
				if err == nil {
					err = err2
				}
				if err == nil {
					_, err = h.UpdateOpenAPI(c, s)
				}
			}
			one, err1 := api.NewHandler(c, &opOne{})
			add(&one, err1)
			two, err2 := api.NewHandler(c, &opTwo{})
			add(&two, err2)
			for i := range filled(n, ord, func(i int) int { return i }, func(i int) int { return i }) {
				s.Paths[fmt.Sprint("/p", i)] = &openapi.Path{}
			}
			if err != nil {
				e.Harness("openapi: %v", err)
			}
			return str(enc.MarshalJSON(c, s))
		case "roundtrip":
			var into any
			x := c32Node(uint64(o.A), 3, n, ord)
			if err := enc.Unmarshal(c, x, &into); err != nil {
				return "error: " + err.Error()
			}
			return str(enc.MarshalJSON(c, into))
		case "set": // a document decoded and encoded again
			j := enc.JSON{}.Encode(c, enc.Map(filled(n, ord, func(i int) string { return c32Key(o.A>>3, "k", i) }, func(i int) enc.Node { return enc.Integer(val(i)) })))
			var into map[string]enc.Node
			if err := enc.UnmarshalJSON(c, j, &into); err != nil {
				return "error: " + err.Error()
			}
			return str(enc.MarshalJSON(c, struct{ X map[string]enc.Node }{into}))
		}
		e.Harness("op %q", o.K)
		return ""
	}
	type res struct {
		o   Op
		out string
	}
	all := NewL[res](len(p.Ops) + 1)
	ids, byTask := p.ByTask()
	for _, t := range ids {
		t, ops := t, byTask[t]
		e.Go(fmt.Sprintf("t%d", t), func() {
			for _, o := range ops {
				all.Add(res{o, do(o)})
			}
		})
	}
	e.Join(24*time.Hour, "stuck", "codec use")
	type key struct {
		k    string
		a, b int64
	}
	first := map[key]string{}
	for _, r := range all.All() {
		k := key{r.o.K, r.o.A, r.o.B}
		if want, ok := first[k]; !ok {
			first[k] = r.out
		} else if r.out != want {
			e.Fail("differs", "%s: the same input gives\n%.1500s\nand\n%.1500s", r.o.K, want, r.out)
		} else {
			e.Probe(r.o.K)
		}
	}
	e.Ev("%d groups", len(first))
	for _, r := range all.All() {
		h := fnv.New32a()
		h.Write([]byte(r.out))
		e.Ev("%s %d %x", r.o.K, r.o.B, h.Sum32())
	}
}
