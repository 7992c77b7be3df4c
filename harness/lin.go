package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/anishathalye/porcupine"
)

// Hist records invocations and responses stamped with the simulator's global
// event number, to be judged by porcupine.
type Hist struct {
	e *Env
	l *L[porcupine.Operation]
}

func (e *Env) NewHist(max int) *Hist { return &Hist{e: e, l: NewL[porcupine.Operation](max)} }

// Do runs one operation. The caller joins all tasks before Check.
func (h *Hist) Do(client int, in any, f func() any) any {
	call := h.e.Seq()
	out := f()
	h.Add(client, in, out, call, h.e.Seq())
	return out
}

func (h *Hist) Add(client int, in, out any, call, ret int64) {
	h.l.Add(porcupine.Operation{ClientId: client, Input: in, Output: out, Call: call, Return: ret})
}

// Check fails the run when the history is not linearizable.
func (h *Hist) Check(class, what string, m porcupine.Model) {
	ops := h.l.All()
	if len(ops) == 0 {
		return
	}
	for _, o := range ops {
		h.e.ev(fmt.Sprintf("op %d %v %v", o.ClientId, o.Input, o.Output))
	}
	if !porcupine.CheckOperations(m, ops) {
		h.e.Fail(class, "%s: history is not linearizable:\n%s", what, dumpOps(ops))
	}
}

func dumpOps(ops []porcupine.Operation) string {
	ops = append([]porcupine.Operation(nil), ops...)
	sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
	var sb strings.Builder
	for _, o := range ops {
		fmt.Fprintf(&sb, "  #%d-#%d client %d: %+v -> %+v\n", o.Call, o.Return, o.ClientId, o.Input, o.Output)
	}
	return sb.String()
}

// mapIn/mapOut are the single-key operations of map-like objects.
type mapIn struct {
	Op  string
	Key string
	Val any
}
type mapOut struct {
	Val any
	Ok  bool
}

// mapModel is a map of one key (histories are partitioned by key).
// State: mapOut{value, present}.
func mapModel() porcupine.Model {
	return porcupine.Model{
		Partition: func(h []porcupine.Operation) (out [][]porcupine.Operation) {
			by := map[string][]porcupine.Operation{}
			var keys []string
			for _, o := range h {
				k := o.Input.(mapIn).Key
				if _, ok := by[k]; !ok {
					keys = append(keys, k)
				}
				by[k] = append(by[k], o)
			}
			sort.Strings(keys)
			for _, k := range keys {
				out = append(out, by[k])
			}
			return
		},
		Init: func() any { return mapOut{} },
		Step: func(st, in, out any) (bool, any) {
			s, i, o := st.(mapOut), in.(mapIn), out.(mapOut)
			switch i.Op {
			case "load":
				if s.Ok != o.Ok {
					return false, s
				}
				return !s.Ok || s.Val == o.Val, s
			case "get": // zero when absent or nil
				if !s.Ok {
					return o.Val == nil, s
				}
				return s.Val == o.Val, s
			case "store":
				return true, mapOut{i.Val, true}
			case "delete":
				return true, mapOut{}
			case "loadordelete": // LoadAndDelete
				if s.Ok != o.Ok || s.Ok && s.Val != o.Val {
					return false, s
				}
				return true, mapOut{}
			case "loadorstore":
				if s.Ok {
					return o.Ok && o.Val == s.Val, s
				}
				return !o.Ok && o.Val == i.Val, mapOut{i.Val, true}
			case "getorstore":
				if s.Ok {
					return o.Val == s.Val, s
				}
				return o.Val == i.Val, mapOut{i.Val, true}
			case "add": // set: true when it was absent
				return o.Ok == !s.Ok, mapOut{nil, true}
			case "has":
				return o.Ok == s.Ok, s
			case "remove": // set: true when it was present
				return o.Ok == s.Ok, mapOut{}
			}
			panic("unknown op " + i.Op)
		},
		Equal: func(a, b any) bool { return a == b },
	}
}
