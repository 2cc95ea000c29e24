// C01: operations of the in-process cache are atomic per key.
package main

import (
	"context"
	"fmt"

	"github.com/anishathalye/porcupine"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplecache"
	"verif.local/sim/harness"
	"verif.local/sim/simrt"
)

type in struct {
	op  string // put get del incr
	key string
	val any
	dst string // get: "any", "str", "int"
}

type out struct {
	ok  bool
	val any
	err bool
}

const unset = "<unset>"

// state: nil means absent, otherwise the value
func step(state, i, o any) (bool, any) {
	c := i.(in)
	_, pending := o.(harness.Pending)
	var r out
	if !pending {
		r = o.(out)
	}
	switch c.op {
	case "put":
		return pending || !r.err, c.val
	case "del":
		return pending || !r.err, absent{}
	case "incr":
		cur := int64(0)
		switch v := state.(type) {
		case absent, nil:
		case int64:
			cur = v
		default:
			return pending || r.err, state
		}
		if pending {
			return true, cur + 1
		}
		return !r.err && r.val == any(cur+1), cur + 1
	case "get":
		if pending {
			return true, state
		}
		if _, no := state.(absent); no {
			return !r.ok && !r.err && r.val == unset, state
		}
		if state == nil { // a stored nil reads back as the zero value
			return r.ok && !r.err && r.val == map[string]any{"any": nil, "int": int64(0), "str": ""}[c.dst], state
		}
		if c.dst == "int" {
			if _, isInt := state.(int64); !isInt {
				return r.err, state
			}
		}
		if c.dst == "str" {
			if _, isStr := state.(string); !isStr {
				return r.err, state
			}
		}
		return r.ok && !r.err && r.val == state, state
	case "mget":
		// multi-get reports no presence: an absent key leaves the destination alone
		if pending {
			return true, state
		}
		if _, no := state.(absent); no {
			return r.val == unset, state
		}
		return r.val == state, state
	}
	panic("op")
}

type absent struct{}

var model = porcupine.Model{
	Init:  func() any { return absent{} },
	Step:  step,
	Equal: func(a, b any) bool { return a == b },
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		m := map[string][]porcupine.Operation{}
		var ks []string
		for _, o := range h {
			k := o.Input.(in).key
			if _, ok := m[k]; !ok {
				ks = append(ks, k)
			}
			m[k] = append(m[k], o)
		}
		var r [][]porcupine.Operation
		for _, k := range ks {
			r = append(r, m[k])
		}
		return r
	},
}

func run(h *harness.H) {
	ctx := context.Background()
	cache, err := simplecache.NewSimpleCache(ctx)
	if err != nil {
		h.Violate("construct", "%v", err)
	}
	nkeys := 1 + simrt.Choose("keys", 3)
	nclients := 2 + simrt.Choose("clients", 4)
	mix := simrt.Choose("mix", 4) // 0 mixed, 1 counters, 2 multi, 3 overwrite/delete
	hist := &harness.Hist{}
	var ts []*simrt.Task
	for c := 0; c < nclients; c++ {
		c := c
		st := fmt.Sprintf("client%d", c)
		ts = append(ts, simrt.GoNamed(st, func() {
			n := 1 + simrt.Choose(st, 7)
			for i := 0; i < n; i++ {
				client(h, cache, hist, c, i, st, nkeys, mix)
			}
		}))
	}
	if !simrt.WaitAll(3600e9, ts...) {
		h.Violate("stuck", "an operation never returned")
	}
	// sequential read-back after all clients are done
	for k := 0; k < nkeys; k++ {
		get(h, cache, hist, 99, fmt.Sprint("k", k), "any")
	}
	if nclients > 1 {
		h.NonTrivial()
	}
	for _, o := range hist.Ops() {
		h.Sample("%d:%v=%v", o.Client, o.In, o.Out)
	}
	msg, unknown := hist.Check(model)
	if unknown {
		simrt.Probe("checker gave up")
		return
	}
	h.Check(msg == "", "not-atomic", "%s", msg)
}

func get(h *harness.H, cache *simplecache.SimpleCache, hist *harness.Hist, c int, key, dst string) {
	o := hist.Call(c, in{"get", key, nil, dst})
	var r out
	var err error
	switch dst {
	case "int":
		v := int64(-77)
		r.ok, err = cache.Get(context.Background(), key, &v)
		r.val = v
		if v == -77 {
			r.val = unset
		}
	case "str":
		v := unset
		r.ok, err = cache.Get(context.Background(), key, &v)
		r.val = v
	default:
		var v any = unset
		r.ok, err = cache.Get(context.Background(), key, &v)
		r.val = v
	}
	r.err = err != nil
	o.Ret(r)
}

func client(h *harness.H, cache *simplecache.SimpleCache, hist *harness.Hist, c, i int, st string, nkeys, mix int) {
	ctx := context.Background()
	key := fmt.Sprint("k", simrt.Choose(st, nkeys))
	var val any = fmt.Sprintf("v%d.%d", c, i)
	if simrt.Chance(st, 1, 4) {
		val = int64(1000*(c+1) + 10*i)
	}
	if simrt.Chance(st, 1, 12) {
		val = nil
	}
	kind := simrt.Choose(st, 12)
	switch mix {
	case 1:
		kind = []int{5, 5, 5, 5, 0, 2, 3, 5, 5, 5, 2, 7}[kind]
	case 2:
		kind = []int{8, 9, 8, 9, 8, 9, 10, 0, 2, 8, 9, 4}[kind]
	case 3:
		kind = []int{0, 0, 4, 4, 2, 2, 3, 0, 4, 2, 5, 8}[kind]
	}
	switch kind {
	case 0, 1:
		o := hist.Call(c, in{"put", key, val, ""})
		err := cache.Put(ctx, key, val)
		o.Ret(out{err: err != nil})
	case 2, 3, 7:
		get(h, cache, hist, c, key, []string{"any", "any", "any", "int", "str"}[simrt.Choose(st, 5)])
	case 4:
		o := hist.Call(c, in{"del", key, nil, ""})
		err := cache.Delete(ctx, key)
		o.Ret(out{err: err != nil})
	case 5, 6, 11:
		o := hist.Call(c, in{"incr", key, nil, ""})
		v, err := cache.Incr(ctx, key)
		o.Ret(out{val: v, err: err != nil})
	case 8:
		n := 1 + simrt.Choose(st, nkeys)
		var keys []string
		var vals []any
		var ops []*harness.Op
		first := simrt.Choose(st, nkeys)
		for j := 0; j < n; j++ {
			keys = append(keys, fmt.Sprint("k", (first+j)%nkeys))
			vals = append(vals, fmt.Sprintf("m%d.%d.%d", c, i, j))
			if j == 0 {
				ops = append(ops, hist.Call(c, in{"put", keys[j], vals[j], ""}))
			} else {
				ops = append(ops, hist.CallAt(ops[0], in{"put", keys[j], vals[j], ""}))
			}
		}
		err := cache.Mset(ctx, keys, vals)
		for j, o := range ops {
			if j == 0 {
				o.Ret(out{err: err != nil})
			} else {
				o.RetAt(ops[0], out{err: err != nil})
			}
		}
	case 9:
		n := 1 + simrt.Choose(st, nkeys)
		var keys []string
		vals := make([]any, n)
		dst := make([]any, n)
		var ops []*harness.Op
		first := simrt.Choose(st, nkeys)
		for j := 0; j < n; j++ {
			keys = append(keys, fmt.Sprint("k", (first+j)%nkeys))
			vals[j] = unset
			dst[j] = &vals[j]
			if j == 0 {
				ops = append(ops, hist.Call(c, in{"mget", keys[j], nil, ""}))
			} else {
				ops = append(ops, hist.CallAt(ops[0], in{"mget", keys[j], nil, ""}))
			}
		}
		err := cache.Mget(ctx, keys, dst)
		if err != nil {
			h.Violate("mget-error", "Mget(%v) failed: %v", keys, err)
		}
		for j, o := range ops {
			if j == 0 {
				o.Ret(out{val: vals[j]})
			} else {
				o.RetAt(ops[0], out{val: vals[j]})
			}
		}
	case 10:
		// malformed: must be refused and change nothing
		e1 := cache.Mset(ctx, []string{key, "other"}, []any{"bad"})
		var v any
		e2 := cache.Mget(ctx, []string{key}, []any{&v, &v})
		h.Check(e1 != nil && e2 != nil, "malformed-accepted", "Mset/Mget with different numbers of keys and values succeeded")
	}
}

func main() {
	harness.Main(harness.Prop{
		ID:   "C01",
		Rule: "Two to five client tasks issue random puts, gets (into matching and mismatching destinations), deletes, increments and multi-key operations on one to three keys of one cache under a seeded schedule; non-trivial means at least two clients ran. The history is checked with porcupine against a sequential per-key map.",
		Assumptions: []string{"preemption happens at statement boundaries, inside read-modify-write statements and inside map operations of the instrumented code; overlapping map operations of which one writes are a process crash, as in the Go runtime",
			"multi-key operations are only required to be atomic per key"},
		Real:      []string{"runtime/plugins/simplecache", "runtime/core/backend.CopyResult"},
		Stub:      []string{"sync (simulated locks)", "goroutine scheduler"},
		Scenarios: []harness.Scenario{{Name: "mixed", Run: run, StepLimit: 100_000}},
		QuickSec:  25, ThoroughSec: 600,
	})
}
