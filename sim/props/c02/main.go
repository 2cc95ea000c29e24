// C02: the in-process queue is a bounded FIFO queue that delivers each item exactly once.
package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplequeue"
	"verif.local/sim/harness"
	"verif.local/sim/simctx"
	"verif.local/sim/simrt"
	"verif.local/sim/simtime"
)

const capacity = 10

type in struct {
	op   string // push pop
	item any
}

type out struct {
	ok   bool
	item any
	err  bool
}

const unset = "<unset>"

// The state is the items in order, each as "item;".
func step(state, i, o any) (bool, any) {
	q := state.(string)
	c := i.(in)
	r, done := o.(out)
	if done && !r.ok { // a call may only give up at an instant at which it could not proceed
		return c.op == "push" && strings.Count(q, ";") == capacity || c.op == "pop" && q == "", q
	}
	if c.op == "push" {
		if done && r.err || strings.Count(q, ";") >= capacity {
			return false, q
		}
		return true, q + fmt.Sprint(c.item) + ";"
	}
	k := strings.IndexByte(q, ';')
	if k < 0 {
		return false, q
	}
	head, rest := q[:k], q[k+1:]
	if !done {
		return true, rest
	}
	if r.err { // mismatching destination: the item is consumed and the destination untouched
		return c.item == "mismatch" && head != "<nil>" && r.item == unset, rest
	}
	return fmt.Sprint(r.item) == head, rest
}

var model = porcupine.Model{
	Init:  func() any { return "" },
	Step:  step,
	Equal: func(a, b any) bool { return a == b },
}

func mkctx(st string, h *harness.H) (context.Context, context.CancelFunc, bool) {
	switch simrt.Choose(st, 5) {
	case 0, 1:
		return context.Background(), func() {}, false
	case 2: // already over
		ctx, cancel := simctx.WithCancel(context.Background())
		cancel()
		simrt.Fault("context already cancelled")
		return ctx, func() {}, true
	case 3:
		d := time.Duration(simrt.Choose(st, 4)*5) * time.Millisecond
		simrt.Fault("call deadline")
		ctx, cancel := simctx.WithTimeout(context.Background(), d)
		return ctx, cancel, true
	default:
		ctx, cancel := simctx.WithCancel(context.Background())
		n := simrt.Choose(st, 6)
		simrt.Fault("cancel during call")
		simrt.GoNamed("canceller", func() {
			for i := 0; i < n; i++ {
				simrt.Y(9001)
			}
			cancel()
		})
		return ctx, func() {}, true
	}
}

func run(h *harness.H) {
	q, err := simplequeue.NewSimpleQueue(context.Background())
	if err != nil {
		h.Violate("construct", "%v", err)
	}
	hist := &harness.Hist{}
	np, nc := 1+simrt.Choose("producers", 3), 1+simrt.Choose("consumers", 3)
	heavy := simrt.Choose("shape", 4) // 1: fill beyond capacity, 2: pop heavy
	pushed, popped := map[any]bool{}, map[any]int{}
	var ts []*simrt.Task
	live := map[string]int{}
	size := 0 // accepted minus delivered
	pending := map[*harness.Op]context.Context{}
	push := func(st string, c, i, forever int) {
		var item any = fmt.Sprintf("p%d.%d", c, i)
		if simrt.Chance(st, 1, 15) {
			item = nil
		}
		ctx, cancel, _ := mkctx(st, h)
		if forever == 1 {
			ctx = context.Background()
		}
		o := hist.Call(c, in{"push", item})
		if item != nil {
			pushed[item] = true
		}
		live["push"]++
		pending[o] = ctx
		ok, err := q.Push(ctx, item)
		live["push"]--
		delete(pending, o)
		h.Check(err == nil, "push-error", "Push failed: %v", err)
		o.Ret(out{ok: ok})
		if ok {
			size++
		}
		if !ok && ctx.Err() == nil {
			h.Violate("refused", "Push of %v reported failure although its context had not ended", item)
		}
		cancel()
	}
	pop := func(st string, c int) {
		ctx, cancel, _ := mkctx(st, h)
		kind := ""
		var v any = unset
		if simrt.Chance(st, 1, 15) {
			kind = "mismatch"
		}
		o := hist.Call(c, in{"pop", kind})
		live["pop"]++
		pending[o] = ctx
		var ok bool
		var err error
		if kind == "" {
			ok, err = q.Pop(ctx, &v)
		} else {
			n := -7
			ok, err = q.Pop(ctx, &n)
			switch {
			case n == -7:
			case n == 0 && err == nil: // a nil item
				v = nil
			default:
				v = n
			}
		}
		live["pop"]--
		delete(pending, o)
		r := out{ok: ok, item: v, err: err != nil}
		if !ok && ctx.Err() == nil {
			h.Violate("empty-return", "Pop returned without an item although its context had not ended")
		}
		if ok && err == nil && v != nil {
			h.Check(pushed[v], "invented", "Pop delivered %v, which nobody pushed", v)
			popped[v]++
			h.Check(popped[v] == 1, "duplicated", "Pop delivered %v twice", v)
		}
		if !ok {
			h.Check(err == nil && v == unset, "failed-pop-effect", "Pop reported no item but returned %v, %v", v, err)
		} else {
			size--
		}
		o.Ret(r)
		cancel()
	}
	for p := 0; p < np; p++ {
		p := p
		st := fmt.Sprint("producer", p)
		ts = append(ts, simrt.GoNamed(st, func() {
			n := 1 + simrt.Choose(st, 5)
			if heavy == 1 {
				n = 5 + simrt.Choose(st, 8)
			}
			for i := 0; i < n; i++ {
				push(st, p, i, 0)
			}
		}))
	}
	for c := 0; c < nc; c++ {
		c := c
		st := fmt.Sprint("consumer", c)
		ts = append(ts, simrt.GoNamed(st, func() {
			n := 1 + simrt.Choose(st, 5)
			if heavy == 2 {
				n += 4
			}
			if heavy == 1 {
				simtime.Sleep(time.Duration(simrt.Choose(st, 30)) * time.Millisecond)
			}
			for i := 0; i < n; i++ {
				pop(st, 100+c)
			}
		}))
	}
	simrt.WaitAll(600e9, ts...)
	// nothing runs any more: a blocked Push means the queue is full, a blocked Pop that it is empty
	for _, ctx := range pending {
		if ctx.Err() != nil {
			h.Violate("ignores-cancel", "a call stays blocked although its context has ended")
		}
	}
	if live["push"] > 0 && live["pop"] > 0 {
		h.Violate("stuck", "%d Push and %d Pop calls block each other with nothing else running", live["push"], live["pop"])
	}
	h.Check(live["push"] == 0 || size >= capacity, "stuck", "Push blocks with %d items queued", size)
	h.Check(live["pop"] == 0 || size <= 0, "stuck", "Pop blocks with %d items queued", size)
	// drain / unblock
	blockedPush, blockedPop := live["push"], live["pop"]
	if blockedPush > 0 {
		simrt.Probe("producer blocked on a full queue")
	}
	if blockedPop > 0 {
		simrt.Probe("consumer blocked on an empty queue")
		for i := 0; live["pop"] > 0; i++ {
			before := live["pop"]
			push("rescue", 50, 1000+i, 1)
			simrt.Quiesce(60e9)
			h.Check(live["pop"] < before || i < 2*before+20, "stuck", "a pushed item woke no blocked Pop")
			if i > 60 {
				h.Violate("stuck", "%d blocked Pops never returned", live["pop"])
			}
		}
		simrt.WaitAll(600e9, ts...)
	}
	n := 0
	for ; ; n++ {
		ctx, cancel := simctx.WithCancel(context.Background())
		cancel()
		var v any = unset
		o := hist.Call(200, in{"pop", ""})
		ok, err := q.Pop(ctx, &v)
		o.Ret(out{ok: ok, item: v, err: err != nil})
		if ok && v != nil {
			popped[v]++
			h.Check(popped[v] == 1, "duplicated", "Pop delivered %v twice", v)
		}
		simrt.Quiesce(60e9)
		if !ok {
			break
		}
		if n > 400 {
			h.Violate("endless", "the queue never drains")
		}
	}
	if !simrt.WaitAll(600e9, ts...) && live["push"] > 0 {
		h.Violate("stuck", "a Push still blocks although the queue was drained")
	}
	if n > 0 || blockedPop > 0 || blockedPush > 0 {
		h.NonTrivial()
	}
	for _, o := range hist.Ops() {
		h.Sample("%d:%v=%v", o.Client, o.In, o.Out)
	}
	if len(hist.Ops()) > 60 {
		simrt.Probe("history too long for the checker")
		return
	}
	msg, unknown := hist.Check(model)
	if unknown {
		simrt.Probe("checker gave up")
		return
	}
	h.Check(msg == "", "not-fifo", "%s", msg)
}

func main() {
	harness.Main(harness.Prop{
		ID:          "C02",
		Rule:        "One to three producers and one to three consumers use one queue with contexts that never end, have ended, end at a deadline, or are cancelled mid-call; the history, including a final drain, is checked with porcupine against a FIFO queue of capacity ten. Non-trivial means some call blocked or an item was left to drain.",
		Assumptions: []string{"a call may report no result only if its context has ended and at some instant during the call it could not proceed (full or empty queue), as the existing tests rely on"},
		Real:        []string{"runtime/plugins/simplequeue", "runtime/core/backend.CopyResult"},
		Stub:        []string{"channels and select (simulated, Go semantics)", "context (simulated clock)", "goroutine scheduler"},
		Scenarios:   []harness.Scenario{{Name: "mixed", Run: run, StepLimit: 100_000}},
		MustProbe:   []string{"producer blocked on a full queue", "consumer blocked on an empty queue"},
		QuickSec:    25, ThoroughSec: 600,
	})
}
