// C05: the client pool never exceeds its capacity, never shares a client, and never strands a caller.
package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/plugins/clientpool"
	"verif.local/sim/harness"
	"verif.local/sim/simctx"
	"verif.local/sim/simrt"
	"verif.local/sim/simtime"
)

type client struct {
	id     int
	holder string
	idle   bool // pushed back
}

func run(h *harness.H) {
	capacity := 1 + simrt.Choose("capacity", 3)
	faulty := simrt.Chance("buildfaults", 1, 2)
	slow := simrt.Chance("slowbuild", 1, 2)
	var all []*client
	building, failures := 0, 0
	errBuild := errors.New("simulated build failure")
	strict := true // faults are being injected
	build := func() (*client, error) {
		building++
		h.Check(building+len(all) <= capacity, "over-capacity", "%d clients exist or are being built in a pool of capacity %d", building+len(all), capacity)
		if slow && simrt.Chance("build", 1, 2) {
			simrt.Fault("slow build")
			simtime.Sleep(time.Duration(1+simrt.Choose("build", 40)) * time.Millisecond)
		} else {
			simrt.Y(9002)
		}
		building--
		if strict && faulty && simrt.Chance("build", 1, 3) {
			simrt.Fault("build failure")
			failures++
			return nil, errBuild
		}
		c := &client{id: len(all)}
		all = append(all, c)
		return c, nil
	}
	pool := clientpool.NewClientPool(capacity, build)
	inUse, waiting, contended := 0, map[string]context.Context{}, false
	check := func() {
		sz, av := pool.Size(), pool.Available()
		h.Check(pool.Capacity() == capacity, "stats", "Capacity() = %d, not %d", pool.Capacity(), capacity)
		h.Check(sz >= 0 && sz <= capacity, "stats", "Size() = %d in a pool of capacity %d", sz, capacity)
		h.Check(av >= 0 && av <= capacity, "stats", "Available() = %d in a pool of capacity %d", av, capacity)
	}
	caller := func(st string, rounds int) {
		for i := 0; i < rounds; i++ {
			ctx, cancel := context.Context(context.Background()), func() {}
			switch simrt.Choose(st, 6) {
			case 0:
				simrt.Fault("call deadline")
				ctx, cancel = simctx.WithTimeout(ctx, time.Duration(simrt.Choose(st, 30))*time.Millisecond)
			case 1:
				var cf func()
				ctx, cf = simctx.WithCancel(ctx)
				n := simrt.Choose(st, 12)
				simrt.Fault("cancel during call")
				simrt.GoNamed("canceller", func() {
					for j := 0; j < n; j++ {
						simrt.Y(9003)
					}
					cf()
				})
			}
			check()
			if inUse >= capacity {
				contended = true
			}
			waiting[st] = ctx
			c, err := pool.Pop(ctx)
			delete(waiting, st)
			if err != nil {
				h.Check(err == errBuild || ctx.Err() != nil, "spurious-error", "Pop failed with %v although no build failed and its context had not ended", err)
				h.Check(c == nil, "client-and-error", "Pop returned a client together with error %v", err)
				cancel()
				continue
			}
			h.Check(c != nil, "nil-client", "Pop returned no client and no error")
			h.Check(c.holder == "", "shared", "client %d was handed to %s while %s holds it", c.id, st, c.holder)
			c.holder, c.idle = st, false
			inUse++
			h.Check(inUse <= capacity, "over-capacity", "%d clients in use in a pool of capacity %d", inUse, capacity)
			if simrt.Chance(st, 1, 2) {
				simtime.Sleep(time.Duration(simrt.Choose(st, 20)) * time.Millisecond)
			} else {
				simrt.Y(9004)
			}
			h.Check(c.holder == st, "shared", "client %d changed hands while %s held it", c.id, st)
			c.holder, c.idle = "", true
			inUse--
			pool.Push(c)
			check()
			cancel()
		}
	}
	var ts []*simrt.Task
	n := 2 + simrt.Choose("callers", 4)
	for i := 0; i < n; i++ {
		st := fmt.Sprint("caller", i)
		ts = append(ts, simrt.GoNamed(st, func() { caller(st, 1+simrt.Choose(st, 4)) }))
	}
	if !simrt.WaitAll(600e9, ts...) {
		for st := range waiting {
			_ = st
			h.Violate("stranded", "%d callers wait for ever with %d of %d clients in use (%d builds failed)", len(waiting), inUse, capacity, failures)
		}
		h.Violate("stuck", "a call never returned")
	}
	if contended || failures > 0 {
		h.NonTrivial()
	}
	if failures > 0 && contended {
		simrt.Probe("build failure under contention")
	}
	// everything has been returned and faults stopped
	strict = false
	h.Check(pool.Size() == len(all), "stats", "Size() = %d but %d clients exist", pool.Size(), len(all))
	h.Check(pool.Available() == len(all), "stats", "Available() = %d but %d clients are idle", pool.Available(), len(all))
	h.Check(len(all) <= capacity, "over-capacity", "%d clients were built in a pool of capacity %d", len(all), capacity)
	idle := len(all)
	seen := map[*client]bool{}
	done := simrt.GoNamed("final", func() {
		for i := 0; i < capacity; i++ {
			built := len(all)
			c, err := pool.Pop(context.Background())
			if err != nil || c == nil {
				h.Violate("lost-capacity", "Pop %d of %d failed after all clients were returned: %v", i+1, capacity, err)
			}
			h.Check(!seen[c], "shared", "client %d was handed out twice", c.id)
			seen[c] = true
			if i < idle {
				h.Check(len(all) == built, "needless-build", "a client was built although an idle one was available")
			}
			h.Check(pool.Size() == len(all) && pool.Available() == max(0, idle-i-1), "stats", "Size() = %d, Available() = %d with %d clients of which %d idle", pool.Size(), pool.Available(), len(all), max(0, idle-i-1))
		}
		ctx, cancel := simctx.WithTimeout(context.Background(), time.Second)
		c, err := pool.Pop(ctx)
		h.Check(err != nil && c == nil, "over-capacity", "Pop handed out a client beyond the capacity")
		cancel()
		for c := range seen {
			pool.Push(c)
		}
	})
	if !simrt.WaitAll(600e9, done) {
		h.Violate("lost-capacity", "with all clients returned, %d of %d could be acquired before Pop blocked", len(seen), capacity)
	}
}

func main() {
	harness.Main(harness.Prop{
		ID:        "C05",
		Rule:      "Two to five callers acquire, hold and return clients of a pool of capacity one to three while builds are slow or fail and calls are cancelled or time out; ownership, capacity and the reported statistics are checked at every step, and the full capacity is acquired at the end. Non-trivial means callers contended for the pool or a build failed.",
		Real:      []string{"runtime/plugins/clientpool"},
		Stub:      []string{"sync/atomic, channels, select, context (simulated)", "client construction"},
		Scenarios: []harness.Scenario{{Name: "mixed", Run: run, StepLimit: 100_000}},
		MustProbe: []string{"build failure under contention"},
		QuickSec:  25, ThoroughSec: 600,
	})
}
