// C09: timeout modifiers.
package main

import (
	"context"
	"fmt"
	"time"

	rtp "blueprint/goproc/rt_proc"
	t100p "blueprint/goproc/t100_proc"
	t1sp "blueprint/goproc/t1s_proc"

	"github.com/blueprint-uservices/blueprint/runtime/plugins/golang"
	"verif.local/sim/harness"
	"verif.local/sim/simctx"
	"verif.local/sim/simrt"
	"verif.local/sim/simtime"
	"verif.local/sim/wrapkit"
)

const ms = int64(time.Millisecond)

type variant struct {
	name    string
	mk      func(string) *golang.NamespaceBuilder
	timeout int64
	max     int
}

var variants = []variant{
	{"t100", t100p.New_t100_proc, 100 * ms, 1},
	{"t1s", t1sp.New_t1s_proc, 1000 * ms, 1},
	{"rt", rtp.New_rt_proc, 100 * ms, 3}, // retries around a timeout
}

func scenario(exact bool) func(h *harness.H) {
	return func(h *harness.H) {
		v := variants[simrt.Choose("variant", len(variants))]
		k := wrapkit.New(h)
		failPct := []int{0, 30, 100}[simrt.Choose("failpct", 3)]
		slowPct := []int{20, 50, 90}[simrt.Choose("slowpct", 3)]
		k.OnStart = func(c *wrapkit.Call, a *wrapkit.Attempt) {
			h.Check(a.N <= v.max, "too-many", "%s: attempt %d of call %d; at most %d are allowed", v.name, a.N, c.ID, v.max)
			dl, ok := a.Ctx.Deadline()
			h.Check(ok, "no-deadline", "%s: the service was called without a deadline", v.name)
			h.Check(dl.UnixNano() <= a.Start+v.timeout, "late-deadline", "%s: the service was called with a deadline %v away", v.name, time.Duration(dl.UnixNano()-a.Start))
		}
		k.Behave = func(c *wrapkit.Call, a *wrapkit.Attempt) ([]any, error) {
			st := fmt.Sprint("behave", c.ID)
			if simrt.Choose(st, 100) < slowPct {
				simrt.Fault("slow service")
				// around the timeout, or far beyond it
				d := v.timeout*int64(80+simrt.Choose(st, 40))/100 + int64(simrt.Choose(st, 3)-1)
				if simrt.Chance(st, 1, 2) {
					d = v.timeout * int64(1+simrt.Choose(st, 30)) / 4
				}
				if simrt.Chance(st, 1, 3) {
					// a service that gives up when told to
					if simrt.Select(false, simrt.RecvCase(simtime.After(time.Duration(d))), simrt.RecvCase(a.Ctx.Done())) == 1 {
						return nil, a.Ctx.Err()
					}
				} else {
					simtime.Sleep(time.Duration(d))
				}
			} else {
				simrt.Y(9100)
			}
			if simrt.Choose(st, 100) < failPct {
				simrt.Fault("service error")
				return nil, k.Fail(c, a)
			}
			return wrapkit.Rets(st, c.Method), nil
		}
		client, ns := wrapkit.Client(h, v.mk(v.name), v.name)
		base := len(simrt.LiveTasks())
		slack := 30 * ms
		check := func(c *wrapkit.Call, deadline int64, cancelled bool) {
			h.Check(len(c.Attempts) >= 1 || c.Err != nil && (cancelled || deadline > 0 || v.timeout > 0), "not-called", "%s: call %d returned success without reaching the service", v.name, c.ID)
			if c.Err == nil {
				// the results are exactly those of a successful attempt
				ok := false
				for _, a := range c.Attempts {
					if a.SeqEnd != 0 && a.Err == nil && wrapkit.SameResults(c, a) {
						ok = true
					}
				}
				h.Check(ok, "result", "%s: call %d succeeded with results %v, which no attempt returned", v.name, c.ID, c.Rets)
			} else {
				// (a stall can use up an attempt's time before it reaches the service)
				h.Check(!exact || cancelled || len(c.Attempts) == v.max || deadline > 0, "gave-up-early", "%s: call %d failed with %q after %d of %d attempts", v.name, c.ID, c.Err, len(c.Attempts), v.max)
			}
			if !exact {
				return
			}
			// without stalls, the time limit is kept, and a result that arrives in time is delivered
			end := c.Start + v.timeout*int64(v.max)
			if deadline > 0 && v.max == 1 {
				end = min(end, deadline)
			}
			h.Check(c.End <= end+slack, "too-late", "%s: call %d returned %v after its time limit", v.name, c.ID, time.Duration(c.End-end))
			if v.max == 1 && len(c.Attempts) == 1 && !cancelled {
				a := c.Attempts[0]
				if a.SeqEnd != 0 && a.End < end-ms && a.SeqEnd < c.SeqEnd {
					if a.Err == nil {
						h.Check(c.Err == nil, "lost-result", "%s: call %d failed with %q although the service had answered %v before the time limit", v.name, c.ID, c.Err, time.Duration(end-a.End))
					} else {
						h.Check(c.Err != nil && (wrapkit.IsFailure(c.Err, a)), "wrong-error", "%s: call %d returned %v, not the service's error %q", v.name, c.ID, c.Err, a.Err)
					}
					h.Check(c.End <= a.End+slack, "too-late", "%s: call %d returned %v after the service had answered", v.name, c.ID, time.Duration(c.End-a.End))
				} else {
					h.Check(c.Err != nil || a.SeqEnd != 0, "early-success", "call %d succeeded before the service answered", c.ID)
					if c.End > end-ms {
						simrt.Probe("timed out")
					}
				}
				h.Check(c.Err == nil || a.SeqEnd != 0 && wrapkit.IsFailure(c.Err, a) || c.End >= end-ms, "too-early", "%s: call %d failed with %q %v before its time limit", v.name, c.ID, c.Err, time.Duration(end-c.End))
			}
		}
		caller := func(st string, rounds int) {
			for i := 0; i < rounds; i++ {
				ctx, cancel, cancelled := context.Context(context.Background()), func() {}, false
				deadline := int64(0)
				switch simrt.Choose(st, 5) {
				case 0:
					simrt.Fault("call deadline")
					d := time.Duration(simrt.Choose(st, 300)) * time.Millisecond
					deadline = simrt.Now() + int64(d)
					ctx, cancel = simctx.WithTimeout(ctx, d)
				case 1:
					simrt.Fault("cancel during call")
					var cf func()
					ctx, cf = simctx.WithCancel(ctx)
					d := time.Duration(simrt.Choose(st, 150)) * time.Millisecond
					cancelled = true
					simrt.GoNamed("canceller", func() { simtime.Sleep(d); cf() })
				}
				c := k.Do(ctx, st, client)
				if len(c.Attempts) > 0 && c.Running() > 0 {
					h.NonTrivial()
					simrt.Probe("returned while the service was still running")
				}
				check(c, deadline, cancelled)
				cancel()
			}
		}
		var ts []*simrt.Task
		n := 1 + simrt.Choose("callers", 3)
		for i := 0; i < n; i++ {
			st := fmt.Sprint("caller", i)
			ts = append(ts, simrt.GoNamed(st, func() { caller(st, 1+simrt.Choose(st, 4)) }))
		}
		if !simrt.WaitAll(3600e9, ts...) {
			h.Violate("stuck", "%s: a call never returned", v.name)
		}
		// every attempt that outlived its call finishes, and nothing remains of it
		simrt.Quiesce(3600e9)
		for _, c := range k.Calls {
			for _, a := range c.Attempts {
				h.Check(a.SeqEnd != 0, "service-stuck", "attempt %d of call %d never finished", a.N, c.ID)
				h.Check(a.Ctx.Err() != nil, "not-cancelled", "the context of attempt %d of call %d was never ended", a.N, c.ID)
			}
		}
		if live := len(simrt.LiveTasks()); live > base {
			s := ""
			for _, t := range simrt.LiveTasks()[base:] {
				s += "; " + t.BlockedOn()
			}
			h.Violate("leak", "%s: %d goroutines remain after all calls and all attempts have finished%s", v.name, live-base, s)
		}
		ns.Shutdown(false)
	}
}

func main() {
	harness.Main(harness.Prop{
		ID:   "C09",
		Rule: "A process with a timeout modifier (alone, and inside retries) is compiled by the real compiler; one to three concurrent callers call a service that answers before, around or long after the timeout, fails, or watches its context, while callers cancel or have deadlines of their own. Results, time limits, contexts and left-over goroutines are checked. Non-trivial means a call returned while its attempt was still running.",
		Real: []string{"plugins/timeouts, plugins/retries (generated code)", "plugins/workflow, plugins/goproc, plugins/golang, blueprint/pkg (real compilation before the runs)", "runtime/plugins/golang"},
		Stub: []string{"time, context, goroutines (simulated)", "the called service", "logger and metric collector of the process"},
		Scenarios: []harness.Scenario{
			{Name: "chaos", Run: scenario(false), StepLimit: 200_000},
			{Name: "timing", Run: scenario(true), StepLimit: 200_000, Tune: func(c *simrt.Config) { c.StallPct, c.JumpPct = 0, 0; c.TickNs = min(c.TickNs, 1000) }},
		},
		MustProbe: []string{"timed out", "returned while the service was still running"},
		QuickSec:  25, ThoroughSec: 600,
	})
}
