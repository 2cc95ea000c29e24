// C08: retry modifiers.
package main

import (
	"context"
	"fmt"
	"time"

	ebp "blueprint/goproc/eb_proc"
	ebjp "blueprint/goproc/ebj_proc"
	fdp "blueprint/goproc/fd_proc"
	r0p "blueprint/goproc/r0_proc"
	r1p "blueprint/goproc/r1_proc"
	r3p "blueprint/goproc/r3_proc"
	rl0p "blueprint/goproc/rl0_proc"
	rlp "blueprint/goproc/rl_proc"
	tbp "blueprint/goproc/tb_proc"
	tbrp "blueprint/goproc/tbr_proc"

	"github.com/blueprint-uservices/blueprint/runtime/plugins/golang"
	"verif.local/sim/harness"
	"verif.local/sim/simctx"
	"verif.local/sim/simrt"
	"verif.local/sim/simtime"
	"verif.local/sim/wrapkit"
)

const ms = int64(time.Millisecond)

type variant struct {
	name    string
	mk      func(string) *golang.NamespaceBuilder
	max     int                        // attempts when every attempt fails
	gap     func(k int) (lo, hi int64) // delay between attempts k and k+1
	ctxWait bool                       // gives up when the context ends during a delay
	rate    int                        // retries per second over all callers

	cap, cost, repl float64 // token bucket
}

func fixed(d int64) func(int) (int64, int64) { return func(int) (int64, int64) { return d, d } }

func backoff(k int) int64 {
	d := 100 * ms
	for ; k > 1; k-- {
		d *= 2
	}
	return min(d, 1000*ms)
}

var variants = []variant{
	{name: "r0", mk: r0p.New_r0_proc, max: 1},
	{name: "r1", mk: r1p.New_r1_proc, max: 1},
	{name: "r3", mk: r3p.New_r3_proc, max: 3, gap: fixed(0)},
	{name: "fd", mk: fdp.New_fd_proc, max: 4, gap: fixed(50 * ms)},
	{name: "eb", mk: ebp.New_eb_proc, max: 5, gap: func(k int) (int64, int64) { return backoff(k), backoff(k) }, ctxWait: true},
	{name: "ebj", mk: ebjp.New_ebj_proc, max: 5, gap: func(k int) (int64, int64) { return backoff(k) / 2, backoff(k) }, ctxWait: true},
	{name: "rl", mk: rlp.New_rl_proc, max: 5, ctxWait: true, rate: 4},
	{name: "rl0", mk: rl0p.New_rl0_proc, max: 3, ctxWait: true},
	{name: "tb", mk: tbp.New_tb_proc, max: 2, cap: 5, cost: 1, repl: 0.5},
	{name: "tbr", mk: tbrp.New_tbr_proc, max: 2, cap: 3, cost: 1, repl: 2},
}

func scenario(exact bool) func(h *harness.H) {
	return func(h *harness.H) {
		v := variants[simrt.Choose("variant", len(variants))]
		k := wrapkit.New(h)
		failPct := []int{20, 60, 90, 100}[simrt.Choose("failpct", 4)]
		slow := simrt.Chance("slow", 1, 3)
		// Upper bound on the tokens: a caller may have taken its token before a refund that is seen here first,
		// so that the refund was cut off at the capacity less than here
		ncallers := 1 + simrt.Choose("callers", 4)
		tokens := v.cap + float64(ncallers-1)*v.cost
		maxTokens := tokens
		begin := simrt.Now()
		var retries []int64 // start times of all retries
		k.OnStart = func(c *wrapkit.Call, a *wrapkit.Attempt) {
			h.Check(c.SeqEnd == 0, "after-return", "call %d reached the service again after it had returned", c.ID)
			for _, p := range c.Attempts[:a.N-1] {
				h.Check(p.SeqEnd != 0, "overlap", "attempt %d of call %d started while attempt %d was running", a.N, c.ID, p.N)
				h.Check(p.Err != nil, "after-success", "attempt %d of call %d was made although attempt %d succeeded", a.N, c.ID, p.N)
			}
			h.Check(a.N <= v.max, "too-many", "%s: attempt %d of call %d; at most %d are allowed", v.name, a.N, c.ID, v.max)
			h.Check(a.Num == a.N, "attempt-number", "%s: attempt %d of call %d is numbered %v", v.name, a.N, c.ID, a.Num)
			if a.N == 1 {
				return
			}
			prev := c.Attempts[a.N-2]
			if v.gap != nil {
				lo, hi := v.gap(a.N - 1)
				d := a.Start - prev.End
				h.Check(d >= lo, "too-soon", "%s: attempt %d started %v after attempt %d failed; the delay is at least %v", v.name, a.N, time.Duration(d), a.N-1, time.Duration(lo))
				h.Check(!exact || d <= hi+30*ms, "too-late", "%s: attempt %d started %v after attempt %d failed; the delay is at most %v", v.name, a.N, time.Duration(d), a.N-1, time.Duration(hi))
			}
			retries = append(retries, a.Start)
			if v.rate > 0 {
				// a window of w seconds admits at most rate*w retries plus one bucket
				// (a stalled caller may use its permit late, so with stalls only the window from the start counts)
				for i := -1; i < len(retries); i++ {
					from, n := begin, float64(len(retries))
					if i >= 0 {
						from, n = retries[i], n-float64(i)
					}
					if i >= 0 && !exact {
						break
					}
					w := float64(a.Start-from) / 1e9
					h.Check(n <= float64(v.rate)*w+float64(v.rate)+0.05, "rate", "%s: %v retries within %.3fs exceed the limit of %d per second", v.name, n, w, v.rate)
				}
			}
			if v.cap > 0 {
				tokens -= v.cost
				h.Check(tokens >= 0, "budget", "%s: more retries than the token bucket allows (by %v)", v.name, -tokens)
			}
		}
		k.Behave = func(c *wrapkit.Call, a *wrapkit.Attempt) ([]any, error) {
			st := fmt.Sprint("behave", c.ID)
			if slow && simrt.Chance(st, 1, 2) {
				simrt.Fault("slow service")
				simtime.Sleep(time.Duration(simrt.Choose(st, 200)) * time.Millisecond)
			} else {
				simrt.Y(9100)
			}
			if v.cap > 0 && a.N == 1 && simrt.Chance(st, 1, 6) {
				failPct = []int{20, 60, 90, 100}[simrt.Choose("failpct", 4)]
			}
			if simrt.Choose(st, 100) < failPct {
				simrt.Fault("service error")
				if simrt.Chance(st, 1, 4) {
					return wrapkit.Rets(st, c.Method), k.Fail(c, a)
				}
				return nil, k.Fail(c, a)
			}
			if v.cap > 0 && a.N > 1 {
				tokens = min(tokens+v.repl, maxTokens)
			}
			return wrapkit.Rets(st, c.Method), nil
		}
		client, ns := wrapkit.Client(h, v.mk(v.name), v.name)
		balance := v.cap // model of the token bucket when calls do not overlap
		check := func(c *wrapkit.Call, ctxEnded bool) {
			h.Check(len(c.Attempts) >= 1, "not-called", "%s: call %d returned without reaching the service", v.name, c.ID)
			h.Check(c.Running() == 0, "still-running", "call %d returned while an attempt was running", c.ID)
			last := c.Last()
			n := len(c.Attempts)
			switch {
			case last.Err == nil:
				h.Check(c.Err == nil, "lost-success", "call %d returned %v although attempt %d succeeded", c.ID, c.Err, n)
				h.Check(wrapkit.SameResults(c, last), "result", "call %d returned %v instead of the results %v of its last attempt", c.ID, c.Rets, last.Rets)
			case ctxEnded && v.ctxWait && wrapkit.IsCtx(c.Err):
				simrt.Probe("gave up during a delay")
			default:
				h.Check(c.Err != nil, "lost-error", "call %d returned no error although its last attempt failed", c.ID)
				h.Check(wrapkit.IsFailure(c.Err, last), "wrong-error", "call %d returned error %q, not that of its last attempt, %q", c.ID, c.Err, last.Err)
				h.Check(wrapkit.SameResults(c, last), "result", "call %d returned %v instead of the results %v of its last attempt", c.ID, c.Rets, last.Rets)
				want := v.max
				if v.cap > 0 {
					if ncallers > 1 {
						want = n // judged through the budget
					} else if balance-v.cost < 1 {
						want = 1
						simrt.Probe("token bucket empty")
					}
				}
				h.Check(n == want || ctxEnded && v.ctxWait, "gave-up-early", "%s: call %d gave up after %d attempts; %d were due", v.name, c.ID, n, want)
				if n == v.max && n > 1 {
					simrt.Probe("exhausted")
				}
			}
			if v.cap > 0 && ncallers == 1 {
				if n == 2 {
					h.Check(balance-v.cost >= 1, "budget", "a retry was made with %v tokens in the bucket", balance)
					balance -= v.cost
					if last.Err == nil {
						balance = min(balance+v.repl, v.cap)
					}
				}
			}
			if n > 1 {
				h.NonTrivial()
			}
		}
		caller := func(st string, rounds int) {
			for i := 0; i < rounds; i++ {
				ctx, cancel, limited := context.Context(context.Background()), func() {}, false
				deadline := int64(0)
				if simrt.Chance(st, 1, 4) {
					limited = true
					simrt.Fault("call deadline")
					d := time.Duration(simrt.Choose(st, 800)) * time.Millisecond
					deadline = simrt.Now() + int64(d)
					ctx, cancel = simctx.WithTimeout(ctx, d)
				}
				c := k.Do(ctx, st, client)
				ended := limited && simrt.Now() >= deadline
				if exact && limited && v.ctxWait && ended {
					// what remains after the context has ended is at most the attempt in progress
					lim := max(deadline, c.Last().End) + 60*ms
					h.Check(c.End <= lim, "ignores-context", "%s: call %d returned %v after its context had ended and its last attempt had finished", v.name, c.ID, time.Duration(c.End-max(deadline, c.Last().End)))
				}
				check(c, ended)
				cancel()
				if simrt.Chance(st, 1, 3) {
					simtime.Sleep(time.Duration(simrt.Choose(st, 500)) * time.Millisecond)
				}
			}
		}
		var ts []*simrt.Task
		rounds := 5
		if v.cap > 0 {
			rounds = 15
		}
		for i := 0; i < ncallers; i++ {
			st := fmt.Sprint("caller", i)
			ts = append(ts, simrt.GoNamed(st, func() { caller(st, 1+simrt.Choose(st, rounds)) }))
		}
		if !simrt.WaitAll(3600e9, ts...) {
			for _, c := range k.Calls {
				if c.SeqEnd == 0 {
					h.Violate("stuck", "%s: call %d made %d attempts and never returned", v.name, c.ID, len(c.Attempts))
				}
			}
			h.Violate("stuck", "callers never finished")
		}
		if ncallers > 1 && len(retries) > 1 {
			simrt.Probe("concurrent callers with retries")
		}
		simrt.Probe("variant " + v.name)
		ns.Shutdown(false)
	}
}

func main() {
	harness.Main(harness.Prop{
		ID:   "C08",
		Rule: "A process with a retry modifier is compiled by the real compiler; one to four concurrent callers call a service whose attempts fail, succeed or take long, with and without deadlines. Every attempt that reaches the service is recorded and judged against the modifier's policy (count, order, delays, rate, token budget) and every result against the last attempt. Non-trivial means at least one call was retried.",
		Real: []string{"plugins/retries (generated code)", "plugins/workflow, plugins/goproc, plugins/golang, blueprint/pkg (real compilation before the runs)", "runtime/plugins/golang"},
		Stub: []string{"time, context, goroutines, math/rand (simulated)", "the called service", "logger and metric collector of the process"},
		Scenarios: []harness.Scenario{
			{Name: "chaos", Run: scenario(false), StepLimit: 200_000},
			{Name: "timing", Run: scenario(true), StepLimit: 200_000, Tune: func(c *simrt.Config) { c.StallPct, c.JumpPct = 0, 0; c.TickNs = min(c.TickNs, 1000) }},
		},
		MustProbe: []string{"exhausted", "gave up during a delay", "token bucket empty", "concurrent callers with retries"},
		QuickSec:  30, ThoroughSec: 600,
	})
}
