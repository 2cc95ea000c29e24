// C10: services deployed over HTTP.
package main

import (
	"context"
	"fmt"
	"reflect"
	"time"

	frontp "blueprint/goproc/front_proc"
	hap "blueprint/goproc/ha_proc"
	hbp "blueprint/goproc/hb_proc"

	"github.com/blueprint-uservices/blueprint/runtime/plugins/golang"
	"verif.local/sim/harness"
	"verif.local/sim/simctx"
	"verif.local/sim/simhttp"
	"verif.local/sim/simrt"
	"verif.local/sim/simtime"
	"verif.local/sim/wrapkit"
)

const ms = int64(time.Millisecond)

type server struct {
	name string
	addr string
	mk   func(string) *golang.NamespaceBuilder
	ns   *golang.Namespace
	t    wrapkit.API
	pOK  int // pings that succeeded
	pN   int // pings made
	pX   int // pings executed
	pXOK int
}

func scenario(faulty bool) func(h *harness.H) {
	return func(h *harness.H) {
		k := wrapkit.New(h)
		svs := []*server{{name: "ha", addr: "hosta:2000", mk: hap.New_ha_proc}, {name: "hb", addr: "hostb:2000", mk: hbp.New_hb_proc}}
		f := simhttp.Faults{Latency: 100e3, MaxDelay: 40 * ms, StallNs: 5000 * ms}
		if faulty {
			pct := func() int { return []int{0, 3, 10, 30}[simrt.Choose("netcfg", 4)] }
			f.Refuse, f.IdleClose, f.ResetBefore, f.ResetAfter, f.Torn, f.Slow, f.Stall = pct(), pct(), pct(), pct(), pct(), pct(), pct()/3
		}
		simhttp.SetFaults(f)
		stopped := map[string]bool{}
		boot := func(s *server) {
			wrapkit.FreshFlags()
			s.ns = wrapkit.Proc(h, s.mk(s.name+"_proc"), s.name+"_proc", context.Background(), map[string]string{s.name + ".http.bind_addr": s.addr})
			for i := 0; i < 100 && !simhttp.Listening(s.addr); i++ {
				simtime.Sleep(time.Millisecond)
			}
			h.Check(simhttp.Listening(s.addr), "not-serving", "process %s was built but does not serve at its address %s", s.name, s.addr)
		}
		for _, s := range svs {
			boot(s)
		}
		fns := wrapkit.Proc(h, frontp.New_front_proc("front_proc"), "front_proc", context.Background(), map[string]string{"ha.http.dial_addr": svs[0].addr, "hb.http.dial_addr": svs[1].addr})
		for _, s := range svs {
			s.t = wrapkit.FrontOf(h, fns, s.name+"_front")
		}
		failPct := []int{0, 20, 60}[simrt.Choose("failpct", 3)]
		k.OnStart = func(c *wrapkit.Call, a *wrapkit.Attempt) {
			s := c.Tag.(*server)
			h.Check(a.Inst == "inst_"+s.name, "misrouted", "call %d to %s reached %s", c.ID, s.name, a.Inst)
			h.Check(a.N == 1, "executed-twice", "%s call %d to %s was executed %d times", c.Method, c.ID, s.name, a.N)
		}
		k.Behave = func(c *wrapkit.Call, a *wrapkit.Attempt) ([]any, error) {
			st := fmt.Sprint("behave", c.ID)
			if simrt.Chance(st, 1, 4) {
				simrt.Fault("slow service")
				simtime.Sleep(time.Duration(1+simrt.Choose(st, 200)) * time.Millisecond)
			} else {
				simrt.Y(9100)
			}
			if simrt.Choose(st, 100) < failPct {
				simrt.Fault("service error")
				return nil, k.Fail(c, a)
			}
			return wrapkit.Rets(st, c.Method), nil
		}
		k.OnPing = func(ctx context.Context, inst string) error {
			for _, s := range svs {
				if inst == "inst_"+s.name {
					s.pX++
					h.Check(s.pX <= s.pN, "executed-twice", "%s executed %d pings of %d made", s.name, s.pX, s.pN)
					if simrt.Choose("ping", 100) < failPct {
						return &wrapkit.Failure{Msg: "ping failed"}
					}
					s.pXOK++
				}
			}
			return nil
		}
		// one call and its checks; sure means that no fault can hit it
		one := func(st string, ctx context.Context, s *server, ended func() int64, sure bool) {
			if simrt.Chance(st, 1, 12) {
				s.pN++
				if err := s.t.Ping(ctx); err == nil {
					s.pOK++
					h.Check(s.pOK <= s.pXOK, "false-success", "%d pings of %s succeeded but only %d were executed successfully", s.pOK, s.name, s.pXOK)
				} else if sure {
					h.Check(s.pX-s.pXOK > 0, "false-failure", "a ping failed with %q although the network was working", err)
				}
				return
			}
			c := k.Prepare(ctx, st, "Do", "Put", "List", "Get")
			c.Tag = s
			k.Make(c, s.t)
			if c.Err == nil {
				h.Check(len(c.Attempts) == 1 && c.Last().SeqEnd != 0, "false-success", "%s call %d succeeded without being executed", c.Method, c.ID)
				a := c.Last()
				h.Check(a.Err == nil, "lost-error", "%s call %d succeeded although the service returned %v", c.Method, c.ID, a.Err)
				h.Check(wrapkit.SameResults(c, a), "results", "%s call %d returned %#v but the service returned %#v", c.Method, c.ID, c.Rets, a.Rets)
			} else {
				h.Check(reflect.DeepEqual(c.Rets, wrapkit.Zero(c.Method)), "partial", "%s call %d failed with %v but also returned %#v", c.Method, c.ID, c.Err, c.Rets)
				if sure {
					h.Check(len(c.Attempts) == 1 && c.Last().Err != nil, "false-failure", "%s call %d failed with %q although the network was working and the service did not fail", c.Method, c.ID, c.Err)
				}
			}
			if sure {
				a := c.Last()
				h.Check(c.End-c.Start <= (a.End-a.Start)+20*ms, "slow", "call %d took %v longer than the service", c.ID, time.Duration(c.End-c.Start-(a.End-a.Start)))
			}
			if e := ended(); e != 0 && c.End > e+20*ms && c.Start <= e {
				h.Violate("ctx-ignored", "%s call %d returned %v after its context had ended", c.Method, c.ID, time.Duration(c.End-e))
			}
		}
		n := 1 + simrt.Choose("callers", 4)
		rounds := 1 + simrt.Choose("rounds", 5)
		calling := !faulty
		var ts []*simrt.Task
		for i := 0; i < n; i++ {
			st := fmt.Sprint("caller", i)
			ts = append(ts, simrt.GoNamed(st, func() {
				for j := 0; j < rounds; j++ {
					s := svs[simrt.Choose(st, 2)]
					ctx, cancel := context.Context(context.Background()), func() {}
					end := int64(0)
					sure := calling
					switch simrt.Choose(st, 6) {
					case 0:
						simrt.Fault("call deadline")
						sure = false
						d := time.Duration(simrt.Choose(st, 60)) * time.Millisecond
						end = simrt.Now() + int64(d)
						ctx, cancel = simctx.WithTimeout(ctx, d)
					case 1:
						simrt.Fault("cancel during call")
						sure = false
						var cf func()
						ctx, cf = simctx.WithCancel(ctx)
						d := time.Duration(simrt.Choose(st, 60)) * time.Millisecond
						cancel = cf
						simrt.GoNamed("canceller", func() {
							simtime.Sleep(d)
							if end == 0 {
								end = simrt.Now()
							}
							cf()
						})
					}
					one(st, ctx, s, func() int64 { return end }, sure)
					cancel()
					if simrt.Chance(st, 1, 3) {
						simtime.Sleep(time.Duration(simrt.Choose(st, 30)) * time.Millisecond)
					}
				}
			}))
		}
		if faulty {
			ts = append(ts, simrt.GoNamed("nemesis", func() {
				for i := simrt.Choose("nemesis", 3); i > 0; i-- {
					simtime.Sleep(time.Duration(simrt.Choose("nemesis", 100)) * time.Millisecond)
					s := svs[simrt.Choose("nemesis", 2)]
					d := time.Duration(1+simrt.Choose("nemesis", 300)) * time.Millisecond
					if simrt.Chance("nemesis", 1, 2) {
						simhttp.Partition(s.addr, true)
						simtime.Sleep(d)
						simhttp.Partition(s.addr, false)
					} else {
						simrt.Fault("server restart")
						stopped[s.name] = true
						s.ns.Shutdown(true)
						h.Check(!simhttp.Listening(s.addr), "still-serving", "process %s was shut down and waited for, but still serves at %s", s.name, s.addr)
						simtime.Sleep(d)
						boot(s)
					}
				}
			}))
		}
		if !simrt.WaitAll(3600e9, ts...) {
			h.Violate("stuck", "a call or the shutdown of a process never returned; %s", simrt.Blocked())
		}
		simrt.Quiesce(3600e9)
		h.Check(simhttp.OpenConns() <= 2*(n+1), "conn-leak", "%d connections are open after all calls have returned; at most %d calls were made at a time", simhttp.OpenConns(), n)
		// once the faults have stopped, calls succeed
		f = simhttp.Faults{Latency: 100e3}
		simhttp.SetFaults(f)
		if faulty {
			h.NonTrivial()
			for _, s := range svs {
				one("after", context.Background(), s, func() int64 { return 0 }, simhttp.Listening(s.addr) && !stopped[s.name])
			}
			// the first call may have found a connection that is gone
			failPct = 0
			for _, s := range svs {
				one("after", context.Background(), s, func() int64 { return 0 }, true)
			}
		} else if n > 1 {
			h.NonTrivial()
		}
		fns.Shutdown(false)
		for _, s := range svs {
			s.ns.Shutdown(true)
		}
	}
}

func main() {
	exact := func(c *simrt.Config) { c.StallPct, c.JumpPct = 0, 0; c.TickNs = min(c.TickNs, 1000) }
	harness.Main(harness.Prop{
		ID:   "C10",
		Rule: "Two services of one type are deployed over HTTP in processes of their own and used by a third; the real compiler generates all three. Callers make concurrent calls with drawn arguments while the network refuses, delays, stalls, resets and tears, servers are partitioned and restarted, and callers give up. Every call's executions and results are compared. Non-trivial means several callers, or faults.",
		Real: []string{"plugins/http (generated client and server)", "plugins/workflow, plugins/goproc, plugins/golang, blueprint/pkg (real compilation before the runs)", "runtime/plugins/golang", "encoding/json, net/url"},
		Stub: []string{"net/http Client, Transport and Server (simulated network; connection reuse and replay rules as in net/http)", "github.com/gorilla/mux", "time, context, goroutines (simulated)", "the called services", "logger and metric collector of the processes"},
		Scenarios: []harness.Scenario{
			{Name: "calm", Run: scenario(false), StepLimit: 200_000, Tune: exact},
			{Name: "faults", Run: scenario(true), StepLimit: 400_000, Tune: exact},
		},
		MustProbe: []string{},
		QuickSec:  25, ThoroughSec: 600,
	})
}
