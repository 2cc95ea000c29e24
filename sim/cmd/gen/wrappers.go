package main

import (
	"fmt"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
	"github.com/blueprint-uservices/blueprint/plugins/clientpool"
	"github.com/blueprint-uservices/blueprint/plugins/faultinjector"
	"github.com/blueprint-uservices/blueprint/plugins/goproc"
	"github.com/blueprint-uservices/blueprint/plugins/healthchecker"
	"github.com/blueprint-uservices/blueprint/plugins/http"
	"github.com/blueprint-uservices/blueprint/plugins/latency"
	"github.com/blueprint-uservices/blueprint/plugins/loadbalancer"
	"github.com/blueprint-uservices/blueprint/plugins/retries"
	"github.com/blueprint-uservices/blueprint/plugins/timeouts"
	"github.com/blueprint-uservices/blueprint/plugins/workflow"
	"verif.local/app/target"
	"verif.local/app/targetb"
	"verif.local/app/targetc"
	"verif.local/app/targetd"
	"verif.local/sim/plan"
)

type mod = func(spec wiring.WiringSpec, svc string)

func init() {
	specs["retries"] = func(spec wiring.WiringSpec) (procs []string) {
		add := func(name string, m mod) { procs = append(procs, service(spec, name, m)) }
		add("r0", func(s wiring.WiringSpec, n string) { retries.AddRetries(s, n, 0) })
		add("r1", func(s wiring.WiringSpec, n string) { retries.AddRetries(s, n, 1) })
		add("r3", func(s wiring.WiringSpec, n string) { retries.AddRetries(s, n, 3) })
		add("fd", func(s wiring.WiringSpec, n string) { retries.AddRetriesWithFixedDelay(s, n, 4, "50ms") })
		add("eb", func(s wiring.WiringSpec, n string) {
			retries.AddRetriesWithExponentialBackoff(s, n, "100ms", "1s", false)
		})
		add("ebj", func(s wiring.WiringSpec, n string) {
			retries.AddRetriesWithExponentialBackoff(s, n, "100ms", "1s", true)
		})
		add("rl", func(s wiring.WiringSpec, n string) { retries.AddRetriesRetryRateLimit(s, n, 5, 4) })
		add("rl0", func(s wiring.WiringSpec, n string) { retries.AddRetriesRetryRateLimit(s, n, 3, 0) })
		add("tb", func(s wiring.WiringSpec, n string) { retries.AddRetriesTokenBucket(s, n, 5, 1, 0.5) })
		add("tbr", func(s wiring.WiringSpec, n string) { retries.AddRetriesTokenBucket(s, n, 3, 1, 2) })
		return
	}
}

func init() {
	specs["timeouts"] = func(spec wiring.WiringSpec) (procs []string) {
		add := func(name string, m mod) { procs = append(procs, service(spec, name, m)) }
		add("t100", func(s wiring.WiringSpec, n string) { timeouts.Add(s, n, "100ms") })
		add("t1s", func(s wiring.WiringSpec, n string) { timeouts.Add(s, n, "1s") })
		add("rt", func(s wiring.WiringSpec, n string) { retries.AddRetriesWithTimeouts(s, n, 3, "100ms") })
		return
	}
}

func apply(s wiring.WiringSpec, n string, m plan.Mod) {
	d := fmt.Sprintf("%dms", m.D)
	switch m.Kind {
	case "retry":
		retries.AddRetries(s, n, int64(m.N))
	case "fixed":
		retries.AddRetriesWithFixedDelay(s, n, int64(m.N), d)
	case "backoff":
		retries.AddRetriesWithExponentialBackoff(s, n, d, fmt.Sprintf("%dms", m.D2), false)
	case "timeout":
		timeouts.Add(s, n, d)
	case "pool":
		clientpool.Create(s, n, m.N)
	case "latency":
		latency.AddFixed(s, n, d)
	case "health":
		healthchecker.AddHealthCheckAPI(s, n)
	case "nodelay":
		faultinjector.AddRandomDelay(s, n, 0)
	case "prob":
		faultinjector.AddProbabilisticFailures(s, n, m.N)
	default:
		die("modifier %v", m)
	}
}

func init() {
	specs["compose"] = func(spec wiring.WiringSpec) (procs []string) {
		for _, p := range plan.Plan(1) {
			var remote []string
			typ := map[string]int{}
			for _, s := range p.Services {
				if s.Replicas != nil {
					if got := types[s.Type].lb(spec, s.Name[:len(s.Name)-3], s.Replicas); got != s.Name {
						die("balancer %s", got)
					}
				} else {
					types[s.Type].service(spec, s.Name, "inst_"+s.Name)
				}
				typ[s.Name] = s.Type
				for _, m := range s.Mods {
					apply(spec, s.Name, m)
				}
				if s.HTTP {
					http.Deploy(spec, s.Name)
					remote = append(remote, s.Name)
				}
			}
			var fronts []string
			for i, f := range p.Fronts {
				fronts = append(fronts, types[typ[f]].front(spec, fmt.Sprintf("%s_front%d", p.Name, i), f))
			}
			procs = append(procs, goproc.CreateProcess(spec, p.Name+"_proc", fronts...))
			procs = append(procs, goproc.CreateProcess(spec, "d"+p.Name[1:]+"_proc", remote...))
		}
		return
	}
}

type serviceType struct {
	service, front func(wiring.WiringSpec, string, ...string) string
	lb             func(wiring.WiringSpec, string, []string) string
}

var types = []serviceType{
	{workflow.Service[*target.TargetImpl], workflow.Service[*target.FrontImpl], loadbalancer.CreateLoadBalancer[*target.TargetImpl]},
	{workflow.Service[*targetb.TargetBImpl], workflow.Service[*targetb.FrontBImpl], loadbalancer.CreateLoadBalancer[*targetb.TargetBImpl]},
	{workflow.Service[*targetc.TargetCImpl], workflow.Service[*targetc.FrontCImpl], loadbalancer.CreateLoadBalancer[*targetc.TargetCImpl]},
	{workflow.Service[*targetd.TargetDImpl], workflow.Service[*targetd.FrontDImpl], loadbalancer.CreateLoadBalancer[*targetd.TargetDImpl]},
}

func init() {
	// services of one type in one process, of which one has a health check below the fault injector
	specs["collide"] = func(spec wiring.WiringSpec) (procs []string) {
		var fronts []string
		for i, mods := range [][]plan.Mod{{{Kind: "prob"}}, {{Kind: "health"}, {Kind: "prob"}}} {
			n := types[0].service(spec, fmt.Sprintf("s%d", i), "inst")
			for _, m := range mods {
				apply(spec, n, m)
			}
			fronts = append(fronts, types[0].front(spec, n+"_front", n))
		}
		return []string{goproc.CreateProcess(spec, "c_proc", fronts...)}
	}
}
