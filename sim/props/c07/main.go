// C07: a service registry builds its client once and gives every caller that same result.
package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/core/registry"
	"verif.local/sim/harness"
	"verif.local/sim/simrt"
	"verif.local/sim/simtime"
)

type svc struct{ name string }

func run(h *harness.H) {
	r := registry.NewServiceRegistry[*svc]("svc")
	nreg := simrt.Choose("registered", 4)
	builds := map[string]int{}
	var built *svc
	errBuild := errors.New("simulated build failure")
	fails := simrt.Chance("fails", 1, 3)
	inside := 0
	finished := false
	for i := 0; i < nreg; i++ {
		name := fmt.Sprint("s", i)
		r.Register(name, func(ctx context.Context) (*svc, error) {
			builds[name]++
			inside++
			h.Check(inside == 1 && len(builds) == 1 && builds[name] == 1, "built-twice", "the client was built more than once: %v", builds)
			if simrt.Chance("build", 1, 2) {
				simrt.Fault("slow build")
				simtime.Sleep(time.Duration(1+simrt.Choose("build", 50)) * time.Millisecond)
			}
			inside--
			finished = true
			if fails {
				simrt.Fault("build failure")
				return nil, errBuild
			}
			built = &svc{name}
			return built, nil
		})
	}
	want := ""
	if nreg > 0 {
		want = "s0"
	}
	if simrt.Chance("default", 1, 2) {
		want = fmt.Sprint("s", simrt.Choose("default", 4))
		r.SetDefault(want)
	}
	known := false
	for i := 0; i < nreg; i++ {
		known = known || want == fmt.Sprint("s", i)
	}
	n := 2 + simrt.Choose("callers", 4)
	var ts []*simrt.Task
	overlap := false
	for i := 0; i < n; i++ {
		st := fmt.Sprint("caller", i)
		ts = append(ts, simrt.GoNamed(st, func() {
			for j := 0; j < 1+simrt.Choose(st, 3); j++ {
				overlap = overlap || inside > 0
				c, err := r.Get(context.Background())
				if !known {
					h.Check(err != nil && c == nil && len(builds) == 0, "unknown", "Get with no usable client returned %v, %v (builds %v)", c, err, builds)
					continue
				}
				h.Check(finished, "early", "Get returned before the client was built")
				if fails {
					h.Check(err == errBuild && c == nil, "result", "Get returned %v, %v after the build failed", c, err)
				} else {
					h.Check(err == nil && c == built && c != nil && c.name == want, "result", "Get returned %v, %v but the client is %v", c, err, built)
				}
			}
		}))
	}
	if !simrt.WaitAll(600e9, ts...) {
		h.Violate("stuck", "Get never returned")
	}
	if overlap {
		h.NonTrivial()
		simrt.Probe("Get during the build")
	}
	if known {
		h.Check(builds[want] == 1 && len(builds) == 1, "builds", "builds: %v, want one of %s", builds, want)
	}
}

func main() {
	harness.Main(harness.Prop{
		ID:        "C07",
		Rule:      "Two to five callers get the client of a registry with zero to three constructors while the build is slow or fails. Non-trivial means a caller arrived while the build was in progress.",
		Real:      []string{"runtime/core/registry"},
		Stub:      []string{"sync (simulated)", "client construction", "log output"},
		Scenarios: []harness.Scenario{{Name: "mixed", Run: run, StepLimit: 50_000}},
		MustProbe: []string{"Get during the build"},
		QuickSec:  15, ThoroughSec: 300,
	})
}
