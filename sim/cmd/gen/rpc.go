package main

import (
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
	"github.com/blueprint-uservices/blueprint/plugins/goproc"
	"github.com/blueprint-uservices/blueprint/plugins/http"
	"github.com/blueprint-uservices/blueprint/plugins/workflow"
	"verif.local/app/target"
)

func init() {
	specs["http"] = func(spec wiring.WiringSpec) (procs []string) {
		var fronts []string
		for _, n := range []string{"ha", "hb"} {
			svc := workflow.Service[*target.TargetImpl](spec, n, "inst_"+n)
			http.Deploy(spec, svc)
			procs = append(procs, goproc.CreateProcess(spec, n+"_proc", svc))
			fronts = append(fronts, workflow.Service[*target.FrontImpl](spec, n+"_front", svc))
		}
		return append(procs, goproc.CreateProcess(spec, "front_proc", fronts...))
	}
}
