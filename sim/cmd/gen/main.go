// Command gen runs the repository's real compiler on one of the wiring specs
// below and leaves the Go code it generates in a directory.
package main

import (
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
	"github.com/blueprint-uservices/blueprint/plugins/goproc"
	"github.com/blueprint-uservices/blueprint/plugins/workflow"
	"github.com/blueprint-uservices/blueprint/plugins/workflow/workflowspec"
	"verif.local/app/target"
)

// service defines a target and a front end that calls it, in one process.
func service(spec wiring.WiringSpec, name string, mods ...func(spec wiring.WiringSpec, svc string)) string {
	svc := workflow.Service[*target.TargetImpl](spec, name, "inst_"+name)
	for _, m := range mods {
		m(spec, svc)
	}
	front := workflow.Service[*target.FrontImpl](spec, name+"_front", svc)
	return goproc.CreateProcess(spec, name+"_proc", front)
}

type specFunc func(spec wiring.WiringSpec) []string

var specs = map[string]specFunc{}

func main() {
	out := flag.String("out", "", "output directory")
	name := flag.String("spec", "", "wiring spec")
	flag.Parse()
	f := specs[*name]
	if f == nil {
		die("unknown spec %q", *name)
	}
	if err := workflowspec.Add[target.TargetImpl](); err != nil {
		die("%v", err)
	}
	spec := wiring.NewWiringSpec(*name)
	procs := f(spec)
	app, err := spec.BuildIR(procs...)
	if err != nil {
		die("BuildIR: %v", err)
	}
	fmt.Println(app)
	// 'go mod tidy' cannot resolve modules here and its failure is ignored by
	// the compiler; keep it from trying.
	if os.Getenv("GEN_NO_GO") == "" {
		bin := filepath.Join(filepath.Dir(*out), "nogo")
		os.MkdirAll(bin, 0o755)
		if p, err := exec.LookPath("true"); err == nil {
			os.Remove(filepath.Join(bin, "go"))
			os.Symlink(p, filepath.Join(bin, "go"))
			os.Setenv("PATH", bin+":"+os.Getenv("PATH"))
		}
	}
	if err := app.GenerateArtifacts(*out); err != nil {
		die("GenerateArtifacts: %v", err)
	}
}

func die(format string, args ...any) {
	fmt.Fprintln(os.Stderr, "gen: "+strings.TrimSpace(fmt.Sprintf(format, args...)))
	os.Exit(1)
}
