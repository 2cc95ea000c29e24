// C06: a namespace builds each node once, runs its servers, and shuts all of them down.
package main

import (
	"context"
	"errors"
	"flag"
	"fmt"
	"os"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/plugins/golang"
	"verif.local/sim/harness"
	"verif.local/sim/simctx"
	"verif.local/sim/simos"
	"verif.local/sim/simrt"
	"verif.local/sim/simtime"
)

type def struct {
	name   string
	owner  *space
	deps   []string
	kind   int // 0 plain, 1 string, 2 server
	fail   int // number of builds that fail first
	slow   bool
	until  int // server: 0 until told to stop, 1 returns early, 2 fails early
	linger time.Duration

	inBuild, ok, attempts int
	inst                  any
	runs, ended           int
}

type space struct {
	name     string
	parent   *space
	n        *golang.Namespace
	defs     []*def
	byName   map[string]*def
	inst     []string
	args     map[string]string // values of argument nodes, "" when missing
	down     bool              // told to stop, or a node failed
	mayBreak bool              // it is being constructed and that may fail
	ctx      context.Context
}

func (s *space) isDown() bool {
	for ; s != nil; s = s.parent {
		if s.down || s.mayBreak {
			return true
		}
	}
	return false
}

func (s *space) find(name string) *def {
	for ; s != nil; s = s.parent {
		if d := s.byName[name]; d != nil {
			return d
		}
	}
	return nil
}

type plain struct{ d *def }

type server struct {
	d *def
	w *world
}

var errBuild = errors.New("simulated build failure")
var errRun = errors.New("simulated server failure")

func (s *server) Run(ctx context.Context) error {
	d := s.d
	d.runs++
	s.w.h.Check(d.runs == 1, "run-twice", "server %s was run %d times", d.name, d.runs)
	s.w.h.Check(s.w.running[d] == 0, "run-twice", "server %s runs twice", d.name)
	s.w.running[d]++
	defer func() { s.w.running[d]--; d.ended++ }()
	if d.until > 0 {
		t := simtime.NewTimer(time.Duration(1+simrt.Choose("server "+d.name, 80)) * time.Millisecond)
		a, b := simrt.RecvCase[struct{}](ctx.Done()), simrt.RecvCase[time.Time](t.C)
		if simrt.Select(false, a, b) == 1 {
			if d.until == 2 {
				simrt.Fault("server failure")
				d.owner.down = true
				return errRun
			}
			return nil
		}
		t.Stop()
	} else {
		simrt.Recv[struct{}](ctx.Done())
	}
	s.w.h.Check(d.owner.isDown(), "stopped", "server %s was told to stop although nobody shut its namespace down", d.name)
	if d.linger > 0 {
		simtime.Sleep(d.linger)
	}
	return nil
}

type world struct {
	h       *harness.H
	spaces  []*space
	running map[*def]int
	all     []*def
	overlap bool
	taken   map[string]bool // command-line flags in use
}

func (w *world) build(d *def) golang.BuildFunc {
	return func(n *golang.Namespace) (any, error) {
		w.h.Check(d.inBuild == 0, "concurrent-build", "two builds of %s at the same time", d.name)
		w.h.Check(d.ok == 0, "built-twice", "%s was built again", d.name)
		if d.owner.n != nil {
			w.h.Check(n == d.owner.n, "wrong-namespace", "%s was built with another namespace", d.name)
		}
		if d.owner.ctx == nil {
			d.owner.ctx = n.Context()
		}
		d.inBuild++
		defer func() { d.inBuild-- }()
		d.attempts++
		for _, dep := range d.deps {
			var x any
			if err := n.Get(dep, &x); err != nil {
				return nil, err
			}
			w.same(d.owner, dep, x)
		}
		if d.slow {
			simrt.Fault("slow build")
			simtime.Sleep(time.Duration(1+simrt.Choose("build "+d.name, 40)) * time.Millisecond)
		}
		if d.attempts <= d.fail {
			simrt.Fault("build failure")
			return nil, errBuild
		}
		d.ok++
		switch d.kind {
		case 1:
			d.inst = "value of " + d.name
		case 2:
			d.inst = &server{d, w}
		default:
			d.inst = &plain{d}
		}
		return d.inst, nil
	}
}

func (w *world) same(s *space, name string, x any) {
	d := s.find(name)
	w.h.Check(d != nil && d.ok == 1 && x == d.inst, "wrong-instance", "Get(%s) returned %v instead of the instance built for it", name, x)
}

func (w *world) get(s *space, name string) {
	d := s.find(name)
	var x any
	if d != nil && d.inBuild > 0 {
		w.overlap = true
	}
	err := s.n.Get(name, &x)
	if d == nil {
		w.h.Check(err != nil, "unknown", "Get of an undefined node succeeded with %v", x)
		return
	}
	if err != nil {
		w.h.Check(d.ok == 0 || d.attempts > 1 || d.fail > 0 || w.mayFail(s, d), "spurious-error", "Get(%s) failed although its build did not: %v", name, err)
		return
	}
	w.same(s, name, x)
}

// mayFail: a dependency may have failed
func (w *world) mayFail(s *space, d *def) bool {
	if d.fail > 0 {
		return true
	}
	for _, x := range d.deps {
		if e := d.owner.find(x); e != nil && w.mayFail(s, e) {
			return true
		}
	}
	return false
}

func run(h *harness.H) {
	w := &world{h: h, running: map[*def]int{}, taken: map[string]bool{}}
	flag.CommandLine = flag.NewFlagSet("svc", flag.PanicOnError)
	oldArgs := os.Args
	os.Args = []string{"svc"}
	simrt.OnEnd(func() { os.Args = oldArgs })
	pctx, pcancel := simctx.WithCancel(context.Background())
	defer pcancel()

	// shape of the namespaces
	levels := 1 + simrt.Choose("levels", 4)
	faulty := simrt.Chance("faulty", 1, 2)
	var prev *space
	for l := 0; l < levels; l++ {
		width := 1
		if l > 0 {
			width = 1 + simrt.Choose("width", 2)
		}
		for k := 0; k < width; k++ {
			s := &space{name: fmt.Sprintf("ns%d.%d", l, k), parent: prev, byName: map[string]*def{}}
			nd := 1 + simrt.Choose("defs", 3)
			for i := 0; i < nd; i++ {
				name := fmt.Sprintf("n%d_%d", l, i)
				if l > 0 && simrt.Chance("defs", 1, 6) {
					name = fmt.Sprintf("n%d_%d", l-1, i) // shadows the parent's definition
				}
				if s.byName[name] != nil {
					continue
				}
				d := &def{name: name, owner: s, kind: simrt.Choose("defs", 4), slow: simrt.Chance("defs", 1, 3)}
				if d.kind == 3 {
					d.kind = 2
				}
				if faulty && simrt.Chance("defs", 1, 5) {
					d.fail = 1 + simrt.Choose("defs", 2)
				}
				if d.kind == 2 {
					d.until = []int{0, 0, 0, 1, 2}[simrt.Choose("defs", 5)]
					if !faulty && d.until == 2 {
						d.until = 0
					}
					if simrt.Chance("defs", 1, 3) {
						d.linger = time.Duration(simrt.Choose("defs", 50)) * time.Millisecond
					}
				}
				for _, e := range s.defs {
					if simrt.Chance("defs", 1, 3) {
						d.deps = append(d.deps, e.name)
					}
				}
				if s.parent != nil && simrt.Chance("defs", 1, 2) {
					pd := s.parent.defs[simrt.Choose("defs", len(s.parent.defs))]
					if s.byName[pd.name] == nil && pd.name != name {
						d.deps = append(d.deps, pd.name)
					}
				}
				s.defs = append(s.defs, d)
				s.byName[name] = d
				w.all = append(w.all, d)
				if simrt.Chance("defs", 1, 4) {
					s.inst = append(s.inst, name)
				}
			}
			w.spaces = append(w.spaces, s)
			if k == width-1 {
				prev = s
			}
		}
	}
	// a later definition in the same namespace may shadow a name that an earlier one took from the parent:
	// dependencies are resolved by name, so recompute what is legal
	for _, s := range w.spaces {
		for i, d := range s.defs {
			var keep []string
			for _, x := range d.deps {
				if t := s.byName[x]; t != nil {
					for _, e := range s.defs[:i] {
						if e == t {
							keep = append(keep, x)
						}
					}
				} else {
					keep = append(keep, x)
				}
			}
			d.deps = keep
		}
	}

	root := w.spaces[0]
	if !w.construct(h, root, pctx) {
		return
	}
	var ts []*simrt.Task
	ng := 2 + simrt.Choose("getters", 4)
	ready := []*space{root}
	for i := 0; i < ng; i++ {
		st := fmt.Sprint("getter", i)
		ts = append(ts, simrt.GoNamed(st, func() {
			for j := 0; j < 1+simrt.Choose(st, 4); j++ {
				s := ready[simrt.Choose(st, len(ready))]
				t := w.spaces[simrt.Choose(st, len(w.spaces))]
				name := t.defs[simrt.Choose(st, len(t.defs))].name
				if simrt.Chance(st, 1, 12) {
					name = "nothing"
				}
				w.get(s, name)
			}
		}))
	}
	for _, s := range w.spaces[1:] {
		s := s
		if s.parent.n == nil {
			continue
		}
		st := "child " + s.name
		mk := func() {
			if w.construct(h, s, nil) {
				ready = append(ready, s)
				for j := 0; j < 1+simrt.Choose(st, 3); j++ {
					w.get(s, w.spaces[simrt.Choose(st, len(w.spaces))].defs[0].name)
				}
			}
		}
		isParent := false
		for _, t := range w.spaces {
			isParent = isParent || t.parent == s
		}
		if isParent {
			mk() // its children need it
		} else {
			ts = append(ts, simrt.GoNamed(st, mk))
		}
	}

	how := simrt.Choose("stop", 6)
	victim := w.spaces[0]
	stopped := false
	stopper := func() {
		live := map[*def]bool{}
		inSub := func(d *def) bool {
			for s := d.owner; s != nil; s = s.parent {
				if s == victim {
					return true
				}
			}
			return false
		}
		for d := range w.running {
			if w.running[d] > 0 && inSub(d) {
				live[d] = true
			}
		}
		for _, d := range w.all { // built but not yet started counts as well, once its Get returned
			if d.ok == 1 && d.kind == 2 && d.inBuild == 0 && stopped && inSub(d) {
				live[d] = true
			}
		}
		victim.down = true
		switch how {
		case 0, 1:
			victim.n.Shutdown(true)
		case 2:
			victim.n.Shutdown(false)
			h.Check(victim.n.Context().Err() != nil, "shutdown", "the namespace's context is still live after Shutdown")
			victim.n.Await()
		case 3:
			if victim.parent != nil {
				victim.n.Shutdown(true)
				break
			}
			h.Check(simos.Raise(os.Interrupt), "interrupt", "nobody listens for the interrupt signal")
			simrt.Fault("interrupt signal")
			simrt.Recv[struct{}](victim.n.Context().Done())
			victim.n.Await()
		default:
			if victim.parent != nil {
				victim.n.Shutdown(true)
				break
			}
			pcancel()
			simrt.Fault("parent context cancelled")
			h.Check(victim.n.Context().Err() != nil, "shutdown", "the namespace's context outlives the context it was built with")
			victim.n.Await()
		}
		for d := range live {
			if w.running[d] > 0 || d.runs == 0 {
				h.Violate("await", "waiting for the namespace returned while a server of it still runs")
			}
		}
	}
	early := simrt.Chance("stop", 1, 3)
	if early {
		if len(ready) > 1 && simrt.Chance("stop", 1, 2) {
			victim = ready[len(ready)-1]
		}
		ts = append(ts, simrt.GoNamed("stopper", func() {
			simtime.Sleep(time.Duration(simrt.Choose("stop", 60)) * time.Millisecond)
			stopper()
		}))
	}
	if !simrt.WaitAll(3600e9, ts...) {
		h.Violate("stuck", "a namespace operation never returned")
	}
	if !early || victim != root {
		victim = root
		stopped = true
		t := simrt.GoNamed("stopper2", stopper)
		if !simrt.WaitAll(3600e9, t) {
			h.Violate("stuck", "shutting down never completed")
		}
	}
	simrt.Quiesce(3600e9)
	servers := 0
	for _, d := range w.all {
		if d.kind == 2 && d.ok == 1 {
			servers++
			h.Check(d.runs == 1, "not-run", "server %s was built but ran %d times", d.name, d.runs)
			h.Check(w.running[d] == 0, "left-running", "server %s still runs after everything was shut down", d.name)
		}
		if d.kind != 2 {
			h.Check(d.runs == 0, "run", "%s", d.name)
		}
	}
	if w.overlap {
		simrt.Probe("Get during a build")
	}
	if w.overlap || servers > 1 {
		h.NonTrivial()
	}
}

// construct builds one namespace, including its arguments and eager nodes.
func (w *world) construct(h *harness.H, s *space, pctx context.Context) bool {
	st := "args " + s.name
	b := golang.NewNamespaceBuilder(s.name)
	missing, want := "", map[string]string{}
	if s.parent == nil {
		na := simrt.Choose(st, 3)
		for i := 0; i < na; i++ {
			name := fmt.Sprintf("svc%d.grpc.addr", i)
			env := fmt.Sprintf("SVC%d_GRPC_ADDR", i)
			src := simrt.Choose(st, 16)
			optional := simrt.Chance(st, 1, 3)
			if optional {
				b.Optional(name, "an address")
			} else {
				b.Required(name, "an address")
			}
			os.Unsetenv(env)
			if src&1 != 0 {
				os.Setenv(env, "env"+name)
				want[name] = "env" + name
				simrt.OnEnd(func() { os.Unsetenv(env) })
			}
			if src&2 != 0 {
				os.Args = append(os.Args, "-"+name+"=flag"+name)
				want[name] = "flag" + name
			}
			if src&12 == 12 {
				b.Set(name, "set"+name)
				want[name] = "set" + name
			}
			if want[name] == "" {
				if !optional {
					missing = name
				}
				want[name] = ""
			}
		}
	} else if simrt.Chance(st, 1, 3) {
		up := s.parent
		for up.parent != nil && simrt.Chance(st, 1, 2) {
			up = up.parent
		}
		need := up.defs[simrt.Choose(st, len(up.defs))].name
		if simrt.Chance(st, 1, 4) {
			need = "undefined" + s.name
			missing = need
		}
		if !w.taken[need] {
			w.taken[need] = true
			b.Required(need, "from the parent")
		} else {
			missing = ""
		}
	}
	for _, d := range s.defs {
		b.Define(d.name, w.build(d))
	}
	for _, i := range s.inst {
		b.Instantiate(i)
	}
	if s.parent != nil && s.parent.isDown() {
		simrt.Probe("child of a stopped namespace")
	}
	may := missing != ""
	for _, i := range s.inst {
		may = may || w.mayFail(s, s.byName[i])
	}
	s.mayBreak = may
	var n *golang.Namespace
	var err error
	if s.parent == nil {
		n, err = b.Build(pctx)
	} else {
		n, err = b.BuildWithParent(s.parent.n)
	}
	if err != nil {
		h.Check(may, "spurious-error", "the namespace could not be built: %v", err)
		h.Check(n == nil, "half-built", "a namespace was returned with an error")
		if missing != "" {
			for _, d := range s.defs {
				h.Check(d.attempts == 0, "eager", "%s was built although a required argument is missing", d.name)
			}
		} else {
			// whatever was started has to be told to stop
			simrt.Probe("namespace construction failed")
			s.down = true
			if s.parent == nil {
				simrt.Quiesce(3600e9)
				for _, d := range s.defs {
					h.Check(w.running[d] == 0, "left-running", "server %s keeps running although its namespace could not be built", d.name)
				}
			} else {
				for _, d := range s.defs {
					if d.ok == 1 && d.kind == 2 {
						h.Check(s.ctx.Err() != nil, "left-running", "the context of a namespace that could not be built was not cancelled")
					}
				}
			}
			h.NonTrivial()
		}
		return false
	}
	h.Check(missing == "", "missing-arg", "the namespace was built without its required argument %s", missing)
	s.n, s.mayBreak = n, false
	for _, i := range s.inst {
		h.Check(s.byName[i].ok == 1, "eager", "%s should have been built with the namespace", i)
	}
	for i := 0; i < 3; i++ {
		name := fmt.Sprintf("svc%d.grpc.addr", i)
		v, there := want[name]
		if !there {
			continue
		}
		var got string
		err := n.Get(name, &got)
		if v == "" {
			h.Check(err != nil, "missing-arg", "Get of an argument that was not given succeeded: %q", got)
		} else {
			h.Check(err == nil && got == v, "argument", "argument %s is %q (%v), not %q", name, got, err, v)
		}
	}
	return true
}

func main() {
	harness.Main(harness.Prop{
		ID:          "C06",
		Rule:        "A random tree of up to four levels of namespaces with interdependent nodes and servers is built; several tasks get nodes concurrently while builds are slow or fail and servers exit or fail; then (or meanwhile) a namespace is stopped by Shutdown, an interrupt, or its parent context. Non-trivial means a Get overlapped a build, at least two servers ran, or construction failed.",
		Assumptions: []string{"waiting covers the servers whose Get had returned or that were already running when the wait began"},
		Real:        []string{"runtime/plugins/golang", "runtime/core/backend"},
		Stub:        []string{"signals, sync, context (simulated)", "node build functions and servers"},
		Scenarios:   []harness.Scenario{{Name: "tree", Run: run, StepLimit: 200_000}},
		MustProbe:   []string{"Get during a build", "namespace construction failed"},
		QuickSec:    35, ThoroughSec: 600,
	})
}
