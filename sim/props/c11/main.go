// C11: modifiers compose.
package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"verif.local/app/target"
	"verif.local/sim/harness"
	"verif.local/sim/plan"
	"verif.local/sim/simctx"
	"verif.local/sim/simhttp"
	"verif.local/sim/simrt"
	"verif.local/sim/simsync"
	"verif.local/sim/simtime"
	"verif.local/sim/wrapkit"
)

const ms = time.Millisecond

var all = plan.Plan(1)

// outcome is what the n-th attempt of a call does.
type outcome struct {
	dur   time.Duration
	fail  bool
	watch bool // returns as soon as its context ends
}

var errService = errors.New("service error")

// wait sleeps, or returns false as soon as the context ends.
func wait(ctx context.Context, d time.Duration) bool {
	t := simtime.NewTimer(d)
	defer t.Stop()
	return simrt.Select(false, simrt.RecvCase(t.C), simrt.RecvCase(ctx.Done())) == 0
}

// perform behaves as the outcome says.
func (o outcome) perform(ctx context.Context, extra time.Duration) error {
	d := o.dur + extra
	switch {
	case d <= 0:
	case o.watch:
		if !wait(ctx, d) {
			return ctx.Err()
		}
	default:
		simtime.Sleep(d)
	}
	if o.fail {
		return errService
	}
	return nil
}

// rec is one attempt as the model or the real code made it.
type rec struct {
	inst       string
	start, end int64
	ok         bool
}

// fn is a call: it returns the ordinal of the attempt whose results are delivered.
type fn func(ctx context.Context) (int, error)

// model interprets a process of the plan.
type model struct {
	lb     map[string]int // next replica
	extra  time.Duration  // added to every delay
	popErr bool           // which of two possible outcomes a pool takes when its caller has given up
	outs   []outcome
	recs   []*rec
	t0     int64
}

func (m *model) leaf(inst string) fn {
	return func(ctx context.Context) (int, error) {
		r := &rec{inst: inst, start: simrt.Now() - m.t0}
		m.recs = append(m.recs, r)
		n := len(m.recs)
		err := at(m.outs, n).perform(ctx, m.extra)
		r.end, r.ok = simrt.Now()-m.t0, err == nil
		return n, err
	}
}

func at(outs []outcome, n int) outcome {
	if n > len(outs) {
		return outcome{}
	}
	return outs[n-1]
}

func (m *model) wrap(k plan.Mod, f fn) fn {
	d := time.Duration(k.D)*ms + m.extra
	switch k.Kind {
	case "retry", "fixed":
		return func(ctx context.Context) (n int, err error) {
			for i := 0; i == 0 || i < k.N; i++ {
				if n, err = f(ctx); err == nil {
					return
				}
				if k.Kind == "fixed" {
					simtime.Sleep(d)
				}
			}
			return
		}
	case "backoff":
		return func(ctx context.Context) (int, error) {
			for delay := k.D; ; delay = min(2*delay, k.D2) {
				n, err := f(ctx)
				if err == nil || delay >= k.D2 {
					return n, err
				}
				if !wait(ctx, time.Duration(delay)*ms+m.extra) {
					return 0, ctx.Err()
				}
			}
		}
	case "timeout":
		return func(ctx context.Context) (int, error) {
			ctx, cancel := simctx.WithTimeout(ctx, time.Duration(k.D)*ms)
			defer cancel()
			return await(ctx, func() (int, error) { return f(ctx) })
		}
	case "pool":
		free := make(chan struct{}, k.N)
		for i := 0; i < k.N; i++ {
			simrt.Send(free, struct{}{})
		}
		return func(ctx context.Context) (int, error) {
			if ctx.Err() != nil && m.popErr {
				return 0, ctx.Err()
			}
			if simrt.Select(true, simrt.RecvCase(free)) != 0 && simrt.Select(false, simrt.RecvCase(free), simrt.RecvCase(ctx.Done())) == 1 {
				return 0, ctx.Err()
			}
			defer simrt.Send(free, struct{}{})
			return f(ctx)
		}
	case "latency":
		return func(ctx context.Context) (int, error) {
			simtime.Sleep(d)
			return f(ctx)
		}
	case "prob":
		if k.N == 100 {
			return func(ctx context.Context) (int, error) { return 0, errors.New("injected") }
		}
	}
	return f
}

// await runs f, but returns when the context ends.
func await(ctx context.Context, f func() (int, error)) (int, error) {
	if ctx.Err() != nil {
		simrt.GoNamed("model call", func() { f() })
		return 0, ctx.Err()
	}
	var n int
	var err error
	done := make(chan struct{})
	simrt.GoNamed("model call", func() {
		a, b := f()
		n, err = a, b
		simrt.Close(done)
	})
	if simrt.Select(false, simrt.RecvCase(done), simrt.RecvCase(ctx.Done())) == 1 {
		return 0, ctx.Err()
	}
	return n, err
}

// client builds the client of a service.
func (m *model) client(p *plan.Proc, name string) fn {
	for _, s := range p.Services {
		if s.Name != name {
			continue
		}
		var f fn
		if s.Replicas != nil {
			var rs []fn
			for _, r := range s.Replicas {
				rs = append(rs, m.client(p, r))
			}
			f = func(ctx context.Context) (int, error) {
				i := m.lb[s.Name]
				m.lb[s.Name] = (i + 1) % len(rs)
				return rs[i](ctx)
			}
		} else {
			f = m.leaf("inst_" + s.Name)
		}
		for _, k := range s.Mods {
			if !k.Client() {
				f = m.wrap(k, f)
			}
		}
		if s.HTTP {
			g := f
			f = func(ctx context.Context) (int, error) {
				if ctx.Err() != nil {
					return 0, ctx.Err()
				}
				return await(ctx, func() (int, error) { return g(context.Background()) })
			}
		}
		for i := len(s.Mods) - 1; i >= 0; i-- {
			if s.Mods[i].Client() {
				f = m.wrap(s.Mods[i], f)
			}
		}
		return f
	}
	panic(name)
}

func service(p *plan.Proc, name string) plan.Service {
	for _, s := range p.Services {
		if s.Name == name {
			return s
		}
	}
	panic(name)
}

// describe names a service and what wraps it.
func describe(p *plan.Proc, name string) string {
	s := service(p, name)
	out := fmt.Sprintf("%s%v", name, s.Mods)
	if s.HTTP {
		out += "+http"
	}
	var rs []string
	for _, r := range s.Replicas {
		rs = append(rs, describe(p, r))
	}
	if rs != nil {
		out += "(" + strings.Join(rs, ", ") + ")"
	}
	return out
}

// world builds the processes of one plan entry and returns a client per front end.
func world(h *harness.H, k *wrapkit.Kit, p *plan.Proc) (clients []wrapkit.API) {
	simhttp.SetFaults(simhttp.Faults{Latency: 10e3})
	i := 0
	fmt.Sscanf(p.Name, "c%d", &i)
	made := map[string]int{}
	target.Made = func(n string) {
		made[n]++
		h.Check(made[n] == 1, "built-twice", "%s was constructed %d times", n, made[n])
	}
	bind, dial := map[string]string{}, map[string]string{}
	for n, s := range p.Services {
		if s.HTTP {
			a := fmt.Sprintf("host:%d", 2000+n)
			bind[s.Name+".http.bind_addr"], dial[s.Name+".http.dial_addr"] = a, a
		}
	}
	d := wrapkit.Proc(h, procs[i][1](fmt.Sprintf("d%d_proc", i)), fmt.Sprintf("d%d_proc", i), context.Background(), bind)
	wrapkit.FreshFlags()
	for _, a := range bind {
		for n := 0; n < 100 && !simhttp.Listening(a); n++ {
			simtime.Sleep(ms)
		}
	}
	c := wrapkit.Proc(h, procs[i][0](p.Name+"_proc"), p.Name+"_proc", context.Background(), dial)
	for n := range p.Fronts {
		clients = append(clients, wrapkit.FrontOf(h, c, fmt.Sprintf("%s_front%d", p.Name, n)))
	}
	var want []string
	for _, s := range p.Services {
		if s.Replicas == nil && s.HTTP {
			want = append(want, "inst_"+s.Name)
		}
	}
	for _, f := range p.Fronts {
		for _, r := range append(service(p, f).Replicas, f) {
			if s := service(p, r); s.Replicas == nil && !s.HTTP {
				want = append(want, "inst_"+r)
			}
		}
	}
	for _, w := range want {
		h.Check(made[w] == 1, "not-built", "%s was constructed %d times although a front end uses it", w, made[w])
	}
	simrt.OnEnd(func() {
		c.Shutdown(false)
		d.Shutdown(false)
	})
	return
}

func tolerance(a, b int64) bool { d := a - b; return d < 1500e3 && d > -1500e3 }

func sequential(h *harness.H) {
	k := wrapkit.New(h)
	p := &all[simrt.Choose("proc", len(all))]
	clients := world(h, k, p)
	var outs []outcome
	k.Behave = func(c *wrapkit.Call, a *wrapkit.Attempt) ([]any, error) {
		if err := at(outs, a.N).perform(a.Ctx, 0); err != nil {
			return nil, err
		}
		r := wrapkit.Rets("rets", c.Method)
		if c.Method == "Do" {
			r[0] = fmt.Sprintf("call %d attempt %d", c.ID, a.N)
		}
		return r, nil
	}
	variants := []*model{{}, {popErr: true}, {extra: 2 * ms}, {extra: -2 * ms, popErr: true}}
	var fs [][]fn
	for _, m := range variants {
		m.lb = map[string]int{}
		var row []fn
		for _, f := range p.Fronts {
			row = append(row, m.client(p, f))
		}
		fs = append(fs, row)
	}
	for n := 2 + simrt.Choose("calls", 5); n > 0; n-- {
		fi := simrt.Choose("front", len(clients))
		outs = nil
		failing := []int{0, 30, 60, 90}[simrt.Choose("failpct", 4)]
		for j := simrt.Choose("outcomes", 14); j > 0; j-- {
			o := outcome{fail: simrt.Choose("fail", 100) < failing, watch: simrt.Chance("watch", 1, 3)}
			if simrt.Chance("slow", 1, 2) {
				simrt.Fault("slow service")
				o.dur = time.Duration([]int{7, 13, 29, 45, 90, 151, 250, 405, 800}[simrt.Choose("dur", 9)]) * ms
			}
			if o.fail {
				simrt.Fault("service error")
			}
			outs = append(outs, o)
		}
		t0 := simrt.Now()
		c := k.Prepare(context.Background(), "args", "Do", "Put", "List", "Get")
		k.Make(c, clients[fi])
		simrt.Quiesce(3600e9)
		h.Check(c.Running() == 0, "stuck", "an attempt of call %d has not returned", c.ID)
		type result struct {
			recs []*rec
			n    int
			err  error
			end  int64
		}
		var rs []result
		for v, m := range variants {
			m.outs, m.recs, m.t0 = outs, nil, simrt.Now()
			var r result
			t := simrt.GoNamed("model", func() {
				r.n, r.err = fs[v][fi](context.Background())
				r.end = simrt.Now() - m.t0
			})
			if !simrt.WaitAll(3600e9, t) {
				h.Violate("internal", "the model does not return")
			}
			simrt.Quiesce(3600e9)
			r.recs = m.recs
			rs = append(rs, r)
		}
		// where small differences in time change the outcome, the model cannot tell
		for _, r := range rs[1:] {
			same := len(r.recs) == len(rs[0].recs) && (r.err == nil) == (rs[0].err == nil) && r.n == rs[0].n
			for i := 0; same && i < len(r.recs); i++ {
				same = r.recs[i].inst == rs[0].recs[i].inst && r.recs[i].ok == rs[0].recs[i].ok
			}
			if !same {
				simrt.Probe("ambiguous timing")
				return
			}
		}
		if len(rs[0].recs) > 1 {
			h.NonTrivial()
		}
		what := fmt.Sprintf("%s call %d to %s with outcomes %v", c.Method, c.ID, describe(p, p.Fronts[fi]), outs)
		show := func(recs []*rec) (out string) {
			for _, r := range recs {
				out += fmt.Sprintf(" %s@%v-%v(ok=%v)", r.inst, time.Duration(r.start), time.Duration(r.end), r.ok)
			}
			return
		}
		var real []*rec
		for _, a := range c.Attempts {
			real = append(real, &rec{a.Inst, a.Start - t0, a.End - t0, a.Err == nil})
		}
		w := rs[0]
		h.Check(len(real) == len(w.recs), "attempts", "%s made %d attempts instead of %d:%s instead of%s", what, len(real), len(w.recs), show(real), show(w.recs))
		for i, r := range real {
			x := w.recs[i]
			h.Check(r.inst == x.inst, "instance", "%s: attempt %d went to %s instead of %s:%s instead of%s", what, i+1, r.inst, x.inst, show(real), show(w.recs))
			h.Check(tolerance(r.start, x.start) && tolerance(r.end, x.end) && r.ok == x.ok, "timing", "%s: attempt %d differs:%s instead of%s", what, i+1, show(real), show(w.recs))
		}
		h.Check((c.Err == nil) == (w.err == nil), "outcome", "%s returned error %v instead of %v", what, c.Err, w.err)
		h.Check(tolerance(c.End-t0, w.end), "duration", "%s took %v instead of %v", what, time.Duration(c.End-t0), time.Duration(w.end))
		if c.Err == nil {
			h.Check(wrapkit.SameResults(c, c.Attempts[w.n-1]), "results", "%s returned %#v instead of %#v", what, c.Rets, c.Attempts[w.n-1].Rets)
		}
	}
}

// limits returns what holds for any call to a service: the instances it may
// reach, the most attempts, the least latency, and whether contexts never end.
func limits(p *plan.Proc, name string) (insts map[string]bool, most int, delay time.Duration, endless bool) {
	s := service(p, name)
	insts, most, endless = map[string]bool{}, 1, true
	if s.Replicas == nil {
		insts["inst_"+name] = true
	}
	for i, r := range s.Replicas {
		in, m, d, e := limits(p, r)
		for x := range in {
			insts[x] = true
		}
		most, endless = max(most, m), endless && e
		if i == 0 || d < delay {
			delay = d
		}
	}
	for _, k := range s.Mods {
		switch k.Kind {
		case "retry", "fixed":
			most *= max(1, k.N)
		case "backoff":
			n := 1
			for d := k.D; d < k.D2; d *= 2 {
				n++
			}
			most *= n
		case "timeout":
			endless = false
		case "latency":
			delay += time.Duration(k.D) * ms
		case "prob":
			if k.N == 100 {
				most = 0
			}
		}
	}
	return
}

func concurrent(h *harness.H) {
	k := wrapkit.New(h)
	p := &all[simrt.Choose("proc", len(all))]
	clients := world(h, k, p)
	failing := []int{0, 30, 80}[simrt.Choose("failpct", 3)]
	running := map[string]int{}
	bound := map[string]int{} // calls at a time, where a pool limits them
	for _, s := range p.Services {
		for _, m := range s.Mods {
			if m.Kind == "pool" {
				bound["inst_"+s.Name] = m.N
			}
		}
	}
	for _, s := range p.Services {
		if _, _, _, e := limits(p, s.Name); !e {
			for _, r := range append(s.Replicas, s.Name) {
				delete(bound, "inst_"+r) // abandoned calls go on
			}
		}
	}
	type tag struct {
		front string
		insts map[string]bool
		most  int
		delay time.Duration
		ended bool
	}
	var mu simsync.Mutex
	k.Behave = func(c *wrapkit.Call, a *wrapkit.Attempt) ([]any, error) {
		t := c.Tag.(tag)
		h.Check(t.insts[a.Inst], "instance", "call %d to %s reached %s", c.ID, describe(p, t.front), a.Inst)
		h.Check(a.N <= t.most, "attempts", "call %d to %s made %d attempts; at most %d are possible", c.ID, describe(p, t.front), a.N, t.most)
		h.Check(simrt.Now()-c.Start >= int64(t.delay), "latency", "call %d to %s reached %s after %v; the injected latency is %v", c.ID, describe(p, t.front), a.Inst, time.Duration(simrt.Now()-c.Start), t.delay)
		mu.Lock()
		running[a.Inst]++
		n := running[a.Inst]
		mu.Unlock()
		if b := bound[a.Inst]; b > 0 {
			h.Check(n <= b, "pool", "%d calls run at a time on %s; %s allows %d", n, a.Inst, describe(p, t.front), b)
			if n == b {
				simrt.Probe("pool full")
			}
		}
		st := fmt.Sprint("behave", c.ID)
		o := outcome{fail: simrt.Choose(st, 100) < failing, watch: simrt.Chance(st, 1, 3)}
		if simrt.Chance(st, 1, 2) {
			simrt.Fault("slow service")
			o.dur = time.Duration(1+simrt.Choose(st, 300)) * ms
		}
		if o.fail {
			simrt.Fault("service error")
		}
		err := o.perform(a.Ctx, 0)
		mu.Lock()
		running[a.Inst]--
		mu.Unlock()
		if err != nil {
			return nil, err
		}
		r := wrapkit.Rets(st, c.Method)
		if c.Method == "Do" {
			r[0] = fmt.Sprintf("call %d attempt %d", c.ID, a.N)
		}
		return r, nil
	}
	n := 2 + simrt.Choose("callers", 6)
	rounds := 1 + simrt.Choose("rounds", 3)
	var ts []*simrt.Task
	for i := 0; i < n; i++ {
		st := fmt.Sprint("caller", i)
		ts = append(ts, simrt.GoNamed(st, func() {
			for j := 0; j < rounds; j++ {
				fi := simrt.Choose(st, len(clients))
				c := k.Prepare(context.Background(), st, "Do", "Put", "List", "Get")
				t := tag{front: p.Fronts[fi]}
				t.insts, t.most, t.delay, _ = limits(p, t.front)
				c.Tag = t
				k.Make(c, clients[fi])
				if c.Err == nil {
					var as []*wrapkit.Attempt
					for _, a := range c.Attempts {
						if a.SeqEnd != 0 && a.Err == nil && wrapkit.SameResults(c, a) {
							as = append(as, a)
						}
					}
					h.Check(len(as) > 0, "results", "%s call %d to %s returned %#v, which no attempt returned", c.Method, c.ID, describe(p, t.front), c.Rets)
				}
				if simrt.Chance(st, 1, 3) {
					simtime.Sleep(time.Duration(simrt.Choose(st, 100)) * ms)
				}
			}
		}))
	}
	h.NonTrivial()
	if !simrt.WaitAll(36000e9, ts...) {
		h.Violate("stuck", "a call never returned; %s", simrt.Blocked())
	}
	simrt.Quiesce(36000e9)
	// balanced: each balancer has spread its calls evenly
	for _, s := range p.Services {
		only := s.Replicas != nil
		for _, r := range s.Replicas {
			if sr := service(p, r); len(sr.Mods) > 0 {
				only = false
			}
		}
		if !only {
			continue
		}
		count := map[string]int{}
		for _, c := range k.Calls {
			for _, a := range c.Attempts {
				count[a.Inst]++
			}
		}
		var cs []int
		for _, r := range s.Replicas {
			cs = append(cs, count["inst_"+r])
		}
		sort.Ints(cs)
		h.Check(cs[len(cs)-1]-cs[0] <= 1, "unbalanced", "%s spread its calls unevenly: %v", describe(p, s.Name), cs)
		simrt.Probe("balance")
	}
}

func main() {
	exact := func(c *simrt.Config) { c.StallPct, c.JumpPct, c.TickNs = 0, 0, 10 }
	harness.Main(harness.Prop{
		ID:   "C11",
		Rule: "Wiring specs are drawn: processes with up to three services and load balancers over up to three replicas, each service wrapped in drawn stacks of retry, backoff, timeout, client pool, latency, fault and health modifiers in a drawn order, half of them deployed over HTTP in a second process. The real compiler generates all of them. One caller at a time, every call's attempts, instances, times and results are compared with those of hand-written modifiers stacked in the order of the spec; calls whose outcome depends on differences of 2 ms are left out. Concurrent callers are checked for isolation between services, bounds and authentic results. Non-trivial means that a call made several attempts, or concurrent callers.",
		Real: []string{"plugins/retries, timeouts, clientpool, latency, faultinjector, healthchecker, loadbalancer, http (code generation and generated code)", "plugins/workflow, goproc, golang, blueprint/pkg (real compilation before the runs)", "runtime/plugins/golang, runtime/plugins/clientpool"},
		Stub: []string{"net/http Client, Transport and Server (simulated, without faults)", "github.com/gorilla/mux", "time, context, goroutines (simulated)", "the called services"},
		Scenarios: []harness.Scenario{
			{Name: "sequential", Run: sequential, StepLimit: 400_000, Tune: exact},
			{Name: "concurrent", Run: concurrent, StepLimit: 400_000, Tune: exact},
		},
		MustProbe: []string{"pool full"},
		QuickSec:  25, ThoroughSec: 600,
	})
}
