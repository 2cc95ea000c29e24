// Package simrt is a deterministic, seeded, single-process simulator for Go code.
//
// Every simulated task is a real goroutine, but exactly one of them holds the
// "token" and runs at any instant.  The token moves only inside functions of
// this package (yield points and blocking operations), and who receives it is
// decided by a decision source that is either a seeded PRNG or a replay file.
// The clock is simulated: it moves when nothing is runnable, when a decision
// says so, and by a per-run amount per step.
package simrt

import (
	"container/heap"
	"fmt"
	"hash/fnv"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
)

// ---------------------------------------------------------------- tasks

type taskState uint8

const (
	stRunnable taskState = iota
	stRunning
	stBlocked
	stStalled
	stDone
)

// Task is a simulated thread of execution.
type Task struct {
	ID     int
	Path   string // stable hierarchical name: parent path + child index
	Name   string
	hash   uint64
	wake   chan struct{}
	state  taskState
	killed bool
	nchild int
	step   int64
	nextEv int64
	prio   int64
	Reason string // why it is blocked
	site   uint32
	Daemon bool
	Local  map[any]any // harness-owned task-local data
	waitOK bool        // result passing for wait queues
	selIdx int         // select result
	selWin *waiter
}

type timer struct {
	at    int64
	seq   uint64
	f     func()
	index int
	dead  bool
	kind  string
}

type timerHeap []*timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i]; h[i].index = i; h[j].index = j }
func (h *timerHeap) Push(x interface{}) { t := x.(*timer); t.index = len(*h); *h = append(*h, t) }
func (h *timerHeap) Pop() interface{} {
	old := *h
	n := len(old)
	t := old[n-1]
	*h = old[:n-1]
	t.index = -1
	return t
}

// Outcome of a run.
type Outcome struct {
	Kind    string // "ok", "deadlock", "panic", "steplimit", "fail"
	Msg     string
	Stack   string
	Blocked []string
}

// Config holds the per-run scheduling knobs; all are drawn from the seed by NewConfig.
type Config struct {
	Strategy  int   // 0 sequential (default order), 1 random walk, 2 PCT
	GapMean   int64 // mean number of yields between preemptions (strategy 1) / length scale (2)
	PCTDepth  int
	StallPct  int   // percentage of preemption points that stall the task instead
	JumpPct   int   // percentage of preemption points that jump the clock
	TickNs    int64 // simulated nanoseconds per yield
	StepLimit int64
	StallMax  int64 // upper bound on a stall, ns
}

type Sim struct {
	cfg         Config
	dec         *Decisions
	now         int64
	steps       int64
	tasks       []*Task
	byPath      map[string]*Task
	runq        []*Task
	timers      timerHeap
	tseq        uint64
	root        *Task
	done        chan struct{}
	ended       bool
	out         Outcome
	chans       map[uintptr]*chanState
	inter       uint64 // hash of the interleaving
	nsw         int64
	npre        int64
	nstall      int64
	njump       int64
	gap         int64
	changeAt    []int64
	nopre       int
	noTick      bool
	seq         int64
	log         []string
	logH        uint64
	keepLog     bool
	faults      map[string]int64
	probes      map[string]int64
	maps        map[uintptr]*mapState
	exitCh      chan struct{}
	cleanup     []func()
	startNs     int64
	idleWaiters []*idleWaiter
	mapName     map[uintptr]int
	keep        []any
	switchLog   []string
}

var active *Sim
var cur *Task
var running int32
var gen int64

// Gen numbers the runs of this process (0 outside any run).
func Gen() int64 {
	if active == nil {
		return 0
	}
	return gen
}

// Active reports whether the caller runs inside a simulation.
func Active() bool { return active != nil }

// Epoch is the simulated wall-clock time at which runs start (2024-03-01T12:00:00Z).
const Epoch = int64(1709294400) * 1e9

// Run executes root as the first task of a fresh simulation and returns when it is over.
func Run(cfg Config, dec *Decisions, keepLog bool, root func()) (*Sim, Outcome) {
	if !atomic.CompareAndSwapInt32(&running, 0, 1) {
		panic("simrt: nested Run")
	}
	defer atomic.StoreInt32(&running, 0)
	s := &Sim{cfg: cfg, dec: dec, now: Epoch, done: make(chan struct{}, 1), exitCh: make(chan struct{}, 1),
		chans: map[uintptr]*chanState{}, byPath: map[string]*Task{}, faults: map[string]int64{}, probes: map[string]int64{},
		maps: map[uintptr]*mapState{}, keepLog: keepLog, startNs: Epoch}
	if s.cfg.StepLimit == 0 {
		s.cfg.StepLimit = 2_000_000
	}
	s.inter = 14695981039346656037
	s.logH = 14695981039346656037
	s.gap = s.nextGap()
	s.root = s.newTask(nil, "root")
	gen++
	active = s
	s.initPCT()
	s.spawn(s.root, root)
	s.root.state = stRunning
	cur = s.root
	s.arm(cur)
	s.root.wake <- struct{}{}
	<-s.done
	// The run is over: unwind every remaining task, one at a time.
	blocked := []string{}
	for _, t := range s.tasks {
		if t.state != stDone && t != s.root {
			blocked = append(blocked, fmt.Sprintf("%s(%s): %s", t.Path, t.Name, t.Reason))
		}
	}
	if s.out.Kind == "deadlock" && s.root.state != stDone {
		blocked = append([]string{fmt.Sprintf("root: %s", s.root.Reason)}, blocked...)
	}
	s.out.Blocked = blocked
	for i := 0; i < len(s.tasks); i++ {
		t := s.tasks[i]
		if t.state == stDone {
			continue
		}
		t.killed = true
		cur = t
		t.wake <- struct{}{}
		<-s.exitCh
	}
	for i := len(s.cleanup) - 1; i >= 0; i-- {
		s.cleanup[i]()
	}
	active = nil
	cur = nil
	return s, s.out
}

// OnEnd registers a function that runs after all tasks of the run are gone.
func OnEnd(f func()) { active.cleanup = append(active.cleanup, f) }

func hash64(str string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(str))
	return h.Sum64()
}

func (s *Sim) newTask(parent *Task, name string) *Task {
	t := &Task{ID: len(s.tasks), Name: name, wake: make(chan struct{}, 1), nextEv: -1}
	if parent == nil {
		t.Path = "0"
	} else {
		t.Path = fmt.Sprintf("%s.%d", parent.Path, parent.nchild)
		parent.nchild++
	}
	t.hash = hash64(t.Path)
	s.tasks = append(s.tasks, t)
	s.byPath[t.Path] = t
	s.pctNew(t)
	return t
}

func (s *Sim) spawn(t *Task, f func()) {
	go func() {
		defer func() {
			r := recover()
			if s != active {
				return
			}
			if r != nil && !t.killed {
				s.out0("panic", fmt.Sprint(r), trimStack(string(debug.Stack())))
				s.finishTask(t, true)
				return
			}
			s.finishTask(t, false)
		}()
		<-t.wake
		if t.killed {
			return
		}
		f()
	}()
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	// keep the part after the panic call
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") && i+2 < len(lines) {
			lines = lines[i+2:]
			break
		}
	}
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

func (s *Sim) out0(kind, msg, stack string) {
	if s.ended {
		return
	}
	s.ended = true
	s.out = Outcome{Kind: kind, Msg: msg, Stack: stack}
}

// finishTask is called by a task goroutine that is about to exit.
func (s *Sim) finishTask(t *Task, crashed bool) {
	t.state = stDone
	if t.killed {
		s.exitCh <- struct{}{}
		return
	}
	if s.ended {
		s.done <- struct{}{}
		return
	}
	if t == s.root {
		s.out0("ok", "", "")
		s.done <- struct{}{}
		return
	}
	n := s.pickForced(t)
	if n == nil {
		s.done <- struct{}{}
		return
	}
	s.handTo(n)
}

func (s *Sim) handTo(n *Task) {
	n.state = stRunning
	n.Reason = ""
	cur = n
	s.arm(n)
	s.nsw++
	s.inter = (s.inter ^ (n.hash + uint64(n.site)*0x9E3779B97F4A7C15)) * 1099511628211
	n.wake <- struct{}{}
}

// endRun terminates the simulation from inside a task.
func (s *Sim) endRun(t *Task) {
	s.done <- struct{}{}
	<-t.wake // killed by the driver
	runtime.Goexit()
}

// Fail ends the run with a property violation.
func Fail(format string, args ...any) {
	s := active
	s.out0("fail", fmt.Sprintf(format, args...), "")
	if cur.killed {
		return
	}
	s.endRun(cur)
}

// Ended reports whether the run is being torn down (deferred functions of killed tasks run then).
func Ended() bool { return active == nil || active.ended }

// ---------------------------------------------------------------- scheduling

// Y is a preemption point; instr inserts one before every statement.
func Y(site uint32) {
	t := cur
	if t == nil {
		return
	}
	s := active
	t.site = site
	t.step++
	s.steps++
	if !s.noTick {
		s.now += s.cfg.TickNs
	}
	if t.step != t.nextEv && s.steps < s.cfg.StepLimit {
		return
	}
	s.slowYield(t)
}

// Yield is a preemption point for harness and stub code.
func Yield() { Y(1) }

func (s *Sim) slowYield(t *Task) {
	if t.killed || s.ended {
		return
	}
	if s.steps >= s.cfg.StepLimit {
		s.out0("steplimit", fmt.Sprintf("run exceeded %d steps", s.steps), trimStack(string(debug.Stack())))
		s.endRun(t)
	}
	if s.nopre > 0 {
		t.nextEv = t.step + 1
		return
	}
	s.fireDue()
	d := s.decideYield(t)
	switch d.Kind {
	case 's':
		n := s.byPath[d.To]
		if n != nil && n.state == stRunnable {
			s.npre++
			s.remove(n)
			s.record(t, d)
			s.push(t)
			s.note("preempt %s(%s) step %d -> %s(%s)", t.Path, t.Name, t.step, n.Path, n.Name)
			s.handTo(n)
			s.park(t)
			return
		}
	case 'z':
		s.nstall++
		s.record(t, d)
		t.state = stStalled
		t.Reason = "stalled"
		s.addTimer(s.now+d.Arg, "stall", func() { s.push(t) })
		s.note("stall %s(%s) step %d for %dns", t.Path, t.Name, t.step, d.Arg)
		s.switchAway(t)
		return
	case 'j':
		if len(s.timers) > 0 {
			s.njump++
			s.record(t, d)
			s.note("clock jump at %s(%s) step %d", t.Path, t.Name, t.step)
			s.advance()
		}
	}
	s.arm(t)
}

func (s *Sim) remove(n *Task) {
	for i, x := range s.runq {
		if x == n {
			s.runq = append(s.runq[:i], s.runq[i+1:]...)
			return
		}
	}
}

func (s *Sim) push(t *Task) {
	if t.state == stDone || t.state == stRunnable {
		return
	}
	t.state = stRunnable
	s.runq = append(s.runq, t)
	if s.cfg.Strategy == 2 && cur != nil && cur != t && s.dec.replay == nil && t.prio > cur.prio {
		cur.nextEv = cur.step + 1
	}
}

// park waits until the token comes back.
func (s *Sim) park(t *Task) {
	<-t.wake
	if t.killed {
		runtime.Goexit()
	}
}

// pickForced chooses the next task when t cannot continue; nil ends the run.
func (s *Sim) pickForced(t *Task) *Task {
	s.fireDue()
	for len(s.runq) == 0 {
		if len(s.timers) == 0 {
			if s.wakeIdle() {
				continue
			}
			s.out0("deadlock", "no task can make progress", "")
			return nil
		}
		if s.wakeIdleBefore(s.timers[0].at) {
			continue
		}
		s.advance()
	}
	t.step++
	s.steps++
	if s.steps >= s.cfg.StepLimit {
		s.out0("steplimit", fmt.Sprintf("run exceeded %d steps", s.steps), "")
		return nil
	}
	n := s.decideForced(t)
	s.remove(n)
	return n
}

// switchAway gives up the token; t has been put in a non-running state.
func (s *Sim) switchAway(t *Task) {
	if t.killed {
		runtime.Goexit()
	}
	n := s.pickForced(t)
	if n == nil {
		s.endRun(t)
	}
	if n == t {
		n.state = stRunning
		n.Reason = ""
		s.arm(n)
		return
	}
	s.handTo(n)
	s.park(t)
}

// block parks the current task until ready(t).
func (s *Sim) block(reason string) {
	t := cur
	if t.killed {
		runtime.Goexit()
	}
	t.state = stBlocked
	t.Reason = reason
	s.switchAway(t)
}

func (s *Sim) ready(t *Task) {
	if t.state == stBlocked {
		s.push(t)
	}
}

// ---------------------------------------------------------------- time

func (s *Sim) addTimer(at int64, kind string, f func()) *timer {
	s.tseq++
	tm := &timer{at: at, seq: s.tseq, f: f, kind: kind}
	heap.Push(&s.timers, tm)
	return tm
}

func (s *Sim) delTimer(tm *timer) bool {
	if tm == nil || tm.index < 0 || tm.dead {
		return false
	}
	heap.Remove(&s.timers, tm.index)
	tm.dead = true
	return true
}

// advance jumps the clock to the next timer and fires everything due then.
func (s *Sim) advance() {
	if s.timers[0].at > s.now {
		s.now = s.timers[0].at
	}
	s.fireDue()
}

func (s *Sim) fireDue() {
	for len(s.timers) > 0 && s.timers[0].at <= s.now {
		tm := heap.Pop(&s.timers).(*timer)
		tm.dead = true
		tm.f()
	}
}

// Now returns simulated nanoseconds since the Unix epoch.
func Now() int64 {
	if active == nil {
		return Epoch
	}
	return active.now
}

// Elapsed returns the simulated nanoseconds since the start of the run.
func (s *Sim) Elapsed() int64 { return s.now - s.startNs }

// SleepNs blocks the current task for d simulated nanoseconds.
func SleepNs(d int64) {
	s := active
	if s == nil {
		return
	}
	t := cur
	if t.killed {
		runtime.Goexit()
	}
	Y(2)
	if d <= 0 {
		return
	}
	s.addTimer(s.now+d, "sleep", func() { s.ready(t) })
	s.block("sleep")
}

// Timer is a simulated one-shot timer; f runs in scheduler context and must not block.
type Timer struct{ tm *timer }

func StartTimer(d int64, f func()) *Timer {
	s := active
	if s == nil {
		return &Timer{}
	}
	if d < 0 {
		d = 0
	}
	return &Timer{s.addTimer(s.now+d, "timer", f)}
}

func (t *Timer) Stop() bool {
	if t == nil || t.tm == nil || active == nil {
		return false
	}
	return active.delTimer(t.tm)
}

// ---------------------------------------------------------------- task API

// Go starts f as a new task.
func Go(f func()) { GoNamed("go", f) }

func GoNamed(name string, f func()) *Task {
	s := active
	if s == nil {
		// outside a simulation: plain goroutine (package init only)
		go f()
		return nil
	}
	if cur.killed || s.ended {
		return nil
	}
	t := s.newTask(cur, name)
	t.state = stBlocked
	s.spawn(t, f)
	s.push(t)
	Y(3)
	return t
}

// SpawnFromTimer starts a task from scheduler context (timer callbacks).
func SpawnFromTimer(name string, f func()) {
	s := active
	if s == nil || s.ended {
		return
	}
	t := s.newTask(s.root, name)
	t.state = stBlocked
	s.spawn(t, f)
	s.push(t)
}

// Cur returns the running task.
func Cur() *Task { return cur }

// Done reports whether the task has finished.
func (t *Task) Done() bool { return t.state == stDone }

// BlockedOn returns a description of what the task waits for ("" when it is not blocked).
func (t *Task) BlockedOn() string {
	if t.state == stBlocked || t.state == stStalled {
		return t.Reason
	}
	return ""
}

// Blocked lists what the unfinished tasks wait for.
func Blocked() string {
	out := ""
	for _, t := range LiveTasks() {
		if t != cur {
			out += t.Name + " in " + t.BlockedOn() + "; "
		}
	}
	return out
}

// WaitAll blocks until every given task is done or d simulated ns have passed
// with the tasks making no progress possible; it reports whether all finished.
func WaitAll(d int64, ts ...*Task) bool {
	s := active
	deadline := s.now + d
	for {
		all := true
		for _, t := range ts {
			if t.state != stDone {
				all = false
				break
			}
		}
		if all {
			return true
		}
		if s.now >= deadline {
			return false
		}
		if !waitIdleUntil(deadline, func() bool {
			for _, t := range ts {
				if t.state != stDone {
					return false
				}
			}
			return true
		}) {
			// nothing left to run: no more progress possible
			for _, t := range ts {
				if t.state != stDone {
					return false
				}
			}
			return true
		}
	}
}

type idleWaiter struct {
	t        *Task
	deadline int64
	expired  bool
}

// waitIdleUntil parks the caller until the rest of the system is idle (nothing
// runnable, and no timer before deadline).  It returns false when it was woken
// because of idleness.
func waitIdleUntil(deadline int64, stop func() bool) bool {
	s := active
	t := cur
	if t.killed {
		runtime.Goexit()
	}
	w := &idleWaiter{t: t, deadline: deadline}
	s.idleWaiters = append(s.idleWaiters, w)
	s.block("waiting for quiescence")
	return false
}

// wakeIdle wakes quiescence waiters when nothing else can ever run.
func (s *Sim) wakeIdle() bool { return s.wakeIdleBefore(1 << 62) }

func (s *Sim) wakeIdleBefore(nextTimer int64) bool {
	for i, w := range s.idleWaiters {
		if w.deadline < nextTimer {
			if nextTimer < 1<<62 && w.deadline > s.now {
				s.now = w.deadline
			}
			s.idleWaiters = append(s.idleWaiters[:i], s.idleWaiters[i+1:]...)
			s.ready(w.t)
			return true
		}
	}
	return false
}

// Quiesce blocks until nothing else can run within the next d simulated ns
// (all other tasks are done or blocked and no timer is due by then).
func Quiesce(d int64) {
	waitIdleUntil(active.now+d, nil)
}

// Atomic runs f without preemption (f may still block).
func Atomic(f func()) {
	s := active
	if s == nil {
		f()
		return
	}
	s.nopre++
	defer func() { s.nopre-- }()
	f()
}

// Seq returns the next global event sequence number.
func Seq() int64 {
	active.seq++
	return active.seq
}

// LiveTasks lists tasks other than the caller that have not finished.
func LiveTasks() []*Task {
	var r []*Task
	for _, t := range active.tasks {
		if t.state != stDone && t != cur {
			r = append(r, t)
		}
	}
	return r
}

// ---------------------------------------------------------------- logs, probes, faults

func (s *Sim) note(format string, args ...any) {
	if s.keepLog {
		m := fmt.Sprintf(format, args...)
		site := ""
		for i := 2; i < 12; i++ {
			_, file, line, ok := runtime.Caller(i)
			if !ok {
				break
			}
			if !strings.Contains(file, "/simrt/") {
				site = fmt.Sprintf("%s:%d", file, line)
				break
			}
		}
		s.log = append(s.log, fmt.Sprintf("[%d t=+%dns] SCHED %s @%s", s.steps, s.Elapsed(), m, site))
	}
}

// Logf appends to the event log of the run (and to its hash).
func Logf(format string, args ...any) {
	s := active
	if s == nil {
		return
	}
	m := fmt.Sprintf(format, args...)
	s.logH = (s.logH ^ hash64(m)) * 1099511628211
	s.logH = (s.logH ^ uint64(s.now)) * 1099511628211
	if s.keepLog {
		s.log = append(s.log, fmt.Sprintf("[%d t=+%dns %s] %s", s.steps, s.Elapsed(), cur.Path, m))
	}
}

// Log returns the recorded event log.
func (s *Sim) Log() []string { return s.log }

// LogHash is a digest of all logged events, including times.
func (s *Sim) LogHash() uint64 { return s.logH ^ s.inter*31 }

// InterHash is a digest of the interleaving (sequence of task switches with sites).
func (s *Sim) InterHash() uint64 { return s.inter }

// Fault counts an injected fault of the given kind.
func Fault(kind string) {
	if active != nil {
		active.faults[kind]++
	}
}

// Probe counts that a rare condition was reached.
func Probe(name string) {
	if active != nil {
		active.probes[name]++
	}
}

func (s *Sim) Faults() map[string]int64 {
	f := map[string]int64{}
	for k, v := range s.faults {
		f[k] = v
	}
	if s.nstall > 0 {
		f["task stall"] = s.nstall
	}
	if s.njump > 0 {
		f["clock jump"] = s.njump
	}
	return f
}
func (s *Sim) Probes() map[string]int64 { return s.probes }
func (s *Sim) Steps() int64             { return s.steps }
func (s *Sim) Switches() int64          { return s.nsw }
func (s *Sim) Preemptions() int64       { return s.npre }
func (s *Sim) NTasks() int              { return len(s.tasks) }

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
