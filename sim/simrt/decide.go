package simrt

import (
	"sort"
)

// SchedDec is one scheduling decision that deviates from the default policy
// ("keep running; when blocked, run the task that has been runnable longest").
type SchedDec struct {
	Task string `json:"task"` // path of the task at the decision point
	Step int64  `json:"step"` // the task's own step count there
	Kind string `json:"kind"` // "s" switch, "z" stall, "j" clock jump
	To   string `json:"to,omitempty"`
	Arg  int64  `json:"arg,omitempty"`
}

type yieldDec struct {
	Kind byte
	To   string
	Arg  int64
}

// Choice is one non-default value drawn from a named stream.
type Choice struct {
	Idx int   `json:"i"`
	Val int64 `json:"v"`
}

// Record is a complete, replayable description of every decision of a run.
type Record struct {
	Sched   []SchedDec          `json:"sched"`
	Streams map[string][]Choice `json:"streams"`
}

// Decisions is the single source of every choice made in a run.
type Decisions struct {
	seed   uint64
	sched  rng
	rngs   map[string]*rng
	pos    map[string]int
	Rec    Record
	replay *replayState
}

type replayState struct {
	sched   map[string]map[int64]SchedDec
	order   map[string][]int64
	streams map[string]map[int]int64
}

type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *rng) intn(n int64) int64 {
	if n <= 1 {
		return 0
	}
	return int64(r.next() % uint64(n))
}

// NewDecisions derives every choice from one seed.
func NewDecisions(seed uint64) *Decisions {
	return &Decisions{seed: seed, sched: rng{hash64("sched") ^ (seed * 0xD1342543DE82EF95)}, rngs: map[string]*rng{}, pos: map[string]int{},
		Rec: Record{Streams: map[string][]Choice{}}}
}

// ReplayDecisions replays a record; choices it does not mention take their default.
func ReplayDecisions(r Record) *Decisions {
	d := &Decisions{rngs: map[string]*rng{}, pos: map[string]int{}, Rec: Record{Streams: map[string][]Choice{}}}
	rp := &replayState{sched: map[string]map[int64]SchedDec{}, order: map[string][]int64{}, streams: map[string]map[int]int64{}}
	for _, sd := range r.Sched {
		m := rp.sched[sd.Task]
		if m == nil {
			m = map[int64]SchedDec{}
			rp.sched[sd.Task] = m
		}
		m[sd.Step] = sd
		rp.order[sd.Task] = append(rp.order[sd.Task], sd.Step)
	}
	for _, o := range rp.order {
		sort.Slice(o, func(i, j int) bool { return o[i] < o[j] })
	}
	for name, cs := range r.Streams {
		m := map[int]int64{}
		for _, c := range cs {
			m[c.Idx] = c.Val
		}
		rp.streams[name] = m
	}
	d.replay = rp
	return d
}

// draw returns a value in [0,n) from a named stream; 0 is the default.
func (d *Decisions) draw(stream string, n int64) int64 {
	i := d.pos[stream]
	d.pos[stream] = i + 1
	var v int64
	if d.replay != nil {
		v = d.replay.streams[stream][i]
		if n > 0 && v >= n {
			v %= n
		}
	} else {
		r := d.rngs[stream]
		if r == nil {
			r = &rng{hash64(stream) ^ (d.seed * 0xD1342543DE82EF95)}
			r.next()
			d.rngs[stream] = r
		}
		if n <= 0 {
			v = int64(r.next() >> 1)
		} else {
			v = r.intn(n)
		}
	}
	if v != 0 {
		d.Rec.Streams[stream] = append(d.Rec.Streams[stream], Choice{i, v})
	}
	return v
}

// Choose draws a value in [0,n) from a named stream of the active run.
func Choose(stream string, n int) int {
	if active == nil || n <= 1 {
		return 0
	}
	return int(active.dec.draw(stream, int64(n)))
}

// Draw63 draws a non-negative 63-bit value from a named stream (0 is the default).
func Draw63(stream string) int64 {
	if active == nil {
		return 0
	}
	return active.dec.draw(stream, 0)
}

// Chance is true with probability num/den; false is the default.
func Chance(stream string, num, den int) bool {
	if active == nil || num <= 0 {
		return false
	}
	// draw so that 0 means "no"
	v := active.dec.draw(stream, int64(den))
	return v >= int64(den-num) && v != 0
}

// Choose lets configuration code outside a run draw from the same source.
func (d *Decisions) Choose(stream string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(d.draw(stream, int64(n)))
}

// ---------------------------------------------------------------- schedule

func (s *Sim) nextGap() int64 {
	if s.cfg.Strategy != 1 || s.dec.replay != nil {
		return -1
	}
	m := s.cfg.GapMean
	if m <= 1 {
		return 1
	}
	// geometric-ish: mixture of short and long gaps around the mean
	r := &s.dec.sched
	switch r.intn(4) {
	case 0:
		return 1 + r.intn(3)
	default:
		return 1 + r.intn(2*m)
	}
}

func (s *Sim) initPCT() {
	if s.cfg.Strategy != 2 || s.dec.replay != nil {
		return
	}
	r := &s.dec.sched
	n := s.cfg.PCTDepth
	for i := 0; i < n; i++ {
		s.changeAt = append(s.changeAt, 1+r.intn(s.cfg.GapMean))
	}
	sort.Slice(s.changeAt, func(i, j int) bool { return s.changeAt[i] < s.changeAt[j] })
	s.root.prio = 1 << 40
}

func (s *Sim) pctNew(t *Task) {
	if s.cfg.Strategy != 2 || s.dec.replay != nil {
		return
	}
	t.prio = 1<<20 + s.dec.sched.intn(1<<20)
}

// arm computes the next step of t at which a decision has to be taken.
func (s *Sim) arm(t *Task) {
	if s.dec.replay != nil {
		t.nextEv = -1
		for _, st := range s.dec.replay.order[t.Path] {
			if st > t.step {
				t.nextEv = st
				break
			}
		}
		return
	}
	switch s.cfg.Strategy {
	case 1:
		if s.gap <= 0 {
			s.gap = s.nextGap()
		}
		t.nextEv = t.step + s.gap
	case 2:
		t.nextEv = t.step + 20000 // fairness bound
		for len(s.changeAt) > 0 && s.changeAt[0] <= s.steps {
			s.changeAt = s.changeAt[1:]
			t.prio = int64(len(s.changeAt)) // lower than any initial priority
		}
		if len(s.changeAt) > 0 {
			d := s.changeAt[0] - s.steps
			if t.step+d < t.nextEv {
				t.nextEv = t.step + d
			}
		}
		if hp := s.highest(); hp != nil && hp.prio > t.prio {
			t.nextEv = t.step + 1
		}
	default:
		t.nextEv = -1
	}
}

func (s *Sim) highest() *Task {
	var b *Task
	for _, x := range s.runq {
		if b == nil || x.prio > b.prio {
			b = x
		}
	}
	return b
}

func (s *Sim) decideYield(t *Task) yieldDec {
	if s.dec.replay != nil {
		if sd, ok := s.dec.replay.sched[t.Path][t.step]; ok {
			return yieldDec{sd.Kind[0], sd.To, sd.Arg}
		}
		return yieldDec{}
	}
	r := &s.dec.sched
	s.gap = 0
	special := func() (yieldDec, bool) {
		p := int(r.intn(100))
		if p < s.cfg.StallPct {
			max := s.cfg.StallMax
			if max <= 0 {
				max = 1e9
			}
			// log-uniform
			d := int64(1000)
			for d < max && r.intn(3) != 0 {
				d *= 4
			}
			return yieldDec{'z', "", 1 + r.intn(d)}, true
		}
		if p < s.cfg.StallPct+s.cfg.JumpPct && len(s.timers) > 0 {
			return yieldDec{'j', "", 0}, true
		}
		return yieldDec{}, false
	}
	switch s.cfg.Strategy {
	case 1:
		if y, ok := special(); ok {
			return y
		}
		if len(s.runq) == 0 {
			return yieldDec{}
		}
		return yieldDec{'s', s.runq[r.intn(int64(len(s.runq)))].Path, 0}
	case 2:
		changed := false
		for len(s.changeAt) > 0 && s.changeAt[0] <= s.steps {
			s.changeAt = s.changeAt[1:]
			t.prio = int64(len(s.changeAt))
			changed = true
		}
		if changed {
			if y, ok := special(); ok {
				return y
			}
		}
		hp := s.highest()
		if hp != nil && t.step%20000 == 0 && hp.prio <= t.prio {
			t.prio = -s.steps // a task that spins forever is demoted
		}
		if hp != nil && hp.prio > t.prio {
			return yieldDec{'s', hp.Path, 0}
		}
	}
	return yieldDec{}
}

func (s *Sim) record(t *Task, d yieldDec) {
	s.dec.Rec.Sched = append(s.dec.Rec.Sched, SchedDec{t.Path, t.step, string(d.Kind), d.To, d.Arg})
}

func (s *Sim) decideForced(t *Task) *Task {
	if len(s.runq) == 1 {
		return s.runq[0]
	}
	var n *Task
	if s.dec.replay != nil {
		n = s.runq[0]
		if sd, ok := s.dec.replay.sched[t.Path][t.step]; ok && sd.Kind == "s" {
			if x := s.byPath[sd.To]; x != nil && x.state == stRunnable {
				n = x
			}
		}
	} else {
		switch s.cfg.Strategy {
		case 1:
			n = s.runq[s.dec.sched.intn(int64(len(s.runq)))]
		case 2:
			n = s.highest()
		default:
			n = s.runq[0]
		}
	}
	if n != s.runq[0] {
		s.record(t, yieldDec{'s', n.Path, 0})
		s.note("when %s(%s) blocked at step %d: run %s(%s)", t.Path, t.Name, t.step, n.Path, n.Name)
	}
	return n
}

// NewConfig draws swarm-style scheduling knobs from the decision source.
func NewConfig(d *Decisions) Config {
	if d.replay != nil {
		// the recorded schedule is followed; only the clock knobs matter
		c := Config{}
		c.TickNs = tickChoices[d.Choose("cfg.tick", len(tickChoices))]
		return c
	}
	r := &d.sched
	c := Config{}
	c.TickNs = tickChoices[d.Choose("cfg.tick", len(tickChoices))]
	switch r.intn(10) {
	case 0:
		c.Strategy = 0
	case 1, 2, 3:
		c.Strategy = 2
		c.PCTDepth = 1 + int(r.intn(6))
		c.GapMean = []int64{200, 1000, 5000, 20000}[r.intn(4)]
	default:
		c.Strategy = 1
		c.GapMean = []int64{1, 2, 4, 8, 20, 60, 200}[r.intn(7)]
	}
	switch r.intn(4) {
	case 0:
		c.StallPct = int([]int64{1, 5, 20}[r.intn(3)])
	case 1:
		c.JumpPct = int([]int64{1, 5, 20}[r.intn(3)])
	case 2:
		c.StallPct = int([]int64{1, 5}[r.intn(2)])
		c.JumpPct = int([]int64{1, 5}[r.intn(2)])
	}
	return c
}

var tickChoices = []int64{0, 100, 1000, 50000}
