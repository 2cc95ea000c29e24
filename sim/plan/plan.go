// Package plan draws the wiring specs of the composition property: the same
// plan is used by the generator, which wires it with the real plugins, and by
// the harness, which interprets it with a reference model.
package plan

import (
	"fmt"
	"math/rand"
)

// Mod is one modifier; Kind is one of
// client side: retry(N) fixed(N,D) backoff(D,D2) timeout(D) pool(N)
// server side: latency(D) health nodelay prob(N percent)
type Mod struct {
	Kind string
	N    int
	D    int // ms
	D2   int // ms
}

func (m Mod) String() string {
	s := m.Kind
	switch m.Kind {
	case "retry", "pool", "prob":
		s += fmt.Sprintf("(%d)", m.N)
	case "fixed":
		s += fmt.Sprintf("(%d,%dms)", m.N, m.D)
	case "backoff":
		s += fmt.Sprintf("(%dms,%dms)", m.D, m.D2)
	case "timeout", "latency":
		s += fmt.Sprintf("(%dms)", m.D)
	}
	return s
}

// Client reports whether m wraps the client side.
func (m Mod) Client() bool {
	switch m.Kind {
	case "retry", "fixed", "backoff", "timeout", "pool":
		return true
	}
	return false
}

// Service is an instance of the target or a load balancer.
type Service struct {
	Name     string
	Replicas []string // of a load balancer
	Mods     []Mod    // in the order in which the wiring spec applies them
	Type     int      // 0..3; services of one type have the same server-side modifiers within a process
	HTTP     bool     // deployed over HTTP, in the process named after this one with d instead of c
}

// Proc is a process with a front end per entry of Fronts.
type Proc struct {
	Name     string
	Services []Service
	Fronts   []string // service that front i uses
}

// N is the number of processes.
const N = 24

func draw(r *rand.Rand, client bool) Mod {
	ds := []int{20, 53, 71, 110}
	if client {
		switch r.Intn(5) {
		case 0:
			return Mod{Kind: "retry", N: 1 + r.Intn(4)}
		case 1:
			return Mod{Kind: "fixed", N: 1 + r.Intn(4), D: ds[r.Intn(4)]}
		case 2:
			return Mod{Kind: "backoff", D: []int{31, 62}[r.Intn(2)], D2: []int{200, 300}[r.Intn(2)]}
		case 3:
			return Mod{Kind: "timeout", D: []int{97, 211, 307, 560}[r.Intn(4)]}
		}
		return Mod{Kind: "pool", N: 1 + r.Intn(3)}
	}
	switch r.Intn(8) {
	case 0:
		return Mod{Kind: "health"}
	case 1:
		return Mod{Kind: "nodelay"}
	case 2:
		return Mod{Kind: "prob", N: 0}
	case 3:
		if r.Intn(3) == 0 {
			return Mod{Kind: "prob", N: 100}
		}
	}
	return Mod{Kind: "latency", D: []int{17, 43, 130}[r.Intn(3)]}
}

func mods(r *rand.Rand, max int, server, pool bool) (out []Mod) {
	seen := map[string]bool{}
	for i := r.Intn(max + 1); i > 0; i-- {
		m := draw(r, !server || r.Intn(3) > 0)
		if !seen[m.Kind] && (pool || m.Kind != "pool") {
			seen[m.Kind] = true
			out = append(out, m)
		}
	}
	return
}

// Plan draws the processes.
func Plan(seed int64) []Proc {
	r := rand.New(rand.NewSource(seed))
	var ps []Proc
	for i := 0; i < N; i++ {
		p := Proc{Name: fmt.Sprintf("c%d", i)}
		n := 1 + r.Intn(3)
		for j := 0; j < n; j++ {
			s := Service{Name: fmt.Sprintf("c%ds%d", i, j), HTTP: j == 0 || r.Intn(2) == 0}
			s.Mods = mods(r, 4, true, s.HTTP)
			p.Services = append(p.Services, s)
			p.Fronts = append(p.Fronts, s.Name)
		}
		if i%2 == 0 {
			lb := Service{Name: fmt.Sprintf("c%dg_lb", i)}
			for j := 0; j < 2+r.Intn(2); j++ {
				s := Service{Name: fmt.Sprintf("c%dr%d", i, j), HTTP: r.Intn(2) == 0}
				s.Mods = mods(r, 2, true, s.HTTP)
				p.Services = append(p.Services, s)
				lb.Replicas = append(lb.Replicas, s.Name)
			}
			if i%4 == 0 {
				lb.Mods = mods(r, 3, false, false)
			}
			p.Services = append(p.Services, lb)
			p.Fronts = append(p.Fronts, lb.Name)
		}
		typed(&p)
		if r.Intn(2) == 0 { // a second user of a service
			p.Fronts = append(p.Fronts, p.Services[r.Intn(n)].Name)
		}
		ps = append(ps, p)
	}
	return ps
}

// typed assigns types: the code generated for one type within a process
// depends on the server-side modifiers, so those have to agree (known finding).
// A load balancer and its replicas share type 0.
func typed(p *Proc) {
	replica := map[string]bool{}
	for _, s := range p.Services {
		for _, r := range s.Replicas {
			replica[r] = true
		}
	}
	sig := map[string]int{}
	next := 0
	if len(replica) > 0 {
		next = 1
	}
	var first []Mod
	seen := false
	for i := range p.Services {
		s := &p.Services[i]
		var cl, srv []Mod
		for _, m := range s.Mods {
			if m.Client() {
				cl = append(cl, m)
			} else {
				srv = append(srv, m)
			}
		}
		if s.Replicas != nil {
			s.Type = 0
			continue
		}
		if replica[s.Name] {
			// replicas agree on the kinds, not on the settings
			if !seen {
				first, seen = srv, true
			}
			ms := cl
			for _, m := range first {
				for _, o := range srv {
					if o.Kind == m.Kind {
						m = o
					}
				}
				ms = append(ms, m)
			}
			s.Mods, s.Type = ms, 0
			continue
		}
		k := ""
		for _, m := range srv {
			k += m.Kind + " "
		}
		t, ok := sig[k]
		if !ok && next > 3 {
			// no type left: take over the modifiers of another service
			for _, o := range p.Services[:i] {
				if !replica[o.Name] && o.Replicas == nil {
					s.Mods, s.Type = cl, o.Type
					for _, m := range o.Mods {
						if !m.Client() {
							s.Mods = append(s.Mods, m)
						}
					}
					break
				}
			}
			continue
		}
		if !ok {
			t = next
			sig[k] = t
			next++
		}
		s.Type = t
	}
}
