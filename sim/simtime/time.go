// Package simtime is the simulator's replacement for the parts of package time that read or wait for the clock.
package simtime

import (
	"time"

	"verif.local/sim/simrt"
)

func Now() time.Time {
	simrt.Y(40)
	return at(simrt.Now())
}

func at(ns int64) time.Time { return time.Unix(ns/1e9, ns%1e9).UTC() }

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { simrt.SleepNs(int64(d)) }

type Timer struct {
	C <-chan time.Time
	c chan time.Time
	f func()
	t *simrt.Timer
}

func (t *Timer) start(d time.Duration) {
	if t.f != nil {
		t.t = simrt.StartTimer(int64(d), func() { simrt.SpawnFromTimer("timerfunc", t.f) })
	} else {
		t.t = simrt.StartTimer(int64(d), func() { simrt.TrySendFromTimer(t.c, at(simrt.Now())) })
	}
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	simrt.Y(41)
	r := t.t.Stop()
	t.drain()
	return r
}

// drain follows Go 1.23 semantics: no stale value is received after Stop or Reset.
func (t *Timer) drain() {
	if t.c == nil {
		return
	}
	select {
	case <-t.c:
	default:
	}
}

func (t *Timer) Reset(d time.Duration) bool {
	simrt.Y(41)
	r := t.t.Stop()
	t.drain()
	t.start(d)
	return r
}

type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	t *simrt.Timer
	d time.Duration
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}

func (t *Ticker) arm() {
	t.t = simrt.StartTimer(int64(t.d), func() {
		simrt.TrySendFromTimer(t.c, at(simrt.Now()))
		t.arm()
	})
}

func (t *Ticker) Stop() { simrt.Y(41); t.t.Stop() }
func (t *Ticker) Reset(d time.Duration) {
	simrt.Y(41)
	t.t.Stop()
	t.d = d
	t.arm()
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
