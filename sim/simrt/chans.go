package simrt

import (
	"fmt"
	"runtime"
	"unsafe"
)

// chanState holds the simulated wait queues of one real channel.
type chanState struct {
	ref    any
	sendq  []*waiter
	recvq  []*waiter
	closed bool
	cap    int
}

type waiter struct {
	t    *Task
	cs   *chanState
	send bool
	idx  int           // select case index
	done *bool         // shared between the cases of one select
	put  func() bool   // (sender) push the value into the real buffer
	give func(*waiter) // (sender) hand the value to a receiver
	val  any           // pointer to the receiver's slot / sender's value
	ok   bool
}

func chptr[T any](c chan T) uintptr { return *(*uintptr)(unsafe.Pointer(&c)) }

func state[T any](c chan T) *chanState {
	s := active
	p := chptr(c)
	cs := s.chans[p]
	if cs == nil {
		cs = &chanState{ref: c, cap: cap(c)}
		s.chans[p] = cs
	}
	return cs
}

func bi[T any, C ~chan T | ~<-chan T | ~chan<- T](c C) chan T {
	return *(*chan T)(unsafe.Pointer(&c))
}

func (cs *chanState) popRecv() *waiter {
	for len(cs.recvq) > 0 {
		w := cs.recvq[0]
		cs.recvq = cs.recvq[1:]
		if !*w.done {
			return w
		}
	}
	return nil
}

func (cs *chanState) popSend() *waiter {
	for len(cs.sendq) > 0 {
		w := cs.sendq[0]
		cs.sendq = cs.sendq[1:]
		if !*w.done {
			return w
		}
	}
	return nil
}

func (cs *chanState) hasRecv() bool {
	for _, w := range cs.recvq {
		if !*w.done {
			return true
		}
	}
	return false
}

func (cs *chanState) hasSend() bool {
	for _, w := range cs.sendq {
		if !*w.done {
			return true
		}
	}
	return false
}

func (s *Sim) complete(w *waiter, ok bool) {
	*w.done = true
	w.ok = ok
	w.t.selWin = w
	s.ready(w.t)
}

// trySend attempts a send without blocking.
func trySend[T any](s *Sim, c chan T, v T) bool {
	cs := state(c)
	if cs.closed {
		panic("send on closed channel")
	}
	if w := cs.popRecv(); w != nil {
		*(w.val.(*T)) = v
		s.complete(w, true)
		return true
	}
	select {
	case c <- v:
		return true
	default:
		return false
	}
}

func tryRecv[T any](s *Sim, c chan T) (v T, ok, done bool) {
	cs := state(c)
	select {
	case v, ok = <-c:
		if ok {
			// a buffered slot became free: let the longest-waiting sender in
			if w := cs.popSend(); w != nil {
				select {
				case c <- *(w.val.(*T)):
				default:
					panic("simrt: buffer slot vanished")
				}
				s.complete(w, true)
			}
		}
		return v, ok, true
	default:
	}
	if w := cs.popSend(); w != nil {
		v = *(w.val.(*T))
		s.complete(w, true)
		return v, true, true
	}
	return v, false, false
}

// Send implements c <- v.
func Send[T any, C ~chan T | ~chan<- T](cc C, v T) {
	c := bi[T](cc)
	s := active
	if s == nil {
		c <- v
		return
	}
	if cur.killed {
		runtime.Goexit()
	}
	Y(4)
	if c == nil {
		s.block("send on nil channel")
		return
	}
	if trySend(s, c, v) {
		Y(4)
		return
	}
	cs := state(c)
	var done bool
	w := &waiter{t: cur, cs: cs, send: true, done: &done, val: &v}
	cs.sendq = append(cs.sendq, w)
	s.block("channel send")
	if !w.ok {
		panic("send on closed channel")
	}
}

// Recv implements <-c.
func Recv[T any, C ~chan T | ~<-chan T](cc C) T {
	v, _ := Recv2[T](cc)
	return v
}

// Recv2 implements v, ok := <-c.
func Recv2[T any, C ~chan T | ~<-chan T](cc C) (T, bool) {
	c := bi[T](cc)
	s := active
	if s == nil {
		v, ok := <-c
		return v, ok
	}
	if cur.killed {
		runtime.Goexit()
	}
	Y(5)
	var v T
	if c == nil {
		s.block("receive on nil channel")
		return v, false
	}
	v, ok, done := tryRecv(s, c)
	if done {
		Y(5)
		return v, ok
	}
	cs := state(c)
	var dn bool
	w := &waiter{t: cur, cs: cs, done: &dn, val: &v}
	cs.recvq = append(cs.recvq, w)
	s.block("channel receive")
	return v, w.ok
}

// Close implements close(c).
func Close[T any, C ~chan T | ~chan<- T](cc C) {
	c := bi[T](cc)
	s := active
	if s == nil {
		close(c)
		return
	}
	if cur.killed {
		// tear-down: ignore
		return
	}
	Y(6)
	closeNow(s, c)
	Y(6)
}

func closeNow[T any](s *Sim, c chan T) {
	cs := state(c)
	if cs.closed {
		panic("close of closed channel")
	}
	close(c) // panics on nil, or when it was closed before the run
	cs.closed = true
	for {
		w := cs.popRecv()
		if w == nil {
			break
		}
		s.complete(w, false)
	}
	for {
		w := cs.popSend()
		if w == nil {
			break
		}
		s.complete(w, false)
	}
}

// CloseFromTimer closes c in scheduler context.
func CloseFromTimer[T any](c chan T) {
	if active != nil && !active.ended {
		closeNow(active, c)
	}
}

// TrySendFromTimer performs a non-blocking send in scheduler context.
func TrySendFromTimer[T any](c chan T, v T) {
	if active != nil && !active.ended {
		trySend(active, c, v)
	}
}

// ---------------------------------------------------------------- select

// Case is one arm of a select statement.
type Case interface {
	try(s *Sim) bool // attempt to complete
	ready(s *Sim) bool
	enqueue(w *waiter)
	finish(w *waiter)
	isNil() bool
}

type RecvC[T any] struct {
	c  chan T
	V  T
	OK bool
}

func RecvCase[T any, C ~chan T | ~<-chan T](cc C) *RecvC[T] { return &RecvC[T]{c: bi[T](cc)} }

func (r *RecvC[T]) isNil() bool { return r.c == nil }
func (r *RecvC[T]) ready(s *Sim) bool {
	cs := state(r.c)
	return len(r.c) > 0 || cs.closed || cs.hasSend() || externallyClosed(r.c)
}

// externallyClosed detects channels closed by code outside the simulator.
func externallyClosed[T any](c chan T) bool {
	if len(c) > 0 {
		return false
	}
	select {
	case v, ok := <-c:
		if !ok {
			return true
		}
		// cannot happen while one task runs at a time; put it back
		select {
		case c <- v:
		default:
		}
		return false
	default:
		return false
	}
}

func (r *RecvC[T]) try(s *Sim) bool {
	v, ok, done := tryRecv(s, r.c)
	if done {
		r.V, r.OK = v, ok
	}
	return done
}
func (r *RecvC[T]) enqueue(w *waiter) {
	cs := state(r.c)
	w.cs = cs
	w.val = &r.V
	cs.recvq = append(cs.recvq, w)
}
func (r *RecvC[T]) finish(w *waiter) { r.OK = w.ok }

type SendC[T any] struct {
	c chan T
	v T
}

func SendCase[T any, C ~chan T | ~chan<- T](cc C, v T) *SendC[T] {
	return &SendC[T]{c: bi[T](cc), v: v}
}
func (r *SendC[T]) isNil() bool { return r.c == nil }
func (r *SendC[T]) ready(s *Sim) bool {
	cs := state(r.c)
	return cs.closed || cs.hasRecv() || len(r.c) < cap(r.c)
}
func (r *SendC[T]) try(s *Sim) bool { return trySend(s, r.c, r.v) }
func (r *SendC[T]) enqueue(w *waiter) {
	cs := state(r.c)
	w.cs = cs
	w.send = true
	w.val = &r.v
	cs.sendq = append(cs.sendq, w)
}
func (r *SendC[T]) finish(w *waiter) {
	if !w.ok {
		panic("send on closed channel")
	}
}

// Select implements the select statement; it returns the chosen case index, or -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	s := active
	if s == nil {
		return selectReal(hasDefault, cases)
	}
	if cur.killed {
		runtime.Goexit()
	}
	Y(7)
	var rd []int
	for i, c := range cases {
		if !c.isNil() && c.ready(s) {
			rd = append(rd, i)
		}
	}
	if len(rd) > 0 {
		k := rd[0]
		if len(rd) > 1 {
			k = rd[Choose("select", len(rd))]
		}
		if !cases[k].try(s) {
			panic(fmt.Sprintf("simrt: select case %d not ready", k))
		}
		Y(7)
		return k
	}
	if hasDefault {
		Y(7)
		return -1
	}
	done := false
	t := cur
	any := false
	for i, c := range cases {
		if c.isNil() {
			continue
		}
		any = true
		c.enqueue(&waiter{t: t, done: &done, idx: i})
	}
	if !any {
		s.block("select with no cases")
	}
	s.block("select")
	w := t.selWin
	t.selWin = nil
	cases[w.idx].finish(w)
	return w.idx
}

func selectReal(hasDefault bool, cases []Case) int {
	for i, c := range cases {
		if c.isNil() {
			continue
		}
		if rc, ok := c.(interface{ tryReal() bool }); ok && rc.tryReal() {
			return i
		}
	}
	if hasDefault {
		return -1
	}
	panic("simrt: blocking select outside a simulation")
}

func (r *RecvC[T]) tryReal() bool {
	select {
	case r.V, r.OK = <-r.c:
		return true
	default:
		return false
	}
}

func (r *SendC[T]) tryReal() bool {
	select {
	case r.c <- r.v:
		return true
	default:
		return false
	}
}

// Snd returns the send operation of c.
func Snd[T any, C ~chan T | ~chan<- T](cc C) func(T) {
	c := bi[T](cc)
	return func(v T) { Send(c, v) }
}

// SendCaseOf returns the constructor of a send arm on c.
func SendCaseOf[T any, C ~chan T | ~chan<- T](cc C) func(T) *SendC[T] {
	c := bi[T](cc)
	return func(v T) *SendC[T] { return &SendC[T]{c: c, v: v} }
}
