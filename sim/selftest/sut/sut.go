// Package sut exercises every construct the instrumenter rewrites.
package sut

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

var total int
var registry = map[string]int{}

type T struct {
	sync.Mutex
	n  int
	m  map[string][]int
	mm map[string]map[string]int
	ch chan int
}

type Err struct{}

func (*Err) Error() string { return "E" }

func Pipeline(n int) (int, error) {
	in, out := make(chan int), make(chan int, 2)
	errs := make(chan error, 1)
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func(id int, scale int64) {
			defer wg.Done()
			for v := range in {
				out <- v * int(scale)
			}
		}(i, 2)
	}
	go func() {
		for i := range n {
			in <- i
		}
		close(in)
	}()
	go func() { wg.Wait(); close(out); errs <- &Err{} }()
	sum := 0
	for v := range out {
		sum += v
	}
	err := <-errs
	var e *Err
	if !errors.As(err, &e) {
		return 0, err
	}
	return sum, nil
}

func Selects() string {
	a, b := make(chan int), make(chan string, 1)
	done := make(chan struct{})
	go func() { a <- 1; b <- "x"; close(done) }()
	s := ""
	tm := time.NewTimer(time.Second)
L:
	for {
		select {
		case v, ok := <-a:
			s += fmt.Sprint(v, ok)
		case x := <-b:
			s += x
		case <-done:
			break L
		case <-tm.C:
			return "timeout"
		}
	}
	select {
	case b <- "q":
	default:
		s += "full"
	}
	select {
	case v := <-b:
		s += v
	default:
		s += "empty"
	}
	return s
}

func (t *T) incr() int {
	t.n++
	t.n += 2
	return t.n
}

func Maps() string {
	total = 0
	t := &T{m: map[string][]int{}, mm: map[string]map[string]int{}}
	t.m["a"] = append(t.m["a"], 1)
	t.m["a"] = append(t.m["a"], 2)
	if _, ok := t.mm["x"]; !ok {
		t.mm["x"] = map[string]int{}
	}
	t.mm["x"]["y"]++
	t.mm["x"]["z"] += 5
	delete(t.mm, "nope")
	keys := []string{}
	for k, v := range t.mm["x"] {
		keys = append(keys, fmt.Sprint(k, v))
	}
	for k := range t.m {
		keys = append(keys, k)
	}
	for range t.m {
		keys = append(keys, "_")
	}
	sort.Strings(keys)
	var a, b = 1, 2
	a, b = b, a
	f := func() { a, total = total, a }
	f()
	return fmt.Sprint(keys, a, b, total, len(t.m["a"]))
}

func RangeDelete() int {
	m := map[int]bool{1: true, 2: true, 3: true}
	n := 0
	for k := range m {
		n++
		for j := range m {
			if j != k {
				delete(m, j)
			}
		}
	}
	return n
}

func Race() int {
	t := &T{}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); t.n++ }()
	}
	wg.Wait()
	return t.n
}

func Locked() int {
	t := &T{}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			t.Lock()
			defer t.Unlock()
			t.n++
		}()
	}
	wg.Wait()
	return t.n
}

func MapCrash() {
	m := map[int]int{}
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); m[i] = i }()
	}
	wg.Wait()
}

func Timeouts(ctx context.Context) (string, time.Duration) {
	t0 := time.Now()
	c, cancel := context.WithTimeout(ctx, 30*time.Second)
	defer cancel()
	select {
	case <-c.Done():
	case <-time.After(time.Minute):
	}
	return c.Err().Error(), time.Since(t0)
}

func Deadlock() {
	var a, b sync.Mutex
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); a.Lock(); b.Lock(); b.Unlock(); a.Unlock() }()
	go func() { defer wg.Done(); b.Lock(); a.Lock(); a.Unlock(); b.Unlock() }()
	wg.Wait()
}

var ctr atomic.Int64

func Rand() int { ctr.Add(1); return rand.Intn(1000) }

type stage func(int) (int, error)

func Tuple() (x int, err error) {
	var f stage = func(i int) (int, error) { return i + 1, nil }
	func() { x, err = f(x) }()
	g := func() { x, err = f(x) }
	g()
	switch y := x; {
	case y == 2:
		x++
		fallthrough
	case y > 5:
		x += 10
	}
	goto end
end:
	return x, err
}

func Cond() int {
	var mu sync.Mutex
	c := sync.NewCond(&mu)
	q := []int{}
	done := make(chan int)
	go func() {
		s := 0
		for i := 0; i < 3; i++ {
			mu.Lock()
			for len(q) == 0 {
				c.Wait()
			}
			s += q[0]
			q = q[1:]
			mu.Unlock()
		}
		done <- s
	}()
	for i := 1; i <= 3; i++ {
		mu.Lock()
		q = append(q, i)
		mu.Unlock()
		c.Signal()
	}
	return <-done
}

func Forever() { <-make(chan int) }
