package simrt

import (
	"fmt"
	"runtime"
	"strings"
)

func callers(skip int) string {
	var b strings.Builder
	pcs := make([]uintptr, 24)
	n := runtime.Callers(skip, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if !strings.Contains(f.File, "/simrt/") {
			fmt.Fprintf(&b, "%s\n\t%s:%d\n", f.Function, f.File, f.Line)
		}
		if !more {
			break
		}
	}
	return b.String()
}

// WaitQ is a FIFO queue of blocked tasks.
type WaitQ struct{ q []*Task }

// Wait blocks the current task on the queue.
func (w *WaitQ) Wait(reason string) {
	w.q = append(w.q, cur)
	active.block(reason)
}

// Wake readies the i-th waiter and reports whether there was one.
func (w *WaitQ) WakeOne() *Task {
	for len(w.q) > 0 {
		t := w.q[0]
		w.q = w.q[1:]
		if t.state == stBlocked {
			active.ready(t)
			return t
		}
	}
	return nil
}

func (w *WaitQ) WakeAll() {
	for w.WakeOne() != nil {
	}
}

func (w *WaitQ) Len() int { return len(w.q) }

// Killed reports whether the current task is being unwound at the end of a run.
func Killed() bool { return cur != nil && cur.killed }

// Fatal models an unrecoverable runtime error.
func Fatal(msg string) { fatal(msg) }
