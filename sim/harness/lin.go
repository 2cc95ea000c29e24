package harness

import (
	"fmt"
	"time"

	"github.com/anishathalye/porcupine"
	"verif.local/sim/simrt"
)

// Hist records a concurrent history stamped with the simulator's event sequence.
type Hist struct {
	ops []*Op
}

// Op is one recorded operation.
type Op struct {
	Client int
	In     any
	Out    any
	call   int64
	ret    int64 // 0 while pending
}

// Call records an invocation.
func (h *Hist) Call(client int, in any) *Op {
	o := &Op{Client: client, In: in, call: simrt.Seq()}
	h.ops = append(h.ops, o)
	simrt.Logf("call %d %v", client, in)
	return o
}

// CallAt records an operation with the invocation time of another one.
func (h *Hist) CallAt(o *Op, in any) *Op {
	p := &Op{Client: o.Client, In: in, call: o.call}
	h.ops = append(h.ops, p)
	return p
}

// Ret records the response.
func (o *Op) Ret(out any) {
	o.Out = out
	o.ret = simrt.Seq()
	simrt.Logf("ret %d %v = %v", o.Client, o.In, out)
}

// RetAt copies the response time of another operation.
func (o *Op) RetAt(p *Op, out any) { o.Out = out; o.ret = p.ret }

// Done reports whether the operation returned.
func (o *Op) Done() bool { return o.ret != 0 }

// Drop removes an operation that is known to have had no effect.
func (h *Hist) Drop(o *Op) {
	for i, x := range h.ops {
		if x == o {
			h.ops = append(h.ops[:i], h.ops[i+1:]...)
			return
		}
	}
}

func (h *Hist) Ops() []*Op { return h.ops }
func (h *Hist) Len() int   { return len(h.ops) }

// Pending is the output of an operation that never returned.
type Pending struct{}

// Check decides linearizability; it returns "" or a description, and whether the checker gave up.
func (h *Hist) Check(m porcupine.Model) (string, bool) {
	if len(h.ops) == 0 {
		return "", false
	}
	var ops []porcupine.Operation
	end := int64(1) << 60
	for _, o := range h.ops {
		if o.ret == 0 {
			ops = append(ops, porcupine.Operation{ClientId: len(ops) + 1000, Input: o.In, Call: o.call, Output: Pending{}, Return: end})
			continue
		}
		ops = append(ops, porcupine.Operation{ClientId: o.Client, Input: o.In, Call: o.call, Output: o.Out, Return: o.ret})
	}
	switch porcupine.CheckOperationsTimeout(m, ops, 5*time.Second) {
	case porcupine.Ok:
		return "", false
	case porcupine.Unknown:
		return "", true
	}
	s := "history is not linearizable:"
	for _, o := range h.ops {
		s += fmt.Sprintf("\n  [%d,%d] client %d: %v -> %v", o.call, o.ret, o.Client, o.In, o.Out)
	}
	return s, false
}
