// Package wrapkit drives the services that the compiler generated around
// verif.local/app/target, and records every call and every attempt that
// reaches an instance.
package wrapkit

import (
	"context"
	"errors"
	"flag"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strconv"

	bpgolang "github.com/blueprint-uservices/blueprint/runtime/plugins/golang"
	"verif.local/app/target"
	"verif.local/sim/harness"
	"verif.local/sim/simrt"
)

// Attempt is one invocation that reached a service instance.
type Attempt struct {
	N       int // 1, 2, … within the call
	Inst    string
	Method  string
	Args    []any
	Start   int64 // simulated ns
	End     int64 // 0 while running
	Seq     int64
	SeqEnd  int64
	Rets    []any
	Err     error
	Ctx     context.Context
	CtxDone bool // the context had ended when the attempt returned
	Num     any
}

// Call is one call made by a client.
type Call struct {
	ID       int64
	Method   string
	Args     []any
	Attempts []*Attempt
	Start    int64
	End      int64 // 0 while running
	Seq      int64
	SeqEnd   int64
	Rets     []any
	Err      error
	Panic    any
	Ctx      context.Context
	Tag      any // the harness's own
}

// Last returns the last attempt or nil.
func (c *Call) Last() *Attempt {
	if len(c.Attempts) == 0 {
		return nil
	}
	return c.Attempts[len(c.Attempts)-1]
}

// Running counts attempts that have not returned.
func (c *Call) Running() (n int) {
	for _, a := range c.Attempts {
		if a.SeqEnd == 0 {
			n++
		}
	}
	return
}

// API is what all types of target have in common.
type API interface {
	Do(ctx context.Context, id int64, payload string) (string, int64, error)
	Put(ctx context.Context, item target.Item, tags []string) error
	List(ctx context.Context, n int, ok bool) ([]target.Item, map[string]string, error)
	Get(ctx context.Context, key string) (*target.Item, error)
	Ping(ctx context.Context) error
}

// Kit is one run's world.
type Kit struct {
	H       *harness.H
	Calls   []*Call
	byID    map[int64]*Call
	nextID  int64
	Stray   []*Attempt // attempts that belong to no known call
	Behave  func(c *Call, a *Attempt) (rets []any, err error)
	OnStart func(c *Call, a *Attempt)
	OnPing  func(ctx context.Context, inst string) error // handles pings that carry no identification
}

type ctxKey struct{}

// New installs the hooks of package target.
func New(h *harness.H) *Kit {
	k := &Kit{H: h, byID: map[int64]*Call{}}
	target.Hook = k.hook
	target.Made = nil
	simrt.OnEnd(func() { target.Hook = nil; target.Made = nil })
	FreshFlags()
	old := os.Args
	os.Args = []string{"svc"}
	simrt.OnEnd(func() { os.Args = old })
	return k
}

// FreshFlags clears the flags that building a process defined, as a new process would.
func FreshFlags() { flag.CommandLine = flag.NewFlagSet("svc", flag.PanicOnError) }

// Quiet replaces the logger and metric collector of a generated process.
func Quiet(b *bpgolang.NamespaceBuilder, procs ...string) *bpgolang.NamespaceBuilder {
	for _, p := range procs {
		b.Define(p+".logger", func(n *bpgolang.Namespace) (any, error) { return struct{}{}, nil })
		b.Define(p+".stdoutmetriccollector", func(n *bpgolang.Namespace) (any, error) { return struct{}{}, nil })
	}
	return b
}

// Client builds a generated process and returns the client that its front-end service was given.
func Client(h *harness.H, b *bpgolang.NamespaceBuilder, name string) (API, *bpgolang.Namespace) {
	Quiet(b, name+"_proc")
	n, err := b.Build(context.Background())
	if err != nil {
		h.Violate("build", "process %s cannot be built: %v", name, err)
	}
	var f *target.FrontImpl
	if err := n.Get(name+"_front", &f); err != nil {
		h.Violate("build", "front end of %s cannot be built: %v", name, err)
	}
	return f.T, n
}

// Proc builds a generated process with the given arguments and returns it.
func Proc(h *harness.H, b *bpgolang.NamespaceBuilder, name string, ctx context.Context, args map[string]string) *bpgolang.Namespace {
	Quiet(b, name)
	var ks []string
	for k := range args {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		b.Set(k, args[k])
	}
	n, err := b.Build(ctx)
	if err != nil {
		h.Violate("build", "process %s cannot be built: %v", name, err)
	}
	return n
}

// FrontOf returns the client that a front-end service was given.
func FrontOf(h *harness.H, n *bpgolang.Namespace, name string) API {
	var f interface{ Client() any }
	if err := n.Get(name, &f); err != nil {
		h.Violate("build", "front end %s cannot be built: %v", name, err)
	}
	return f.Client().(API)
}

var methods = []string{"Do", "Put", "List", "Get", "Ping"}

func str(st string) string {
	return []string{"", "a", "hello world", "q&=?%+#/\\\"'", "héllo ☃", "0", "null", "line\nbreak", "{}", "  "}[simrt.Choose(st, 10)]
}

func i64(st string) int64 {
	return []int64{0, 1, -1, 42, 1 << 40, -1 << 63, 1<<63 - 1, 1<<53 + 1}[simrt.Choose(st, 8)]
}

func strs(st string) []string {
	n := simrt.Choose(st, 4)
	if n == 3 {
		return nil
	}
	out := []string{}
	for i := 0; i < n; i++ {
		out = append(out, str(st))
	}
	return out
}

// Item draws a structured value.
func Item(st string, id int64) target.Item {
	it := target.Item{ID: id, Name: str(st), Tags: strs(st)}
	switch simrt.Choose(st, 3) {
	case 0:
		it.Attrs = map[string]int64{}
	case 1:
		it.Attrs = map[string]int64{str(st): i64(st), "k": i64(st)}
	}
	it.Sub = target.Sub{A: int32(i64(st)), B: simrt.Chance(st, 1, 2), F: []float64{0, 1.5, -2.25, 1e300, 0.1}[simrt.Choose(st, 5)]}
	if simrt.Chance(st, 1, 2) {
		it.Ref = &target.Sub{A: 7}
	}
	return it
}

func (k *Kit) args(st, method string, id int64) []any {
	switch method {
	case "Do":
		return []any{id, str(st)}
	case "Put":
		return []any{Item(st, id), strs(st)}
	case "List":
		return []any{int(id), simrt.Chance(st, 1, 2)}
	case "Get":
		return []any{fmt.Sprintf("%d/%s", id, str(st))}
	}
	return nil
}

// Rets draws the results of a method.
func Rets(st, method string) []any {
	switch method {
	case "Do":
		return []any{str(st), i64(st)}
	case "List":
		n := simrt.Choose(st, 4)
		var l []target.Item
		if n > 0 {
			l = []target.Item{}
		}
		for i := 1; i < n; i++ {
			l = append(l, Item(st, int64(i)))
		}
		var m map[string]string
		switch simrt.Choose(st, 3) {
		case 0:
			m = map[string]string{}
		case 1:
			m = map[string]string{str(st): str(st)}
		}
		return []any{l, m}
	case "Get":
		if simrt.Chance(st, 1, 4) {
			return []any{(*target.Item)(nil)}
		}
		it := Item(st, 5)
		return []any{&it}
	}
	return []any{}
}

// Zero returns the zero results of a method.
func Zero(method string) []any {
	switch method {
	case "Do":
		return []any{"", int64(0)}
	case "List":
		return []any{[]target.Item(nil), map[string]string(nil)}
	case "Get":
		return []any{(*target.Item)(nil)}
	}
	return []any{}
}

func idOf(ctx context.Context, c target.Call) int64 {
	switch c.Method {
	case "Do":
		return c.Args[0].(int64)
	case "Put":
		return c.Args[0].(target.Item).ID
	case "List":
		return int64(c.Args[0].(int))
	case "Get":
		s := c.Args[0].(string)
		for i := 0; i < len(s); i++ {
			if s[i] == '/' {
				n, err := strconv.ParseInt(s[:i], 10, 64)
				if err == nil {
					return n
				}
			}
		}
		return -1
	}
	if v, ok := ctx.Value(ctxKey{}).(int64); ok {
		return v
	}
	return -1
}

func (k *Kit) hook(ctx context.Context, tc target.Call) ([]any, error) {
	if tc.Method == "Ping" && k.OnPing != nil && idOf(ctx, tc) < 0 {
		return nil, k.OnPing(ctx, tc.Inst)
	}
	a := &Attempt{Inst: tc.Inst, Method: tc.Method, Args: tc.Args, Ctx: ctx, Start: simrt.Now(), Seq: simrt.Seq(), Num: ctx.Value("attempt_num")}
	c := k.byID[idOf(ctx, tc)]
	if c == nil {
		k.Stray = append(k.Stray, a)
		k.H.Violate("stray", "instance %s received %s%v, which no client sent", tc.Inst, tc.Method, tc.Args)
	}
	c.Attempts = append(c.Attempts, a)
	a.N = len(c.Attempts)
	simrt.Logf("call %d attempt %d on %s: %s", c.ID, a.N, a.Inst, a.Method)
	k.H.Check(c.Method == tc.Method, "misrouted", "call %d of %s reached method %s", c.ID, c.Method, tc.Method)
	k.H.Check(reflect.DeepEqual(c.Args, tc.Args), "args", "call %d of %s was made with %#v but received %#v", c.ID, c.Method, c.Args, tc.Args)
	if k.OnStart != nil {
		k.OnStart(c, a)
	}
	r, err := k.Behave(c, a)
	a.Rets, a.Err, a.End, a.SeqEnd = r, err, simrt.Now(), simrt.Seq()
	a.CtxDone = ctx.Err() != nil
	simrt.Logf("call %d attempt %d on %s: %v", c.ID, a.N, a.Inst, err)
	return r, err
}

// Failure is the error that simulated services return.
type Failure struct{ Msg string }

func (f *Failure) Error() string { return f.Msg }

// Fail makes a distinct error.
func (k *Kit) Fail(c *Call, a *Attempt) error {
	return &Failure{fmt.Sprintf("simulated failure of call %d attempt %d", c.ID, a.N)}
}

// Prepare draws method and arguments of a call without making it.
func (k *Kit) Prepare(ctx context.Context, st string, only ...string) *Call {
	ms := methods
	if len(only) > 0 {
		ms = only
	}
	m := ms[simrt.Choose(st, len(ms))]
	k.nextID++
	c := &Call{ID: k.nextID, Method: m}
	c.Args = k.args(st, m, c.ID)
	c.Ctx = context.WithValue(ctx, ctxKey{}, c.ID)
	k.byID[c.ID] = c
	k.Calls = append(k.Calls, c)
	return c
}

// Do makes one call with drawn method and arguments and records it.
func (k *Kit) Do(ctx context.Context, st string, t API, only ...string) *Call {
	return k.Make(k.Prepare(ctx, st, only...), t)
}

// Make makes a prepared call and records it.
func (k *Kit) Make(c *Call, t API) *Call {
	m := c.Method
	c.Start, c.Seq = simrt.Now(), simrt.Seq()
	simrt.Logf("call %d %s starts", c.ID, m)
	switch m {
	case "Do":
		a, b, err := t.Do(c.Ctx, c.Args[0].(int64), c.Args[1].(string))
		c.Rets, c.Err = []any{a, b}, err
	case "Put":
		c.Rets, c.Err = []any{}, t.Put(c.Ctx, c.Args[0].(target.Item), c.Args[1].([]string))
	case "List":
		a, b, err := t.List(c.Ctx, c.Args[0].(int), c.Args[1].(bool))
		c.Rets, c.Err = []any{a, b}, err
	case "Get":
		a, err := t.Get(c.Ctx, c.Args[0].(string))
		c.Rets, c.Err = []any{a}, err
	case "Ping":
		c.Rets, c.Err = []any{}, t.Ping(c.Ctx)
	}
	c.End, c.SeqEnd = simrt.Now(), simrt.Seq()
	simrt.Logf("call %d %s returns: %v", c.ID, m, c.Err)
	return c
}

// SameResults reports whether the call returned what the attempt did.
func SameResults(c *Call, a *Attempt) bool {
	r := a.Rets
	if r == nil {
		r = Zero(c.Method)
	}
	return reflect.DeepEqual(c.Rets, r)
}

// IsFailure reports whether err is (or wraps) the failure the attempt returned.
func IsFailure(err error, a *Attempt) bool { return err == a.Err || errors.Is(err, a.Err) }

// IsCtx reports whether err is a context error.
func IsCtx(err error) bool {
	return errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded)
}
