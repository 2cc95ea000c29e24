// Package target is the workflow that the generated-code harnesses compile
// with the real compiler: a service whose behaviour the harness supplies.
package target

import "context"

// Item is a structured argument.
type Item struct {
	ID    int64
	Name  string
	Tags  []string
	Attrs map[string]int64
	Sub   Sub
	Ref   *Sub
}

// Sub is a nested structure.
type Sub struct {
	A int32
	B bool
	F float64
}

// Target is the called service.
type Target interface {
	Do(ctx context.Context, id int64, payload string) (string, int64, error)
	Put(ctx context.Context, item Item, tags []string) error
	List(ctx context.Context, n int, ok bool) ([]Item, map[string]string, error)
	Get(ctx context.Context, key string) (*Item, error)
	Ping(ctx context.Context) error
	KindA(ctx context.Context) error // tells the types of service apart
}

// Call describes one invocation that reached an instance of the service.
type Call struct {
	Inst   string
	Method string
	Args   []any
}

// Hook decides what an instance does; the harness sets it.
var Hook func(ctx context.Context, c Call) ([]any, error)

// Made counts constructions, by name.
var Made func(name string)

// TargetImpl passes every call to Hook.
type TargetImpl struct{ name string }

// NewTargetImpl makes an instance.
func NewTargetImpl(ctx context.Context, name string) (*TargetImpl, error) {
	if Made != nil {
		Made(name)
	}
	return &TargetImpl{name}, nil
}

func (t *TargetImpl) Do(ctx context.Context, id int64, payload string) (string, int64, error) {
	r, err := Hook(ctx, Call{t.name, "Do", []any{id, payload}})
	if r == nil {
		return "", 0, err
	}
	return r[0].(string), r[1].(int64), err
}

func (t *TargetImpl) Put(ctx context.Context, item Item, tags []string) error {
	_, err := Hook(ctx, Call{t.name, "Put", []any{item, tags}})
	return err
}

func (t *TargetImpl) List(ctx context.Context, n int, ok bool) ([]Item, map[string]string, error) {
	r, err := Hook(ctx, Call{t.name, "List", []any{n, ok}})
	if r == nil {
		return nil, nil, err
	}
	return r[0].([]Item), r[1].(map[string]string), err
}

func (t *TargetImpl) Get(ctx context.Context, key string) (*Item, error) {
	r, err := Hook(ctx, Call{t.name, "Get", []any{key}})
	if r == nil {
		return nil, err
	}
	return r[0].(*Item), err
}

func (t *TargetImpl) Ping(ctx context.Context) error {
	_, err := Hook(ctx, Call{t.name, "Ping", nil})
	return err
}

// Front holds a client of the target, as any service that depends on it does.
type Front interface {
	Noop(ctx context.Context) error
}

// FrontImpl exposes its client to the harness.
type FrontImpl struct{ T Target }

// NewFrontImpl makes a front end.
func NewFrontImpl(ctx context.Context, t Target) (*FrontImpl, error) { return &FrontImpl{T: t}, nil }

func (f *FrontImpl) Noop(ctx context.Context) error { return nil }

// Client returns the client, which has the methods of package target.
func (f *FrontImpl) Client() any { return f.T }

func (t *TargetImpl) KindA(ctx context.Context) error { return nil }
