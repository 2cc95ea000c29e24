// Package targetc is another type of service with the methods of package target.
package targetc

import (
	"context"

	"verif.local/app/target"
)

// TargetC is the called service.
type TargetC interface {
	Do(ctx context.Context, id int64, payload string) (string, int64, error)
	Put(ctx context.Context, item target.Item, tags []string) error
	List(ctx context.Context, n int, ok bool) ([]target.Item, map[string]string, error)
	Get(ctx context.Context, key string) (*target.Item, error)
	Ping(ctx context.Context) error
	KindC(ctx context.Context) error // tells the types of service apart
}

// TargetCImpl passes every call to the hook of package target.
type TargetCImpl struct{ t *target.TargetImpl }

// NewTargetCImpl makes an instance.
func NewTargetCImpl(ctx context.Context, name string) (*TargetCImpl, error) {
	t, err := target.NewTargetImpl(ctx, name)
	return &TargetCImpl{t}, err
}

// FrontC holds a client.
type FrontC interface {
	NoopC(ctx context.Context) error
}

// FrontCImpl exposes its client to the harness.
type FrontCImpl struct{ T TargetC }

// NewFrontCImpl makes a front end.
func NewFrontCImpl(ctx context.Context, t TargetC) (*FrontCImpl, error) {
	return &FrontCImpl{T: t}, nil
}

func (f *FrontCImpl) NoopC(ctx context.Context) error { return nil }

// Client returns the client, which has the methods of package target.
func (f *FrontCImpl) Client() any { return f.T }

func (t *TargetCImpl) Do(ctx context.Context, id int64, payload string) (string, int64, error) {
	return t.t.Do(ctx, id, payload)
}

func (t *TargetCImpl) Put(ctx context.Context, item target.Item, tags []string) error {
	return t.t.Put(ctx, item, tags)
}

func (t *TargetCImpl) List(ctx context.Context, n int, ok bool) ([]target.Item, map[string]string, error) {
	return t.t.List(ctx, n, ok)
}

func (t *TargetCImpl) Get(ctx context.Context, key string) (*target.Item, error) {
	return t.t.Get(ctx, key)
}

func (t *TargetCImpl) Ping(ctx context.Context) error {
	return t.t.Ping(ctx)
}

func (t *TargetCImpl) KindC(ctx context.Context) error { return nil }
