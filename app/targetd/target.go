// Package targetd is another type of service with the methods of package target.
package targetd

import (
	"context"

	"verif.local/app/target"
)

// TargetD is the called service.
type TargetD interface {
	Do(ctx context.Context, id int64, payload string) (string, int64, error)
	Put(ctx context.Context, item target.Item, tags []string) error
	List(ctx context.Context, n int, ok bool) ([]target.Item, map[string]string, error)
	Get(ctx context.Context, key string) (*target.Item, error)
	Ping(ctx context.Context) error
	KindD(ctx context.Context) error // tells the types of service apart
}

// TargetDImpl passes every call to the hook of package target.
type TargetDImpl struct{ t *target.TargetImpl }

// NewTargetDImpl makes an instance.
func NewTargetDImpl(ctx context.Context, name string) (*TargetDImpl, error) {
	t, err := target.NewTargetImpl(ctx, name)
	return &TargetDImpl{t}, err
}

// FrontD holds a client.
type FrontD interface {
	NoopD(ctx context.Context) error
}

// FrontDImpl exposes its client to the harness.
type FrontDImpl struct{ T TargetD }

// NewFrontDImpl makes a front end.
func NewFrontDImpl(ctx context.Context, t TargetD) (*FrontDImpl, error) {
	return &FrontDImpl{T: t}, nil
}

func (f *FrontDImpl) NoopD(ctx context.Context) error { return nil }

// Client returns the client, which has the methods of package target.
func (f *FrontDImpl) Client() any { return f.T }

func (t *TargetDImpl) Do(ctx context.Context, id int64, payload string) (string, int64, error) {
	return t.t.Do(ctx, id, payload)
}

func (t *TargetDImpl) Put(ctx context.Context, item target.Item, tags []string) error {
	return t.t.Put(ctx, item, tags)
}

func (t *TargetDImpl) List(ctx context.Context, n int, ok bool) ([]target.Item, map[string]string, error) {
	return t.t.List(ctx, n, ok)
}

func (t *TargetDImpl) Get(ctx context.Context, key string) (*target.Item, error) {
	return t.t.Get(ctx, key)
}

func (t *TargetDImpl) Ping(ctx context.Context) error {
	return t.t.Ping(ctx)
}

func (t *TargetDImpl) KindD(ctx context.Context) error { return nil }
