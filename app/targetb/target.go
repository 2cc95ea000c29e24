// Package targetb is another type of service with the methods of package target.
package targetb

import (
	"context"

	"verif.local/app/target"
)

// TargetB is the called service.
type TargetB interface {
	Do(ctx context.Context, id int64, payload string) (string, int64, error)
	Put(ctx context.Context, item target.Item, tags []string) error
	List(ctx context.Context, n int, ok bool) ([]target.Item, map[string]string, error)
	Get(ctx context.Context, key string) (*target.Item, error)
	Ping(ctx context.Context) error
	KindB(ctx context.Context) error // tells the types of service apart
}

// TargetBImpl passes every call to the hook of package target.
type TargetBImpl struct{ t *target.TargetImpl }

// NewTargetBImpl makes an instance.
func NewTargetBImpl(ctx context.Context, name string) (*TargetBImpl, error) {
	t, err := target.NewTargetImpl(ctx, name)
	return &TargetBImpl{t}, err
}

// FrontB holds a client.
type FrontB interface {
	NoopB(ctx context.Context) error
}

// FrontBImpl exposes its client to the harness.
type FrontBImpl struct{ T TargetB }

// NewFrontBImpl makes a front end.
func NewFrontBImpl(ctx context.Context, t TargetB) (*FrontBImpl, error) {
	return &FrontBImpl{T: t}, nil
}

func (f *FrontBImpl) NoopB(ctx context.Context) error { return nil }

// Client returns the client, which has the methods of package target.
func (f *FrontBImpl) Client() any { return f.T }

func (t *TargetBImpl) Do(ctx context.Context, id int64, payload string) (string, int64, error) {
	return t.t.Do(ctx, id, payload)
}

func (t *TargetBImpl) Put(ctx context.Context, item target.Item, tags []string) error {
	return t.t.Put(ctx, item, tags)
}

func (t *TargetBImpl) List(ctx context.Context, n int, ok bool) ([]target.Item, map[string]string, error) {
	return t.t.List(ctx, n, ok)
}

func (t *TargetBImpl) Get(ctx context.Context, key string) (*target.Item, error) {
	return t.t.Get(ctx, key)
}

func (t *TargetBImpl) Ping(ctx context.Context) error {
	return t.t.Ping(ctx)
}

func (t *TargetBImpl) KindB(ctx context.Context) error { return nil }
