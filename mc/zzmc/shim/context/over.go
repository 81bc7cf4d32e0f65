// Package context replaces the standard package in rewritten code: contexts under virtual time.
package context

import (
	"context"
	"time"

	"github.com/NubeDev/bacnet/zzmc/mcrt"
)

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c, f := mcrt.WithCancel(parent, time.Time{}, false, nil)
	return c, func() { f(nil) }
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c, f := mcrt.WithCancel(parent, time.Time{}, false, nil)
	return c, func(cause error) { f(cause) }
}

func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	c, f := mcrt.WithCancel(parent, d, true, nil)
	return c, func() { f(nil) }
}

func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	c, f := mcrt.WithCancel(parent, d, true, cause)
	return c, func() { f(nil) }
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, mcrt.NowTime().Add(d))
}

func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, mcrt.NowTime().Add(d), cause)
}

func Cause(c context.Context) error { return mcrt.Cause(c) }

func AfterFunc(ctx context.Context, f func()) (stop func() bool) {
	stopped := make(chan struct{})
	started := false
	mcrt.Go(func() {
		if mcrt.Select(false, mcrt.RecvCase(ctx.Done()), mcrt.RecvCase((<-chan struct{})(stopped))) == 0 {
			started = true
			f()
		}
	})
	closed := false
	return func() bool {
		if started || closed {
			return false
		}
		closed = true
		mcrt.Close(stopped)
		return true
	}
}
