package mcrt

// Zero resets *p.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// ZeroElem is the zero value of the element type of a channel.
func ZeroElem[T any](ch <-chan T) (z T) { return }

// ZeroKey is the zero value of the key type of a map.
func ZeroKey[K comparable, V any](m map[K]V) (z K) { return }

// ZeroVal is the zero value of the element type of a map.
func ZeroVal[K comparable, V any](m map[K]V) (z V) { return }

// Quiet switches scheduling points off while package variables are being initialised.
func Quiet(on bool) {
	if s != nil {
		s.quiet = on
	}
}

// DirectMode switches scheduling points off while the harness brings the system into a start state: the running thread
// is not preempted, and where it blocks, the first candidate goes on. Answers of the environment are still enumerated.
func DirectMode(on bool) {
	if !inert() {
		s.quiet = on
	}
}

// Early switches early timers on or off for the rest of the execution.
func Early(on bool) {
	if !inert() {
		s.noEarly = !on
	}
}

// At names the operation at which the thread of the handle is waiting or was interrupted.
func (h *Handle) At() string {
	if h == nil || h.t.state == finished {
		return "finished"
	}
	return h.t.where
}

// The built-in append and copy report their accesses to the race detector even from packages that are not instrumented;
// the slices of the scheduler therefore use these.

func push[T any](s []T, x T) []T {
	n := len(s)
	if n == cap(s) {
		b := make([]T, n, 2*n+4)
		for i := range s {
			b[i] = s[i]
		}
		s = b
	}
	s = s[:n+1]
	s[n] = x
	return s
}

// rest is everything but the first, in memory of its own.
func rest[T any](s []T) []T {
	if len(s) == 1 {
		return nil
	}
	b := make([]T, len(s)-1)
	for i := range b {
		b[i] = s[i+1]
	}
	return b
}

func without[T any](s []T, i int) []T {
	b := make([]T, 0, len(s))
	for k, x := range s {
		if k != i {
			b = push(b, x)
		}
	}
	return b
}

// Push and Without are for the packages around this one.
func Push(s []interface{}, x interface{}) []interface{} { return push(s, x) }
func Without(s []interface{}, i int) []interface{}      { return without(s, i) }
