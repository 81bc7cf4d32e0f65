// Package sync replaces the standard package in rewritten code.
package sync

import "github.com/NubeDev/bacnet/zzmc/mcrt"

type Mutex = mcrt.Mutex
type RWMutex = mcrt.RWMutex
type WaitGroup = mcrt.WaitGroup
type Once = mcrt.Once
type Cond = mcrt.Cond
type Pool = mcrt.Pool
type Locker = mcrt.Locker

func NewCond(l Locker) *Cond { return mcrt.NewCond(l) }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// Map models sync.Map with a lock around a plain association list (insertion order).
type Map struct {
	m    mcrt.Mutex
	keys []interface{}
	vals []interface{}
}

func (m *Map) find(k interface{}) int {
	for i, x := range m.keys {
		if x == k {
			return i
		}
	}
	return -1
}

func (m *Map) Load(key interface{}) (value interface{}, ok bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if i := m.find(key); i >= 0 {
		return m.vals[i], true
	}
	return nil, false
}

func (m *Map) Store(key, value interface{}) { m.Swap(key, value) }

func (m *Map) Swap(key, value interface{}) (previous interface{}, loaded bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if i := m.find(key); i >= 0 {
		p := m.vals[i]
		m.vals[i] = value
		return p, true
	}
	m.keys = mcrt.Push(m.keys, key)
	m.vals = mcrt.Push(m.vals, value)
	return nil, false
}

func (m *Map) LoadOrStore(key, value interface{}) (actual interface{}, loaded bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if i := m.find(key); i >= 0 {
		return m.vals[i], true
	}
	m.keys = mcrt.Push(m.keys, key)
	m.vals = mcrt.Push(m.vals, value)
	return value, false
}

func (m *Map) LoadAndDelete(key interface{}) (value interface{}, loaded bool) {
	m.m.Lock()
	defer m.m.Unlock()
	i := m.find(key)
	if i < 0 {
		return nil, false
	}
	v := m.vals[i]
	m.keys = mcrt.Without(m.keys, i)
	m.vals = mcrt.Without(m.vals, i)
	return v, true
}

func (m *Map) Delete(key interface{}) { m.LoadAndDelete(key) }

func (m *Map) CompareAndSwap(key, old, new interface{}) bool {
	m.m.Lock()
	defer m.m.Unlock()
	if i := m.find(key); i >= 0 && m.vals[i] == old {
		m.vals[i] = new
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(key, old interface{}) bool {
	m.m.Lock()
	defer m.m.Unlock()
	if i := m.find(key); i >= 0 && m.vals[i] == old {
		m.keys = mcrt.Without(m.keys, i)
		m.vals = mcrt.Without(m.vals, i)
		return true
	}
	return false
}

func (m *Map) Clear() {
	m.m.Lock()
	defer m.m.Unlock()
	m.keys, m.vals = nil, nil
}

func (m *Map) Range(f func(key, value interface{}) bool) {
	m.m.Lock()
	ks := mcrt.Without(m.keys, -1)
	m.m.Unlock()
	for _, k := range ks {
		if v, ok := m.Load(k); ok {
			if !f(k, v) {
				return
			}
		}
	}
}
