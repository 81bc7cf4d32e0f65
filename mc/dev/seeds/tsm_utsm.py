import sys; sys.path.insert(0, '/verif/mc/dev')
from mkseed import seed

seed('p01-put-check-then-act', 'P01', 'two threads release the same identifier at the same time',
 'Put looks the transaction up under one lock and releases it under another, so two concurrent releases both succeed and the identifier becomes available twice',
 [('tsm/transactions.go', '''	t.mutex.Lock()
	defer t.mutex.Unlock()

	s, ok := t.states[id]
	if !ok {
		return fmt.Errorf("id %d does not exist in the transactions", id)
	}
''', '''	t.mutex.Lock()
	s, ok := t.states[id]
	t.mutex.Unlock()
	if !ok {
		return fmt.Errorf("id %d does not exist in the transactions", id)
	}

	t.mutex.Lock()
	defer t.mutex.Unlock()
''')], 'tsm', '''
package tsm

import (
	"context"
	"sync"
	"sync/atomic"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for round := 0; round < 200000; round++ {
		m := &TSM{states: map[int]*state{}}
		m.free.id = make(chan int, 4)
		m.free.space = make(chan struct{}, 4)
		m.free.id <- 1
		m.free.space <- struct{}{}
		m.pool.New = func() interface{} { return new(state) }
		id, _ := m.ID(context.Background())
		var wg sync.WaitGroup
		var ok int32
		start := make(chan struct{})
		for k := 0; k < 2; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if recover() != nil {
						atomic.AddInt32(&ok, 1)
					}
				}()
				<-start
				if m.Put(id) == nil {
					atomic.AddInt32(&ok, 1)
				}
			}()
		}
		close(start)
		wg.Wait()
		if ok != 1 {
			t.Fatalf("round %d: one identifier was released %d times", round, ok)
		}
	}
}
''')

seed('p02-late-delete', 'P02', 'a transaction is opened with an identifier between the two critical sections of its release',
 'Put gives the identifier back before the old state is removed, in a second critical section: a new transaction with this identifier loses its state, so its answer is lost',
 [('tsm/transactions.go', '''	t.free.id <- id
	t.free.space <- struct{}{}
	delete(t.states, id)
	return nil
''', '''	t.mutex.Unlock()
	t.free.id <- id
	t.free.space <- struct{}{}
	t.mutex.Lock()
	delete(t.states, id)
	return nil
''')], 'tsm', '''
package tsm

import (
	"context"
	"runtime"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for round := 0; round < 20000; round++ {
		m := &TSM{states: map[int]*state{}}
		m.free.id = make(chan int, 2)
		m.free.space = make(chan struct{}, 1)
		m.free.id <- 1
		m.free.space <- struct{}{}
		m.pool.New = func() interface{} { return new(state) }
		old, err := m.ID(context.Background())
		if err != nil {
			t.Fatal(err)
		}
		m.free.space <- struct{}{} // the release has to wait until the slot is taken
		released := make(chan struct{})
		go func() { m.Put(old); close(released) }()
		for len(m.free.id) == 0 {
			runtime.Gosched()
		}
		id, err := m.ID(context.Background())
		if err != nil || id != old {
			t.Fatal(id, err)
		}
		<-released
		m.mutex.Lock()
		_, ok := m.states[id]
		m.mutex.Unlock()
		if !ok {
			t.Fatalf("round %d: an open transaction lost its state", round)
		}
	}
}
''')

seed('p03-slot-leak-on-cancel', 'P03', 'more slots than identifiers, all identifiers in use, and the context of a waiting allocation ends',
 'an allocation that is given up while it waits for an identifier keeps the slot it had taken',
 [('tsm/transactions.go', '''			t.free.space <- struct{}{}
			return 0, fmt.Errorf("unable to get a free id: %v", err)
''', '''			return 0, fmt.Errorf("unable to get a free id: %v", err)
''')], 'tsm', '''
package tsm

import (
	"context"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	m := New(256)
	for i := 0; i < 254; i++ {
		if _, err := m.ID(context.Background()); err != nil {
			t.Fatal(err)
		}
	}
	for i := 0; i < 3; i++ {
		ctx, cancel := context.WithTimeout(context.Background(), 10*time.Millisecond)
		if _, err := m.ID(ctx); err == nil {
			t.Fatal("an identifier too many")
		}
		cancel()
	}
	if len(m.free.space) != 2 {
		t.Fatalf("%d slots left, want 2", len(m.free.space))
	}
}
''')

seed('p04-publish-snapshot', 'P04', 'a subscriber leaves while a publication to several subscribers is in progress',
 'Publish walks over the subscriber list without the lock; a subscriber that leaves meanwhile shifts the list under it, and the next subscriber misses the publication',
 [('utsm/utsm.go', '''	m.mutex.Lock()
	defer m.mutex.Unlock()

	for _, s := range m.subs {
		if id >= s.start''', '''	m.mutex.Lock()
	subs := m.subs
	m.mutex.Unlock()

	for _, s := range subs {
		if s == nil {
			continue
		}
		if id >= s.start''')], 'utsm', '''
package utsm

import (
	"testing"
	"time"
)

// One subscriber does not receive (its buffer is full) while a publication is made, and then leaves.
func TestZZDemo(t *testing.T) {
	m := NewManager(DefaultSubscriberTimeout(time.Second), DefaultSubscriberLastReceivedTimeout(300*time.Millisecond))
	a := m.newSubscriber(1, 5, nil)
	got := make(chan []interface{})
	go func() {
		v, _ := m.Subscribe(1, 5)
		got <- v
	}()
	go func() {
		v, _ := m.Subscribe(1, 5)
		got <- v
	}()
	time.Sleep(50 * time.Millisecond)
	m.Publish(3, "x")
	go m.Publish(3, "y")
	time.Sleep(50 * time.Millisecond)
	// a leaves as Subscribe does
	left := make(chan struct{})
	go func() { m.removeSubscriber(a); close(left) }()
	time.Sleep(20 * time.Millisecond)
	close(a.done)
	<-left
	for k := 0; k < 2; k++ {
		if v := <-got; len(v) != 2 {
			t.Errorf("a subscriber that stayed got %v, want [x y]", v)
		}
	}
}
''')

seed('p05-idle-clock-of-others', 'P05', 'publications outside the range of a subscriber keep coming in while it is idle',
 'every publication restarts the idle time of every subscriber, also of those it is not meant for: with other traffic a subscription lasts until its overall time is over',
 [('utsm/utsm.go', '''		if id >= s.start && id <= s.end {
			s.mutex.Lock()
			s.lastReceived = time.Now()
			s.mutex.Unlock()
''', '''		s.mutex.Lock()
		s.lastReceived = time.Now()
		s.mutex.Unlock()
		if id >= s.start && id <= s.end {
''')], 'utsm', '''
package utsm

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	m := NewManager(DefaultSubscriberTimeout(5*time.Second), DefaultSubscriberLastReceivedTimeout(200*time.Millisecond))
	stop := make(chan struct{})
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(50 * time.Millisecond):
				m.Publish(9, "other")
			}
		}
	}()
	start := time.Now()
	m.Subscribe(1, 5)
	close(stop)
	if d := time.Since(start); d > 2*time.Second {
		t.Fatalf("subscription lasted %v without a publication in its range, its idle time is 200ms", d)
	}
}
''')
