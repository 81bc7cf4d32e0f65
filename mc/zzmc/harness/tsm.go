package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	zctx "github.com/NubeDev/bacnet/zzmc/shim/context"

	"github.com/NubeDev/bacnet/tsm"
	"github.com/NubeDev/bacnet/zzmc/mcrt"
	"github.com/NubeDev/bacnet/zzmc/xp"
)

const second = time.Second

// ledger follows which identifiers are held, as seen by the callers.
type ledger struct {
	size int
	held []int
}

// got is called when ID returned id; the identifier must be free from the callers' point of view.
func (l *ledger) got(id int) {
	if id < 1 || id > 254 {
		mcrt.Fail("identifier %d is outside 1..254", id)
	}
	for _, h := range l.held {
		if h == id {
			mcrt.Fail("identifier %d was handed out while another transaction held it", id)
		}
	}
	l.held = append(l.held, id)
	if len(l.held) > l.size {
		mcrt.Fail("%d transactions are open, the limit is %d", len(l.held), l.size)
	}
}

// releasing is called before Put.
func (l *ledger) releasing(id int) {
	for i, h := range l.held {
		if h == id {
			l.held = append(l.held[:i], l.held[i+1:]...)
			return
		}
	}
}

// drainAndFill checks that exactly size transactions can be opened now.
func drainAndFill(t *tsm.TSM, size int) {
	mcrt.Early(false)
	ctx, cancel := zctx.WithTimeout(context.Background(), time.Second)
	seen := map[int]bool{}
	var ids []int
	for i := 0; i < size; i++ {
		id, err := t.ID(ctx)
		if err != nil {
			mcrt.Fail("only %d of %d slots can be used: %v", i, size, err)
		}
		if seen[id] || id < 1 || id > 254 {
			mcrt.Fail("identifier %d handed out twice or out of range", id)
		}
		seen[id] = true
		ids = append(ids, id)
	}
	cancel()
	ctx, cancel = zctx.WithTimeout(context.Background(), 10*time.Millisecond)
	if id, err := t.ID(ctx); err == nil {
		mcrt.Fail("transaction %d was opened beyond the limit of %d", id, size)
	}
	cancel()
	for _, id := range ids {
		if err := t.Put(id); err != nil {
			mcrt.Fail("release of held identifier %d failed: %v", id, err)
		}
	}
}

func joinAll(hs ...*mcrt.Handle) {
	for _, h := range hs {
		h.Join()
	}
}

func init() {
	tsmCfg := mcrt.Config{SwitchCost: 0, EarlyTimers: true, EnvCost: 1, MapOrder: 3}

	// P01: concurrent allocation and release.
	for _, v := range []struct{ size, threads, rounds, quick, deep int }{{1, 2, 2, 3, 5}, {1, 3, 1, 3, 4}, {2, 3, 1, 2, 4}, {2, 2, 3, 2, 4}, {3, 3, 2, 2, 3}} {
		v := v
		xp.Add(&xp.Unit{Prop: "P01", Name: fmt.Sprintf("alloc-size%d-%dx%d", v.size, v.threads, v.rounds), Cfg: tsmCfg, Quick: v.quick, Deep: v.deep, Body: func() {
			t := tsm.New(v.size)
			l := &ledger{size: v.size}
			var hs []*mcrt.Handle
			for k := 0; k < v.threads; k++ {
				hs = append(hs, mcrt.GoHarness(fmt.Sprintf("user%d", k), func() {
					for r := 0; r < v.rounds; r++ {
						ctx, cancel := zctx.WithTimeout(context.Background(), 3*time.Second)
						id, err := t.ID(ctx)
						cancel()
						if err != nil {
							mcrt.Log("expired")
							continue
						}
						l.got(id)
						mcrt.Yield()
						l.releasing(id)
						if err := t.Put(id); err != nil {
							mcrt.Fail("release of held identifier %d failed: %v", id, err)
						}
					}
				}))
			}
			joinAll(hs...)
			drainAndFill(t, v.size)
			mcrt.Log("held %d", len(l.held))
		}})
	}

	// P01: more releases than allocations, from several threads, must not duplicate identifiers.
	xp.Add(&xp.Unit{Prop: "P01", Name: "double-release", Cfg: tsmCfg, Quick: 4, Deep: 6, Body: func() {
		t := tsm.New(2)
		l := &ledger{size: 2}
		ctx := context.Background()
		id, err := t.ID(ctx)
		if err != nil {
			mcrt.Fail("ID: %v", err)
		}
		ok := 0
		rel := func() {
			if t.Put(id) == nil {
				ok++
			}
		}
		a, b := mcrt.GoHarness("put1", rel), mcrt.GoHarness("put2", rel)
		joinAll(a, b)
		mcrt.Early(false)
		if ok != 1 {
			mcrt.Fail("identifier %d was released %d times", id, ok)
		}
		for i := 0; i < 2; i++ {
			c, cancel := zctx.WithTimeout(context.Background(), time.Second)
			x, err := t.ID(c)
			cancel()
			if err != nil {
				mcrt.Fail("slot lost: %v", err)
			}
			l.got(x)
		}
		mcrt.Log("held %v", l.held)
	}})

	// P01: the whole identifier space, every start position of the cyclic queue that 600 operations reach.
	xp.Add(&xp.Unit{Prop: "P01", Name: "whole-space", Cfg: mcrt.Config{MaxSteps: 1 << 20}, Quick: 0, Body: func() {
		sizes := []int{1, 20, 254, 255, 300}
		size := sizes[mcrt.ChooseFree(len(sizes), "size")]
		strideOf := []int{1, 2, 7}[mcrt.ChooseFree(3, "release order")]
		t := tsm.New(size)
		limit := size
		if limit > 254 {
			limit = 254
		}
		l := &ledger{size: limit}
		open := []int{}
		ctx, cancel := zctx.WithCancel(context.Background())
		for round := 0; round < 3; round++ {
			for len(open) < limit {
				id, err := t.ID(ctx)
				if err != nil {
					mcrt.Fail("ID: %v", err)
				}
				l.got(id)
				open = append(open, id)
			}
			short, cancel2 := zctx.WithTimeout(context.Background(), time.Millisecond)
			if id, err := t.ID(short); err == nil {
				mcrt.Fail("identifier %d handed out although %d are held", id, len(open))
			}
			cancel2()
			for i := 0; len(open) > 0; i++ {
				k := (i * strideOf) % len(open)
				id := open[k]
				open = append(open[:k], open[k+1:]...)
				l.releasing(id)
				if err := t.Put(id); err != nil {
					mcrt.Fail("Put(%d): %v", id, err)
				}
			}
		}
		cancel()
		mcrt.Log("size %d stride %d", size, strideOf)
	}})

	// P01/P03: after any number of transactions, one after the other or a few at once, all identifiers can still be
	// held at once, and each is another.
	for _, p := range []string{"P01", "P03"} {
		xp.Add(&xp.Unit{Prop: p, Name: "churn", Cfg: mcrt.Config{MaxSteps: 1 << 20}, Quick: 0, Body: func() {
			size := []int{20, 254, 255, 1000}[mcrt.ChooseFree(4, "size")]
			wide := []int{1, 2, 3, 19}[mcrt.ChooseFree(4, "at once")]
			times := []int{1, 2, 12, 253, 254, 255, 300}[mcrt.ChooseFree(7, "times")]
			order := mcrt.ChooseFree(3, "release order")
			limit := size
			if limit > 254 {
				limit = 254
			}
			t, l := tsm.New(size), &ledger{size: limit}
			ctx, cancel := zctx.WithCancel(context.Background())
			turn := func(n, i int) {
				var open []int
				for len(open) < n {
					id, err := t.ID(ctx)
					if err != nil {
						mcrt.Fail("ID: %v", err)
					}
					l.got(id)
					open = append(open, id)
				}
				for len(open) > 0 {
					k := 0
					if order == 1 || order == 2 && i%2 == 1 {
						k = len(open) - 1
					}
					id := open[k]
					open = append(open[:k], open[k+1:]...)
					l.releasing(id)
					if err := t.Put(id); err != nil {
						mcrt.Fail("Put(%d): %v", id, err)
					}
				}
			}
			for i := 0; i < times; i++ {
				turn(wide, i)
			}
			turn(limit, 0)
			turn(limit, 1)
			cancel()
			mcrt.Log("size %d", size)
		}})
	}

	// P01/P03: all histories of operations up to a depth against a reference model (single threaded).
	for _, p := range []string{"P01", "P03"} {
		for _, size := range []int{1, 2} {
			size := size
			p := p
			xp.Add(&xp.Unit{Prop: p, Name: fmt.Sprintf("histories-size%d", size), Cfg: mcrt.Config{}, Quick: 0, Body: func() {
				depth := 6
				if xp.Deep {
					depth = 8
				}
				tsmHistory(size, depth)
			}})
		}
	}

	// P02: delivery, release and reuse.
	xp.Add(&xp.Unit{Prop: "P02", Name: "send-receive-put", Cfg: tsmCfg, Quick: 5, Deep: 7, Body: func() { sendReceivePut(1, false) }})
	xp.Add(&xp.Unit{Prop: "P02", Name: "two-senders", Cfg: tsmCfg, Quick: 3, Deep: 5, Body: func() { sendReceivePut(2, false) }})
	xp.Add(&xp.Unit{Prop: "P02", Name: "sender-and-reuse", Cfg: tsmCfg, Quick: 4, Deep: 6, Body: func() { sendReceivePut(1, true) }})
	xp.Add(&xp.Unit{Prop: "P02", Name: "two-senders-and-reuse", Cfg: tsmCfg, Quick: 3, Deep: 4, Body: func() { sendReceivePut(2, true) }})
	xp.Add(&xp.Unit{Prop: "P02", Name: "two-transactions", Cfg: tsmCfg, Quick: 2, Deep: 3, Body: func() { twoTransactions() }})
	xp.Add(&xp.Unit{Prop: "P02", Name: "two-receivers", Cfg: tsmCfg, Quick: 2, Deep: 4, Body: func() { twoReceivers() }})

	// P03: allocation that waits, fails or is cancelled.
	waiting := func(exact bool) {
		t := tsm.New(1)
		l := &ledger{size: 1}
		id, err := t.ID(context.Background())
		if err != nil {
			mcrt.Fail("ID: %v", err)
		}
		l.got(id)
		var hs []*mcrt.Handle
		res := make([]string, 2)
		for k := 0; k < 2; k++ {
			k := k
			hs = append(hs, mcrt.GoHarness(fmt.Sprintf("waiter%d", k), func() {
				ctx, cancel := zctx.WithTimeout(context.Background(), time.Second)
				id, err := t.ID(ctx)
				cancel()
				if err != nil {
					res[k] = "expired"
					if mcrt.NowNS() < second {
						mcrt.Fail("allocation failed %v before its deadline: %v", second-mcrt.NowNS(), err)
					}
					return
				}
				res[k] = "got"
				l.got(id)
				mcrt.Sleep(300 * time.Millisecond)
				l.releasing(id)
				if err := t.Put(id); err != nil {
					mcrt.Fail("Put: %v", err)
				}
			}))
		}
		after := []time.Duration{500 * time.Millisecond, time.Second, 2 * time.Second}[mcrt.ChooseFree(3, "release after")]
		mcrt.Sleep(after)
		l.releasing(id)
		if err := t.Put(id); err != nil {
			mcrt.Fail("Put: %v", err)
		}
		joinAll(hs...)
		if exact && after == 500*time.Millisecond && (res[0] != "got" || res[1] != "got") {
			mcrt.Fail("a waiting allocation did not get the released slot: %v", res)
		}
		if exact && after == 2*time.Second && (res[0] != "expired" || res[1] != "expired") {
			mcrt.Fail("allocation outlived its context: %v", res)
		}
		drainAndFill(t, 1)
		mcrt.Log("%v %s", after, strings.Join(res, ","))
	}
	exactCfg := tsmCfg
	exactCfg.EarlyTimers = false
	for _, p := range []string{"P01", "P02", "P03"} {
		xp.Add(&xp.Unit{Prop: p, Name: "handover", Cfg: tsmCfg, Quick: 4, Deep: 6, Body: handover})
	}
	xp.Add(&xp.Unit{Prop: "P03", Name: "waiting-allocation", Cfg: exactCfg, Quick: 4, Deep: 6, Body: func() { waiting(true) }})
	xp.Add(&xp.Unit{Prop: "P03", Name: "waiting-allocation-slow", Cfg: tsmCfg, Quick: 3, Deep: 5, Body: func() { waiting(false) }})
	xp.Add(&xp.Unit{Prop: "P03", Name: "cancelled-allocation", Cfg: tsmCfg, Quick: 4, Deep: 6, Body: func() {
		size := 1 + mcrt.ChooseFree(2, "size")
		t := tsm.New(size)
		l := &ledger{size: size}
		ctx, cancel := zctx.WithCancel(context.Background())
		var hs []*mcrt.Handle
		n := 0
		for k := 0; k < 2; k++ {
			hs = append(hs, mcrt.GoHarness(fmt.Sprintf("alloc%d", k), func() {
				id, err := t.ID(ctx)
				if err != nil {
					n++
					return
				}
				l.got(id)
				l.releasing(id)
				if err := t.Put(id); err != nil {
					mcrt.Fail("Put: %v", err)
				}
			}))
		}
		hs = append(hs, mcrt.GoHarness("cancel", func() { cancel() }))
		joinAll(hs...)
		drainAndFill(t, size)
		mcrt.Log("size %d failed %d", size, n)
	}})
	xp.Add(&xp.Unit{Prop: "P03", Name: "cancelled-without-identifier", Cfg: mcrt.Config{SwitchCost: 1, EnvCost: 1, MaxSteps: 1 << 20}, Quick: 2, Deep: 3, Body: func() {
		// more slots than identifiers: an allocation can hold a slot and wait for an identifier
		size := 256
		t := tsm.New(size)
		var ids []int
		for i := 0; i < 254; i++ {
			id, err := t.ID(context.Background())
			if err != nil {
				mcrt.Fail("ID: %v", err)
			}
			ids = append(ids, id)
		}
		ctx, cancel := zctx.WithTimeout(context.Background(), time.Second)
		var hs []*mcrt.Handle
		for k := 0; k < 3; k++ {
			hs = append(hs, mcrt.GoHarness(fmt.Sprintf("alloc%d", k), func() {
				if id, err := t.ID(ctx); err == nil {
					mcrt.Fail("identifier %d handed out although all are held", id)
				}
			}))
		}
		joinAll(hs...)
		cancel()
		sort.Ints(ids)
		for _, id := range ids {
			if err := t.Put(id); err != nil {
				mcrt.Fail("Put(%d): %v", id, err)
			}
		}
		drainAndFill(t, 254)
		mcrt.Log("done")
	}})
}

// tsmHistory runs one history of operations; the explorer enumerates all of them.
func tsmHistory(size, depth int) {
	t := tsm.New(size)
	var open []int // held identifiers in order of allocation
	ever := []int{}
	isOpen := func(id int) bool {
		for _, x := range open {
			if x == id {
				return true
			}
		}
		return false
	}
	var trace []string
	for i := 0; i < depth; i++ {
		switch op := mcrt.ChooseFree(7, "op"); op {
		case 0: // stop here
			i = depth
		case 1, 2: // allocate with a context that ends; with one that has ended already
			ctx, cancel := zctx.WithTimeout(context.Background(), 10*time.Millisecond)
			ended := op == 2
			if ended {
				cancel()
			}
			t0 := mcrt.NowNS()
			id, err := t.ID(ctx)
			cancel()
			if err == nil {
				if len(open) >= size {
					mcrt.Fail("transaction %d opened beyond the limit of %d (history %v)", id, size, trace)
				}
				if isOpen(id) || id < 1 || id > 254 {
					mcrt.Fail("identifier %d handed out, held %v (history %v)", id, open, trace)
				}
				open = append(open, id)
				ever = append(ever, id)
				trace = append(trace, "alloc")
			} else {
				if len(open) < size && !ended {
					mcrt.Fail("no slot although only %d of %d are in use: %v (history %v)", len(open), size, err, trace)
				}
				if !ended && mcrt.NowNS()-t0 < 10*time.Millisecond {
					mcrt.Fail("allocation failed before its context ended (history %v)", trace)
				}
				trace = append(trace, "refused")
			}
		case 3, 4: // release the oldest, the newest
			if len(open) == 0 {
				continue
			}
			k := 0
			if op == 4 {
				k = len(open) - 1
			}
			id := open[k]
			if err := t.Put(id); err != nil {
				mcrt.Fail("release of held identifier %d failed: %v (history %v)", id, err, trace)
			}
			open = append(open[:k], open[k+1:]...)
			trace = append(trace, fmt.Sprintf("put%d", k))
		case 5: // release something that is not held
			cand := []int{0, -1, 255, 256, 1, 2}
			for _, id := range ever {
				cand = append(append(cand, id), near(id)...)
			}
			for _, id := range cand {
				if isOpen(id) {
					continue
				}
				if err := t.Put(id); err == nil {
					mcrt.Fail("release of identifier %d, which is not held, succeeded (history %v)", id, trace)
				}
			}
			trace = append(trace, "badput")
		case 6: // send to and receive from something that is not held
			cand := []int{0, 255, 3}
			for _, id := range ever {
				cand = append(append(cand, id), near(id)...)
			}
			for _, id := range cand {
				if isOpen(id) {
					continue
				}
				if err := t.Send(id, 1); err == nil {
					mcrt.Fail("send to identifier %d, which is not held, succeeded (history %v)", id, trace)
				}
				if v, err := t.Receive(id, time.Millisecond); err == nil {
					mcrt.Fail("receive from identifier %d, which is not held, gave %v (history %v)", id, v, trace)
				}
			}
			for _, id := range open {
				if v, err := t.Receive(id, time.Millisecond); err == nil {
					mcrt.Fail("receive from identifier %d gave %v although nothing was sent (history %v)", id, v, trace)
				}
			}
			trace = append(trace, "badsend")
		}
	}
	for _, id := range open {
		if err := t.Put(id); err != nil {
			mcrt.Fail("release of held identifier %d failed: %v (history %v)", id, err, trace)
		}
	}
	drainAndFill(t, size)
	mcrt.Log("%d open at the end", len(open))
}

// txn is one transaction as its user sees it.
type txn struct {
	serial   int
	id       int
	released bool
}

// sendReceivePut: a user opens a transaction, waits for an answer, releases it, and (with reuse) opens another one with
// the same identifier; senders answer the identifier at any moment.
func sendReceivePut(senders int, reuse bool) {
	t := tsm.New(1)
	type send struct {
		val    string
		h      *mcrt.Handle
		called bool
		held   int // the transaction that held the identifier when Send was called, 0: none
		bound  int // the transaction that held it when Send had already got beyond its look-up, 0: open
	}
	var sends []*send
	received := map[string]int{}
	id, err := t.ID(context.Background())
	if err != nil {
		mcrt.Fail("ID: %v", err)
	}
	holder := 1
	for k := 0; k < senders; k++ {
		x := &send{val: fmt.Sprintf("v%d", k)}
		sends = append(sends, x)
		x.h = mcrt.GoHarness(fmt.Sprintf("sender%d", k), func() {
			x.held, x.called = holder, true
			err := t.Send(id, x.val)
			if x.held == 0 && err == nil && !reuse {
				mcrt.Fail("Send to a released transaction reported success")
			}
			if err != nil && received[x.val] > 0 {
				mcrt.Fail("Send failed (%v) although its value was received", err)
			}
		})
	}
	use := func(serial int) {
		v, err := t.Receive(id, time.Second)
		if err == nil {
			s, _ := v.(string)
			received[s]++
			if received[s] > 1 {
				mcrt.Fail("value %q was received twice", s)
			}
			known := false
			for _, e := range sends {
				if e.val == s && e.called {
					known = true
					if e.bound != 0 && e.bound != serial {
						mcrt.Fail("transaction %d received %q, which was on its way to transaction %d", serial, s, e.bound)
					}
				}
			}
			if !known {
				mcrt.Fail("received %v, which nobody sent", v)
			}
			mcrt.Log("t%d %s", serial, s)
		} else {
			mcrt.Log("t%d timeout", serial)
		}
		for _, e := range sends {
			if at := e.h.At(); e.called && e.bound == 0 && (strings.HasPrefix(at, "send") || strings.HasPrefix(at, "select")) {
				e.bound = serial
			}
		}
		holder = 0
		if err := t.Put(id); err != nil {
			mcrt.Fail("Put: %v", err)
		}
	}
	use(1)
	if reuse {
		// bring the same identifier back into use
		mcrt.DirectMode(true)
		for i := 0; ; i++ {
			again, err := t.ID(context.Background())
			if err != nil {
				mcrt.Fail("ID: %v", err)
			}
			if again == id || i > 600 {
				if again != id {
					mcrt.Fail("identifier %d is never handed out again", id)
				}
				break
			}
			t.Put(again)
		}
		mcrt.DirectMode(false)
		holder = 2
		use(2)
	}
	mcrt.Early(false)
	releasedAt := mcrt.NowNS()
	for _, e := range sends {
		e.h.Join()
	}
	if mcrt.NowNS() > releasedAt+3*second {
		mcrt.Fail("a sender stayed blocked for %v after the release", mcrt.NowNS()-releasedAt)
	}
	drainAndFill(t, 1)
}

// twoTransactions: two open transactions, a sender for each, answers crossing.
func twoTransactions() {
	t := tsm.New(2)
	var hs []*mcrt.Handle
	ids := make([]int, 2)
	for k := range ids {
		id, err := t.ID(context.Background())
		if err != nil {
			mcrt.Fail("ID: %v", err)
		}
		ids[k] = id
	}
	for k := 0; k < 2; k++ {
		k := k
		hs = append(hs, mcrt.GoHarness(fmt.Sprintf("user%d", k), func() {
			v, err := t.Receive(ids[k], time.Second)
			if err == nil && v != fmt.Sprintf("for%d", k) {
				mcrt.Fail("transaction %d received %v", k, v)
			}
			if err == nil {
				mcrt.Log("u%d ok", k)
			} else {
				mcrt.Log("u%d timeout", k)
			}
			if err := t.Put(ids[k]); err != nil {
				mcrt.Fail("Put: %v", err)
			}
		}))
		hs = append(hs, mcrt.GoHarness(fmt.Sprintf("sender%d", k), func() { t.Send(ids[k], fmt.Sprintf("for%d", k)) }))
	}
	joinAll(hs...)
	drainAndFill(t, 2)
}

// twoReceivers: one transaction, two receivers, two values: every value at most once, and a value accepted by Send is
// received.
func twoReceivers() {
	t := tsm.New(1)
	id, err := t.ID(context.Background())
	if err != nil {
		mcrt.Fail("ID: %v", err)
	}
	var got []string
	sentOK := 0
	var hs []*mcrt.Handle
	for k := 0; k < 2; k++ {
		k := k
		hs = append(hs, mcrt.GoHarness(fmt.Sprintf("recv%d", k), func() {
			if v, err := t.Receive(id, time.Second); err == nil {
				got = append(got, fmt.Sprint(v))
			}
		}))
		hs = append(hs, mcrt.GoHarness(fmt.Sprintf("send%d", k), func() {
			if t.Send(id, fmt.Sprintf("v%d", k)) == nil {
				sentOK++
			}
		}))
	}
	mcrt.Sleep(5 * second)
	if err := t.Put(id); err != nil {
		mcrt.Fail("Put: %v", err)
	}
	joinAll(hs...)
	sort.Strings(got)
	if len(got) == 2 && got[0] == got[1] {
		mcrt.Fail("value %v was received twice", got)
	}
	if len(got) != sentOK {
		mcrt.Fail("%d values were accepted, %v received", sentOK, got)
	}
	mcrt.Log("%v", got)
}

// handover: every identifier is in use; one is released while another thread waits for it. The new transaction has the
// identifier to itself: it gets its answer, and can be released.
func handover() {
	t := tsm.New(255)
	mcrt.DirectMode(true)
	var ids []int
	for i := 0; i < 254; i++ {
		id, err := t.ID(context.Background())
		if err != nil {
			mcrt.Fail("ID: %v", err)
		}
		ids = append(ids, id)
	}
	mcrt.DirectMode(false)
	old := ids[100]
	a := mcrt.GoHarness("old user", func() {
		if err := t.Put(old); err != nil {
			mcrt.Fail("Put: %v", err)
		}
	})
	b := mcrt.GoHarness("new user", func() {
		ctx, cancel := zctx.WithTimeout(context.Background(), 3*second)
		id, err := t.ID(ctx)
		cancel()
		if err != nil {
			mcrt.Log("expired")
			return
		}
		if id != old {
			mcrt.Fail("identifier %d was handed out while another transaction held it", id)
		}
		sent := mcrt.GoHarness("sender", func() {
			if err := t.Send(id, "answer"); err == nil {
				mcrt.Log("accepted")
			} else {
				mcrt.Log("refused")
			}
		})
		began := mcrt.NowNS()
		v, err := t.Receive(id, second)
		if err == nil && v != "answer" {
			mcrt.Fail("received %v", v)
		}
		mcrt.Log("received %v", err == nil)
		if err != nil && mcrt.NowNS() < began+second {
			mcrt.Fail("the open transaction %d cannot receive: %v", id, err)
		}
		if err := t.Put(id); err != nil {
			mcrt.Fail("release of the open transaction failed: %v", err)
		}
		sent.Join()
	})
	a.Join()
	b.Join()
	mcrt.Early(false)
}
