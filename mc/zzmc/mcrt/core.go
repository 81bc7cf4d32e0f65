// Package mcrt is a controlled scheduler for Go programs whose channel, goroutine, lock, timer, map-iteration and
// socket operations were rewritten into calls of this package. Exactly one modelled thread runs at a time; before
// every synchronisation operation the scheduler decides which thread goes next, and every such decision is a numbered
// choice that an explorer can enumerate and replay.
//
// In race mode this package is compiled without instrumentation, the hand-offs between goroutines are hidden from the
// race detector, and only the synchronisation of the modelled program is reported to it. It therefore uses no Go maps
// (the runtime instruments those itself).
package mcrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"
)

// Config bounds one exploration.
type Config struct {
	SwitchCost  uint8         // cost of not taking the first candidate when the current thread cannot go on (0: free)
	EarlyTimers bool          // a pending timer may fire although threads are runnable (cost 1)
	EnvCost     uint8         // cost of a non-default answer of Choose
	MapOrder    int           // maps with up to this many keys are iterated in every order; 0: sorted only
	MaxSteps    int           // scheduling steps per execution (default 20000)
	MaxTicks    int           // loop iterations per execution (default 2e6)
	Horizon     time.Duration // virtual time per execution (default 10 min)
	TraceOps    bool
}

// Choice is one decision of an execution.
type Choice struct {
	N      uint16 // number of alternatives
	Taken  uint16
	Kind   uint8 // 's' schedule, 'e' environment, 'm' map order, 'c' select
	Costs  []uint8
	Before uint16 // cost of the choices before this one
}

type tstate uint8

const (
	ready tstate = iota
	running
	blocked
	finished
)

type thread struct {
	id       int
	name     string
	state    tstate
	readySeq uint64
	wake     chan struct{}
	fresh    bool
	where    string
	sync     byte
	relock   *Mutex
	exited   bool
	harness  bool
	joiners  []*thread
	endSync  byte
}

type timer struct {
	when    int64
	seq     uint64
	label   string
	fire    func()
	stopped bool
	fired   bool
	sync    byte
}

// Result is what one execution showed.
type Result struct {
	Choices    []Choice
	Cost       int
	Steps      int
	Violations []string
	Log        []string // observations recorded by the harness
	Trace      []string
	Diverged   string
	States     uint64
}

type sched struct {
	cfg     Config
	prefix  []uint16
	res     *Result
	cur     *thread
	threads []*thread
	now     int64
	seq     uint64
	timers  []*timer
	ticks   int
	alloc   int
	steps   int
	cost    int
	ended   bool
	killing bool
	done    chan struct{}
	ack     chan struct{}
	endSync byte
	chans   chanTable
	bodyEnd bool
	net     *vnet
	clean   []func()
	quiet   bool
	noEarly bool
}

var s *sched

// Active reports whether a controlled execution is running.
func Active() bool { return !inert() }

// inert: operations have no effect any more because the execution is over.
func inert() bool { return s == nil || s.killing || s.ended }

const (
	defaultMaxSteps = 20000
	defaultMaxTicks = 2000000
)

type killed struct{}

// Execute runs body once, taking the choices of prefix and then the default ones.
func Execute(cfg Config, prefix []uint16, body func()) *Result {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = defaultMaxSteps
	}
	if cfg.MaxTicks == 0 {
		cfg.MaxTicks = defaultMaxTicks
	}
	if cfg.Horizon == 0 {
		cfg.Horizon = 10 * time.Minute
	}
	sc := &sched{cfg: cfg, prefix: prefix, res: &Result{}, done: make(chan struct{}, 1), ack: make(chan struct{}, 1)}
	sc.net = newVnet()
	s = sc
	races := raceErrors()
	main := sc.newThread("main", func() {
		body()
		sc.bodyEnd = true
	})
	main.harness = true
	sc.cur = main
	main.state = running
	raceDisable()
	main.wake <- struct{}{}
	<-sc.done
	raceEnable()
	if n := raceErrors() - races; n > 0 {
		sc.res.Violations = push(sc.res.Violations, fmt.Sprintf("data race reported by the race detector (%d)", n))
	}
	// Reap: every thread left is resumed once, in a fixed order, to run its deferred calls with all operations inert.
	sc.killing = true
	for _, t := range sc.threads {
		if t.exited {
			continue
		}
		raceDisable()
		t.wake <- struct{}{}
		<-sc.ack
		raceEnable()
	}
	raceAcquire(unsafe.Pointer(&sc.endSync))
	sc.res.Cost = sc.cost
	sc.res.Steps = sc.steps
	if sc.res.Diverged == "" && len(sc.res.Choices) < len(prefix) {
		sc.res.Diverged = fmt.Sprintf("execution made %d choices, the prefix has %d", len(sc.res.Choices), len(prefix))
	}
	for _, f := range sc.clean {
		f()
	}
	s = nil
	return sc.res
}

func (sc *sched) newThread(name string, f func()) *thread {
	t := &thread{id: len(sc.threads), name: name, wake: make(chan struct{}, 1), fresh: true}
	sc.threads = push(sc.threads, t)
	sc.makeReady(t)
	raceRelease(unsafe.Pointer(&t.sync))
	go sc.threadMain(t, f)
	return t
}

func (sc *sched) threadMain(t *thread, f func()) {
	completed := false
	defer func() {
		r := recover()
		if _, ok := r.(killed); ok {
			r = nil
		}
		if !sc.killing && !sc.ended {
			if r != nil {
				sc.violate(fmt.Sprintf("panic in thread %s: %v [%s]", t.name, r, shortStack()))
			}
			if t.id == 0 || !completed {
				sc.ended = true
			}
		}
		t.exited = true
		t.state = finished
		raceRelease(unsafe.Pointer(&sc.endSync))
		raceRelease(unsafe.Pointer(&t.endSync))
		if sc.killing {
			raceDisable()
			sc.ack <- struct{}{}
			raceEnable()
			return
		}
		if sc.ended {
			sc.finish()
			return
		}
		for _, j := range t.joiners {
			sc.makeReady(j)
		}
		sc.next(t, false)
	}()
	raceDisable()
	<-t.wake
	raceEnable()
	raceAcquire(unsafe.Pointer(&t.sync))
	if sc.killing {
		raceAcquire(unsafe.Pointer(&sc.endSync))
		return
	}
	f()
	completed = true
}

func shortStack() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	var out []string
	seenPanic := false
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.panic") || strings.HasPrefix(l, "runtime.goPanic") {
			seenPanic = true
			out = out[:0]
			continue
		}
		if !seenPanic || strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "runtime") {
			continue
		}
		if j := strings.LastIndex(l, "("); j > 0 {
			l = l[:j]
		}
		l = strings.TrimPrefix(l, "github.com/NubeDev/bacnet/")
		out = push(out, l)
		if len(out) == 6 {
			break
		}
	}
	return strings.Join(out, " < ")
}

func (sc *sched) finish() {
	raceDisable()
	select {
	case sc.done <- struct{}{}:
	default:
	}
	raceEnable()
}

func (sc *sched) violate(msg string) {
	sc.res.Violations = push(sc.res.Violations, msg)
}

// Fail records a violation and ends the execution.
func Fail(format string, args ...interface{}) {
	if inert() {
		return
	}
	s.violate(fmt.Sprintf(format, args...))
	s.end()
}

func (sc *sched) end() {
	sc.ended = true
	panic(killed{})
}

// Log records an observation.
func Log(format string, args ...interface{}) {
	if inert() {
		return
	}
	s.res.Log = push(s.res.Log, fmt.Sprintf(format, args...))
}

func (sc *sched) trace(format string, args ...interface{}) {
	if sc.cfg.TraceOps {
		who := "-"
		if sc.cur != nil {
			who = fmt.Sprintf("%d:%s", sc.cur.id, sc.cur.name)
		}
		sc.res.Trace = push(sc.res.Trace, fmt.Sprintf("%10.6f %-18s ", float64(sc.now)/1e9, who)+fmt.Sprintf(format, args...))
	}
}

func (sc *sched) makeReady(t *thread) {
	t.state = ready
	sc.seq++
	t.readySeq = sc.seq
	t.fresh = true
}

// choose takes one decision; alternatives 1.. cost costs[i].
func (sc *sched) choose(kind uint8, costs []uint8) int {
	n := len(costs)
	if n == 1 || sc.quiet && (kind == 's' || kind == 'c') {
		return 0
	}
	i := len(sc.res.Choices)
	taken := 0
	if i < len(sc.prefix) {
		taken = int(sc.prefix[i])
		if taken >= n {
			if sc.res.Diverged == "" {
				sc.res.Diverged = fmt.Sprintf("choice %d: prefix takes %d of %d", i, taken, n)
			}
			taken = 0
		}
	}
	sc.res.Choices = push(sc.res.Choices, Choice{N: uint16(n), Taken: uint16(taken), Kind: kind, Costs: costs, Before: uint16(sc.cost)})
	sc.cost += int(costs[taken])
	return taken
}

var freeCosts [160]uint8
var oneCosts [160]uint8

func init() {
	for i := 1; i < len(oneCosts); i++ {
		oneCosts[i] = 1
	}
}

// Choose is an environment decision among n alternatives; 0 is the default.
func Choose(n int, label string) int {
	if inert() || n <= 1 {
		return 0
	}
	costs := freeCosts[:]
	if s.cfg.EnvCost > 0 {
		costs = oneCosts[:]
	}
	if n > len(costs) {
		c := make([]uint8, n)
		for i := 1; i < n; i++ {
			c[i] = s.cfg.EnvCost
		}
		costs = c
	}
	k := s.choose('e', costs[:n])
	s.trace("choose %s = %d of %d", label, k, n)
	return k
}

// ChooseFree is like Choose but never costs anything.
func ChooseFree(n int, label string) int {
	if inert() || n <= 1 {
		return 0
	}
	costs := freeCosts[:]
	if n > len(costs) {
		costs = make([]uint8, n)
	}
	k := s.choose('e', costs[:n])
	s.trace("choose %s = %d of %d", label, k, n)
	return k
}

// point is called before every synchronisation operation of the running thread.
func (sc *sched) point(op string) {
	t := sc.cur
	if sc.quiet {
		return
	}
	sc.steps++
	if sc.steps > sc.cfg.MaxSteps {
		sc.violate(fmt.Sprintf("no end after %d scheduling steps (livelock?): %s", sc.steps, sc.describe()))
		sc.end()
	}
	if t.fresh {
		t.fresh = false
	} else {
		t.where = op
		sc.next(t, true)
	}
	if sc.cfg.TraceOps {
		sc.trace("%s", op)
	}
}

// block parks the running thread until something makes it ready and the scheduler picks it.
func (sc *sched) block(op string) {
	t := sc.cur
	t.state = blocked
	t.where = op
	if sc.cfg.TraceOps {
		sc.trace("  blocks: %s", op)
	}
	sc.next(t, false)
}

// next decides who runs now. It returns when t runs again (or, for a finished t, after the hand-over).
func (sc *sched) next(t *thread, runnable bool) {
	free := false
	for {
		var cands [128]*thread
		n := 0
		if runnable {
			cands[0] = t
			n = 1
		}
		// ready threads in the order in which they became ready
		base := n
		for _, u := range sc.threads {
			if u.state != ready || n == len(cands) {
				continue
			}
			j := n
			for j > base && cands[j-1].readySeq > u.readySeq {
				cands[j] = cands[j-1]
				j--
			}
			cands[j] = u
			n++
		}
		nt := n
		var due [16]*timer
		nd := 0
		early := false
		if len(sc.timers) > 0 {
			if n == 0 && sc.timers[0].when > sc.now {
				sc.now = sc.timers[0].when
				if sc.now > int64(sc.cfg.Horizon) {
					sc.violate("virtual time horizon exceeded: " + sc.describe())
					sc.ended = true
				}
			}
			for _, tm := range sc.timers {
				if tm.when > sc.now || nd == len(due) {
					break
				}
				due[nd] = tm
				nd++
			}
			if nd == 0 && n > 0 && sc.cfg.EarlyTimers && !sc.noEarly {
				early = true
			}
		}
		if sc.ended {
			sc.finish()
			if t.state != finished {
				sc.park(t)
			}
			return
		}
		total := nt + nd
		if early {
			total++
		}
		if total == 0 {
			sc.deadlock()
			sc.ended = true
			sc.finish()
			if t.state != finished {
				sc.park(t)
			}
			return
		}
		k := 0
		paid := false
		if total > 1 {
			var costs []uint8
			if !early && !runnable && sc.cfg.SwitchCost == 0 {
				costs = freeCosts[:total]
			} else if runnable && !free && total <= len(oneCosts) {
				costs = oneCosts[:total]
			} else {
				costs = make([]uint8, total)
				for i := 1; i < total; i++ {
					switch {
					case early && i == total-1:
						costs[i] = 1
					case free && i > nt:
						costs[i] = 1 // events of one instant in another order
					case free:
						costs[i] = 0
					case runnable:
						costs[i] = 1
					default:
						costs[i] = sc.cfg.SwitchCost
					}
				}
			}
			k = sc.choose('s', costs)
			paid = costs[k] > 0
		}
		if k < nt {
			u := cands[k]
			if u == t && runnable {
				return
			}
			if runnable {
				t.state = ready
				sc.seq++
				t.readySeq = sc.seq
			}
			if u == t {
				t.state = running
				sc.cur = t
				return
			}
			if sc.cfg.TraceOps {
				sc.trace("-> %d:%s", u.id, u.name)
			}
			sc.cur = u
			u.state = running
			raceRelease(unsafe.Pointer(&sc.endSync))
			raceDisable()
			u.wake <- struct{}{}
			raceEnable()
			if t.state != finished {
				sc.park(t)
			}
			return
		}
		var tm *timer
		if k < nt+nd {
			tm = due[k-nt]
		} else {
			tm = sc.timers[0]
			if tm.when > sc.now {
				sc.now = tm.when
			}
		}
		if runnable {
			// the running thread was overtaken by an event, which has a cost; what goes next is then a free choice
			runnable = false
			t.state = ready
			t.readySeq = 0
		}
		free = free || paid
		sc.removeTimer(tm)
		tm.fired = true
		if sc.cfg.TraceOps {
			sc.trace("timer fires: %s", tm.label)
		}
		raceAcquire(unsafe.Pointer(&tm.sync))
		tm.fire()
	}
}

func (sc *sched) park(t *thread) {
	raceRelease(unsafe.Pointer(&sc.endSync))
	raceDisable()
	<-t.wake
	raceEnable()
	if sc.killing {
		raceAcquire(unsafe.Pointer(&sc.endSync))
		runtime.Goexit()
	}
}

func (sc *sched) deadlock() {
	if sc.bodyEnd {
		return
	}
	sc.violate("deadlock: " + sc.describe())
}

func (sc *sched) describe() string {
	var b strings.Builder
	for _, t := range sc.threads {
		if t.state == finished {
			continue
		}
		st := [...]string{"ready", "running", "blocked", "finished"}[t.state]
		fmt.Fprintf(&b, "%s %s at %s; ", t.name, st, t.where)
	}
	return b.String()
}

func (sc *sched) addTimer(d time.Duration, label string, fire func()) *timer {
	if d < 0 {
		d = 0
	}
	sc.seq++
	tm := &timer{when: sc.now + int64(d), seq: sc.seq, label: label, fire: fire}
	raceRelease(unsafe.Pointer(&tm.sync))
	i := len(sc.timers)
	for i > 0 && sc.timers[i-1].when > tm.when {
		i--
	}
	sc.timers = push(sc.timers, nil)
	for k := len(sc.timers) - 1; k > i; k-- {
		sc.timers[k] = sc.timers[k-1]
	}
	sc.timers[i] = tm
	return tm
}

func (sc *sched) removeTimer(tm *timer) bool {
	for i, x := range sc.timers {
		if x == tm {
			sc.timers = without(sc.timers, i)
			return true
		}
	}
	return false
}

// Go starts f as a modelled thread.
func Go(f func()) { goNamed("go", f, false) }

// GoHarness starts f as a named thread that belongs to the harness.
func GoHarness(name string, f func()) *Handle {
	return goNamed(name, f, true)
}

// Handle lets the harness wait for a thread.
type Handle struct{ t *thread }

func goNamed(name string, f func(), harness bool) *Handle {
	if s == nil {
		return nil // initialisation outside an execution: it is repeated inside every execution
	}
	if s.killing || s.ended {
		return nil
	}
	sc := s
	sc.point("go")
	if name == "go" {
		name = fmt.Sprintf("g%d", len(sc.threads))
	}
	var h *Handle
	t := sc.newThread(name, f)
	t.harness = harness
	h = &Handle{t}
	return h
}

// Join waits until the thread has finished.
func (h *Handle) Join() {
	if inert() {
		return
	}
	s.point("join " + h.t.name)
	if h.t.state != finished {
		h.t.joiners = push(h.t.joiners, s.cur)
		s.block("join " + h.t.name)
	}
	raceAcquire(unsafe.Pointer(&h.t.endSync))
}

// Done reports whether the thread has finished.
func (h *Handle) Done() bool { return h.t.state == finished }

// Live lists the threads that have not finished, apart from the caller.
func Live() []string {
	var out []string
	if s == nil {
		return nil
	}
	for _, t := range s.threads {
		if t.state != finished && t != s.cur {
			out = push(out, t.name+"@"+t.where)
		}
	}
	return out
}

// LiveApp lists the unfinished threads that the program under test started.
func LiveApp() []string {
	var out []string
	if s == nil {
		return nil
	}
	for _, t := range s.threads {
		if t.state != finished && t != s.cur && !t.harness {
			out = push(out, t.name+"@"+t.where)
		}
	}
	return out
}

// PendingTimers counts the timers that have not fired.
func PendingTimers() int { return len(s.timers) }

// NowNS is the virtual time since the start of the execution.
func NowNS() time.Duration {
	if s == nil {
		return 0
	}
	return time.Duration(s.now)
}

// Sleep suspends the running thread for d of virtual time.
func Sleep(d time.Duration) {
	if inert() {
		return
	}
	sc := s
	sc.point("sleep")
	if d <= 0 {
		return
	}
	t := sc.cur
	sc.addTimer(d, "sleep "+t.name, func() { sc.makeReady(t) })
	sc.block("sleep")
}

// Yield is a scheduling point without effect.
func Yield() {
	if inert() {
		return
	}
	s.point("yield")
}

// After calls f at the given distance in virtual time, as an event of the environment.
func After(d time.Duration, label string, f func()) {
	if inert() {
		return
	}
	s.addTimer(d, label, f)
}

// Tick counts one loop iteration of the program under test.
func Tick() {
	if s == nil {
		seqTicks++
		if seqTicks > seqMaxTicks {
			panic(Budget("loop budget exceeded: no end in sight"))
		}
		return
	}
	s.ticks++
	if s.ticks > s.cfg.MaxTicks {
		if s.killing || s.ended {
			runtime.Goexit()
		}
		panic(Budget("loop budget exceeded: no end in sight"))
	}
}

// Budget is the panic value for exceeded budgets.
type Budget string

var (
	seqTicks    int
	seqMaxTicks = defaultMaxTicks
	seqAlloc    int
	seqMaxAlloc = 1 << 26
)

// SeqReset sets the budgets of the next call made outside a controlled execution.
func SeqReset(ticks, alloc int) {
	seqTicks, seqMaxTicks, seqAlloc, seqMaxAlloc = 0, ticks, 0, alloc
}

// SeqUsed returns the budgets consumed since SeqReset.
func SeqUsed() (ticks, alloc int) { return seqTicks, seqAlloc }

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

// MakeLen is wrapped around the lengths given to make.
func MakeLen[N integer](n N) N {
	if n > 0 {
		noteAlloc(uint64(n))
	}
	return n
}

const maxRunAlloc = 1 << 26

func noteAlloc(n uint64) {
	if n > maxRunAlloc {
		panic(Budget(fmt.Sprintf("allocation of %d elements", n)))
	}
	if s == nil {
		seqAlloc += int(n)
		if seqAlloc > seqMaxAlloc {
			panic(Budget(fmt.Sprintf("allocations of %d elements for this input", seqAlloc)))
		}
		return
	}
	s.alloc += int(n)
	if s.alloc > maxRunAlloc {
		panic(Budget(fmt.Sprintf("allocations of %d elements", s.alloc)))
	}
}
