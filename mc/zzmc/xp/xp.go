// Package xp enumerates executions: all schedules and environment answers of a controlled execution up to a deviation
// bound, and all inputs of a sequential unit.
package xp

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/NubeDev/bacnet/zzmc/mcrt"
	"github.com/NubeDev/bacnet/zzmc/resetall"
)

// Unit is one closed driver whose behaviours are enumerated.
type Unit struct {
	Prop     string
	Name     string
	Race     bool // runs in the binary built with the race detector
	Thorough bool // only in the thorough tier
	// controlled execution
	Cfg   mcrt.Config
	Quick int // deviation bound of the quick tier
	Deep  int // deviation bound of the thorough tier
	Body  func()
	// sequential enumeration
	Seq     func(c *C)
	Shard   int  // number of leading choices that divide the work (default 1)
	NoReset bool // do not restore package variables before every run
	Weight  int  // relative share of the time budget (default 1)
}

// Units is the registry.
var Units []*Unit

// Add registers a unit.
func Add(u *Unit) { Units = append(Units, u) }

// Deep is true in the thorough tier.
var Deep bool

// C is the context of one sequential run.
type C struct {
	prefix []int
	taken  []int
	ns     []int
	pos    int
	shard  int
	w, nw  int
	steps  int
	fail   string
	out    string
	Deep   bool
}

type skipRun struct{}
type stopRun struct{}

// Choose enumerates 0..n-1.
func (c *C) Choose(n int) int {
	if n <= 0 {
		panic("Choose of nothing")
	}
	k := 0
	if c.pos < len(c.prefix) {
		k = c.prefix[c.pos]
		if k >= n {
			panic(fmt.Sprintf("divergence: choice %d takes %d of %d", c.pos, k, n))
		}
	}
	c.taken = append(c.taken, k)
	c.ns = append(c.ns, n)
	c.pos++
	if c.nw > 1 && c.pos == c.shard {
		idx := 0
		for i := range c.taken {
			idx = idx*c.ns[i] + c.taken[i]
		}
		if idx%c.nw != c.w {
			panic(skipRun{})
		}
	}
	return k
}

// Bool enumerates false and true.
func (c *C) Bool() bool { return c.Choose(2) == 1 }

// Step counts one call into the program.
func (c *C) Step() { c.steps++ }

// Note records the observed outcome class of the run.
func (c *C) Note(format string, args ...interface{}) {
	if c.out == "" {
		c.out = fmt.Sprintf(format, args...)
	}
}

// Fail ends the run with a violation.
func (c *C) Fail(format string, args ...interface{}) {
	c.fail = fmt.Sprintf(format, args...)
	panic(stopRun{})
}

// Stop ends the run.
func (c *C) Stop() { panic(stopRun{}) }

// Report is what a worker found out about one unit.
type Report struct {
	Unit        string
	Worker      int
	Kind        string
	Bound       int // deviation bound completed; -1: none
	Target      int
	Exhaustive  bool
	Execs       int64
	States      int64
	Steps       int64
	Revisited   int64
	Outcomes    map[string]int64
	MaxDepth    int
	WallS       float64
	Violation   *Violation       `json:",omitempty"`
	Known       map[string]int64 `json:",omitempty"`
	Unconfirmed int64            `json:",omitempty"` // race reports that a fresh process did not repeat
	Err         string           `json:",omitempty"`
}

// Violation is a failing execution.
type Violation struct {
	Unit    string
	Choices []int
	Msgs    []string
	Trace   []string
	Cost    int
}

// Known findings: a violation whose message contains the text is counted, not reported.
type KnownFinding struct{ Unit, Text string }

// Runner runs units.
type Runner struct {
	W, NW    int
	Deadline time.Time
	CurFile  string
	Known    []KnownFinding
	cur      *os.File
	started  time.Time
}

func (r *Runner) mark(u string, choices interface{}) {
	if r.CurFile == "" {
		return
	}
	if r.cur == nil {
		r.cur, _ = os.Create(r.CurFile)
	}
	b := []byte(fmt.Sprintf("%s %v", u, choices))
	for len(b) < 4096 {
		b = append(b, ' ')
	}
	r.cur.WriteAt(b, 0)
}

// Watch is the start of the run in progress (unix ns), for the watchdog.
var Watch int64

func hash(s string) string {
	h := fnv.New64a()
	h.Write([]byte(s))
	return fmt.Sprintf("%016x", h.Sum64())
}

func (rep *Report) outcome(s string) {
	if rep.Outcomes == nil {
		rep.Outcomes = map[string]int64{}
	}
	if len(s) > 160 {
		s = s[:140] + "…" + hash(s)
	}
	if _, ok := rep.Outcomes[s]; !ok && len(rep.Outcomes) >= 400 {
		s = "(further outcomes)"
	}
	rep.Outcomes[s]++
}

func (r *Runner) known(rep *Report, unit string, msgs []string) bool {
	for _, m := range msgs {
		ok := false
		for _, k := range r.Known {
			if (k.Unit == "*" || k.Unit == unit) && strings.Contains(m, k.Text) {
				if rep.Known == nil {
					rep.Known = map[string]int64{}
				}
				rep.Known[k.Unit+"\t"+k.Text]++
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return len(msgs) > 0
}

// Run explores a unit.
func (r *Runner) Run(u *Unit) *Report {
	r.started = time.Now()
	rep := &Report{Unit: u.Prop + "/" + u.Name, Worker: r.W, Bound: -1}
	defer func() { rep.WallS = time.Since(r.started).Seconds() }()
	if u.Seq != nil {
		rep.Kind = "inputs"
		r.runSeq(u, rep)
		return rep
	}
	rep.Kind = "schedules"
	target := u.Quick
	if Deep && u.Deep > target {
		target = u.Deep
	}
	rep.Target = target
	for b := 0; b <= target; b++ {
		// counts are those of the last bound that was worked on
		prev := *rep
		rep.Execs, rep.States, rep.Steps, rep.Outcomes, rep.Revisited = 0, 0, 0, nil, 0
		done := r.sched(u, b, rep)
		if rep.Violation != nil || rep.Err != "" {
			return rep
		}
		if !done {
			if rep.Execs < prev.Execs {
				x := prev
				rep.Execs, rep.States, rep.Steps, rep.Outcomes, rep.Revisited = x.Execs, x.States, x.Steps, x.Outcomes, x.Revisited
			}
			return rep
		}
		rep.Bound = b
	}
	rep.Exhaustive = true
	return rep
}

// Exec runs one controlled execution.
func Exec(u *Unit, prefix []uint16, trace bool) *mcrt.Result {
	cfg := u.Cfg
	cfg.TraceOps = trace
	resetStd()
	return mcrt.Execute(cfg, prefix, func() {
		if !u.NoReset {
			resetall.Reset()
		}
		u.Body()
	})
}

// confirmed tells whether a fresh process sees the violation too.
func confirmed(u *Unit, choices []int) bool {
	b, _ := json.Marshal(choices)
	if len(choices) == 0 {
		b = []byte("[]")
	}
	for i := 0; i < 3; i++ {
		args := []string{"-prop", u.Prop, "-unit", u.Name, "-replay", string(b)}
		if Deep {
			args = append(args, "-deep")
		}
		out, err := exec.Command(os.Args[0], args...).Output()
		v := new(Violation)
		if err != nil || json.Unmarshal(out, v) != nil || len(v.Msgs) > 0 {
			return true
		}
	}
	return false
}

var devnull *os.File

// stderr is kept: a collected os.Stderr would close the descriptor that the race detector writes to.
var stderr = os.Stderr

// resetStd gives the program a standard error of its own; closing a client with its log closes it.
func resetStd() {
	if devnull == nil {
		devnull, _ = os.OpenFile(os.DevNull, os.O_RDWR, 0)
		os.Stdout = devnull
		os.Stderr, _ = os.OpenFile(os.DevNull, os.O_RDWR, 0)
		return
	}
	if _, err := os.Stderr.Stat(); err != nil {
		os.Stderr, _ = os.OpenFile(os.DevNull, os.O_RDWR, 0)
	}
}

func (r *Runner) sched(u *Unit, bound int, rep *Report) bool {
	type node struct {
		choices []mcrt.Choice
		i       int // position
		alt     uint16
		level   int
		child   int
		from    int
	}
	expired := false
	execs := int64(0)
	run := func(prefix []uint16, mine bool) *mcrt.Result {
		execs++
		if execs&15 == 0 && time.Now().After(r.Deadline) {
			expired = true
		}
		Watch = time.Now().UnixNano()
		r.mark(u.Prop+"/"+u.Name, prefix)
		res := Exec(u, prefix, false)
		Watch = 0
		if res.Diverged != "" {
			rep.Err = "divergence: " + res.Diverged + fmt.Sprintf(" (prefix %v)", prefix)
			return res
		}
		if len(res.Choices) > rep.MaxDepth {
			rep.MaxDepth = len(res.Choices)
		}
		if mine {
			rep.Execs++
			rep.States += int64(len(res.Choices)-len(prefix)) + 1
			rep.Steps += int64(res.Steps)
			rep.outcome(strings.Join(res.Log, "; "))
		}
		if len(res.Violations) > 0 && !r.known(rep, rep.Unit, res.Violations) {
			full := make([]int, len(res.Choices))
			for i, c := range res.Choices {
				full[i] = int(c.Taken)
			}
			// trailing defaults are implied
			n := len(full)
			for n > len(prefix) && full[n-1] == 0 {
				n--
			}
			if mcrt.RaceMode && !confirmed(u, full[:n]) {
				// the detector's own memory (goroutine slots, reused heap) is not part of an execution
				rep.Unconfirmed++
				return res
			}
			rep.Violation = &Violation{Unit: rep.Unit, Choices: full[:n], Msgs: res.Violations, Cost: res.Cost}
			return res
		}
		// the same schedule must give the same observations
		if execs <= 3 || execs%512 == 0 {
			again := Exec(u, prefix, false)
			if strings.Join(again.Log, "\n") != strings.Join(res.Log, "\n") || len(again.Choices) != len(res.Choices) || again.Steps != res.Steps {
				rep.Err = fmt.Sprintf("nondeterminism not under control: prefix %v gave %d choices, %d steps, log %q, then %d choices, %d steps, log %q",
					prefix, len(res.Choices), res.Steps, res.Log, len(again.Choices), again.Steps, again.Log)
			}
			rep.Revisited++
		}
		return res
	}
	// explicit DFS; children of the root and of its children are dealt to the workers
	root := run(nil, r.W == 0)
	if rep.Violation != nil || rep.Err != "" {
		return false
	}
	stack := []*node{{choices: root.Choices, i: 0, alt: 0, level: 0, from: 0}}
	for len(stack) > 0 {
		n := stack[len(stack)-1]
		// next alternative
		n.alt++
		for n.i < len(n.choices) && n.alt >= n.choices[n.i].N {
			n.i++
			n.alt = 1
		}
		if n.i >= len(n.choices) {
			stack = stack[:len(stack)-1]
			continue
		}
		c := &n.choices[n.i]
		if int(c.Before)+int(c.Costs[n.alt]) > bound {
			continue
		}
		n.child++
		mine := true
		if r.NW > 1 {
			switch n.level {
			case 0:
				mine = n.child%r.NW == r.W
			case 1:
				p := stack[len(stack)-2]
				if (p.child*7+n.child)%r.NW != r.W {
					continue
				}
			}
		}
		prefix := make([]uint16, n.i+1)
		for j := 0; j < n.i; j++ {
			prefix[j] = n.choices[j].Taken
		}
		prefix[n.i] = n.alt
		res := run(prefix, mine)
		if rep.Violation != nil || rep.Err != "" {
			return false
		}
		if expired {
			return false
		}
		stack = append(stack, &node{choices: res.Choices, i: len(prefix), alt: 0, level: n.level + 1})
	}
	return true
}

// RunSeq executes one sequential run.
func RunSeq(u *Unit, prefix []int, w, nw int) (c *C, skipped bool) {
	sh := u.Shard
	if sh == 0 {
		sh = 1
	}
	c = &C{prefix: prefix, shard: sh, w: w, nw: nw, Deep: Deep}
	if !u.NoReset {
		resetall.Reset()
	}
	mcrt.SeqReset(200000, 1<<24)
	defer func() {
		switch x := recover().(type) {
		case nil, stopRun:
		case skipRun:
			skipped = true
		default:
			c.fail = fmt.Sprintf("panic: %v [%s]", x, where())
		}
	}()
	u.Seq(c)
	return c, false
}

func where() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	var out []string
	seen := false
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "panic(") {
			seen = true
			out = out[:0]
			continue
		}
		if !seen || strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "runtime") {
			continue
		}
		if j := strings.LastIndex(l, "("); j > 0 {
			l = l[:j]
		}
		out = append(out, strings.TrimPrefix(l, "github.com/NubeDev/bacnet/"))
		if len(out) == 5 {
			break
		}
	}
	return strings.Join(out, " < ")
}

func (r *Runner) runSeq(u *Unit, rep *Report) {
	resetStd()
	var prefix []int
	n := int64(0)
	rep.Target = 0
	for {
		n++
		if n&255 == 0 && time.Now().After(r.Deadline) {
			return
		}
		Watch = time.Now().UnixNano()
		r.mark(u.Prop+"/"+u.Name, prefix)
		c, skipped := RunSeq(u, prefix, r.W, r.NW)
		Watch = 0
		if strings.HasPrefix(c.fail, "panic: divergence") {
			rep.Err = c.fail
			return
		}
		if !skipped {
			rep.Execs++
			rep.States += int64(len(c.taken)-len(prefix)) + 1
			if c.steps == 0 {
				c.steps = 1
			}
			rep.Steps += int64(c.steps)
			rep.outcome(c.out)
			if len(c.taken) > rep.MaxDepth {
				rep.MaxDepth = len(c.taken)
			}
			if c.fail != "" && !r.known(rep, rep.Unit, []string{c.fail}) {
				rep.Violation = &Violation{Unit: rep.Unit, Choices: c.taken, Msgs: []string{c.fail}}
				return
			}
			if n <= 3 || n%4096 == 0 {
				again, _ := RunSeq(u, c.taken, 0, 1)
				if again.out != c.out || again.fail != c.fail || fmt.Sprint(again.ns) != fmt.Sprint(c.ns) {
					rep.Err = fmt.Sprintf("nondeterminism not under control: %v gave %q/%q, then %q/%q", c.taken, c.out, c.fail, again.out, again.fail)
					return
				}
				rep.Revisited++
			}
		}
		// next in lexicographic order
		i := len(c.taken) - 1
		for i >= 0 && c.taken[i]+1 >= c.ns[i] {
			i--
		}
		if i < 0 {
			break
		}
		prefix = append(prefix[:0], c.taken[:i]...)
		prefix = append(prefix, c.taken[i]+1)
	}
	rep.Bound = 0
	rep.Exhaustive = true
}

// Failure returns the violation of a sequential run.
func (c *C) Failure() string { return c.fail }

// Outcome returns the outcome class of a sequential run.
func (c *C) Outcome() string { return c.out }

// Sorted returns the keys of a set in order.
func Sorted(m map[string]int64) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
