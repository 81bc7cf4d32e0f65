// Command mctool builds the controlled copy of the program, explores the units of one property in parallel and reports.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type violation struct {
	Unit    string
	Choices []int
	Msgs    []string
	Trace   []string
	Cost    int
}

type report struct {
	Unit       string
	Worker     int
	Kind       string
	Bound      int
	Target     int
	Exhaustive bool
	Execs      int64
	States     int64
	Steps      int64
	Revisited  int64
	Outcomes   map[string]int64
	MaxDepth   int
	WallS      float64
	Violation  *violation
	Known      map[string]int64
	Err        string
}

type knownFinding struct{ Unit, Text string }

func die(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, format+"\n", args...)
	cleanup()
	os.Exit(2)
}

var scratch string
var cleanOnce sync.Once

func cleanup() {
	cleanOnce.Do(func() {
		if scratch != "" && os.Getenv("MC_KEEP") == "" {
			os.RemoveAll(scratch)
		}
	})
}

func main() {
	if len(os.Args) < 2 {
		die("usage: mctool gen REPO VERIF DST | check PROP TIER | replay FILE | units")
	}
	repo := getenv("MC_REPO", "/repo")
	verif := getenv("MC_VERIF", "/verif")
	switch os.Args[1] {
	case "gen":
		m, err := generate(os.Args[2], os.Args[3], os.Args[4])
		if err != nil {
			die("%v", err)
		}
		fmt.Println(m)
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		code := check(repo, verif, os.Args[2], tier)
		cleanup()
		os.Exit(code)
	case "replay":
		code := replay(repo, verif, os.Args[2])
		cleanup()
		os.Exit(code)
	case "build":
		// mctool build DST: the controlled copy with its binaries, for interactive work
		scratch = ""
		os.MkdirAll(os.Args[2], 0o755)
		if err := buildAt(repo, verif, os.Args[2], len(os.Args) > 3); err != nil {
			die("%v", err)
		}
	default:
		die("unknown command %s", os.Args[1])
	}
}

func getenv(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func buildAt(repo, verif, dir string, race bool) error {
	src := filepath.Join(dir, "src")
	os.RemoveAll(src)
	mod, err := generate(repo, verif, src)
	if err != nil {
		return fmt.Errorf("cannot build the controlled copy: %v", err)
	}
	if _, err := goCmd(src, nil, "build", "-o", filepath.Join(dir, "mc"), "./zzmc/harness"); err != nil {
		return fmt.Errorf("the controlled copy does not compile: %v", err)
	}
	if race {
		// the scheduler itself is not instrumented: its hand-offs must not order the program's accesses
		flags := []string{"build", "-race", "-o", filepath.Join(dir, "mcrace")}
		for _, p := range []string{"mcrt", "shim/sync", "shim/atomic", "shim/time", "shim/context", "shim/net", "xp"} {
			flags = append(flags, "-gcflags="+mod+"/zzmc/"+p+"=-race=false -l")
		}
		if _, err := goCmd(src, []string{"CGO_ENABLED=1"}, append(flags, "./zzmc/harness")...); err != nil {
			return fmt.Errorf("the controlled copy does not compile with the race detector: %v", err)
		}
	}
	return nil
}

func listUnits(bin, prop string) []string {
	out, err := exec.Command(bin, "-list", "-prop", prop, "-deep").Output()
	if err != nil {
		die("listing units: %v", err)
	}
	return strings.Fields(string(out))
}

func propHasRace(verif, prop string) bool { return prop == "P27" }

func check(repo, verif, prop, tier string) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "mc-"+prop+"-")
	if err != nil {
		die("%v", err)
	}
	scratch = dir
	race := propHasRace(verif, prop)
	if err := buildAt(repo, verif, dir, race); err != nil {
		die("%v", err)
	}
	buildS := time.Since(start).Seconds()
	known, fixedNote := readKnown(filepath.Join(verif, "known_findings.txt"), prop)
	kj, _ := json.Marshal(known)
	budget := 200.0
	if tier == "thorough" {
		budget = 720
	}
	if v := os.Getenv("MC_SECONDS"); v != "" {
		budget, _ = strconv.ParseFloat(v, 64)
	}
	bins := []string{filepath.Join(dir, "mc")}
	if race {
		bins = []string{filepath.Join(dir, "mcrace")}
	}
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	var reports []*report
	for _, bin := range bins {
		rs, err := runWorkers(bin, dir, prop, tier, nw, budget, string(kj))
		if err != nil {
			fmt.Fprintf(os.Stderr, "no answer for %s: %v\n", prop, err)
			return 2
		}
		reports = append(reports, rs...)
	}
	var found []*report
	for _, r := range reports {
		if r.Violation != nil {
			found = append(found, r)
		}
	}
	sort.SliceStable(found, func(i, j int) bool { return len(found[i].Violation.Choices) < len(found[j].Violation.Choices) })
	violations := 0
	artefact := ""
	var bad *report
	last := ""
	for _, r := range found {
		ok, why, err := confirm(bins[0], tier, r.Violation, race)
		if err != nil {
			why = err.Error()
		}
		if ok {
			bad = r
			break
		}
		last = fmt.Sprintf("%s reported %q, its replay %s", r.Violation.Unit, r.Violation.Msgs, why)
	}
	if bad == nil && len(found) > 0 {
		fmt.Fprintf(os.Stderr, "no answer for %s: %s\n", prop, last)
		return 2
	}
	if bad != nil {
		v := bad.Violation
		violations = 1
		artefact = filepath.Join(evidenceDir(verif), "replay-"+prop+".json")
		os.MkdirAll(filepath.Dir(artefact), 0o755)
		b, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "tier": tier, "unit": v.Unit, "choices": v.Choices,
			"deviations": v.Cost, "messages": v.Msgs, "operations": v.Trace,
			"replay": "bash /verif/run.sh replay " + artefact}, "", " ")
		os.WriteFile(artefact, append(b, '\n'), 0o644)
	}
	writeEvidence(verif, prop, tier, reports, violations, time.Since(start).Seconds(), buildS, fixedNote)
	hits := map[string]int64{}
	for _, r := range reports {
		for k, n := range r.Known {
			hits[k] += n
		}
	}
	for _, k := range known {
		if n := hits[k.Unit+"\t"+k.Text]; n > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s unit=%s %s (%d executions)\n", prop, k.Unit, k.Text, n)
		}
	}
	if bad != nil {
		for _, m := range bad.Violation.Msgs {
			fmt.Printf("%s: %s\n", bad.Violation.Unit, m)
		}
		for _, t := range tail(bad.Violation.Trace, 60) {
			fmt.Printf("    %s\n", t)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, artefact)
		return 1
	}
	summary(reports, buildS)
	return 0
}

// confirm runs the execution of a violation again, in a process of its own each time, until it has failed in the same
// way three times. What does not happen every time (the race detector forgets accesses at random, and the code may
// use randomness of its own) has to happen at least once more.
func confirm(bin, tier string, v *violation, race bool) (ok bool, why string, err error) {
	tries, same := 8, 0
	if race {
		tries = 40
	}
	for i := 0; i < tries && same < 3; i++ {
		again, err := replayOne(bin, tier, v.Unit, v.Choices, true)
		if err != nil {
			return false, "", err
		}
		if len(again.Msgs) > 0 && headline(again.Msgs) == headline(v.Msgs) {
			if same == 0 {
				v.Trace = again.Trace
			}
			same++
			continue
		}
		why = fmt.Sprintf("%q", again.Msgs)
	}
	return same > 0, why, nil
}

func headline(msgs []string) string {
	if len(msgs) == 0 {
		return ""
	}
	m := msgs[0]
	if i := strings.Index(m, "("); i > 0 && strings.HasPrefix(m, "data race") {
		m = m[:i]
	}
	// where things lie in memory differs from run to run
	return pointer.ReplaceAllString(m, "0x…")
}

var pointer = regexp.MustCompile(`0x[0-9a-f]{8,}`)

func tail(l []string, n int) []string {
	if len(l) > n {
		return append([]string{fmt.Sprintf("… (%d earlier operations)", len(l)-n)}, l[len(l)-n:]...)
	}
	return l
}

func raceEnv() []string {
	return append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=2")
}

func runWorkers(bin, dir, prop, tier string, nw int, budget float64, known string) ([]*report, error) {
	type msg struct {
		r    *report
		w    int
		err  error
		done bool
	}
	ch := make(chan msg, 100)
	procs := make([]*exec.Cmd, nw)
	var mu sync.Mutex
	killAll := func() {
		mu.Lock()
		for _, p := range procs {
			if p != nil && p.Process != nil {
				syscall.Kill(-p.Process.Pid, syscall.SIGKILL)
			}
		}
		mu.Unlock()
	}
	runOne := func(w int, cur string) error {
		args := []string{"-prop", prop, "-w", strconv.Itoa(w), "-nw", strconv.Itoa(nw), "-seconds", fmt.Sprint(budget), "-known", known}
		if tier == "thorough" {
			args = append(args, "-deep")
		}
		if cur != "" {
			args = append(args, "-cur", cur)
		}
		c := exec.Command(bin, args...)
		c.Env = raceEnv()
		c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		var stderr tailBuf
		c.Stderr = &stderr
		so, err := c.StdoutPipe()
		if err != nil {
			return err
		}
		mu.Lock()
		err = c.Start()
		procs[w] = c
		mu.Unlock()
		if err != nil {
			return err
		}
		sc := bufio.NewScanner(so)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for sc.Scan() {
			r := new(report)
			if err := json.Unmarshal(sc.Bytes(), r); err != nil {
				continue
			}
			if r.Err == "hang" {
				c.Wait()
				return fmt.Errorf("one execution ran for more than 150 s")
			}
			ch <- msg{r: r, w: w}
		}
		if err := c.Wait(); err != nil {
			return fmt.Errorf("worker %d: %v\n%s", w, err, stderr.String())
		}
		return nil
	}
	for w := 0; w < nw; w++ {
		go func(w int) {
			err := runOne(w, "")
			ch <- msg{w: w, err: err, done: true}
		}(w)
	}
	var out []*report
	live := nw
	stop := false
	var crash error
	crashW := -1
	for live > 0 {
		m := <-ch
		if m.done {
			live--
			if m.err != nil && !stop {
				crash, crashW = m.err, m.w
				stop = true
				killAll()
			}
			continue
		}
		if m.r.Err != "" {
			if !stop {
				stop = true
				crash = fmt.Errorf("%s: %s", m.r.Unit, m.r.Err)
				killAll()
			}
			continue
		}
		out = append(out, m.r)
		if m.r.Violation != nil && !stop {
			stop = true
			killAll()
		}
	}
	for _, r := range out {
		if r.Violation != nil {
			return out, nil
		}
	}
	if crash != nil && crashW >= 0 {
		// the program brought the worker down: find the execution that did it
		cur := filepath.Join(dir, "cur")
		err := runOne2(runOne, crashW, cur)
		if b, e := os.ReadFile(cur); err != nil && e == nil {
			f := strings.SplitN(strings.TrimSpace(string(b)), " ", 2)
			if len(f) == 2 {
				var choices []int
				for _, x := range strings.Fields(strings.Trim(f[1], "[]")) {
					n, _ := strconv.Atoi(x)
					choices = append(choices, n)
				}
				first := firstFatal(err.Error())
				return append(out, &report{Unit: f[0], Violation: &violation{Unit: f[0], Choices: choices, Msgs: []string{"the process died: " + first}}}), nil
			}
		}
	}
	return out, crash
}

func runOne2(f func(int, string) error, w int, cur string) error { return f(w, cur) }

func firstFatal(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
			return l
		}
	}
	return "unknown reason"
}

type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 1<<20 {
		t.b = append(append([]byte{}, t.b[:1<<18]...), t.b[len(t.b)-1<<18:]...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string { return string(t.b) }

func replayOne(bin, tier, unit string, choices []int, trace bool) (*violation, error) {
	p := strings.SplitN(unit, "/", 2)
	b, _ := json.Marshal(choices)
	if choices == nil {
		b = []byte("[]")
	}
	args := []string{"-prop", p[0], "-unit", p[1], "-replay", string(b)}
	if tier == "thorough" {
		args = append(args, "-deep")
	}
	if trace {
		args = append(args, "-trace")
	}
	c := exec.Command(bin, args...)
	c.Env = raceEnv()
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	err := c.Run()
	if err != nil {
		if f := firstFatal(se.String()); f != "unknown reason" {
			return &violation{Unit: unit, Choices: choices, Msgs: []string{"the process died: " + f}, Trace: strings.Split(se.String(), "\n")[:1]}, nil
		}
		return nil, fmt.Errorf("%v: %s", err, se.String())
	}
	v := new(violation)
	if err := json.Unmarshal(so.Bytes(), v); err != nil {
		return nil, err
	}
	if trace && strings.Contains(se.String(), "DATA RACE") {
		v.Trace = append(v.Trace, strings.Split(se.String(), "\n")...)
	}
	return v, nil
}

func replay(repo, verif, file string) int {
	var a struct {
		Property, Tier, Unit string
		Choices              []int
	}
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	if err := json.Unmarshal(b, &a); err != nil {
		die("%v", err)
	}
	dir, err := os.MkdirTemp("", "mc-replay-")
	if err != nil {
		die("%v", err)
	}
	scratch = dir
	race := propHasRace(verif, a.Property)
	if err := buildAt(repo, verif, dir, race); err != nil {
		die("%v", err)
	}
	bin := filepath.Join(dir, "mc")
	if race {
		bin = filepath.Join(dir, "mcrace")
	}
	v, err := replayOne(bin, a.Tier, a.Unit, a.Choices, true)
	if err != nil {
		die("%v", err)
	}
	for _, t := range v.Trace {
		fmt.Println("    " + t)
	}
	for _, m := range v.Msgs {
		fmt.Printf("%s: %s\n", a.Unit, m)
	}
	if len(v.Msgs) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", a.Property, file)
		return 1
	}
	fmt.Println("the execution holds")
	return 0
}

// readKnown reads the lines "known: property=ID unit=NAME text" and counts the lines "fixed: property=ID ...".
func readKnown(path, prop string) (out []knownFinding, fixed []string) {
	out = []knownFinding{}
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "fixed: property="+prop+" ") {
			fixed = append(fixed, strings.TrimPrefix(l, "fixed: property="+prop+" "))
		}
		if !strings.HasPrefix(l, "known: property="+prop+" unit=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+prop+" unit=")
		i := strings.Index(rest, " ")
		if i > 0 {
			out = append(out, knownFinding{Unit: rest[:i], Text: strings.TrimSpace(rest[i+1:])})
		}
	}
	return
}

type merged struct {
	unit, kind                string
	bound, target             int
	exhaustive                bool
	execs, states, steps, rev int64
	outcomes                  map[string]int64
	depth                     int
	wall                      float64
}

func merge(reports []*report) []*merged {
	byUnit := map[string]*merged{}
	var order []string
	for _, r := range reports {
		m := byUnit[r.Unit]
		if m == nil {
			m = &merged{unit: r.Unit, kind: r.Kind, bound: r.Bound, target: r.Target, exhaustive: true, outcomes: map[string]int64{}}
			byUnit[r.Unit] = m
			order = append(order, r.Unit)
		}
		if r.Bound < m.bound {
			m.bound = r.Bound
		}
		m.exhaustive = m.exhaustive && r.Exhaustive
		m.execs += r.Execs
		m.states += r.States
		m.steps += r.Steps
		m.rev += r.Revisited
		for k, n := range r.Outcomes {
			m.outcomes[k] += n
		}
		if r.MaxDepth > m.depth {
			m.depth = r.MaxDepth
		}
		if r.WallS > m.wall {
			m.wall = r.WallS
		}
	}
	sort.Strings(order)
	var out []*merged
	for _, u := range order {
		out = append(out, byUnit[u])
	}
	return out
}

func summary(reports []*report, buildS float64) {
	fmt.Printf("build %.1fs\n", buildS)
	for _, m := range merge(reports) {
		ex := "complete"
		if !m.exhaustive {
			ex = "INCOMPLETE"
		}
		fmt.Printf("%-34s %-9s bound %d/%d %-10s execs %9d states %10d steps %11d outcomes %4d depth %4d %6.1fs\n", m.unit, m.kind, m.bound, m.target, ex,
			m.execs, m.states, m.steps, len(m.outcomes), m.depth, m.wall)
	}
}

func writeEvidence(verif, prop, tier string, reports []*report, violations int, wall, buildS float64, fixed []string) {
	var states, steps, execs, rev int64
	exh := true
	var units []map[string]interface{}
	var samples []interface{}
	for _, m := range merge(reports) {
		states += m.states
		steps += m.steps
		execs += m.execs
		rev += m.rev
		exh = exh && m.exhaustive
		keys := make([]string, 0, len(m.outcomes))
		for k := range m.outcomes {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool {
			return m.outcomes[keys[i]] > m.outcomes[keys[j]] || m.outcomes[keys[i]] == m.outcomes[keys[j]] && keys[i] < keys[j]
		})
		var ex []string
		for i := 0; i < len(keys) && i < 4; i++ {
			ex = append(ex, fmt.Sprintf("%d× %s", m.outcomes[keys[i]], keys[i]))
		}
		u := map[string]interface{}{"unit": m.unit, "kind": m.kind, "executions": m.execs, "states": m.states, "transitions": m.steps,
			"distinct_outcomes": len(m.outcomes), "complete": m.exhaustive, "longest_choice_sequence": m.depth, "wall_s": round(m.wall)}
		if m.kind == "schedules" {
			u["deviation_bound_completed"] = m.bound
			u["deviation_bound_aimed_at"] = m.target
		}
		units = append(units, u)
		samples = append(samples, map[string]interface{}{"unit": m.unit, "outcomes": ex})
	}
	seed, _ := strconv.Atoi(getenv("VERIF_SEED", "1"))
	if states == 0 {
		states = 1
	}
	if steps == 0 {
		steps = 1
	}
	if execs == 0 {
		execs = 1
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall), "violations": violations,
		"coverage": map[string]interface{}{
			"states": states, "transitions": steps, "executions": execs, "exhaustive": exh && violations == 0,
			"traces_validated_against_impl": rev,
			"validation":                    "every execution runs the implementation itself; traces_validated_against_impl counts the executions that were run a second time and had to show identical choices, steps and observations",
			"samples":                       samples, "units": units, "build_s": round(buildS)},
		"assumptions": []string{
			"every execution runs the code of /repo itself; channels, goroutines, locks, timers, map iteration and datagram sockets were replaced mechanically by controlled ones with the same meaning, so every explored trace is a trace of the implementation",
			"schedules are complete up to the stated number of deviations from the default schedule (preemptions, early timers, non-default environment answers); thread switches happen at synchronisation operations",
			"inputs are complete over the stated finite domains (see DESIGN.md)",
		},
	}
	if len(fixed) > 0 {
		ev["fixed_defects_covered"] = fixed
	}
	os.MkdirAll(evidenceDir(verif), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evidenceDir(verif), prop+".json"), append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
}

func round(x float64) float64 { return float64(int(x*100+0.5)) / 100 }

// evidenceDir is where evidence and replays go; MC_OUT is for trials against copies of the repository.
func evidenceDir(verif string) string { return getenv("MC_OUT", filepath.Join(verif, "evidence")) }
