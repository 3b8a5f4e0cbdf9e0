package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

const (
	hangCPU  = 60 * time.Second  // of one run; runs take milliseconds
	hangWall = 400 * time.Second // only trouble of the machine lasts that long
	maxRSS   = 5 << 30
)

func childEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOMAXPROCS=") || strings.HasPrefix(e, "GODEBUG=") || strings.HasPrefix(e, "GOGC=") || strings.HasPrefix(e, "GOTRACEBACK=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=single")
}

// usage returns the CPU time and the resident memory of a process.
func usage(pid int) (cpu time.Duration, rss int64) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:])
	if len(f) < 22 {
		return 0, 0
	}
	u, _ := strconv.ParseInt(f[11], 10, 64)
	v, _ := strconv.ParseInt(f[12], 10, 64)
	r, _ := strconv.ParseInt(f[21], 10, 64)
	return time.Duration(u+v) * 10 * time.Millisecond, r * int64(os.Getpagesize())
}

// child runs the program in another role under watch.
type child struct {
	cmd    *exec.Cmd
	out    io.ReadCloser
	stderr *tail
	mu     sync.Mutex
	mark   time.Duration // CPU time at the start of the current run
	since  time.Time
	why    string // why it was killed
	done   chan struct{}
	cpuCap time.Duration
}

type tail struct {
	mu   sync.Mutex
	head []byte
}

func (t *tail) Write(b []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.head) < 1<<16 {
		t.head = append(t.head, b...)
	}
	return len(b), nil
}

func startChild(cpuCap time.Duration, args ...string) (*child, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	c := &child{cmd: exec.Command(exe, args...), stderr: &tail{}, done: make(chan struct{}), since: time.Now(), cpuCap: cpuCap}
	c.cmd.Env = childEnv()
	c.cmd.Stderr = c.stderr
	c.out, err = c.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := c.cmd.Start(); err != nil {
		return nil, err
	}
	go c.watch()
	return c, nil
}

func (c *child) watch() {
	for {
		select {
		case <-c.done:
			return
		case <-time.After(100 * time.Millisecond):
		}
		cpu, rss := usage(c.cmd.Process.Pid)
		c.mu.Lock()
		switch {
		case cpu-c.mark > c.cpuCap:
			c.why = "hang"
		case rss > maxRSS:
			c.why = "memory"
		case time.Since(c.since) > hangWall:
			c.why = "wall"
		}
		if c.why != "" {
			c.cmd.Process.Kill()
			c.mu.Unlock()
			return
		}
		c.mu.Unlock()
	}
}

func (c *child) newRun() {
	cpu, _ := usage(c.cmd.Process.Pid)
	c.mu.Lock()
	c.mark, c.since = cpu, time.Now()
	c.mu.Unlock()
}

// late tells whether the current run has taken longer than any should.
func (c *child) late() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return time.Since(c.since) > 10*time.Second
}

func (c *child) kill(why string) {
	c.mu.Lock()
	if c.why == "" {
		c.why = why
	}
	c.mu.Unlock()
	c.cmd.Process.Kill()
}

func (c *child) wait() error {
	err := c.cmd.Wait()
	close(c.done)
	return err
}

// runOne runs an explicit case in a fresh process. kind is oracle, death, hang, none
// or trouble.
func runOne(file string) (kind, viol string, res *oneResult) {
	limit := hangCPU
	if f, err := readReplay(file); err == nil && f.Prelude != nil {
		limit *= 4
	}
	c, err := startChild(limit, "one", file)
	if err != nil {
		return "trouble", err.Error(), nil
	}
	b, _ := io.ReadAll(c.out)
	err = c.wait()
	if i := bytes.LastIndex(b, []byte("R {")); i >= 0 {
		o := &oneResult{}
		if json.Unmarshal(bytes.TrimSpace(b[i+2:]), o) == nil {
			switch {
			case o.Err != "":
				return "trouble", o.Err, o
			case o.Viol != "" && !o.Skip:
				return "oracle", o.Viol, o
			}
			return "none", "", o
		}
	}
	switch c.why {
	case "hang":
		return "hang", fmt.Sprintf("a request does not end: the run used more than %v of CPU time", hangCPU), nil
	case "memory":
		return "hang", "a request does not end: the run used more than 5 GB of memory", nil
	case "":
		if err != nil {
			return "death", "the process died: " + fatalLine(string(c.stderr.head)), nil
		}
	}
	return "trouble", fmt.Sprintf("%s %v %s", c.why, err, clip(string(c.stderr.head), 500)), nil
}

func fatalLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") {
			return l
		}
	}
	return clip(firstLine(s), 300)
}

// ---- the parent ------------------------------------------------------------------

type totals struct {
	cases, sims, judged, kv, req, log, choices, switches, crashes, restarts int
	gaveUp, skipped, concurrent, faulty, crashRuns, blockedRuns             int
	simNs                                                                   int64
	faults, profiles, backends                                              map[string]int
	hist, inter                                                             map[uint64]bool
	nontrivial                                                              map[uint64]bool
	samples                                                                 []any
	maxFr                                                                   int
	slowMs                                                                  int64
	slowRun                                                                 int
}

type failure struct {
	idx         int
	kind        string
	viol        string
	first, step int // the runs its worker made before
}

func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ContinueOnError)
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	runs := fs.Int("runs", 0, "")
	wall := fs.Int("wall", 0, "")
	workers := fs.Int("workers", 8, "")
	dir := fs.String("dir", "/verif", "")
	if len(args) < 1 {
		return 2
	}
	id := args[0]
	if err := fs.Parse(args[1:]); err != nil {
		return 2
	}
	p := propByID(id)
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property:", id)
		return 2
	}
	count, cap := 2*p.quick, 150
	if *tier == "thorough" {
		count, cap = 2*p.quick*p.deep(), 3000
	}
	if *runs > 0 {
		count = *runs
	}
	if *wall > 0 {
		cap = *wall
	}
	begin := time.Now()
	tot, fails, trouble := explore(p, *seed, count, *workers, begin.Add(time.Duration(cap)*time.Second))
	explored := time.Since(begin)
	status := 0
	violations := 0
	var notes []string
	if len(fails) > 0 {
		sort.Slice(fails, func(i, j int) bool { return fails[i].idx < fails[j].idx })
		tried := 0
		for _, f := range fails {
			if tried++; tried > 4 {
				break
			}
			path, viol, err := report(p, *seed, f, *dir)
			if err != nil {
				notes = append(notes, err.Error())
				continue
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			fmt.Println("  " + strings.ReplaceAll(clip(viol, 3000), "\n", "\n  "))
			violations++
			status = 1
			break
		}
		if status == 0 {
			for _, n := range notes {
				fmt.Fprintln(os.Stderr, "trouble:", n)
			}
			status = 2
		}
	}
	if status == 0 && tot.cases == 0 {
		trouble = append(trouble, "no run was completed")
	}
	if status == 0 && len(trouble) > 0 {
		for i, t := range trouble {
			if i < 5 {
				fmt.Fprintln(os.Stderr, "trouble:", t)
			}
		}
		status = 2
	}
	if err := writeEvidence(p, *tier, *seed, count, *workers, tot, violations, explored, time.Since(begin), *dir); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		if status == 0 {
			status = 2
		}
	}
	if status == 0 {
		fmt.Printf("ok property=%s runs=%d simulated executions=%d responses judged=%d faults=%d interleavings=%d in %.1fs\n",
			id, tot.cases, tot.sims, tot.judged, sum(tot.faults), len(tot.inter), time.Since(begin).Seconds())
	}
	return status
}

func sum(m map[string]int) (n int) {
	for _, v := range m {
		n += v
	}
	return
}

// explore runs count cases on several worker processes.
func explore(p *prop, seed uint64, count, workers int, deadline time.Time) (*totals, []failure, []string) {
	tot := &totals{faults: map[string]int{}, profiles: map[string]int{}, backends: map[string]int{}, hist: map[uint64]bool{}, inter: map[uint64]bool{}, nontrivial: map[uint64]bool{}}
	var mu sync.Mutex
	var fails []failure
	var trouble []string
	stop := false
	live := map[*child]bool{}
	var wg sync.WaitGroup
	timer := time.AfterFunc(time.Until(deadline), func() {
		mu.Lock()
		defer mu.Unlock()
		stop = true
		for c := range live {
			if !c.late() { // what has been at one run for long may never end: wait for the verdict
				c.kill("deadline")
			}
		}
	})
	defer timer.Stop()
	fail := func(f failure) {
		fails = append(fails, f)
		if !stop {
			stop = true
			for c := range live {
				c.kill("deadline")
			}
		}
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			next := w
			restarts := 0
			for {
				mu.Lock()
				if stop || next >= count {
					mu.Unlock()
					return
				}
				c, err := startChild(hangCPU, "worker", p.id, fmt.Sprint(seed), fmt.Sprint(next), fmt.Sprint(workers), fmt.Sprint(count))
				if err != nil {
					trouble = append(trouble, err.Error())
					mu.Unlock()
					return
				}
				live[c] = true
				mu.Unlock()
				cur := -1
				first := next
				ended := false
				rd := bufio.NewReaderSize(c.out, 1<<20)
				for {
					line, err := rd.ReadString('\n')
					if err != nil {
						break
					}
					if len(line) < 3 {
						continue
					}
					switch line[0] {
					case 'S':
						cur, _ = strconv.Atoi(strings.TrimSpace(line[2:]))
						c.newRun()
					case 'E':
						ended = true
					case 'D':
						s := &summary{}
						if json.Unmarshal([]byte(line[2:]), s) != nil {
							continue
						}
						mu.Lock()
						tot.add(s)
						if s.Err != "" {
							trouble = append(trouble, fmt.Sprintf("run %d: %s", s.Idx, s.Err))
						}
						if s.Viol != "" && !s.Skip {
							fail(failure{s.Idx, "oracle", s.Viol, first, workers})
						}
						if stop {
							c.kill("deadline")
						}
						mu.Unlock()
						next = cur + workers
						cur = -1
					}
				}
				werr := c.wait()
				mu.Lock()
				delete(live, c)
				why := c.why
				if ended || why == "deadline" {
					mu.Unlock()
					return
				}
				restarts++
				switch {
				case why == "hang" || why == "memory":
					fail(failure{cur, "hang", "a request does not end", first, workers})
				case why == "wall":
					trouble = append(trouble, fmt.Sprintf("run %d: the worker stalled", cur))
				case cur >= 0:
					fail(failure{cur, "death", fatalLine(string(c.stderr.head)), first, workers})
				default:
					trouble = append(trouble, fmt.Sprintf("worker ended: %v %s", werr, clip(string(c.stderr.head), 300)))
				}
				if cur >= 0 {
					next = cur + workers
				}
				mu.Unlock()
				if restarts > 3 {
					return
				}
			}
		}(w)
	}
	wg.Wait()
	return tot, fails, trouble
}

func (t *totals) add(s *summary) {
	t.cases++
	t.sims += s.Runs
	t.judged += s.Judged
	t.kv += s.KV
	t.req += s.Req
	t.log += s.Log
	t.choices += s.Choices
	t.switches += s.Switch
	t.crashes += s.Crash
	t.restarts += s.Restart
	t.simNs += s.SimNs
	for k, v := range s.Faults {
		t.faults[k] += v
	}
	t.profiles[s.Profile]++
	t.backends[s.Backend]++
	t.hist[s.Ev] = true
	if s.Choices > 0 {
		t.concurrent++
		t.inter[s.Hash] = true
	}
	if sum(s.Faults) > 0 {
		t.faulty++
	}
	if s.Crash > 0 {
		t.crashRuns++
	}
	if s.GaveUp {
		t.gaveUp++
	}
	if s.Skip {
		t.skipped++
	}
	if s.Judged > 0 && s.KV > 0 {
		t.nontrivial[s.Ev] = true
	}
	if s.Ms > t.slowMs {
		t.slowMs, t.slowRun = s.Ms, s.Idx
	}
	if s.MaxFr > t.maxFr {
		t.maxFr = s.MaxFr
	}
	if len(s.Sample) > 0 && len(t.samples) < 2 {
		t.samples = append(t.samples, s.Sample)
	}
}

// report confirms a failure in fresh processes, minimises it and writes the replay file.
func report(p *prop, seed uint64, f failure, dir string) (path, viol string, err error) {
	path = filepath.Join(dir, "replays", fmt.Sprintf("%s-%d-%d.json", p.id, seed, f.idx))
	c := makeCase(p, seed, f.idx)
	rf := &replayFile{Property: p.id, BaseSeed: seed, Run: f.idx, Kind: f.kind, Violation: f.viol, Case: c}
	if err = writeReplay(path, rf); err != nil {
		return
	}
	kind, v, res := runOne(path)
	again := func(n int) {
		for ; kind == "none" && n > 0; n-- {
			kind, v, res = runOne(path)
			rf.Unstable = kind != "none"
		}
	}
	again(3)
	if kind == "none" {
		// perhaps it needs what earlier runs left behind in the process
		if findPrelude(rf, f, path) {
			kind, v, res = runOne(path)
		} else {
			again(17)
		}
	}
	switch kind {
	case "oracle", "death", "hang":
	default:
		return "", "", fmt.Errorf("run %d of seed %d: %s could not be reproduced in a fresh process (%s %s)", f.idx, seed, f.viol, kind, v)
	}
	rf.Kind, rf.Violation = kind, v
	if res != nil {
		rf.EvHash, rf.Trace = res.Ev, res.Trace
		rf.Case.Sched, rf.Case.Fixed = res.Sched, true
	}
	if err = writeReplay(path, rf); err != nil {
		return
	}
	done := false
	if kind == "oracle" && rf.Prelude == nil {
		small := path + ".min"
		sc, e := startChild(hangWall, "shrink", path, small)
		if e == nil {
			io.Copy(io.Discard, sc.out)
			sc.wait()
		}
		if g, e := readReplay(small); e == nil {
			ok := true
			for k := 0; k < 2 && ok; k++ { // it must fail the same way in fresh processes
				kind2, v2, r2 := runOne(small)
				ok = kind2 == "oracle" && v2 == g.Violation && r2.Ev == g.EvHash
			}
			if !ok && rf.Unstable {
				for k := 0; k < 10 && !ok; k++ {
					kind2, _, _ := runOne(small)
					ok = kind2 == "oracle"
				}
			}
			if ok {
				g.Unstable = rf.Unstable
				rf = g
				writeReplay(path, rf)
				done = true
			}
		}
		os.Remove(small)
	}
	if !done && !rf.Unstable {
		rf.Case = shrinkApart(rf, path)
		writeReplay(path, rf)
		if kind == "oracle" { // what the smaller case shows
			if k, v, r := runOne(path); k == kind {
				rf.Violation, rf.EvHash, rf.Trace = v, r.Ev, r.Trace
				writeReplay(path, rf)
			}
		}
	}
	return path, rf.Violation, nil
}

// findPrelude looks for runs of the same worker after which the failure appears.
func findPrelude(rf *replayFile, f failure, path string) bool {
	var all []int
	for i := f.first; i < f.idx && f.step > 0; i += f.step {
		all = append(all, i)
	}
	fails := func(l []int) bool {
		rf.Prelude = l
		if writeReplay(path, rf) != nil {
			return false
		}
		k, _, _ := runOne(path)
		return k != "none" && k != "trouble"
	}
	end := time.Now().Add(90 * time.Second)
	var best []int
	for n := 1; len(all) > 0; n *= 4 {
		if n > len(all) {
			n = len(all)
		}
		if l := all[len(all)-n:]; fails(l) {
			best = append([]int{}, l...)
			break
		}
		if n == len(all) {
			break
		}
	}
	if best == nil {
		rf.Prelude = nil
		writeReplay(path, rf)
		return false
	}
	for size := (len(best) + 1) / 2; size >= 1; size /= 2 {
		for at := 0; at < len(best) && len(best) > 1 && time.Now().Before(end); {
			stop := min(at+size, len(best))
			l := append(append([]int{}, best[:at]...), best[stop:]...)
			if len(l) > 0 && fails(l) {
				best = l
			} else {
				at = stop
			}
		}
		if size == 1 {
			break
		}
	}
	rf.Prelude = best
	writeReplay(path, rf)
	return true
}

// shrinkApart minimises a run that kills or hangs its process: every candidate has a
// process of its own.
func shrinkApart(rf *replayFile, path string) *Case {
	best := rf.Case
	end := time.Now().Add(100 * time.Second)
	tmp := path + ".cand"
	defer os.Remove(tmp)
	for size := (len(best.Ops) + 1) / 2; size >= 1; size /= 2 {
		for at := 0; at < len(best.Ops); {
			if time.Now().After(end) {
				return best
			}
			stop := at + size
			if stop > len(best.Ops) {
				stop = len(best.Ops)
			}
			ops := append(append([]*Op{}, best.Ops[:at]...), best.Ops[stop:]...)
			c := withOps(best, ops)
			g := *rf
			g.Case = c
			if len(ops) > 0 && writeReplay(tmp, &g) == nil {
				if k, _, _ := runOne(tmp); k == rf.Kind {
					best = c
					continue
				}
			}
			at = stop
		}
		if size == 1 {
			break
		}
	}
	return best
}

func replayMain(file string) int {
	f, err := readReplay(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	n := 1
	if f.Unstable {
		n = 20
	}
	for i := 0; i < n; i++ {
		kind, v, res := runOne(file)
		if kind == "trouble" {
			fmt.Fprintln(os.Stderr, v)
			return 2
		}
		if kind == "none" {
			continue
		}
		abs, _ := filepath.Abs(file)
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, abs)
		fmt.Println(v)
		if res != nil {
			for _, l := range res.Trace {
				fmt.Println("  " + l)
			}
			if v == f.Violation && res.Ev == f.EvHash {
				fmt.Println("reproduced exactly (same history, same violation)")
			} else {
				fmt.Println("a violation, but not the recorded one:", f.Violation)
			}
		}
		return 1
	}
	fmt.Println("not reproduced: the property holds in this execution")
	return 0
}

func writeEvidence(p *prop, tier string, seed uint64, planned, workers int, t *totals, violations int, explored, wall time.Duration, dir string) error {
	sec := explored.Seconds()
	perHour := func(n int) int { return int(float64(n) / sec * 3600) }
	samples := t.samples
	if samples == nil {
		samples = []any{}
	}
	cov := map[string]any{
		"evaluations":            t.cases,
		"distinct_nontrivial":    len(t.nontrivial),
		"rule":                   p.rule,
		"samples":                samples,
		"planned_runs":           planned,
		"simulated_executions":   t.sims,
		"runs_per_hour":          perHour(t.cases),
		"seeds_per_hour":         perHour(t.cases),
		"simulated_time_s":       float64(t.simNs) / 1e9,
		"requests":               t.req,
		"storage_operations":     t.kv,
		"responses_judged":       t.judged,
		"faults_injected":        t.faults,
		"crashes":                t.crashes,
		"restarts":               t.restarts,
		"runs_with_faults":       t.faulty,
		"runs_with_crashes":      t.crashRuns,
		"runs_with_concurrency":  t.concurrent,
		"scheduling_choices":     t.choices,
		"context_switches":       t.switches,
		"distinct_interleavings": len(t.inter),
		"interleaving_measure":   "hash of the sequence of (task, storage operation) steps chosen by the scheduler, over runs with at least one choice",
		"distinct_histories":     len(t.hist),
		"history_measure":        "hash of every request, response, fault and step count of the run",
		"profiles":               t.profiles,
		"stores":                 t.backends,
		"inconclusive_runs":      t.gaveUp,
		"other_property_runs":    t.skipped,
		"largest_state_set":      t.maxFr,
		"slowest_run_seconds":    float64(t.slowMs) / 1000,
		"slowest_run":            t.slowRun,
		"workers":                workers,
		"real_components":        []string{"zanzi services, repositories, search, parsers and generated API code", "raccoondb object stores", "protobuf", "raccoondb in-memory and LevelDB stores in the runs listed under stores"},
		"stub_components":        []string{"key-value store of the sim runs (ordered map with faults)", "clients and request delivery", "logger", "clock (hook, tag verif)", "process crash and restart"},
	}
	ev := map[string]any{"property": p.id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall.Seconds(), "violations": violations,
		"assumptions": []string{
			"the reference model in sim/model.go states the property",
			"goroutines of zanzi interact through storage operations and locks only: these are the scheduling points",
			"a storage operation is atomic and durable once it returned, unless the injected fault says otherwise",
			"a run is a sample: what no run reached is not decided",
		}}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	file := filepath.Join(dir, "evidence", p.id+".json")
	os.MkdirAll(filepath.Dir(file), 0o755)
	return os.WriteFile(file, append(b, '\n'), 0o644)
}
