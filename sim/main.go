package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"time"
)

// The simulator is one program with several roles:
//
//	check   PROP       the parent: spawns workers over run numbers, minimises, reports
//	worker  PROP ...   runs its share of the run numbers, one after another
//	one     FILE       runs one explicit case and prints its result
//	judge   FILE       runs one case against the reference, all responses judged
//	shrink  FILE OUT   minimises a failing case
//	replay  FILE       reproduces a reported violation in a fresh process
//	hashes  PROP ...   prints a hash of every run's whole history (determinism check)
//	try     PROP ...   debugging aid
func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: zsim check|worker|one|shrink|replay|hashes|try ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(checkMain(os.Args[2:]))
	case "worker":
		quietRuntime()
		workerMain(os.Args[2:])
	case "one":
		quietRuntime()
		oneMain(os.Args[2])
	case "judge":
		quietRuntime()
		judgeMain(os.Args[2])
	case "shrink":
		quietRuntime()
		shrinkMain(os.Args[2], os.Args[3])
	case "replay":
		os.Exit(replayMain(os.Args[2]))
	case "hashes":
		quietRuntime()
		p := propByID(os.Args[2])
		from, n := atoi(os.Args[3]), atoi(os.Args[4])
		for i := from; i < from+n; i++ {
			r := p.eval(makeCase(p, 1, i))
			fmt.Printf("%d %016x %016x %d %d %q\n", i, r.evhash, r.hash, r.judged, r.stats.KVOps, r.viol)
			tidy()
		}
	case "try":
		quietRuntime()
		tryMain(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

// quietRuntime keeps the garbage collector out of the simulated executions.
func quietRuntime() {
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1500 << 20)
	debug.SetMaxStack(256 << 20)
}

var sinceGC int

func tidy() {
	var m runtime.MemStats
	if sinceGC++; sinceGC%8 == 0 {
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > 200<<20 {
			runtime.GC()
		}
	}
}

func tryMain(args []string) {
	p := propByID(args[0])
	from, n := atoi(args[1]), atoi(args[2])
	base := uint64(1)
	if len(args) > 3 {
		base = uint64(atoi(args[3]))
	}
	nv := 0
	for i := from; i < from+n; i++ {
		c := makeCase(p, base, i)
		wantTrace = n == 1
		r := p.eval(c)
		tidy()
		if r.err != nil {
			fmt.Println(i, "ERR", r.err)
		}
		if r.viol != "" {
			nv++
			fmt.Println(i, c.Profile, c.Backend, "VIOL", r.viol)
		}
		if n == 1 {
			for _, o := range c.Ops {
				if o.Spec != nil {
					b, _ := json.Marshal(o.Spec)
					fmt.Printf("spec #%d %s\n%s\n", o.ID, b, o.Spec.yaml())
				}
			}
			if r.trace == nil {
				r.trace = r.full
			}
			for _, t := range r.trace {
				fmt.Println("  ", t)
			}
		}
		if nv > 5 {
			break
		}
	}
}

// summary is what one run reports to the parent.
type summary struct {
	Idx     int            `json:"i"`
	Profile string         `json:"p"`
	Backend string         `json:"b"`
	Ev      uint64         `json:"e"`
	Hash    uint64         `json:"h"`
	Judged  int            `json:"j"`
	Runs    int            `json:"r"`
	KV      int            `json:"k"`
	Req     int            `json:"q"`
	Log     int            `json:"l"`
	Choices int            `json:"c"`
	Switch  int            `json:"s"`
	Crash   int            `json:"x"`
	Restart int            `json:"re"`
	Faults  map[string]int `json:"f,omitempty"`
	SimNs   int64          `json:"t"`
	GaveUp  bool           `json:"g,omitempty"`
	Skip    bool           `json:"sk,omitempty"`
	MaxFr   int            `json:"mf,omitempty"`
	Viol    string         `json:"v,omitempty"`
	Err     string         `json:"err,omitempty"`
	Ms      int64          `json:"ms,omitempty"`
	Sample  []string       `json:"sample,omitempty"`
}

func summarise(i int, c *Case, r *result) *summary {
	s := &summary{Idx: i, Profile: c.Profile, Backend: c.Backend, Ev: r.evhash, Hash: r.hash, Judged: r.judged, Runs: r.runs, KV: r.stats.KVOps,
		Req: r.stats.Requests, Log: r.stats.LogCalls, Choices: r.stats.Choices, Switch: r.stats.Switches, Crash: r.stats.Crashes,
		Restart: r.stats.Restarts, Faults: r.stats.Faults, SimNs: r.simTime, GaveUp: r.gaveUp, Skip: r.skipped, MaxFr: r.maxFr, Viol: r.viol}
	if r.err != nil {
		s.Err = r.err.Error()
	}
	return s
}

// workerMain runs the run numbers first, first+step, ... below count.
func workerMain(args []string) {
	p := propByID(args[0])
	base, _ := strconv.ParseUint(args[1], 10, 64)
	first, step, count := atoi(args[2]), atoi(args[3]), atoi(args[4])
	out := bufio.NewWriter(os.Stdout)
	emit := func(kind string, v any) {
		b, _ := json.Marshal(v)
		fmt.Fprintf(out, "%s %s\n", kind, b)
		out.Flush()
	}
	for i := first; i < count; i += step {
		emit("S", i)
		c := makeCase(p, base, i)
		wantTrace = i < 3
		begin := time.Now()
		r := p.eval(c)
		s := summarise(i, c, r)
		s.Ms = time.Since(begin).Milliseconds()
		if i < 3 {
			s.Sample = sampleOf(c, r)
		}
		emit("D", s)
		if sleptOut {
			break
		}
		tidy()
	}
	emit("E", 0)
}

func sampleOf(c *Case, r *result) []string {
	l := []string{fmt.Sprintf("profile %s, store %s, seed %d, %d requests", c.Profile, c.Backend, c.Seed, len(c.Ops))}
	t := r.full
	if len(t) > 40 {
		t = append(append([]string{}, t[:40]...), fmt.Sprintf("... %d more", len(r.full)-40))
	}
	return append(l, t...)
}

// replayFile is a reported violation.
type replayFile struct {
	Property  string   `json:"property"`
	BaseSeed  uint64   `json:"base_seed"`
	Run       int      `json:"run"`
	Kind      string   `json:"kind"` // oracle, death or hang
	Violation string   `json:"violation"`
	EvHash    string   `json:"history_hash"`
	Unstable  bool     `json:"unstable,omitempty"`
	Prelude   []int    `json:"prelude,omitempty"` // runs of the same base seed that come first in the process
	Case      *Case    `json:"case"`
	Trace     []string `json:"trace"`
	Note      string   `json:"note,omitempty"`
}

func readReplay(file string) (*replayFile, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	f := &replayFile{}
	if err := json.Unmarshal(b, f); err != nil {
		return nil, err
	}
	if f.Case == nil || propByID(f.Property) == nil {
		return nil, fmt.Errorf("not a replay file")
	}
	return f, nil
}

func writeReplay(file string, f *replayFile) error {
	os.MkdirAll(filepath.Dir(file), 0o755)
	b, err := json.MarshalIndent(f, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(file, append(b, '\n'), 0o644)
}

type oneResult struct {
	Viol  string   `json:"viol"`
	Ev    string   `json:"ev"`
	Sched []int    `json:"sched"`
	Trace []string `json:"trace"`
	Err   string   `json:"err"`
	Skip  bool     `json:"skip"`
}

func oneMain(file string) {
	f, err := readReplay(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	p := propByID(f.Property)
	for _, i := range f.Prelude {
		p.eval(makeCase(p, f.BaseSeed, i))
		tidy()
	}
	r := p.eval(f.Case)
	o := oneResult{Viol: r.viol, Ev: fmt.Sprintf("%016x", r.evhash), Sched: r.sched, Trace: r.trace, Skip: r.skipped}
	if r.err != nil {
		o.Err = r.err.Error()
	}
	b, _ := json.Marshal(o)
	fmt.Printf("R %s\n", b)
}

func faultNames(m map[string]int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// judgeMain runs a case in this process, which has run nothing before.
func judgeMain(file string) {
	f, err := readReplay(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	r := evalModel(f.Case, modelOpts{judge: judgeOf(allKinds)})
	o := oneResult{Viol: r.viol}
	if r.err != nil {
		o.Err = r.err.Error()
	}
	b, _ := json.Marshal(o)
	fmt.Printf("R %s\n", b)
}

// freshly judges a case in a new process: nothing the service keeps in package
// variables from other runs is there. ok is whether the reference explains it.
func freshly(c *Case) (ok bool, err error) {
	dir, err := newScratch()
	if err != nil {
		return false, err
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "case.json")
	if err := writeReplay(file, &replayFile{Property: c.Prop, Case: c}); err != nil {
		return false, err
	}
	exe, err := os.Executable()
	if err != nil {
		return false, err
	}
	cmd := exec.Command(exe, "judge", file)
	cmd.Env = childEnv()
	b, err := cmd.Output()
	if err != nil {
		return false, nil // it does not complete in a new process either
	}
	o := &oneResult{}
	i := bytes.LastIndex(b, []byte("R {"))
	if i < 0 || json.Unmarshal(bytes.TrimSpace(b[i+2:]), o) != nil {
		return false, fmt.Errorf("no result from a new process")
	}
	return o.Viol == "" && o.Err == "", nil
}
