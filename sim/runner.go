package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	rcdb "github.com/sourcenetwork/raccoondb"

	zanzi "github.com/sourcenetwork/zanzi"
	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
)

// Case is one explicit simulated execution. Running a Case is a pure function of
// the Case and of the code of zanzi.
type Case struct {
	Prop    string `json:"prop"`
	Seed    uint64 `json:"seed"`
	Profile string `json:"profile"`
	Mode    string `json:"mode,omitempty"`    // "", "isolate", "rename", "insert", ...
	Backend string `json:"backend"`           // sim mem leveldb default-mem default-leveldb
	LogFmt  bool   `json:"log_fmt,omitempty"` // the logger formats its arguments
	Logger  string `json:"logger,omitempty"`  // "": the simulator's; "default", "none": the library's own
	Strict  bool   `json:"strict,omitempty"`  // the store's writers wait for open iterators
	Budget  int    `json:"budget"`            // storage operations + log calls per request
	Ops     []*Op  `json:"ops"`
	Sched   []int  `json:"sched,omitempty"` // scheduling choices, used when several tasks can run
	Fixed   bool   `json:"fixed,omitempty"` // beyond Sched the running task goes on; otherwise the seed decides
	// Rename is the renaming used by mode "rename"
	Rename map[string]map[string]string `json:"rename,omitempty"`
}

// Event is one delivery of a request and what came out of it.
type Event struct {
	Op      *Op
	Attempt int
	Client  int
	Phase   int
	Inv     int64
	Ret     int64
	Resp    *Resp
	Crashed bool
	Panic   string
	Overrun bool
	Fired   []Fault // faults that fired inside this request
	Writes  int     // storage writes issued
	Steps   int
	Lo, Hi  int64 // simulated clock
	RLo     int64 // real clock
	RHi     int64
	Mutated string // description of a change the service made to the request
	DigPre  string
	DigPost string
	Restart int    // number of restarts before the event
	cancel  func() // cancels the context of the request
}

func (e *Event) String() string {
	s := fmt.Sprintf("c%d %s", e.Client, e.Op.String())
	if e.Attempt > 0 {
		s += fmt.Sprintf(" (attempt %d)", e.Attempt+1)
	}
	for _, f := range e.Fired {
		s += fmt.Sprintf(" [fault %s@%s#%d]", f.Kind, f.Class, f.N)
	}
	switch {
	case e.Crashed:
		s += " => CRASH"
	case e.Panic != "":
		s += " => PANIC " + firstLine(e.Panic)
	case e.Overrun:
		s += " => STEP BUDGET EXCEEDED"
	case e.Resp != nil:
		s += " => " + e.Resp.String()
	}
	return s
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

type task struct {
	id      string
	ev      *Event
	root    *task // the task of the request, for goroutines it started
	resume  chan struct{}
	parked  bool
	done    bool
	over    bool // its end was noticed
	dead    bool
	overrun bool
	steps   int
	op      string
	counts  map[string]int
	kids    int
	client  int
}

type runStats struct {
	KVOps     int
	LogCalls  int
	Requests  int
	Switches  int
	Choices   int
	Blocked   int
	Crashes   int
	Restarts  int
	Faults    map[string]int
	Cancelled int
}

// evKind is what tasks report to the controller.
type note struct {
	t    *task
	done bool
}

type runner struct {
	c       *Case
	ctx     context.Context
	be      backend
	h       *handle
	z       zanzi.Zanzi
	pol     api.PolicyServiceServer
	rg      api.RelationGraphServer
	defPath string // directory of the default LevelDB store, mode default-leveldb

	conc    bool // tasks park at storage operations
	mu      sync.Mutex
	opMu    sync.Mutex // held while a storage operation is carried out
	tasks   map[int64]*task
	byG     map[uintptr]*task // the launched ones, by their goroutine
	notes   chan note
	live    map[*task]bool
	crashed bool
	main    int64 // the goroutine of the simulator
	bg      *task // stands for the request of goroutines whose request is over
	ended   bool
	seq     int64
	clock   int64
	active  map[*Event]bool
	budget  int
	fullFor int

	schedPos int
	trace    []int // choices made
	pick     func(n int, prev int) int
	hash     uint64 // hash of the interleaving

	events    []*Event
	stats     runStats
	deadlock  string
	restarts  int
	sawDigest bool
}

const clockBase int64 = 4_000_000_000_000_000_000 // 2096: far from the real time
const clockStep int64 = 1_000_003

var current *runner // the run in progress, used by the clock seam

func init() {
	domain.SetClock(func() time.Time {
		if current == nil {
			return time.Unix(0, clockBase)
		}
		return time.Unix(0, current.clock).UTC()
	})
}

func newRunner(c *Case) *runner {
	return &runner{
		c:      c,
		ctx:    context.Background(),
		tasks:  map[int64]*task{},
		byG:    map[uintptr]*task{},
		notes:  make(chan note, 1024),
		live:   map[*task]bool{},
		active: map[*Event]bool{},
		clock:  clockBase,
		budget: c.Budget,
		hash:   1469598103934665603,
		stats:  runStats{Faults: map[string]int{}},
	}
}

// ---- instance ----------------------------------------------------------------

type simLogger struct{ r *runner }

func (l *simLogger) log(msg string, args []any) {
	r := l.r
	t := r.currentTask()
	if t == nil {
		return
	}
	r.stats.LogCalls++
	t.steps++
	if r.c.LogFmt {
		_ = fmt.Sprintf(msg, args...)
	}
	if t.dead {
		r.exitDead(t)
	}
	if t.steps > r.budget {
		t.overrun = true
		r.exitDead(t)
	}
}
func (l *simLogger) Errorf(msg string, args ...any) { l.log(msg, args) }
func (l *simLogger) Warnf(msg string, args ...any)  { l.log(msg, args) }
func (l *simLogger) Infof(msg string, args ...any)  { l.log(msg, args) }
func (l *simLogger) Debugf(msg string, args ...any) { l.log(msg, args) }

func (r *runner) boot() error {
	var err error
	logger := zanzi.WithLogger(&simLogger{r})
	switch r.c.Logger {
	case "default":
		logger = zanzi.WithDefaultLogger()
	case "none":
		logger = zanzi.WithoutLogger(nil)
	}
	switch r.c.Backend {
	case "default-mem":
		if r.c.Logger == "default" {
			r.z, err = zanzi.New()
		} else {
			r.z, err = zanzi.New(logger)
		}
	case "default-leveldb":
		r.z, err = zanzi.New(zanzi.WithDefaultKVStore(r.defPath), logger)
	default:
		r.h = &handle{r: r, s: r.be.kv()}
		if r.c.Logger == "default" {
			r.z, err = zanzi.New(zanzi.WithKVStore(r.h))
		} else {
			r.z, err = zanzi.New(zanzi.WithKVStore(r.h), logger)
		}
	}
	if err != nil {
		return err
	}
	r.pol = r.z.GetPolicyService()
	r.rg = r.z.GetRelationGraphService()
	return nil
}

func (r *runner) start() error {
	var err error
	switch r.c.Backend {
	case "sim":
		r.be = &simBackend{newSimStore()}
	case "mem":
		r.be = &memBackend{rcdb.NewMemKV()}
	case "leveldb":
		r.be, err = newLevelBackend()
	case "default-mem":
	case "default-leveldb":
		r.defPath, err = newScratch()
	default:
		err = fmt.Errorf("unknown backend %q", r.c.Backend)
	}
	if err != nil {
		return err
	}
	return r.boot()
}

// restart replaces the dead instance by a new one on what the store kept.
func (r *runner) restart() error {
	r.stats.Restarts++
	r.restarts++
	switch r.c.Backend {
	case "default-mem":
		return nil // volatile by contract: never restarted
	case "default-leveldb":
		if !closeZanzi(&r.z) {
			dir, err := newScratch()
			if err != nil {
				return err
			}
			for k := 0; ; k++ {
				if err = copyDir(r.defPath, dir); err == nil {
					break
				}
				if k > 20 {
					return err
				}
				os.RemoveAll(dir)
			}
			os.RemoveAll(r.defPath)
			r.defPath = dir
		}
		return r.boot()
	}
	r.h.dead = true
	r.killLate()
	be, err := r.be.restart()
	if err != nil {
		return err
	}
	r.be = be
	return r.boot()
}

func (r *runner) stop() {
	if r.be != nil {
		r.be.close()
	}
	if r.c.Backend == "default-leveldb" && r.defPath != "" {
		closeZanzi(&r.z)
		os.RemoveAll(r.defPath)
	}
}

func (r *runner) rawDigest() string {
	if r.be == nil {
		return ""
	}
	return digest(r.be.kv())
}

// ---- tasks -------------------------------------------------------------------

func (r *runner) currentTask() *task {
	r.mu.Lock()
	defer r.mu.Unlock()
	if t, ok := r.byG[getg()]; ok {
		return t
	}
	id := goid()
	if t, ok := r.tasks[id]; ok {
		return t
	}
	if id == r.main || r.main == 0 {
		return nil
	}
	// a goroutine started by the code under test
	p := r.tasks[parentGoid()]
	if p == nil { // when it was opened, or by a request that is over
		p = r.bg
	}
	root := p
	if p.root != nil {
		root = p.root
	}
	root.kids++
	t := &task{id: fmt.Sprintf("%s.%03d", root.id, root.kids), ev: root.ev, root: root, resume: make(chan struct{}), counts: root.counts, client: root.client}
	r.tasks[id] = t
	return t
}

// exitDead ends the current goroutine: its process died or its budget is used up.
func (r *runner) exitDead(t *task) {
	t.dead = true
	if t.root != nil {
		t.root.dead = true
		if t.overrun {
			t.root.overrun = true
		}
	}
	runtime.Goexit()
}

// late says that the goroutine's request is over.
func (t *task) late() bool { return t.root != nil && t.root.done }

// adopt finds the request on whose behalf a goroutine works that was started earlier:
// if there is only one, that one.
func (r *runner) adopt(t *task) {
	if !t.late() {
		return
	}
	t.ev, t.counts = nil, nil
	if len(r.live) == 1 {
		for l := range r.live {
			t.ev, t.counts = l.ev, l.counts
		}
	}
}

// killLate ends the goroutines that requests have left behind, with their process.
func (r *runner) killLate() {
	for round := 0; round < 100; round++ {
		l := r.kidsParked()
		if len(l) == 0 {
			return
		}
		for _, t := range l {
			t.dead = true
			t.parked = false
			t.resume <- struct{}{}
		}
		quiesce()
		for len(r.notes) > 0 {
			<-r.notes
		}
	}
}

// releaseLate lets goroutines that requests have left behind go on, or not yet.
func (r *runner) releaseLate() {
	for _, t := range r.kidsParked() {
		for t.parked && r.choose(2, -1) == 0 {
			r.resumeKid(t)
			for len(r.notes) > 0 {
				<-r.notes
			}
		}
	}
}

func (r *runner) resumeKid(t *task) {
	r.hash = (r.hash ^ hashStr(t.id+t.op)) * 1099511628211
	t.parked = false
	t.resume <- struct{}{}
	quiesce()
}

func (r *runner) yield(t *task, op string) {
	if r.conc || t.late() {
		t.op = op
		t.parked = true
		r.notes <- note{t: t}
		<-t.resume
		t.parked = false
	}
}

// kidsParked returns the parked goroutines that requests have started.
func (r *runner) kidsParked() []*task {
	r.mu.Lock()
	defer r.mu.Unlock()
	var res []*task
	for _, t := range r.tasks {
		if t.root != nil && t.parked {
			res = append(res, t)
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].id < res[j].id })
	return res
}

func (r *runner) tick() {
	r.clock += clockStep
	for e := range r.active {
		if r.clock > e.Hi {
			e.Hi = r.clock
		}
	}
}

func (r *runner) jumpClock(d int64) {
	r.clock += d
	for e := range r.active {
		if r.clock > e.Hi {
			e.Hi = r.clock
		}
		if r.clock < e.Lo {
			e.Lo = r.clock
		}
	}
}

func (r *runner) noteWrite(t *task) {
	if t != nil && t.ev != nil {
		t.ev.Writes++
	}
}

func (r *runner) faultFor(t *task, op string) *Fault {
	if t.ev == nil || t.ev.Op.audit {
		return nil
	}
	if op == "set" || op == "del" {
		if r.fullFor > 0 {
			r.fullFor--
			f := Fault{Class: op, Kind: "full"}
			t.ev.Fired = append(t.ev.Fired, f)
			r.stats.Faults["full:"+op]++
			return &f
		}
	}
	var hit *Fault
	for i := range t.ev.Op.Faults {
		f := &t.ev.Op.Faults[i]
		if !classMatch(f.Class, op) {
			continue
		}
		key := fmt.Sprintf("%d", i)
		n := t.counts[key]
		t.counts[key]++
		if n != f.N || hit != nil || t.ev.Attempt >= max(1, t.ev.Op.FaultTries) {
			continue
		}
		// only faults that make sense for the operation
		switch f.Kind {
		case "errapplied", "full":
			if op != "set" && op != "del" {
				continue
			}
		case "nil":
			if op != "iter" {
				continue
			}
		}
		hit = f
	}
	if hit != nil {
		t.ev.Fired = append(t.ev.Fired, *hit)
		r.stats.Faults[hit.Kind+":"+op]++
		if hit.Kind == "full" {
			r.fullFor = hit.Len
		}
		cp := *hit
		return &cp
	}
	return nil
}

// ---- running requests ----------------------------------------------------------

func (r *runner) nextSeq() int64 { r.seq++; return r.seq }

// launch starts the request as a task and returns it.
func (r *runner) launch(op *Op, client, phase, attempt int) *task {
	if op.Jump != 0 && attempt == 0 {
		r.jumpClock(op.Jump)
		r.stats.Faults["clockjump"]++
	}
	if op.At != 0 {
		r.clock = clockBase + op.At
	}
	r.tick()
	ev := &Event{Op: op, Client: client, Phase: phase, Attempt: attempt, Inv: r.nextSeq(), Lo: r.clock, Hi: r.clock, Restart: r.restarts}
	ev.RLo = time.Now().UnixNano()
	r.active[ev] = true
	r.events = append(r.events, ev)
	r.stats.Requests++
	t := &task{id: fmt.Sprintf("c%02d", client), ev: ev, resume: make(chan struct{}), counts: map[string]int{}, client: client}
	r.live[t] = true
	started := make(chan struct{})
	go func() {
		r.mu.Lock()
		r.tasks[goid()] = t
		r.byG[getg()] = t
		r.mu.Unlock()
		close(started)
		if r.conc {
			t.op = "start"
			t.parked = true
			<-t.resume
			t.parked = false
		}
		defer func() {
			if p := recover(); p != nil {
				buf := make([]byte, 8192)
				n := runtime.Stack(buf, false)
				ev.Panic = fmt.Sprintf("%v\n%s", p, plainStack(string(buf[:n])))
			}
			r.mu.Lock()
			delete(r.tasks, goid())
			delete(r.byG, getg())
			r.mu.Unlock()
			t.done = true
			r.notes <- note{t: t, done: true}
		}()
		resp, mutated := r.execute(op, ev)
		ev.Resp = resp
		ev.Mutated = mutated
	}()
	<-started
	return t
}

// plainStack keeps what is the same in every process: the functions of the code under test.
func plainStack(s string) string {
	var l []string
	for _, x := range strings.Split(s, "\n") {
		if strings.HasPrefix(x, "\t") || strings.HasPrefix(x, "goroutine ") || strings.HasPrefix(x, "main.") || strings.HasPrefix(x, "panic(") || strings.HasPrefix(x, "created by") || x == "" {
			continue
		}
		if i := strings.LastIndexByte(x, '('); i > 0 {
			x = x[:i]
		}
		if len(l) < 12 {
			l = append(l, "  in "+x)
		}
	}
	return strings.Join(l, "\n")
}

// finish records the end of a task.
func (r *runner) finish(t *task) {
	ev := t.ev
	delete(r.live, t)
	delete(r.active, ev)
	ev.Ret = r.nextSeq()
	ev.RHi = time.Now().UnixNano()
	ev.Steps = t.steps
	if t.dead { // what a dead process would have answered does not leave it
		ev.Resp, ev.Panic = nil, ""
	}
	if ev.Resp == nil && ev.Panic == "" {
		if t.overrun {
			ev.Overrun = true
		} else {
			ev.Crashed = true
		}
	}
	// kids that never finished belong to a finished request: forget them
}

// quiesce waits until every goroutine but the controller is waiting.
// Returns false if the process does not settle.
func quiesce() bool {
	buf := make([]byte, 1<<20)
	asleep := 0
	for i := 0; i < 20000; i++ {
		for j := 0; j < 3; j++ {
			runtime.Gosched()
		}
		n := runtime.Stack(buf, true)
		waiting, sleeping := allWaiting(string(buf[:n]))
		if waiting && !sleeping {
			return true
		}
		if waiting { // for the clock of the machine
			i = 0
			time.Sleep(time.Millisecond)
			if asleep++; asleep > sleepLimit {
				sleptOut = true
			}
			if sleptOut {
				return true
			}
			continue
		}
		if i > 50 {
			time.Sleep(100 * time.Microsecond)
		}
	}
	return false
}

// stuck confirms that nothing can run any more.
func (r *runner) stuck() bool {
	for i := 0; i < 20; i++ {
		if len(r.notes) > 0 || !quiesce() || len(r.notes) > 0 {
			return false
		}
		if sleptOut {
			return true
		}
		for t := range r.live {
			if t.parked || t.done {
				return false
			}
		}
		time.Sleep(5 * time.Millisecond)
	}
	return true
}

// sleepLimit is for how many milliseconds goroutines that sleep are waited for. A request
// that only sleeps for longer is taken for one that never ends.
const sleepLimit = 8000

var sleptOut bool // such a request was met: the process is of no use any more

// allWaiting says whether no goroutine but the caller runs, and whether one sleeps.
func allWaiting(s string) (waiting, sleeping bool) {
	running := 0
	for len(s) > 0 {
		var line string
		if i := strings.IndexByte(s, '\n'); i >= 0 {
			line, s = s[:i], s[i+1:]
		} else {
			line, s = s, ""
		}
		if !strings.HasPrefix(line, "goroutine ") {
			continue
		}
		i := strings.IndexByte(line, '[')
		j := strings.IndexAny(line[i+1:], ",]")
		if i < 0 || j < 0 {
			continue
		}
		switch line[i+1 : i+1+j] {
		case "running":
			running++
		case "chan receive", "chan send", "select", "select (no cases)", "chan receive (nil chan)", "chan send (nil chan)",
			"sync.Mutex.Lock", "sync.RWMutex.RLock", "sync.RWMutex.Lock", "sync.WaitGroup.Wait", "sync.Cond.Wait", "semacquire",
			"finalizer wait", "cleanup wait", "IO wait":
		case "sleep":
			sleeping = true
		default: // about to run, or held up by the runtime
			return false, false
		}
	}
	return running <= 1, sleeping
}

// runSeq runs one request to its end with nothing else running.
func (r *runner) runSeq(op *Op, client, phase, attempt int) *Event {
	r.conc = false
	t := r.launch(op, client, phase, attempt)
	for !t.done {
		select {
		case n := <-r.notes:
			if n.done && n.t == t {
				r.finish(t)
			} else if k := n.t; k.root != nil {
				// a goroutine that was there before: it goes on if the request waits for it
				if quiesce(); !t.done && k.parked {
					r.resumeKid(k)
				}
			}
		case <-time.After(200 * time.Millisecond):
			if k := r.kidsParked(); len(k) > 0 && !t.done && r.stuck() {
				r.resumeKid(k[0]) // it may have what the request waits for
			} else if r.stuck() && t.dead {
				r.finish(t) // it waits for a goroutine of its own that died with the process
				return t.ev
			} else if r.stuck() {
				r.deadlock = fmt.Sprintf("request %s never completes: every goroutine is blocked", op)
				t.ev.Ret = r.nextSeq()
				return t.ev
			}
		}
	}
	if r.live[t] {
		// the note is still queued
		for n := range r.notes {
			if n.done && n.t == t {
				r.finish(t)
				break
			}
		}
	}
	return t.ev
}

type clientState struct {
	id   int
	ops  []*Op
	next int
	try  int
	cur  *task
}

// runConc runs the clients of one phase concurrently under the scheduler.
func (r *runner) runConc(phase int, clients []*clientState) error {
	r.conc = true
	prev := -1
	for {
		// collect what can run
		type ent struct {
			key string
			cl  *clientState
			t   *task
		}
		var ents []ent
		for _, cl := range clients {
			if cl.cur == nil && cl.next < len(cl.ops) {
				ents = append(ents, ent{key: fmt.Sprintf("c%02d", cl.id), cl: cl})
			}
		}
		blocked := 0
		for t := range r.live {
			if t.parked {
				ents = append(ents, ent{key: t.id, t: t})
			} else {
				blocked++
			}
		}
		if len(ents) == 0 && blocked == 0 {
			return nil
		}
		for _, t := range r.kidsParked() {
			ents = append(ents, ent{key: t.id, t: t})
		}
		if len(ents) == 0 {
			if !r.stuck() {
				if err := r.settle(nil); err != nil {
					return err
				}
				if sleptOut {
					return nil
				}
				continue
			}
			var who []string
			for t := range r.live {
				who = append(who, t.ev.Op.String())
			}
			sort.Strings(who)
			r.deadlock = fmt.Sprintf("requests never complete, every goroutine is blocked: %s", strings.Join(who, "; "))
			return nil
		}
		sort.Slice(ents, func(i, j int) bool { return ents[i].key < ents[j].key })
		i := 0
		if len(ents) > 1 {
			pi := -1
			for k, e := range ents {
				c := 0
				if e.cl != nil {
					c = e.cl.id
				} else {
					c = e.t.client
				}
				if c == prev {
					pi = k
				}
			}
			i = r.choose(len(ents), pi)
		}
		e := ents[i]
		var t *task
		if e.cl != nil {
			// starting a request: it parks at once, then runs to its first storage operation
			e.cl.cur = r.launch(e.cl.ops[e.cl.next], e.cl.id, phase, e.cl.try)
			t = e.cl.cur
			for !t.parked {
				runtime.Gosched()
			}
		} else {
			t = e.t
		}
		if prev != t.client {
			r.stats.Switches++
		}
		prev = t.client
		r.hash = (r.hash ^ hashStr(t.id+t.op)) * 1099511628211
		t.parked = false
		t.resume <- struct{}{}
		if err := r.settle(t); err != nil {
			return err
		}
		if sleptOut {
			return nil
		}
		if r.crashed {
			if err := r.drainCrash(); err != nil {
				return err
			}
		}
		for _, cl := range clients {
			if cl.cur != nil && !r.live[cl.cur] {
				ev := cl.cur.ev
				cl.cur = nil
				if needRetry(ev) {
					cl.try++
				} else {
					cl.try = 0
					cl.next++
				}
			}
		}
	}
}

// needRetry says whether the client sends the request again.
func needRetry(ev *Event) bool {
	if ev.Attempt >= ev.Op.Retry {
		return false
	}
	if ev.Crashed {
		return true
	}
	if ev.Op.Lost && ev.Attempt == 0 {
		return true
	}
	return ev.Resp != nil && ev.Resp.Err != "" && len(ev.Fired) > 0
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func (r *runner) choose(n, prev int) int {
	r.stats.Choices++
	var i int
	if r.schedPos < len(r.c.Sched) {
		i = r.c.Sched[r.schedPos] % n
	} else if r.pick != nil {
		i = r.pick(n, prev)
	}
	r.schedPos++
	r.trace = append(r.trace, i)
	return i
}

// settle waits until the released task parked, finished or blocked, and every
// task it may have woken has parked, finished or blocked as well.
func (r *runner) settle(t *task) error {
	var over []*task
	drain := func() {
		for len(r.notes) > 0 {
			if n := <-r.notes; n.done && r.live[n.t] && !n.t.over {
				n.t.over = true
				over = append(over, n.t)
			}
		}
	}
	settled := func() bool {
		drain()
		if t != nil && !t.parked && !t.done {
			return false
		}
		for t := range r.live {
			if !t.parked && !t.over {
				return false
			}
		}
		return true
	}
	// tasks that end in the same step end in a fixed order
	defer func() {
		sort.Slice(over, func(i, j int) bool { return over[i].id < over[j].id })
		for _, t := range over {
			r.finish(t)
		}
	}()
	for tries := 0; ; tries++ {
		if settled() {
			return nil
		}
		runtime.Gosched()
		if tries < 3 || settled() {
			continue
		}
		// somebody is neither parked nor finished: blocked, or still running
		r.stats.Blocked++
		if !quiesce() {
			return fmt.Errorf("goroutines do not settle")
		}
		if sleptOut && len(r.notes) == 0 {
			var who []string
			for t := range r.live {
				if !t.parked && !t.over {
					who = append(who, t.ev.Op.String())
				}
			}
			sort.Strings(who)
			r.deadlock = fmt.Sprintf("requests never complete, they sleep or wait for one that does: %s", strings.Join(who, "; "))
			return nil
		}
		if len(r.notes) == 0 {
			return nil
		}
		tries = 0
	}
}

// drainCrash ends every task of the dead instance and boots a new one.
func (r *runner) drainCrash() error {
	r.stats.Crashes++
	for round := 0; round < 100 && len(r.live) > 0; round++ {
		for t := range r.live {
			t.dead = true
		}
		var parked []*task
		for t := range r.live {
			if t.parked {
				parked = append(parked, t)
			}
		}
		parked = append(parked, r.kidsParked()...)
		sort.Slice(parked, func(i, j int) bool { return parked[i].id < parked[j].id })
		for _, t := range parked {
			t.dead = true
			t.parked = false
			t.resume <- struct{}{}
		}
		quiesce()
		for len(r.notes) > 0 {
			n := <-r.notes
			if n.done && r.live[n.t] {
				n.t.ev.Resp = crashResp(n.t)
				r.finish(n.t)
			}
		}
		if len(parked) == 0 {
			break
		}
	}
	for t := range r.live { // stuck for good in the dead process
		delete(r.live, t)
		delete(r.active, t.ev)
		t.ev.Ret = r.nextSeq()
		t.ev.Crashed = true
		t.ev.Resp = nil
	}
	r.mu.Lock()
	for id, t := range r.tasks {
		if t.dead {
			delete(r.tasks, id)
		}
	}
	r.mu.Unlock()
	r.crashed = false
	return r.restart()
}

// crashResp keeps a response that had left the process before it died.
func crashResp(t *task) *Resp {
	if t.dead {
		return nil
	}
	return t.ev.Resp
}

// Run executes the whole case. onEvent is called after each phase step:
// with the single event of a sequential step, or all events of a concurrent phase.
func (r *runner) Run(onStep func(evs []*Event, concurrent bool) bool) error {
	current = r
	defer func() { current = nil }()
	r.main = goid()
	r.bg = &task{id: "bg", done: true, client: -2}
	defer func() {
		r.ended = true
		r.killLate()
	}()
	if err := r.start(); err != nil {
		return err
	}
	defer r.stop()

	for i := 0; i < len(r.c.Ops); {
		phase := r.c.Ops[i].Phase
		j := i
		clients := map[int]*clientState{}
		var order []*clientState
		for ; j < len(r.c.Ops) && r.c.Ops[j].Phase == phase; j++ {
			op := r.c.Ops[j]
			cl := clients[op.Client]
			if cl == nil {
				cl = &clientState{id: op.Client}
				clients[op.Client] = cl
				order = append(order, cl)
			}
			cl.ops = append(cl.ops, op)
		}
		sort.Slice(order, func(a, b int) bool { return order[a].id < order[b].id })
		if len(order) == 1 {
			for _, op := range order[0].ops {
				cont, err := r.seqOp(op, order[0].id, phase, onStep)
				if err != nil || !cont {
					return err
				}
			}
		} else {
			mark := len(r.events)
			if err := r.runConc(phase, order); err != nil {
				return err
			}
			r.fullFor = 0
			if !onStep(r.events[mark:], true) || r.deadlock != "" {
				return nil
			}
		}
		i = j
	}
	return nil
}

func (r *runner) seqOp(op *Op, client, phase int, onStep func([]*Event, bool) bool) (bool, error) {
	if op.Kind == "restart" {
		if err := r.restart(); err != nil {
			return false, err
		}
		return true, nil
	}
	if op.Kind == "gate" { // the store works again
		r.fullFor = 0
		return true, nil
	}
	for try := 0; ; try++ {
		dig := ""
		if r.sawDigest {
			dig = r.rawDigest()
		}
		r.releaseLate()
		ev := r.runSeq(op, client, phase, try)
		if r.deadlock != "" {
			onStep([]*Event{ev}, false)
			return false, nil
		}
		if r.crashed {
			if err := r.drainCrash(); err != nil {
				return false, err
			}
		}
		if r.sawDigest {
			ev.DigPre, ev.DigPost = dig, r.rawDigest()
		}
		again := needRetry(ev)
		if again {
			r.fullFor = 0
		}
		if !onStep([]*Event{ev}, false) {
			return false, nil
		}
		if !again {
			return true, nil
		}
	}
}

func cleanScratch() {
	if scratchRoot != "" {
		m, _ := filepath.Glob(filepath.Join(scratchRoot, "run*"))
		for _, d := range m {
			os.RemoveAll(d)
		}
	}
}
