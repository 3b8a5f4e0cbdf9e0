package main

import (
	"fmt"
	"github.com/sourcenetwork/zanzi/pkg/domain"
	"os"
	"sort"
	"strings"

	"google.golang.org/protobuf/proto"
)

// result is the outcome of evaluating one case.
type result struct {
	viol    string   // the violation, "" if none
	trace   []string // the events of the run that shows it
	err     error    // trouble of the simulator itself
	stats   runStats
	simTime int64
	hash    uint64
	sched   []int
	judged  int
	gaveUp  bool
	maxFr   int
	final   string
	queries int
	evhash  uint64 // hash of the whole history, for the determinism check
	runs    int
	skipped bool // a violation that is not this property's
	full    []string
}

func (r *result) add(o *result) {
	if r.stats.Faults == nil {
		r.stats.Faults = map[string]int{}
	}
	r.stats.KVOps += o.stats.KVOps
	r.stats.LogCalls += o.stats.LogCalls
	r.stats.Requests += o.stats.Requests
	r.stats.Switches += o.stats.Switches
	r.stats.Choices += o.stats.Choices
	r.stats.Blocked += o.stats.Blocked
	r.stats.Crashes += o.stats.Crashes
	r.stats.Restarts += o.stats.Restarts
	r.stats.Cancelled += o.stats.Cancelled
	for k, v := range o.stats.Faults {
		r.stats.Faults[k] += v
	}
	r.simTime += o.simTime
	r.hash = r.hash*1099511628211 ^ o.hash
	r.evhash = r.evhash*1099511628211 ^ o.evhash
	r.judged += o.judged
	r.gaveUp = r.gaveUp || o.gaveUp
	if o.maxFr > r.maxFr {
		r.maxFr = o.maxFr
	}
	r.runs += o.runs
	if o.err != nil && r.err == nil {
		r.err = o.err
	}
}

// scheduler returns the seeded scheduler of a case.
func scheduler(c *Case) func(n, prev int) int {
	if c.Fixed {
		return func(n, prev int) int {
			if prev >= 0 {
				return prev
			}
			return 0
		}
	}
	g := newRng(c.Seed, 1234)
	stay := []int{0, 0, 50, 75, 90}[g.n(5)]
	return func(n, prev int) int {
		if prev >= 0 && g.p(stay) {
			return prev
		}
		return g.n(n)
	}
}

// wantTrace asks for the trace of runs without a violation as well.
var wantTrace bool
var verbose = os.Getenv("ZSIM_VERBOSE") != ""

// play runs a case. check is called after each step and returns a violation or "".
func play(c *Case, digests bool, check func(r *runner, evs []*Event, conc bool) string) (*runner, *result) {
	r := newRunner(c)
	r.sawDigest = digests
	r.pick = scheduler(c)
	res := &result{runs: 1}
	err := r.Run(func(evs []*Event, conc bool) bool {
		if check == nil {
			return true
		}
		if r.deadlock != "" {
			return false
		}
		if v := check(r, evs, conc); v != "" {
			res.viol = v
			return false
		}
		return true
	})
	if err != nil {
		res.err = err
	}
	if r.deadlock != "" {
		res.viol = "deadlock: " + r.deadlock
	}
	res.stats = r.stats
	res.simTime = r.clock - clockBase
	res.hash = r.hash
	res.sched = r.trace
	h := uint64(14695981039346656037)
	for _, e := range r.events {
		h = h*1099511628211 ^ hashStr(fmt.Sprintf("%s %d %d %d %d %d %d", evText(e), e.Inv, e.Ret, e.Lo, e.Hi, e.Steps, e.Writes))
	}
	res.evhash = h
	if res.viol != "" {
		res.trace = traceOf(r)
	}
	if wantTrace {
		res.full = traceOf(r)
	}
	return r, res
}

// evText is the event without what may legitimately differ between two executions
// (order inside documents).
func evText(e *Event) string { return e.String() }

func traceOf(r *runner) []string {
	var l []string
	phase, rest := -1, 0
	for _, e := range r.events {
		if e.Phase != phase {
			phase = e.Phase
			l = append(l, fmt.Sprintf("-- phase %d", phase))
		}
		if e.Restart != rest {
			rest = e.Restart
			l = append(l, "-- the process was restarted")
		}
		l = append(l, fmt.Sprintf("[%d,%d] %s", e.Inv, e.Ret, e))
		if verbose {
			l = append(l, fmt.Sprintf("      clock %d..%d steps %d writes %d", e.Lo-clockBase, e.Hi-clockBase, e.Steps, e.Writes))
		}
	}
	return l
}

// broken reports panics and requests that do not end.
func broken(e *Event) string {
	if e.Panic != "" {
		return fmt.Sprintf("panic in %s: %s", e.Op, clip(e.Panic, 1500))
	}
	if e.Overrun {
		return fmt.Sprintf("%s exceeds the step budget", e.Op)
	}
	return ""
}

type modelOpts struct {
	judge   *Judge
	repeat  bool // repeat faulted queries on a healthy store
	mutated bool // requests must not be modified
}

// evalModel runs a case against the reference.
func evalModel(c *Case, o modelOpts) *result {
	tr := newTracker(o.judge)
	_, res := play(c, false, func(r *runner, evs []*Event, conc bool) string {
		for _, e := range evs {
			if o.judge.kinds[e.Op.Kind] {
				if b := broken(e); b != "" {
					return b
				}
			}
			if e.Panic != "" || e.Overrun { // not judged: as if it had failed
				e.Resp = &Resp{Err: "panic"}
			}
			if o.mutated && e.Mutated != "" {
				return fmt.Sprintf("%s: %s", e.Op, e.Mutated)
			}
		}
		if conc {
			if !tr.conc(evs) {
				return tr.why
			}
			return ""
		}
		for _, e := range evs {
			if !tr.seq(e) {
				return fmt.Sprintf("%s: %s", e, tr.why)
			}
			if o.repeat && len(e.Fired) > 0 && !e.Op.isWrite() && e.Resp != nil && e.Resp.Err == "" {
				cp := *e.Op
				cp.Faults, cp.audit, cp.Jump = nil, true, 0
				e2 := r.runSeq(&cp, e.Client, e.Phase, 0)
				if r.deadlock != "" {
					return ""
				}
				a, b := canon(c, e.Op, e.Resp, nil), canon(c, e.Op, e2.Resp, nil)
				if a != b {
					return fmt.Sprintf("%s\n   although a read failed the query succeeded, with %s\n   on a healthy store the answer is %s", e, clip(a, 600), clip(b, 600))
				}
			}
		}
		return ""
	})
	res.judged = tr.judged
	res.gaveUp = tr.gaveUp
	res.maxFr = tr.maxSeen
	return res
}

// ---- canonical responses ---------------------------------------------------------

// renaming maps names by kind: pol res rel id.
type renaming map[string]map[string]string

func (m renaming) of(kind, name string) string {
	if m == nil {
		return name
	}
	if n, ok := m[kind][name]; ok {
		return n
	}
	return name
}

func (m renaming) ent(e Ent) Ent { return Ent{m.of("res", e.R), m.of("id", e.I)} }
func (m renaming) subj(s Subj) Subj {
	n := s
	n.R = m.of("res", s.R)
	if s.I != "" {
		n.I = m.of("id", s.I)
	}
	if s.Rel != "" {
		n.Rel = m.of("rel", s.Rel)
	}
	return n
}
func (m renaming) tuple(t Tuple) Tuple {
	return Tuple{O: m.ent(t.O), Rel: m.of("rel", t.Rel), S: m.subj(t.S)}
}

// labels maps the labels of all nodes the case can name to their renamed labels.
func (m renaming) labels(c *Case) map[string]string {
	if m == nil {
		return nil
	}
	res := map[string]string{}
	ids := append(sortedKeys(m["id"]), "*")
	for _, r := range sortedKeys(m["res"]) {
		for _, i := range ids {
			ni := i
			if i != "*" {
				ni = m.of("id", i)
			}
			res[nodeLabel(r, i, "")] = nodeLabel(m.of("res", r), ni, "")
			for _, l := range sortedKeys(m["rel"]) {
				res[nodeLabel(r, i, l)] = nodeLabel(m.of("res", r), ni, m.of("rel", l))
			}
		}
	}
	return res
}

// canon writes a response down, renamed by m, without creation times and without the
// order of what is unordered.
func canon(c *Case, op *Op, r *Resp, m renaming) string {
	if r == nil {
		return "no response"
	}
	if r.Err != "" {
		return "error"
	}
	if r.NilOK {
		return "nothing"
	}
	rec := func(x *RelRec) string {
		if x == nil {
			return "none"
		}
		t := m.tuple(x.T)
		return fmt.Sprintf("{%q %q %q %q}", m.of("pol", x.Pol), []string{t.O.R, t.O.I, t.Rel, t.S.K, t.S.R, t.S.I, t.S.Rel}, x.Data, x.Bad)
	}
	lab := func(s string, lm map[string]string) string {
		if lm == nil {
			return s
		}
		if n, ok := lm[s]; ok {
			return n
		}
		return s
	}
	switch op.Kind {
	case "create", "getpol":
		if r.Pol == nil {
			return "none"
		}
		which := "unknown content"
		for _, o := range c.Ops {
			if o.Spec != nil && proto.Equal(sortedPolicy(o.Spec.expected()), sortedPolicy(r.Pol.Msg)) {
				which = fmt.Sprintf("as in #%d", sameSpec(c, o))
				break
			}
		}
		return fmt.Sprintf("policy %s %q", which, r.Pol.Data)
	case "list":
		var l []string
		for _, id := range r.Ids {
			l = append(l, m.of("pol", id))
		}
		sort.Strings(l)
		return fmt.Sprintf("%q", l)
	case "get":
		return rec(r.Rec)
	case "find":
		var l []string
		for i := range r.Recs {
			l = append(l, rec(&r.Recs[i]))
		}
		sort.Strings(l)
		return strings.Join(l, " ")
	case "explain":
		s := fmt.Sprint(r.Flag, " ", r.Fmt)
		d, err := parseGoal(op.Format, r.Doc)
		if err != nil {
			return s + " malformed document"
		}
		return s + " " + d.result
	case "expand":
		d, err := parseGoal(op.Format, r.Doc)
		if err != nil {
			return "malformed document"
		}
		lm := m.labels(c)
		var l []string
		for x := range d.names {
			l = append(l, lab(x, lm))
		}
		l = uniq(l)
		sort.Strings(l)
		return fmt.Sprintf("%d %q", r.Fmt, l)
	case "dump":
		e, err := parseDump(r.Doc)
		if err != nil {
			return "malformed document"
		}
		lm := m.labels(c)
		sum := map[string]int{}
		for k, n := range e {
			sum[fmt.Sprintf("%q->%q", lab(k[0], lm), lab(k[1], lm))] += n
		}
		var l []string
		for k, n := range sum {
			l = append(l, fmt.Sprintf("%s x%d", k, n))
		}
		sort.Strings(l)
		return strings.Join(l, " ")
	}
	return fmt.Sprintf("flag=%v n=%d", r.Flag, r.N)
}

// ---- differential evaluations ------------------------------------------------------

// outcomes lists, per op id, the canonical outcome of its deliveries.
func outcomes(c *Case, r *runner, m renaming) map[int]string {
	res := map[int]string{}
	for _, e := range r.events {
		s := "crash"
		switch {
		case e.Panic != "":
			s = "panic: " + firstLine(e.Panic)
		case e.Overrun:
			s = "step budget exceeded"
		case !e.Crashed:
			s = canon(c, e.Op, e.Resp, m)
		}
		if p, ok := res[e.Op.ID]; ok {
			s = p + "; " + s
		}
		res[e.Op.ID] = s
	}
	return res
}

func subCase(c *Case, keep func(o *Op) bool) *Case {
	n := *c
	n.Ops = nil
	n.Sched = nil
	n.Fixed = true
	for _, o := range c.Ops {
		if keep(o) {
			n.Ops = append(n.Ops, o)
		}
	}
	return &n
}

func compare(c *Case, a, b map[int]string, keep func(o *Op) bool, what string) string {
	for _, o := range c.Ops {
		if !keep(o) || o.Kind == "restart" || o.Kind == "gate" {
			continue
		}
		if a[o.ID] != b[o.ID] {
			return fmt.Sprintf("%s\n   response: %s\n   %s: %s", o, clip(a[o.ID], 800), what, clip(b[o.ID], 800))
		}
	}
	return ""
}

// suspicion judges a run with the reference although the verdict comes from a
// comparison: what the service keeps in package variables is shared by the two runs of
// a comparison, which then agree although both are wrong.
type suspicion struct {
	tr   *tracker
	why  string
	over bool
}

func newSuspicion() *suspicion { return &suspicion{tr: newTracker(judgeOf(allKinds))} }

func (s *suspicion) look(evs []*Event, conc bool) {
	if s.over {
		return
	}
	for _, e := range evs {
		if e.Panic != "" || e.Overrun {
			s.over = true
			return
		}
	}
	if conc {
		if !s.tr.conc(evs) {
			s.why, s.over = s.tr.why, true
		}
		return
	}
	for _, e := range evs {
		if !s.tr.seq(e) {
			s.over = true
			if !e.Op.Extra {
				s.why = fmt.Sprintf("%s: %s", e, s.tr.why)
			}
			return
		}
	}
}

// settle confirms a suspicion: each of the other cases is right when it runs in a process
// of its own.
func (s *suspicion) settle(r *runner, res *result, what string, others ...*Case) {
	if s.why == "" || res.viol != "" || res.err != nil {
		return
	}
	for _, c := range others {
		ok, err := freshly(c)
		if err != nil {
			res.err = err
			return
		}
		if !ok {
			return
		}
	}
	res.viol = s.why + "\n   " + what
	res.trace = traceOf(r)
}

// evalIsolate compares every policy's responses with a run that has only this
// policy's requests.
func evalIsolate(c *Case) *result {
	sus := newSuspicion()
	r, res := play(c, false, func(r *runner, evs []*Event, conc bool) string {
		sus.look(evs, conc)
		return ""
	})
	if res.viol != "" || res.err != nil {
		return res
	}
	full := outcomes(c, r, nil)
	seen := map[string]bool{}
	var alone []*Case
	for _, o := range c.Ops {
		if o.Kind == "restart" || o.Kind == "gate" || o.Kind == "list" {
			continue
		}
		id := o.polID()
		if seen[id] {
			continue
		}
		seen[id] = true
		keep := func(x *Op) bool {
			return x.Kind == "restart" || x.Kind == "gate" || x.Kind != "list" && x.polID() == id
		}
		sc := subCase(c, keep)
		alone = append(alone, sc)
		r2, res2 := play(sc, false, func(r *runner, evs []*Event, conc bool) string { return "" })
		res.add(res2)
		if res2.err != nil {
			return res
		}
		res.judged += len(sc.Ops)
		if v := compare(c, full, outcomes(c, r2, nil), keep, fmt.Sprintf("without the requests of other policies than %q", id)); v != "" {
			res.viol = v
			res.trace = traceOf(r)
			return res
		}
	}
	sus.settle(r, res, "the requests of each policy alone are answered correctly by a new process", alone...)
	return res
}

// evalInsert compares a history with and without the inserted queries and rejected requests.
func evalInsert(c *Case) *result {
	type last struct {
		kind, out string
		op        *Op
	}
	var prev map[string]last = map[string]last{}
	sus := newSuspicion()
	r, res := play(c, true, func(r *runner, evs []*Event, conc bool) string {
		sus.look(evs, conc)
		for _, e := range evs {
			if conc {
				prev = map[string]last{}
				continue
			}
			if e.Op.isWrite() && !(e.Resp != nil && e.Resp.Err != "" && len(e.Fired) == 0 && !e.Op.Cancel) {
				prev = map[string]last{}
				continue
			}
			// a query, or a request that was rejected
			if e.Writes > 0 && e.DigPre != e.DigPost || e.DigPre != e.DigPost {
				return fmt.Sprintf("%s changed the stored data", e)
			}
			if !e.Op.isWrite() && e.Resp != nil && (e.Resp.Err == "" || len(e.Fired) == 0 && !e.Op.Cancel) {
				k := queryKey(e.Op)
				out := canon(c, e.Op, e.Resp, nil)
				if p, ok := prev[k]; ok && p.out != out {
					return fmt.Sprintf("%s\n   response: %s\n   the same query before, with no write in between: %s", e, clip(out, 600), clip(p.out, 600))
				}
				prev[k] = last{e.Op.Kind, out, e.Op}
			}
		}
		return ""
	})
	if res.viol != "" || res.err != nil {
		return res
	}
	full := outcomes(c, r, nil)
	keep := func(o *Op) bool { return !o.Extra }
	sc := subCase(c, keep)
	r2, res2 := play(sc, false, func(r *runner, evs []*Event, conc bool) string { return "" })
	res.add(res2)
	if res2.err != nil {
		return res
	}
	res.judged += len(sc.Ops)
	// a fault hits the storage operation of a number, which is another one if the service
	// needs other operations after a query: from there on the histories differ rightly
	cut := len(c.Ops)
	met, met2 := metFaults(r), metFaults(r2)
	for i, o := range c.Ops {
		if keep(o) && met[o.ID] != met2[o.ID] {
			cut = min(cut, i)
		}
	}
	rest := outcomes(c, r2, nil)
	for _, o := range c.Ops[cut:] {
		full[o.ID], rest[o.ID] = "", ""
	}
	if v := compare(c, full, rest, keep, "without the inserted queries and rejected requests"); v != "" {
		res.viol = v
		res.trace = traceOf(r)
	}
	sus.settle(r, res, "without the inserted queries and rejected requests a new process answers correctly", sc)
	return res
}

// metFaults describes which faults each of the faulty requests of a run has met, and when.
func metFaults(r *runner) map[int]string {
	m := map[int]string{}
	for _, e := range r.events {
		if len(e.Op.Faults) > 0 || len(e.Fired) > 0 {
			m[e.Op.ID] += fmt.Sprintf("%d %v;", e.Steps, e.Fired)
		}
	}
	return m
}

// queryKey tells queries apart: every name is quoted, for names may contain anything.
func queryKey(o *Op) string {
	l := []string{o.Kind, o.Pol, fmt.Sprint(o.Format), o.Bad}
	if t := o.T; t != nil {
		l = append(l, "t", t.key())
	}
	if x := o.Sel; x != nil {
		l = append(l, "sel", x.OK, x.O.R, x.O.I, x.RK, x.Rel, x.SK, x.S.K, x.S.R, x.S.I, x.S.Rel)
	}
	if o.O != nil && o.S != nil {
		l = append(l, "acc", accessKey(o))
	}
	if x := o.Root; x != nil {
		l = append(l, "root", x.K, x.R, x.I, x.Rel)
	}
	return fmt.Sprintf("%q", l)
}

// renameCase applies the renaming to every name of the case.
func renameCase(c *Case) *Case {
	m := renaming(c.Rename)
	n := *c
	n.Ops = nil
	for _, o := range c.Ops {
		x := *o
		x.Pol = m.of("pol", o.Pol)
		if o.Kind == "create" || o.Kind == "update" || o.Kind == "list" {
			x.Pol = o.Pol
		}
		if o.T != nil {
			t := m.tuple(*o.T)
			x.T = &t
		}
		if o.Sel != nil {
			s := *o.Sel
			if s.OK != "any" {
				s.O.R = m.of("res", s.O.R)
				if s.OK == "spec" {
					s.O.I = m.of("id", s.O.I)
				}
			}
			if s.RK == "name" {
				s.Rel = m.of("rel", s.Rel)
			}
			if s.SK != "any" {
				s.S = m.subj(s.S)
			}
			x.Sel = &s
		}
		if o.O != nil {
			e := m.ent(*o.O)
			x.O = &e
		}
		if o.S != nil {
			e := m.ent(*o.S)
			x.S = &e
		}
		if o.Kind == "check" || o.Kind == "explain" {
			x.Rel = m.of("rel", o.Rel)
		}
		if o.Root != nil {
			s := m.subj(*o.Root)
			x.Root = &s
		}
		if o.Spec != nil {
			x.Spec = m.spec(o.Spec)
		}
		n.Ops = append(n.Ops, &x)
	}
	return &n
}

func isIdent(s string) bool {
	for _, c := range s {
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
			return false
		}
	}
	return s != "" && s != "_this"
}

func (m renaming) expr(e *Expr) *Expr {
	if e == nil {
		return nil
	}
	n := *e
	if e.A != "" {
		n.A = m.of("rel", e.A)
	}
	if e.B != "" {
		n.B = m.of("rel", e.B)
	}
	n.L, n.R = m.expr(e.L), m.expr(e.R)
	return &n
}

func (m renaming) spec(p *PolSpec) *PolSpec {
	n := copySpec(p)
	n.done, n.msg, n.valid = false, nil, ""
	n.ID = m.of("pol", p.ID)
	idents := true
	for _, v := range m["rel"] {
		idents = idents && isIdent(v)
	}
	if n.Form == "yaml" {
		ok := idents && yamlSafe(n.ID)
		for _, v := range m["res"] {
			ok = ok && yamlSafe(v) && !hasColon(v) && v != "*"
		}
		if !ok {
			n.Form = "msg"
		}
	}
	for i := range n.Res {
		n.Res[i].Name = m.of("res", n.Res[i].Name)
		for j := range n.Res[i].Rels {
			r := &n.Res[i].Rels[j]
			r.Name = m.of("rel", r.Name)
			r.Expr = m.expr(r.Expr)
			for k := range r.Restr {
				r.Restr[k].Res = m.of("res", r.Restr[k].Res)
				if r.Restr[k].Set {
					r.Restr[k].Rel = m.of("rel", r.Restr[k].Rel)
				}
			}
			if r.Form == "text" {
				if idents {
					r.Text = r.Expr.text(func() string { return " " }, func() bool { return false })
				} else {
					r.Form, r.Text = "tree", ""
				}
			}
		}
	}
	return n
}

// evalRename compares a history with the same history under other names.
func evalRename(c *Case) *result {
	tr := newTracker(judgeOf())
	open := map[int]bool{} // queries that can reach an undefined relation
	r, res := play(c, false, func(r *runner, evs []*Event, conc bool) string {
		for _, e := range evs {
			if k := e.Op.Kind; k == "check" || k == "explain" {
				for _, s := range tr.front {
					for _, a := range s.polAlts(e.Op.Pol) {
						if a.spec != nil && e.Op.O != nil {
							ev := &evaluator{spec: a.spec, rels: s.rels[e.Op.Pol]}
							ev.build(*e.Op.O, e.Op.Rel)
							open[e.Op.ID] = open[e.Op.ID] || ev.undef
						}
					}
				}
			}
			tr.seq(e)
		}
		return ""
	})
	if res.viol != "" || res.err != nil {
		return res
	}
	base := outcomes(c, r, renaming(c.Rename))
	rc := renameCase(c)
	sus := newSuspicion()
	r2, res2 := play(rc, false, func(r *runner, evs []*Event, conc bool) string {
		sus.look(evs, conc)
		return ""
	})
	res.add(res2)
	if res2.err != nil {
		return res
	}
	if res2.viol != "" {
		res.viol, res.trace = res2.viol, res2.trace
		return res
	}
	res.judged += len(c.Ops)
	got := outcomes(rc, r2, nil)
	for id := range open {
		// the names decide the order in which relationships are visited, and so whether
		// the search ends before it meets the undefined relation
		if open[id] && (base[id] == "error" || got[id] == "error") {
			base[id], got[id] = "error", "error"
		}
	}
	if v := compare(rc, got, base, func(o *Op) bool { return true }, "with plain names (renamed)"); v != "" {
		res.viol = v
		res.trace = append(append(traceOf(r2), "---- with plain names"), traceOf(r)...)
	}
	sus.settle(r2, res, "with plain names a new process answers correctly", c)
	return res
}

// evalComplete looks only for requests that do not complete, and for probes that fail.
func evalComplete(c *Case) *result {
	judged := 0
	// ordinary queries that come after malformed and failing requests must be answered
	var tr *tracker
	if c.Profile == "malformed" || c.Profile == "faults" {
		tr = newTracker(judgeOf("check find get getpol list"))
	}
	_, res := play(c, false, func(r *runner, evs []*Event, conc bool) string {
		for _, e := range evs {
			judged++
			if b := broken(e); b != "" {
				return b
			}
			if e.Resp != nil && e.Resp.Err == "" && e.Resp.NilOK {
				return fmt.Sprintf("neither a response nor an error: %s", e)
			}
			if e.Op.Tag == "probe" && e.Resp != nil {
				if e.Resp.Err != "" {
					return fmt.Sprintf("after the faults and malformed requests an ordinary request fails: %s", e)
				}
				if e.Op.Kind == "check" && !e.Resp.Flag {
					return fmt.Sprintf("after the faults and malformed requests an ordinary check is denied: %s", e)
				}
			}
		}
		for _, e := range evs {
			if conc || tr == nil || tr.gaveUp {
				tr = nil
				break
			}
			if e.Op.isWrite() || len(e.Fired) == 0 && !e.Op.Cancel && e.Op.Bad == "" {
				if !tr.seq(e) {
					return fmt.Sprintf("%s: %s", e, tr.why)
				}
			}
		}
		return ""
	})
	res.judged = judged
	return res
}

// evalViews compares the views of each audit with each other.
func evalViews(c *Case) *result {
	type viewSet struct {
		pol    *PolRec
		polOK  bool
		find   *Event
		gets   []*Event
		dumps  []*Event
		checks map[string]*Event
		expl   []*Event
		expand []*Event
		lists  []*Event
	}
	groups := map[string]*viewSet{}
	var order []string
	judged := 0
	closeGroup := func(key string, g *viewSet) string {
		pol := key[strings.Index(key, "\x00")+1:]
		var spec *PolSpec
		if g.pol != nil {
			for _, o := range c.Ops {
				if o.Spec != nil && o.Spec.ID == pol && proto.Equal(o.Spec.expected(), g.pol.Msg) {
					spec = o.Spec
				}
			}
		}
		for _, e := range g.lists {
			in := false
			for _, id := range e.Resp.Ids {
				in = in || id == pol
			}
			if g.polOK && in != (g.pol != nil) {
				return fmt.Sprintf("ListPolicyIds lists policy %q: %v, GetPolicy returns it: %v", pol, in, g.pol != nil)
			}
		}
		var rels relMap
		if g.find != nil && g.find.Resp != nil && g.find.Resp.Err == "" {
			rels = relMap{}
			for i := range g.find.Resp.Recs {
				r := &g.find.Resp.Recs[i]
				if r.Bad != "" {
					return fmt.Sprintf("%s: incomplete record", g.find)
				}
				if _, dup := rels[r.T]; dup {
					return fmt.Sprintf("FindRelationshipRecords lists %s twice", r.T)
				}
				rels[r.T] = []relAlt{{present: true, data: r.Data, span: span{at: r.At}}}
			}
			if g.polOK && g.pol == nil && len(rels) > 0 {
				return fmt.Sprintf("policy %q does not exist but has relationships", pol)
			}
			for _, e := range g.gets {
				if e.Resp == nil || e.Resp.Err != "" {
					continue
				}
				judged++
				a, ok := rels[*e.Op.T]
				if ok != (e.Resp.Rec != nil) {
					return fmt.Sprintf("GetRelationship returns %s: %v, FindRelationshipRecords lists it: %v", e.Op.T, e.Resp.Rec != nil, ok)
				}
				if ok && (a[0].data != e.Resp.Rec.Data || a[0].span.at != e.Resp.Rec.At || e.Resp.Rec.T != *e.Op.T) {
					return fmt.Sprintf("GetRelationship and FindRelationshipRecords return different records for %s", e.Op.T)
				}
			}
			for _, e := range g.dumps {
				if e.Resp == nil {
					continue
				}
				judged++
				if e.Resp.Err != "" {
					return fmt.Sprintf("%s, although the policy can be read", e)
				}
				edges, err := parseDump(e.Resp.Doc)
				if err != nil {
					return fmt.Sprintf("%s: document is not well formed: %v", e.Op, err)
				}
				want := map[[2]string]int{}
				for t := range rels {
					want[[2]string{nodeLabel(t.O.R, t.O.I, t.Rel), subjLabel(t.S)}]++
				}
				for k, n := range want {
					if edges[k] != n {
						return fmt.Sprintf("DumpRelationships draws %s -> %s %d times, FindRelationshipRecords lists %d such relationships", k[0], k[1], edges[k], n)
					}
				}
				for k, n := range edges {
					if want[k] != n {
						return fmt.Sprintf("DumpRelationships draws %s -> %s %d times, FindRelationshipRecords lists %d such relationships", k[0], k[1], n, want[k])
					}
				}
			}
		}
		for _, e := range g.expl {
			if e.Resp == nil {
				continue
			}
			ce := g.checks[accessKey(e.Op)]
			if ce == nil || ce.Resp == nil {
				continue
			}
			judged++
			if (ce.Resp.Err != "") != (e.Resp.Err != "") {
				return fmt.Sprintf("%s, but %s", e, ce)
			}
			if e.Resp.Err != "" {
				continue
			}
			if ce.Resp.Flag != e.Resp.Flag {
				return fmt.Sprintf("ExplainCheck authorizes: %v, Check authorizes: %v (%s)", e.Resp.Flag, ce.Resp.Flag, e.Op)
			}
			if e.Resp.Fmt != e.Op.Format {
				return fmt.Sprintf("%s: response says format %d, requested %d", e.Op, e.Resp.Fmt, e.Op.Format)
			}
			d, err := parseGoal(e.Op.Format, e.Resp.Doc)
			if err != nil {
				return fmt.Sprintf("%s: %s document is not well formed: %v", e.Op, formatName(e.Op.Format), err)
			}
			if d.result != "" && (d.result == "SUCCESS") != e.Resp.Flag {
				return fmt.Sprintf("%s: document says %s, response authorized=%v", e.Op, d.result, e.Resp.Flag)
			}
			if rels != nil && spec != nil && spec.relation(e.Op.O.R, e.Op.Rel) != nil {
				if why := goalNames(spec, rels, Subj{K: "s", R: e.Op.O.R, I: e.Op.O.I, Rel: e.Op.Rel}, e, false); why != "" {
					return fmt.Sprintf("%s: %s", e.Op, why)
				}
			}
		}
		for _, e := range g.expand {
			if e.Resp == nil || rels == nil || spec == nil {
				continue
			}
			if _, ok := reachLabels(spec, rels, *e.Op.Root); !ok {
				continue
			}
			if e.Op.Root.K == "s" && spec.relation(e.Op.Root.R, e.Op.Root.Rel) == nil {
				continue
			}
			judged++
			if e.Resp.Err != "" {
				return fmt.Sprintf("%s, although every node can be read", e)
			}
			if e.Resp.Fmt != e.Op.Format {
				return fmt.Sprintf("%s: response says format %d, requested %d", e.Op, e.Resp.Fmt, e.Op.Format)
			}
			if why := goalNames(spec, rels, *e.Op.Root, e, true); why != "" {
				return fmt.Sprintf("%s: %s", e.Op, why)
			}
		}
		return ""
	}
	_, res := play(c, false, func(r *runner, evs []*Event, conc bool) string {
		for _, e := range evs {
			if !strings.HasPrefix(e.Op.Tag, "audit") {
				continue
			}
			if b := broken(e); b != "" {
				return b
			}
			if e.Op.Kind == "list" {
				for _, o := range c.Ops {
					if o.Tag == e.Op.Tag && o.Pol != "" {
						k := o.Tag + "\x00" + o.Pol
						if groups[k] == nil {
							groups[k] = &viewSet{checks: map[string]*Event{}}
							order = append(order, k)
							if e.Resp != nil && e.Resp.Err == "" {
								groups[k].lists = append(groups[k].lists, e)
							}
						}
					}
				}
				continue
			}
			k := e.Op.Tag + "\x00" + e.Op.Pol
			g := groups[k]
			if g == nil {
				g = &viewSet{checks: map[string]*Event{}}
				groups[k] = g
				order = append(order, k)
			}
			switch e.Op.Kind {
			case "getpol":
				if e.Resp != nil && e.Resp.Err == "" {
					g.pol, g.polOK = e.Resp.Pol, true
				}
			case "find":
				g.find = e
			case "get":
				g.gets = append(g.gets, e)
			case "dump":
				g.dumps = append(g.dumps, e)
			case "check":
				g.checks[accessKey(e.Op)] = e
			case "explain":
				g.expl = append(g.expl, e)
			case "expand":
				g.expand = append(g.expand, e)
			}
		}
		// groups end with the phase they are in
		last := evs[len(evs)-1]
		idx := -1
		for i, o := range c.Ops {
			if o == last.Op {
				idx = i
			}
		}
		if idx >= 0 && (idx+1 >= len(c.Ops) || c.Ops[idx+1].Tag != last.Op.Tag) {
			for _, k := range order {
				if v := closeGroup(k, groups[k]); v != "" {
					return v
				}
			}
			groups = map[string]*viewSet{}
			order = nil
		}
		return ""
	})
	res.judged = judged
	return res
}

func accessKey(o *Op) string {
	return fmt.Sprintf("%q", []string{o.O.R, o.O.I, o.Rel, o.S.R, o.S.I})
}

// sortedPolicy orders resources and relations by name: renaming may change the order in
// which a policy written in YAML lists them.
func sortedPolicy(p *domain.Policy) *domain.Policy {
	if p == nil {
		return nil
	}
	p = proto.Clone(p).(*domain.Policy)
	sort.SliceStable(p.Resources, func(i, j int) bool { return p.Resources[i].GetName() < p.Resources[j].GetName() })
	for _, r := range p.Resources {
		l := r.GetRelations()
		sort.SliceStable(l, func(i, j int) bool { return l[i].GetName() < l[j].GetName() })
	}
	return p
}

// sameSpec returns the first op that sends a policy of the same meaning as o's: renaming
// can change the form it is sent in, and so which policies are alike to the letter.
func sameSpec(c *Case, o *Op) int {
	k := semKey(o.Spec)
	for _, x := range c.Ops {
		if x.Spec != nil && semKey(x.Spec) == k {
			return x.ID
		}
	}
	return o.ID
}

func semKey(p *PolSpec) string {
	n := copySpec(p)
	n.Form, n.Bad, n.Style, n.done = "msg", "", 0, false
	for i := range n.Res {
		for j := range n.Res[i].Rels {
			r := &n.Res[i].Rels[j]
			r.Form, r.Text, r.NoRes = "tree", "", false
			if r.Expr != nil && r.Expr.K == "badtext" {
				return fmt.Sprintf("bad %p", p)
			}
		}
	}
	b, _ := proto.MarshalOptions{Deterministic: true}.Marshal(sortedPolicy(n.message()))
	return string(b)
}
