package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"time"
)

// class is the kind of a violation: a minimised case must fail in the same way.
func class(v string) string {
	switch {
	case v == "":
		return ""
	case strings.Contains(v, "panic"):
		return "panic"
	case strings.HasPrefix(v, "deadlock"):
		return "deadlock"
	case strings.Contains(v, "step budget"):
		return "budget"
	}
	return "answer"
}

type shrinker struct {
	p     *prop
	want  string
	best  *Case
	res   *result
	evals int
	end   time.Time
}

func (s *shrinker) over() bool { return s.evals > 6000 || time.Now().After(s.end) }

// accept runs the candidate and keeps it if it fails in the same way.
func (s *shrinker) accept(c *Case) bool {
	if s.over() || len(c.Ops) == 0 {
		return false
	}
	s.evals++
	r := s.p.eval(c)
	tidy()
	if r.err != nil || r.skipped || class(r.viol) != s.want {
		return false
	}
	n := *c
	if !n.Fixed || len(n.Sched) > len(r.sched) {
		n.Sched = append([]int{}, r.sched...)
		n.Fixed = true
	}
	s.best, s.res = &n, r
	return true
}

// try accepts the candidate under its schedule or, if it has concurrent requests,
// under one of a few other seeded schedules.
func (s *shrinker) try(c *Case) bool {
	if s.accept(c) {
		return true
	}
	if len(s.best.Sched) == 0 {
		return false
	}
	for k := uint64(1); k <= 6; k++ {
		n := *c
		n.Sched, n.Fixed = nil, false
		n.Seed = newRng(c.Seed, 77, k).next()
		if s.accept(&n) {
			return true
		}
	}
	return false
}

func withOps(c *Case, ops []*Op) *Case {
	n := *c
	n.Ops = ops
	return &n
}

func (s *shrinker) dropOps() bool {
	any := false
	for size := (len(s.best.Ops) + 1) / 2; size >= 1; size /= 2 {
		for at := 0; at < len(s.best.Ops) && !s.over(); {
			end := at + size
			if end > len(s.best.Ops) {
				end = len(s.best.Ops)
			}
			ops := append(append([]*Op{}, s.best.Ops[:at]...), s.best.Ops[end:]...)
			if s.try(withOps(s.best, ops)) {
				any = true
			} else {
				at = end
			}
		}
		if size == 1 {
			break
		}
	}
	return any
}

// simplify tries to remove what the requests carry.
func (s *shrinker) simplify() bool {
	any := false
	edit := func(i int, f func(o *Op) bool) {
		if s.over() || i >= len(s.best.Ops) {
			return
		}
		o := *s.best.Ops[i]
		o.Faults = append([]Fault{}, o.Faults...)
		if !f(&o) {
			return
		}
		ops := append([]*Op{}, s.best.Ops...)
		ops[i] = &o
		if s.try(withOps(s.best, ops)) {
			any = true
		}
	}
	for i := range s.best.Ops {
		for k := len(s.best.Ops[i].Faults) - 1; k >= 0; k-- {
			edit(i, func(o *Op) bool {
				if k >= len(o.Faults) {
					return false
				}
				o.Faults = append(o.Faults[:k], o.Faults[k+1:]...)
				return true
			})
		}
		edit(i, func(o *Op) bool { r := o.Retry != 0 || o.Lost; o.Retry, o.Lost = 0, false; return r })
		edit(i, func(o *Op) bool { r := o.Jump != 0; o.Jump = 0; return r })
		edit(i, func(o *Op) bool {
			r := o.Wire || o.Print || o.Scribble || o.Cancel
			o.Wire, o.Print, o.Scribble, o.Cancel = false, false, false, false
			return r
		})
	}
	if s.best.Backend != "sim" {
		n := *s.best
		n.Backend = "sim"
		any = s.try(&n) || any
	}
	if s.best.LogFmt {
		n := *s.best
		n.LogFmt = false
		any = s.try(&n) || any
	}
	if s.best.Logger != "" {
		n := *s.best
		n.Logger = ""
		any = s.try(&n) || any
	}
	return any
}

// calm removes context switches.
func (s *shrinker) calm() {
	for size := len(s.best.Sched); size >= 1 && !s.over(); size /= 2 {
		for len(s.best.Sched) >= size {
			n := *s.best
			n.Sched = n.Sched[:len(n.Sched)-size]
			if !s.accept(&n) {
				break
			}
		}
		if size == 1 {
			break
		}
	}
	for i := 0; i < len(s.best.Sched) && !s.over(); i++ {
		if s.best.Sched[i] == 0 {
			continue
		}
		n := *s.best
		n.Sched = append([]int{}, n.Sched...)
		n.Sched[i] = 0
		s.accept(&n)
	}
}

func shrinkMain(in, out string) {
	f, err := readReplay(in)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	s := &shrinker{p: propByID(f.Property), want: class(f.Violation), end: time.Now().Add(40 * time.Second)}
	if !s.acceptFirst(f.Case) {
		os.Exit(3)
	}
	before := len(s.best.Ops)
	save := func() {
		g := *f
		g.Case = s.best
		g.Violation = s.res.viol
		g.EvHash = fmt.Sprintf("%016x", s.res.evhash)
		g.Trace = s.res.trace
		g.Note = fmt.Sprintf("minimised from %d to %d requests in %d runs", before, len(s.best.Ops), s.evals)
		if err := writeReplay(out, &g); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	save()
	for i := 0; i < 6 && !s.over(); i++ {
		a := s.dropOps()
		save()
		b := s.simplify()
		save()
		if !a && !b {
			break
		}
	}
	s.calm()
	save()
	b, _ := json.Marshal(map[string]int{"ops": len(s.best.Ops), "evals": s.evals})
	fmt.Printf("shrunk %s\n", b)
}

func (s *shrinker) acceptFirst(c *Case) bool {
	for k := 0; k < 5; k++ { // code that iterates over maps may need a few tries
		if s.accept(c) {
			return true
		}
	}
	return false
}
