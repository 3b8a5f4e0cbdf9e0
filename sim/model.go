package main

import (
	"fmt"
	"sort"
	"strings"

	"google.golang.org/protobuf/proto"
)

// ---- reference state ---------------------------------------------------------
//
// The reference is a map of policies and, per policy, a map of relationships.
// A request that failed part way leaves its target in one of several
// alternatives; a later observation narrows them.

// span is when a record was created: simulated clock and, should the code not use
// the clock seam, real clock.
type span struct {
	lo, hi   int64
	rlo, rhi int64
	at       int64 // the value already observed, 0 if none
}

func spanOf(e *Event) span { return span{lo: e.Lo, hi: e.Hi, rlo: e.RLo, rhi: e.RHi} }

func (s span) accepts(at int64) bool {
	if s.at != 0 {
		return at == s.at
	}
	return at >= s.lo && at <= s.hi || at >= s.rlo && at <= s.rhi
}

type polAlt struct {
	spec *PolSpec // nil: the policy does not exist
	data string
	span span
	w    int // id of the request that wrote it
}

type relAlt struct {
	present bool
	data    string
	span    span
	w       int
}

type relMap map[Tuple][]relAlt

type State struct {
	pols map[string][]polAlt
	rels map[string]relMap
}

func newState() *State { return &State{pols: map[string][]polAlt{}, rels: map[string]relMap{}} }

func (s *State) clone() *State {
	n := &State{pols: make(map[string][]polAlt, len(s.pols)), rels: make(map[string]relMap, len(s.rels))}
	for k, v := range s.pols {
		n.pols[k] = v
	}
	for k, v := range s.rels {
		n.rels[k] = v
	}
	return n
}

func (s *State) polAlts(id string) []polAlt {
	if a, ok := s.pols[id]; ok {
		return a
	}
	return []polAlt{{}}
}

func (s *State) relAlts(id string, t Tuple) []relAlt {
	if a, ok := s.rels[id][t]; ok {
		return a
	}
	return []relAlt{{}}
}

// withPol returns a copy in which the policy has the given alternatives.
func (s *State) withPol(id string, alts ...polAlt) *State {
	n := s.clone()
	n.setPol(id, alts)
	return n
}

func (s *State) setPol(id string, alts []polAlt) {
	if len(alts) == 1 && alts[0].spec == nil {
		delete(s.pols, id)
		return
	}
	s.pols[id] = alts
}

// own gives the state its own copy of the relationships of a policy.
func (s *State) own(id string) relMap {
	m := make(relMap, len(s.rels[id])+1)
	for k, v := range s.rels[id] {
		m[k] = v
	}
	s.rels[id] = m
	return m
}

func setRel(m relMap, t Tuple, alts []relAlt) {
	if len(alts) == 1 && !alts[0].present {
		delete(m, t)
		return
	}
	m[t] = alts
}

func addAbsent(alts []relAlt) []relAlt {
	for _, a := range alts {
		if !a.present {
			return alts
		}
	}
	return append(append([]relAlt{}, alts...), relAlt{})
}

func (s *State) key() string {
	var b strings.Builder
	ids := map[string]bool{}
	for id := range s.pols {
		ids[id] = true
	}
	for id, m := range s.rels {
		if len(m) > 0 {
			ids[id] = true
		}
	}
	var l []string
	for id := range ids {
		l = append(l, id)
	}
	sort.Strings(l)
	for _, id := range l {
		fmt.Fprintf(&b, "|%q", id)
		for _, a := range s.pols[id] {
			fmt.Fprintf(&b, "<%d %d %d %d %q>", a.w, a.span.lo, a.span.hi, a.span.at, a.data)
		}
		var ts []string
		for t, alts := range s.rels[id] {
			x := fmt.Sprintf("%q", []string{t.O.R, t.O.I, t.Rel, t.S.K, t.S.R, t.S.I, t.S.Rel})
			for _, a := range alts {
				x += fmt.Sprintf("<%v %d %d>", a.present, a.w, a.span.at)
			}
			ts = append(ts, x)
		}
		sort.Strings(ts)
		for _, x := range ts {
			b.WriteString(x)
		}
	}
	return b.String()
}

// ---- judging -----------------------------------------------------------------

// Judge says which responses the property at hand is about. Everything else is
// taken at its word: a reported success is a success, a reported error means the
// request had its whole effect or none.
type Judge struct {
	kinds  map[string]bool // kinds whose responses are judged
	flags  bool            // found, overwritten flags and counts
	data   bool            // contents and application data of records
	times  bool            // creation times
	admit  bool            // admission of policies and relationships
	docs   bool            // dump documents
	names  bool            // nodes named by Expand and ExplainCheck documents
	errsOK bool            // an error is never judged
}

func judgeOf(kinds ...string) *Judge {
	j := &Judge{kinds: map[string]bool{}, flags: true, data: true, admit: true, docs: true}
	for _, k := range kinds {
		for _, x := range strings.Fields(k) {
			j.kinds[x] = true
		}
	}
	return j
}

const polKinds = "create update delpol getpol list"
const relKinds = "set del get find delrels"
const graphKinds = "check explain expand dump"
const allKinds = polKinds + " " + relKinds + " " + graphKinds

// abandon is set when a response that is not judged cannot be followed by the reference.
type modelErr struct {
	why     string
	abandon bool
}

// stepper evaluates one event against one state.
type stepper struct {
	j *Judge
	modelErr
}

func (p *stepper) fail(format string, args ...any) []*State {
	p.why = fmt.Sprintf(format, args...)
	return nil
}

const (
	oOK = iota
	oErr
	oGone // crashed
)

func outcome(e *Event) int {
	switch {
	case e.Resp == nil:
		return oGone
	case e.Resp.Err != "":
		return oErr
	}
	return oOK
}

// step returns the states the event can lead to, none if the event contradicts s.
func (p *stepper) step(s *State, e *Event) []*State {
	op := e.Op
	judged := p.j.kinds[op.Kind]
	if !judged && !op.isWrite() {
		return []*State{s}
	}
	out := outcome(e)
	// an environment in which any request may fail
	sick := len(e.Fired) > 0 || op.Cancel || e.Crashed
	if !judged || p.j.errsOK {
		sick = true
	}
	if out == oOK && e.Resp.NilOK && judged {
		return p.fail("success without a response")
	}
	switch op.Kind {
	case "create", "update":
		return p.putPolicy(s, e, judged, out, sick)
	case "delpol":
		return p.delPolicy(s, e, judged, out, sick)
	case "set":
		return p.setRel(s, e, judged, out, sick)
	case "del":
		return p.delRel(s, e, judged, out, sick)
	case "delrels":
		return p.delRels(s, e, judged, out, sick)
	}
	// queries
	if out == oGone {
		return []*State{s}
	}
	switch op.Kind {
	case "getpol":
		return p.getPolicy(s, e, out, sick)
	case "list":
		return p.list(s, e, out, sick)
	case "get":
		return p.getRel(s, e, out, sick)
	case "find":
		return p.find(s, e, out, sick)
	case "check", "explain":
		return p.check(s, e, out, sick)
	case "dump":
		return p.dump(s, e, out, sick)
	case "expand":
		return p.expand(s, e, out, sick)
	}
	return []*State{s}
}

func (p *stepper) putPolicy(s *State, e *Event, judged bool, out int, sick bool) []*State {
	op := e.Op
	op.Spec.prepare()
	id := op.Spec.ID
	var res []*State
	for _, a := range s.polAlts(id) {
		exists := a.spec != nil
		adm := op.Spec.valid == "" && exists == (op.Kind == "update")
		n := polAlt{spec: op.Spec, data: op.Data, span: spanOf(e), w: op.ID + e.Attempt<<20}
		if op.Kind == "update" {
			n.span = a.span
		}
		switch out {
		case oOK:
			if !adm {
				if judged && p.j.admit {
					p.fail("request accepted, but it must be rejected: %s", whyPol(op, exists))
					continue
				}
				if op.Spec.valid != "" {
					p.abandon = true
					return nil
				}
			}
			if judged && p.j.data && op.Kind == "create" {
				r := e.Resp.Pol
				if r == nil {
					p.fail("response without a record")
					continue
				}
				if why := p.polDiff(&n, r); why != "" {
					p.fail("%s", why)
					continue
				}
				n.span.at = r.At
			}
			res = append(res, s.withPol(id, n))
		case oErr:
			if judged && adm && !sick && p.j.admit {
				p.fail("valid request rejected")
				continue
			}
			// a rejected request has no effect
			if adm && sick {
				res = append(res, s.withPol(id, a, n))
			} else {
				res = append(res, s.withPol(id, a))
			}
		case oGone:
			if adm {
				res = append(res, s.withPol(id, a, n))
			} else {
				res = append(res, s.withPol(id, a))
			}
		}
	}
	return res
}

func whyPol(op *Op, exists bool) string {
	if op.Spec.valid != "" {
		return op.Spec.valid
	}
	if op.Kind == "create" && exists {
		return "the policy exists"
	}
	return "the policy does not exist"
}

func (p *stepper) polDiff(a *polAlt, r *PolRec) string {
	if p.j.data {
		if !proto.Equal(a.spec.expected(), r.Msg) {
			return fmt.Sprintf("policy differs from what was written: got %v, want %v", r.Msg, a.spec.expected())
		}
		if r.Data != a.data {
			return fmt.Sprintf("application data %q, want %q", r.Data, a.data)
		}
	}
	if p.j.times {
		if r.NoAt {
			return "record without creation time"
		}
		if !a.span.accepts(r.At) {
			return fmt.Sprintf("creation time %d outside the creating request [%d,%d] (or not the one seen before: %d)", r.At, a.span.lo, a.span.hi, a.span.at)
		}
	}
	return ""
}

func (p *stepper) relDiff(a *relAlt, r *RelRec) string {
	if r.Bad != "" {
		return r.Bad
	}
	if p.j.data && r.Data != a.data {
		return fmt.Sprintf("%s: application data %q, want %q", r.T, r.Data, a.data)
	}
	if p.j.times {
		if r.NoAt {
			return "record without creation time"
		}
		if !a.span.accepts(r.At) {
			return fmt.Sprintf("%s: creation time %d outside the request that wrote it [%d,%d] (or not the one seen before: %d)", r.T, r.At, a.span.lo, a.span.hi, a.span.at)
		}
	}
	return ""
}

func (p *stepper) delPolicy(s *State, e *Event, judged bool, out int, sick bool) []*State {
	id := e.Op.Pol
	var res []*State
	for _, a := range s.polAlts(id) {
		exists := a.spec != nil
		gone := s.withPol(id, polAlt{})
		delete(gone.rels, id)
		switch out {
		case oOK:
			if judged && p.j.flags {
				if e.Resp.Flag != exists {
					p.fail("found=%v, but the policy exists: %v", e.Resp.Flag, exists)
					continue
				}
				lo, hi := 0, 0
				if exists {
					lo, hi = countRels(s.rels[id], nil)
				}
				if int(e.Resp.N) < lo || int(e.Resp.N) > hi {
					p.fail("%d relationships reported removed, there were %s", e.Resp.N, rangeStr(lo, hi))
					continue
				}
			}
			res = append(res, gone)
		case oErr, oGone:
			if judged && !sick {
				p.fail("deletion failed")
				continue
			}
			kept := s.withPol(id, a)
			if exists {
				m := kept.own(id)
				for t, alts := range m {
					m[t] = addAbsent(alts)
				}
				res = append(res, gone)
			}
			res = append(res, kept)
		}
	}
	return res
}

func rangeStr(lo, hi int) string {
	if lo == hi {
		return fmt.Sprint(lo)
	}
	return fmt.Sprintf("%d to %d", lo, hi)
}

// countRels returns how many relationships match, at least and at most.
func countRels(m relMap, sel *Sel) (lo, hi int) {
	for t, alts := range m {
		if sel != nil && !sel.matches(t) {
			continue
		}
		yes, no := false, false
		for _, a := range alts {
			if a.present {
				yes = true
			} else {
				no = true
			}
		}
		if yes {
			hi++
			if !no {
				lo++
			}
		}
	}
	return
}

func (p *stepper) setRel(s *State, e *Event, judged bool, out int, sick bool) []*State {
	op := e.Op
	id := op.Pol
	var res []*State
	for _, a := range s.polAlts(id) {
		adm := a.spec != nil && a.spec.admits(op.T, op.Bad)
		base := s.withPol(id, a)
		old := s.relAlts(id, *op.T)
		n := relAlt{present: true, data: op.Data, span: spanOf(e), w: op.ID + e.Attempt<<20}
		switch out {
		case oOK:
			if !adm {
				if judged && p.j.admit {
					p.fail("relationship accepted, but it must be rejected: %s", whyRel(a.spec, op))
					continue
				}
				if op.Bad != "" || a.spec == nil {
					p.abandon = true
					return nil
				}
			}
			if judged && p.j.flags {
				ok := false
				for _, x := range old {
					ok = ok || x.present == e.Resp.Flag
				}
				if !ok {
					p.fail("overwritten=%v, but the relationship existed: %v", e.Resp.Flag, !e.Resp.Flag)
					continue
				}
			}
			setRel(base.own(id), *op.T, []relAlt{n})
			res = append(res, base)
		case oErr, oGone:
			if out == oErr && judged && adm && !sick && p.j.admit {
				p.fail("conforming relationship rejected")
				continue
			}
			if adm && (sick || out == oGone) {
				setRel(base.own(id), *op.T, append(append([]relAlt{}, old...), n))
			}
			res = append(res, base)
		}
	}
	return res
}

func whyRel(pol *PolSpec, op *Op) string {
	switch {
	case op.Bad != "":
		return "malformed: " + op.Bad
	case pol == nil:
		return "the policy does not exist"
	}
	return "it does not conform to the policy"
}

func (p *stepper) delRel(s *State, e *Event, judged bool, out int, sick bool) []*State {
	op := e.Op
	id := op.Pol
	if op.Bad != "" {
		if out == oOK && e.Resp.Flag && judged {
			return p.fail("malformed request deleted something")
		}
		return []*State{s}
	}
	old := s.relAlts(id, *op.T)
	n := s.clone()
	switch out {
	case oOK:
		if judged && p.j.flags {
			ok := false
			for _, x := range old {
				ok = ok || x.present == e.Resp.Flag
			}
			if !ok {
				return p.fail("found=%v, but the relationship existed: %v", e.Resp.Flag, !e.Resp.Flag)
			}
		}
		setRel(n.own(id), *op.T, []relAlt{{}})
	default:
		if out == oErr && judged && !sick {
			return p.fail("deletion failed")
		}
		setRel(n.own(id), *op.T, addAbsent(old))
	}
	return []*State{n}
}

func (p *stepper) delRels(s *State, e *Event, judged bool, out int, sick bool) []*State {
	op := e.Op
	id := op.Pol
	if op.Bad != "" {
		if out == oOK && e.Resp.N > 0 {
			if judged {
				return p.fail("malformed selector matched relationships")
			}
			p.abandon = true
			return nil
		}
		return []*State{s}
	}
	n := s.clone()
	m := n.own(id)
	if out == oOK {
		if judged && p.j.flags {
			lo, hi := countRels(m, op.Sel)
			if int(e.Resp.N) < lo || int(e.Resp.N) > hi {
				return p.fail("%d records affected, there were %s", e.Resp.N, rangeStr(lo, hi))
			}
		}
	} else if out == oErr && judged && !sick {
		return p.fail("bulk deletion failed")
	}
	for t, alts := range m {
		if op.Sel.matches(t) {
			if out == oOK {
				delete(m, t)
			} else {
				m[t] = addAbsent(alts)
			}
		}
	}
	return []*State{n}
}

func (p *stepper) getPolicy(s *State, e *Event, out int, sick bool) []*State {
	id := e.Op.Pol
	if out == oErr {
		if sick {
			return []*State{s}
		}
		return p.fail("query failed")
	}
	var keep []polAlt
	r := e.Resp.Pol
	for _, a := range s.polAlts(id) {
		if (a.spec == nil) != (r == nil) {
			if a.spec == nil {
				p.fail("a policy is returned, but none exists")
			} else {
				p.fail("no policy is returned, but it exists")
			}
			continue
		}
		if r != nil {
			if why := p.polDiff(&a, r); why != "" {
				p.fail("%s", why)
				continue
			}
			if p.j.times {
				a.span.at = r.At
			}
		}
		keep = append(keep, a)
	}
	if keep == nil {
		return nil
	}
	return []*State{s.withPol(id, keep...)}
}

func (p *stepper) list(s *State, e *Event, out int, sick bool) []*State {
	if out == oErr {
		if sick {
			return []*State{s}
		}
		return p.fail("query failed")
	}
	in := map[string]bool{}
	for _, id := range e.Resp.Ids {
		if in[id] {
			return p.fail("id %q listed twice", id)
		}
		in[id] = true
	}
	n := s.clone()
	for id := range in {
		if _, ok := s.pols[id]; !ok {
			return p.fail("id %q listed, but no such policy exists", id)
		}
	}
	for id, alts := range s.pols {
		var keep []polAlt
		for _, a := range alts {
			if (a.spec != nil) == in[id] {
				keep = append(keep, a)
			}
		}
		if keep == nil {
			if in[id] {
				return p.fail("id %q listed, but no such policy exists", id)
			}
			return p.fail("policy %q exists but is not listed", id)
		}
		n.setPol(id, keep)
	}
	return []*State{n}
}

// narrow keeps the alternatives of one relationship that agree with the record seen (nil: none).
func (p *stepper) narrow(alts []relAlt, r *RelRec, t Tuple) []relAlt {
	var keep []relAlt
	for _, a := range alts {
		if a.present != (r != nil) {
			if a.present {
				p.fail("relationship %s exists but is not returned", t)
			} else {
				p.fail("relationship %s is returned but does not exist", t)
			}
			continue
		}
		if r != nil {
			if why := p.relDiff(&a, r); why != "" {
				p.fail("%s", why)
				continue
			}
			if p.j.times {
				a.span.at = r.At
			}
		}
		keep = append(keep, a)
	}
	return keep
}

func (p *stepper) getRel(s *State, e *Event, out int, sick bool) []*State {
	op := e.Op
	if out == oErr {
		if sick || op.Bad != "" {
			return []*State{s}
		}
		return p.fail("query failed")
	}
	if op.Bad != "" {
		if e.Resp.Rec != nil {
			return p.fail("malformed query returned a record")
		}
		return []*State{s}
	}
	if r := e.Resp.Rec; r != nil && (r.T != *op.T || r.Pol != op.Pol) {
		return p.fail("record of another relationship returned: %q %s", r.Pol, r.T)
	}
	keep := p.narrow(s.relAlts(op.Pol, *op.T), e.Resp.Rec, *op.T)
	if keep == nil {
		return nil
	}
	n := s.clone()
	setRel(n.own(op.Pol), *op.T, keep)
	return []*State{n}
}

func (p *PolSpec) hasRelAnywhere(rel string) bool {
	for i := range p.Res {
		if p.relation(p.Res[i].Name, rel) != nil {
			return true
		}
	}
	return false
}

// selValid decides whether a selector fits the policy.
func (p *PolSpec) selValid(s *Sel) bool {
	if s.OK != "any" && !p.hasRes(s.O.R) {
		return false
	}
	if s.RK == "name" {
		if s.OK == "any" {
			if !p.hasRelAnywhere(s.Rel) {
				return false
			}
		} else if p.relation(s.O.R, s.Rel) == nil {
			return false
		}
	}
	switch s.SK {
	case "spec":
		if !p.hasRes(s.S.R) {
			return false
		}
		if s.S.K == "s" && p.relation(s.S.R, s.S.Rel) == nil {
			return false
		}
	case "res":
		if !p.hasRes(s.S.R) {
			return false
		}
	}
	return true
}

func (p *stepper) find(s *State, e *Event, out int, sick bool) []*State {
	op := e.Op
	var res []*State
	for _, a := range s.polAlts(op.Pol) {
		base := s.withPol(op.Pol, a)
		valid := a.spec != nil && op.Bad == "" && a.spec.selValid(op.Sel)
		if out == oErr {
			if valid && !sick {
				p.fail("query failed")
				continue
			}
			res = append(res, base)
			continue
		}
		if !valid { // lenient: it may answer, but only with what matches
			if op.Bad != "" && len(e.Resp.Recs) > 0 {
				p.fail("malformed selector matched relationships")
				continue
			}
			if op.Bad != "" {
				res = append(res, base)
				continue
			}
		}
		if n := p.findMatch(base, op.Pol, op.Sel, e.Resp.Recs); n != nil {
			res = append(res, n)
		}
	}
	return res
}

func (p *stepper) findMatch(s *State, pol string, sel *Sel, recs []RelRec) *State {
	seen := map[Tuple]*RelRec{}
	for i := range recs {
		r := &recs[i]
		if r.Bad != "" {
			p.fail("incomplete record returned: %s", r.Bad)
			return nil
		}
		if r.Pol != pol {
			p.fail("record of policy %q returned for policy %q", r.Pol, pol)
			return nil
		}
		if seen[r.T] != nil {
			p.fail("relationship %s returned twice", r.T)
			return nil
		}
		if !sel.matches(r.T) {
			p.fail("relationship %s does not match the selector %s", r.T, sel)
			return nil
		}
		seen[r.T] = r
	}
	n := s.clone()
	m := n.own(pol)
	for t := range seen {
		if _, ok := m[t]; !ok {
			p.fail("relationship %s is returned but does not exist", t)
			return nil
		}
	}
	var ts []Tuple
	for t := range m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].key() < ts[j].key() })
	for _, t := range ts {
		if !sel.matches(t) {
			continue
		}
		keep := p.narrow(m[t], seen[t], t)
		if keep == nil {
			return nil
		}
		setRel(m, t, keep)
	}
	return n
}

func (p *stepper) check(s *State, e *Event, out int, sick bool) []*State {
	op := e.Op
	var res []*State
	for _, a := range s.polAlts(op.Pol) {
		base := s.withPol(op.Pol, a)
		must := a.spec == nil || op.Bad != "" || a.spec.relation(op.O.R, op.Rel) == nil ||
			op.Kind == "explain" && (op.Format < 0 || op.Format > 2)
		if must {
			if out == oOK && e.Resp.Flag {
				p.fail("authorized, but there is no such policy or relation")
				continue
			}
			res = append(res, base)
			continue
		}
		if out == oErr && sick {
			res = append(res, base)
			continue
		}
		ev := &evaluator{spec: a.spec, rels: s.rels[op.Pol], subj: *op.S}
		states, why := ev.judge(base, op, out == oErr, e.Resp.Flag)
		if len(states) == 0 {
			p.fail("%s", why)
			continue
		}
		if op.Kind == "explain" && out == oOK && p.j.names && settled(s.rels[op.Pol]) {
			if why := goalNames(a.spec, s.rels[op.Pol], Subj{K: "s", R: op.O.R, I: op.O.I, Rel: op.Rel}, e, false); why != "" {
				p.fail("%s", why)
				continue
			}
		}
		res = append(res, states...)
	}
	return res
}

func (p *stepper) expand(s *State, e *Event, out int, sick bool) []*State {
	op := e.Op
	var res []*State
	for _, a := range s.polAlts(op.Pol) {
		base := s.withPol(op.Pol, a)
		must := a.spec == nil || op.Bad != "" || op.Format < 0 || op.Format > 2 ||
			op.Root.K == "s" && a.spec.relation(op.Root.R, op.Root.Rel) == nil
		if must {
			res = append(res, base)
			continue
		}
		if out == oOK && p.j.names && !settled(s.rels[op.Pol]) {
			res = append(res, base)
			continue
		}
		if out == oOK && p.j.names {
			if why := goalNames(a.spec, s.rels[op.Pol], *op.Root, e, true); why != "" {
				p.fail("%s", why)
				continue
			}
		}
		if out == oErr && !sick && op.Root.K == "s" {
			ev := &evaluator{spec: a.spec, rels: s.rels[op.Pol], subj: Ent{}}
			ev.build(Ent{op.Root.R, op.Root.I}, op.Root.Rel)
			if !ev.undef {
				p.fail("query failed")
				continue
			}
		}
		res = append(res, base)
	}
	return res
}

// settled tells whether the presence of every relationship is known.
func settled(m relMap) bool {
	for _, alts := range m {
		if yes, no := certain(alts); yes && no {
			return false
		}
	}
	return true
}

// goalNames compares the nodes a document names with those the root reaches. all: every
// one of them must be named.
func goalNames(spec *PolSpec, rels relMap, root Subj, e *Event, all bool) string {
	names, ok := reachLabels(spec, rels, root)
	if !ok {
		return ""
	}
	d, err := parseGoal(e.Op.Format, e.Resp.Doc)
	if err != nil {
		return fmt.Sprintf("%s document is not well formed: %v", formatName(e.Op.Format), err)
	}
	if formatName(e.Op.Format) == "spew" {
		return ""
	}
	if !d.names[subjLabel(root)] {
		return fmt.Sprintf("%s document does not name its root %s", formatName(e.Op.Format), subjLabel(root))
	}
	if all {
		for _, n := range sortedKeys(names) {
			if !d.names[n] {
				return fmt.Sprintf("%s document does not name %s, which the root reaches", formatName(e.Op.Format), n)
			}
		}
	}
	for _, n := range sortedKeys(d.names) {
		if !names[n] {
			return fmt.Sprintf("%s document names %s, which the root does not reach", formatName(e.Op.Format), n)
		}
	}
	return ""
}

func nodeLabel(res, id, rel string) string {
	if rel != "" {
		return fmt.Sprintf("(%s:%s, %s)", res, id, rel)
	}
	return fmt.Sprintf("(%s:%s)", res, id)
}

func subjLabel(s Subj) string {
	if s.K == "w" {
		return nodeLabel(s.R, "*", "")
	}
	return nodeLabel(s.R, s.I, s.Rel)
}

func (p *stepper) dump(s *State, e *Event, out int, sick bool) []*State {
	op := e.Op
	var res []*State
	for _, a := range s.polAlts(op.Pol) {
		base := s.withPol(op.Pol, a)
		must := a.spec == nil || op.Format != 0
		if op.Format != 0 || out == oErr {
			if !must && !sick {
				p.fail("query failed")
				continue
			}
			res = append(res, base)
			continue
		}
		if !p.j.docs {
			res = append(res, base)
			continue
		}
		edges, err := parseDump(e.Resp.Doc)
		if err != nil {
			p.fail("dump is not well formed: %v", err)
			continue
		}
		m := base.own(op.Pol)
		min := map[[2]string]int{}
		max := map[[2]string]int{}
		at := map[[2]string][]Tuple{}
		for t, alts := range m {
			k := [2]string{nodeLabel(t.O.R, t.O.I, t.Rel), subjLabel(t.S)}
			yes, no := false, false
			for _, a := range alts {
				if a.present {
					yes = true
				} else {
					no = true
				}
			}
			if yes {
				max[k]++
				if !no {
					min[k]++
				}
			}
			at[k] = append(at[k], t)
		}
		ok := true
		for k, n := range edges {
			if n > max[k] {
				p.fail("dump draws %s -> %s %d times, at most %d such relationships exist", k[0], k[1], n, max[k])
				ok = false
			}
		}
		for k, n := range min {
			if edges[k] < n {
				p.fail("dump draws %s -> %s %d times, %d such relationships exist", k[0], k[1], edges[k], n)
				ok = false
			}
		}
		if !ok {
			continue
		}
		for k, ts := range at {
			if len(ts) == 1 {
				var keep []relAlt
				for _, a := range m[ts[0]] {
					if a.present == (edges[k] > 0) {
						keep = append(keep, a)
					}
				}
				if keep != nil {
					setRel(m, ts[0], keep)
				}
			}
		}
		res = append(res, base)
	}
	return res
}

// ---- the meaning of a Check ----------------------------------------------------

type gnode struct {
	o   Ent
	rel string
}

// evaluator computes the set-theoretic meaning of a relation for one subject: the
// least fixpoint of the policy's equations over the relationships.
type evaluator struct {
	spec  *PolSpec
	rels  relMap
	subj  Ent
	index map[gnode][]Tuple
	nodes []gnode
	num   map[gnode]int
	undef bool // an undefined relation or a wildcard in a tupleset can be reached
	used  map[Tuple]bool
	pick  map[Tuple]bool // assumed presence of uncertain relationships
}

func certain(alts []relAlt) (yes, no bool) {
	for _, a := range alts {
		if a.present {
			yes = true
		} else {
			no = true
		}
	}
	return
}

// holds returns whether the relationship is surely and possibly present.
func (v *evaluator) holds(t Tuple) (lo, hi bool) {
	if b, ok := v.pick[t]; ok {
		return b, b
	}
	yes, no := certain(v.rels[t])
	return yes && !no, yes
}

func (v *evaluator) tuples(n gnode) []Tuple {
	if v.index == nil {
		v.index = map[gnode][]Tuple{}
		for t := range v.rels {
			k := gnode{t.O, t.Rel}
			v.index[k] = append(v.index[k], t)
		}
	}
	return v.index[n]
}

// build collects the nodes that can be reached.
func (v *evaluator) build(o Ent, rel string) int {
	v.num = map[gnode]int{}
	v.nodes = nil
	v.used = map[Tuple]bool{}
	v.undef = false
	root := v.add(gnode{o, rel})
	for i := 0; i < len(v.nodes); i++ {
		n := v.nodes[i]
		def := v.spec.relation(n.o.R, n.rel)
		if def == nil {
			v.undef = true
			continue
		}
		v.deps(n, def.Expr, func(m gnode, neg bool) { v.add(m) })
	}
	return root
}

func (v *evaluator) add(n gnode) int {
	if i, ok := v.num[n]; ok {
		return i
	}
	v.num[n] = len(v.nodes)
	v.nodes = append(v.nodes, n)
	return len(v.nodes) - 1
}

func (v *evaluator) deps(n gnode, x *Expr, f func(m gnode, neg bool)) {
	var walk func(x *Expr, neg bool)
	walk = func(x *Expr, neg bool) {
		switch x.K {
		case "this":
			for _, t := range v.tuples(n) {
				_, hi := v.holds(t)
				if !hi {
					continue
				}
				v.used[t] = true
				if t.S.K == "s" {
					f(gnode{Ent{t.S.R, t.S.I}, t.S.Rel}, neg)
				}
			}
		case "cu":
			f(gnode{n.o, x.A}, neg)
		case "ttu":
			for _, t := range v.tuples(gnode{n.o, x.A}) {
				_, hi := v.holds(t)
				if !hi {
					continue
				}
				v.used[t] = true
				if t.S.K == "w" {
					v.undef = true
					continue
				}
				f(gnode{Ent{t.S.R, t.S.I}, x.B}, neg)
			}
		case "op":
			walk(x.L, neg)
			walk(x.R, neg || x.Op == "-")
		}
	}
	walk(x, false)
}

// eval returns the lower and upper bound of the meaning of o#rel for the subject.
func (v *evaluator) eval(o Ent, rel string) (lo, hi bool) {
	root := v.build(o, rel)
	n := len(v.nodes)
	defs := make([]*PRel, n)
	type edge struct {
		to  int
		neg bool
	}
	adj := make([][]edge, n)
	for i, g := range v.nodes {
		defs[i] = v.spec.relation(g.o.R, g.rel)
		if defs[i] != nil {
			v.deps(g, defs[i].Expr, func(m gnode, neg bool) { adj[i] = append(adj[i], edge{v.num[m], neg}) })
		}
	}
	// strongly connected components, dependencies first (Tarjan, iterative)
	comp := make([]int, n)
	idx := make([]int, n)
	low := make([]int, n)
	on := make([]bool, n)
	for i := range idx {
		idx[i] = -1
		comp[i] = -1
	}
	var stack []int
	var comps [][]int
	cnt := 0
	type frame struct{ v, i int }
	for s := 0; s < n; s++ {
		if idx[s] >= 0 {
			continue
		}
		call := []frame{{s, 0}}
		for len(call) > 0 {
			f := &call[len(call)-1]
			if f.i == 0 {
				idx[f.v], low[f.v] = cnt, cnt
				cnt++
				stack = append(stack, f.v)
				on[f.v] = true
			}
			if f.i < len(adj[f.v]) {
				w := adj[f.v][f.i].to
				f.i++
				if idx[w] < 0 {
					call = append(call, frame{w, 0})
				} else if on[w] && idx[w] < low[f.v] {
					low[f.v] = idx[w]
				}
				continue
			}
			if low[f.v] == idx[f.v] {
				var c []int
				for {
					w := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					on[w] = false
					comp[w] = len(comps)
					c = append(c, w)
					if w == f.v {
						break
					}
				}
				comps = append(comps, c)
			}
			x := f.v
			call = call[:len(call)-1]
			if len(call) > 0 {
				p := call[len(call)-1].v
				if low[x] < low[p] {
					low[p] = low[x]
				}
			}
			// a node without successors is entered with i == 0 once only
		}
	}
	los := make([]bool, n)
	his := make([]bool, n)
	for ci, c := range comps {
		bad := false
		for _, i := range c {
			if defs[i] == nil {
				bad = true
			}
			for _, e := range adj[i] {
				if e.neg && comp[e.to] == ci {
					bad = true
				}
			}
		}
		if bad {
			for _, i := range c {
				los[i], his[i] = false, true
			}
			continue
		}
		for _, i := range c {
			los[i], his[i] = false, false
		}
		for changed := true; changed; {
			changed = false
			for _, i := range c {
				l, h := v.expr(v.nodes[i], defs[i].Expr, los, his)
				if l && !los[i] {
					los[i] = true
					changed = true
				}
				if h && !his[i] {
					his[i] = true
					changed = true
				}
			}
		}
	}
	return los[root], his[root]
}

func (v *evaluator) expr(n gnode, x *Expr, los, his []bool) (lo, hi bool) {
	switch x.K {
	case "this":
		for _, t := range v.tuples(n) {
			l, h := v.holds(t)
			if !h {
				continue
			}
			a, b := false, false
			switch t.S.K {
			case "e":
				a = t.S.R == v.subj.R && t.S.I == v.subj.I
				b = a
			case "w":
				a = t.S.R == v.subj.R
				b = a
			case "s":
				i := v.num[gnode{Ent{t.S.R, t.S.I}, t.S.Rel}]
				a, b = los[i], his[i]
			}
			lo = lo || l && a
			hi = hi || b
		}
		return
	case "cu":
		i := v.num[gnode{n.o, x.A}]
		return los[i], his[i]
	case "ttu":
		for _, t := range v.tuples(gnode{n.o, x.A}) {
			l, h := v.holds(t)
			if !h {
				continue
			}
			if t.S.K == "w" {
				hi = true
				continue
			}
			i := v.num[gnode{Ent{t.S.R, t.S.I}, x.B}]
			lo = lo || l && los[i]
			hi = hi || his[i]
		}
		return
	}
	ll, lh := v.expr(n, x.L, los, his)
	rl, rh := v.expr(n, x.R, los, his)
	switch x.Op {
	case "+":
		return ll || rl, lh || rh
	case "&":
		return ll && rl, lh && rh
	}
	return ll && !rh, lh && !rl
}

// judge compares an answer with the meaning, for every presence of uncertain relationships.
func (v *evaluator) judge(base *State, op *Op, isErr, flag bool) ([]*State, string) {
	v.pick = nil
	lo, hi := v.eval(*op.O, op.Rel)
	undef := v.undef
	if isErr {
		if undef {
			return []*State{base}, ""
		}
		return nil, "well-defined check failed"
	}
	if flag && !hi || !flag && lo {
		return nil, fmt.Sprintf("authorized=%v, but by the policy and relationships it is %v", flag, !flag)
	}
	if lo == hi {
		return []*State{base}, ""
	}
	var unc []Tuple
	for t := range v.used {
		if yes, no := certain(v.rels[t]); yes && no {
			unc = append(unc, t)
		}
	}
	if len(unc) == 0 || len(unc) > 4 {
		return []*State{base}, ""
	}
	sort.Slice(unc, func(i, j int) bool { return unc[i].key() < unc[j].key() })
	var res []*State
	total := 1 << len(unc)
	for mask := 0; mask < total; mask++ {
		v.pick = map[Tuple]bool{}
		for i, t := range unc {
			v.pick[t] = mask>>i&1 == 1
		}
		l, h := v.eval(*op.O, op.Rel)
		if flag && !h || !flag && l {
			continue
		}
		n := base.clone()
		m := n.own(op.Pol)
		for i, t := range unc {
			var keep []relAlt
			for _, a := range m[t] {
				if a.present == (mask>>i&1 == 1) {
					keep = append(keep, a)
				}
			}
			setRel(m, t, keep)
		}
		res = append(res, n)
	}
	if len(res) == total {
		return []*State{base}, ""
	}
	if len(res) == 0 {
		return nil, fmt.Sprintf("authorized=%v, but by the policy and any possible relationships it is %v", flag, !flag)
	}
	return res, ""
}

// ---- frontier ------------------------------------------------------------------

type tracker struct {
	j       *Judge
	front   []*State
	gaveUp  bool
	why     string
	maxSeen int
	judged  int
	lins    int
}

func newTracker(j *Judge) *tracker { return &tracker{j: j, front: []*State{newState()}} }

const frontierCap = 4000

func dedupe(l []*State) []*State {
	if len(l) < 2 {
		return l
	}
	seen := map[string]bool{}
	var res []*State
	for _, s := range l {
		k := s.key()
		if !seen[k] {
			seen[k] = true
			res = append(res, s)
		}
	}
	return res
}

// seq applies one event. It returns false if no state explains the event.
func (k *tracker) seq(e *Event) bool {
	if k.gaveUp {
		return true
	}
	if k.j.kinds[e.Op.Kind] {
		k.judged++
	}
	var next []*State
	for _, s := range k.front {
		p := stepper{j: k.j}
		r := p.step(s, e)
		if p.abandon {
			k.gaveUp = true
			return true
		}
		if len(r) == 0 {
			k.why = p.why
		}
		next = append(next, r...)
	}
	next = dedupe(next)
	if len(next) > k.maxSeen {
		k.maxSeen = len(next)
	}
	if len(next) == 0 {
		return false
	}
	if len(next) > frontierCap {
		k.gaveUp = true
		return true
	}
	k.front = next
	return true
}

// conc looks for an order of the concurrent events, consistent with real time, that
// the reference explains. It returns false if there is none.
func (k *tracker) conc(evs []*Event) bool {
	if k.gaveUp {
		return true
	}
	var l []*Event
	for _, e := range evs {
		if k.j.kinds[e.Op.Kind] || e.Op.isWrite() {
			l = append(l, e)
		}
	}
	evs = l
	n := len(evs)
	if n == 0 {
		return true
	}
	if n > 16 {
		k.gaveUp = true
		return true
	}
	for _, e := range evs {
		if k.j.kinds[e.Op.Kind] {
			k.judged++
		}
	}
	k.lins++
	before := make([]int, n) // events that returned before i was invoked
	for i := range evs {
		for j := range evs {
			if i != j && evs[j].Ret < evs[i].Inv {
				before[i] |= 1 << j
			}
		}
	}
	level := map[int][]*State{0: k.front}
	work := 0
	best, bestWhy := -1, ""
	for size := 0; size < n; size++ {
		next := map[int][]*State{}
		var masks []int
		for m := range level {
			masks = append(masks, m)
		}
		sort.Ints(masks)
		for _, m := range masks {
			for i := 0; i < n; i++ {
				if m>>i&1 == 1 || before[i]&^m != 0 {
					continue
				}
				for _, s := range level[m] {
					p := stepper{j: k.j}
					r := p.step(s, evs[i])
					work++
					if p.abandon {
						k.gaveUp = true
						return true
					}
					if len(r) == 0 {
						if size > best {
							best = size
							bestWhy = fmt.Sprintf("%s: %s", evs[i], p.why)
						}
						continue
					}
					next[m|1<<i] = append(next[m|1<<i], r...)
				}
			}
		}
		total := 0
		for m := range next {
			next[m] = dedupe(next[m])
			total += len(next[m])
		}
		if total == 0 {
			k.why = fmt.Sprintf("no order of the concurrent requests explains the responses (longest explained prefix %d of %d; then %s)", size, n, bestWhy)
			return false
		}
		if total > frontierCap*4 || work > 400000 {
			k.gaveUp = true
			return true
		}
		level = next
	}
	k.front = level[1<<n-1]
	if len(k.front) > frontierCap {
		k.gaveUp = true
	}
	return true
}
