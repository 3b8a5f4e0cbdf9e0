package main

import (
	"fmt"
	"os"
	"strings"
)

type prop struct {
	id    string
	gen   func(c *Case, g *rng)
	eval  func(c *Case) *result
	quick int // runs of the quick check
	rule  string
}

// deep is how many times more runs the thorough check has.
func (p *prop) deep() int { return 40 }

// makeCase builds run number idx of a property under the base seed.
func makeCase(p *prop, base uint64, idx int) *Case {
	seed := newRng(base, hashStr(p.id), uint64(idx)).next()
	for {
		if c := tryCase(p, seed); c != nil {
			return c
		}
		seed = newRng(seed).next()
	}
}

// tryCase returns nil if the generator fails: that must never look like a violation.
func tryCase(p *prop, seed uint64) (c *Case) {
	defer func() {
		if e := recover(); e != nil {
			if os.Getenv("ZSIM_DEBUG") != "" {
				panic(e)
			}
			c = nil
		}
	}()
	return newCase(p, seed)
}

func newCase(p *prop, seed uint64) *Case {
	c := &Case{Prop: p.id, Seed: seed, Backend: "sim", Budget: 200000}
	if b := newRng(seed, 4); bigProps[p.id] && b.n(1000) < bigShare(p.id) {
		genBig(c, b)
	} else {
		p.gen(c, newRng(seed, 5))
	}
	if g := newRng(seed, 8); rainProps[p.id] && g.n(100) < 10 {
		rain(c, g)
	}
	g := newRng(seed, 6)
	if defaultProps[p.id] && c.Backend == "sim" && g.n(1000) < 12 {
		useDefault(c, g)
	}
	if g.p(40) { // how the messages reach the service, and what happens to them afterwards
		wire, print, scrib := g.n(30), g.n(30), g.n(30)
		for _, o := range c.Ops {
			if o.Bad == "" && (o.Spec == nil || o.Spec.Bad == "") {
				o.Wire = o.Wire || g.p(wire)
				o.Print = o.Print || g.p(print)
				o.Scribble = o.Scribble || g.p(scrib)
			}
		}
		c.LogFmt = c.LogFmt || g.p(10)
	}
	if g.p(6) {
		c.Logger = []string{"default", "none"}[g.n(2)]
	}
	return c
}

// rainProps are those whose histories have no faults of their own; a share of their runs
// has some requests fail or die half way.
var rainProps = map[string]bool{"C01": true, "C07": true, "C08": true, "C14": true}

func rain(c *Case, g *rng) {
	for _, o := range c.Ops {
		if o.Kind != "gate" && o.Kind != "restart" && len(o.Faults) > 0 {
			return
		}
	}
	w := &world{rng: g, c: c}
	share := g.in(3, 25)
	for _, o := range c.Ops {
		if o.Kind == "gate" || o.Kind == "restart" || !g.p(share) {
			continue
		}
		switch {
		case o.isWrite() && g.p(50):
			w.writeFault(o)
		case o.isWrite() && g.p(50):
			w.crashFault(o)
		default:
			w.readFault(o)
		}
		for i := range o.Faults {
			if o.Faults[i].Kind == "full" {
				o.Faults[i].Kind = "err"
			}
		}
	}
	c.Profile += "+faults"
}

var defaultProps = map[string]bool{"C01": true, "C03": true, "C07": true, "C08": true, "C10": true, "C12": true, "C13": true, "C14": true}

// useDefault lets zanzi open its own store: in memory, or LevelDB in a directory. There
// is no seam then, so the run is sequential and without faults; restarts remain.
func useDefault(c *Case, g *rng) {
	for _, o := range c.Ops {
		if o.Client > 0 {
			return
		}
	}
	for _, o := range c.Ops {
		o.Faults, o.Retry, o.FaultTries, o.Cancel = nil, 0, 0, false
	}
	c.Backend = "default-leveldb"
	if g.p(60) && c.Prop != "C03" {
		c.Backend = "default-mem"
	}
}

var bigProps = map[string]bool{"C01": true, "C02": true, "C03": true, "C04": true, "C05": true, "C06": true, "C07": true, "C08": true, "C09": true, "C10": true, "C12": true, "C13": true, "C14": true}

func bigShare(id string) int {
	if id == "C09" {
		return 5
	}
	return 12
}

// genBig makes a run with many relationships or many policies.
func genBig(c *Case, g *rng) {
	c.Profile = "big"
	c.Budget = 2000000
	w := newWorld(c, g.in(1, 2), mostlySimple(g))
	w.fixAt = c.Prop == "C06"
	mix := map[string]int{"find": 10, "findall": 8, "dump": 6, "delrels": 14, "delpol": 8, "check": 10, "expand": 3, "set": 10, "del": 10, "get": 6, "getpol": 4, "list": 6, "update": 3}
	if c.Prop == "C09" || c.Prop == "C14" && g.p(50) || g.p(12) {
		w.style = "large"
		w.ids = plainIds[:2]
		for _, id := range w.pols {
			w.create(id)
			for i := g.in(5, 30); i > 0; i-- {
				w.set(id)
			}
		}
		mix["check"], mix["getpol"], mix["update"], mix["find"] = 30, 10, 8, 20
		switch c.Prop {
		case "C09":
			mix = map[string]int{"set": 20, "badrel": 30, "badpol": 30, "update": 10, "create": 8, "delpol": 3, "getpol": 10}
		case "C14":
			mix["restart"] = 8
		}
		for i := g.in(5, 20); i > 0; i-- {
			w.anyOp(w.pol(), mix)
		}
	} else if c.Prop == "C07" || g.p(30) {
		w.pols = nil
		for i := g.in(12, 140); i > 0; i-- {
			w.pols = append(w.pols, fmt.Sprintf("p%d", i))
		}
		w.ids = plainIds[:2]
		for _, id := range w.pols {
			w.create(id)
			if g.p(10) {
				w.set(id)
			}
		}
		mix = map[string]int{"delpol": 10, "list": 10, "getpol": 8, "create": 6, "update": 6, "set": 5, "findall": 4, "restart": 1}
		if g.p(10) {
			for i := scale(g) - len(w.pols); i > 0; i-- {
				id := fmt.Sprintf("q%d", i)
				w.pols = append(w.pols, id)
				p := &PolSpec{ID: id, Form: "msg", Res: []PRes{{Name: "user"}}}
				w.specs[id], w.cur[id] = []*PolSpec{p}, p
				w.add(&Op{Kind: "create", Spec: p})
			}
			w.list()
		}
	} else if k := g.n(3); k == 0 {
		w.chain(scale(g))
	} else if k == 1 {
		n := scale(g)
		w.wide(n + g.n(n/2+1))
	} else {
		w.big(g.in(60, 260))
	}
	for i := g.in(4, 10); i > 0; i-- {
		id := w.pol()
		if g.p(60) {
			id = w.pols[0]
		}
		op := w.anyOp(id, mix)
		if op.Kind == "restart" || g.p(40) {
			continue
		}
		switch c.Prop {
		case "C02":
			w.readFault(op)
		case "C03":
			w.crashFault(op)
		case "C04":
			w.writeFault(op)
		case "C05", "C10", "C13":
			switch g.n(3) {
			case 0:
				w.crashFault(op)
			case 1:
				w.writeFault(op)
			default:
				w.readFault(op)
			}
			op.FaultTries = 1
			op.Retry = 1
		}
		for k := range op.Faults {
			if g.p(60) {
				op.Faults[k].N = g.n(400)
			}
		}
	}
	w.newPhase()
	w.add(&Op{Kind: "gate"})
	if c.Prop == "C13" {
		if len(w.pols) > 4 {
			w.pols = w.pols[:4]
		}
		w.auditViews(2)
		return
	}
	w.list()
	if len(w.pols) > 12 {
		w.pols = w.distinct(w.pols, 12)
	}
	w.audit(auditAll(), 5)
}

// scale is a number around which something may stop working.
func scale(g *rng) int {
	switch g.weighted(35, 20, 20, 13, 12) {
	case 0:
		return g.in(8, 70)
	case 1:
		return g.in(95, 140)
	case 2:
		return g.in(250, 300)
	case 3:
		return g.in(498, 530)
	}
	return g.in(1000, 1040)
}

// backendFor mixes the simulated store with the real ones.
func backendFor(g *rng, mem, level int) string {
	k := g.n(1000)
	if k < mem {
		return "mem"
	}
	if k < mem+level {
		return "leveldb"
	}
	return "sim"
}

func mostlySimple(g *rng) string {
	if g.p(22) {
		return "full"
	}
	return "simple"
}

// clients draws from kinds by weight for one of the policies.
func (w *world) some(weights map[string]int) *Op { return w.anyOp(w.pol(), weights) }

// populate creates all policies and n relationships in each.
func (w *world) populate(n int) {
	for _, id := range w.pols {
		w.create(id)
		for i := 0; i < n; i++ {
			w.set(id)
		}
	}
}

// ---- C01 -----------------------------------------------------------------------

func genC01(c *Case, g *rng) {
	switch g.weighted(30, 30, 15, 25) {
	case 3: // small worlds full of cycles, asked everything
		c.Profile = "dense"
		c.Backend = backendFor(g, 60, 2)
		w := newWorld(c, 1, "full")
		genDense(w, g)
	case 0: // long sequential history on rich policies
		c.Profile = "sequential"
		c.Backend = backendFor(g, 60, 4)
		w := newWorld(c, 1, "full")
		w.ids = plainIds[:g.in(2, 3)]
		if g.p(20) {
			w.odd(g.p(60))
		}
		if g.p(15) {
			w.wild = 30
		}
		id := w.pols[0]
		w.create(id)
		for k := g.in(1, 3); k > 0; k-- {
			for i := g.in(2, 10); i > 0; i-- {
				w.set(id)
			}
			for i := g.in(2, 10); i > 0; i-- {
				w.check(id)
			}
			if g.p(30) {
				w.del(id)
				w.check(id)
			}
			if g.p(25) {
				w.update(id)
				for i := g.in(1, 5); i > 0; i-- {
					w.check(id)
				}
			}
			if g.p(10) {
				w.delrels(id)
				w.check(id)
			}
		}
	case 1: // checks while relationships and policies change
		c.Profile = "concurrent"
		w := newWorld(c, 1, "full")
		w.ids = plainIds[:2]
		id := w.pols[0]
		w.create(id)
		for i := g.in(2, 7); i > 0; i-- {
			w.set(id)
		}
		for ph := g.in(1, 3); ph > 0; ph-- {
			weights := map[string]int{"set": 40, "del": 40, "update": 10, "delrels": 10}
			if g.p(20) {
				weights = map[string]int{"set": 30, "del": 20, "update": 20, "delpol": 15, "create": 15}
			}
			writers := g.in(1, 2)
			w.conc(writers+g.in(1, 2), 1, 4, func(cl int) *Op {
				if cl < writers {
					return w.some(weights)
				}
				return w.check(id)
			})
		}
	case 2: // two relationships that are never there together, or always one of them
		c.Profile = "swap"
		w := newWorld(c, 1, "full")
		genSwap(w, g)
	}
}

// genDense makes relations that refer to each other and to themselves, relationships that
// close cycles, and then asks about every object, relation and subject.
func genDense(w *world, g *rng) {
	id := w.pols[0]
	w.ids = plainIds[:g.in(1, 2)]
	u := w.resNames[0]
	res := w.resNames[1 : 1+g.weighted(0, 80, 20)]
	rels := append([]string{}, w.relNames[:g.in(2, 5)]...)
	var leaf func() *Expr
	direct, own, far := g.in(10, 40), g.in(20, 60), g.in(0, 40)
	leaf = func() *Expr {
		switch g.weighted(direct, own, far) {
		case 0:
			return &Expr{K: "this"}
		case 1:
			return &Expr{K: "cu", A: pick(g, rels)}
		}
		return &Expr{K: "ttu", A: pick(g, rels), B: pick(g, rels)}
	}
	minus := pick(g, []int{0, 0, 5, 25})
	and := pick(g, []int{0, 25, 50})
	var tree func(d int) *Expr
	tree = func(d int) *Expr {
		if d == 0 || g.p(15) {
			return leaf()
		}
		op := []string{"+", "&", "-"}[g.weighted(50, and, minus)]
		return &Expr{K: "op", Op: op, L: tree(d - 1), R: tree(g.n(d))}
	}
	// In an alias world the relations are unions of one another, some with relationships
	// of their own, and one or two of them combine the others.
	alias := g.p(50)
	probes := 0
	if alias {
		rels = append([]string{}, w.relNames[:g.in(3, min(6, len(w.relNames)))]...)
		probes = g.in(1, min(2, len(rels)-2))
	}
	aliasOf := func(i int) *Expr {
		cu := func() *Expr { return &Expr{K: "cu", A: pick(g, rels[probes:])} }
		if i < probes {
			e := &Expr{K: "op", Op: []string{"&", "-"}[g.n(2)], L: cu(), R: cu()}
			if g.p(25) {
				e = &Expr{K: "op", Op: []string{"&", "-", "+"}[g.n(3)], L: e, R: cu()}
			}
			return e
		}
		var e *Expr
		for k := g.in(1, 3); k > 0; k-- {
			x := cu()
			if g.p(far / 2) {
				x = &Expr{K: "ttu", A: pick(g, rels[probes:]), B: pick(g, rels[probes:])}
			}
			if e == nil {
				e = x
			} else if g.p(85) {
				e = &Expr{K: "op", Op: "+", L: e, R: x}
			} else {
				e = &Expr{K: "op", Op: "&", L: e, R: x}
			}
		}
		if i == len(rels)-1 || g.p(30) {
			e = &Expr{K: "op", Op: "+", L: e, R: &Expr{K: "this"}}
			if g.p(25) {
				e.L, e.R = e.R, e.L
			}
		}
		return e
	}
	make := func() *PolSpec {
		p := &PolSpec{ID: id, Form: "msg", Res: []PRes{{Name: u}}}
		for _, r := range res {
			x := PRes{Name: r}
			for i, rel := range rels {
				e := tree(g.in(0, 3))
				if alias {
					e = aliasOf(i)
				} else if i == 0 && g.p(70) {
					e = &Expr{K: "this"}
				} else if !hasThis(e) && g.p(40) {
					e = &Expr{K: "op", Op: "+", L: e, R: &Expr{K: "this"}}
					if g.p(30) {
						e.L, e.R = e.R, e.L
					}
				}
				x.Rels = append(x.Rels, PRel{Name: rel, Expr: e, Univ: true})
			}
			p.Res = append(p.Res, x)
		}
		w.form(p)
		w.specs[id] = append(w.specs[id], p)
		w.cur[id] = p
		return p
	}
	p := make()
	w.add(&Op{Kind: "create", Spec: p})
	w.wild = pick(g, []int{0, 5})
	users := []string{"alice"}
	if g.p(60) {
		users = append(users, "zoe")
	}
	relate := func() {
		o := Ent{pick(g, res), pick(g, w.ids)}
		rel := pick(g, rels)
		s := Subj{K: "s", R: pick(g, res), I: pick(g, w.ids), Rel: pick(g, rels)}
		switch g.weighted(45, 20, 35) {
		case 0:
			s = Subj{K: "e", R: u, I: pick(g, users)}
		case 1:
			s = Subj{K: "e", R: s.R, I: s.I}
		}
		t := Tuple{o, rel, s}
		w.add(&Op{Kind: "set", Pol: id, T: &t})
	}
	ask := func() {
		for _, r := range res {
			for _, i := range w.ids {
				for _, rel := range rels {
					for _, x := range users {
						w.add(&Op{Kind: "check", Pol: id, O: &Ent{r, i}, Rel: rel, S: &Ent{u, x}})
					}
					if g.p(20) {
						w.add(&Op{Kind: "check", Pol: id, O: &Ent{r, i}, Rel: rel, S: &Ent{pick(g, res), pick(g, w.ids)}})
					}
				}
			}
		}
	}
	for i := g.in(1, 7); i > 0; i-- {
		relate()
	}
	ask()
	for k := g.n(3); k > 0; k-- {
		switch g.n(3) {
		case 0:
			w.add(&Op{Kind: "update", Spec: make()})
		case 1:
			w.del(id)
		default:
			relate()
		}
		ask()
	}
}

// genSwap moves a subject between two relations while checks ask for combinations of them.
func genSwap(w *world, g *rng) {
	id := w.pols[0]
	u, d := w.resNames[0], w.resNames[1]
	a, b, q := w.relNames[0], w.relNames[1], w.relNames[2]
	ops := []string{"&", "-", "+"}
	this := func(rel string) PRel { return PRel{Name: rel, Expr: &Expr{K: "this"}, Univ: true} }
	p := &PolSpec{ID: id, Form: "msg", Res: []PRes{{Name: u}, {Name: d, Rels: []PRel{this(a), this(b),
		{Name: q, Univ: true, Expr: &Expr{K: "op", Op: pick(g, ops), L: &Expr{K: "cu", A: a}, R: &Expr{K: "cu", A: b}}}}}}}
	w.form(p)
	w.specs[id] = []*PolSpec{p}
	w.cur[id] = p
	w.add(&Op{Kind: "create", Spec: p})
	subj := Subj{K: "e", R: u, I: w.ids[0]}
	o := Ent{d, w.ids[1]}
	ta, tb := Tuple{o, a, subj}, Tuple{o, b, subj}
	if g.p(60) {
		w.add(&Op{Kind: "set", Pol: id, T: &ta})
	}
	if g.p(40) {
		w.add(&Op{Kind: "set", Pol: id, T: &tb})
	}
	step := 0
	mode := g.n(4)
	w.conc(g.in(2, 3), 2, 4, func(cl int) *Op {
		if cl == 0 {
			step++
			t := ta
			kind := "set"
			switch mode {
			case 0: // never both
				kind = []string{"del", "set"}[(step-1)%2]
				if (step-1)/2%2 == 0 && kind == "set" || (step-1)/2%2 == 1 && kind == "del" {
					t = tb
				}
			case 1: // never none
				kind = []string{"set", "del"}[(step-1)%2]
				if (step-1)/2%2 == 0 && kind == "set" || (step-1)/2%2 == 1 && kind == "del" {
					t = tb
				}
			case 2:
				kind = pick(g, []string{"set", "del"})
				if g.p(50) {
					t = tb
				}
			default:
				v := w.variant(p)
				if g.p(50) {
					v = copySpec(p)
				}
				if step%2 == 1 {
					return w.add(&Op{Kind: "update", Spec: v})
				}
				kind = pick(g, []string{"set", "del"})
				if g.p(50) {
					t = tb
				}
			}
			return w.add(&Op{Kind: kind, Pol: id, T: &t})
		}
		rel := q
		if g.p(15) {
			rel = pick(g, []string{a, b})
		}
		return w.add(&Op{Kind: "check", Pol: id, O: &Ent{o.R, o.I}, Rel: rel, S: &Ent{u, w.ids[0]}})
	})
}

func judgeC01() *Judge { return judgeOf("check") }

// ---- C02 -----------------------------------------------------------------------

func genC02(c *Case, g *rng) {
	style := "full"
	if g.p(30) {
		style = "simple"
	}
	w := newWorld(c, g.in(1, 2), style)
	w.ids = plainIds[:2]
	w.minus = []int{0, 0, 50}[g.n(3)]
	c.Backend = backendFor(g, 60, 0)
	w.populate(g.in(2, 9))
	if g.p(15) { // writers and failing readers together
		c.Profile = "concurrent"
		w.conc(g.in(2, 3), 1, 3, func(cl int) *Op {
			op := w.some(map[string]int{"check": 30, "set": 20, "del": 15, "find": 15, "get": 10, "list": 5, "getpol": 5})
			if g.p(60) {
				w.readFault(op)
			}
			return op
		})
		w.audit(kindSet("list", "getpol", "find", "check"), 2)
		return
	}
	if g.p(10) {
		c.Profile = "excluded"
		genExcluded(w, g)
		return
	}
	if g.p(20) { // one request, each of its reads failing in turn
		c.Profile = "sweep"
		ks := []string{"check", "check", "check", "explain", "expand", "dump", "find", "get", "getpol", "list", "set", "del", "delrels", "update", "delpol", "create"}
		for k := g.in(1, 3); k > 0; k-- {
			kind := pick(g, ks)
			id := w.pol()
			op := w.opKind(id, kind)
			class := pick(g, []string{"r", "r", "get", "has", "iter", "next"})
			from := g.n(3)
			for n := from; n < from+g.in(4, 14); n++ {
				cp := *op
				cp.Faults = []Fault{{Class: class, N: n, Kind: "err"}}
				if class == "iter" && g.p(30) {
					cp.Faults[0].Kind = "nil"
				}
				w.add(&cp)
			}
		}
		w.audit(kindSet("list", "getpol", "find", "get", "check", "dump"), 2)
		return
	}
	c.Profile = "sequential"
	weights := map[string]int{"check": 40, "explain": 8, "expand": 8, "dump": 8, "find": 12, "get": 8, "list": 6, "getpol": 4, "set": 8, "del": 6, "delrels": 4, "delpol": 3, "create": 3, "update": 3}
	for i := g.in(8, 25); i > 0; i-- {
		op := w.some(weights)
		if g.p(75) {
			w.readFault(op)
			if g.p(15) {
				w.readFault(op)
			}
			if g.p(20) {
				op.Retry, op.FaultTries = 2, 1
			}
		}
	}
	w.audit(kindSet("list", "getpol", "find", "get", "check", "dump"), 3)
}

// genExcluded asks for a subject that one side of a combination grants and the other
// excludes, each read failing in turn.
func genExcluded(w *world, g *rng) {
	id := "px"
	u, d := "user", "doc"
	a, b, q, par := "owner", "banned", "viewer", "parent"
	this := &Expr{K: "this"}
	side := func(rel string) *Expr {
		switch g.n(4) {
		case 0:
			return &Expr{K: "ttu", A: par, B: rel}
		case 1:
			return &Expr{K: "op", Op: "+", L: &Expr{K: "cu", A: rel}, R: &Expr{K: "ttu", A: par, B: rel}}
		case 2:
			return &Expr{K: "op", Op: pick(g, []string{"+", "&"}), L: &Expr{K: "cu", A: rel}, R: &Expr{K: "cu", A: rel}}
		}
		return &Expr{K: "cu", A: rel}
	}
	x := &Expr{K: "op", Op: pick(g, []string{"-", "-", "-", "&", "+"}), L: side(a), R: side(b)}
	if g.p(30) {
		x = &Expr{K: "op", Op: pick(g, []string{"-", "&", "+"}), L: x, R: side(pick(g, []string{a, b}))}
	}
	p := &PolSpec{ID: id, Form: "msg", Res: []PRes{{Name: u}, {Name: d, Rels: []PRel{
		{Name: a, Expr: this, Univ: true}, {Name: b, Expr: this, Univ: true}, {Name: par, Expr: this, Univ: true}, {Name: q, Expr: x, Univ: true}}}}}
	w.form(p)
	w.pols = append(w.pols, id)
	w.specs[id] = []*PolSpec{p}
	w.cur[id] = p
	w.add(&Op{Kind: "create", Spec: p})
	add := func(o, rel string, s Subj) {
		w.add(&Op{Kind: "set", Pol: id, T: &Tuple{O: Ent{d, o}, Rel: rel, S: s}, Data: w.data()})
	}
	alice := Subj{K: "e", R: u, I: "alice"}
	for _, rel := range []string{a, b} {
		for k := g.n(3); k > 0; k-- { // others, before or after the one in question
			add("x", rel, Subj{K: "e", R: u, I: pick(g, []string{"aa", "bob", "zed"})})
		}
		if g.p(90) {
			switch g.n(4) {
			case 0:
				add("x", rel, Subj{K: "s", R: d, I: "y", Rel: rel})
				add("y", rel, alice)
			case 1:
				add("x", rel, Subj{K: "w", R: u})
			default:
				add("x", rel, alice)
			}
		}
	}
	if g.p(70) {
		add("x", par, Subj{K: "e", R: d, I: "f"})
		if g.p(60) {
			add("f", b, alice)
		}
		if g.p(60) {
			add("f", a, alice)
		}
	}
	kind := pick(g, []string{"check", "check", "check", "explain", "expand"})
	op := &Op{Kind: kind, Pol: id, O: &Ent{d, "x"}, Rel: q, S: &Ent{u, "alice"}, Format: g.n(3)}
	if kind == "expand" {
		op = &Op{Kind: kind, Pol: id, Root: &Subj{K: "s", R: d, I: "x", Rel: q}, Format: g.n(3)}
	}
	class := pick(g, []string{"r", "r", "next", "iter", "get", "has"})
	n := 22
	if class == "iter" {
		n = 10
	}
	for i := 0; i < n; i++ {
		cp := *op
		cp.Faults = []Fault{{Class: class, N: i, Kind: "err"}}
		if class == "iter" && g.p(30) {
			cp.Faults[0].Kind = "nil"
		}
		w.add(&cp)
	}
	w.add(op)
}

func evalC02(c *Case) *result {
	o := modelOpts{judge: judgeOf(allKinds), repeat: true}
	res := evalModel(c, o)
	if res.viol == "" {
		return res
	}
	// not about read failures if it also happens without them
	h := *c
	h.Ops = nil
	for _, op := range c.Ops {
		cp := *op
		cp.Faults = nil
		h.Ops = append(h.Ops, &cp)
	}
	ok, err := freshly(&h)
	if err != nil {
		res.err = err
	}
	if !ok {
		res.viol, res.trace, res.skipped = "", nil, true
	}
	return res
}

// ---- C03 -----------------------------------------------------------------------

var writeMix = map[string]int{"set": 40, "del": 18, "delrels": 6, "create": 6, "update": 6, "delpol": 5}

func auditAll() map[string]bool {
	return kindSet("list", "getpol", "find", "get", "check", "dump")
}

func genC03(c *Case, g *rng) {
	w := newWorld(c, g.in(1, 3), mostlySimple(g))
	w.ids = plainIds[:2]
	if g.p(10) {
		w.odd(true)
	}
	c.Backend = backendFor(g, 60, 40)
	w.populate(g.in(0, 4))
	mix := map[string]int{}
	for k, v := range writeMix {
		mix[k] = v
	}
	mix["get"], mix["find"], mix["check"], mix["list"], mix["getpol"] = 4, 4, 4, 2, 2
	mix["badpol"], mix["badrel"] = 3, 3
	if g.p(35) {
		c.Profile = "concurrent"
		for ph := g.in(1, 2); ph > 0; ph-- {
			crash := g.in(0, 3)
			w.conc(g.in(2, 3), 1, 3, func(cl int) *Op {
				op := w.some(mix)
				if crash > 0 && g.p(40) {
					crash--
					w.crashFault(op)
				}
				return op
			})
			w.audit(kindSet("list", "getpol", "find", "get"), 3)
		}
	} else {
		c.Profile = "sequential"
		for ph := g.in(1, 4); ph > 0; ph-- {
			for i := g.in(1, 8); i > 0; i-- {
				op := w.some(mix)
				if g.p(35) {
					w.crashFault(op)
				}
				if g.p(15) {
					op.Retry, op.FaultTries = 1, 1
				}
				if g.p(10) {
					w.add(&Op{Kind: "restart"})
				}
			}
			if g.p(60) {
				w.add(&Op{Kind: "restart"})
			}
			if g.p(60) {
				w.audit(auditAll(), 3)
			}
		}
	}
	w.newPhase()
	w.add(&Op{Kind: "restart"})
	w.audit(auditAll(), 5)
	// the service goes on working
	for i := 0; i < 3; i++ {
		w.some(writeMix)
	}
	w.add(&Op{Kind: "restart"})
	w.audit(auditAll(), 3)
}

// withBad adds requests that must be rejected.
func withBad(m map[string]int) map[string]int {
	n := map[string]int{"badpol": 3, "badrel": 3}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// ---- C04 -----------------------------------------------------------------------

func genC04(c *Case, g *rng) {
	w := newWorld(c, g.in(1, 3), mostlySimple(g))
	w.ids = plainIds[:2]
	c.Backend = backendFor(g, 60, 4)
	w.populate(g.in(0, 4))
	writeMix := withBad(writeMix)
	if g.p(25) {
		c.Profile = "concurrent"
		for ph := g.in(1, 2); ph > 0; ph-- {
			w.conc(g.in(2, 3), 1, 3, func(cl int) *Op {
				op := w.some(writeMix)
				if g.p(50) {
					w.writeFault(op)
				}
				return op
			})
			w.add(&Op{Kind: "gate"})
			w.audit(kindSet("list", "getpol", "find", "get"), 3)
		}
	} else {
		c.Profile = "sequential"
		for ph := g.in(1, 4); ph > 0; ph-- {
			for i := g.in(1, 8); i > 0; i-- {
				op := w.some(writeMix)
				if g.p(55) {
					w.writeFault(op)
					if g.p(15) {
						w.writeFault(op)
					}
				}
			}
			w.add(&Op{Kind: "gate"})
			if g.p(60) {
				w.audit(auditAll(), 3)
			}
		}
	}
	w.newPhase()
	w.add(&Op{Kind: "gate"})
	w.audit(auditAll(), 4)
	for i := 0; i < 4; i++ {
		w.some(writeMix)
	}
	w.audit(auditAll(), 3)
	if g.p(30) {
		w.add(&Op{Kind: "restart"})
		w.audit(auditAll(), 3)
	}
}

// ---- C05 -----------------------------------------------------------------------

func genC05(c *Case, g *rng) {
	w := newWorld(c, g.in(1, 2), mostlySimple(g))
	w.ids = plainIds[:2]
	c.Backend = backendFor(g, 60, 6)
	w.populate(g.in(0, 4))
	c.Profile = "retry"
	var sent []*Op
	one := func() *Op {
		if len(sent) > 0 && g.p(25) { // a duplicate, or a delivery that arrives late
			cp := *pick(g, sent)
			cp.Faults, cp.Retry, cp.Lost = nil, 0, false
			op := w.add(&cp)
			return op
		}
		op := w.some(writeMix)
		if g.p(60) {
			switch g.n(4) {
			case 0:
				w.crashFault(op)
			case 1:
				w.readFault(op)
			default:
				w.writeFault(op)
			}
			op.FaultTries = g.in(1, 3)
			op.Retry = op.FaultTries + g.n(2)
			if g.p(20) {
				op.Retry = 0 // the client gives up
			}
		} else if g.p(40) {
			op.Lost, op.Retry = true, 1
		}
		sent = append(sent, op)
		return op
	}
	conc := g.p(25)
	if conc {
		c.Profile = "concurrent"
		w.conc(g.in(2, 3), 1, 2, func(cl int) *Op {
			op := one()
			if op.Retry > 1 {
				op.Retry, op.FaultTries = 1, 1
			}
			return op
		})
		w.add(&Op{Kind: "gate"})
		w.audit(auditAll(), 3)
	}
	for ph := g.in(1, 3); ph > 0; ph-- {
		for i := g.in(1, 7); i > 0; i-- {
			one()
		}
		w.add(&Op{Kind: "gate"})
		w.audit(auditAll(), 4)
	}
	if g.p(50) {
		w.add(&Op{Kind: "restart"})
		w.audit(auditAll(), 3)
	}
}

// ---- C06 -----------------------------------------------------------------------

func genC06(c *Case, g *rng) {
	style := "simple"
	if g.p(35) {
		style = "full"
	}
	w := newWorld(c, g.in(2, 3), style)
	w.ids = plainIds[:2]
	w.fixAt = true
	c.Backend = backendFor(g, 60, 4)
	switch g.n(3) {
	case 0:
		w.odd(g.p(50))
	case 1: // related ids
		b := pick(g, []string{"p", "a", "1", "x/y", "p/", "*"})
		l := []string{b, b + b, b + "/", "/" + b, b + "/" + b, b + "1", "1" + b, b + "2", "1/" + b, b + "\x00", hexOf(b), b + " ",
			b + "///out", b + "////out", b + "///in", strings.ToUpper(b), "./" + b, b + "/.", b + "//" + b, b + "\n", b + "%", b + "-", b + ":"}
		w.pols = w.distinct(l, len(w.pols))
		if g.p(60) {
			w.ids = w.distinct(append(l, plainIds...), 2)
		}
		if g.p(40) {
			w.resNames = append(w.distinct(append(l, plainRes...), 3), "r4", "r5")
		}
	}
	mix := map[string]int{"set": 30, "del": 10, "delrels": 6, "create": 6, "update": 5, "delpol": 5, "get": 10, "find": 12, "check": 14, "getpol": 4, "dump": 4, "expand": 2, "explain": 2}
	// policies share their relationships' names: same tuples under all of them
	shared := g.p(60)
	for _, id := range w.pols {
		if g.p(85) {
			if shared && len(w.specs) > 0 {
				p := copySpec(w.specs[w.pols[0]][0])
				if g.p(50) { // the same names, defined otherwise
					p = w.variant(p)
				}
				p.ID = id
				p.done, p.msg, p.valid = false, nil, ""
				w.form(p)
				w.specs[id] = []*PolSpec{p}
				w.cur[id] = p
				w.add(&Op{Kind: "create", Spec: p, Data: w.data()})
			} else {
				w.create(id)
			}
		} else {
			w.specFor(id)
		}
	}
	twin := func() {
		// the same relationship under another policy
		if shared && g.p(35) {
			var l []*Op
			for _, o := range c.Ops {
				if o.T != nil {
					l = append(l, o)
				}
			}
			if len(l) > 0 {
				cp := *pick(g, l)
				cp.Kind = pick(g, []string{"set", "set", "del", "get"})
				cp.Pol = w.pol()
				cp.Data = w.data()
				w.add(&cp)
				return
			}
		}
		w.some(mix)
	}
	if g.p(25) {
		c.Profile = "concurrent"
		for i := g.in(0, 6); i > 0; i-- {
			twin()
		}
		w.newPhase()
		n := g.in(2, 5)
		for cl, id := range w.pols {
			for i := 0; i < n; i++ {
				op := w.anyOp(id, mix)
				op.Client = cl + 1
			}
		}
		w.newPhase()
	} else {
		c.Profile = "sequential"
		for i := g.in(8, 30); i > 0; i-- {
			twin()
		}
	}
	w.audit(kindSet("getpol", "find", "get", "check", "dump"), 4)
}

func hexOf(s string) string { return fmt.Sprintf("%x", s) }

// ---- C07 -----------------------------------------------------------------------

func genC07(c *Case, g *rng) {
	w := newWorld(c, g.in(1, 4), "simple")
	w.ids = plainIds[:2]
	if g.p(25) {
		w.odd(g.p(50))
	}
	c.Backend = backendFor(g, 60, 4)
	mix := map[string]int{"create": 30, "update": 18, "delpol": 18, "getpol": 18, "list": 10, "badpol": 8, "set": 8}
	if g.p(55) {
		c.Profile = "concurrent"
		for i := g.n(4); i > 0; i-- {
			w.some(mix)
		}
		for ph := g.in(1, 3); ph > 0; ph-- {
			if g.p(40) { // everybody wants the same id
				id := w.pol()
				kinds := pick(g, []map[string]int{{"create": 1}, {"create": 3, "delpol": 1}, {"create": 2, "update": 2, "delpol": 1, "getpol": 1}, {"update": 1, "delpol": 1, "getpol": 1}})
				w.conc(g.in(2, 4), 1, 2, func(int) *Op { return w.anyOp(id, kinds) })
			} else {
				w.conc(g.in(2, 4), 1, 3, func(int) *Op { return w.some(mix) })
			}
			w.audit(kindSet("list", "getpol"), 0)
		}
	} else {
		c.Profile = "sequential"
		for i := g.in(5, 40); i > 0; i-- {
			op := w.some(mix)
			if g.p(5) {
				w.add(&Op{Kind: "restart"})
			}
			_ = op
		}
	}
	w.audit(kindSet("list", "getpol"), 0)
}

// ---- C08 -----------------------------------------------------------------------

func genC08(c *Case, g *rng) {
	style := "simple"
	if g.p(50) {
		style = "full"
	}
	w := newWorld(c, g.in(1, 2), style)
	w.ids = plainIds[:g.in(2, 3)]
	w.wild = 15
	if g.p(20) {
		w.odd(g.p(50))
	}
	c.Backend = backendFor(g, 60, 4)
	for _, id := range w.pols {
		w.create(id)
	}
	if g.p(50) {
		c.Profile = "concurrent"
		for i := g.n(5); i > 0; i-- {
			w.some(map[string]int{"set": 1})
		}
		for ph := g.in(1, 3); ph > 0; ph-- {
			mix := pick(g, []map[string]int{
				{"set": 30, "del": 25, "get": 20, "find": 15, "delrels": 10},
				{"set": 1, "del": 1},
				{"set": 3, "del": 3, "find": 2, "findall": 2},
				{"set": 3, "delrels": 2, "get": 2, "delpol": 1, "create": 1},
			})
			hot := w.known(w.pols[0])
			same := g.p(50)
			w.conc(g.in(2, 4), 1, 3, func(int) *Op {
				op := w.some(mix)
				if same && op.T != nil && g.p(70) {
					t := hot
					op.T = &t
					op.Pol = w.pols[0]
				}
				return op
			})
			w.audit(kindSet("find", "get"), 4)
		}
	} else {
		c.Profile = "sequential"
		mix := map[string]int{"set": 34, "del": 12, "delrels": 6, "get": 14, "find": 30, "findall": 4, "update": 2, "badrel": 4}
		for i := g.in(10, 60); i > 0; i-- {
			w.some(mix)
		}
		if g.p(20) {
			w.add(&Op{Kind: "restart"})
		}
	}
	w.audit(kindSet("find", "get"), 5)
}

// ---- C09 -----------------------------------------------------------------------

func genC09(c *Case, g *rng) {
	w := newWorld(c, g.in(1, 2), "full")
	w.ids = plainIds[:2]
	if g.p(20) {
		w.odd(g.p(60))
	}
	w.wild = 15
	c.Backend = backendFor(g, 60, 0)
	for _, id := range w.pols {
		if g.p(80) {
			w.create(id)
		}
	}
	if g.p(40) {
		c.Profile = "concurrent"
		for ph := g.in(1, 3); ph > 0; ph-- {
			w.conc(g.in(2, 3), 1, 3, func(int) *Op {
				return w.some(map[string]int{"set": 25, "badrel": 30, "update": 25, "delpol": 10, "create": 10, "badpol": 10, "malformed": 4})
			})
			w.audit(kindSet("list", "getpol", "find", "get"), 5)
		}
	} else {
		c.Profile = "sequential"
		mix := map[string]int{"set": 12, "badrel": 40, "badpol": 30, "update": 10, "create": 8, "delpol": 3, "malformed": 6}
		faults := g.p(30)
		if faults {
			c.Profile = "faults"
		}
		for i := g.in(10, 40); i > 0; i-- {
			op := w.some(mix)
			op.Wire = g.p(10)
			if faults && op.isWrite() && g.p(40) {
				if g.p(50) {
					w.crashFault(op)
				} else {
					w.writeFault(op)
				}
				w.add(&Op{Kind: "gate"})
				if g.p(50) {
					w.audit(kindSet("getpol", "find"), 2)
				}
			}
		}
		w.add(&Op{Kind: "gate"})
	}
	w.audit(kindSet("list", "getpol", "find", "get"), 6)
}

func judgeC09() *Judge {
	j := judgeOf("create update set getpol list get find")
	j.flags = false
	return j
}

// ---- C10 -----------------------------------------------------------------------

func genC10(c *Case, g *rng) {
	w := newWorld(c, g.in(1, 2), mostlySimple(g))
	w.ids = plainIds[:2]
	if g.p(20) {
		w.odd(true)
	}
	c.Backend = backendFor(g, 60, 6)
	w.populate(g.in(1, 6))
	fault := func(op *Op) {
		switch g.n(5) {
		case 0, 1:
			w.crashFault(op)
		case 2, 3:
			w.writeFault(op)
		default:
			w.readFault(op)
		}
		op.FaultTries = g.in(1, 2)
		if g.p(75) {
			op.Retry = op.FaultTries + 1
		}
	}
	for ph := g.in(1, 3); ph > 0; ph-- {
		id := w.pol()
		for g.p(30) { // relationships that the policy no longer defines
			w.redefine(id)
		}
		if g.p(40) {
			c.Profile = "concurrent"
			mix := map[string]int{"set": 40, "del": 10, "delrels": 5, "create": 10, "update": 5}
			if g.p(35) {
				mix = map[string]int{"delpol": 25, "set": 15, "create": 10, "find": 15, "get": 10, "check": 10, "dump": 10, "getpol": 5, "list": 5}
			}
			w.conc(g.in(2, 3), 1, 3, func(cl int) *Op {
				var op *Op
				if cl == 0 {
					op = w.anyOp(id, map[string]int{"delpol": 3, "create": 1})
				} else {
					op = w.anyOp(id, mix)
				}
				if op.Kind == "delpol" && g.p(30) {
					fault(op)
					op.Retry, op.FaultTries = min(op.Retry, 1), 1
				}
				return op
			})
			w.add(&Op{Kind: "gate"})
		} else {
			if c.Profile == "" {
				c.Profile = "sequential"
			}
			op := w.delpol(id)
			if g.p(60) {
				fault(op)
			}
			w.add(&Op{Kind: "gate"})
		}
		if g.p(50) {
			w.audit(auditAll(), 4)
		}
		if g.p(80) {
			w.create(id)
			w.audit(auditAll(), 5)
			for i := g.n(4); i > 0; i-- {
				w.set(id)
			}
		}
		if g.p(20) {
			w.add(&Op{Kind: "restart"})
		}
	}
	w.audit(auditAll(), 5)
}

func judgeC10() *Judge { return judgeOf("delpol getpol list get find check dump") }

// ---- C11 -----------------------------------------------------------------------

func genC11(c *Case, g *rng) {
	style := "simple"
	if g.p(50) {
		style = "full"
	}
	w := newWorld(c, g.in(1, 3), style)
	w.ids = plainIds[:g.in(2, 4)]
	w.wild = 20
	c.Backend = backendFor(g, 60, 4)
	c.Profile = "rename"
	w.populate(g.in(2, 8))
	mix := map[string]int{"set": 25, "del": 8, "delrels": 6, "create": 2, "update": 3, "delpol": 3, "get": 12, "find": 16, "check": 25, "getpol": 4, "dump": 6, "expand": 5, "explain": 5, "list": 4, "badrel": 4}
	for i := g.in(8, 30); i > 0; i-- {
		w.some(mix)
	}
	w.audit(kindSet("list", "getpol", "find", "get", "check", "dump", "expand"), 4)
	// the renaming
	m := map[string]map[string]string{"pol": {}, "res": {}, "rel": {}, "id": {}}
	assign := func(kind string, from, pool []string) {
		to := w.distinct(pool, len(from))
		for i, x := range from {
			m[kind][x] = to[i]
		}
	}
	pool := oddNames
	if g.p(30) { // a few names only, used for everything
		n := g.in(8, 12)
		pool = w.distinct(oddNames, n)
	}
	if g.p(40) {
		// names made of each other
		a, b := pick(g, oddNames), pick(g, oddNames)
		pool = append([]string{a, b, a + b, b + a, a + a, b + b, a + "/" + b, a + ":" + b, a + "#" + b, a + b + a, b + a + b, a + a + b}, oddNames...)
		pool = pool[:g.in(10, 20)]
	}
	if g.p(30) { // names whose concatenations coincide
		pool = family(g, pick(g, []string{"a", "a", "b", "user", "é"}), pick(g, joints), 9)
		if g.p(30) {
			pool = append(pool, "*")
		}
	}
	if g.p(8) { // long names with a long beginning in common
		stem := strings.Repeat("a", pick(g, []int{30, 31, 32, 62, 64, 127, 128, 200, 254, 255, 256, 300, 512, 800}))
		pool = nil
		for _, x := range []string{"", "a", "b", "aa", "ab", "ba", "bb", "aaa", "bbb", "abab"} {
			pool = append(pool, stem+x)
		}
	}
	if len(uniq(pool)) < 9 {
		pool = oddNames
	}
	assign("pol", w.pols, pool)
	assign("res", plainRes, pool)
	if g.p(50) {
		assign("rel", plainRel, oddIdents)
	} else {
		assign("rel", plainRel, pool)
	}
	assign("id", plainIds, pool)
	c.Rename = m
}

func uniq(l []string) []string {
	seen := map[string]bool{}
	var res []string
	for _, x := range l {
		if !seen[x] {
			seen[x] = true
			res = append(res, x)
		}
	}
	return res
}

// ---- C12 -----------------------------------------------------------------------

func genC12(c *Case, g *rng) {
	c.LogFmt = g.p(30)
	c.Strict = c.Seed%4 == 0
	c.Backend = backendFor(g, 250, 5)
	switch g.weighted(35, 25, 25, 15) {
	case 0:
		c.Profile = "malformed"
		w := newWorld(c, 2, "full")
		w.ids = plainIds[:2]
		w.wild = 25
		for _, id := range w.pols {
			if g.p(85) {
				w.create(id)
			}
			for i := g.n(5); i > 0; i-- {
				w.set(id)
			}
		}
		mix := map[string]int{"malformed": 60, "badpol": 12, "badrel": 10, "check": 6, "explain": 3, "expand": 3, "dump": 3, "find": 3, "set": 6}
		for i := g.in(10, 40); i > 0; i-- {
			op := w.some(mix)
			op.Wire = g.p(15)
			op.Print = g.p(10)
			op.Cancel = g.p(5)
			if g.p(10) {
				w.readFault(op)
			}
		}
		w.add(&Op{Kind: "gate"})
		w.audit(kindSet("check", "find", "get"), 3)
		w.probe()
	case 1:
		c.Profile = "graphs"
		w := newWorld(c, 1, "full")
		w.wild = 20
		genGraph(w, g)
		w.probe()
	case 2:
		c.Profile = "concurrent"
		w := newWorld(c, 2, "full")
		w.ids = plainIds[:2]
		w.populate(g.in(0, 4))
		mix := map[string]int{"set": 16, "del": 8, "delrels": 6, "create": 8, "update": 6, "delpol": 8, "get": 6, "find": 8, "check": 14, "getpol": 4, "dump": 6, "expand": 5, "explain": 5, "list": 6, "malformed": 12, "badpol": 4}
		for ph := g.in(1, 3); ph > 0; ph-- {
			w.conc(g.in(2, 5), 1, 5, func(int) *Op {
				op := w.some(mix)
				if g.p(20) {
					w.readFault(op)
				} else if g.p(15) {
					w.writeFault(op)
				} else if g.p(4) {
					w.crashFault(op)
				}
				op.Cancel = g.p(4)
				return op
			})
		}
		w.add(&Op{Kind: "gate"})
		w.probe()
	case 3:
		c.Profile = "faults"
		w := newWorld(c, 2, "full")
		w.ids = plainIds[:2]
		w.populate(g.in(1, 6))
		mix := map[string]int{"set": 16, "del": 10, "delrels": 8, "create": 6, "update": 6, "delpol": 6, "get": 6, "find": 8, "check": 14, "getpol": 4, "dump": 8, "expand": 6, "explain": 6, "list": 8}
		for i := g.in(10, 30); i > 0; i-- {
			op := w.some(mix)
			switch g.n(4) {
			case 0:
				w.writeFault(op)
			case 1, 2:
				w.readFault(op)
			}
			op.Cancel = g.p(5)
		}
		w.add(&Op{Kind: "gate"})
		w.audit(kindSet("check", "find", "get"), 3)
		w.probe()
	}
}

// probe adds ordinary requests that have to succeed.
func (w *world) probe() {
	w.newPhase()
	p := &PolSpec{ID: "probe policy", Form: "msg", Res: []PRes{{Name: "u"}, {Name: "d", Rels: []PRel{{Name: "r", Form: "tree", Expr: &Expr{K: "this"}, Univ: true}}}}}
	t := Tuple{O: Ent{"d", "1"}, Rel: "r", S: Subj{K: "e", R: "u", I: "1"}}
	tag := func(op *Op) { w.add(op).Tag = "probe" }
	tag(&Op{Kind: "create", Spec: p})
	tag(&Op{Kind: "set", Pol: p.ID, T: &t})
	tag(&Op{Kind: "check", Pol: p.ID, O: &Ent{"d", "1"}, Rel: "r", S: &Ent{"u", "1"}})
	tag(&Op{Kind: "find", Pol: p.ID, Sel: &Sel{OK: "any", RK: "any", SK: "any"}})
	tag(&Op{Kind: "dump", Pol: p.ID})
	tag(&Op{Kind: "list"})
	tag(&Op{Kind: "delpol", Pol: p.ID})
}

// genGraph makes big regular graphs: layered diamonds, cycles, chains, cliques.
func genGraph(w *world, g *rng) {
	id := w.pols[0]
	u, d := w.resNames[0], w.resNames[1]
	r, q, par := w.relNames[0], w.relNames[1], w.relNames[2]
	var x *Expr
	this := &Expr{K: "this"}
	switch g.n(5) {
	case 0:
		x = this
	case 1:
		x = &Expr{K: "op", Op: "+", L: this, R: &Expr{K: "ttu", A: par, B: q}}
	case 2:
		x = &Expr{K: "op", Op: "-", L: &Expr{K: "op", Op: "+", L: &Expr{K: "cu", A: r}, R: &Expr{K: "ttu", A: par, B: q}}, R: &Expr{K: "cu", A: r}}
	case 3:
		x = &Expr{K: "op", Op: "&", L: &Expr{K: "op", Op: "+", L: this, R: &Expr{K: "ttu", A: par, B: q}}, R: &Expr{K: "op", Op: "+", L: this, R: &Expr{K: "ttu", A: par, B: q}}}
	default:
		x = &Expr{K: "op", Op: "+", L: &Expr{K: "cu", A: q}, R: &Expr{K: "ttu", A: par, B: q}}
	}
	p := &PolSpec{ID: id, Form: "msg", Res: []PRes{{Name: u}, {Name: d, Rels: []PRel{
		{Name: r, Expr: this, Univ: true}, {Name: q, Expr: x, Univ: true}, {Name: par, Expr: this, Univ: true}}}}}
	w.form(p)
	w.specs[id] = []*PolSpec{p}
	w.cur[id] = p
	w.add(&Op{Kind: "create", Spec: p})
	node := func(l, i int) string { return fmt.Sprintf("n%d_%d", l, i) }
	mixed := 15
	if g.p(50) {
		mixed = 0
	}
	edge := func(l1, i1, l2, i2 int) {
		t := Tuple{O: Ent{d, node(l1, i1)}, Rel: q, S: Subj{K: "s", R: d, I: node(l2, i2), Rel: q}}
		if g.p(mixed) {
			t.Rel, t.S.Rel = r, r
		}
		w.add(&Op{Kind: "set", Pol: id, T: &t})
		if x.K == "op" {
			t2 := Tuple{O: Ent{d, node(l1, i1)}, Rel: par, S: Subj{K: "e", R: d, I: node(l2, i2)}}
			w.add(&Op{Kind: "set", Pol: id, T: &t2})
		}
	}
	last := 0
	switch g.n(4) {
	case 0: // diamonds
		layers, width := g.in(15, 22), 2
		for l := 0; l < layers; l++ {
			for i := 0; i < width; i++ {
				for j := 0; j < width; j++ {
					edge(l, i, l+1, j)
				}
			}
		}
		last = layers
		switch g.n(5) {
		case 0, 1:
			edge(layers, 0, g.n(layers), 0)
		case 2: // everything depends on the root
			edge(layers, 0, 0, 0)
			edge(layers, 1, 0, 0)
		}
	case 1: // a cycle with chords
		n := g.in(5, 40)
		for i := 0; i < n; i++ {
			edge(i, 0, (i+1)%n, 0)
			if g.p(25) {
				edge(i, 0, g.n(n), 0)
			}
		}
		last = n - 1
	case 2: // a clique
		n := g.in(4, 9)
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				edge(i, 0, j, 0)
			}
		}
		last = n - 1
	case 3: // a chain
		n := g.in(20, 120)
		for i := 0; i < n; i++ {
			edge(i, 0, i+1, 0)
		}
		last = n
	}
	if g.p(60) {
		t := Tuple{O: Ent{d, node(last, 0)}, Rel: pick(g, []string{q, r}), S: Subj{K: "e", R: u, I: "alice"}}
		w.add(&Op{Kind: "set", Pol: id, T: &t})
	}
	o := Ent{d, node(0, 0)}
	w.add(&Op{Kind: "check", Pol: id, O: &o, Rel: q, S: &Ent{u, "alice"}})
	w.add(&Op{Kind: "explain", Pol: id, O: &o, Rel: q, S: &Ent{u, "nobody"}, Format: g.n(3)})
	w.add(&Op{Kind: "expand", Pol: id, Root: &Subj{K: "s", R: d, I: node(0, 0), Rel: q}, Format: g.n(3)})
	w.dump(id)
	w.findAll(id)
}

// ---- C13 -----------------------------------------------------------------------

func (w *world) auditViews(n int) {
	w.newPhase()
	from := len(w.c.Ops)
	tag := fmt.Sprintf("audit%d", w.phase)
	w.list()
	for _, id := range w.pols {
		if len(w.specs[id]) == 0 {
			w.specFor(id)
		}
		w.getpol(id)
		w.findAll(id)
		ts := w.mentioned(id)
		shuffle(w.rng, ts)
		for i, t := range ts {
			if i >= 8 {
				break
			}
			t := t
			w.add(&Op{Kind: "get", Pol: id, T: &t})
		}
		w.dump(id)
		for i := 0; i < n; i++ {
			c := w.check(id)
			for f := 0; f < 3; f++ {
				w.add(&Op{Kind: "explain", Pol: id, O: &Ent{c.O.R, c.O.I}, Rel: c.Rel, S: &Ent{c.S.R, c.S.I}, Format: f})
			}
			e := w.expand(id)
			f := e.Format
			if f != 0 {
				cp := *e
				cp.Format = 3 - f
				w.add(&cp)
			}
		}
	}
	for _, o := range w.c.Ops[from:] {
		o.Tag = tag
	}
	w.newPhase()
}

// evalC13 compares the views with each other, or, where they are taken beside writes, with
// the reference.
func evalC13(c *Case) *result {
	if c.Profile == "live" {
		j := judgeOf("check explain expand dump find get")
		j.names = true
		return evalModel(c, modelOpts{judge: j})
	}
	return evalViews(c)
}

// genLive makes views that are taken while relationships and policies change.
func genLive(c *Case, g *rng) {
	c.Profile = "live"
	w := newWorld(c, 1, "full")
	w.ids = plainIds[:2]
	w.wild = 12
	id := w.pols[0]
	w.create(id)
	for i := g.in(2, 7); i > 0; i-- {
		w.set(id)
	}
	views := map[string]int{"explain": 30, "expand": 30, "dump": 25, "find": 8, "get": 4, "check": 8}
	for ph := g.in(1, 3); ph > 0; ph-- {
		weights := map[string]int{"set": 40, "del": 40, "update": 10, "delrels": 10}
		if g.p(20) {
			weights = map[string]int{"set": 30, "del": 20, "update": 20, "delpol": 15, "create": 15}
		}
		writers := g.in(1, 2)
		w.conc(writers+g.in(1, 2), 1, 4, func(cl int) *Op {
			if cl < writers {
				return w.some(weights)
			}
			return w.some(views)
		})
	}
}

func genC13(c *Case, g *rng) {
	if g.p(30) {
		genLive(c, g)
		return
	}
	style := "full"
	if g.p(25) {
		style = "simple"
	}
	w := newWorld(c, g.in(1, 2), style)
	w.ids = plainIds[:g.in(2, 3)]
	w.wild = 12
	if g.p(25) {
		w.odd(g.p(60))
	}
	c.Backend = backendFor(g, 60, 4)
	w.populate(g.in(2, 9))
	if g.p(40) {
		w.auditViews(2)
	}
	mode := g.n(4)
	c.Profile = []string{"healthy", "writefaults", "crashes", "concurrent"}[mode]
	for ph := g.in(1, 3); ph > 0; ph-- {
		if mode == 3 {
			w.conc(g.in(2, 3), 1, 3, func(int) *Op { return w.some(writeMix) })
		} else {
			for i := g.in(2, 8); i > 0; i-- {
				op := w.some(writeMix)
				if mode == 1 && g.p(60) {
					w.writeFault(op)
				}
				if mode == 2 && g.p(50) {
					w.crashFault(op)
				}
			}
		}
		w.add(&Op{Kind: "gate"})
		w.auditViews(2)
	}
	if g.p(20) {
		w.add(&Op{Kind: "restart"})
		w.auditViews(2)
	}
}

// ---- C14 -----------------------------------------------------------------------

func genC14(c *Case, g *rng) {
	w := newWorld(c, g.in(1, 3), "full")
	w.ids = plainIds[:2]
	w.wild = 15
	if g.p(35) {
		if g.p(50) {
			w.yamlOdd()
		} else {
			w.odd(g.p(70))
		}
	}
	c.Backend = backendFor(g, 80, 10)
	c.Profile = "sequential"
	dress := func(op *Op) *Op {
		if op.Spec != nil {
			if !op.same && (op.Kind == "create" || g.p(70)) {
				w.decorate(op.Spec)
			}
			op.Spec.done = false
		}
		if op.isWrite() && g.p(50) && !(op.same && g.p(50)) {
			op.Data = pick(g, oddData)
			if g.p(2) {
				op.Data = w.bigData()
			}
		}
		op.Wire = g.p(15)
		op.Print = g.p(15)
		op.Scribble = g.p(35)
		if g.p(20) {
			op.Jump = int64(g.in(-2000, 2000)) * 1_000_000_000 * int64(g.in(1, 100000))
		}
		return op
	}
	for _, id := range w.pols {
		dress(w.create(id))
		for i := g.n(4); i > 0; i-- {
			dress(w.set(id))
		}
	}
	mix := map[string]int{"set": 25, "del": 6, "create": 5, "update": 14, "delpol": 3, "get": 20, "findall": 10, "getpol": 20, "restart": 5}
	if g.p(25) {
		c.Profile = "concurrent"
		delete(mix, "restart")
		w.conc(g.in(2, 3), 1, 3, func(int) *Op { return dress(w.some(mix)) })
	} else {
		for i := g.in(8, 30); i > 0; i-- {
			op := w.some(mix)
			if op.Kind != "restart" {
				dress(op)
				if g.p(6) && op.isWrite() {
					w.crashFault(op)
				}
			}
		}
	}
	w.audit(kindSet("getpol", "find", "get"), 5)
	if g.p(60) {
		w.add(&Op{Kind: "restart"})
		w.audit(kindSet("getpol", "find", "get"), 5)
	}
}

func judgeC14() *Judge {
	j := judgeOf("create update getpol get find set")
	j.flags, j.times, j.admit = false, true, false
	return j
}

// ---- C15 -----------------------------------------------------------------------

func genC15(c *Case, g *rng) {
	style := "full"
	if g.p(40) {
		style = "simple"
	}
	w := newWorld(c, g.in(1, 2), style)
	w.ids = plainIds[:2]
	w.wild = 12
	w.fixAt = true
	c.Backend = backendFor(g, 60, 4)
	w.populate(g.in(0, 5))
	mix := map[string]int{"set": 30, "del": 10, "delrels": 4, "create": 6, "update": 6, "delpol": 4, "get": 8, "find": 10, "check": 12, "getpol": 4, "dump": 3, "list": 2}
	queries := map[string]int{"check": 20, "explain": 10, "expand": 10, "dump": 8, "find": 12, "get": 12, "getpol": 8, "list": 6, "malformed": 10}
	rejected := map[string]int{"badpol": 5, "badrel": 5, "malformed": 5}
	extra := func() *Op {
		var op *Op
		if g.p(70) {
			op = w.some(queries)
			if !op.isWrite() {
				if g.p(25) {
					w.readFault(op)
				}
				if g.p(6) {
					op.Faults = append(op.Faults, Fault{Class: "r", N: g.n(8), Kind: "crash"})
				}
				op.Cancel = g.p(4)
			}
		} else {
			op = w.some(rejected)
		}
		op.Extra = true
		return op
	}
	rej := map[*Op]bool{}
	if g.p(25) {
		c.Profile = "concurrent"
		w.newPhase()
		for i := g.in(2, 4); i > 0; i-- {
			w.some(mix).Client = 1
		}
		for cl := 2; cl <= g.in(2, 3); cl++ {
			for i := g.in(1, 4); i > 0; i-- {
				op := w.some(queries)
				if op.isWrite() {
					// rejected for sure, whatever runs beside it
					op.Kind, op.Spec, op.T, op.Bad = "list", nil, nil, ""
				}
				op.Extra = true
				op.Client = cl
			}
		}
		w.newPhase()
	} else {
		c.Profile = "sequential"
		faulty := g.p(50)
		for i := g.in(6, 20); i > 0; i-- {
			op := w.some(mix)
			if faulty && op.isWrite() && g.p(35) {
				if g.p(75) {
					w.writeFault(op)
				} else {
					w.crashFault(op)
				}
				if op.T != nil && g.p(70) { // somebody looks at what was left
					t := *op.T
					x := &Op{Kind: "get", Pol: op.Pol, T: &t, Extra: true}
					if g.p(40) {
						s := w.sel(t)
						x = &Op{Kind: "find", Pol: op.Pol, Sel: s, Extra: true}
					}
					w.add(x)
				}
			}
			for g.p(55) {
				rej[extra()] = true
			}
			if g.p(25) { // the same query twice
				op := w.some(queries)
				if !op.isWrite() {
					op.Extra = true
					cp := *op
					w.add(&cp)
				} else {
					op.Extra = true
				}
			}
		}
	}
	w.audit(kindSet("list", "getpol", "find", "get", "check", "dump"), 4)
	markRejected(c)
}

// markRejected keeps as inserted requests only those that the reference surely rejects.
func markRejected(c *Case) {
	st := newTracker(judgeOf(""))
	_ = st
	for _, o := range c.Ops {
		if !o.Extra || !o.isWrite() {
			continue
		}
		sure := false
		switch o.Kind {
		case "create", "update":
			o.Spec.prepare()
			sure = o.Spec.valid != ""
		case "set":
			sure = o.Bad != ""
			if !sure { // no version of the policy ever admits it
				sure = true
				for _, x := range c.Ops {
					if x.Spec != nil && x.Spec.ID == o.Pol && x.Spec.admits(o.T, "") {
						sure = false
					}
				}
			}
		case "del", "delrels":
			sure = o.Bad != ""
		}
		if !sure {
			o.Extra = false
		}
	}
}

// ---- table ---------------------------------------------------------------------

var props = []*prop{
	{id: "C01", quick: 20000, rule: "seeded policies with nested expressions and relationship graphs (diamonds, cycles, wildcards), Checks alone, beside concurrent writes, and across policy swaps; non-trivial: at least one Check answer compared with the least-fixpoint reference", gen: genC01, eval: func(c *Case) *result { return evalModel(c, modelOpts{judge: judgeC01()}) }},
	{id: "C02", quick: 20000, rule: "seeded histories with read errors, failing and truncated iterations inside requests; non-trivial: at least one response judged against the reference", gen: genC02, eval: evalC02},
	{id: "C03", quick: 15000, rule: "seeded write histories with a process death before or after chosen storage operations, restart, then an audit of every view; non-trivial: at least one response judged", gen: genC03, eval: func(c *Case) *result { return evalModel(c, modelOpts{judge: judgeOf(allKinds)}) }},
	{id: "C04", quick: 15000, rule: "seeded write histories with write errors, errors after applying, lost writes and full-disk periods, then an audit of every view; non-trivial: at least one response judged", gen: genC04, eval: func(c *Case) *result { return evalModel(c, modelOpts{judge: judgeOf(allKinds)}) }},
	{id: "C05", quick: 20000, rule: "seeded histories whose failed, duplicated and late requests are delivered again; non-trivial: at least one response judged", gen: genC05, eval: func(c *Case) *result { return evalModel(c, modelOpts{judge: judgeOf(allKinds)}) }},
	{id: "C06", quick: 14000, rule: "seeded histories over several policies with related ids and shared names, each compared with its projection to one policy; non-trivial: at least one response compared", gen: genC06, eval: evalIsolate},
	{id: "C07", quick: 36000, rule: "seeded policy requests of several clients interleaved at storage operations, linearizability search against a map; non-trivial: at least one response judged", gen: genC07, eval: func(c *Case) *result { return evalModel(c, modelOpts{judge: judgeOf(polKinds)}) }},
	{id: "C08", quick: 18000, rule: "seeded relationship requests and selectors of several clients interleaved at storage operations, linearizability search; non-trivial: at least one response judged", gen: genC08, eval: func(c *Case) *result { return evalModel(c, modelOpts{judge: judgeOf(relKinds)}) }},
	{id: "C09", quick: 36000, rule: "seeded good and damaged policies and relationships, also while the policy is replaced; non-trivial: at least one admission judged", gen: genC09, eval: func(c *Case) *result { return evalModel(c, modelOpts{judge: judgeC09()}) }},
	{id: "C10", quick: 18000, rule: "seeded policy deletions under write failures, crashes, retries, concurrent writes and recreation; non-trivial: at least one response judged", gen: genC10, eval: func(c *Case) *result { return evalModel(c, modelOpts{judge: judgeC10()}) }},
	{id: "C11", quick: 12000, rule: "seeded histories run twice, with plain names and under an injective renaming to awkward names; non-trivial: at least one response compared", gen: genC11, eval: evalRename},
	{id: "C12", quick: 8000, rule: "seeded malformed requests, cyclic and deep graphs, faults, crashes and lock contention, with probes of ordinary requests; non-trivial: at least one request watched to its end", gen: genC12, eval: evalComplete},
	{id: "C13", quick: 12000, rule: "seeded histories with faults and crashes followed by audits in which all views are compared, and views taken beside concurrent writes compared with the reference at one instant; non-trivial: at least one pair of views compared", gen: genC13, eval: evalC13},
	{id: "C14", quick: 30000, rule: "seeded writes with awkward contents, forms, clock jumps, restarts and requests reused by the caller; non-trivial: at least one record compared", gen: genC14, eval: func(c *Case) *result { return evalModel(c, modelOpts{judge: judgeC14(), mutated: true}) }},
	{id: "C15", quick: 12000, rule: "seeded histories run with and without inserted queries and rejected requests (also failing and crashing ones), store contents and responses compared; non-trivial: at least one response or store content compared", gen: genC15, eval: evalInsert},
}

func propByID(id string) *prop {
	for _, p := range props {
		if p.id == id {
			return p
		}
	}
	return nil
}
