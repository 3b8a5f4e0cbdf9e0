package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode"
)

// world is what the clients of one case talk about.
type world struct {
	*rng
	c     *Case
	phase int
	pols  []string
	specs map[string][]*PolSpec // versions by policy id
	cur   map[string]*PolSpec   // the version the generator assumes to be in force
	ids   []string              // entity ids
	next  int
	at    int64
	fixAt bool
	// names
	resNames []string
	relNames []string
	style    string
	wild     int // percentage of wildcard subjects
	minus    int // additional weight of differences
	yamlBias int
	noText   bool // relation names are not identifiers
}

var plainRes = []string{"user", "group", "doc", "folder", "org"}
var plainRel = []string{"owner", "reader", "member", "parent", "editor", "viewer", "banned", "admin"}
var plainIds = []string{"alice", "bob", "carol", "x1", "x2", "x3"}
var plainPols = []string{"p1", "p2", "p3", "other"}

// names that collide with separators, keys, formats, wildcards and each other
var oddNames = []string{"a", "b", "aa", "ab", "a/", "/a", "a/b", "a/b/c", "/", "a:b", "b:c", "a#b", "a@b", "*", "root", "1", "2", "3", "4", "1/", "2/", "3/a",
	"a\"b", "\"", "\\", "a\\", "(a", "a)", "a, b", ", ", "é", "日本", " ", "a ", " a", "%d", "%s%n", "0", "00", "true", "null", "~", "-", "->", "_", "_this", "Node", "user", "user:", "aab", "b/", "ba", "x", "xx", "xxx",
	"a\nb", "a\x00", "\x00", "\x01", "\u007f", "a.b", "A", "é", "61", "6161", "\uffff", "policy", "relation", "''", "'a'", "'a", "a'", "\"a\"", "[a]", "{a}", "- a", "&a", "!a", "a: b", "a #b", "<<", "`", "#", "@", ":", "::", "a::b", "\t",
	"./a", "a/.", "a/../a", "a//b", "..", "a///out", "a////out", "a///in", "a%2Fb", "%61", "a+b", "a*", "*a", "a?", "é", "É", "ss", "ß", "ﬀ", "ff", "İ", "i", "\u200b", "a\u200b", "\ufeffa", "a\r\n", "a\r"}

// identifiers that are close to each other
var oddIdents = []string{"a", "b", "ab", "aa", "ba", "aab", "A", "a1", "1a", "1", "_", "__", "a_b", "é", "b1", "x", "xx", "X", "true", "null", "this", "and", "a_", "_a", "日本", "_thisx", "_this1", "_this_", "_thi", "_THIS", "this_this"}

// what formats and keys put between names
var joints = []string{"", "", ":", ":", "/", "/", "#", "@", ",", ", ", " ", ".", "-", "->", "_", "|", "::", "\x00"}

// family returns n names of which many pairs have the same concatenation, with or
// without the separator.
func family(g *rng, stem, sep string, n int) []string {
	var l []string
	for name := stem; len(l) < n+1; name += sep + stem {
		l = append(l, name)
	}
	shuffle(g, l)
	return l[:n]
}

func (w *world) distinct(pool []string, n int) []string {
	l := append([]string{}, pool...)
	shuffle(w.rng, l)
	seen := map[string]bool{}
	var res []string
	for _, x := range l {
		if !seen[x] {
			seen[x] = true
			res = append(res, x)
			if len(res) == n {
				break
			}
		}
	}
	return res
}

func newWorld(c *Case, npol int, style string) *world {
	w := &world{rng: newRng(c.Seed, 77), c: c, specs: map[string][]*PolSpec{}, cur: map[string]*PolSpec{}, style: style, wild: 8}
	w.pols = append([]string{}, plainPols[:npol]...)
	w.resNames = append([]string{}, plainRes...)
	w.relNames = append([]string{}, plainRel...)
	w.ids = append([]string{}, plainIds[:3]...)
	return w
}

// odd replaces the names of the world by colliding ones. With text, relation names
// stay identifiers.
func (w *world) odd(text bool) {
	w.pols = w.distinct(oddNames, len(w.pols))
	w.resNames = w.distinct(oddNames, len(w.resNames))
	if text {
		w.relNames = w.distinct(oddIdents, len(w.relNames))
	} else {
		w.relNames = w.distinct(oddNames, len(w.relNames))
		w.noText = true
	}
	w.ids = w.distinct(oddNames, len(w.ids))
	if w.p(35) { // names whose concatenations coincide
		sep := pick(w.rng, joints)
		stem := pick(w.rng, []string{"a", "b", "user", "1", "é"})
		fam := func(l []string) {
			copy(l, family(w.rng, stem, sep, len(l)))
		}
		fam(w.resNames)
		if w.p(70) {
			fam(w.ids)
		}
		if w.p(50) {
			fam(w.pols)
		}
		if !text {
			fam(w.relNames)
		} else if sep == "" || sep == "_" {
			if stem != "1" || sep == "" {
				fam(w.relNames)
			}
		}
	}
	if w.p(25) {
		star := true
		for _, x := range w.ids {
			star = star && x != "*"
		}
		if star {
			w.ids[w.n(len(w.ids))] = "*"
		}
	}
	if w.p(6) { // long names with a long beginning in common
		stem := strings.Repeat("a", pick(w.rng, []int{60, 127, 200, 255, 256, 300, 1100}))
		for _, l := range [][]string{w.pols, w.resNames, w.relNames, w.ids} {
			if w.p(50) {
				for i := range l {
					if i < 3 {
						l[i] = stem + []string{"", "a", "b"}[i]
					}
				}
			}
		}
	}
}

// yamlOdd takes awkward names that a policy document can say.
func (w *world) yamlOdd() {
	w.odd(true)
	var l []string
	for _, n := range oddNames {
		if yamlSafe(n) && !hasColon(n) && n != "*" {
			l = append(l, n)
		}
	}
	w.resNames = w.distinct(l, len(w.resNames))
	w.pols = w.distinct(l, len(w.pols))
	w.yamlBias = 75
}

// ---- policies ----------------------------------------------------------------

func (w *world) expr(rels []string, all []string, depth int) *Expr {
	k := w.n(100)
	if depth == 0 || depth <= 3 && k < 45 {
		switch w.weighted(50, 25, 25) {
		case 0:
			return &Expr{K: "this"}
		case 1:
			return &Expr{K: "cu", A: pick(w.rng, rels)}
		default:
			return &Expr{K: "ttu", A: pick(w.rng, rels), B: pick(w.rng, all)}
		}
	}
	op := []string{"+", "&", "-"}[w.weighted(45, 28, 27+w.minus)]
	if depth > 3 { // long but not bushy
		l, r := w.expr(rels, all, depth-1), w.expr(rels, all, w.n(2))
		if w.p(30) {
			l, r = r, l
		}
		return &Expr{K: "op", Op: op, L: l, R: r}
	}
	return &Expr{K: "op", Op: op, L: w.expr(rels, all, depth-1), R: w.expr(rels, all, depth-1)}
}

func (w *world) spacing() func() string {
	style := w.n(3)
	return func() string {
		switch style {
		case 0:
			return " "
		case 1:
			return []string{" ", "  ", "\t", "\n", " "}[w.n(5)]
		}
		return []string{"", " "}[w.n(2)]
	}
}

// spec makes a policy. Styles: simple (direct relations), mid (unions), full.
func (w *world) spec(id string) *PolSpec {
	p := &PolSpec{ID: id, Form: "msg"}
	switch w.style {
	case "large":
		w.large(p)
	case "simple":
		u, d, g := w.resNames[0], w.resNames[1], w.resNames[2]
		r := w.relNames
		univ := w.p(50)
		restr := []Restr{{Res: u}, {Res: g, Rel: r[2], Set: true}}
		p.Res = []PRes{
			{Name: u},
			{Name: d, Rels: []PRel{
				{Name: r[0], Expr: &Expr{K: "this"}, Univ: univ, Restr: restr},
				{Name: r[1], Expr: &Expr{K: "op", Op: "+", L: &Expr{K: "this"}, R: &Expr{K: "cu", A: r[0]}}, Univ: univ, Restr: restr},
			}},
			{Name: g, Rels: []PRel{
				{Name: r[2], Expr: &Expr{K: "this"}, Univ: true},
			}},
		}
	default:
		nres := w.in(2, 4)
		p.Res = append(p.Res, PRes{Name: w.resNames[0]})
		all := w.relNames[:w.in(3, len(w.relNames))]
		rels := map[string][]string{}
		for i := 1; i < nres; i++ {
			name := w.resNames[i]
			n := w.in(1, min(4, len(all)))
			// the same few relations in several resources make tuple-to-userset rules meet
			l := w.distinct(all, n)
			if w.p(70) {
				l = append([]string{}, all[:n]...)
			}
			rels[name] = l
		}
		if w.p(30) {
			rels[p.Res[0].Name] = all[:1]
			w.relate(p, &p.Res[0], rels, all)
		}
		for i := 1; i < nres; i++ {
			p.Res = append(p.Res, PRes{Name: w.resNames[i]})
			w.relate(p, &p.Res[len(p.Res)-1], rels, all)
		}
		w.restrict(p)
	}
	w.form(p)
	return p
}

// large makes a policy of many resources, relations, restrictions or operands. Expressions
// refer to earlier relations only, so that every Check has a meaning.
func (w *world) large(p *PolSpec) {
	some := func() int {
		switch w.n(5) {
		case 0:
			return w.in(95, 140)
		case 1:
			return w.in(250, 300)
		}
		return w.in(15, 70)
	}
	nres, nrel := w.in(2, 4), some()
	if w.p(40) {
		nres, nrel = some(), w.in(1, 3)
	}
	p.Res = append(p.Res, PRes{Name: w.resNames[0]})
	for i := 1; i < nres; i++ {
		res := PRes{Name: fmt.Sprintf("t%d", i)}
		if i < len(w.resNames) {
			res.Name = w.resNames[i]
		}
		n := nrel
		if i > 1 && n > 20 && w.p(70) {
			n = w.in(1, 6)
		}
		for j := 0; j < n; j++ {
			name := fmt.Sprintf("rel%d", j)
			var e *Expr
			this := &Expr{K: "this"}
			low := fmt.Sprintf("rel%d", w.n(max(1, j)))
			switch k := w.n(100); {
			case j == 0 || k < 55:
				e = this
			case k < 70:
				e = &Expr{K: "op", Op: "+", L: this, R: &Expr{K: "cu", A: low}}
			case k < 80:
				e = &Expr{K: "op", Op: pick(w.rng, []string{"-", "&"}), L: this, R: &Expr{K: "cu", A: low}}
			case k < 90:
				e = &Expr{K: "ttu", A: low, B: low}
			default:
				e = &Expr{K: "cu", A: low}
			}
			if j > 0 && j == n-1 && w.p(30) { // many operands
				e = this
				m := w.in(15, 45)
				if w.p(10) { // the parser is slow (quadratic)
					m = w.in(95, 125)
				}
				for ; m > 0; m-- {
					e = &Expr{K: "op", Op: "+", L: e, R: &Expr{K: "cu", A: fmt.Sprintf("rel%d", w.n(j))}}
				}
			}
			res.Rels = append(res.Rels, PRel{Name: name, Expr: e})
		}
		p.Res = append(p.Res, res)
	}
	w.restrict(p)
	if w.p(30) { // many restrictions
		res := &p.Res[1]
		rel := &res.Rels[w.n(len(res.Rels))]
		rel.Univ, rel.Restr = false, nil
		for m := some(); m > 0; m-- {
			s := pick(w.rng, p.Res)
			if len(s.Rels) > 0 && w.p(60) {
				rel.Restr = append(rel.Restr, Restr{Res: s.Name, Rel: pick(w.rng, s.Rels).Name, Set: true})
			} else {
				rel.Restr = append(rel.Restr, Restr{Res: s.Name})
			}
		}
	}
}

func (w *world) relate(p *PolSpec, res *PRes, rels map[string][]string, all []string) {
	for _, name := range rels[res.Name] {
		d := 2
		if w.p(15) {
			d = 3
		}
		depth := w.n(d + 1)
		if w.p(2) {
			depth = w.in(5, 14)
		}
		res.Rels = append(res.Rels, PRel{Name: name, Expr: w.expr(rels[res.Name], all, depth)})
	}
	// at least one relation holds relationships
	res.Rels[0].Expr = &Expr{K: "this"}
	if w.p(40) {
		res.Rels[0].Expr = &Expr{K: "op", Op: "+", L: &Expr{K: "this"}, R: res.Rels[0].Expr}
	}
}

// restrict adds subject restrictions.
func (w *world) restrict(p *PolSpec) {
	type rr struct{ res, rel string }
	var sets []rr
	for _, res := range p.Res {
		for _, rel := range res.Rels {
			sets = append(sets, rr{res.Name, rel.Name})
		}
	}
	for i := range p.Res {
		for j := range p.Res[i].Rels {
			rel := &p.Res[i].Rels[j]
			if w.p(65) || len(sets) == 0 {
				rel.Univ = true
				continue
			}
			n := w.in(1, 3)
			if w.p(12) {
				n = w.in(4, 20)
			}
			for k := 0; k < n; k++ {
				if w.p(50) {
					rel.Restr = append(rel.Restr, Restr{Res: pick(w.rng, p.Res).Name})
				} else {
					s := pick(w.rng, sets)
					rel.Restr = append(rel.Restr, Restr{Res: s.res, Rel: s.rel, Set: true})
				}
			}
		}
	}
}

func yamlSafe(s string) bool {
	if len(s) > 900 { // keys of a mapping have at most 1024 characters
		return false
	}
	for _, c := range s {
		if c < 0x20 && c != '\n' && c != '\t' || c == 0x7f || c >= 0xfffe && c <= 0xffff {
			return false
		}
	}
	return true
}

// form chooses how the policy is written down.
func (w *world) form(p *PolSpec) {
	sp := w.spacing()
	paren := w.n(25)
	par := func() bool { return w.n(100) < paren }
	yaml := w.p(max(25, w.yamlBias)) && !w.noText && yamlSafe(p.ID) && p.ID != ""
	for i := range p.Res {
		if !yamlSafe(p.Res[i].Name) {
			yaml = false
		}
		for _, rel := range p.Res[i].Rels {
			if !yamlSafe(rel.Name) {
				yaml = false
			}
			for _, r := range rel.Restr {
				if hasColon(r.Res) || r.Res == "*" {
					yaml = false
				}
			}
		}
	}
	p.Form = "msg"
	if w.p(25) {
		p.Style = 1
	}
	if yaml {
		p.Form = "yaml"
		if w.p(50) {
			p.Style = w.n(64)
		}
	}
	for i := range p.Res {
		for j := range p.Res[i].Rels {
			rel := &p.Res[i].Rels[j]
			rel.Form = "tree"
			if yaml || !w.noText && w.p(50) {
				rel.Form = "text"
				rel.Text = rel.Expr.text(sp, par)
			}
		}
	}
}

func hasColon(s string) bool {
	for _, c := range s {
		if c == ':' {
			return true
		}
	}
	return false
}

// decorate adds descriptions, names and attributes.
func (w *world) decorate(p *PolSpec) {
	txt := func() string {
		return pick(w.rng, []string{"", "a name", "é", "line\nline", "\"quoted\"", "a: b", "# x", "*", "  lead", "1"})
	}
	p.Name = txt()
	p.Doc = txt()
	if w.p(50) {
		p.Attrs = map[string]string{}
		for k := w.n(3); k >= 0; k-- {
			p.Attrs[pick(w.rng, []string{"k", "key two", "é", "0", "x:y"})] = txt()
		}
	}
	for i := range p.Res {
		p.Res[i].Doc = txt()
		for j := range p.Res[i].Rels {
			p.Res[i].Rels[j].Doc = txt()
		}
	}
}

// damage makes the policy inadmissible.
func (w *world) damage(p *PolSpec) {
	p.Name, p.Doc = "", ""
	res := w.lastRelated(p)
	rel := &res.Rels[w.n(len(res.Rels))]
	if w.style == "large" && w.p(60) { // behind much that is right
		if w.p(50) && len(p.Res) > 1 && len(p.Res[1].Rels) > 0 {
			res = &p.Res[1]
		}
		rel = &res.Rels[len(res.Rels)-1]
	}
	tree := func() {
		p.Form = "msg"
		rel.Form = "tree"
		rel.Text = ""
	}
	switch w.n(21) {
	case 17:
		tree()
		w.graft(rel, pick(w.rng, []*Expr{{K: "ttu", A: rel.Name}, {K: "cu"}, {K: "ttu", B: rel.Name}}))
	case 18: // a relation of another resource, or a resource, where a relation is meant
		rel.Univ, rel.NoRes = false, false
		name := res.Name
		for _, r := range p.Res {
			for _, x := range r.Rels {
				if p.relation(res.Name, x.Name) == nil && w.p(60) {
					name = x.Name
				}
			}
		}
		if p.relation(res.Name, name) != nil {
			name = "undefinedrel"
		}
		rel.Restr = append(rel.Restr, Restr{Res: res.Name, Rel: name, Set: true})
		if k := w.n(len(rel.Restr)); w.p(50) {
			rel.Restr[k], rel.Restr[len(rel.Restr)-1] = rel.Restr[len(rel.Restr)-1], rel.Restr[k]
		}
	case 19: // almost a relation's or resource's name
		near := func(x string) string {
			return pick(w.rng, []string{strings.ToUpper(x), x + x, x + " ", " " + x, x + "s", res.Name + "#" + x, x[:len(x)-1]})
		}
		if n := near(rel.Name); p.relation(res.Name, n) == nil && w.p(50) {
			tree()
			w.graft(rel, &Expr{K: []string{"cu", "ttu"}[w.n(2)], A: n, B: rel.Name})
		} else if n := near(res.Name); !p.hasRes(n) {
			rel.Univ, rel.NoRes = false, false
			rel.Restr = append([]Restr{{Res: n}}, rel.Restr...)
		} else {
			p.ID = ""
		}
	case 20: // a name defined twice, far apart
		p.Form = "msg"
		if w.p(50) {
			d := *res
			d.Rels = append([]PRel{}, res.Rels...)
			p.Res = append(append([]PRes{d}, p.Res...), PRes{Name: "lastres"})
		} else {
			d := *rel
			res.Rels = append(append([]PRel{d}, res.Rels...), PRel{Name: "lastrel", Form: "tree", Expr: &Expr{K: "this"}, Univ: true})
		}
	case 0:
		p.ID = ""
	case 1:
		p.Form = "msg"
		p.Res = append(p.Res, PRes{Name: p.Res[0].Name})
	case 2:
		p.Form = "msg"
		res.Rels = append(res.Rels, PRel{Name: res.Rels[0].Name, Form: "tree", Expr: &Expr{K: "this"}, Univ: true})
	case 3:
		p.Form = "msg"
		p.Res = append(p.Res, PRes{Name: ""})
	case 4:
		p.Form = "msg"
		res.Rels = append(res.Rels, PRel{Name: "", Form: "tree", Expr: &Expr{K: "this"}, Univ: true})
	case 5:
		rel.Univ, rel.NoRes = false, false
		rel.Restr = append(rel.Restr, Restr{Res: "undefinedres"})
	case 6:
		rel.Univ, rel.NoRes = false, false
		rel.Restr = append(rel.Restr, Restr{Res: res.Name, Rel: "undefinedrel", Set: true})
	case 7:
		rel.Univ, rel.NoRes = false, false
		rel.Restr = append(rel.Restr, Restr{Res: "undefinedres", Rel: rel.Name, Set: true})
	case 8:
		w.graft(rel, &Expr{K: "cu", A: "undefinedrel"})
	case 9:
		w.graft(rel, &Expr{K: "ttu", A: "undefinedrel", B: rel.Name})
	case 10: // a relation that only another resource defines
		other := ""
		for _, r := range p.Res {
			for _, x := range r.Rels {
				if p.relation(res.Name, x.Name) == nil {
					other = x.Name
				}
			}
		}
		if other == "" {
			other = "undefinedrel"
		}
		w.graft(rel, &Expr{K: []string{"cu", "ttu"}[w.n(2)], A: other, B: rel.Name})
	case 11:
		tree()
		w.graft(rel, &Expr{K: "op", Op: "?", L: &Expr{K: "this"}, R: &Expr{K: "this"}})
	case 12:
		tree()
		w.graft(rel, &Expr{K: pick(w.rng, []string{"nilnode", "nilrule", "norule", "nilcu", "nilttu", "nilop"})})
	case 13:
		tree()
		w.graft(rel, &Expr{K: "op", Op: "+", L: &Expr{K: "this"}})
	case 14, 15:
		if w.noText {
			p.ID = ""
			return
		}
		t := rel.Expr.text(func() string { return " " }, func() bool { return false })
		rel.Form = "text"
		rel.Expr = &Expr{K: "badtext"}
		rel.Text = pick(w.rng, []string{"(" + t, t + ")", t + " +", "+ " + t, t + " + + " + t, t + " " + rel.Name, "", "()", t + " $", t + " ->", "-> " + t, "(" + t + ") )", t + " + ()", "a -> -> b", t + " & )", t + " ! _this", " "})
		if w.p(60) {
			if x := w.corrupt(t, rel.Name); !validText(x) {
				rel.Text = x
			}
		}
		for i := range p.Res {
			for j := range p.Res[i].Rels {
				if x := &p.Res[i].Rels[j]; p.Form == "yaml" && x.Form != "text" {
					p.Form = "msg"
				}
			}
		}
	case 16:
		p.Bad = pick(w.rng, polBads)
		if len(p.Bad) > 4 && p.Bad[:4] == "yaml" {
			if p.Form != "yaml" {
				p.Bad = "nilexpr"
			}
		} else {
			p.Form = "msg"
		}
	}
	if p.Form == "yaml" {
		// text of every relation is what counts
		for i := range p.Res {
			for j := range p.Res[i].Rels {
				if p.Res[i].Rels[j].Form != "text" {
					p.Form = "msg"
				}
			}
		}
	}
	if p.Form != "yaml" && strings.HasPrefix(p.Bad, "yaml") {
		p.Bad = "nilexpr"
	}
}

// corrupt changes the text of an expression in a place or two.
func (w *world) corrupt(t, name string) string {
	l := textTokens(t)
	for i := w.in(1, 2); i > 0; i-- {
		k := w.n(len(l) + 1)
		x := pick(w.rng, []string{"(", ")", "->", "+", "-", "&", ">", "$", "_this", name, name, "|", "=>", "--", "_this _this", "=", "<-", "!", "~", ".", ",", "*", "\"", "\\", "#", "@", ":", ";", "\x00", "^"})
		switch w.n(4) {
		case 0:
			l = append(l[:k:k], append([]string{x}, l[k:]...)...)
		case 1:
			if k < len(l) {
				l = append(l[:k:k], l[k+1:]...)
			}
		case 2:
			if k < len(l) {
				l[k] = x
			}
		case 3:
			if j := w.n(len(l) + 1); k < len(l) && j < len(l) {
				l[k], l[j] = l[j], l[k]
			}
		}
	}
	return strings.Join(l, pick(w.rng, []string{" ", " ", "", "\n"}))
}

func identRune(r rune) bool { return unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_' }

// textTokens splits the text of an expression; what is no token is one rune.
func textTokens(t string) []string {
	var l []string
	r := []rune(t)
	for i := 0; i < len(r); {
		j := i + 1
		switch {
		case unicode.IsSpace(r[i]):
			i++
			continue
		case identRune(r[i]):
			for j < len(r) && identRune(r[j]) {
				j++
			}
		case r[i] == '-' && j < len(r) && r[j] == '>':
			j++
		}
		l = append(l, string(r[i:j]))
		i = j
	}
	return l
}

// validText tells whether t is an expression: terms with an operator between each two,
// where a term is _this, a name, two names with an arrow between, or an expression in
// parentheses.
func validText(t string) bool {
	l := textTokens(t)
	ident := func() bool {
		return len(l) > 0 && l[0] != "_this" && identRune([]rune(l[0])[0])
	}
	var expr func() bool
	term := func() bool {
		switch {
		case len(l) == 0:
			return false
		case l[0] == "(":
			l = l[1:]
			if !expr() || len(l) == 0 || l[0] != ")" {
				return false
			}
			l = l[1:]
			return true
		case l[0] == "_this":
			l = l[1:]
			return true
		case ident():
			l = l[1:]
			if len(l) > 0 && l[0] == "->" {
				l = l[1:]
				if !ident() {
					return false
				}
				l = l[1:]
			}
			return true
		}
		return false
	}
	expr = func() bool {
		for {
			if !term() {
				return false
			}
			if len(l) == 0 || l[0] != "+" && l[0] != "-" && l[0] != "&" {
				return true
			}
			l = l[1:]
		}
	}
	return expr() && len(l) == 0
}

// graft puts a faulty expression somewhere into the relation's expression.
func (w *world) graft(rel *PRel, x *Expr) {
	op := func(l, r *Expr) *Expr {
		return &Expr{K: "op", Op: pick(w.rng, []string{"+", "&", "-"}), L: l, R: r}
	}
	var into func(e *Expr) *Expr
	into = func(e *Expr) *Expr {
		if w.style == "large" && w.p(50) {
			return op(e, x)
		}
		if e != nil && e.K == "op" && w.p(70) {
			if w.p(50) {
				return &Expr{K: "op", Op: e.Op, L: into(e.L), R: e.R}
			}
			return &Expr{K: "op", Op: e.Op, L: e.L, R: into(e.R)}
		}
		switch w.n(4) {
		case 0:
			return op(e, x)
		case 1:
			return op(x, &Expr{K: "this"})
		case 2:
			return op(&Expr{K: "this"}, op(e, x))
		}
		return x
	}
	if w.p(40) { // a bigger expression to hide in
		rel.Expr = op(rel.Expr, op(&Expr{K: "this"}, &Expr{K: "this"}))
	}
	rel.Expr = into(rel.Expr)
	if rel.Form == "text" {
		rel.Text = rel.Expr.text(func() string { return " " }, func() bool { return false })
	}
}

func (w *world) lastRelated(p *PolSpec) *PRes {
	var l []*PRes
	for i := range p.Res {
		if len(p.Res[i].Rels) > 0 {
			l = append(l, &p.Res[i])
		}
	}
	return l[w.n(len(l))]
}

// variant makes a changed version of a policy: same names, some other expressions.
func (w *world) variant(p *PolSpec) *PolSpec {
	n := copySpec(p)
	n.done, n.msg, n.valid = false, nil, ""
	if w.p(25) {
		w.reshape(n)
		w.form(n)
		return n
	}
	if w.style == "simple" && len(n.Res) > 1 && len(n.Res[1].Rels) > 1 {
		res := &n.Res[1]
		rel := &res.Rels[1]
		switch w.n(4) {
		case 0:
			rel.Expr = &Expr{K: "this"}
		case 1:
			rel.Expr = &Expr{K: "cu", A: res.Rels[0].Name}
		case 2:
			rel.Univ, rel.Restr = false, []Restr{{Res: n.Res[0].Name}}
		case 3:
			n.Name = fmt.Sprintf("v%d", w.n(1000))
		}
	} else if related(n) {
		for k := w.in(1, 2); k > 0; k-- {
			res := w.lastRelated(n)
			var rels []string
			for _, r := range res.Rels {
				rels = append(rels, r.Name)
			}
			rel := &res.Rels[w.n(len(res.Rels))]
			rel.Expr = w.expr(rels, w.relNames, w.n(3))
		}
	}
	w.form(n)
	return n
}

func related(p *PolSpec) bool {
	for i := range p.Res {
		if len(p.Res[i].Rels) > 0 {
			return true
		}
	}
	return false
}

// reshape removes or adds resources and relations, and mends what referred to them.
func (w *world) reshape(n *PolSpec) {
	switch w.n(7) {
	case 0: // without a resource
		if len(n.Res) > 1 {
			i := w.in(1, len(n.Res)-1)
			n.Res = append(append([]PRes{}, n.Res[:i]...), n.Res[i+1:]...)
		}
	case 1: // without a relation
		if related(n) {
			res := w.lastRelated(n)
			j := w.n(len(res.Rels))
			res.Rels = append(append([]PRel{}, res.Rels[:j]...), res.Rels[j+1:]...)
		}
	case 2: // only the first resource
		if len(n.Res) > 0 {
			n.Res = n.Res[:1]
			if w.p(50) {
				n.Res[0].Rels = nil
			}
		}
	case 3: // without resources
		n.Res = nil
	case 4: // one more resource
		for _, name := range w.resNames {
			if !n.hasRes(name) {
				n.Res = append(n.Res, PRes{Name: name, Rels: []PRel{{Name: w.relNames[w.n(len(w.relNames))], Expr: &Expr{K: "this"}, Univ: true}}})
				break
			}
		}
	case 5: // one more relation
		if len(n.Res) > 0 {
			i := w.n(len(n.Res))
			for _, name := range w.relNames {
				if n.relation(n.Res[i].Name, name) == nil {
					n.Res[i].Rels = append(n.Res[i].Rels, PRel{Name: name, Expr: &Expr{K: "this"}, Univ: w.p(60)})
					break
				}
			}
		}
	case 6: // another order
		shuffle(w.rng, n.Res)
		for i := range n.Res {
			shuffle(w.rng, n.Res[i].Rels)
		}
	}
	for i := range n.Res {
		for j := range n.Res[i].Rels {
			rel := &n.Res[i].Rels[j]
			var mend func(e *Expr) *Expr
			mend = func(e *Expr) *Expr {
				switch e.K {
				case "cu", "ttu":
					if n.relation(n.Res[i].Name, e.A) == nil {
						return &Expr{K: "this"}
					}
				case "op":
					return &Expr{K: "op", Op: e.Op, L: mend(e.L), R: mend(e.R)}
				}
				return e
			}
			rel.Expr = mend(rel.Expr)
			var rs []Restr
			for _, r := range rel.Restr {
				if r.Set && n.relation(r.Res, r.Rel) != nil || !r.Set && n.hasRes(r.Res) {
					rs = append(rs, r)
				}
			}
			rel.Restr = rs
		}
	}
}

func copySpec(p *PolSpec) *PolSpec {
	n := *p
	n.Res = append([]PRes{}, p.Res...)
	for i := range n.Res {
		n.Res[i].Rels = append([]PRel{}, n.Res[i].Rels...)
		for j := range n.Res[i].Rels {
			n.Res[i].Rels[j].Restr = append([]Restr{}, n.Res[i].Rels[j].Restr...)
		}
	}
	return &n
}

// ---- relationships -------------------------------------------------------------

// holders lists the relations of a policy, those that can hold relationships first.
func holders(p *PolSpec) []gnode {
	var l, rest []gnode
	for _, res := range p.Res {
		for _, rel := range res.Rels {
			g := gnode{Ent{R: res.Name}, rel.Name}
			if hasThis(rel.Expr) {
				l = append(l, g)
			} else {
				rest = append(rest, g)
			}
		}
	}
	// relations used as tuplesets matter as well
	for _, res := range p.Res {
		for _, rel := range res.Rels {
			var walk func(x *Expr)
			walk = func(x *Expr) {
				if x == nil {
					return
				}
				if x.K == "ttu" && p.relation(res.Name, x.A) != nil {
					l = append(l, gnode{Ent{R: res.Name}, x.A})
				}
				walk(x.L)
				walk(x.R)
			}
			walk(rel.Expr)
		}
	}
	if len(l) == 0 {
		return rest
	}
	return l
}

func hasThis(x *Expr) bool {
	if x == nil {
		return false
	}
	return x.K == "this" || hasThis(x.L) || hasThis(x.R)
}

// tuple makes a relationship that conforms to the policy, mostly.
func (w *world) tuple(p *PolSpec) Tuple {
	hs := holders(p)
	if len(hs) == 0 {
		return Tuple{O: Ent{p.Res[0].Name, w.ids[0]}, Rel: w.relNames[0], S: Subj{K: "e", R: p.Res[0].Name, I: w.ids[0]}}
	}
	for try := 0; ; try++ {
		g := pick(w.rng, hs)
		t := Tuple{O: Ent{g.o.R, pick(w.rng, w.ids)}, Rel: g.rel}
		def := p.relation(g.o.R, g.rel)
		t.S = w.subject(p, def)
		if try > 8 || p.admits(&t, "") {
			return t
		}
	}
}

func (w *world) subject(p *PolSpec, def *PRel) Subj {
	if def != nil && !def.Univ && len(def.Restr) > 0 {
		r := pick(w.rng, def.Restr)
		if r.Set {
			return Subj{K: "s", R: r.Res, I: pick(w.rng, w.ids), Rel: r.Rel}
		}
		if w.n(100) < w.wild {
			return Subj{K: "w", R: r.Res}
		}
		return Subj{K: "e", R: r.Res, I: pick(w.rng, w.ids)}
	}
	k := w.n(100)
	if k < w.wild {
		return Subj{K: "w", R: pick(w.rng, p.Res).Name}
	}
	if k < 45 {
		return Subj{K: "e", R: p.Res[0].Name, I: pick(w.rng, w.ids)}
	}
	if k < 62 {
		return Subj{K: "e", R: pick(w.rng, p.Res).Name, I: pick(w.rng, w.ids)}
	}
	res := w.lastRelated(p)
	return Subj{K: "s", R: res.Name, I: pick(w.rng, w.ids), Rel: res.Rels[w.n(len(res.Rels))].Name}
}

// anyTuple makes a relationship that need not conform.
func (w *world) anyTuple(p *PolSpec) Tuple {
	t := w.tuple(p)
	switch w.n(9) {
	case 0:
		t.O.R = "undefinedres"
	case 1:
		t.Rel = "undefinedrel"
	case 2:
		t.S.R = "undefinedres"
	case 3:
		t.S = Subj{K: "s", R: pick(w.rng, p.Res).Name, I: pick(w.rng, w.ids), Rel: "undefinedrel"}
	case 4:
		t.Rel = pick(w.rng, w.relNames)
	case 5:
		t.O.R = pick(w.rng, w.resNames)
	case 6, 7:
		saved := w.wild
		w.wild = 25
		t.S = w.subject(p, nil)
		w.wild = saved
	case 8:
		t.S = Subj{K: "s", R: pick(w.rng, w.resNames), I: pick(w.rng, w.ids), Rel: pick(w.rng, w.relNames)}
	}
	return t
}

// sel makes a selector; about is a relationship it is likely to match.
func (w *world) sel(about Tuple) *Sel {
	s := &Sel{OK: "any", RK: "any", SK: "any"}
	switch w.weighted(40, 30, 30) {
	case 0:
		s.OK, s.O = "spec", about.O
	case 1:
		s.OK, s.O = "res", Ent{R: about.O.R}
	}
	if w.p(50) {
		s.RK, s.Rel = "name", about.Rel
	}
	switch w.weighted(35, 25, 40) {
	case 0:
		s.SK, s.S = "spec", about.S
	case 1:
		s.SK, s.S = "res", Subj{R: about.S.R}
	}
	return s
}

// ---- requests ------------------------------------------------------------------

func (w *world) add(op *Op) *Op {
	w.next++
	op.ID = w.next
	op.Phase = w.phase
	if w.fixAt {
		w.at += 10_000_000_000
		op.At = w.at
	}
	w.c.Ops = append(w.c.Ops, op)
	return op
}

func (w *world) newPhase() { w.phase++ }

func (w *world) data() string {
	switch k := w.n(100); {
	case k < 15:
		return ""
	case k < 30:
		return fmt.Sprintf("d%d", w.n(2))
	case k == 30 && w.p(20):
		return strings.Repeat("x", w.in(500, 70000))
	}
	return fmt.Sprintf("d%d", w.n(1000))
}

var oddData = []string{"", "\x00", "\u00ff\u00fe", "a", "{}", "\n", "é", "0123456789012345678901234567890123456789", "\u0080\u0000\u0001",
	strings.Repeat("0123456789abcdef", 17), strings.Repeat("0123456789abcdef", 70)}

// application data of a size at which buffers and limits end
func (w *world) bigData() string {
	n := pick(w.rng, []int{4097, 16385, 65537})
	return strings.Repeat("abcdefgh", n/8) + "end"
}

func (w *world) pol() string { return pick(w.rng, w.pols) }

// specFor is the version of the policy the clients assume: mostly the current one.
func (w *world) specFor(id string) *PolSpec {
	p := w.cur[id]
	if l := w.specs[id]; len(l) > 1 && w.p(12) {
		p = pick(w.rng, l)
	}
	if p != nil && related(p) {
		return p
	}
	for _, q := range w.specs[id] {
		if related(q) {
			return q
		}
	}
	p = w.spec(id)
	w.specs[id] = append(w.specs[id], p)
	return p
}

func (w *world) create(id string) *Op {
	var p *PolSpec
	same := false
	if l := w.specs[id]; len(l) > 0 && w.p(60) {
		p = copySpec(pick(w.rng, l))
		same = w.p(40)
		if same {
			p = copySpec(l[len(l)-1])
		}
	} else {
		p = w.spec(id)
	}
	w.specs[id] = append(w.specs[id], p)
	w.cur[id] = p
	op := w.add(&Op{Kind: "create", Spec: p, Data: w.data(), same: same})
	if same && w.p(60) {
		op.Data = w.dataOf(p, op.Data)
	}
	return op
}

func (w *world) update(id string) *Op {
	base := w.cur[id]
	if base == nil || w.p(20) {
		base = w.specFor(id)
	}
	p := w.variant(base)
	same := w.p(14)
	if same { // only the data is new, or nothing at all
		p = copySpec(base)
	}
	w.specs[id] = append(w.specs[id], p)
	w.cur[id] = p
	op := w.add(&Op{Kind: "update", Spec: p, Data: w.data(), same: same})
	if same && w.p(20) {
		op.Data = w.dataOf(base, op.Data)
	}
	return op
}

// dataOf returns the data that an earlier request sent with an equal policy.
func (w *world) dataOf(p *PolSpec, or string) string {
	for i := len(w.c.Ops) - 2; i >= 0; i-- {
		if o := w.c.Ops[i]; o.Spec != nil && (o.Spec == p || semKey(o.Spec) == semKey(p)) {
			return o.Data
		}
	}
	return or
}

// redefine replaces the policy by one with other resources or relations.
func (w *world) redefine(id string) *Op {
	base := w.cur[id]
	if base == nil {
		base = w.specFor(id)
	}
	p := copySpec(base)
	p.done, p.msg, p.valid = false, nil, ""
	w.reshape(p)
	w.form(p)
	w.specs[id] = append(w.specs[id], p)
	w.cur[id] = p
	return w.add(&Op{Kind: "update", Spec: p, Data: w.data()})
}

// big makes the world large: many entities, relationships or policies.
func (w *world) big(rels int) {
	w.ids = nil
	for i := 0; i < 40; i++ {
		w.ids = append(w.ids, fmt.Sprintf("e%d", i))
	}
	for _, id := range w.pols {
		w.create(id)
	}
	for i := 0; i < rels; i++ {
		w.set(w.pols[0])
	}
}

// chain makes a policy and relationships in which a user is n steps away from an object,
// or almost.
func (w *world) chain(n int) {
	id := w.pols[0]
	u, d := w.resNames[0], w.resNames[1]
	r, q, par := w.relNames[0], w.relNames[1], w.relNames[2]
	this := &Expr{K: "this"}
	p := &PolSpec{ID: id, Form: "msg", Res: []PRes{{Name: u}, {Name: d}}}
	rels := func(l ...PRel) { p.Res[1].Rels = append(p.Res[1].Rels, l...) }
	how := w.weighted(30, 25, 15, 15, 15)
	if how >= 2 && n > 300 {
		n = n/4 + 1
	}
	op := pick(w.rng, []string{"+", "+", "&", "-"})
	rel := func(i int) string { return fmt.Sprintf("s%d", i) }
	node := func(i int) string { return fmt.Sprintf("n%d", i) }
	alice := Subj{K: "e", R: u, I: "alice"}
	relate := func(o Ent, rel string, s Subj) {
		t := Tuple{O: o, Rel: rel, S: s}
		w.add(&Op{Kind: "set", Pol: id, T: &t})
	}
	bin := func(op string, l, r *Expr) *Expr { return &Expr{K: "op", Op: op, L: l, R: r} }
	rels(PRel{Name: r, Expr: this, Univ: true}, PRel{Name: par, Expr: this, Univ: true})
	top, bottom := q, Ent{d, node(n)}
	switch how {
	case 0: // usersets
		rels(PRel{Name: q, Expr: this, Univ: true})
	case 1: // parents
		e := bin("+", this, &Expr{K: "ttu", A: par, B: q})
		if w.p(50) {
			e.L, e.R = e.R, e.L
		}
		if w.p(30) {
			e = bin("-", e, &Expr{K: "cu", A: r})
		}
		rels(PRel{Name: q, Expr: e, Univ: true})
	case 2: // relations
		for i := 0; i < n; i++ {
			rels(PRel{Name: rel(i), Expr: &Expr{K: "cu", A: rel(i + 1)}, Univ: true})
		}
		rels(PRel{Name: rel(n), Expr: this, Univ: true})
		top = rel(0)
		bottom = Ent{d, node(0)}
	default: // one long expression
		var e *Expr
		for i := 0; i <= n; i++ {
			x := &Expr{K: "cu", A: rel(i % 9)}
			if i == n {
				x = this
			}
			if e == nil {
				e = x
			} else if how == 3 {
				e = bin(op, e, x)
			} else {
				e = bin(op, x, e)
			}
		}
		for i := 0; i < 9; i++ {
			rels(PRel{Name: rel(i), Expr: this, Univ: true})
		}
		rels(PRel{Name: q, Expr: e, Univ: true})
		bottom = Ent{d, node(0)}
	}
	w.form(p)
	w.specs[id] = []*PolSpec{p}
	w.cur[id] = p
	w.add(&Op{Kind: "create", Spec: p})
	var cut *Tuple
	link := func(i int) Tuple {
		if how == 0 {
			return Tuple{O: Ent{d, node(i)}, Rel: q, S: Subj{K: "s", R: d, I: node(i + 1), Rel: q}}
		}
		return Tuple{O: Ent{d, node(i)}, Rel: par, S: Subj{K: "e", R: d, I: node(i + 1)}}
	}
	if how < 2 {
		order := make([]int, n)
		for i := range order {
			order[i] = i
		}
		if w.p(50) {
			shuffle(w.rng, order)
		}
		for _, i := range order {
			t := link(i)
			w.add(&Op{Kind: "set", Pol: id, T: &t})
		}
		if w.p(25) {
			relate(bottom, par, Subj{K: "e", R: d, I: node(w.n(n))})
			relate(bottom, q, Subj{K: "s", R: d, I: node(w.n(n)), Rel: q})
		}
		t := link(w.n(n))
		cut = &t
		relate(bottom, q, alice)
	} else if how == 2 {
		relate(bottom, rel(n), alice)
	} else {
		relate(bottom, q, alice)
		for i := 0; i < 9; i++ {
			if op == "&" && w.p(92) || op != "&" && w.p(6) {
				relate(bottom, rel(i), alice)
			}
		}
	}
	w.ids = []string{node(0), node(1), node(n / 2), node(n), "alice"}
	ask := func(o string) {
		w.add(&Op{Kind: "check", Pol: id, O: &Ent{d, o}, Rel: top, S: &Ent{u, "alice"}})
		w.add(&Op{Kind: "check", Pol: id, O: &Ent{d, o}, Rel: top, S: &Ent{u, "nobody"}})
	}
	ask(node(0))
	if how < 2 {
		for _, k := range []int{n / 2, n - 1, w.n(n)} {
			ask(node(k))
		}
	}
	if w.c.Prop == "C13" || w.p(50) {
		w.add(&Op{Kind: "explain", Pol: id, O: &Ent{d, node(0)}, Rel: top, S: &Ent{u, "alice"}, Format: w.n(3)})
		w.add(&Op{Kind: "expand", Pol: id, Root: &Subj{K: "s", R: d, I: node(0), Rel: top}, Format: w.n(3)})
		w.dump(id)
		w.findAll(id)
	}
	if cut != nil && w.p(60) {
		w.add(&Op{Kind: "del", Pol: id, T: cut})
		ask(node(0))
		ask(cut.O.I)
	}
}

// wide gives one object, or one subject, n relationships.
func (w *world) wide(n int) {
	id := w.pols[0]
	u, d := w.resNames[0], w.resNames[1]
	r, q := w.relNames[0], w.relNames[1]
	this := &Expr{K: "this"}
	x := &Expr{K: "op", Op: pick(w.rng, []string{"+", "&", "-"}), L: &Expr{K: "cu", A: r}, R: this}
	if w.p(40) {
		x.L, x.R = x.R, x.L
	}
	p := &PolSpec{ID: id, Form: "msg", Res: []PRes{{Name: u}, {Name: d, Rels: []PRel{{Name: r, Expr: this, Univ: true}, {Name: q, Expr: x, Univ: true}}}}}
	w.form(p)
	w.specs[id] = []*PolSpec{p}
	w.cur[id] = p
	w.add(&Op{Kind: "create", Spec: p})
	subject := w.p(25)
	user := func(i int) string { return fmt.Sprintf("u%d", i) }
	var all []Tuple
	for i := 0; i < n; i++ {
		t := Tuple{O: Ent{d, "o"}, Rel: r, S: Subj{K: "e", R: u, I: user(i)}}
		if subject {
			t.O.I, t.S.I = user(i), "o"
		}
		if w.p(10) {
			t.Rel = q
		}
		if w.p(5) {
			t.S = Subj{K: "s", R: d, I: user(i), Rel: r}
		}
		all = append(all, t)
		w.add(&Op{Kind: "set", Pol: id, T: &t, Data: w.data()})
	}
	w.ids = []string{"o", user(0), user(n - 1), user(w.n(n))}
	for k := w.in(5, 30); k > 0; k-- {
		t := pick(w.rng, all)
		s := Ent{u, t.S.I}
		if w.p(20) {
			s.I = user(n)
		}
		w.add(&Op{Kind: "check", Pol: id, O: &Ent{d, t.O.I}, Rel: pick(w.rng, []string{r, q}), S: &s})
	}
	w.findAll(id)
	if w.p(50) {
		w.find(id)
	}
	if w.p(40) {
		w.add(&Op{Kind: "expand", Pol: id, Root: &Subj{K: "s", R: d, I: "o", Rel: q}, Format: w.n(3)})
		w.dump(id)
	}
	switch w.n(3) {
	case 0:
		w.delrels(id)
		w.findAll(id)
	case 1:
		w.delpol(id)
		w.create(id)
		w.findAll(id)
	}
}

func (w *world) set(id string) *Op {
	t := w.tuple(w.specFor(id))
	data := w.data()
	if w.p(12) { // what is there already
		for i := len(w.c.Ops) - 1; i >= 0; i-- {
			if o := w.c.Ops[i]; o.Kind == "set" && o.Pol == id && o.Bad == "" && w.p(40) {
				t = *o.T
				if w.p(50) {
					data = o.Data
				}
				break
			}
		}
	}
	return w.add(&Op{Kind: "set", Pol: id, T: &t, Data: data})
}

// known returns a relationship the case has already mentioned, mostly.
func (w *world) known(id string) Tuple {
	if w.p(75) {
		var l []Tuple
		for _, o := range w.c.Ops {
			if o.Kind == "set" && o.Pol == id && o.Bad == "" {
				l = append(l, *o.T)
			}
		}
		if len(l) > 0 {
			return pick(w.rng, l)
		}
	}
	return w.tuple(w.specFor(id))
}

func (w *world) del(id string) *Op {
	t := w.known(id)
	return w.add(&Op{Kind: "del", Pol: id, T: &t})
}
func (w *world) get(id string) *Op {
	t := w.known(id)
	return w.add(&Op{Kind: "get", Pol: id, T: &t})
}
func (w *world) find(id string) *Op {
	return w.add(&Op{Kind: "find", Pol: id, Sel: w.sel(w.known(id))})
}
func (w *world) findAll(id string) *Op {
	return w.add(&Op{Kind: "find", Pol: id, Sel: &Sel{OK: "any", RK: "any", SK: "any"}})
}
func (w *world) delrels(id string) *Op {
	return w.add(&Op{Kind: "delrels", Pol: id, Sel: w.sel(w.known(id))})
}
func (w *world) delpol(id string) *Op { return w.add(&Op{Kind: "delpol", Pol: id}) }
func (w *world) getpol(id string) *Op { return w.add(&Op{Kind: "getpol", Pol: id}) }
func (w *world) list() *Op            { return w.add(&Op{Kind: "list"}) }
func (w *world) dump(id string) *Op   { return w.add(&Op{Kind: "dump", Pol: id}) }

// assumed is the relationship set the clients have in mind: no request failed.
func (w *world) assumed(id string) relMap {
	m := relMap{}
	for _, o := range w.c.Ops {
		switch {
		case o.polID() != id || o.Bad != "":
		case o.Kind == "set":
			m[*o.T] = []relAlt{{present: true}}
		case o.Kind == "del":
			delete(m, *o.T)
		case o.Kind == "delpol":
			m = relMap{}
		}
	}
	return m
}

// access chooses the object, relation and subject of a query. Often it looks for one
// that is granted, or that many relationships have a part in.
func (w *world) access(id string) (Ent, string, Ent) {
	p := w.specFor(id)
	one := func() (Ent, string, Ent) {
		res := w.lastRelated(p)
		rel := res.Rels[w.n(len(res.Rels))].Name
		sr := p.Res[0].Name
		if w.p(15) {
			sr = pick(w.rng, p.Res).Name
		}
		return Ent{res.Name, pick(w.rng, w.ids)}, rel, Ent{sr, pick(w.rng, w.ids)}
	}
	mode := w.n(10)
	o, r, s := one()
	if mode < 4 || len(w.c.Ops) > 150 {
		return o, r, s
	}
	rels := w.assumed(id)
	most := -1
	for try := 0; try < 6; try++ {
		o2, r2, s2 := one()
		v := &evaluator{spec: p, rels: rels, subj: s2}
		yes, _ := v.eval(o2, r2)
		if mode < 8 {
			if yes {
				return o2, r2, s2
			}
		} else if len(v.used) > most {
			most = len(v.used)
			o, r, s = o2, r2, s2
		}
	}
	return o, r, s
}

func (w *world) check(id string) *Op {
	o, r, s := w.access(id)
	return w.add(&Op{Kind: "check", Pol: id, O: &o, Rel: r, S: &s})
}
func (w *world) explain(id string) *Op {
	o, r, s := w.access(id)
	return w.add(&Op{Kind: "explain", Pol: id, O: &o, Rel: r, S: &s, Format: w.n(3)})
}
func (w *world) expand(id string) *Op {
	o, r, s := w.access(id)
	root := &Subj{K: "s", R: o.R, I: o.I, Rel: r}
	if w.p(5) {
		root = &Subj{K: "e", R: s.R, I: s.I}
	}
	return w.add(&Op{Kind: "expand", Pol: id, Root: root, Format: w.n(3)})
}

// anyOp adds one request of a kind drawn by weight.
func (w *world) anyOp(id string, weights map[string]int) *Op {
	ks := sortedKeys(weights)
	ws := make([]int, len(ks))
	for i, k := range ks {
		ws[i] = weights[k]
	}
	return w.opKind(id, ks[w.weighted(ws...)])
}

func (w *world) opKind(id, kind string) *Op {
	switch kind {
	case "create":
		return w.create(id)
	case "update":
		return w.update(id)
	case "delpol":
		return w.delpol(id)
	case "getpol":
		return w.getpol(id)
	case "list":
		return w.list()
	case "set":
		return w.set(id)
	case "del":
		return w.del(id)
	case "get":
		return w.get(id)
	case "find":
		return w.find(id)
	case "findall":
		return w.findAll(id)
	case "delrels":
		return w.delrels(id)
	case "check":
		return w.check(id)
	case "explain":
		return w.explain(id)
	case "expand":
		return w.expand(id)
	case "dump":
		return w.dump(id)
	case "badpol":
		return w.badPol(id)
	case "badrel":
		return w.badRel(id)
	case "malformed":
		return w.malformed(id)
	case "restart":
		return w.add(&Op{Kind: "restart"})
	}
	panic("unknown kind " + kind)
}

// badPol sends an inadmissible policy.
func (w *world) badPol(id string) *Op {
	kind := "create"
	if w.p(50) {
		kind = "update"
	}
	var p *PolSpec
	if kind == "update" {
		p = copySpec(w.specFor(id))
	} else {
		p = w.spec(id)
	}
	p.done, p.msg, p.valid = false, nil, ""
	w.damage(p)
	return w.add(&Op{Kind: kind, Spec: p, Data: w.data()})
}

// badRel sends a relationship that mostly does not conform.
func (w *world) badRel(id string) *Op {
	t := w.anyTuple(w.specFor(id))
	return w.add(&Op{Kind: "set", Pol: id, T: &t, Data: w.data()})
}

// malformed sends an incomplete request of any kind.
func (w *world) malformed(id string) *Op {
	switch w.n(10) {
	case 0, 1, 2:
		op := w.opKind(id, pick(w.rng, []string{"set", "del", "get"}))
		op.Bad = pick(w.rng, tupleBads)
		return op
	case 3, 4:
		op := w.opKind(id, pick(w.rng, []string{"find", "delrels"}))
		op.Bad = pick(w.rng, selBads)
		return op
	case 5:
		op := w.opKind(id, pick(w.rng, []string{"check", "explain"}))
		op.Bad = pick(w.rng, accessBads)
		return op
	case 6:
		op := w.expand(id)
		op.Bad = pick(w.rng, rootBads)
		return op
	case 7:
		op := w.opKind(id, pick(w.rng, []string{"explain", "expand", "dump"}))
		op.Format = pick(w.rng, []int{-1, 3, 77, 1 << 20})
		return op
	case 8:
		return w.badPol(id)
	default:
		switch w.n(6) {
		case 5: // text which is not UTF-8
			op := w.opKind(id, pick(w.rng, []string{"set", "get", "check", "explain"}))
			op.Bad = "utf8"
			return op
		case 0:
			return w.add(&Op{Kind: "getpol", Pol: ""})
		case 1:
			return w.add(&Op{Kind: "delpol", Pol: ""})
		case 2:
			op := w.check(id)
			op.Rel = "undefinedrel"
			return op
		case 3:
			op := w.opKind(id, pick(w.rng, []string{"set", "del", "get", "find", "delrels", "check", "explain", "expand", "dump"}))
			op.Pol = pick(w.rng, []string{"", "no such policy"})
			return op
		default:
			op := w.check(id)
			op.O.R = "undefinedres"
			return op
		}
	}
}

// ---- faults --------------------------------------------------------------------

func (w *world) faultN(op *Op, class string) int {
	m := 6
	switch class {
	case "any", "r", "next":
		m = 14
	case "w", "set", "del":
		m = 6
	case "iter":
		m = 4
	}
	switch op.Kind {
	case "delpol", "delrels", "find", "dump":
		m *= 4
	case "check", "explain", "expand":
		m *= 2
	}
	if w.p(50) {
		m = m/3 + 1
	}
	return w.n(m)
}

func (w *world) readFault(op *Op) {
	if w.cancelFault(op) {
		return
	}
	class := pick(w.rng, []string{"get", "has", "iter", "next", "r", "get", "next"})
	kind := "err"
	if class == "iter" && w.p(35) {
		kind = "nil"
	}
	op.Faults = append(op.Faults, Fault{Class: class, N: w.faultN(op, class), Kind: kind})
}

func (w *world) writeFault(op *Op) {
	if w.cancelFault(op) {
		return
	}
	class := pick(w.rng, []string{"set", "del", "w", "w"})
	kind := pick(w.rng, []string{"err", "err", "errapplied", "full"})
	f := Fault{Class: class, N: w.faultN(op, class), Kind: kind}
	if kind == "full" {
		f.Len = w.n(6)
	}
	op.Faults = append(op.Faults, f)
}

// cancelFault now and then takes the place of a failing operation: the client gives up
// (or its deadline passes) while the request runs.
func (w *world) cancelFault(op *Op) bool {
	if !w.p(9) {
		return false
	}
	class := pick(w.rng, []string{"any", "w", "del", "set", "next"})
	op.Faults = append(op.Faults, Fault{Class: class, N: w.faultN(op, class), Kind: "cancel"})
	return true
}

func (w *world) crashFault(op *Op) {
	class := pick(w.rng, []string{"w", "w", "w", "any", "r"})
	kind := pick(w.rng, []string{"crash", "crashafter"})
	op.Faults = append(op.Faults, Fault{Class: class, N: w.faultN(op, class), Kind: kind})
}

// ---- phases --------------------------------------------------------------------

// conc adds a phase of clients running concurrently.
func (w *world) conc(clients, opsMin, opsMax int, f func(client int) *Op) {
	w.newPhase()
	type slot struct{ ops []*Op }
	for c := 0; c < clients; c++ {
		for k := w.in(opsMin, opsMax); k > 0; k-- {
			op := f(c)
			op.Client = c + 1
		}
	}
	w.newPhase()
}

// audit adds queries that read everything back.
func (w *world) audit(kinds map[string]bool, perPol int) {
	w.newPhase()
	if kinds["list"] {
		w.list()
	}
	ids := append([]string{}, w.pols...)
	for _, id := range ids {
		if kinds["getpol"] {
			w.getpol(id)
		}
		if kinds["find"] {
			w.findAll(id)
		}
		if kinds["dump"] {
			w.dump(id)
		}
		if kinds["get"] {
			ts := w.mentioned(id)
			shuffle(w.rng, ts)
			for i, t := range ts {
				if i >= perPol {
					break
				}
				t := t
				w.add(&Op{Kind: "get", Pol: id, T: &t})
			}
		}
		for _, k := range []string{"check", "explain", "expand"} {
			if kinds[k] {
				for i := 0; i < perPol; i++ {
					if len(w.specs[id]) > 0 {
						w.opKind(id, k)
					}
				}
			}
		}
	}
	w.newPhase()
}

// mentioned lists the relationships the case names under a policy.
func (w *world) mentioned(id string) []Tuple {
	seen := map[Tuple]bool{}
	var l []Tuple
	for _, o := range w.c.Ops {
		if o.Pol == id && o.T != nil && !seen[*o.T] && o.Bad == "" {
			seen[*o.T] = true
			l = append(l, *o.T)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].key() < l[j].key() })
	return l
}

func kindSet(l ...string) map[string]bool {
	m := map[string]bool{}
	for _, x := range l {
		m[x] = true
	}
	return m
}
