package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/awalterschulze/gographviz"
)

// unquoteDot undoes the quoting of a DOT string.
func unquoteDot(s string) string {
	if len(s) >= 2 && s[0] == '"' && s[len(s)-1] == '"' {
		s = s[1 : len(s)-1]
	}
	s = strings.ReplaceAll(s, nulMark, "\x00")
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) && (s[i+1] == '"' || s[i+1] == '\\') {
			i++
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

const nulMark = "\u2400nul\u2400"

func readDot(doc string) (g *gographviz.Graph, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("%v", p)
		}
	}()
	// the reader takes a NUL byte for the end of the document
	if strings.Contains(doc, "\x00") {
		doc = strings.ReplaceAll(doc, "\x00", nulMark)
	}
	g, err = gographviz.Read([]byte(doc))
	if err == nil && g == nil {
		err = fmt.Errorf("no graph")
	}
	if err == nil {
		for _, e := range g.Edges.Edges {
			if e.Dir != g.Directed {
				return nil, fmt.Errorf("edges of a digraph are ->, those of a graph --")
			}
		}
	}
	return
}

func nodeText(g *gographviz.Graph, name string) (string, error) {
	n, ok := g.Nodes.Lookup[name]
	if !ok {
		return "", fmt.Errorf("edge end %s is not a node", name)
	}
	l, ok := n.Attrs["label"]
	if !ok {
		return unquoteDot(name), nil
	}
	return unquoteDot(l), nil
}

// parseDump returns how often each relationship is drawn, by the labels of its ends.
func parseDump(doc string) (map[[2]string]int, error) {
	g, err := readDot(doc)
	if err != nil {
		return nil, err
	}
	if !g.Directed && len(g.Edges.Edges) > 0 {
		return nil, fmt.Errorf("the edges have no direction")
	}
	res := map[[2]string]int{}
	for _, e := range g.Edges.Edges {
		a, err := nodeText(g, e.Src)
		if err != nil {
			return nil, err
		}
		b, err := nodeText(g, e.Dst)
		if err != nil {
			return nil, err
		}
		if a == "root" {
			continue
		}
		res[[2]string{a, b}]++
	}
	return res, nil
}

// goalDoc is what a goal tree document says.
type goalDoc struct {
	names  map[string]bool // labels of the nodes it names
	result string          // SUCCESS FAILURE or ""
}

// parseGoal reads an Expand or ExplainCheck document. Formats: 0 spew, 1 JSON, 2 DOT
// (as numbered by the API).
func parseGoal(format int, doc string) (*goalDoc, error) {
	d := &goalDoc{names: map[string]bool{}}
	switch formatName(format) {
	case "json":
		var v any
		if err := json.Unmarshal([]byte(doc), &v); err != nil {
			return nil, err
		}
		if m, ok := v.(map[string]any); ok {
			d.result, _ = m["Result"].(string)
		}
		d.walkJSON(v)
	case "dot":
		g, err := readDot(doc)
		if err != nil {
			return nil, err
		}
		for _, n := range g.Nodes.Nodes {
			l, ok := n.Attrs["label"]
			if !ok {
				continue
			}
			t := unquoteDot(l)
			const mark = "PathNode\nrelation node: "
			if strings.HasPrefix(t, mark) {
				t = t[len(mark):]
				if i := strings.LastIndex(t, "\nreason: "); i >= 0 {
					t = t[:i]
				}
				d.names[t] = true
			}
		}
		for _, e := range g.Edges.Edges {
			if unquoteDot(e.Src) == "root" {
				t, err := nodeText(g, e.Dst)
				if err != nil {
					return nil, err
				}
				if i := strings.LastIndex(t, "\nresult: "); i >= 0 {
					d.result = t[i+len("\nresult: "):]
				}
			}
		}
	default:
		if doc == "" {
			return nil, fmt.Errorf("empty document")
		}
		return d, nil
	}
	return d, nil
}

func (d *goalDoc) walkJSON(v any) {
	switch x := v.(type) {
	case []any:
		for _, y := range x {
			d.walkJSON(y)
		}
	case map[string]any:
		str := func(m map[string]any, k string) string { s, _ := m[k].(string); return s }
		sub := func(m map[string]any, k string) map[string]any { s, _ := m[k].(map[string]any); return s }
		if n := sub(x, "RelationNode"); n != nil {
			node := sub(n, "Node")
			if es := sub(node, "EntitySet"); es != nil {
				o := sub(es, "object")
				d.names[nodeLabel(str(o, "resource"), str(o, "id"), str(es, "relation"))] = true
			} else if e := sub(node, "Entity"); e != nil {
				o := sub(e, "object")
				d.names[nodeLabel(str(o, "resource"), str(o, "id"), "")] = true
			} else if w := sub(node, "Wildcard"); w != nil {
				d.names[nodeLabel(str(w, "resource"), "*", "")] = true
			}
		}
		for k, y := range x {
			if k != "RelationNode" {
				d.walkJSON(y)
			}
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// reachLabels returns the labels of every node the root reaches by the policy and
// relationships. ok is false if an undefined relation can be reached.
func reachLabels(spec *PolSpec, rels relMap, root Subj) (names map[string]bool, ok bool) {
	names = map[string]bool{subjLabel(root): true}
	if root.K != "s" {
		return names, true
	}
	v := &evaluator{spec: spec, rels: rels}
	v.build(Ent{root.R, root.I}, root.Rel)
	if v.undef {
		return nil, false
	}
	for _, n := range v.nodes {
		names[nodeLabel(n.o.R, n.o.I, n.rel)] = true
		def := spec.relation(n.o.R, n.rel)
		var walk func(x *Expr)
		walk = func(x *Expr) {
			switch x.K {
			case "this":
				for _, t := range v.tuples(n) {
					if t.S.K != "s" {
						names[subjLabel(t.S)] = true
					}
				}
			case "op":
				walk(x.L)
				walk(x.R)
			}
		}
		walk(def.Expr)
	}
	return names, true
}

func formatName(f int) string {
	switch f {
	case 1:
		return "json"
	case 2:
		return "dot"
	}
	return "spew"
}
