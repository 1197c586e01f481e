package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

func resultName(s string) string {
	switch strings.ToUpper(s) {
	case "SUCCESS":
		return "S"
	case "FAILURE":
		return "F"
	}
	return "U"
}

type jsonEntity struct {
	Resource string `json:"resource"`
	Id       string `json:"id"`
}

type jsonNode struct {
	Node struct {
		EntitySet *struct {
			Object   jsonEntity `json:"object"`
			Relation string     `json:"relation"`
		}
		Entity *struct {
			Object jsonEntity `json:"object"`
		}
		Wildcard *struct {
			Resource string `json:"resource"`
		}
	}
}

// goalTreeFromJSON reads a goal tree document. A path has a RelationNode, a difference has Left
// and Right and the other operators have Paths.
func goalTreeFromJSON(raw json.RawMessage) (obj, error) {
	if len(raw) == 0 || string(raw) == "null" {
		return obj{"t": "nil", "res": "U"}, nil
	}
	var m map[string]json.RawMessage
	if err := json.Unmarshal(raw, &m); err != nil {
		return nil, err
	}
	var res string
	if err := json.Unmarshal(m["Result"], &res); err != nil {
		return nil, fmt.Errorf("result %s: %w", m["Result"], err)
	}
	res = resultName(res)
	if r, ok := m["RelationNode"]; ok {
		var n jsonNode
		if err := json.Unmarshal(r, &n); err != nil {
			return nil, err
		}
		var node []any
		switch {
		case n.Node.EntitySet != nil:
			s := n.Node.EntitySet
			node = []any{"s", enc(s.Object.Resource), enc(s.Object.Id), enc(s.Relation)}
		case n.Node.Entity != nil:
			node = []any{"e", enc(n.Node.Entity.Object.Resource), enc(n.Node.Entity.Object.Id)}
		case n.Node.Wildcard != nil:
			node = []any{"w", enc(n.Node.Wildcard.Resource)}
		default:
			node = []any{"x"}
		}
		sub, err := goalTreeFromJSON(m["Path"])
		if err != nil {
			return nil, err
		}
		var why string
		if err := json.Unmarshal(m["Reason"], &why); err != nil {
			return nil, fmt.Errorf("reason %s: %w", m["Reason"], err)
		}
		return obj{"t": "path", "n": node, "res": res, "sub": sub, "why": enc(why)}, nil
	}
	if l, ok := m["Left"]; ok {
		left, err := goalTreeFromJSON(l)
		if err != nil {
			return nil, err
		}
		right, err := goalTreeFromJSON(m["Right"])
		if err != nil {
			return nil, err
		}
		return obj{"t": "diff", "res": res, "l": left, "r": right}, nil
	}
	if p, ok := m["Paths"]; ok {
		var paths []json.RawMessage
		if err := json.Unmarshal(p, &paths); err != nil {
			return nil, err
		}
		subs := []any{}
		for _, x := range paths {
			sub, err := goalTreeFromJSON(x)
			if err != nil {
				return nil, err
			}
			subs = append(subs, sub)
		}
		return obj{"t": "multi", "res": res, "subs": subs}, nil
	}
	return nil, fmt.Errorf("unknown goal tree node")
}

// ---- DOT ----

type dotGraph struct {
	labels map[string]string
	order  []string
	edges  [][2]string
}

func dotTokens(text string) ([]string, error) {
	var toks []string
	i := 0
	for i < len(text) {
		c := text[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '"':
			var b strings.Builder
			b.WriteByte('"')
			i++
			for {
				if i >= len(text) {
					return nil, fmt.Errorf("unterminated string")
				}
				if text[i] == '\\' && i+1 < len(text) && (text[i+1] == '"' || text[i+1] == '\\') {
					b.WriteByte(text[i+1])
					i += 2
					continue
				}
				if text[i] == '"' {
					i++
					break
				}
				b.WriteByte(text[i])
				i++
			}
			toks = append(toks, b.String())
		case c == '-' && i+1 < len(text) && text[i+1] == '>':
			toks = append(toks, "->")
			i += 2
		case strings.IndexByte("{}[]=;,", c) >= 0:
			toks = append(toks, string(c))
			i++
		case c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(text) && (text[j] == '_' || text[j] >= '0' && text[j] <= '9' || text[j] >= 'a' && text[j] <= 'z' || text[j] >= 'A' && text[j] <= 'Z') {
				j++
			}
			toks = append(toks, "\""+text[i:j]) // identifiers and strings are the same
			i = j
		default:
			return nil, fmt.Errorf("character %q at %d", c, i)
		}
	}
	return toks, nil
}

func parseDOT(text string) (*dotGraph, error) {
	toks, err := dotTokens(text)
	if err != nil {
		return nil, err
	}
	pos := 0
	next := func() string {
		if pos < len(toks) {
			pos++
			return toks[pos-1]
		}
		return ""
	}
	peek := func() string {
		if pos < len(toks) {
			return toks[pos]
		}
		return ""
	}
	if t := next(); t != "\"digraph" {
		return nil, fmt.Errorf("not a digraph: %q", t)
	}
	if strings.HasPrefix(peek(), "\"") {
		next()
	}
	if t := next(); t != "{" {
		return nil, fmt.Errorf("want {, have %q", t)
	}
	g := &dotGraph{labels: map[string]string{}}
	add := func(id string) {
		if _, ok := g.labels[id]; !ok {
			g.labels[id] = ""
			g.order = append(g.order, id)
		}
	}
	for peek() != "}" {
		if peek() == ";" {
			next()
			continue
		}
		id := next()
		if !strings.HasPrefix(id, "\"") {
			return nil, fmt.Errorf("want id, have %q", id)
		}
		id = id[1:]
		add(id)
		from := id
		isEdge := false
		for peek() == "->" {
			next()
			to := next()
			if !strings.HasPrefix(to, "\"") {
				return nil, fmt.Errorf("want id, have %q", to)
			}
			add(to[1:])
			g.edges = append(g.edges, [2]string{from, to[1:]})
			from = to[1:]
			isEdge = true
		}
		if peek() == "[" {
			next()
			for peek() != "]" {
				if peek() == "," || peek() == ";" {
					next()
					continue
				}
				k := next()
				if next() != "=" {
					return nil, fmt.Errorf("want = after %q", k)
				}
				v := next()
				if !strings.HasPrefix(v, "\"") {
					return nil, fmt.Errorf("want value, have %q", v)
				}
				if k == "\"label" && !isEdge {
					g.labels[id] = v[1:]
				}
			}
			next()
		}
	}
	next()
	if pos != len(toks) {
		return nil, fmt.Errorf("text after graph")
	}
	return g, nil
}

// goalTreeFromDOT reads a goal tree back. Children are numbered in the order they were written.
func goalTreeFromDOT(text string) (obj, error) {
	g, err := parseDOT(text)
	if err != nil {
		return nil, err
	}
	children := map[string][]string{}
	indegree := map[string]int{}
	for _, e := range g.edges {
		children[e[0]] = append(children[e[0]], e[1])
		indegree[e[1]]++
	}
	for _, c := range children {
		sort.Slice(c, func(i, j int) bool {
			a, _ := strconv.Atoi(c[i])
			b, _ := strconv.Atoi(c[j])
			return a < b
		})
	}
	for id, n := range indegree {
		if n != 1 {
			return nil, fmt.Errorf("node %v has %d parents", id, n)
		}
	}
	var build func(id string) (obj, error)
	seen := 0
	build = func(id string) (obj, error) {
		seen++
		label := g.labels[id]
		kids := []any{}
		for _, c := range children[id] {
			k, err := build(c)
			if err != nil {
				return nil, err
			}
			kids = append(kids, k)
		}
		i := strings.LastIndex(label, "\nresult: ")
		if i < 0 {
			return nil, fmt.Errorf("label %q", label)
		}
		res := resultName(label[i+len("\nresult: "):])
		head := label[:i]
		const path = "PathNode\nrelation node: "
		switch {
		case strings.HasPrefix(head, path):
			j := strings.LastIndex(head, "\nreason: ")
			if j < 0 {
				return nil, fmt.Errorf("label %q", label)
			}
			sub := obj{"t": "nil", "res": "U"}
			if len(kids) > 1 {
				return nil, fmt.Errorf("path %q with %d children", label, len(kids))
			}
			if len(kids) == 1 {
				sub = kids[0].(obj)
			}
			return obj{"t": "path", "n": []any{"lab", enc(head[len(path):j])}, "res": res, "sub": sub, "why": enc(head[j+len("\nreason: "):])}, nil
		case head == "ORNode":
			return obj{"t": "or", "res": res, "subs": kids}, nil
		case head == "ANDNode":
			return obj{"t": "and", "res": res, "subs": kids}, nil
		case head == "DifferenceNode":
			if len(kids) != 2 {
				return nil, fmt.Errorf("difference with %d children", len(kids))
			}
			return obj{"t": "diff", "res": res, "l": kids[0], "r": kids[1]}, nil
		}
		return nil, fmt.Errorf("label %q", label)
	}
	if len(children["root"]) != 1 {
		return nil, fmt.Errorf("%d roots", len(children["root"]))
	}
	t, err := build(children["root"][0])
	if err == nil && seen != len(g.order)-1 {
		return nil, fmt.Errorf("%d of %d nodes are part of the tree", seen, len(g.order)-1)
	}
	return t, err
}

// dumpJSON lists the labels of the nodes and the edges [id, id, label, label], without the root
func dumpJSON(text string) (obj, error) {
	g, err := parseDOT(text)
	if err != nil {
		return nil, err
	}
	num := map[string]int{}
	nodes := []any{}
	for i, id := range g.order {
		num[id] = i
		if id == "root" {
			continue
		}
		nodes = append(nodes, enc(g.labels[id]))
	}
	edges := []any{}
	for _, e := range g.edges {
		if e[0] == "root" {
			continue
		}
		edges = append(edges, []any{num[e[0]], num[e[1]], enc(g.labels[e[0]]), enc(g.labels[e[1]])})
	}
	return obj{"nodes": nodes, "edges": edges}, nil
}
