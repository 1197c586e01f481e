package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
)

// The JSON form of requests and responses is the one of spec/Zanzi.tla.
// Strings are encoded rune by rune such that they are plain ASCII.

type obj = map[string]any

func enc(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 0x20 && r <= 0x7e && r != '"' && r != '\\' && r != '~' {
			b.WriteRune(r)
		} else {
			fmt.Fprintf(&b, "~%x;", r)
		}
	}
	return b.String()
}

func dec(s string) string {
	if !strings.Contains(s, "~") {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '~' {
			b.WriteByte(s[i])
			continue
		}
		j := i + strings.IndexByte(s[i:], ';')
		n, err := strconv.ParseInt(s[i+1:j], 16, 32)
		if err != nil {
			panic("bad encoding: " + s)
		}
		b.WriteRune(rune(n))
		i = j
	}
	return b.String()
}

func str(v any) string {
	s, ok := v.(string)
	if !ok {
		panic(fmt.Sprintf("not a string: %v", v))
	}
	return dec(s)
}

func hexBytes(v any) []byte {
	s, _ := v.(string)
	if s == "" {
		return nil
	}
	var n, seed int
	if k, _ := fmt.Sscanf(s, "big:%d:%d", &n, &seed); k == 2 {
		// very large data goes by a name
		b := make([]byte, n)
		rand.New(rand.NewSource(int64(seed))).Read(b)
		bigNames.Store(sha256.Sum256(b), s)
		return b
	}
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(badRequest{"hex " + s})
	}
	return b
}

var bigNames sync.Map

// hexOf is the inverse of hexBytes
func hexOf(b []byte) string {
	if len(b) >= 1024 {
		sum := sha256.Sum256(b)
		if name, ok := bigNames.Load(sum); ok {
			return name.(string)
		}
		return "other:" + hex.EncodeToString(sum[:])
	}
	return hex.EncodeToString(b)
}

func arr(v any) []any {
	a, _ := v.([]any)
	return a
}

// charTable returns the characters of a (decoded) text with their classes
func charTable(s string) []obj {
	out := []obj{}
	for _, r := range s {
		k := "other"
		switch {
		case unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_':
			k = "id"
		case unicode.IsSpace(r):
			k = "sp"
		case strings.ContainsRune("+&->()", r):
			k = string(r)
		}
		out = append(out, obj{"c": enc(string(r)), "k": k})
	}
	return out
}

// variant makes the choices between the ways something may be absent from a message
type variant struct {
	x       uint64
	builder bool // use the builders of the domain package
}

func (v *variant) pick(n int) int {
	v.x += 0x9e3779b97f4a7c15
	z := v.x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	z ^= z >> 31
	return int(z % uint64(n))
}

func (v *variant) entity(res, id string) *domain.Entity {
	if res == "" && id == "" && v.pick(2) == 0 {
		return nil
	}
	return &domain.Entity{Resource: res, Id: id}
}

func (v *variant) subject(n []any) *domain.Subject {
	switch str(n[0]) {
	case "e":
		return &domain.Subject{Subject: &domain.Subject_Entity{Entity: v.entity(str(n[1]), str(n[2]))}}
	case "s":
		if str(n[1]) == "" && str(n[2]) == "" && str(n[3]) == "" && v.pick(2) == 0 {
			return &domain.Subject{Subject: &domain.Subject_EntitySet{}}
		}
		return &domain.Subject{Subject: &domain.Subject_EntitySet{EntitySet: &domain.EntitySet{
			Entity: v.entity(str(n[1]), str(n[2])), Relation: str(n[3])}}}
	case "w":
		if str(n[1]) == "" && v.pick(2) == 0 {
			return &domain.Subject{Subject: &domain.Subject_ResourceSet{}}
		}
		return &domain.Subject{Subject: &domain.Subject_ResourceSet{ResourceSet: &domain.ResourceSet{ResourceName: str(n[1])}}}
	}
	if v.pick(2) == 0 {
		return nil
	}
	return &domain.Subject{}
}

func (v *variant) relationship(o, s []any) *domain.Relationship {
	if str(o[0]) == "x" {
		return nil
	}
	if v.builder {
		b := domain.RelationshipBuilder{}
		var r domain.Relationship
		switch str(s[0]) {
		case "e":
			r = b.Relationship(str(o[1]), str(o[2]), str(o[3]), str(s[1]), str(s[2]))
		case "s":
			r = b.EntitySet(str(o[1]), str(o[2]), str(o[3]), str(s[1]), str(s[2]), str(s[3]))
		case "w":
			r = b.Wildcard(str(o[1]), str(o[2]), str(o[3]), str(s[1]))
		}
		return &r
	}
	r := &domain.Relationship{
		Object:   v.entity(str(o[1]), str(o[2])),
		Relation: str(o[3]),
		Subject:  v.subject(s),
	}
	if r.Object == nil && r.Relation == "" && r.Subject == nil && v.pick(2) == 0 {
		return nil
	}
	return r
}

func (v *variant) accessRequest(o, u []any) *domain.AccessRequest {
	if str(o[0]) == "x" {
		return nil
	}
	return &domain.AccessRequest{
		Object:   v.entity(str(o[1]), str(o[2])),
		Relation: str(o[3]),
		Subject:  v.entity(str(u[1]), str(u[2])),
	}
}

func (v *variant) node(n []any) *domain.RelationNode {
	switch str(n[0]) {
	case "e":
		if str(n[1]) == "" && str(n[2]) == "" && v.pick(2) == 0 {
			return &domain.RelationNode{Node: &domain.RelationNode_Entity{}}
		}
		return &domain.RelationNode{Node: &domain.RelationNode_Entity{Entity: &domain.EntityNode{
			Object: v.entity(str(n[1]), str(n[2]))}}}
	case "s":
		if str(n[1]) == "" && str(n[2]) == "" && str(n[3]) == "" && v.pick(2) == 0 {
			return &domain.RelationNode{Node: &domain.RelationNode_EntitySet{}}
		}
		return &domain.RelationNode{Node: &domain.RelationNode_EntitySet{EntitySet: &domain.EntitySetNode{
			Object: v.entity(str(n[1]), str(n[2])), Relation: str(n[3])}}}
	case "w":
		if str(n[1]) == "" && v.pick(2) == 0 {
			return &domain.RelationNode{Node: &domain.RelationNode_Wildcard{}}
		}
		return &domain.RelationNode{Node: &domain.RelationNode_Wildcard{Wildcard: &domain.WildcardNode{Resource: str(n[1])}}}
	}
	if v.pick(2) == 0 {
		return nil
	}
	return &domain.RelationNode{}
}

func (v *variant) selector(s obj) *domain.RelationshipSelector {
	o, r, u := arr(s["o"]), arr(s["r"]), arr(s["s"])
	if v.builder && str(o[0]) != "res" && str(u[0]) != "res" {
		b := domain.SelectorBuilder{}
		if v.pick(3) == 0 {
			// what was set before is gone
			b.AnyObject().AnyRelation().AnySubject().WithObject(domain.NewEntity("doc", "1"))
			b.Reset()
		}
		switch str(o[0]) {
		case "any":
			b.AnyObject()
		case "obj":
			b.WithObject(domain.NewEntity(str(o[1]), str(o[2])))
		}
		switch str(r[0]) {
		case "any":
			b.AnyRelation()
		case "name":
			b.WithRelation(str(r[1]))
		}
		switch str(u[0]) {
		case "any":
			b.AnySubject()
		case "subj":
			b.WithSubject(v.subject(arr(u[1])))
		}
		s := b.Build()
		return &s
	}
	sel := &domain.RelationshipSelector{}
	wild := func() *domain.WildcardSelector { return &domain.WildcardSelector{} }
	switch str(o[0]) {
	case "any":
		sel.ObjectSelector = &domain.ObjectSelector{Selector: &domain.ObjectSelector_Wildcard{Wildcard: wild()}}
	case "res":
		sel.ObjectSelector = &domain.ObjectSelector{Selector: &domain.ObjectSelector_ResourceSpec{ResourceSpec: str(o[1])}}
	case "obj":
		sel.ObjectSelector = &domain.ObjectSelector{Selector: &domain.ObjectSelector_ObjectSpec{ObjectSpec: v.entity(str(o[1]), str(o[2]))}}
	default:
		if v.pick(2) == 0 {
			sel.ObjectSelector = &domain.ObjectSelector{}
		}
	}
	switch str(r[0]) {
	case "any":
		sel.RelationSelector = &domain.RelationSelector{Selector: &domain.RelationSelector_Wildcard{Wildcard: wild()}}
	case "name":
		sel.RelationSelector = &domain.RelationSelector{Selector: &domain.RelationSelector_RelationName{RelationName: str(r[1])}}
	default:
		if v.pick(2) == 0 {
			sel.RelationSelector = &domain.RelationSelector{}
		}
	}
	switch str(u[0]) {
	case "any":
		sel.SubjectSelector = &domain.SubjectSelector{Selector: &domain.SubjectSelector_Wildcard{Wildcard: wild()}}
	case "res":
		sel.SubjectSelector = &domain.SubjectSelector{Selector: &domain.SubjectSelector_ResourceSpec{ResourceSpec: str(u[1])}}
	case "subj":
		sel.SubjectSelector = &domain.SubjectSelector{Selector: &domain.SubjectSelector_SubjectSpec{SubjectSpec: v.subject(arr(u[1]))}}
	default:
		if v.pick(2) == 0 {
			sel.SubjectSelector = &domain.SubjectSelector{}
		}
	}
	if str(o[0]) == "x" && str(r[0]) == "x" && str(u[0]) == "x" && v.pick(3) == 0 {
		return nil
	}
	return sel
}

var opNames = map[string]domain.Operator{"+": domain.Operator_UNION, "&": domain.Operator_INTERSECTION, "-": domain.Operator_DIFFERENCE}

func (v *variant) tree(t obj) *domain.RelationExpressionTree {
	rule := func(r *domain.Rule) *domain.RelationExpressionTree {
		return &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_Rule{Rule: r}}
	}
	switch t["k"] {
	case "this":
		return rule(&domain.Rule{Rule: &domain.Rule_This{This: &domain.This{}}})
	case "cu":
		return rule(&domain.Rule{Rule: &domain.Rule_Cu{Cu: &domain.ComputedUserset{TargetRelation: str(t["r"])}}})
	case "ttu":
		return rule(&domain.Rule{Rule: &domain.Rule_Ttu{Ttu: &domain.TupleToUserset{
			TuplesetRelation: str(t["t"]), ComputedUsersetRelation: str(t["c"])}}})
	case "op":
		op, ok := opNames[t["op"].(string)]
		if !ok {
			op = domain.Operator(77)
		}
		return &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_OpNode{OpNode: &domain.OpNode{
			Left: v.tree(t["l"].(obj)), Operator: op, Right: v.tree(t["r"].(obj))}}}
	}
	switch v.pick(5) {
	case 0:
		return nil
	case 1:
		return &domain.RelationExpressionTree{}
	case 2:
		return rule(nil)
	case 3:
		return rule(&domain.Rule{})
	}
	return &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_OpNode{}}
}

func (v *variant) expr(e obj) *domain.RelationExpression {
	switch e["f"] {
	case "text":
		return &domain.RelationExpression{Expression: &domain.RelationExpression_Expr{Expr: str(e["s"])}}
	case "tree":
		return &domain.RelationExpression{Expression: &domain.RelationExpression_Tree{Tree: v.tree(e["tree"].(obj))}}
	}
	if v.pick(2) == 0 {
		return nil
	}
	return &domain.RelationExpression{}
}

func (v *variant) restriction(r obj) *domain.SubjectRestriction {
	switch r["f"] {
	case "universal":
		return &domain.SubjectRestriction{SubjectRestriction: &domain.SubjectRestriction_UniversalSet{UniversalSet: &domain.UniversalSet{}}}
	case "set":
		set := &domain.SubjectRestrictionSet{}
		for _, e := range arr(r["es"]) {
			x := arr(e)
			var entry *domain.SubjectRestrictionSet_Restriction
			switch str(x[0]) {
			case "e":
				entry = &domain.SubjectRestrictionSet_Restriction{Entry: &domain.SubjectRestrictionSet_Restriction_Entity{
					Entity: &domain.EntityRestriction{ResourceName: str(x[1])}}}
			case "s":
				entry = &domain.SubjectRestrictionSet_Restriction{Entry: &domain.SubjectRestrictionSet_Restriction_EntitySet{
					EntitySet: &domain.EntitySetRestriction{ResourceName: str(x[1]), RelationName: str(x[2])}}}
			default:
				if v.pick(2) == 0 {
					entry = &domain.SubjectRestrictionSet_Restriction{}
				}
			}
			set.Restrictions = append(set.Restrictions, entry)
		}
		return &domain.SubjectRestriction{SubjectRestriction: &domain.SubjectRestriction_RestrictionSet{RestrictionSet: set}}
	case "unset":
		return &domain.SubjectRestriction{}
	}
	return nil
}

func (v *variant) policy(p obj) *domain.Policy {
	pol := &domain.Policy{Id: str(p["id"]), Name: str(p["name"]), Description: str(p["desc"])}
	for _, a := range arr(p["attrs"]) {
		if pol.Attributes == nil {
			pol.Attributes = map[string]string{}
		}
		pol.Attributes[str(arr(a)[0])] = str(arr(a)[1])
	}
	for _, x := range arr(p["resources"]) {
		r := x.(obj)
		res := &domain.Resource{Name: str(r["name"]), Description: str(r["desc"])}
		for _, y := range arr(r["relations"]) {
			q := y.(obj)
			rel := &domain.Relation{Name: str(q["name"]), Description: str(q["desc"]),
				RelationExpression: v.expr(q["expr"].(obj)), SubjectRestriction: v.restriction(q["restr"].(obj))}
			if rel.Name == "" && rel.RelationExpression == nil && rel.SubjectRestriction == nil && v.pick(2) == 0 {
				rel = nil
			}
			res.Relations = append(res.Relations, rel)
		}
		if res.Name == "" && len(res.Relations) == 0 && v.pick(2) == 0 {
			res = nil
		}
		pol.Resources = append(pol.Resources, res)
	}
	return pol
}

func (v *variant) definition(d obj) *api.PolicyDefinition {
	switch d["f"] {
	case "struct":
		return &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: v.policy(d["p"].(obj))}}
	case "yaml":
		return &api.PolicyDefinition{Definition: &api.PolicyDefinition_PolicyYaml{PolicyYaml: str(d["text"])}}
	}
	switch v.pick(3) {
	case 0:
		return nil
	case 1:
		return &api.PolicyDefinition{}
	}
	return &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{}}
}

// ---- responses ----

func nodeSubject(s *domain.Subject) []any {
	switch x := s.GetSubject().(type) {
	case *domain.Subject_Entity:
		return []any{"e", enc(x.Entity.GetResource()), enc(x.Entity.GetId())}
	case *domain.Subject_EntitySet:
		return []any{"s", enc(x.EntitySet.GetEntity().GetResource()), enc(x.EntitySet.GetEntity().GetId()), enc(x.EntitySet.GetRelation())}
	case *domain.Subject_ResourceSet:
		return []any{"w", enc(x.ResourceSet.GetResourceName())}
	}
	return []any{"x"}
}

func nodeObject(r *domain.Relationship) []any {
	return []any{"s", enc(r.GetObject().GetResource()), enc(r.GetObject().GetId()), enc(r.GetRelation())}
}

func treeJSON(t *domain.RelationExpressionTree) obj {
	switch n := t.GetNode().(type) {
	case *domain.RelationExpressionTree_OpNode:
		op := "?"
		for k, o := range opNames {
			if o == n.OpNode.GetOperator() {
				op = k
			}
		}
		return obj{"k": "op", "op": op, "l": treeJSON(n.OpNode.GetLeft()), "r": treeJSON(n.OpNode.GetRight())}
	case *domain.RelationExpressionTree_Rule:
		switch r := n.Rule.GetRule().(type) {
		case *domain.Rule_This:
			return obj{"k": "this"}
		case *domain.Rule_Cu:
			return obj{"k": "cu", "r": enc(r.Cu.GetTargetRelation())}
		case *domain.Rule_Ttu:
			return obj{"k": "ttu", "t": enc(r.Ttu.GetTuplesetRelation()), "c": enc(r.Ttu.GetComputedUsersetRelation())}
		}
	}
	return obj{"k": "x"}
}

func policyJSON(p *domain.Policy) obj {
	attrs := []any{}
	keys := []string{}
	for k := range p.GetAttributes() {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		attrs = append(attrs, []any{enc(k), enc(p.Attributes[k])})
	}
	resources := []any{}
	for _, r := range p.GetResources() {
		relations := []any{}
		for _, q := range r.GetRelations() {
			expr := obj{"f": "none"}
			switch e := q.GetRelationExpression().GetExpression().(type) {
			case *domain.RelationExpression_Expr:
				expr = obj{"f": "text", "s": enc(e.Expr)}
			case *domain.RelationExpression_Tree:
				expr = obj{"f": "tree", "tree": treeJSON(e.Tree)}
			}
			restr := obj{"f": "none"}
			if q.GetSubjectRestriction() != nil {
				restr = obj{"f": "unset"}
				switch s := q.GetSubjectRestriction().GetSubjectRestriction().(type) {
				case *domain.SubjectRestriction_UniversalSet:
					restr = obj{"f": "universal"}
				case *domain.SubjectRestriction_RestrictionSet:
					es := []any{}
					for _, x := range s.RestrictionSet.GetRestrictions() {
						switch y := x.GetEntry().(type) {
						case *domain.SubjectRestrictionSet_Restriction_Entity:
							es = append(es, []any{"e", enc(y.Entity.GetResourceName())})
						case *domain.SubjectRestrictionSet_Restriction_EntitySet:
							es = append(es, []any{"s", enc(y.EntitySet.GetResourceName()), enc(y.EntitySet.GetRelationName())})
						default:
							es = append(es, []any{"x"})
						}
					}
					restr = obj{"f": "set", "es": es}
				}
			}
			relations = append(relations, obj{"name": enc(q.GetName()), "desc": enc(q.GetDescription()), "expr": expr, "restr": restr})
		}
		resources = append(resources, obj{"name": enc(r.GetName()), "desc": enc(r.GetDescription()), "relations": relations})
	}
	return obj{"id": enc(p.GetId()), "name": enc(p.GetName()), "desc": enc(p.GetDescription()), "attrs": attrs, "resources": resources}
}
