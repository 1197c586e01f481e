From 2dc684618cc8c539dc72bbe697592f31058c3750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:57 +0000
Subject: [PATCH 01/21] fix: resolve shared and cyclic nodes correctly during
 search

A node reached a second time was treated as a dead end, which made
intersections deny and differences grant wrongly whenever branches shared
a node, the subject included.
---
 internal/relation_graph/searcher.go | 64 +++++++++++++++++++++++------
 1 file changed, 51 insertions(+), 13 deletions(-)

diff --git a/internal/relation_graph/searcher.go b/internal/relation_graph/searcher.go
index d6625ba..550a423 100644
--- a/internal/relation_graph/searcher.go
+++ b/internal/relation_graph/searcher.go
@@ -11,17 +11,26 @@ import (
 
 func NewSearcher(builder goalTreeBuilder, logger types.Logger) Searcher {
 	return Searcher{
-		builder:   builder,
-		logger:    logger,
-		seenNodes: make(map[string]struct{}),
+		builder: builder,
+		logger:  logger,
+		trail:   make(map[string]bool),
+		results: make(map[string]SearchResult),
 	}
 }
 
 type Searcher struct {
-	builder       goalTreeBuilder
-	logger        types.Logger
-	seenNodes     map[string]struct{}
-	resolvedTrees map[string]GoalTree
+	builder goalTreeBuilder
+	logger  types.Logger
+
+	// trail contains the nodes whose search is under way.
+	// The value is true if the node was reached again from one of its own paths.
+	trail map[string]bool
+
+	// results contains the outcome of the nodes which were already searched
+	results map[string]SearchResult
+
+	// failures lists the nodes with a FAILURE result, in the order they were resolved
+	failures []string
 }
 
 // Search receives an Origin and a Goal and searches for a Path in the RelationGraph between
@@ -183,14 +192,18 @@ func (s *Searcher) searchPath(ctx context.Context, policy *domain.Policy, node *
 		Reason:       node.Reason,
 	}
 
-	// add trail
-	// use cached value
 	nodeId := node.RelationNode.Id()
-	if _, ok := s.seenNodes[nodeId]; ok {
-		s.logger.Debugf("duplicated node - terminating brach: %v", node.RelationNode)
+	if result, ok := s.results[nodeId]; ok {
+		s.logger.Debugf("node already resolved: %v: %v", node.RelationNode, result)
+		pathNode.Result = result
+		return pathNode, nil
+	}
+	if _, ok := s.trail[nodeId]; ok {
+		// going around a cycle does not lead to the goal
+		s.logger.Debugf("cycle - terminating branch: %v", node.RelationNode)
+		s.trail[nodeId] = true
+		pathNode.Result = SearchResult_FAILURE
 		return pathNode, nil
-	} else {
-		s.seenNodes[nodeId] = struct{}{}
 	}
 
 	spec := GoalFoundSpec{}
@@ -203,6 +216,9 @@ func (s *Searcher) searchPath(ctx context.Context, policy *domain.Policy, node *
 		return pathNode, nil
 	}
 
+	s.trail[nodeId] = false
+	firstFailure := len(s.failures)
+
 	goalTree, err := s.builder.Build(ctx, policy, pathNode.RelationNode)
 	if err != nil {
 		return nil, err
@@ -216,10 +232,32 @@ func (s *Searcher) searchPath(ctx context.Context, policy *domain.Policy, node *
 	goalTree.SetParent(pathNode)
 	pathNode.Path = goalTree
 	pathNode.Result = goalTree.GetResult()
+	s.resolve(nodeId, pathNode.Result, firstFailure)
 
 	return pathNode, nil
 }
 
+// resolve ends the search of a node and stores its result.
+//
+// If a node which leads to the goal was also part of a cycle, the failures found since its search began
+// may only be due to the cycle having been cut at the node, therefore these are forgotten.
+func (s *Searcher) resolve(nodeId string, result SearchResult, firstFailure int) {
+	inCycle := s.trail[nodeId]
+	delete(s.trail, nodeId)
+	s.results[nodeId] = result
+
+	if result != SearchResult_SUCCESS {
+		s.failures = append(s.failures, nodeId)
+		return
+	}
+	if inCycle {
+		for _, failure := range s.failures[firstFailure:] {
+			delete(s.results, failure)
+		}
+		s.failures = s.failures[:firstFailure]
+	}
+}
+
 type GoalFoundSpec struct{}
 
 func (s *GoalFoundSpec) Found(pathNode *PathNode, goal *Goal) bool {
-- 
2.43.0


From e75c6b4b6ea1c8eb59781eaa699c4846712cce2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:47 +0000
Subject: [PATCH 02/21] fix: derive node keys which never collide

Nodes were keyed by the concatenation of their fields, so that distinct
relationships could overwrite, delete or grant on behalf of each other.
---
 internal/store/kv_store/model.go |  6 +++---
 pkg/domain/relation_graph.go     | 19 ++++---------------
 2 files changed, 7 insertions(+), 18 deletions(-)

diff --git a/internal/store/kv_store/model.go b/internal/store/kv_store/model.go
index 659156d..ea63a26 100644
--- a/internal/store/kv_store/model.go
+++ b/internal/store/kv_store/model.go
@@ -2,6 +2,7 @@ package kv_store
 
 import (
 	"crypto/sha256"
+	"fmt"
 
 	rcdb "github.com/sourcenetwork/raccoondb"
 
@@ -24,9 +25,8 @@ type relationNodeKeyer struct{}
 
 func (t *relationNodeKeyer) Key(node *RelationNode) []byte {
 	hasher := sha256.New()
-	hasher.Write([]byte(node.Resource))
-	hasher.Write([]byte(node.Id))
-	hasher.Write([]byte(node.Relation))
+	// quoting delimits the fields, such that different nodes never hash the same bytes
+	fmt.Fprintf(hasher, "%d%q%q%q", node.Type, node.Resource, node.Id, node.Relation)
 	return hasher.Sum(nil)
 }
 
diff --git a/pkg/domain/relation_graph.go b/pkg/domain/relation_graph.go
index a40e222..0c513bb 100644
--- a/pkg/domain/relation_graph.go
+++ b/pkg/domain/relation_graph.go
@@ -35,26 +35,15 @@ func (n *RelationNode) IsTerminalNode() bool {
 // Hash produces an Id of a RelationNode which uniquely identifies it.
 func (n *RelationNode) Id() string {
 	hasher := sha256.New()
-	separator := []byte{byte('/')}
 
-	// since Ids and Relations are required, it's impossible
-	// for users to created an entity node which would cause a clash
+	// quoting delimits the fields, such that different nodes never hash the same bytes
 	switch node := n.Node.(type) {
 	case *RelationNode_EntitySet:
-		hasher.Write([]byte(node.EntitySet.Object.Resource))
-		hasher.Write(separator)
-		hasher.Write([]byte(node.EntitySet.Object.Id))
-		hasher.Write(separator)
-		hasher.Write([]byte(node.EntitySet.Relation))
+		fmt.Fprintf(hasher, "entityset%q%q%q", node.EntitySet.Object.Resource, node.EntitySet.Object.Id, node.EntitySet.Relation)
 	case *RelationNode_Entity:
-		hasher.Write([]byte(node.Entity.Object.Resource))
-		hasher.Write(separator)
-		hasher.Write([]byte(node.Entity.Object.Id))
-		hasher.Write(separator)
+		fmt.Fprintf(hasher, "entity%q%q", node.Entity.Object.Resource, node.Entity.Object.Id)
 	case *RelationNode_Wildcard:
-		hasher.Write([]byte(node.Wildcard.Resource))
-		hasher.Write(separator)
-		hasher.Write(separator)
+		fmt.Fprintf(hasher, "wildcard%q", node.Wildcard.Resource)
 	default:
 	}
 
-- 
2.43.0


From d4e02e086126c66476c73c84cea42f6bf95b1e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:50 +0000
Subject: [PATCH 03/21] fix: store relationship data separately for each policy

Data was keyed by relationship only: equal relationships of two policies
shared (and deleted) each other's application data and creation time.
---
 internal/store/kv_store/kv_store.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/store/kv_store/kv_store.go b/internal/store/kv_store/kv_store.go
index 3b1d167..fcd3892 100644
--- a/internal/store/kv_store/kv_store.go
+++ b/internal/store/kv_store/kv_store.go
@@ -60,7 +60,8 @@ func (kv *KVStore) getRelationshipDataStore(policyId string) *rcdb.ObjectStore[*
 	factory := func() *RelationshipData { return &RelationshipData{} }
 	marshaler := rcdb.ProtoMarshaler[*RelationshipData](factory)
 	ider := relationshipDataIDer{}
-	store := rcdb.NewObjStore[*RelationshipData](kv.relationshipDataPrefixKV, marshaler, &ider)
+	policyKV := rcdb.NewWrapperKV(kv.relationshipDataPrefixKV, []byte(policyId))
+	store := rcdb.NewObjStore[*RelationshipData](policyKV, marshaler, &ider)
 	return &store
 }
 
-- 
2.43.0


From 4cfb33169e75f15ad49c755183dad7155ecd8935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:53 +0000
Subject: [PATCH 04/21] fix: encode the policy id in relationship keys

Ids containing the key separator could fall in the key range of another
policy, whose relationships were then listed and deleted along.
---
 internal/store/kv_store/kv_store.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/store/kv_store/kv_store.go b/internal/store/kv_store/kv_store.go
index fcd3892..cccb186 100644
--- a/internal/store/kv_store/kv_store.go
+++ b/internal/store/kv_store/kv_store.go
@@ -1,6 +1,8 @@
 package kv_store
 
 import (
+	"encoding/hex"
+
 	rcdb "github.com/sourcenetwork/raccoondb"
 
 	"github.com/sourcenetwork/zanzi/internal/policy"
@@ -44,10 +46,16 @@ func (kv *KVStore) getPolicyStore() *rcdb.ObjectStore[*domain.PolicyRecord] {
 	return &kv.policyStore
 }
 
+// policyPrefix encodes a policy id as a key prefix free of the key separator,
+// such that no policy's keys fall in the key range of another.
+func policyPrefix(policyId string) []byte {
+	return []byte(hex.EncodeToString([]byte(policyId)))
+}
+
 func (kv *KVStore) getRelationshipStore(policyId string) rcdb.RaccoonStore[*Relationship, *RelationNode] {
 	factory := func() *Relationship { return &Relationship{} }
 	marshaler := rcdb.ProtoMarshaler[*Relationship](factory)
-	store := rcdb.NewWrapperKV(kv.relationshipPrefixKV, []byte(policyId))
+	store := rcdb.NewWrapperKV(kv.relationshipPrefixKV, policyPrefix(policyId))
 	schema := rcdb.RaccoonSchema[*Relationship, *RelationNode]{
 		Store:     store,
 		Keyer:     &relationNodeKeyer{},
@@ -60,7 +68,7 @@ func (kv *KVStore) getRelationshipDataStore(policyId string) *rcdb.ObjectStore[*
 	factory := func() *RelationshipData { return &RelationshipData{} }
 	marshaler := rcdb.ProtoMarshaler[*RelationshipData](factory)
 	ider := relationshipDataIDer{}
-	policyKV := rcdb.NewWrapperKV(kv.relationshipDataPrefixKV, []byte(policyId))
+	policyKV := rcdb.NewWrapperKV(kv.relationshipDataPrefixKV, policyPrefix(policyId))
 	store := rcdb.NewObjStore[*RelationshipData](policyKV, marshaler, &ider)
 	return &store
 }
-- 
2.43.0


From 5836a7d176b24f476cb690e4c7b759594792e3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:20 +0000
Subject: [PATCH 05/21] fix: return the resource of entity set subjects

Subject.GetResourceName returned the relation, so that selecting by an
entity set subject was refused.
---
 pkg/domain/relationship.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/domain/relationship.go b/pkg/domain/relationship.go
index ebad6d7..4a5bd38 100644
--- a/pkg/domain/relationship.go
+++ b/pkg/domain/relationship.go
@@ -84,7 +84,7 @@ func (s *Subject) GetResourceName() string {
 	case *Subject_Entity:
 		return subj.Entity.Resource
 	case *Subject_EntitySet:
-		return subj.EntitySet.Relation
+		return subj.EntitySet.Entity.Resource
 	case *Subject_ResourceSet:
 		return subj.ResourceSet.ResourceName
 	}
-- 
2.43.0


From 8806bb406430d81c3d70b8eb894af6877641330c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:20 +0000
Subject: [PATCH 06/21] fix: compare selected entities by value of their fields

---
 internal/store/kv_store/mapper.go            | 51 ++++++++++++++++++++
 internal/store/kv_store/policy_repository.go |  2 +-
 2 files changed, 52 insertions(+), 1 deletion(-)

diff --git a/internal/store/kv_store/mapper.go b/internal/store/kv_store/mapper.go
index 3a6897f..c9cf2ba 100644
--- a/internal/store/kv_store/mapper.go
+++ b/internal/store/kv_store/mapper.go
@@ -82,6 +82,57 @@ func (m *relationshipMapper) FromInternal(relationship *Relationship) domain.Rel
 	}
 }
 
+// CopySelector copies the fields of a selector.
+//
+// Exact selectors are compared with stored relationships through reflection, which would
+// also compare the internal state of messages that were received or printed.
+func (m *relationshipMapper) CopySelector(selector *domain.RelationshipSelector) *domain.RelationshipSelector {
+	object := selector.GetObjectSelector().GetSelector()
+	if spec, ok := object.(*domain.ObjectSelector_ObjectSpec); ok {
+		object = &domain.ObjectSelector_ObjectSpec{
+			ObjectSpec: domain.NewEntity(spec.ObjectSpec.GetResource(), spec.ObjectSpec.GetId()),
+		}
+	}
+
+	subject := selector.GetSubjectSelector().GetSelector()
+	if spec, ok := subject.(*domain.SubjectSelector_SubjectSpec); ok {
+		subject = &domain.SubjectSelector_SubjectSpec{
+			SubjectSpec: m.copySubject(spec.SubjectSpec),
+		}
+	}
+
+	return &domain.RelationshipSelector{
+		ObjectSelector:   &domain.ObjectSelector{Selector: object},
+		RelationSelector: &domain.RelationSelector{Selector: selector.GetRelationSelector().GetSelector()},
+		SubjectSelector:  &domain.SubjectSelector{Selector: subject},
+	}
+}
+
+func (m *relationshipMapper) copySubject(subject *domain.Subject) *domain.Subject {
+	copied := &domain.Subject{}
+	switch s := subject.GetSubject().(type) {
+	case *domain.Subject_Entity:
+		copied.Subject = &domain.Subject_Entity{
+			Entity: domain.NewEntity(s.Entity.GetResource(), s.Entity.GetId()),
+		}
+	case *domain.Subject_EntitySet:
+		entity := s.EntitySet.GetEntity()
+		copied.Subject = &domain.Subject_EntitySet{
+			EntitySet: &domain.EntitySet{
+				Entity:   domain.NewEntity(entity.GetResource(), entity.GetId()),
+				Relation: s.EntitySet.GetRelation(),
+			},
+		}
+	case *domain.Subject_ResourceSet:
+		copied.Subject = &domain.Subject_ResourceSet{
+			ResourceSet: &domain.ResourceSet{
+				ResourceName: s.ResourceSet.GetResourceName(),
+			},
+		}
+	}
+	return copied
+}
+
 func (m *relationshipMapper) FromPublicRelationNode(node *domain.RelationNode) RelationNode {
 	var resource, id, relation string
 	var relType RelationType
diff --git a/internal/store/kv_store/policy_repository.go b/internal/store/kv_store/policy_repository.go
index bff9aa1..2529f6e 100644
--- a/internal/store/kv_store/policy_repository.go
+++ b/internal/store/kv_store/policy_repository.go
@@ -155,7 +155,7 @@ func (r *policyRepository) FindRelationships(ctx context.Context, policyId strin
 		return nil, err
 	}
 
-	spec, err := policy.NewSelectorSpec(selector)
+	spec, err := policy.NewSelectorSpec(r.mapper.CopySelector(selector))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 5d30f4cc3315b8e740ad0ffe67b549f8c80a6e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:20 +0000
Subject: [PATCH 07/21] fix: accept relation selectors for any object

A relation name combined with the object wildcard dereferenced a nil resource.
---
 internal/policy/spec.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/policy/spec.go b/internal/policy/spec.go
index b387c56..02447b4 100644
--- a/internal/policy/spec.go
+++ b/internal/policy/spec.go
@@ -383,6 +383,15 @@ func (s *ValidSelectorSpec) validRelationSelector(objSelector *domain.ObjectSele
 
 	relName := relSelector.GetRelationName()
 
+	if objSelector.GetWildcard() != nil {
+		for _, resource := range policy.Resources {
+			if resource.GetRelationByName(relName) != nil {
+				return nil
+			}
+		}
+		return fmt.Errorf("relation %v: %w", relName, ErrRelationNotFound)
+	}
+
 	resourceName := s.getObjectSelectorResourceName(objSelector)
 	resource := policy.GetResourceByName(resourceName)
 	relation := resource.GetRelationByName(relName)
-- 
2.43.0


From b7d7249f32fa20071b9e98fa9c209dc1bb932a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:02 +0000
Subject: [PATCH 08/21] fix: verify that required fields are present

The generated Validate methods check nothing, thus policies without names
and relationships without object, relation or subject were accepted, or
panicked.
---
 internal/policy/spec.go | 43 +++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/internal/policy/spec.go b/internal/policy/spec.go
index 02447b4..57c36eb 100644
--- a/internal/policy/spec.go
+++ b/internal/policy/spec.go
@@ -17,13 +17,13 @@ func (s *ValidPolicySpec) Verify(policy *domain.Policy) error {
 }
 
 func (s *ValidPolicySpec) verify(policy *domain.Policy) error {
-	lut := NewPolicyLookUpTable(policy)
-
-	if err := s.UniqueResourceAndRelationsNames(policy); err != nil {
+	if err := s.RequiredFieldsPresent(policy); err != nil {
 		return err
 	}
 
-	if err := s.RequiredFieldsPresent(policy); err != nil {
+	lut := NewPolicyLookUpTable(policy)
+
+	if err := s.UniqueResourceAndRelationsNames(policy); err != nil {
 		return err
 	}
 
@@ -39,6 +39,21 @@ func (s *ValidPolicySpec) verify(policy *domain.Policy) error {
 }
 
 func (s *ValidPolicySpec) RequiredFieldsPresent(policy *domain.Policy) error {
+	if policy.Id == "" {
+		return fmt.Errorf("policy id required: %w", ErrInvalidPolicy)
+	}
+
+	for _, resource := range policy.Resources {
+		if resource.GetName() == "" {
+			return fmt.Errorf("resource name required: %w", ErrInvalidPolicy)
+		}
+		for _, relation := range resource.Relations {
+			if relation.GetName() == "" {
+				return fmt.Errorf("resource %v: relation name required: %w", resource.Name, ErrInvalidPolicy)
+			}
+		}
+	}
+
 	return policy.Validate()
 }
 
@@ -173,13 +188,29 @@ type AllowedRelationshipSpec struct {
 
 // ValidateRelationship checks the relationship contains the rquried fields
 func (s *AllowedRelationshipSpec) requiredFields(relationship *domain.Relationship) error {
-	err := relationship.Validate()
-	if err != nil {
+	ok := s.validEntity(relationship.GetObject()) && relationship.GetRelation() != ""
+
+	switch subject := relationship.GetSubject().GetSubject().(type) {
+	case *domain.Subject_Entity:
+		ok = ok && s.validEntity(subject.Entity)
+	case *domain.Subject_EntitySet:
+		ok = ok && s.validEntity(subject.EntitySet.GetEntity()) && subject.EntitySet.GetRelation() != ""
+	case *domain.Subject_ResourceSet:
+		ok = ok && subject.ResourceSet.GetResourceName() != ""
+	default:
+		ok = false
+	}
+
+	if !ok || relationship.Validate() != nil {
 		return fmt.Errorf("relationship %v: %w", relationship, ErrInvalidRelationship)
 	}
 	return nil
 }
 
+func (s *AllowedRelationshipSpec) validEntity(entity *domain.Entity) bool {
+	return entity.GetResource() != "" && entity.GetId() != ""
+}
+
 // checkSymbols verifies that the symbols referred to in a Relationship are valid within a Policy
 // eg. validates the resources and relation names
 func (s *AllowedRelationshipSpec) checkSymbols(relationship *domain.Relationship, lut PolicyLookUpTable) error {
-- 
2.43.0


From c7e119778a4d544039ec1cafc715cb502208456d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:25 +0000
Subject: [PATCH 09/21] fix: refuse incomplete policies, relationships and
 selectors

Requests with missing nested messages or unset alternatives panicked.
---
 internal/policy/helpers.go             |  7 ++++--
 internal/policy/service.go             | 12 +++++++++
 internal/policy/spec.go                | 35 ++++++++++++++------------
 pkg/domain/relation_expression_tree.go | 20 +++++++++++++++
 pkg/domain/relationship.go             |  8 +++---
 5 files changed, 60 insertions(+), 22 deletions(-)

diff --git a/internal/policy/helpers.go b/internal/policy/helpers.go
index 588caf0..8095138 100644
--- a/internal/policy/helpers.go
+++ b/internal/policy/helpers.go
@@ -21,7 +21,7 @@ func GetExpressionTree(r *domain.Relation) (*domain.RelationExpressionTree, erro
 	var tree *domain.RelationExpressionTree
 	var err error
 
-	switch t := r.RelationExpression.Expression.(type) {
+	switch t := r.RelationExpression.GetExpression().(type) {
 	case *domain.RelationExpression_Expr:
 		tree, err = parser.Parse(t.Expr)
 		if err != nil {
@@ -40,7 +40,7 @@ func GetPolicyFromDefinition(d *api.PolicyDefinition) (*domain.Policy, error) {
 	var policy *domain.Policy
 	var err error
 
-	switch definition := d.Definition.(type) {
+	switch definition := d.GetDefinition().(type) {
 	case *api.PolicyDefinition_Policy:
 		policy = definition.Policy
 	case *api.PolicyDefinition_PolicyYaml:
@@ -52,6 +52,9 @@ func GetPolicyFromDefinition(d *api.PolicyDefinition) (*domain.Policy, error) {
 	if err != nil {
 		return nil, err
 	}
+	if policy == nil {
+		return nil, fmt.Errorf("PolicyDefinition %v: %w", d, domain.ErrInvalidVariant)
+	}
 
 	return policy, err
 }
diff --git a/internal/policy/service.go b/internal/policy/service.go
index dc5d1ab..de1231f 100644
--- a/internal/policy/service.go
+++ b/internal/policy/service.go
@@ -199,6 +199,12 @@ func (s *Service) DeleteRelationship(
 	req *api.DeleteRelationshipRequest) (*api.DeleteRelationshipResponse, error) {
 	repo := s.getPolicyRepository()
 
+	spec := AllowedRelationshipSpec{}
+	err := spec.requiredFields(req.Relationship)
+	if err != nil {
+		return nil, fmt.Errorf("delete Relationship: %w", err)
+	}
+
 	found, err := repo.DeleteRelationship(ctx, req.PolicyId, req.Relationship)
 	if err != nil {
 		return nil, fmt.Errorf("delete Relationship: %w", err)
@@ -214,6 +220,12 @@ func (s *Service) GetRelationship(
 	req *api.GetRelationshipRequest) (*api.GetRelationshipResponse, error) {
 	repo := s.getPolicyRepository()
 
+	spec := AllowedRelationshipSpec{}
+	err := spec.requiredFields(req.Relationship)
+	if err != nil {
+		return nil, fmt.Errorf("get relationship: %w", err)
+	}
+
 	record, err := repo.GetRelationship(ctx, req.PolicyId, req.Relationship)
 	if err != nil {
 		return nil, fmt.Errorf("get relationship: %w", err)
diff --git a/internal/policy/spec.go b/internal/policy/spec.go
index 57c36eb..2757bac 100644
--- a/internal/policy/spec.go
+++ b/internal/policy/spec.go
@@ -97,6 +97,9 @@ func (s *ValidPolicySpec) RelationExpressionWellDefined(policy *domain.Policy, l
 			if err != nil {
 				return fmt.Errorf("resoruce %v: relation %v: %w", resource.Name, relation.Name, err)
 			}
+			if !tree.IsComplete() {
+				return fmt.Errorf("resoruce %v: relation %v: incomplete tree: %w", resource.Name, relation.Name, ErrRelExpTree)
+			}
 			rules := tree.GetRules()
 			for _, rule := range rules {
 				err := s.policyContainsRelationsInRule(resource.Name, relation.Name, lut, rule)
@@ -151,7 +154,7 @@ func (s *ValidPolicySpec) SubjectRestrictionsConsistent(policy *domain.Policy, l
 }
 
 func (s *ValidPolicySpec) ValidSubjectRestriction(restriction *domain.SubjectRestriction, lut PolicyLookUpTable) error {
-	switch restrictionSet := restriction.SubjectRestriction.(type) {
+	switch restrictionSet := restriction.GetSubjectRestriction().(type) {
 	case *domain.SubjectRestriction_RestrictionSet:
 		return s.validSubjectRestrictionSet(restrictionSet.RestrictionSet, lut)
 	case *domain.SubjectRestriction_UniversalSet:
@@ -163,14 +166,14 @@ func (s *ValidPolicySpec) ValidSubjectRestriction(restriction *domain.SubjectRes
 
 func (s *ValidPolicySpec) validSubjectRestrictionSet(restrictionSet *domain.SubjectRestrictionSet, lut PolicyLookUpTable) error {
 
-	for _, elem := range restrictionSet.Restrictions {
-		switch restriction := elem.Entry.(type) {
+	for _, elem := range restrictionSet.GetRestrictions() {
+		switch restriction := elem.GetEntry().(type) {
 		case *domain.SubjectRestrictionSet_Restriction_Entity:
-			if lut.GetResource(restriction.Entity.ResourceName) == nil {
-				return fmt.Errorf("no resource %v", restriction.Entity.ResourceName)
+			if lut.GetResource(restriction.Entity.GetResourceName()) == nil {
+				return fmt.Errorf("no resource %v", restriction.Entity.GetResourceName())
 			}
 		case *domain.SubjectRestrictionSet_Restriction_EntitySet:
-			resource, relation := restriction.EntitySet.ResourceName, restriction.EntitySet.RelationName
+			resource, relation := restriction.EntitySet.GetResourceName(), restriction.EntitySet.GetRelationName()
 			if lut.GetRelation(resource, relation) == nil {
 				return fmt.Errorf("no relation %v for resource %v", relation, resource)
 			}
@@ -288,7 +291,7 @@ func (s *SubjectRestrictionSpec) Satisfies(relationship *domain.Relationship, ta
 
 	var err error
 
-	switch restriction := relation.SubjectRestriction.SubjectRestriction.(type) {
+	switch restriction := relation.SubjectRestriction.GetSubjectRestriction().(type) {
 	case *domain.SubjectRestriction_UniversalSet:
 		err = nil
 	case *domain.SubjectRestriction_RestrictionSet:
@@ -319,7 +322,7 @@ func (s *SubjectRestrictionSpec) satisfiesRestrictionSet(subject *domain.Subject
 		subjResource = subjectType.ResourceSet.ResourceName
 	}
 
-	for _, restriction := range set.Restrictions {
+	for _, restriction := range set.GetRestrictions() {
 		err := validator(restriction, subjResource, subjRelation)
 		if err == nil {
 			return nil
@@ -369,17 +372,17 @@ func (s *SubjectRestrictionSpec) satisfiesRestriction(restriction *domain.Subjec
 type ValidSelectorSpec struct{}
 
 func (s *ValidSelectorSpec) Satisfies(selector *domain.RelationshipSelector, policy *domain.Policy) error {
-	err := s.validObjectSelector(selector.ObjectSelector, policy)
+	err := s.validObjectSelector(selector.GetObjectSelector(), policy)
 	if err != nil {
 		return fmt.Errorf("object selector invalid: policy %v: %w", policy.Id, err)
 	}
 
-	err = s.validRelationSelector(selector.ObjectSelector, selector.RelationSelector, policy)
+	err = s.validRelationSelector(selector.GetObjectSelector(), selector.GetRelationSelector(), policy)
 	if err != nil {
 		return fmt.Errorf("relation selector invalid: policy %v: %w", policy.Id, err)
 	}
 
-	err = s.validSubjectSelector(selector.SubjectSelector, policy)
+	err = s.validSubjectSelector(selector.GetSubjectSelector(), policy)
 	if err != nil {
 		return fmt.Errorf("subject selector invalid: policy %v: %w", policy.Id, err)
 	}
@@ -388,11 +391,11 @@ func (s *ValidSelectorSpec) Satisfies(selector *domain.RelationshipSelector, pol
 }
 
 func (s *ValidSelectorSpec) validObjectSelector(selector *domain.ObjectSelector, policy *domain.Policy) error {
-	switch s := selector.Selector.(type) {
+	switch s := selector.GetSelector().(type) {
 	case *domain.ObjectSelector_ObjectSpec:
-		resource := policy.GetResourceByName(s.ObjectSpec.Resource)
+		resource := policy.GetResourceByName(s.ObjectSpec.GetResource())
 		if resource == nil {
-			return fmt.Errorf("resource %v: %w", s.ObjectSpec.Resource, ErrResourceNotFound)
+			return fmt.Errorf("resource %v: %w", s.ObjectSpec.GetResource(), ErrResourceNotFound)
 		}
 	case *domain.ObjectSelector_ResourceSpec:
 		resource := policy.GetResourceByName(s.ResourceSpec)
@@ -436,7 +439,7 @@ func (s *ValidSelectorSpec) validRelationSelector(objSelector *domain.ObjectSele
 func (s *ValidSelectorSpec) getObjectSelectorResourceName(objSelector *domain.ObjectSelector) string {
 	switch s := objSelector.Selector.(type) {
 	case *domain.ObjectSelector_ObjectSpec:
-		return s.ObjectSpec.Resource
+		return s.ObjectSpec.GetResource()
 	case *domain.ObjectSelector_ResourceSpec:
 		return s.ResourceSpec
 	}
@@ -444,7 +447,7 @@ func (s *ValidSelectorSpec) getObjectSelectorResourceName(objSelector *domain.Ob
 }
 
 func (s *ValidSelectorSpec) validSubjectSelector(selector *domain.SubjectSelector, policy *domain.Policy) error {
-	switch s := selector.Selector.(type) {
+	switch s := selector.GetSelector().(type) {
 	case *domain.SubjectSelector_ResourceSpec:
 		resource := policy.GetResourceByName(s.ResourceSpec)
 		if resource == nil {
diff --git a/pkg/domain/relation_expression_tree.go b/pkg/domain/relation_expression_tree.go
index f4d8cef..6a37bec 100644
--- a/pkg/domain/relation_expression_tree.go
+++ b/pkg/domain/relation_expression_tree.go
@@ -69,6 +69,26 @@ func DifferenceNode(left, right *RelationExpressionTree) *RelationExpressionTree
 	return NewOpNode(left, Operator_DIFFERENCE, right)
 }
 
+// IsComplete returns true if every node of the tree is set,
+// ie. leaves are rules and operations have an operator and two operands.
+func (tree *RelationExpressionTree) IsComplete() bool {
+	switch n := tree.GetNode().(type) {
+	case *RelationExpressionTree_Rule:
+		switch rule := n.Rule.GetRule().(type) {
+		case *Rule_This:
+			return true
+		case *Rule_Cu:
+			return rule.Cu != nil
+		case *Rule_Ttu:
+			return rule.Ttu != nil
+		}
+	case *RelationExpressionTree_OpNode:
+		op := n.OpNode.GetOperator()
+		return op.RelationExpression() != "" && n.OpNode.GetLeft().IsComplete() && n.OpNode.GetRight().IsComplete()
+	}
+	return false
+}
+
 // GetRules returns all the rules in a RelationExpressionTree.
 func (tree *RelationExpressionTree) GetRules() []*Rule {
 	var rules []*Rule
diff --git a/pkg/domain/relationship.go b/pkg/domain/relationship.go
index 4a5bd38..56a1ff3 100644
--- a/pkg/domain/relationship.go
+++ b/pkg/domain/relationship.go
@@ -80,13 +80,13 @@ func (b *RelationshipBuilder) Wildcard(objResource, objId, relation, subjResourc
 
 // GetResourceName returns the Subject's Resource Name
 func (s *Subject) GetResourceName() string {
-	switch subj := s.Subject.(type) {
+	switch subj := s.GetSubject().(type) {
 	case *Subject_Entity:
-		return subj.Entity.Resource
+		return subj.Entity.GetResource()
 	case *Subject_EntitySet:
-		return subj.EntitySet.Entity.Resource
+		return subj.EntitySet.GetEntity().GetResource()
 	case *Subject_ResourceSet:
-		return subj.ResourceSet.ResourceName
+		return subj.ResourceSet.GetResourceName()
 	}
 	return ""
 }
-- 
2.43.0


From 9f17a5caea6acbfe8331a0bfc2526433ca3b474c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:46 +0000
Subject: [PATCH 10/21] fix: refuse access and expand requests with missing
 parts

Nil entities were dereferenced while searching.
---
 internal/relation_graph/service.go | 41 ++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/internal/relation_graph/service.go b/internal/relation_graph/service.go
index 85e9298..621a2b2 100644
--- a/internal/relation_graph/service.go
+++ b/internal/relation_graph/service.go
@@ -30,6 +30,10 @@ type Service struct {
 func (s *Service) Check(
 	ctx context.Context,
 	req *api.CheckRequest) (*api.CheckResponse, error) {
+	if err := validateAccessRequest(req.AccessRequest); err != nil {
+		return nil, fmt.Errorf("check: %w: %w", api.ErrInvalidRequest, err)
+	}
+
 	pol, err := s.policyRepository.GetPolicy(ctx, req.PolicyId)
 	if err != nil {
 		return nil, fmt.Errorf("check: %w: %w", api.ErrInternal, err)
@@ -85,6 +89,10 @@ func (s *Service) ExplainCheck(
 		return nil, fmt.Errorf("check: %w: %w", api.ErrInvalidRequest, err)
 	}
 
+	if err := validateAccessRequest(req.AccessRequest); err != nil {
+		return nil, fmt.Errorf("check: %w: %w", api.ErrInvalidRequest, err)
+	}
+
 	pol, err := s.policyRepository.GetPolicy(ctx, req.PolicyId)
 	if err != nil {
 		return nil, fmt.Errorf("check: %w: %w", api.ErrInternal, err)
@@ -144,6 +152,10 @@ func (s *Service) Expand(
 		return nil, fmt.Errorf("expand: %w: %w", api.ErrInvalidRequest, err)
 	}
 
+	if err := validateNode(req.Root); err != nil {
+		return nil, fmt.Errorf("expand: %w: %w", api.ErrInvalidRequest, err)
+	}
+
 	pol, err := s.policyRepository.GetPolicy(ctx, req.PolicyId)
 	if err != nil {
 		return nil, fmt.Errorf("expand: %w: %w", api.ErrInternal, err)
@@ -209,3 +221,32 @@ func (s *Service) DumpRelationships(
 
 	return response, nil
 }
+
+// validateAccessRequest verifies whether the request has all of its parts
+func validateAccessRequest(req *domain.AccessRequest) error {
+	if !validEntity(req.GetObject()) || req.GetRelation() == "" || !validEntity(req.GetSubject()) {
+		return fmt.Errorf("access request %v: object, relation and subject required", req)
+	}
+	return nil
+}
+
+// validateNode verifies whether node has all of its parts
+func validateNode(node *domain.RelationNode) error {
+	ok := false
+	switch n := node.GetNode().(type) {
+	case *domain.RelationNode_EntitySet:
+		ok = validEntity(n.EntitySet.GetObject()) && n.EntitySet.GetRelation() != ""
+	case *domain.RelationNode_Entity:
+		ok = validEntity(n.Entity.GetObject())
+	case *domain.RelationNode_Wildcard:
+		ok = n.Wildcard.GetResource() != ""
+	}
+	if !ok {
+		return fmt.Errorf("relation node %v: %w", node, domain.ErrInvalidVariant)
+	}
+	return nil
+}
+
+func validEntity(entity *domain.Entity) bool {
+	return entity.GetResource() != "" && entity.GetId() != ""
+}
-- 
2.43.0


From b56b5ae87e966dd0d7887f4de991a3a8fdff24c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:49 +0000
Subject: [PATCH 11/21] fix: report tuple to userset rules over wildcards as
 errors

The rule produced a node without an object, which panicked.
---
 internal/relation_graph/rule_evaluator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/relation_graph/rule_evaluator.go b/internal/relation_graph/rule_evaluator.go
index 371d80a..498e2e2 100644
--- a/internal/relation_graph/rule_evaluator.go
+++ b/internal/relation_graph/rule_evaluator.go
@@ -118,6 +118,7 @@ func buildTupleToUsersetNode(node *domain.RelationNode, computedRelation string)
 		entitySetNode.Object = nodeType.Entity.Object
 	case *domain.RelationNode_Wildcard:
 		//TODO not sure how I should go about this scenario yet...
+		return nil, fmt.Errorf("building tuple to userset node: wildcard %v: %w", node, domain.ErrInvalidVariant)
 	default:
 		return nil, fmt.Errorf("building tuple to userset node: node %v: %w", node, domain.ErrInvalidVariant)
 	}
-- 
2.43.0


From d9e5806b734df04f0f005683c21c45fd7b46df2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:52 +0000
Subject: [PATCH 12/21] fix: leave parent nodes out of JSON goal trees

Trees with parent references cannot be encoded, so that every JSON
explanation failed.
---
 internal/relation_graph/types.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/relation_graph/types.go b/internal/relation_graph/types.go
index 4c2cea0..722efa7 100644
--- a/internal/relation_graph/types.go
+++ b/internal/relation_graph/types.go
@@ -25,7 +25,7 @@ type GoalTree interface {
 // The ORNode is satisfied if the Goal is found in *any*
 // Paths
 type ORNode struct {
-	Parent GoalTree
+	Parent GoalTree `json:"-"` // would make the document infinite
 	Result SearchResult
 	Paths  []GoalTree
 }
@@ -37,7 +37,7 @@ func (n *ORNode) SetParent(p GoalTree)    { n.Parent = p }
 // The ANDNode is satisfied if the Goal is found in *all*
 // Paths
 type ANDNode struct {
-	Parent GoalTree
+	Parent GoalTree `json:"-"` // would make the document infinite
 	Result SearchResult
 	Paths  []GoalTree
 }
@@ -49,7 +49,7 @@ func (n *ANDNode) SetParent(p GoalTree)    { n.Parent = p }
 // A DifferenceNode is satisfied if the Goal is found
 // on the Left GoalTree but not on the Right.
 type DifferenceNode struct {
-	Parent GoalTree
+	Parent GoalTree `json:"-"` // would make the document infinite
 	Result SearchResult
 	Left   GoalTree
 	Right  GoalTree
@@ -92,7 +92,7 @@ func (r SearchResult) MarshalJSON() ([]byte, error) {
 
 // PathNode represents a possible search path in the GoalTree
 type PathNode struct {
-	Parent       GoalTree
+	Parent       GoalTree `json:"-"` // would make the document infinite
 	Result       SearchResult
 	RelationNode *domain.RelationNode
 	Path         GoalTree
-- 
2.43.0


From 10cf46bc7aee7ba3d0fc412480c03125ac53f588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:55 +0000
Subject: [PATCH 13/21] fix: set the format of explain check responses

---
 internal/relation_graph/service.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/relation_graph/service.go b/internal/relation_graph/service.go
index 621a2b2..148ab48 100644
--- a/internal/relation_graph/service.go
+++ b/internal/relation_graph/service.go
@@ -140,6 +140,7 @@ func (s *Service) ExplainCheck(
 
 	return &api.ExplainCheckResponse{
 		GoalTree:   serialized,
+		Format:     req.Format,
 		Authorized: found,
 	}, nil
 }
-- 
2.43.0


From 58c2d4789a470dc597f476cb8b747658883af0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:58 +0000
Subject: [PATCH 14/21] fix: expand every operand of an intersection

Without a goal the first operand never succeeds, which left the other unexpanded.
---
 internal/relation_graph/searcher.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/relation_graph/searcher.go b/internal/relation_graph/searcher.go
index 550a423..c3b75a6 100644
--- a/internal/relation_graph/searcher.go
+++ b/internal/relation_graph/searcher.go
@@ -104,6 +104,10 @@ func (s *Searcher) searchAND(ctx context.Context, policy *domain.Policy, tree *A
 		// ANDNode requires that all Paths to the Goal are found
 		if newPath.GetResult() == SearchResult_FAILURE {
 			foundAll = false
+			if goal.Target == nil {
+				// Expand calls walk through every Path
+				continue
+			}
 			s.logger.Debugf("AND Node terminated: node %v did not reach path", newPath)
 			break
 		}
-- 
2.43.0


From 9e4bcb4553e7a561998753a1be13075a9da36d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:36 +0000
Subject: [PATCH 15/21] fix: dump shared and cyclic relationships

Cyclic relationships overflowed the stack or were left out of the dump,
and the edges below shared nodes were repeated.
---
 .../relation_tree_serializer.go               | 12 +++++++++-
 internal/relation_graph/walker.go             | 22 +++++++++++++++++++
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/internal/relation_graph/relation_tree_serializer.go b/internal/relation_graph/relation_tree_serializer.go
index 166b9e4..c2fdc85 100644
--- a/internal/relation_graph/relation_tree_serializer.go
+++ b/internal/relation_graph/relation_tree_serializer.go
@@ -9,13 +9,17 @@ import (
 const relationTreeGraphName string = "Relationships"
 const directed bool = true
 
-type RelationTreeDOTSerializer struct{}
+type RelationTreeDOTSerializer struct {
+	// seen contains the ids of the nodes already written
+	seen map[string]struct{}
+}
 
 func (s *RelationTreeDOTSerializer) Serialize(tree *domain.RelationTree) (string, error) {
 	graph := gographviz.NewGraph()
 	graph.SetDir(directed) //directed graph true
 	graph.SetName(relationTreeGraphName)
 
+	s.seen = make(map[string]struct{})
 	err := s.handleNode(nil, tree, graph)
 	if err != nil {
 		return "", err
@@ -43,6 +47,12 @@ func (s *RelationTreeDOTSerializer) handleNode(parent *domain.RelationTree, node
 		}
 	}
 
+	if _, ok := s.seen[id]; ok {
+		// node is shared or part of a cycle, its children were already handled
+		return nil
+	}
+	s.seen[id] = struct{}{}
+
 	for _, child := range node.Children {
 		err := s.handleNode(node, child, graph)
 		if err != nil {
diff --git a/internal/relation_graph/walker.go b/internal/relation_graph/walker.go
index 4362410..b6a0d2a 100644
--- a/internal/relation_graph/walker.go
+++ b/internal/relation_graph/walker.go
@@ -42,8 +42,19 @@ func (w *walker) Walk(ctx context.Context, policy *domain.Policy) (*domain.Relat
 	}
 
 	rootChildren := make([]*domain.RelationTree, 0, len(orphans))
+	reached := make(map[*domain.RelationTree]struct{})
 	for orphan := range orphans {
 		rootChildren = append(rootChildren, trees[orphan])
+		w.reach(trees[orphan], reached)
+	}
+
+	// nodes which no orphan leads to belong to cycles, pick one node from each
+	for _, edge := range edges {
+		tree := trees[edge.First().Id()]
+		if _, ok := reached[tree]; !ok {
+			rootChildren = append(rootChildren, tree)
+			w.reach(tree, reached)
+		}
 	}
 
 	return &domain.RelationTree{
@@ -52,6 +63,17 @@ func (w *walker) Walk(ctx context.Context, policy *domain.Policy) (*domain.Relat
 	}, nil
 }
 
+// reach adds all trees reachable from tree to reached
+func (w *walker) reach(tree *domain.RelationTree, reached map[*domain.RelationTree]struct{}) {
+	if _, ok := reached[tree]; ok {
+		return
+	}
+	reached[tree] = struct{}{}
+	for _, child := range tree.Children {
+		w.reach(child, reached)
+	}
+}
+
 func (w *walker) getTree(node *domain.RelationNode, trees map[string]*domain.RelationTree) *domain.RelationTree {
 	tree, ok := trees[node.Id()]
 	if !ok {
-- 
2.43.0


From e6f85a6861ddeba76342f4698b6054e7b8a1ba41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:55 +0000
Subject: [PATCH 16/21] fix: escape quotes in DOT documents

Ids containing quotes or backslashes produced documents which cannot be parsed.
---
 internal/relation_graph/goal_tree_serializer.go     | 3 +--
 internal/relation_graph/relation_tree_serializer.go | 9 ++++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/relation_graph/goal_tree_serializer.go b/internal/relation_graph/goal_tree_serializer.go
index 6b2753c..495b7a9 100644
--- a/internal/relation_graph/goal_tree_serializer.go
+++ b/internal/relation_graph/goal_tree_serializer.go
@@ -180,8 +180,7 @@ func (s *dotSerializer) nextId() string {
 
 // sprintf formats a string and wraps it with quotes
 func (s *dotSerializer) sprintf(format string, args ...any) string {
-	format = "\"" + format + "\""
-	return fmt.Sprintf(format, args...)
+	return quoteDOT(fmt.Sprintf(format, args...))
 }
 
 func SerializerFactory(model api.ExplainFormat) (GoalTreeSerializer, error) {
diff --git a/internal/relation_graph/relation_tree_serializer.go b/internal/relation_graph/relation_tree_serializer.go
index c2fdc85..58dd5f6 100644
--- a/internal/relation_graph/relation_tree_serializer.go
+++ b/internal/relation_graph/relation_tree_serializer.go
@@ -1,6 +1,8 @@
 package relation_graph
 
 import (
+	"strings"
+
 	"github.com/awalterschulze/gographviz"
 
 	"github.com/sourcenetwork/zanzi/pkg/domain"
@@ -78,5 +80,10 @@ func (s *RelationTreeDOTSerializer) nodeLabel(node *domain.RelationNode) string
 }
 
 func (s *RelationTreeDOTSerializer) wrap(str string) string {
-	return "\"" + str + "\""
+	return quoteDOT(str)
+}
+
+// quoteDOT returns str as a quoted DOT string
+func quoteDOT(str string) string {
+	return "\"" + strings.NewReplacer("\\", "\\\\", "\"", "\\\"").Replace(str) + "\""
 }
-- 
2.43.0


From 1915800881514e0a94fb9de674de520ea01243d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:22 +0000
Subject: [PATCH 17/21] fix: lex identifiers beginning with _this

A relation such as _this_file was read as the _this rule followed by another
identifier, and refused.
---
 internal/relation_expression_parser/lexer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/relation_expression_parser/lexer.go b/internal/relation_expression_parser/lexer.go
index 011258e..20c555b 100644
--- a/internal/relation_expression_parser/lexer.go
+++ b/internal/relation_expression_parser/lexer.go
@@ -160,7 +160,9 @@ func (l *Lexer) lexEOF() bool {
 func (l *Lexer) lexIdentifier() bool {
 	count := l.stepWhile(isIdentifierRune)
 	ok := count > 0
-	if ok {
+	if ok && l.input[l.startPos:l.currPos] == domain.ThisLexeme {
+		l.emit(tokenThis)
+	} else if ok {
 		l.emit(tokenIdentifier)
 	}
 
@@ -177,7 +179,6 @@ func (l *Lexer) scan() {
 		} else if l.lexTerminal(tokenUnion, domain.UnionLexeme) {
 		} else if l.lexTerminal(tokenDifference, domain.DifferenceLexeme) {
 		} else if l.lexTerminal(tokenIntersection, domain.IntersectionLexeme) {
-		} else if l.lexTerminal(tokenThis, domain.ThisLexeme) {
 		} else if l.lexIdentifier() {
 		} else if char, _ := l.peek(); unicode.IsSpace(char) {
 			l.skipSpaces()
-- 
2.43.0


From d3f3f861ab1db3bc29a862f6bea64a78d1c9cab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:16 +0000
Subject: [PATCH 18/21] fix: list policy ids within the bounds of the policy
 keys

The listing also returned the key following the policies, and never closed
its iterator, which blocked later writes to the in memory store.
---
 internal/store/kv_store/kv_store.go          |  8 ++++++++
 internal/store/kv_store/policy_repository.go | 21 +++++++++++---------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/internal/store/kv_store/kv_store.go b/internal/store/kv_store/kv_store.go
index cccb186..cc3bd78 100644
--- a/internal/store/kv_store/kv_store.go
+++ b/internal/store/kv_store/kv_store.go
@@ -46,6 +46,14 @@ func (kv *KVStore) getPolicyStore() *rcdb.ObjectStore[*domain.PolicyRecord] {
 	return &kv.policyStore
 }
 
+// policyKeyRange returns the limits of the keys of policyStore
+func policyKeyRange() (start []byte, end []byte) {
+	start = rcdb.Key{}.Append(policyStorePrefix, nil).ToBytes()
+	end = append([]byte{}, start...)
+	end[len(end)-1]++
+	return start, end
+}
+
 // policyPrefix encodes a policy id as a key prefix free of the key separator,
 // such that no policy's keys fall in the key range of another.
 func policyPrefix(policyId string) []byte {
diff --git a/internal/store/kv_store/policy_repository.go b/internal/store/kv_store/policy_repository.go
index 2529f6e..ecb3ec2 100644
--- a/internal/store/kv_store/policy_repository.go
+++ b/internal/store/kv_store/policy_repository.go
@@ -78,15 +78,18 @@ func (r *policyRepository) DeletePolicy(ctx context.Context, id string) (types.R
 }
 
 func (r *policyRepository) ListPolicyIds(context.Context) ([]string, error) {
-    store := r.kvStore.getPolicyStore()
-    ids, err := store.ListIds()
-    if err != nil {
-        return nil, fmt.Errorf("list policy ids: %w", err)
-    }
-
-    return utils.MapSlice(ids, func(id []byte) string {
-        return string(id)
-    }), nil
+	start, end := policyKeyRange()
+	iter := r.kvStore.baseKV.Iterator(start, end)
+	defer iter.Close()
+
+	var ids []string
+	for ; iter.Valid(); iter.Next() {
+		ids = append(ids, string(iter.Key()[len(start):]))
+	}
+	if err := iter.Error(); err != nil {
+		return nil, fmt.Errorf("list policy ids: %w", err)
+	}
+	return ids, nil
 }
 
 func (r *policyRepository) SetRelationship(ctx context.Context, record *domain.RelationshipRecord) (bool, error) {
-- 
2.43.0


From e25d1c661ebbcf6bfc878a28ea4d766ba99e5580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:19 +0000
Subject: [PATCH 19/21] fix: delete a policy after its relationships

An interrupted deletion left the relationships behind, which became part of
any policy created with the same id.
---
 internal/policy/service.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/policy/service.go b/internal/policy/service.go
index de1231f..c5440de 100644
--- a/internal/policy/service.go
+++ b/internal/policy/service.go
@@ -103,24 +103,31 @@ func (s *Service) DeletePolicy(
 	req *api.DeletePolicyRequest) (*api.DeletePolicyResponse, error) {
 	repo := s.getPolicyRepository()
 
-	// TODO wrap in Tx
-	found, err := repo.DeletePolicy(ctx, req.Id)
+	record, err := repo.GetPolicy(ctx, req.Id)
 	if err != nil {
 		return nil, fmt.Errorf("failed to delete policy: %w", err)
 	}
-	if !found {
+	if record == nil {
 		return &api.DeletePolicyResponse{
 			Found:                false,
 			RelationshipsRemoved: 0,
 		}, nil
 	}
 
+	// TODO wrap in Tx
+	// the policy is removed last, such that an interrupted deletion does not
+	// leave relationships behind without a policy
 	selector := allRelationshipsSelector()
 	count, err := repo.DeleteRelationships(ctx, req.Id, &selector)
 	if err != nil {
 		return nil, fmt.Errorf("failed to delete policy: %w", err)
 	}
 
+	_, err = repo.DeletePolicy(ctx, req.Id)
+	if err != nil {
+		return nil, fmt.Errorf("failed to delete policy: %w", err)
+	}
+
 	return &api.DeletePolicyResponse{
 		Found:                true,
 		RelationshipsRemoved: count,
-- 
2.43.0


From 4bebc54f6f59d2513a3e399342f81d9497253fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:55 +0000
Subject: [PATCH 20/21] fix: report storage errors and keep relationships
 consistent on failure

raccoondb ignores errors of the underlying store, so that failed writes were
reported as successful and failed reads as missing relationships.
Relationships interrupted while being written could grant access without
being listed, and survive the deletion of their policy.
---
 internal/store/kv_store/edge_kv.go           | 71 ++++++++++++++++++++
 internal/store/kv_store/kv_store.go          | 10 ++-
 internal/store/kv_store/node_repository.go   |  8 +--
 internal/store/kv_store/policy_repository.go | 44 ++++++++----
 4 files changed, 113 insertions(+), 20 deletions(-)
 create mode 100644 internal/store/kv_store/edge_kv.go

diff --git a/internal/store/kv_store/edge_kv.go b/internal/store/kv_store/edge_kv.go
new file mode 100644
index 0000000..099a65c
--- /dev/null
+++ b/internal/store/kv_store/edge_kv.go
@@ -0,0 +1,71 @@
+package kv_store
+
+import (
+	rcdb "github.com/sourcenetwork/raccoondb"
+)
+
+var _ rcdb.KVStore = (*edgeKV)(nil)
+
+// edgeKV is the KVStore given to raccoondb, whose edge store ignores the errors of the KVStore.
+// edgeKV keeps the first error and holds writes back until they are applied by finish.
+type edgeKV struct {
+	rcdb.KVStore
+	writes []func() error
+	err    error
+}
+
+// finish completes an operation which returned err.
+//
+// Writes are applied in reverse order: raccoondb sets the outgoing key first and deletes it last.
+// Outgoing keys are used to evaluate relations while incoming keys are used to list relationships,
+// therefore the incoming key must exist for as long as the outgoing key does.
+func (kv *edgeKV) finish(err error) error {
+	if err == nil {
+		err = kv.err
+	}
+	for i := len(kv.writes) - 1; i >= 0 && err == nil; i-- {
+		err = kv.writes[i]()
+	}
+	kv.writes = nil
+	return err
+}
+
+func (kv *edgeKV) Get(key []byte) ([]byte, error) {
+	value, err := kv.KVStore.Get(key)
+	kv.keep(err)
+	return value, err
+}
+
+func (kv *edgeKV) Set(key, value []byte) error {
+	kv.writes = append(kv.writes, func() error { return kv.KVStore.Set(key, value) })
+	return nil
+}
+
+func (kv *edgeKV) Delete(key []byte) error {
+	kv.writes = append(kv.writes, func() error { return kv.KVStore.Delete(key) })
+	return nil
+}
+
+func (kv *edgeKV) Iterator(start, end []byte) rcdb.Iterator {
+	return &edgeIterator{
+		Iterator: kv.KVStore.Iterator(start, end),
+		kv:       kv,
+	}
+}
+
+func (kv *edgeKV) keep(err error) {
+	if kv.err == nil {
+		kv.err = err
+	}
+}
+
+// edgeIterator keeps the error which ended the iteration, if any
+type edgeIterator struct {
+	rcdb.Iterator
+	kv *edgeKV
+}
+
+func (i *edgeIterator) Close() error {
+	i.kv.keep(i.Iterator.Error())
+	return i.Iterator.Close()
+}
diff --git a/internal/store/kv_store/kv_store.go b/internal/store/kv_store/kv_store.go
index cc3bd78..f429cf7 100644
--- a/internal/store/kv_store/kv_store.go
+++ b/internal/store/kv_store/kv_store.go
@@ -60,16 +60,20 @@ func policyPrefix(policyId string) []byte {
 	return []byte(hex.EncodeToString([]byte(policyId)))
 }
 
-func (kv *KVStore) getRelationshipStore(policyId string) rcdb.RaccoonStore[*Relationship, *RelationNode] {
+// getRelationshipStore returns the store with the relationships of a policy
+// and the edgeKV which finishes the operations done on it.
+func (kv *KVStore) getRelationshipStore(policyId string) (rcdb.RaccoonStore[*Relationship, *RelationNode], *edgeKV) {
 	factory := func() *Relationship { return &Relationship{} }
 	marshaler := rcdb.ProtoMarshaler[*Relationship](factory)
-	store := rcdb.NewWrapperKV(kv.relationshipPrefixKV, policyPrefix(policyId))
+	store := &edgeKV{
+		KVStore: rcdb.NewWrapperKV(kv.relationshipPrefixKV, policyPrefix(policyId)),
+	}
 	schema := rcdb.RaccoonSchema[*Relationship, *RelationNode]{
 		Store:     store,
 		Keyer:     &relationNodeKeyer{},
 		Marshaler: marshaler,
 	}
-	return rcdb.NewRaccoonStore(schema)
+	return rcdb.NewRaccoonStore(schema), store
 }
 
 func (kv *KVStore) getRelationshipDataStore(policyId string) *rcdb.ObjectStore[*RelationshipData] {
diff --git a/internal/store/kv_store/node_repository.go b/internal/store/kv_store/node_repository.go
index 53538ac..704b04e 100644
--- a/internal/store/kv_store/node_repository.go
+++ b/internal/store/kv_store/node_repository.go
@@ -24,7 +24,7 @@ type nodeRepository struct {
 }
 
 func (r *nodeRepository) GetSucessors(ctx context.Context, policyId string, node *domain.EntitySetNode) ([]*domain.RelationNode, error) {
-	store := r.kvStore.getRelationshipStore(policyId)
+	store, edges := r.kvStore.getRelationshipStore(policyId)
 	relNode := &domain.RelationNode{
 		Node: &domain.RelationNode_EntitySet{
 			EntitySet: node,
@@ -33,7 +33,7 @@ func (r *nodeRepository) GetSucessors(ctx context.Context, policyId string, node
 	internalNode := r.mapper.FromPublicRelationNode(relNode)
 
 	sucessors, err := store.GetSucessors(&internalNode)
-	if err != nil {
+	if err = edges.finish(err); err != nil {
 		return nil, err
 	}
 
@@ -44,10 +44,10 @@ func (r *nodeRepository) GetSucessors(ctx context.Context, policyId string, node
 }
 
 func (r *nodeRepository) ListEdges(ctx context.Context, policyId string) ([]types.Pair[*domain.RelationNode, *domain.RelationNode], error) {
-	store := r.kvStore.getRelationshipStore(policyId)
+	store, edges := r.kvStore.getRelationshipStore(policyId)
 
 	relationships, err := store.List()
-	if err != nil {
+	if err = edges.finish(err); err != nil {
 		return nil, err
 	}
 
diff --git a/internal/store/kv_store/policy_repository.go b/internal/store/kv_store/policy_repository.go
index ecb3ec2..c16ed09 100644
--- a/internal/store/kv_store/policy_repository.go
+++ b/internal/store/kv_store/policy_repository.go
@@ -93,7 +93,7 @@ func (r *policyRepository) ListPolicyIds(context.Context) ([]string, error) {
 }
 
 func (r *policyRepository) SetRelationship(ctx context.Context, record *domain.RelationshipRecord) (bool, error) {
-	relationshipStore := r.kvStore.getRelationshipStore(record.PolicyId)
+	relationshipStore, edges := r.kvStore.getRelationshipStore(record.PolicyId)
 	relationshipDataStore := r.kvStore.getRelationshipDataStore(record.PolicyId)
 
 	// FIXME wrap in tx
@@ -101,15 +101,10 @@ func (r *policyRepository) SetRelationship(ctx context.Context, record *domain.R
 
 	opt, err := relationshipStore.Get(relationship.GetSource(), relationship.GetDest())
 	updated := !opt.IsEmpty()
-	if err != nil {
+	if err = edges.finish(err); err != nil {
 		return false, fmt.Errorf("kvstore: has relationship: %w", err)
 	}
 
-	err = relationshipStore.Set(&relationship)
-	if err != nil {
-		return false, fmt.Errorf("kvstore: set relationship: %w", err)
-	}
-
 	data := RelationshipData{
 		RelationshipId: r.relationshipIDer.Id(&relationship),
 		AppData:        record.AppData,
@@ -120,11 +115,17 @@ func (r *policyRepository) SetRelationship(ctx context.Context, record *domain.R
 		return false, fmt.Errorf("kvstore: set relationship appdata: %w", err)
 	}
 
+	// set after its data, such that every stored relationship has data
+	err = relationshipStore.Set(&relationship)
+	if err = edges.finish(err); err != nil {
+		return false, fmt.Errorf("kvstore: set relationship: %w", err)
+	}
+
 	return updated, nil
 }
 
 func (r *policyRepository) DeleteRelationship(ctx context.Context, policyId string, spec *domain.Relationship) (types.RecordFound, error) {
-	relationshipStore := r.kvStore.getRelationshipStore(policyId)
+	relationshipStore, edges := r.kvStore.getRelationshipStore(policyId)
 	relationshipDataStore := r.kvStore.getRelationshipDataStore(policyId)
 
 	// FIXME wrap in tx
@@ -133,12 +134,12 @@ func (r *policyRepository) DeleteRelationship(ctx context.Context, policyId stri
 
 	opt, err := relationshipStore.Get(relationship.GetSource(), relationship.GetDest())
 	found := !opt.IsEmpty()
-	if err != nil {
+	if err = edges.finish(err); err != nil {
 		return false, err
 	}
 
 	err = relationshipStore.Delete(&relationship)
-	if err != nil {
+	if err = edges.finish(err); err != nil {
 		return false, err
 	}
 
@@ -151,10 +152,10 @@ func (r *policyRepository) DeleteRelationship(ctx context.Context, policyId stri
 }
 
 func (r *policyRepository) FindRelationships(ctx context.Context, policyId string, selector *domain.RelationshipSelector) ([]*domain.Relationship, error) {
-	relationshipStore := r.kvStore.getRelationshipStore(policyId)
+	relationshipStore, edges := r.kvStore.getRelationshipStore(policyId)
 
 	rels, err := relationshipStore.List()
-	if err != nil {
+	if err = edges.finish(err); err != nil {
 		return nil, err
 	}
 
@@ -172,6 +173,23 @@ func (r *policyRepository) FindRelationships(ctx context.Context, policyId strin
 }
 
 func (r *policyRepository) GetRelationship(ctx context.Context, policyId string, relationship *domain.Relationship) (*domain.RelationshipRecord, error) {
+	relationshipStore, edges := r.kvStore.getRelationshipStore(policyId)
+
+	// data may outlive its relationship if a deletion was interrupted
+	internalRelationship := r.mapper.ToInternal(relationship)
+	opt, err := relationshipStore.Get(internalRelationship.GetSource(), internalRelationship.GetDest())
+	if err = edges.finish(err); err != nil {
+		return nil, err
+	}
+	if opt.IsEmpty() {
+		return nil, nil
+	}
+
+	return r.getRecord(policyId, relationship)
+}
+
+// getRecord returns the record of a stored relationship
+func (r *policyRepository) getRecord(policyId string, relationship *domain.Relationship) (*domain.RelationshipRecord, error) {
 	relationshipDataStore := r.kvStore.getRelationshipDataStore(policyId)
 
 	internalRelationship := r.mapper.ToInternal(relationship)
@@ -194,7 +212,7 @@ func (r *policyRepository) FindRelationshipRecords(ctx context.Context, policyId
 	}
 
 	records, err := utils.MapSliceErr(relationships, func(relationship *domain.Relationship) (*domain.RelationshipRecord, error) {
-		return r.GetRelationship(ctx, policyId, relationship)
+		return r.getRecord(policyId, relationship)
 	})
 	if err != nil {
 		return nil, err
-- 
2.43.0


From aa188f936b1146deff80994a2b6641b3748f943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:40 +0000
Subject: [PATCH 21/21] fix: serialize requests which change the store

Requests read and write the store several times. Without locking, concurrent
requests could create a policy twice, set relationships of a policy being
deleted, and decide access on a mix of states.
---
 internal/policy/service.go                   | 20 ++++++++++++++++++++
 internal/policy/types.go                     |  7 +++++++
 internal/relation_graph/service.go           | 12 ++++++++++++
 internal/store/kv_store/kv_store.go          |  3 +++
 internal/store/kv_store/policy_repository.go |  3 +++
 5 files changed, 45 insertions(+)

diff --git a/internal/policy/service.go b/internal/policy/service.go
index c5440de..de23c1f 100644
--- a/internal/policy/service.go
+++ b/internal/policy/service.go
@@ -37,6 +37,8 @@ func (s *Service) CreatePolicy(
 	}
 
 	repo := s.getPolicyRepository()
+	repo.Lock()
+	defer repo.Unlock()
 
 	fetched, err := repo.GetPolicy(ctx, policy.Id)
 	if fetched != nil {
@@ -73,6 +75,8 @@ func (s *Service) UpdatePolicy(
 	}
 
 	repo := s.getPolicyRepository()
+	repo.Lock()
+	defer repo.Unlock()
 
 	record, err := repo.GetPolicy(ctx, policy.Id)
 	if err != nil {
@@ -102,6 +106,8 @@ func (s *Service) DeletePolicy(
 	ctx context.Context,
 	req *api.DeletePolicyRequest) (*api.DeletePolicyResponse, error) {
 	repo := s.getPolicyRepository()
+	repo.Lock()
+	defer repo.Unlock()
 
 	record, err := repo.GetPolicy(ctx, req.Id)
 	if err != nil {
@@ -138,6 +144,8 @@ func (s *Service) GetPolicy(
 	ctx context.Context,
 	req *api.GetPolicyRequest) (*api.GetPolicyResponse, error) {
 	repo := s.getPolicyRepository()
+	repo.RLock()
+	defer repo.RUnlock()
 
 	record, err := repo.GetPolicy(ctx, req.Id)
 	if err != nil {
@@ -153,6 +161,8 @@ func (s *Service) ListPolicyIds(
 	ctx context.Context,
 	req *api.ListPolicyIdsRequest) (*api.ListPolicyIdsResponse, error) {
 	repo := s.getPolicyRepository()
+	repo.RLock()
+	defer repo.RUnlock()
 
 	ids, err := repo.ListPolicyIds(ctx)
 	if err != nil {
@@ -174,6 +184,8 @@ func (s *Service) SetRelationship(
 	ctx context.Context,
 	req *api.SetRelationshipRequest) (*api.SetRelationshipResponse, error) {
 	repo := s.getPolicyRepository()
+	repo.Lock()
+	defer repo.Unlock()
 
 	record, err := repo.GetPolicy(ctx, req.PolicyId)
 	if err != nil {
@@ -205,6 +217,8 @@ func (s *Service) DeleteRelationship(
 	ctx context.Context,
 	req *api.DeleteRelationshipRequest) (*api.DeleteRelationshipResponse, error) {
 	repo := s.getPolicyRepository()
+	repo.Lock()
+	defer repo.Unlock()
 
 	spec := AllowedRelationshipSpec{}
 	err := spec.requiredFields(req.Relationship)
@@ -226,6 +240,8 @@ func (s *Service) GetRelationship(
 	ctx context.Context,
 	req *api.GetRelationshipRequest) (*api.GetRelationshipResponse, error) {
 	repo := s.getPolicyRepository()
+	repo.RLock()
+	defer repo.RUnlock()
 
 	spec := AllowedRelationshipSpec{}
 	err := spec.requiredFields(req.Relationship)
@@ -247,6 +263,8 @@ func (s *Service) FindRelationshipRecords(
 	ctx context.Context,
 	req *api.FindRelationshipRecordsRequest) (*api.FindRelationshipRecordsResponse, error) {
 	repo := s.getPolicyRepository()
+	repo.RLock()
+	defer repo.RUnlock()
 
 	policy, err := repo.GetPolicy(ctx, req.PolicyId)
 	if err != nil {
@@ -278,6 +296,8 @@ func (s *Service) DeleteRelationships(
 	ctx context.Context,
 	req *api.DeleteRelationshipsRequest) (*api.DeleteRelationshipsResponse, error) {
 	repo := s.getPolicyRepository()
+	repo.Lock()
+	defer repo.Unlock()
 
 	count, err := repo.DeleteRelationships(ctx, req.PolicyId, req.Selector)
 	if err != nil {
diff --git a/internal/policy/types.go b/internal/policy/types.go
index ba09fc9..368021c 100644
--- a/internal/policy/types.go
+++ b/internal/policy/types.go
@@ -19,6 +19,13 @@ func NewRelationFQN(resourceName, relationName string) RelationFQN {
 }
 
 type Repository interface {
+	// Repositories are locked by Services for the duration of a request:
+	// Lock excludes all other requests, RLock excludes requests which change the store.
+	Lock()
+	Unlock()
+	RLock()
+	RUnlock()
+
 	SetPolicy(context.Context, *domain.PolicyRecord) (types.RecordFound, error)
 	GetPolicy(context.Context, string) (*domain.PolicyRecord, error)
 	DeletePolicy(context.Context, string) (types.RecordFound, error)
diff --git a/internal/relation_graph/service.go b/internal/relation_graph/service.go
index 148ab48..eb8f9fe 100644
--- a/internal/relation_graph/service.go
+++ b/internal/relation_graph/service.go
@@ -34,6 +34,9 @@ func (s *Service) Check(
 		return nil, fmt.Errorf("check: %w: %w", api.ErrInvalidRequest, err)
 	}
 
+	s.policyRepository.RLock()
+	defer s.policyRepository.RUnlock()
+
 	pol, err := s.policyRepository.GetPolicy(ctx, req.PolicyId)
 	if err != nil {
 		return nil, fmt.Errorf("check: %w: %w", api.ErrInternal, err)
@@ -93,6 +96,9 @@ func (s *Service) ExplainCheck(
 		return nil, fmt.Errorf("check: %w: %w", api.ErrInvalidRequest, err)
 	}
 
+	s.policyRepository.RLock()
+	defer s.policyRepository.RUnlock()
+
 	pol, err := s.policyRepository.GetPolicy(ctx, req.PolicyId)
 	if err != nil {
 		return nil, fmt.Errorf("check: %w: %w", api.ErrInternal, err)
@@ -157,6 +163,9 @@ func (s *Service) Expand(
 		return nil, fmt.Errorf("expand: %w: %w", api.ErrInvalidRequest, err)
 	}
 
+	s.policyRepository.RLock()
+	defer s.policyRepository.RUnlock()
+
 	pol, err := s.policyRepository.GetPolicy(ctx, req.PolicyId)
 	if err != nil {
 		return nil, fmt.Errorf("expand: %w: %w", api.ErrInternal, err)
@@ -191,6 +200,9 @@ func (s *Service) Expand(
 func (s *Service) DumpRelationships(
 	ctx context.Context,
 	req *api.DumpRelationshipsRequest) (*api.DumpRelationshipResponse, error) {
+	s.policyRepository.RLock()
+	defer s.policyRepository.RUnlock()
+
 	rec, err := s.policyRepository.GetPolicy(ctx, req.PolicyId)
 	if err != nil {
 		return nil, fmt.Errorf("DumpRelationships: %w: %w", api.ErrInternal, err)
diff --git a/internal/store/kv_store/kv_store.go b/internal/store/kv_store/kv_store.go
index f429cf7..9569074 100644
--- a/internal/store/kv_store/kv_store.go
+++ b/internal/store/kv_store/kv_store.go
@@ -2,6 +2,7 @@ package kv_store
 
 import (
 	"encoding/hex"
+	"sync"
 
 	rcdb "github.com/sourcenetwork/raccoondb"
 
@@ -28,6 +29,7 @@ func NewKVStore(store rcdb.KVStore) (KVStore, error) {
 	policyStore := rcdb.NewObjStore[*domain.PolicyRecord](policyPrefixWrapper, protoMarshaler, ider)
 
 	return KVStore{
+		mutex:                    &sync.RWMutex{},
 		baseKV:                   store,
 		policyStore:              policyStore,
 		relationshipPrefixKV:     rcdb.NewWrapperKV(store, relationshipStorePrefix),
@@ -36,6 +38,7 @@ func NewKVStore(store rcdb.KVStore) (KVStore, error) {
 }
 
 type KVStore struct {
+	mutex                    *sync.RWMutex
 	baseKV                   rcdb.KVStore
 	policyStore              rcdb.ObjectStore[*domain.PolicyRecord]
 	relationshipPrefixKV     rcdb.KVStore
diff --git a/internal/store/kv_store/policy_repository.go b/internal/store/kv_store/policy_repository.go
index c16ed09..8eb442b 100644
--- a/internal/store/kv_store/policy_repository.go
+++ b/internal/store/kv_store/policy_repository.go
@@ -3,6 +3,7 @@ package kv_store
 import (
 	"context"
 	"fmt"
+	"sync"
 
 	rcdb "github.com/sourcenetwork/raccoondb"
 
@@ -18,6 +19,7 @@ func newPolicyRepository(store *KVStore) policyRepository {
 	nodeKeyer := relationNodeKeyer{}
 	ider := rcdb.IderFromNodeKeyer[*Relationship, *RelationNode](&nodeKeyer)
 	return policyRepository{
+		RWMutex:          store.mutex,
 		kvStore:          store,
 		mapper:           relationshipMapper{},
 		relationshipIDer: ider,
@@ -25,6 +27,7 @@ func newPolicyRepository(store *KVStore) policyRepository {
 }
 
 type policyRepository struct {
+	*sync.RWMutex
 	kvStore          *KVStore
 	mapper           relationshipMapper
 	relationshipIDer rcdb.Ider[*Relationship]
-- 
2.43.0

