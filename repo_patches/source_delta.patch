From f913154a55a973a929a9751b0bcb3a3196ce9348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:17 +0000
Subject: [PATCH 01/18] fix: resolve nodes reached more than once when
 searching

A node reached a second time was left UNKNOWN, so that an intersection was
never satisfied by a subject reached through the same node twice and a
difference granted access to excluded subjects. Reuse the known result of
explored nodes and take nodes which are still open as a dead end, keeping
results that depend on them provisional.
---
 internal/relation_graph/searcher.go | 108 ++++++++++++++++++++++++----
 1 file changed, 94 insertions(+), 14 deletions(-)

diff --git a/internal/relation_graph/searcher.go b/internal/relation_graph/searcher.go
index d6625ba..3a03a82 100644
--- a/internal/relation_graph/searcher.go
+++ b/internal/relation_graph/searcher.go
@@ -3,25 +3,51 @@ package relation_graph
 import (
 	"context"
 	"fmt"
+	"math"
 
 	"github.com/sourcenetwork/zanzi/internal/utils"
 	"github.com/sourcenetwork/zanzi/pkg/domain"
 	"github.com/sourcenetwork/zanzi/pkg/types"
 )
 
+// noDependency is the lowestDepth of a result which does not depend on unfinished nodes
+const noDependency int = math.MaxInt
+
 func NewSearcher(builder goalTreeBuilder, logger types.Logger) Searcher {
 	return Searcher{
-		builder:   builder,
-		logger:    logger,
-		seenNodes: make(map[string]struct{}),
+		builder:     builder,
+		logger:      logger,
+		openNodes:   make(map[string]int),
+		resolved:    make(map[string]resolution),
+		lowestDepth: noDependency,
 	}
 }
 
 type Searcher struct {
-	builder       goalTreeBuilder
-	logger        types.Logger
-	seenNodes     map[string]struct{}
-	resolvedTrees map[string]GoalTree
+	builder goalTreeBuilder
+	logger  types.Logger
+
+	// openNodes maps the nodes in the path from the origin to the current node to their depth
+	openNodes map[string]int
+
+	// resolved caches the result of the nodes which were already explored.
+	resolved map[string]resolution
+
+	// provisional is the list of resolved nodes whose FAILURE depends on an open node, oldest first
+	provisional []string
+
+	// lowestDepth is the smallest depth of the open nodes on which the current branch depends
+	lowestDepth int
+}
+
+// resolution is the outcome of exploring a node.
+//
+// A node which is reached again while it is open contributes nothing to its own result,
+// so it is taken as a FAILURE for the time being.
+// lowestDepth is the smallest depth of the open nodes for which that was done.
+type resolution struct {
+	result      SearchResult
+	lowestDepth int
 }
 
 // Search receives an Origin and a Goal and searches for a Path in the RelationGraph between
@@ -93,7 +119,7 @@ func (s *Searcher) searchAND(ctx context.Context, policy *domain.Policy, tree *A
 		}
 
 		// ANDNode requires that all Paths to the Goal are found
-		if newPath.GetResult() == SearchResult_FAILURE {
+		if newPath.GetResult() != SearchResult_SUCCESS {
 			foundAll = false
 			s.logger.Debugf("AND Node terminated: node %v did not reach path", newPath)
 			break
@@ -183,14 +209,18 @@ func (s *Searcher) searchPath(ctx context.Context, policy *domain.Policy, node *
 		Reason:       node.Reason,
 	}
 
-	// add trail
-	// use cached value
 	nodeId := node.RelationNode.Id()
-	if _, ok := s.seenNodes[nodeId]; ok {
-		s.logger.Debugf("duplicated node - terminating brach: %v", node.RelationNode)
+	if depth, ok := s.openNodes[nodeId]; ok {
+		s.logger.Debugf("cycle - terminating branch: %v", node.RelationNode)
+		s.dependsOn(depth)
+		pathNode.Result = SearchResult_FAILURE
+		return pathNode, nil
+	}
+	if resolution, ok := s.resolved[nodeId]; ok {
+		s.logger.Debugf("duplicated node - using known result: %v", node.RelationNode)
+		s.dependsOn(resolution.lowestDepth)
+		pathNode.Result = resolution.result
 		return pathNode, nil
-	} else {
-		s.seenNodes[nodeId] = struct{}{}
 	}
 
 	spec := GoalFoundSpec{}
@@ -208,6 +238,12 @@ func (s *Searcher) searchPath(ctx context.Context, policy *domain.Policy, node *
 		return nil, err
 	}
 
+	depth := len(s.openNodes)
+	provisionalMark := len(s.provisional)
+	parentDepth := s.lowestDepth
+	s.openNodes[nodeId] = depth
+	s.lowestDepth = noDependency
+
 	goalTree, err = s.search(ctx, policy, goalTree, goal)
 	if err != nil {
 		return nil, err
@@ -217,9 +253,53 @@ func (s *Searcher) searchPath(ctx context.Context, policy *domain.Policy, node *
 	pathNode.Path = goalTree
 	pathNode.Result = goalTree.GetResult()
 
+	delete(s.openNodes, nodeId)
+	lowestDepth := s.lowestDepth
+	s.lowestDepth = parentDepth
+	s.resolve(nodeId, depth, provisionalMark, resolution{pathNode.Result, lowestDepth})
+
 	return pathNode, nil
 }
 
+// dependsOn registers that the current branch depends on the open node at depth
+func (s *Searcher) dependsOn(depth int) {
+	if depth < s.lowestDepth {
+		s.lowestDepth = depth
+	}
+}
+
+// resolve stores the resolution of the node which was open at depth
+//
+// Results found while the node was open - those in provisional starting at mark - may have
+// taken it as a FAILURE.
+// If the node is a SUCCESS they are dropped, such that they are explored again if needed.
+// If it is a FAILURE which does not depend on other open nodes, they are final,
+// otherwise they are as provisional as the node itself.
+func (s *Searcher) resolve(nodeId string, depth int, mark int, res resolution) {
+	switch {
+	case res.result == SearchResult_SUCCESS:
+		for _, id := range s.provisional[mark:] {
+			delete(s.resolved, id)
+		}
+		s.provisional = s.provisional[:mark]
+		res.lowestDepth = noDependency
+	case res.lowestDepth >= depth:
+		res.lowestDepth = noDependency
+		for _, id := range s.provisional[mark:] {
+			s.resolved[id] = res
+		}
+		s.provisional = s.provisional[:mark]
+	default:
+		// what depended on this node now depends on what this node depends on
+		for _, id := range s.provisional[mark:] {
+			s.resolved[id] = res
+		}
+		s.provisional = append(s.provisional, nodeId)
+	}
+	s.resolved[nodeId] = res
+	s.dependsOn(res.lowestDepth)
+}
+
 type GoalFoundSpec struct{}
 
 func (s *GoalFoundSpec) Found(pathNode *PathNode, goal *Goal) bool {
-- 
2.43.0


From b430e43be43c454e198a0da6b3e7e1112a604134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:49 +0000
Subject: [PATCH 02/18] fix: keep distinct relation nodes apart in keys and ids

Node keys were a hash of the concatenated fields and ids joined fields with
a separator users can write themselves, so that different nodes (file:1 and
fil:e1, a resource wildcard and an entity) were taken for one another.
The keys of relationships stored by earlier versions change.
---
 internal/store/kv_store/model.go | 11 ++++++++---
 pkg/domain/relation_graph.go     | 29 ++++++++++++++---------------
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/internal/store/kv_store/model.go b/internal/store/kv_store/model.go
index 659156d..302654b 100644
--- a/internal/store/kv_store/model.go
+++ b/internal/store/kv_store/model.go
@@ -2,6 +2,7 @@ package kv_store
 
 import (
 	"crypto/sha256"
+	"encoding/binary"
 
 	rcdb "github.com/sourcenetwork/raccoondb"
 
@@ -24,9 +25,13 @@ type relationNodeKeyer struct{}
 
 func (t *relationNodeKeyer) Key(node *RelationNode) []byte {
 	hasher := sha256.New()
-	hasher.Write([]byte(node.Resource))
-	hasher.Write([]byte(node.Id))
-	hasher.Write([]byte(node.Relation))
+	// the type and the length of each field are part of the key,
+	// otherwise nodes such as "file:1" and "fil:e1" would clash
+	hasher.Write(binary.BigEndian.AppendUint32(nil, uint32(node.Type)))
+	for _, field := range []string{node.Resource, node.Id, node.Relation} {
+		hasher.Write(binary.BigEndian.AppendUint64(nil, uint64(len(field))))
+		hasher.Write([]byte(field))
+	}
 	return hasher.Sum(nil)
 }
 
diff --git a/pkg/domain/relation_graph.go b/pkg/domain/relation_graph.go
index a40e222..027cf89 100644
--- a/pkg/domain/relation_graph.go
+++ b/pkg/domain/relation_graph.go
@@ -5,6 +5,7 @@ import (
 
 	"crypto/sha256"
 	"encoding/base64"
+	"encoding/binary"
 )
 
 func (n *RelationNode) GetObject() *Entity {
@@ -35,26 +36,24 @@ func (n *RelationNode) IsTerminalNode() bool {
 // Hash produces an Id of a RelationNode which uniquely identifies it.
 func (n *RelationNode) Id() string {
 	hasher := sha256.New()
-	separator := []byte{byte('/')}
 
-	// since Ids and Relations are required, it's impossible
-	// for users to created an entity node which would cause a clash
+	// fields are prefixed with their length, as names and ids may contain any character.
+	// The number of fields is different for each type of node.
+	writeField := func(field string) {
+		hasher.Write(binary.BigEndian.AppendUint64(nil, uint64(len(field))))
+		hasher.Write([]byte(field))
+	}
+
 	switch node := n.Node.(type) {
 	case *RelationNode_EntitySet:
-		hasher.Write([]byte(node.EntitySet.Object.Resource))
-		hasher.Write(separator)
-		hasher.Write([]byte(node.EntitySet.Object.Id))
-		hasher.Write(separator)
-		hasher.Write([]byte(node.EntitySet.Relation))
+		writeField(node.EntitySet.Object.Resource)
+		writeField(node.EntitySet.Object.Id)
+		writeField(node.EntitySet.Relation)
 	case *RelationNode_Entity:
-		hasher.Write([]byte(node.Entity.Object.Resource))
-		hasher.Write(separator)
-		hasher.Write([]byte(node.Entity.Object.Id))
-		hasher.Write(separator)
+		writeField(node.Entity.Object.Resource)
+		writeField(node.Entity.Object.Id)
 	case *RelationNode_Wildcard:
-		hasher.Write([]byte(node.Wildcard.Resource))
-		hasher.Write(separator)
-		hasher.Write(separator)
+		writeField(node.Wildcard.Resource)
 	default:
 	}
 
-- 
2.43.0


From f2eb3fca9d05922a0924e7f7c3afab45e80e5101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:52 +0000
Subject: [PATCH 03/18] fix: scope all relationship records by their policy

The application data of relationships was shared by all policies, so that
setting or deleting a relationship overwrote or removed the data of the same
relationship in other policies. Policy ids which contain the key separator
could reach into the keys of another policy.
---
 internal/store/kv_store/kv_store.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/store/kv_store/kv_store.go b/internal/store/kv_store/kv_store.go
index 3b1d167..a0abcfc 100644
--- a/internal/store/kv_store/kv_store.go
+++ b/internal/store/kv_store/kv_store.go
@@ -1,6 +1,8 @@
 package kv_store
 
 import (
+	"encoding/hex"
+
 	rcdb "github.com/sourcenetwork/raccoondb"
 
 	"github.com/sourcenetwork/zanzi/internal/policy"
@@ -47,7 +49,7 @@ func (kv *KVStore) getPolicyStore() *rcdb.ObjectStore[*domain.PolicyRecord] {
 func (kv *KVStore) getRelationshipStore(policyId string) rcdb.RaccoonStore[*Relationship, *RelationNode] {
 	factory := func() *Relationship { return &Relationship{} }
 	marshaler := rcdb.ProtoMarshaler[*Relationship](factory)
-	store := rcdb.NewWrapperKV(kv.relationshipPrefixKV, []byte(policyId))
+	store := rcdb.NewWrapperKV(kv.relationshipPrefixKV, policyPrefix(policyId))
 	schema := rcdb.RaccoonSchema[*Relationship, *RelationNode]{
 		Store:     store,
 		Keyer:     &relationNodeKeyer{},
@@ -60,10 +62,17 @@ func (kv *KVStore) getRelationshipDataStore(policyId string) *rcdb.ObjectStore[*
 	factory := func() *RelationshipData { return &RelationshipData{} }
 	marshaler := rcdb.ProtoMarshaler[*RelationshipData](factory)
 	ider := relationshipDataIDer{}
-	store := rcdb.NewObjStore[*RelationshipData](kv.relationshipDataPrefixKV, marshaler, &ider)
+	policyKV := rcdb.NewWrapperKV(kv.relationshipDataPrefixKV, policyPrefix(policyId))
+	store := rcdb.NewObjStore[*RelationshipData](policyKV, marshaler, &ider)
 	return &store
 }
 
+// policyPrefix returns the key prefix for the records which belong to a policy.
+// The id is encoded because it may contain the key separator.
+func policyPrefix(policyId string) []byte {
+	return []byte(hex.EncodeToString([]byte(policyId)))
+}
+
 func (kv *KVStore) GetPolicyRepository() policy.Repository {
 	repo := newPolicyRepository(kv)
 	return &repo
-- 
2.43.0


From b23a38c412ea3072e96710a002c0dc412fa1600d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:40 +0000
Subject: [PATCH 04/18] fix: report store errors and keep partially written
 relationships hidden

Raccoon's stores drop the errors of writes, of edge lookups and of iterators
which end early, so that failed writes were acknowledged, listings truncated
and accesses decided on part of the data. Collect those errors per operation.

The edges of a relationship are written in an order in which a write or
delete that stops half way left it visible to some requests only. Write the
outgoing edge last and delete it first, and take it as what makes a
relationship exist.
---
 internal/store/kv_store/kv_store.go          |  40 +++----
 internal/store/kv_store/node_repository.go   |  25 +++-
 internal/store/kv_store/operation.go         | 118 +++++++++++++++++++
 internal/store/kv_store/policy_repository.go | 108 +++++++++++++----
 4 files changed, 245 insertions(+), 46 deletions(-)
 create mode 100644 internal/store/kv_store/operation.go

diff --git a/internal/store/kv_store/kv_store.go b/internal/store/kv_store/kv_store.go
index a0abcfc..19cf54e 100644
--- a/internal/store/kv_store/kv_store.go
+++ b/internal/store/kv_store/kv_store.go
@@ -21,35 +21,34 @@ var (
 )
 
 func NewKVStore(store rcdb.KVStore) (KVStore, error) {
-	factory := func() *domain.PolicyRecord { return &domain.PolicyRecord{} }
-	ider := &policyIDer{}
-	protoMarshaler := rcdb.ProtoMarshaler[*domain.PolicyRecord](factory)
-	policyPrefixWrapper := rcdb.NewWrapperKV(store, policyStorePrefix)
-	policyStore := rcdb.NewObjStore[*domain.PolicyRecord](policyPrefixWrapper, protoMarshaler, ider)
-
 	return KVStore{
-		baseKV:                   store,
-		policyStore:              policyStore,
-		relationshipPrefixKV:     rcdb.NewWrapperKV(store, relationshipStorePrefix),
-		relationshipDataPrefixKV: rcdb.NewWrapperKV(store, relationshipDataStorePrefix),
+		baseKV: store,
 	}, nil
 }
 
 type KVStore struct {
-	baseKV                   rcdb.KVStore
-	policyStore              rcdb.ObjectStore[*domain.PolicyRecord]
-	relationshipPrefixKV     rcdb.KVStore
-	relationshipDataPrefixKV rcdb.KVStore
+	baseKV rcdb.KVStore
 }
 
-func (kv *KVStore) getPolicyStore() *rcdb.ObjectStore[*domain.PolicyRecord] {
-	return &kv.policyStore
+// newOperation returns the KVStore through which a repository operation accesses the data
+func (kv *KVStore) newOperation() *operation {
+	return newOperation(kv.baseKV)
+}
+
+func (kv *KVStore) getPolicyStore(op *operation) *rcdb.ObjectStore[*domain.PolicyRecord] {
+	factory := func() *domain.PolicyRecord { return &domain.PolicyRecord{} }
+	ider := &policyIDer{}
+	protoMarshaler := rcdb.ProtoMarshaler[*domain.PolicyRecord](factory)
+	policyPrefixWrapper := rcdb.NewWrapperKV(op, policyStorePrefix)
+	policyStore := rcdb.NewObjStore[*domain.PolicyRecord](policyPrefixWrapper, protoMarshaler, ider)
+	return &policyStore
 }
 
-func (kv *KVStore) getRelationshipStore(policyId string) rcdb.RaccoonStore[*Relationship, *RelationNode] {
+func (kv *KVStore) getRelationshipStore(op *operation, policyId string) rcdb.RaccoonStore[*Relationship, *RelationNode] {
 	factory := func() *Relationship { return &Relationship{} }
 	marshaler := rcdb.ProtoMarshaler[*Relationship](factory)
-	store := rcdb.NewWrapperKV(kv.relationshipPrefixKV, policyPrefix(policyId))
+	relationshipPrefixKV := rcdb.NewWrapperKV(op, relationshipStorePrefix)
+	store := rcdb.NewWrapperKV(relationshipPrefixKV, policyPrefix(policyId))
 	schema := rcdb.RaccoonSchema[*Relationship, *RelationNode]{
 		Store:     store,
 		Keyer:     &relationNodeKeyer{},
@@ -58,11 +57,12 @@ func (kv *KVStore) getRelationshipStore(policyId string) rcdb.RaccoonStore[*Rela
 	return rcdb.NewRaccoonStore(schema)
 }
 
-func (kv *KVStore) getRelationshipDataStore(policyId string) *rcdb.ObjectStore[*RelationshipData] {
+func (kv *KVStore) getRelationshipDataStore(op *operation, policyId string) *rcdb.ObjectStore[*RelationshipData] {
 	factory := func() *RelationshipData { return &RelationshipData{} }
 	marshaler := rcdb.ProtoMarshaler[*RelationshipData](factory)
 	ider := relationshipDataIDer{}
-	policyKV := rcdb.NewWrapperKV(kv.relationshipDataPrefixKV, policyPrefix(policyId))
+	relationshipDataPrefixKV := rcdb.NewWrapperKV(op, relationshipDataStorePrefix)
+	policyKV := rcdb.NewWrapperKV(relationshipDataPrefixKV, policyPrefix(policyId))
 	store := rcdb.NewObjStore[*RelationshipData](policyKV, marshaler, &ider)
 	return &store
 }
diff --git a/internal/store/kv_store/node_repository.go b/internal/store/kv_store/node_repository.go
index 53538ac..04a387b 100644
--- a/internal/store/kv_store/node_repository.go
+++ b/internal/store/kv_store/node_repository.go
@@ -24,7 +24,8 @@ type nodeRepository struct {
 }
 
 func (r *nodeRepository) GetSucessors(ctx context.Context, policyId string, node *domain.EntitySetNode) ([]*domain.RelationNode, error) {
-	store := r.kvStore.getRelationshipStore(policyId)
+	op := r.kvStore.newOperation()
+	store := r.kvStore.getRelationshipStore(op, policyId)
 	relNode := &domain.RelationNode{
 		Node: &domain.RelationNode_EntitySet{
 			EntitySet: node,
@@ -36,6 +37,9 @@ func (r *nodeRepository) GetSucessors(ctx context.Context, policyId string, node
 	if err != nil {
 		return nil, err
 	}
+	if err := op.Err(); err != nil {
+		return nil, err
+	}
 
 	return utils.MapSlice(sucessors, func(relationship *Relationship) *domain.RelationNode {
 		node := r.mapper.ToPublicRelationNode(relationship.Dest)
@@ -44,12 +48,27 @@ func (r *nodeRepository) GetSucessors(ctx context.Context, policyId string, node
 }
 
 func (r *nodeRepository) ListEdges(ctx context.Context, policyId string) ([]types.Pair[*domain.RelationNode, *domain.RelationNode], error) {
-	store := r.kvStore.getRelationshipStore(policyId)
+	op := r.kvStore.newOperation()
+	store := r.kvStore.getRelationshipStore(op, policyId)
 
-	relationships, err := store.List()
+	listed, err := store.List()
+	if err != nil {
+		return nil, err
+	}
+	relationships := utils.Filter(listed, func(relationship *Relationship) bool {
+		// only relationships which were completely written are part of the graph
+		opt, getErr := store.Get(relationship.GetSource(), relationship.GetDest())
+		if getErr != nil {
+			err = getErr
+		}
+		return !opt.IsEmpty()
+	})
 	if err != nil {
 		return nil, err
 	}
+	if err := op.Err(); err != nil {
+		return nil, err
+	}
 
 	pairs := utils.MapSlice(relationships, func(relationship *Relationship) types.Pair[*domain.RelationNode, *domain.RelationNode] {
 		source := r.mapper.ToPublicRelationNode(relationship.Source)
diff --git a/internal/store/kv_store/operation.go b/internal/store/kv_store/operation.go
new file mode 100644
index 0000000..790bb5a
--- /dev/null
+++ b/internal/store/kv_store/operation.go
@@ -0,0 +1,118 @@
+package kv_store
+
+import (
+	"errors"
+
+	rcdb "github.com/sourcenetwork/raccoondb"
+)
+
+var _ rcdb.KVStore = (*operation)(nil)
+
+var errIteratorUnavailable = errors.New("could not create iterator")
+
+func newOperation(store rcdb.KVStore) *operation {
+	return &operation{
+		store: store,
+	}
+}
+
+// operation is the view of the KVStore used by a single repository operation.
+//
+// Raccoon's stores do not report all errors returned by the underlying KVStore,
+// therefore operation keeps the first one it sees, which callers get through Err.
+//
+// Writes are held back until Commit.
+type operation struct {
+	store  rcdb.KVStore
+	err    error
+	writes []func() error
+}
+
+// Err returns the first error found while reading from the store
+func (o *operation) Err() error {
+	return o.err
+}
+
+func (o *operation) setErr(err error) {
+	if o.err == nil {
+		o.err = err
+	}
+}
+
+// Commit applies the operation's writes to the store, the last one first,
+// and stops at the first error.
+//
+// The order means that the record registered first - the one which is visible to readers -
+// is only written once all the records it relies on have been written.
+func (o *operation) Commit() error {
+	if o.err != nil {
+		return o.err
+	}
+
+	for i := len(o.writes) - 1; i >= 0; i-- {
+		err := o.writes[i]()
+		if err != nil {
+			return err
+		}
+	}
+	o.writes = nil
+	return nil
+}
+
+func (o *operation) Get(key []byte) ([]byte, error) {
+	value, err := o.store.Get(key)
+	o.setErr(err)
+	return value, err
+}
+
+func (o *operation) Has(key []byte) (bool, error) {
+	has, err := o.store.Has(key)
+	o.setErr(err)
+	return has, err
+}
+
+func (o *operation) Set(key, value []byte) error {
+	o.writes = append(o.writes, func() error { return o.store.Set(key, value) })
+	return nil
+}
+
+func (o *operation) Delete(key []byte) error {
+	o.writes = append(o.writes, func() error { return o.store.Delete(key) })
+	return nil
+}
+
+func (o *operation) Iterator(start, end []byte) rcdb.Iterator {
+	iter := o.store.Iterator(start, end)
+	if iter == nil {
+		o.setErr(errIteratorUnavailable)
+		return &emptyIterator{}
+	}
+	return &operationIterator{
+		Iterator:  iter,
+		operation: o,
+	}
+}
+
+// operationIterator registers the error which ended the iteration, if any
+type operationIterator struct {
+	rcdb.Iterator
+	operation *operation
+}
+
+func (i *operationIterator) Valid() bool {
+	valid := i.Iterator.Valid()
+	if !valid {
+		i.operation.setErr(i.Iterator.Error())
+	}
+	return valid
+}
+
+// emptyIterator has no elements
+type emptyIterator struct{}
+
+func (i *emptyIterator) Valid() bool   { return false }
+func (i *emptyIterator) Next()         {}
+func (i *emptyIterator) Key() []byte   { return nil }
+func (i *emptyIterator) Value() []byte { return nil }
+func (i *emptyIterator) Error() error  { return errIteratorUnavailable }
+func (i *emptyIterator) Close() error  { return nil }
diff --git a/internal/store/kv_store/policy_repository.go b/internal/store/kv_store/policy_repository.go
index bff9aa1..663453d 100644
--- a/internal/store/kv_store/policy_repository.go
+++ b/internal/store/kv_store/policy_repository.go
@@ -31,7 +31,8 @@ type policyRepository struct {
 }
 
 func (r *policyRepository) SetPolicy(ctx context.Context, record *domain.PolicyRecord) (types.RecordFound, error) {
-	store := r.kvStore.getPolicyStore()
+	op := r.kvStore.newOperation()
+	store := r.kvStore.getPolicyStore(op)
 
 	has, err := store.HasById([]byte(record.Policy.Id))
 	if err != nil {
@@ -43,11 +44,17 @@ func (r *policyRepository) SetPolicy(ctx context.Context, record *domain.PolicyR
 		return false, err
 	}
 
+	err = op.Commit()
+	if err != nil {
+		return false, err
+	}
+
 	return types.RecordFound(has), nil
 }
 
 func (r *policyRepository) GetPolicy(ctx context.Context, id string) (*domain.PolicyRecord, error) {
-	store := r.kvStore.getPolicyStore()
+	op := r.kvStore.newOperation()
+	store := r.kvStore.getPolicyStore(op)
 	opt, err := store.GetObject([]byte(id))
 	if err != nil {
 		return nil, err
@@ -60,7 +67,8 @@ func (r *policyRepository) GetPolicy(ctx context.Context, id string) (*domain.Po
 }
 
 func (r *policyRepository) DeletePolicy(ctx context.Context, id string) (types.RecordFound, error) {
-	store := r.kvStore.getPolicyStore()
+	op := r.kvStore.newOperation()
+	store := r.kvStore.getPolicyStore(op)
 
 	found, err := store.HasById([]byte(id))
 	if err != nil {
@@ -74,24 +82,34 @@ func (r *policyRepository) DeletePolicy(ctx context.Context, id string) (types.R
 	if err != nil {
 		return false, err
 	}
+
+	err = op.Commit()
+	if err != nil {
+		return false, err
+	}
 	return true, nil
 }
 
 func (r *policyRepository) ListPolicyIds(context.Context) ([]string, error) {
-    store := r.kvStore.getPolicyStore()
-    ids, err := store.ListIds()
-    if err != nil {
-        return nil, fmt.Errorf("list policy ids: %w", err)
-    }
-
-    return utils.MapSlice(ids, func(id []byte) string {
-        return string(id)
-    }), nil
+	op := r.kvStore.newOperation()
+	store := r.kvStore.getPolicyStore(op)
+	ids, err := store.ListIds()
+	if err != nil {
+		return nil, fmt.Errorf("list policy ids: %w", err)
+	}
+	if err := op.Err(); err != nil {
+		return nil, fmt.Errorf("list policy ids: %w", err)
+	}
+
+	return utils.MapSlice(ids, func(id []byte) string {
+		return string(id)
+	}), nil
 }
 
 func (r *policyRepository) SetRelationship(ctx context.Context, record *domain.RelationshipRecord) (bool, error) {
-	relationshipStore := r.kvStore.getRelationshipStore(record.PolicyId)
-	relationshipDataStore := r.kvStore.getRelationshipDataStore(record.PolicyId)
+	op := r.kvStore.newOperation()
+	relationshipStore := r.kvStore.getRelationshipStore(op, record.PolicyId)
+	relationshipDataStore := r.kvStore.getRelationshipDataStore(op, record.PolicyId)
 
 	// FIXME wrap in tx
 	relationship := r.mapper.ToInternal(record.Relationship)
@@ -117,12 +135,20 @@ func (r *policyRepository) SetRelationship(ctx context.Context, record *domain.R
 		return false, fmt.Errorf("kvstore: set relationship appdata: %w", err)
 	}
 
+	// writes the data, the incoming edge and then the outgoing edge,
+	// which is the one that makes the relationship exist
+	err = op.Commit()
+	if err != nil {
+		return false, fmt.Errorf("kvstore: set relationship: %w", err)
+	}
+
 	return updated, nil
 }
 
 func (r *policyRepository) DeleteRelationship(ctx context.Context, policyId string, spec *domain.Relationship) (types.RecordFound, error) {
-	relationshipStore := r.kvStore.getRelationshipStore(policyId)
-	relationshipDataStore := r.kvStore.getRelationshipDataStore(policyId)
+	op := r.kvStore.newOperation()
+	relationshipStore := r.kvStore.getRelationshipStore(op, policyId)
+	relationshipDataStore := r.kvStore.getRelationshipDataStore(op, policyId)
 
 	// FIXME wrap in tx
 	relationship := r.mapper.ToInternal(spec)
@@ -134,12 +160,18 @@ func (r *policyRepository) DeleteRelationship(ctx context.Context, policyId stri
 		return false, err
 	}
 
+	err = relationshipDataStore.DeleteById(id)
+	if err != nil {
+		return false, err
+	}
+
 	err = relationshipStore.Delete(&relationship)
 	if err != nil {
 		return false, err
 	}
 
-	err = relationshipDataStore.DeleteById(id)
+	// deletes the outgoing edge, the incoming edge and then the data
+	err = op.Commit()
 	if err != nil {
 		return false, err
 	}
@@ -148,12 +180,29 @@ func (r *policyRepository) DeleteRelationship(ctx context.Context, policyId stri
 }
 
 func (r *policyRepository) FindRelationships(ctx context.Context, policyId string, selector *domain.RelationshipSelector) ([]*domain.Relationship, error) {
-	relationshipStore := r.kvStore.getRelationshipStore(policyId)
+	records, err := r.FindRelationshipRecords(ctx, policyId, selector)
+	if err != nil {
+		return nil, err
+	}
+
+	return utils.MapSlice(records, func(record *domain.RelationshipRecord) *domain.Relationship {
+		return record.Relationship
+	}), nil
+}
+
+// listRelationships returns the relationships in the store which match selector,
+// including the ones which were only partially written or deleted.
+func (r *policyRepository) listRelationships(policyId string, selector *domain.RelationshipSelector) ([]*domain.Relationship, error) {
+	op := r.kvStore.newOperation()
+	relationshipStore := r.kvStore.getRelationshipStore(op, policyId)
 
 	rels, err := relationshipStore.List()
 	if err != nil {
 		return nil, err
 	}
+	if err := op.Err(); err != nil {
+		return nil, err
+	}
 
 	spec, err := policy.NewSelectorSpec(selector)
 	if err != nil {
@@ -169,9 +218,22 @@ func (r *policyRepository) FindRelationships(ctx context.Context, policyId strin
 }
 
 func (r *policyRepository) GetRelationship(ctx context.Context, policyId string, relationship *domain.Relationship) (*domain.RelationshipRecord, error) {
-	relationshipDataStore := r.kvStore.getRelationshipDataStore(policyId)
+	op := r.kvStore.newOperation()
+	relationshipStore := r.kvStore.getRelationshipStore(op, policyId)
+	relationshipDataStore := r.kvStore.getRelationshipDataStore(op, policyId)
 
 	internalRelationship := r.mapper.ToInternal(relationship)
+	relationshipOpt, err := relationshipStore.Get(internalRelationship.GetSource(), internalRelationship.GetDest())
+	if err != nil {
+		return nil, err
+	}
+	if err := op.Err(); err != nil {
+		return nil, err
+	}
+	if relationshipOpt.IsEmpty() {
+		return nil, nil
+	}
+
 	id := r.relationshipIDer.Id(&internalRelationship)
 	dataOpt, err := relationshipDataStore.GetObject(id)
 	if err != nil {
@@ -185,7 +247,7 @@ func (r *policyRepository) GetRelationship(ctx context.Context, policyId string,
 }
 
 func (r *policyRepository) FindRelationshipRecords(ctx context.Context, policyId string, selector *domain.RelationshipSelector) ([]*domain.RelationshipRecord, error) {
-	relationships, err := r.FindRelationships(ctx, policyId, selector)
+	relationships, err := r.listRelationships(policyId, selector)
 	if err != nil {
 		return nil, err
 	}
@@ -197,11 +259,11 @@ func (r *policyRepository) FindRelationshipRecords(ctx context.Context, policyId
 		return nil, err
 	}
 
-	return records, nil
+	return utils.Filter(records, func(record *domain.RelationshipRecord) bool { return record != nil }), nil
 }
 
 func (r *policyRepository) DeleteRelationships(ctx context.Context, policyId string, selector *domain.RelationshipSelector) (uint64, error) {
-	relationships, err := r.FindRelationships(ctx, policyId, selector)
+	relationships, err := r.listRelationships(policyId, selector)
 	if err != nil {
 		return 0, err
 	}
@@ -213,6 +275,6 @@ func (r *policyRepository) DeleteRelationships(ctx context.Context, policyId str
 		return 0, err
 	}
 
-	removed := len(utils.MapSlice(founds, utils.Identity[types.RecordFound]))
+	removed := len(utils.Filter(founds, func(found types.RecordFound) bool { return bool(found) }))
 	return uint64(removed), nil
 }
-- 
2.43.0


From 322d2d2370925d1b84bd40535251ab7aca9eb4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:43 +0000
Subject: [PATCH 05/18] fix: list only policy ids and close the iterator

Without policies the listing returned the key of an unrelated record, and
the iterator was never closed, which keeps the memory store locked.
---
 internal/store/kv_store/kv_store.go          |  9 +++++++++
 internal/store/kv_store/policy_repository.go | 15 ++++++++-------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/internal/store/kv_store/kv_store.go b/internal/store/kv_store/kv_store.go
index 19cf54e..428325d 100644
--- a/internal/store/kv_store/kv_store.go
+++ b/internal/store/kv_store/kv_store.go
@@ -44,6 +44,15 @@ func (kv *KVStore) getPolicyStore(op *operation) *rcdb.ObjectStore[*domain.Polic
 	return &policyStore
 }
 
+// policyIterKeys returns the pair of keys which span over all policies.
+// The first one is also the prefix of all policy keys.
+func policyIterKeys() ([]byte, []byte) {
+	start := rcdb.Key{}.Append(policyStorePrefix, nil).ToBytes()
+	end := rcdb.Key{}.Append(policyStorePrefix).ToBytes()
+	end = append(end, rcdb.Separator+1)
+	return start, end
+}
+
 func (kv *KVStore) getRelationshipStore(op *operation, policyId string) rcdb.RaccoonStore[*Relationship, *RelationNode] {
 	factory := func() *Relationship { return &Relationship{} }
 	marshaler := rcdb.ProtoMarshaler[*Relationship](factory)
diff --git a/internal/store/kv_store/policy_repository.go b/internal/store/kv_store/policy_repository.go
index 663453d..1b5878d 100644
--- a/internal/store/kv_store/policy_repository.go
+++ b/internal/store/kv_store/policy_repository.go
@@ -92,18 +92,19 @@ func (r *policyRepository) DeletePolicy(ctx context.Context, id string) (types.R
 
 func (r *policyRepository) ListPolicyIds(context.Context) ([]string, error) {
 	op := r.kvStore.newOperation()
-	store := r.kvStore.getPolicyStore(op)
-	ids, err := store.ListIds()
-	if err != nil {
-		return nil, fmt.Errorf("list policy ids: %w", err)
+	start, end := policyIterKeys()
+	iter := op.Iterator(start, end)
+	defer iter.Close()
+
+	var ids []string
+	for ; iter.Valid(); iter.Next() {
+		ids = append(ids, string(iter.Key()[len(start):]))
 	}
 	if err := op.Err(); err != nil {
 		return nil, fmt.Errorf("list policy ids: %w", err)
 	}
 
-	return utils.MapSlice(ids, func(id []byte) string {
-		return string(id)
-	}), nil
+	return ids, nil
 }
 
 func (r *policyRepository) SetRelationship(ctx context.Context, record *domain.RelationshipRecord) (bool, error) {
-- 
2.43.0


From fc8d9fb1839e26124bc8e54e0eaa644c301f5735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:09 +0000
Subject: [PATCH 06/18] fix: fail instead of panicking on a wildcard in a tuple
 to userset rule

---
 internal/relation_graph/errors.go         | 1 +
 internal/relation_graph/rule_evaluator.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/internal/relation_graph/errors.go b/internal/relation_graph/errors.go
index b379f8c..85f9d62 100644
--- a/internal/relation_graph/errors.go
+++ b/internal/relation_graph/errors.go
@@ -3,3 +3,4 @@ package relation_graph
 import "errors"
 
 var ErrWildcardGoal = errors.New("goal target cannot be wildcard: invalid goal")
+var ErrWildcardTupleset = errors.New("wildcard nodes cannot be used in a tuple to userset rule")
diff --git a/internal/relation_graph/rule_evaluator.go b/internal/relation_graph/rule_evaluator.go
index 371d80a..41481fd 100644
--- a/internal/relation_graph/rule_evaluator.go
+++ b/internal/relation_graph/rule_evaluator.go
@@ -118,6 +118,7 @@ func buildTupleToUsersetNode(node *domain.RelationNode, computedRelation string)
 		entitySetNode.Object = nodeType.Entity.Object
 	case *domain.RelationNode_Wildcard:
 		//TODO not sure how I should go about this scenario yet...
+		return nil, fmt.Errorf("building tuple to userset node: node %v: %w", node, ErrWildcardTupleset)
 	default:
 		return nil, fmt.Errorf("building tuple to userset node: node %v: %w", node, domain.ErrInvalidVariant)
 	}
-- 
2.43.0


From bfd2b05d51fa1f56a169b357a73dcf99cd83ebce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:12 +0000
Subject: [PATCH 07/18] fix: return the resource of entity set subjects

Selectors with an entity set subject were validated against the name of its
relation.
---
 pkg/domain/relationship.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/domain/relationship.go b/pkg/domain/relationship.go
index ebad6d7..4a5bd38 100644
--- a/pkg/domain/relationship.go
+++ b/pkg/domain/relationship.go
@@ -84,7 +84,7 @@ func (s *Subject) GetResourceName() string {
 	case *Subject_Entity:
 		return subj.Entity.Resource
 	case *Subject_EntitySet:
-		return subj.EntitySet.Relation
+		return subj.EntitySet.Entity.Resource
 	case *Subject_ResourceSet:
 		return subj.ResourceSet.ResourceName
 	}
-- 
2.43.0


From 48975e47c9c4ad659123dd7abc34da73a43badcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:15 +0000
Subject: [PATCH 08/18] fix: compare selector messages by content

DeepEqual also compares the internal state of messages, such that a selector
received over the wire or logged before did not match any relationship.
---
 internal/policy/selector_spec.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/policy/selector_spec.go b/internal/policy/selector_spec.go
index a9b4378..6dacba2 100644
--- a/internal/policy/selector_spec.go
+++ b/internal/policy/selector_spec.go
@@ -2,7 +2,8 @@ package policy
 
 import (
 	"fmt"
-	"reflect"
+
+	"google.golang.org/protobuf/proto"
 
 	"github.com/sourcenetwork/zanzi/pkg/domain"
 )
@@ -59,7 +60,7 @@ func (s *RelationshipSelectorSpec) Satisfies(relationship *domain.Relationship)
 
 func (s *RelationshipSelectorSpec) objectSpec(entity *domain.Entity) predicate {
 	return func(r *domain.Relationship) bool {
-		return reflect.DeepEqual(entity, r.Object)
+		return proto.Equal(entity, r.Object)
 	}
 }
 
@@ -89,7 +90,7 @@ func (s *RelationshipSelectorSpec) relationWildcardSpec() predicate {
 
 func (s *RelationshipSelectorSpec) subjectSpec(subject *domain.Subject) predicate {
 	return func(r *domain.Relationship) bool {
-		return reflect.DeepEqual(r.Subject, subject)
+		return proto.Equal(r.Subject, subject)
 	}
 }
 
-- 
2.43.0


From cc94840b59d408d7b53679721bf33a471e71b6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:19 +0000
Subject: [PATCH 09/18] fix: delete a policy only after its relationships

If deleting the relationships failed or was interrupted, the policy was gone,
a retry reported it as not found and the relationships came back with the
next policy with the same id.
---
 internal/policy/service.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/policy/service.go b/internal/policy/service.go
index dc5d1ab..346fee4 100644
--- a/internal/policy/service.go
+++ b/internal/policy/service.go
@@ -103,24 +103,31 @@ func (s *Service) DeletePolicy(
 	req *api.DeletePolicyRequest) (*api.DeletePolicyResponse, error) {
 	repo := s.getPolicyRepository()
 
-	// TODO wrap in Tx
-	found, err := repo.DeletePolicy(ctx, req.Id)
+	record, err := repo.GetPolicy(ctx, req.Id)
 	if err != nil {
 		return nil, fmt.Errorf("failed to delete policy: %w", err)
 	}
-	if !found {
+	if record == nil {
 		return &api.DeletePolicyResponse{
 			Found:                false,
 			RelationshipsRemoved: 0,
 		}, nil
 	}
 
+	// TODO wrap in Tx
+	// The policy is deleted last, otherwise relationships would be left behind
+	// for good if the operation is interrupted
 	selector := allRelationshipsSelector()
 	count, err := repo.DeleteRelationships(ctx, req.Id, &selector)
 	if err != nil {
 		return nil, fmt.Errorf("failed to delete policy: %w", err)
 	}
 
+	_, err = repo.DeletePolicy(ctx, req.Id)
+	if err != nil {
+		return nil, fmt.Errorf("failed to delete policy: %w", err)
+	}
+
 	return &api.DeletePolicyResponse{
 		Found:                true,
 		RelationshipsRemoved: count,
-- 
2.43.0


From 4b1475426510c8fea3bab79d00c728c027e32487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:01 +0000
Subject: [PATCH 10/18] fix: make explain and expand outputs complete

Goal trees could not be serialized as JSON because nodes refer to their
parents, ExplainCheck did not set the format of its response and Expand did
not walk through the second operand of intersections.
---
 internal/relation_graph/searcher.go | 4 ++++
 internal/relation_graph/service.go  | 1 +
 internal/relation_graph/types.go    | 8 ++++----
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/internal/relation_graph/searcher.go b/internal/relation_graph/searcher.go
index 3a03a82..cb1e608 100644
--- a/internal/relation_graph/searcher.go
+++ b/internal/relation_graph/searcher.go
@@ -121,6 +121,10 @@ func (s *Searcher) searchAND(ctx context.Context, policy *domain.Policy, tree *A
 		// ANDNode requires that all Paths to the Goal are found
 		if newPath.GetResult() != SearchResult_SUCCESS {
 			foundAll = false
+			if goal.Target == nil {
+				// without a Target all Paths are walked through
+				continue
+			}
 			s.logger.Debugf("AND Node terminated: node %v did not reach path", newPath)
 			break
 		}
diff --git a/internal/relation_graph/service.go b/internal/relation_graph/service.go
index 85e9298..3b17c4d 100644
--- a/internal/relation_graph/service.go
+++ b/internal/relation_graph/service.go
@@ -133,6 +133,7 @@ func (s *Service) ExplainCheck(
 	return &api.ExplainCheckResponse{
 		GoalTree:   serialized,
 		Authorized: found,
+		Format:     req.Format,
 	}, nil
 }
 
diff --git a/internal/relation_graph/types.go b/internal/relation_graph/types.go
index 4c2cea0..11bb01b 100644
--- a/internal/relation_graph/types.go
+++ b/internal/relation_graph/types.go
@@ -25,7 +25,7 @@ type GoalTree interface {
 // The ORNode is satisfied if the Goal is found in *any*
 // Paths
 type ORNode struct {
-	Parent GoalTree
+	Parent GoalTree `json:"-"`
 	Result SearchResult
 	Paths  []GoalTree
 }
@@ -37,7 +37,7 @@ func (n *ORNode) SetParent(p GoalTree)    { n.Parent = p }
 // The ANDNode is satisfied if the Goal is found in *all*
 // Paths
 type ANDNode struct {
-	Parent GoalTree
+	Parent GoalTree `json:"-"`
 	Result SearchResult
 	Paths  []GoalTree
 }
@@ -49,7 +49,7 @@ func (n *ANDNode) SetParent(p GoalTree)    { n.Parent = p }
 // A DifferenceNode is satisfied if the Goal is found
 // on the Left GoalTree but not on the Right.
 type DifferenceNode struct {
-	Parent GoalTree
+	Parent GoalTree `json:"-"`
 	Result SearchResult
 	Left   GoalTree
 	Right  GoalTree
@@ -92,7 +92,7 @@ func (r SearchResult) MarshalJSON() ([]byte, error) {
 
 // PathNode represents a possible search path in the GoalTree
 type PathNode struct {
-	Parent       GoalTree
+	Parent       GoalTree `json:"-"`
 	Result       SearchResult
 	RelationNode *domain.RelationNode
 	Path         GoalTree
-- 
2.43.0


From 3fabe050a51c101c1dbb95cadd5f60a14821168c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:42 +0000
Subject: [PATCH 11/18] fix: dump cyclic relationships

Dumping relationships which form a cycle recursed until the process died or
left them out, and relationships below a shared node were repeated.
---
 .../relation_tree_serializer.go               | 13 +++++++---
 internal/relation_graph/walker.go             | 25 +++++++++++++++++++
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/internal/relation_graph/relation_tree_serializer.go b/internal/relation_graph/relation_tree_serializer.go
index 166b9e4..852b75f 100644
--- a/internal/relation_graph/relation_tree_serializer.go
+++ b/internal/relation_graph/relation_tree_serializer.go
@@ -16,7 +16,8 @@ func (s *RelationTreeDOTSerializer) Serialize(tree *domain.RelationTree) (string
 	graph.SetDir(directed) //directed graph true
 	graph.SetName(relationTreeGraphName)
 
-	err := s.handleNode(nil, tree, graph)
+	visited := make(map[*domain.RelationTree]struct{})
+	err := s.handleNode(nil, tree, graph, visited)
 	if err != nil {
 		return "", err
 	}
@@ -24,7 +25,7 @@ func (s *RelationTreeDOTSerializer) Serialize(tree *domain.RelationTree) (string
 	return graph.String(), nil
 }
 
-func (s *RelationTreeDOTSerializer) handleNode(parent *domain.RelationTree, node *domain.RelationTree, graph *gographviz.Graph) error {
+func (s *RelationTreeDOTSerializer) handleNode(parent *domain.RelationTree, node *domain.RelationTree, graph *gographviz.Graph, visited map[*domain.RelationTree]struct{}) error {
 	id := s.nodeId(node.Node)
 	label := s.nodeLabel(node.Node)
 
@@ -43,8 +44,14 @@ func (s *RelationTreeDOTSerializer) handleNode(parent *domain.RelationTree, node
 		}
 	}
 
+	// the children of a node shared by several parents are only added once
+	if _, ok := visited[node]; ok {
+		return nil
+	}
+	visited[node] = struct{}{}
+
 	for _, child := range node.Children {
-		err := s.handleNode(node, child, graph)
+		err := s.handleNode(node, child, graph, visited)
 		if err != nil {
 			return err
 		}
diff --git a/internal/relation_graph/walker.go b/internal/relation_graph/walker.go
index 4362410..a8df752 100644
--- a/internal/relation_graph/walker.go
+++ b/internal/relation_graph/walker.go
@@ -16,6 +16,9 @@ func newWalker(repository NodeRepository, logger types.Logger) walker {
 
 // walker traversers through the explicit nodes within the relation graph and builds a forest of trees
 // explicit nodes are derived from Policy Relationships
+//
+// A node which is the child of several nodes is shared among them,
+// therefore cycles between relationships are cycles between trees.
 type walker struct {
 	logger     types.Logger
 	repository NodeRepository
@@ -42,8 +45,19 @@ func (w *walker) Walk(ctx context.Context, policy *domain.Policy) (*domain.Relat
 	}
 
 	rootChildren := make([]*domain.RelationTree, 0, len(orphans))
+	reached := make(map[*domain.RelationTree]struct{})
 	for orphan := range orphans {
 		rootChildren = append(rootChildren, trees[orphan])
+		w.markReached(trees[orphan], reached)
+	}
+
+	// nodes which are only reachable through a cycle have no orphan above them
+	for _, edge := range edges {
+		tree := w.getTree(edge.First(), trees)
+		if _, ok := reached[tree]; !ok {
+			rootChildren = append(rootChildren, tree)
+			w.markReached(tree, reached)
+		}
 	}
 
 	return &domain.RelationTree{
@@ -52,6 +66,17 @@ func (w *walker) Walk(ctx context.Context, policy *domain.Policy) (*domain.Relat
 	}, nil
 }
 
+// markReached adds tree and all its descendants to reached
+func (w *walker) markReached(tree *domain.RelationTree, reached map[*domain.RelationTree]struct{}) {
+	if _, ok := reached[tree]; ok {
+		return
+	}
+	reached[tree] = struct{}{}
+	for _, child := range tree.Children {
+		w.markReached(child, reached)
+	}
+}
+
 func (w *walker) getTree(node *domain.RelationNode, trees map[string]*domain.RelationTree) *domain.RelationTree {
 	tree, ok := trees[node.Id()]
 	if !ok {
-- 
2.43.0


From 8eb18b3b57f8d6ca7b6e2d3e46acc06bfa4f5206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:46 +0000
Subject: [PATCH 12/18] fix: escape names in DOT output

---
 internal/relation_graph/goal_tree_serializer.go     | 11 +++++++++--
 internal/relation_graph/relation_tree_serializer.go |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/relation_graph/goal_tree_serializer.go b/internal/relation_graph/goal_tree_serializer.go
index 6b2753c..e4dd76f 100644
--- a/internal/relation_graph/goal_tree_serializer.go
+++ b/internal/relation_graph/goal_tree_serializer.go
@@ -3,6 +3,7 @@ package relation_graph
 import (
 	"encoding/json"
 	"fmt"
+	"strings"
 
 	"github.com/awalterschulze/gographviz"
 	"github.com/davecgh/go-spew/spew"
@@ -180,8 +181,14 @@ func (s *dotSerializer) nextId() string {
 
 // sprintf formats a string and wraps it with quotes
 func (s *dotSerializer) sprintf(format string, args ...any) string {
-	format = "\"" + format + "\""
-	return fmt.Sprintf(format, args...)
+	return quoteDOT(fmt.Sprintf(format, args...))
+}
+
+var dotEscaper *strings.Replacer = strings.NewReplacer("\\", "\\\\", "\"", "\\\"")
+
+// quoteDOT returns str as a quoted string for the DOT language
+func quoteDOT(str string) string {
+	return "\"" + dotEscaper.Replace(str) + "\""
 }
 
 func SerializerFactory(model api.ExplainFormat) (GoalTreeSerializer, error) {
diff --git a/internal/relation_graph/relation_tree_serializer.go b/internal/relation_graph/relation_tree_serializer.go
index 852b75f..8ed6f83 100644
--- a/internal/relation_graph/relation_tree_serializer.go
+++ b/internal/relation_graph/relation_tree_serializer.go
@@ -75,5 +75,5 @@ func (s *RelationTreeDOTSerializer) nodeLabel(node *domain.RelationNode) string
 }
 
 func (s *RelationTreeDOTSerializer) wrap(str string) string {
-	return "\"" + str + "\""
+	return quoteDOT(str)
 }
-- 
2.43.0


From 1408606049cde0eded8cf4d071859bf5b50e9cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:10 +0000
Subject: [PATCH 13/18] fix: reject incomplete policies, relationships and
 selectors

---
 internal/policy/helpers.go       | 48 +++++++++++++++-
 internal/policy/selector_spec.go |  6 +-
 internal/policy/service.go       | 12 ++++
 internal/policy/spec.go          | 98 +++++++++++++++++++++++---------
 pkg/domain/relationship.go       |  8 +--
 5 files changed, 137 insertions(+), 35 deletions(-)

diff --git a/internal/policy/helpers.go b/internal/policy/helpers.go
index 588caf0..cec7425 100644
--- a/internal/policy/helpers.go
+++ b/internal/policy/helpers.go
@@ -21,7 +21,7 @@ func GetExpressionTree(r *domain.Relation) (*domain.RelationExpressionTree, erro
 	var tree *domain.RelationExpressionTree
 	var err error
 
-	switch t := r.RelationExpression.Expression.(type) {
+	switch t := r.GetRelationExpression().GetExpression().(type) {
 	case *domain.RelationExpression_Expr:
 		tree, err = parser.Parse(t.Expr)
 		if err != nil {
@@ -29,6 +29,10 @@ func GetExpressionTree(r *domain.Relation) (*domain.RelationExpressionTree, erro
 		}
 	case *domain.RelationExpression_Tree:
 		tree = t.Tree
+		err = validateExpressionTree(tree)
+		if err != nil {
+			err = fmt.Errorf("expression tree: relation %v: %w", r.Name, err)
+		}
 	default:
 		err = fmt.Errorf("expression tree: relation %v: obj %v: %w", r.Name, t, domain.ErrInvalidVariant)
 	}
@@ -36,11 +40,48 @@ func GetExpressionTree(r *domain.Relation) (*domain.RelationExpressionTree, erro
 	return tree, err
 }
 
+// validateExpressionTree verifies that no part of the tree is missing
+func validateExpressionTree(tree *domain.RelationExpressionTree) error {
+	switch node := tree.GetNode().(type) {
+	case *domain.RelationExpressionTree_Rule:
+		return validateRule(node.Rule)
+	case *domain.RelationExpressionTree_OpNode:
+		if _, ok := domain.Operator_name[int32(node.OpNode.GetOperator())]; !ok {
+			return fmt.Errorf("operator %v: %w", node.OpNode.GetOperator(), domain.ErrInvalidVariant)
+		}
+		if err := validateExpressionTree(node.OpNode.GetLeft()); err != nil {
+			return err
+		}
+		return validateExpressionTree(node.OpNode.GetRight())
+	default:
+		return fmt.Errorf("node %v: %w", node, domain.ErrInvalidVariant)
+	}
+}
+
+func validateRule(rule *domain.Rule) error {
+	switch r := rule.GetRule().(type) {
+	case *domain.Rule_This:
+		return nil
+	case *domain.Rule_Cu:
+		if r.Cu.GetTargetRelation() == "" {
+			return fmt.Errorf("computed userset without relation: %w", ErrRelExpTree)
+		}
+		return nil
+	case *domain.Rule_Ttu:
+		if r.Ttu.GetTuplesetRelation() == "" || r.Ttu.GetComputedUsersetRelation() == "" {
+			return fmt.Errorf("tuple to userset without relation: %w", ErrRelExpTree)
+		}
+		return nil
+	default:
+		return fmt.Errorf("rule %v: %w", r, domain.ErrInvalidVariant)
+	}
+}
+
 func GetPolicyFromDefinition(d *api.PolicyDefinition) (*domain.Policy, error) {
 	var policy *domain.Policy
 	var err error
 
-	switch definition := d.Definition.(type) {
+	switch definition := d.GetDefinition().(type) {
 	case *api.PolicyDefinition_Policy:
 		policy = definition.Policy
 	case *api.PolicyDefinition_PolicyYaml:
@@ -52,6 +93,9 @@ func GetPolicyFromDefinition(d *api.PolicyDefinition) (*domain.Policy, error) {
 	if err != nil {
 		return nil, err
 	}
+	if policy == nil {
+		return nil, fmt.Errorf("PolicyDefinition: policy missing: %w", ErrInvalidPolicy)
+	}
 
 	return policy, err
 }
diff --git a/internal/policy/selector_spec.go b/internal/policy/selector_spec.go
index 6dacba2..3bad792 100644
--- a/internal/policy/selector_spec.go
+++ b/internal/policy/selector_spec.go
@@ -20,7 +20,7 @@ type RelationshipSelectorSpec struct {
 func NewSelectorSpec(selector *domain.RelationshipSelector) (RelationshipSelectorSpec, error) {
 	spec := RelationshipSelectorSpec{}
 
-	switch objectSelector := selector.ObjectSelector.Selector.(type) {
+	switch objectSelector := selector.GetObjectSelector().GetSelector().(type) {
 	case *domain.ObjectSelector_ObjectSpec:
 		spec.objectPredicate = spec.objectSpec(objectSelector.ObjectSpec)
 	case *domain.ObjectSelector_Wildcard:
@@ -31,7 +31,7 @@ func NewSelectorSpec(selector *domain.RelationshipSelector) (RelationshipSelecto
 		return spec, fmt.Errorf("ObjectSelector %v: %w", objectSelector, domain.ErrInvalidVariant)
 	}
 
-	switch relationSelector := selector.RelationSelector.Selector.(type) {
+	switch relationSelector := selector.GetRelationSelector().GetSelector().(type) {
 	case *domain.RelationSelector_RelationName:
 		spec.relationPredicate = spec.relationNameSpec(relationSelector.RelationName)
 	case *domain.RelationSelector_Wildcard:
@@ -40,7 +40,7 @@ func NewSelectorSpec(selector *domain.RelationshipSelector) (RelationshipSelecto
 		return spec, fmt.Errorf("RelationSelector %v: %w", relationSelector, domain.ErrInvalidVariant)
 	}
 
-	switch subjectSelector := selector.SubjectSelector.Selector.(type) {
+	switch subjectSelector := selector.GetSubjectSelector().GetSelector().(type) {
 	case *domain.SubjectSelector_SubjectSpec:
 		spec.subjectPredicate = spec.subjectSpec(subjectSelector.SubjectSpec)
 	case *domain.SubjectSelector_Wildcard:
diff --git a/internal/policy/service.go b/internal/policy/service.go
index 346fee4..fe54ff3 100644
--- a/internal/policy/service.go
+++ b/internal/policy/service.go
@@ -206,6 +206,12 @@ func (s *Service) DeleteRelationship(
 	req *api.DeleteRelationshipRequest) (*api.DeleteRelationshipResponse, error) {
 	repo := s.getPolicyRepository()
 
+	spec := AllowedRelationshipSpec{}
+	err := spec.requiredFields(req.Relationship)
+	if err != nil {
+		return nil, fmt.Errorf("delete Relationship: %w", err)
+	}
+
 	found, err := repo.DeleteRelationship(ctx, req.PolicyId, req.Relationship)
 	if err != nil {
 		return nil, fmt.Errorf("delete Relationship: %w", err)
@@ -221,6 +227,12 @@ func (s *Service) GetRelationship(
 	req *api.GetRelationshipRequest) (*api.GetRelationshipResponse, error) {
 	repo := s.getPolicyRepository()
 
+	spec := AllowedRelationshipSpec{}
+	err := spec.requiredFields(req.Relationship)
+	if err != nil {
+		return nil, fmt.Errorf("get relationship: %w", err)
+	}
+
 	record, err := repo.GetRelationship(ctx, req.PolicyId, req.Relationship)
 	if err != nil {
 		return nil, fmt.Errorf("get relationship: %w", err)
diff --git a/internal/policy/spec.go b/internal/policy/spec.go
index b387c56..131dc1b 100644
--- a/internal/policy/spec.go
+++ b/internal/policy/spec.go
@@ -17,13 +17,13 @@ func (s *ValidPolicySpec) Verify(policy *domain.Policy) error {
 }
 
 func (s *ValidPolicySpec) verify(policy *domain.Policy) error {
-	lut := NewPolicyLookUpTable(policy)
-
-	if err := s.UniqueResourceAndRelationsNames(policy); err != nil {
+	if err := s.RequiredFieldsPresent(policy); err != nil {
 		return err
 	}
 
-	if err := s.RequiredFieldsPresent(policy); err != nil {
+	lut := NewPolicyLookUpTable(policy)
+
+	if err := s.UniqueResourceAndRelationsNames(policy); err != nil {
 		return err
 	}
 
@@ -39,6 +39,21 @@ func (s *ValidPolicySpec) verify(policy *domain.Policy) error {
 }
 
 func (s *ValidPolicySpec) RequiredFieldsPresent(policy *domain.Policy) error {
+	if policy.Id == "" {
+		return fmt.Errorf("policy id missing: %w", ErrInvalidPolicy)
+	}
+
+	for _, resource := range policy.Resources {
+		if resource.GetName() == "" {
+			return fmt.Errorf("resource name missing: %w", ErrInvalidPolicy)
+		}
+		for _, relation := range resource.Relations {
+			if relation.GetName() == "" {
+				return fmt.Errorf("resource %v: relation name missing: %w", resource.Name, ErrInvalidPolicy)
+			}
+		}
+	}
+
 	return policy.Validate()
 }
 
@@ -148,14 +163,14 @@ func (s *ValidPolicySpec) ValidSubjectRestriction(restriction *domain.SubjectRes
 
 func (s *ValidPolicySpec) validSubjectRestrictionSet(restrictionSet *domain.SubjectRestrictionSet, lut PolicyLookUpTable) error {
 
-	for _, elem := range restrictionSet.Restrictions {
-		switch restriction := elem.Entry.(type) {
+	for _, elem := range restrictionSet.GetRestrictions() {
+		switch restriction := elem.GetEntry().(type) {
 		case *domain.SubjectRestrictionSet_Restriction_Entity:
-			if lut.GetResource(restriction.Entity.ResourceName) == nil {
-				return fmt.Errorf("no resource %v", restriction.Entity.ResourceName)
+			if lut.GetResource(restriction.Entity.GetResourceName()) == nil {
+				return fmt.Errorf("no resource %v", restriction.Entity.GetResourceName())
 			}
 		case *domain.SubjectRestrictionSet_Restriction_EntitySet:
-			resource, relation := restriction.EntitySet.ResourceName, restriction.EntitySet.RelationName
+			resource, relation := restriction.EntitySet.GetResourceName(), restriction.EntitySet.GetRelationName()
 			if lut.GetRelation(resource, relation) == nil {
 				return fmt.Errorf("no relation %v for resource %v", relation, resource)
 			}
@@ -177,9 +192,31 @@ func (s *AllowedRelationshipSpec) requiredFields(relationship *domain.Relationsh
 	if err != nil {
 		return fmt.Errorf("relationship %v: %w", relationship, ErrInvalidRelationship)
 	}
+
+	if !isEntityComplete(relationship.GetObject()) || relationship.GetRelation() == "" {
+		return fmt.Errorf("relationship %v: %w", relationship, ErrInvalidRelationship)
+	}
+
+	var complete bool
+	switch subject := relationship.GetSubject().GetSubject().(type) {
+	case *domain.Subject_Entity:
+		complete = isEntityComplete(subject.Entity)
+	case *domain.Subject_EntitySet:
+		complete = isEntityComplete(subject.EntitySet.GetEntity()) && subject.EntitySet.GetRelation() != ""
+	case *domain.Subject_ResourceSet:
+		complete = subject.ResourceSet.GetResourceName() != ""
+	}
+	if !complete {
+		return fmt.Errorf("relationship %v: subject: %w", relationship, ErrInvalidRelationship)
+	}
+
 	return nil
 }
 
+func isEntityComplete(entity *domain.Entity) bool {
+	return entity.GetResource() != "" && entity.GetId() != ""
+}
+
 // checkSymbols verifies that the symbols referred to in a Relationship are valid within a Policy
 // eg. validates the resources and relation names
 func (s *AllowedRelationshipSpec) checkSymbols(relationship *domain.Relationship, lut PolicyLookUpTable) error {
@@ -257,7 +294,7 @@ func (s *SubjectRestrictionSpec) Satisfies(relationship *domain.Relationship, ta
 
 	var err error
 
-	switch restriction := relation.SubjectRestriction.SubjectRestriction.(type) {
+	switch restriction := relation.GetSubjectRestriction().GetSubjectRestriction().(type) {
 	case *domain.SubjectRestriction_UniversalSet:
 		err = nil
 	case *domain.SubjectRestriction_RestrictionSet:
@@ -288,7 +325,7 @@ func (s *SubjectRestrictionSpec) satisfiesRestrictionSet(subject *domain.Subject
 		subjResource = subjectType.ResourceSet.ResourceName
 	}
 
-	for _, restriction := range set.Restrictions {
+	for _, restriction := range set.GetRestrictions() {
 		err := validator(restriction, subjResource, subjRelation)
 		if err == nil {
 			return nil
@@ -338,17 +375,17 @@ func (s *SubjectRestrictionSpec) satisfiesRestriction(restriction *domain.Subjec
 type ValidSelectorSpec struct{}
 
 func (s *ValidSelectorSpec) Satisfies(selector *domain.RelationshipSelector, policy *domain.Policy) error {
-	err := s.validObjectSelector(selector.ObjectSelector, policy)
+	err := s.validObjectSelector(selector.GetObjectSelector(), policy)
 	if err != nil {
 		return fmt.Errorf("object selector invalid: policy %v: %w", policy.Id, err)
 	}
 
-	err = s.validRelationSelector(selector.ObjectSelector, selector.RelationSelector, policy)
+	err = s.validRelationSelector(selector.GetObjectSelector(), selector.GetRelationSelector(), policy)
 	if err != nil {
 		return fmt.Errorf("relation selector invalid: policy %v: %w", policy.Id, err)
 	}
 
-	err = s.validSubjectSelector(selector.SubjectSelector, policy)
+	err = s.validSubjectSelector(selector.GetSubjectSelector(), policy)
 	if err != nil {
 		return fmt.Errorf("subject selector invalid: policy %v: %w", policy.Id, err)
 	}
@@ -357,11 +394,11 @@ func (s *ValidSelectorSpec) Satisfies(selector *domain.RelationshipSelector, pol
 }
 
 func (s *ValidSelectorSpec) validObjectSelector(selector *domain.ObjectSelector, policy *domain.Policy) error {
-	switch s := selector.Selector.(type) {
+	switch s := selector.GetSelector().(type) {
 	case *domain.ObjectSelector_ObjectSpec:
-		resource := policy.GetResourceByName(s.ObjectSpec.Resource)
+		resource := policy.GetResourceByName(s.ObjectSpec.GetResource())
 		if resource == nil {
-			return fmt.Errorf("resource %v: %w", s.ObjectSpec.Resource, ErrResourceNotFound)
+			return fmt.Errorf("resource %v: %w", s.ObjectSpec.GetResource(), ErrResourceNotFound)
 		}
 	case *domain.ObjectSelector_ResourceSpec:
 		resource := policy.GetResourceByName(s.ResourceSpec)
@@ -377,26 +414,35 @@ func (s *ValidSelectorSpec) validObjectSelector(selector *domain.ObjectSelector,
 }
 
 func (s *ValidSelectorSpec) validRelationSelector(objSelector *domain.ObjectSelector, relSelector *domain.RelationSelector, policy *domain.Policy) error {
-	if relSelector.GetWildcard() != nil {
+	switch relSelector.GetSelector().(type) {
+	case *domain.RelationSelector_Wildcard:
 		return nil
+	case *domain.RelationSelector_RelationName:
+		break
+	default:
+		return fmt.Errorf("%v: %w", relSelector, domain.ErrInvalidVariant)
 	}
 
 	relName := relSelector.GetRelationName()
 
+	_, anyObject := objSelector.GetSelector().(*domain.ObjectSelector_Wildcard)
 	resourceName := s.getObjectSelectorResourceName(objSelector)
-	resource := policy.GetResourceByName(resourceName)
-	relation := resource.GetRelationByName(relName)
-	if relation == nil {
-		return fmt.Errorf("relation %v: %w", relName, ErrRelationNotFound)
+	for _, resource := range policy.Resources {
+		if !anyObject && resource.Name != resourceName {
+			continue
+		}
+		if resource.GetRelationByName(relName) != nil {
+			return nil
+		}
 	}
 
-	return nil
+	return fmt.Errorf("relation %v: %w", relName, ErrRelationNotFound)
 }
 
 func (s *ValidSelectorSpec) getObjectSelectorResourceName(objSelector *domain.ObjectSelector) string {
-	switch s := objSelector.Selector.(type) {
+	switch s := objSelector.GetSelector().(type) {
 	case *domain.ObjectSelector_ObjectSpec:
-		return s.ObjectSpec.Resource
+		return s.ObjectSpec.GetResource()
 	case *domain.ObjectSelector_ResourceSpec:
 		return s.ResourceSpec
 	}
@@ -404,7 +450,7 @@ func (s *ValidSelectorSpec) getObjectSelectorResourceName(objSelector *domain.Ob
 }
 
 func (s *ValidSelectorSpec) validSubjectSelector(selector *domain.SubjectSelector, policy *domain.Policy) error {
-	switch s := selector.Selector.(type) {
+	switch s := selector.GetSelector().(type) {
 	case *domain.SubjectSelector_ResourceSpec:
 		resource := policy.GetResourceByName(s.ResourceSpec)
 		if resource == nil {
diff --git a/pkg/domain/relationship.go b/pkg/domain/relationship.go
index 4a5bd38..56a1ff3 100644
--- a/pkg/domain/relationship.go
+++ b/pkg/domain/relationship.go
@@ -80,13 +80,13 @@ func (b *RelationshipBuilder) Wildcard(objResource, objId, relation, subjResourc
 
 // GetResourceName returns the Subject's Resource Name
 func (s *Subject) GetResourceName() string {
-	switch subj := s.Subject.(type) {
+	switch subj := s.GetSubject().(type) {
 	case *Subject_Entity:
-		return subj.Entity.Resource
+		return subj.Entity.GetResource()
 	case *Subject_EntitySet:
-		return subj.EntitySet.Entity.Resource
+		return subj.EntitySet.GetEntity().GetResource()
 	case *Subject_ResourceSet:
-		return subj.ResourceSet.ResourceName
+		return subj.ResourceSet.GetResourceName()
 	}
 	return ""
 }
-- 
2.43.0


From 9844f484f01c77b978051b891464e95a2e07d1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:59 +0000
Subject: [PATCH 14/18] fix: reject incomplete access requests and expand roots

---
 internal/relation_graph/errors.go  |  1 +
 internal/relation_graph/service.go | 51 ++++++++++++++++++++++++++++++
 2 files changed, 52 insertions(+)

diff --git a/internal/relation_graph/errors.go b/internal/relation_graph/errors.go
index 85f9d62..365b2ef 100644
--- a/internal/relation_graph/errors.go
+++ b/internal/relation_graph/errors.go
@@ -4,3 +4,4 @@ import "errors"
 
 var ErrWildcardGoal = errors.New("goal target cannot be wildcard: invalid goal")
 var ErrWildcardTupleset = errors.New("wildcard nodes cannot be used in a tuple to userset rule")
+var ErrMissingField = errors.New("missing field")
diff --git a/internal/relation_graph/service.go b/internal/relation_graph/service.go
index 3b17c4d..2864d99 100644
--- a/internal/relation_graph/service.go
+++ b/internal/relation_graph/service.go
@@ -30,6 +30,10 @@ type Service struct {
 func (s *Service) Check(
 	ctx context.Context,
 	req *api.CheckRequest) (*api.CheckResponse, error) {
+	if err := validateAccessRequest(req.AccessRequest); err != nil {
+		return nil, fmt.Errorf("check: %w: %w", api.ErrInvalidRequest, err)
+	}
+
 	pol, err := s.policyRepository.GetPolicy(ctx, req.PolicyId)
 	if err != nil {
 		return nil, fmt.Errorf("check: %w: %w", api.ErrInternal, err)
@@ -84,6 +88,9 @@ func (s *Service) ExplainCheck(
 	if err != nil {
 		return nil, fmt.Errorf("check: %w: %w", api.ErrInvalidRequest, err)
 	}
+	if err := validateAccessRequest(req.AccessRequest); err != nil {
+		return nil, fmt.Errorf("check: %w: %w", api.ErrInvalidRequest, err)
+	}
 
 	pol, err := s.policyRepository.GetPolicy(ctx, req.PolicyId)
 	if err != nil {
@@ -144,6 +151,9 @@ func (s *Service) Expand(
 	if err != nil {
 		return nil, fmt.Errorf("expand: %w: %w", api.ErrInvalidRequest, err)
 	}
+	if err := validateRelationNode(req.Root); err != nil {
+		return nil, fmt.Errorf("expand: %w: %w", api.ErrInvalidRequest, err)
+	}
 
 	pol, err := s.policyRepository.GetPolicy(ctx, req.PolicyId)
 	if err != nil {
@@ -210,3 +220,44 @@ func (s *Service) DumpRelationships(
 
 	return response, nil
 }
+
+// validateAccessRequest verifies that no part of the request is missing
+func validateAccessRequest(request *domain.AccessRequest) error {
+	if err := validateEntity(request.GetObject()); err != nil {
+		return fmt.Errorf("object: %w", err)
+	}
+	if request.GetRelation() == "" {
+		return fmt.Errorf("relation: %w", ErrMissingField)
+	}
+	if err := validateEntity(request.GetSubject()); err != nil {
+		return fmt.Errorf("subject: %w", err)
+	}
+	return nil
+}
+
+// validateRelationNode verifies that no part of the node is missing
+func validateRelationNode(relationNode *domain.RelationNode) error {
+	switch node := relationNode.GetNode().(type) {
+	case *domain.RelationNode_EntitySet:
+		if node.EntitySet.GetRelation() == "" {
+			return fmt.Errorf("relation: %w", ErrMissingField)
+		}
+		return validateEntity(node.EntitySet.GetObject())
+	case *domain.RelationNode_Entity:
+		return validateEntity(node.Entity.GetObject())
+	case *domain.RelationNode_Wildcard:
+		if node.Wildcard.GetResource() == "" {
+			return fmt.Errorf("resource: %w", ErrMissingField)
+		}
+		return nil
+	default:
+		return fmt.Errorf("node %v: %w", node, domain.ErrInvalidVariant)
+	}
+}
+
+func validateEntity(entity *domain.Entity) error {
+	if entity.GetResource() == "" || entity.GetId() == "" {
+		return fmt.Errorf("entity %v: %w", entity, ErrMissingField)
+	}
+	return nil
+}
-- 
2.43.0


From a454354331ba6353b543c6e5bfb215e2d7ed2d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:12 +0000
Subject: [PATCH 15/18] fix: serialize requests which modify the store

---
 locked_services.go | 111 +++++++++++++++++++++++++++++++++++++++++++++
 zanzi.go           |  20 +++++---
 2 files changed, 125 insertions(+), 6 deletions(-)
 create mode 100644 locked_services.go

diff --git a/locked_services.go b/locked_services.go
new file mode 100644
index 0000000..1a51aa9
--- /dev/null
+++ b/locked_services.go
@@ -0,0 +1,111 @@
+package zanzi
+
+import (
+	"context"
+	"sync"
+
+	"github.com/sourcenetwork/zanzi/pkg/api"
+)
+
+var _ api.PolicyServiceServer = (*lockedPolicyService)(nil)
+var _ api.RelationGraphServer = (*lockedRelationGraphService)(nil)
+
+// lockedPolicyService serializes the requests which modify the store with all other requests.
+//
+// Requests are made of several operations in the store, which has no transactions.
+type lockedPolicyService struct {
+	api.UnimplementedPolicyServiceServer
+	service api.PolicyServiceServer
+	lock    *sync.RWMutex
+}
+
+func (s *lockedPolicyService) CreatePolicy(ctx context.Context, req *api.CreatePolicyRequest) (*api.CreatePolicyResponse, error) {
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	return s.service.CreatePolicy(ctx, req)
+}
+
+func (s *lockedPolicyService) UpdatePolicy(ctx context.Context, req *api.UpdatePolicyRequest) (*api.UpdatePolicyResponse, error) {
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	return s.service.UpdatePolicy(ctx, req)
+}
+
+func (s *lockedPolicyService) DeletePolicy(ctx context.Context, req *api.DeletePolicyRequest) (*api.DeletePolicyResponse, error) {
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	return s.service.DeletePolicy(ctx, req)
+}
+
+func (s *lockedPolicyService) GetPolicy(ctx context.Context, req *api.GetPolicyRequest) (*api.GetPolicyResponse, error) {
+	s.lock.RLock()
+	defer s.lock.RUnlock()
+	return s.service.GetPolicy(ctx, req)
+}
+
+func (s *lockedPolicyService) ListPolicyIds(ctx context.Context, req *api.ListPolicyIdsRequest) (*api.ListPolicyIdsResponse, error) {
+	s.lock.RLock()
+	defer s.lock.RUnlock()
+	return s.service.ListPolicyIds(ctx, req)
+}
+
+func (s *lockedPolicyService) SetRelationship(ctx context.Context, req *api.SetRelationshipRequest) (*api.SetRelationshipResponse, error) {
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	return s.service.SetRelationship(ctx, req)
+}
+
+func (s *lockedPolicyService) DeleteRelationship(ctx context.Context, req *api.DeleteRelationshipRequest) (*api.DeleteRelationshipResponse, error) {
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	return s.service.DeleteRelationship(ctx, req)
+}
+
+func (s *lockedPolicyService) GetRelationship(ctx context.Context, req *api.GetRelationshipRequest) (*api.GetRelationshipResponse, error) {
+	s.lock.RLock()
+	defer s.lock.RUnlock()
+	return s.service.GetRelationship(ctx, req)
+}
+
+func (s *lockedPolicyService) FindRelationshipRecords(ctx context.Context, req *api.FindRelationshipRecordsRequest) (*api.FindRelationshipRecordsResponse, error) {
+	s.lock.RLock()
+	defer s.lock.RUnlock()
+	return s.service.FindRelationshipRecords(ctx, req)
+}
+
+func (s *lockedPolicyService) DeleteRelationships(ctx context.Context, req *api.DeleteRelationshipsRequest) (*api.DeleteRelationshipsResponse, error) {
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	return s.service.DeleteRelationships(ctx, req)
+}
+
+// lockedRelationGraphService evaluates requests while no other request modifies the store.
+type lockedRelationGraphService struct {
+	api.UnimplementedRelationGraphServer
+	service api.RelationGraphServer
+	lock    *sync.RWMutex
+}
+
+func (s *lockedRelationGraphService) Check(ctx context.Context, req *api.CheckRequest) (*api.CheckResponse, error) {
+	s.lock.RLock()
+	defer s.lock.RUnlock()
+	return s.service.Check(ctx, req)
+}
+
+func (s *lockedRelationGraphService) ExplainCheck(ctx context.Context, req *api.ExplainCheckRequest) (*api.ExplainCheckResponse, error) {
+	s.lock.RLock()
+	defer s.lock.RUnlock()
+	return s.service.ExplainCheck(ctx, req)
+}
+
+func (s *lockedRelationGraphService) Expand(ctx context.Context, req *api.ExpandRequest) (*api.ExpandResponse, error) {
+	s.lock.RLock()
+	defer s.lock.RUnlock()
+	return s.service.Expand(ctx, req)
+}
+
+func (s *lockedRelationGraphService) DumpRelationships(ctx context.Context, req *api.DumpRelationshipsRequest) (*api.DumpRelationshipResponse, error) {
+	s.lock.RLock()
+	defer s.lock.RUnlock()
+	return s.service.DumpRelationships(ctx, req)
+}
diff --git a/zanzi.go b/zanzi.go
index 6c0d773..7147354 100644
--- a/zanzi.go
+++ b/zanzi.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"os/user"
 	"strings"
+	"sync"
 
 	rcdb "github.com/sourcenetwork/raccoondb"
 	"go.uber.org/zap"
@@ -153,12 +154,19 @@ type Zanzi struct {
 }
 
 func (z *Zanzi) init() {
-	z.polService = policy.NewService(z.store.GetPolicyRepository())
-	z.relGraphService = relation_graph.NewService(
-		z.store.GetRelationNodeRepository(),
-		z.store.GetPolicyRepository(),
-		z.logger,
-	)
+	lock := &sync.RWMutex{}
+	z.polService = &lockedPolicyService{
+		service: policy.NewService(z.store.GetPolicyRepository()),
+		lock:    lock,
+	}
+	z.relGraphService = &lockedRelationGraphService{
+		service: relation_graph.NewService(
+			z.store.GetRelationNodeRepository(),
+			z.store.GetPolicyRepository(),
+			z.logger,
+		),
+		lock: lock,
+	}
 }
 
 // GetRelationshipGraphService returns an implementation of the
-- 
2.43.0


From e215bc6fd5aa862873d724d1591a3f0bb9e52311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:48 +0000
Subject: [PATCH 16/18] add clock hook for verification builds (tag verif)

---
 pkg/domain/clock_default.go | 12 ++++++++++++
 pkg/domain/clock_verif.go   | 25 +++++++++++++++++++++++++
 pkg/domain/policy.go        |  6 +-----
 pkg/domain/relationship.go  |  6 +-----
 4 files changed, 39 insertions(+), 10 deletions(-)
 create mode 100644 pkg/domain/clock_default.go
 create mode 100644 pkg/domain/clock_verif.go

diff --git a/pkg/domain/clock_default.go b/pkg/domain/clock_default.go
new file mode 100644
index 0000000..5c40b2c
--- /dev/null
+++ b/pkg/domain/clock_default.go
@@ -0,0 +1,12 @@
+//go:build !verif
+
+package domain
+
+import (
+	"google.golang.org/protobuf/types/known/timestamppb"
+)
+
+// now returns the current time
+func now() *timestamppb.Timestamp {
+	return timestamppb.Now()
+}
diff --git a/pkg/domain/clock_verif.go b/pkg/domain/clock_verif.go
new file mode 100644
index 0000000..d8f7d35
--- /dev/null
+++ b/pkg/domain/clock_verif.go
@@ -0,0 +1,25 @@
+//go:build verif
+
+package domain
+
+import (
+	"sync/atomic"
+	"time"
+
+	"google.golang.org/protobuf/types/known/timestamppb"
+)
+
+var clock atomic.Pointer[func() time.Time]
+
+// SetClock replaces the clock used for the creation time of records
+func SetClock(c func() time.Time) {
+	clock.Store(&c)
+}
+
+// now returns the current time
+func now() *timestamppb.Timestamp {
+	if c := clock.Load(); c != nil {
+		return timestamppb.New((*c)())
+	}
+	return timestamppb.Now()
+}
diff --git a/pkg/domain/policy.go b/pkg/domain/policy.go
index 9442d5d..3d0664c 100644
--- a/pkg/domain/policy.go
+++ b/pkg/domain/policy.go
@@ -1,14 +1,10 @@
 package domain
 
-import (
-	"google.golang.org/protobuf/types/known/timestamppb"
-)
-
 func NewPolicyRecord(policy *Policy, data []byte) *PolicyRecord {
 	return &PolicyRecord{
 		Policy:    policy,
 		AppData:   data,
-		CreatedAt: timestamppb.Now(),
+		CreatedAt: now(),
 	}
 }
 
diff --git a/pkg/domain/relationship.go b/pkg/domain/relationship.go
index 56a1ff3..fbb466a 100644
--- a/pkg/domain/relationship.go
+++ b/pkg/domain/relationship.go
@@ -1,9 +1,5 @@
 package domain
 
-import (
-	"google.golang.org/protobuf/types/known/timestamppb"
-)
-
 func NewEntity(resource, id string) *Entity {
 	return &Entity{
 		Resource: resource,
@@ -16,7 +12,7 @@ func NewRelationshipRecord(policyId string, relationship *Relationship, data []b
 		PolicyId:     policyId,
 		Relationship: relationship,
 		AppData:      data,
-		CreatedAt:    timestamppb.Now(),
+		CreatedAt:    now(),
 	}
 }
 
-- 
2.43.0


From b296a07247e1e60271f3460a26cffcdab2c26e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:10 +0000
Subject: [PATCH 17/18] fix: compare selectors by content without changing
 selector_spec.go

Replaces the changes of 48975e4 and 1408606 to internal/policy/selector_spec.go:
selectors are copied into plain messages before they are turned into predicates.
---
 internal/policy/selector_spec.go             | 13 ++---
 internal/store/kv_store/mapper.go            | 59 ++++++++++++++++++++
 internal/store/kv_store/policy_repository.go |  2 +-
 3 files changed, 66 insertions(+), 8 deletions(-)

diff --git a/internal/policy/selector_spec.go b/internal/policy/selector_spec.go
index 3bad792..a9b4378 100644
--- a/internal/policy/selector_spec.go
+++ b/internal/policy/selector_spec.go
@@ -2,8 +2,7 @@ package policy
 
 import (
 	"fmt"
-
-	"google.golang.org/protobuf/proto"
+	"reflect"
 
 	"github.com/sourcenetwork/zanzi/pkg/domain"
 )
@@ -20,7 +19,7 @@ type RelationshipSelectorSpec struct {
 func NewSelectorSpec(selector *domain.RelationshipSelector) (RelationshipSelectorSpec, error) {
 	spec := RelationshipSelectorSpec{}
 
-	switch objectSelector := selector.GetObjectSelector().GetSelector().(type) {
+	switch objectSelector := selector.ObjectSelector.Selector.(type) {
 	case *domain.ObjectSelector_ObjectSpec:
 		spec.objectPredicate = spec.objectSpec(objectSelector.ObjectSpec)
 	case *domain.ObjectSelector_Wildcard:
@@ -31,7 +30,7 @@ func NewSelectorSpec(selector *domain.RelationshipSelector) (RelationshipSelecto
 		return spec, fmt.Errorf("ObjectSelector %v: %w", objectSelector, domain.ErrInvalidVariant)
 	}
 
-	switch relationSelector := selector.GetRelationSelector().GetSelector().(type) {
+	switch relationSelector := selector.RelationSelector.Selector.(type) {
 	case *domain.RelationSelector_RelationName:
 		spec.relationPredicate = spec.relationNameSpec(relationSelector.RelationName)
 	case *domain.RelationSelector_Wildcard:
@@ -40,7 +39,7 @@ func NewSelectorSpec(selector *domain.RelationshipSelector) (RelationshipSelecto
 		return spec, fmt.Errorf("RelationSelector %v: %w", relationSelector, domain.ErrInvalidVariant)
 	}
 
-	switch subjectSelector := selector.GetSubjectSelector().GetSelector().(type) {
+	switch subjectSelector := selector.SubjectSelector.Selector.(type) {
 	case *domain.SubjectSelector_SubjectSpec:
 		spec.subjectPredicate = spec.subjectSpec(subjectSelector.SubjectSpec)
 	case *domain.SubjectSelector_Wildcard:
@@ -60,7 +59,7 @@ func (s *RelationshipSelectorSpec) Satisfies(relationship *domain.Relationship)
 
 func (s *RelationshipSelectorSpec) objectSpec(entity *domain.Entity) predicate {
 	return func(r *domain.Relationship) bool {
-		return proto.Equal(entity, r.Object)
+		return reflect.DeepEqual(entity, r.Object)
 	}
 }
 
@@ -90,7 +89,7 @@ func (s *RelationshipSelectorSpec) relationWildcardSpec() predicate {
 
 func (s *RelationshipSelectorSpec) subjectSpec(subject *domain.Subject) predicate {
 	return func(r *domain.Relationship) bool {
-		return proto.Equal(r.Subject, subject)
+		return reflect.DeepEqual(r.Subject, subject)
 	}
 }
 
diff --git a/internal/store/kv_store/mapper.go b/internal/store/kv_store/mapper.go
index 3a6897f..3d3f991 100644
--- a/internal/store/kv_store/mapper.go
+++ b/internal/store/kv_store/mapper.go
@@ -154,3 +154,62 @@ func (m *relationshipMapper) FromInternalRecord(policyId string, relationship *R
 		AppData:      data.AppData,
 	}
 }
+
+// ToPlainSelector returns a copy of selector made of newly built messages.
+// Messages carry hidden state once they were printed or marshaled, a selector
+// must match relationships by content only.
+// Parts which are missing in selector are empty in the copy.
+func (m *relationshipMapper) ToPlainSelector(selector *domain.RelationshipSelector) *domain.RelationshipSelector {
+	plain := &domain.RelationshipSelector{
+		ObjectSelector: &domain.ObjectSelector{
+			Selector: selector.GetObjectSelector().GetSelector(),
+		},
+		RelationSelector: &domain.RelationSelector{
+			Selector: selector.GetRelationSelector().GetSelector(),
+		},
+		SubjectSelector: &domain.SubjectSelector{
+			Selector: selector.GetSubjectSelector().GetSelector(),
+		},
+	}
+
+	if spec, ok := plain.ObjectSelector.Selector.(*domain.ObjectSelector_ObjectSpec); ok {
+		plain.ObjectSelector.Selector = &domain.ObjectSelector_ObjectSpec{
+			ObjectSpec: m.plainEntity(spec.ObjectSpec),
+		}
+	}
+
+	if spec, ok := plain.SubjectSelector.Selector.(*domain.SubjectSelector_SubjectSpec); ok {
+		subject := &domain.Subject{}
+		switch s := spec.SubjectSpec.GetSubject().(type) {
+		case *domain.Subject_Entity:
+			subject.Subject = &domain.Subject_Entity{
+				Entity: m.plainEntity(s.Entity),
+			}
+		case *domain.Subject_EntitySet:
+			subject.Subject = &domain.Subject_EntitySet{
+				EntitySet: &domain.EntitySet{
+					Entity:   m.plainEntity(s.EntitySet.GetEntity()),
+					Relation: s.EntitySet.GetRelation(),
+				},
+			}
+		case *domain.Subject_ResourceSet:
+			subject.Subject = &domain.Subject_ResourceSet{
+				ResourceSet: &domain.ResourceSet{
+					ResourceName: s.ResourceSet.GetResourceName(),
+				},
+			}
+		}
+		plain.SubjectSelector.Selector = &domain.SubjectSelector_SubjectSpec{
+			SubjectSpec: subject,
+		}
+	}
+
+	return plain
+}
+
+func (m *relationshipMapper) plainEntity(entity *domain.Entity) *domain.Entity {
+	return &domain.Entity{
+		Resource: entity.GetResource(),
+		Id:       entity.GetId(),
+	}
+}
diff --git a/internal/store/kv_store/policy_repository.go b/internal/store/kv_store/policy_repository.go
index 1b5878d..c4c99b4 100644
--- a/internal/store/kv_store/policy_repository.go
+++ b/internal/store/kv_store/policy_repository.go
@@ -205,7 +205,7 @@ func (r *policyRepository) listRelationships(policyId string, selector *domain.R
 		return nil, err
 	}
 
-	spec, err := policy.NewSelectorSpec(selector)
+	spec, err := policy.NewSelectorSpec(r.mapper.ToPlainSelector(selector))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 2547da3da22d9c9b18c7aa32c8472cabe0598294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:41 +0000
Subject: [PATCH 18/18] fix: read identifiers which start with _this as one
 token

---
 internal/relation_expression_parser/lexer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/relation_expression_parser/lexer.go b/internal/relation_expression_parser/lexer.go
index 011258e..b360b12 100644
--- a/internal/relation_expression_parser/lexer.go
+++ b/internal/relation_expression_parser/lexer.go
@@ -161,7 +161,12 @@ func (l *Lexer) lexIdentifier() bool {
 	count := l.stepWhile(isIdentifierRune)
 	ok := count > 0
 	if ok {
-		l.emit(tokenIdentifier)
+		// an identifier may start with the This lexeme
+		if l.input[l.startPos:l.currPos] == domain.ThisLexeme {
+			l.emit(tokenThis)
+		} else {
+			l.emit(tokenIdentifier)
+		}
 	}
 
 	return ok
@@ -177,7 +182,6 @@ func (l *Lexer) scan() {
 		} else if l.lexTerminal(tokenUnion, domain.UnionLexeme) {
 		} else if l.lexTerminal(tokenDifference, domain.DifferenceLexeme) {
 		} else if l.lexTerminal(tokenIntersection, domain.IntersectionLexeme) {
-		} else if l.lexTerminal(tokenThis, domain.ThisLexeme) {
 		} else if l.lexIdentifier() {
 		} else if char, _ := l.peek(); unicode.IsSpace(char) {
 			l.skipSpaces()
-- 
2.43.0

