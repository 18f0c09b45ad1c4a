From 18cd9ff9c66a970c6b9115e9ba9a9cc2f65622af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 01/27] fix: removing the last node left the node list tail
 pointing at it

---
 list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list.go b/list.go
index 0f0eb2b..97d30c8 100644
--- a/list.go
+++ b/list.go
@@ -117,7 +117,7 @@ func (list *nodeList) remove(node *Node) {
 	if node.next != nil {
 		node.next.prev = node.prev
 	} else {
-		list.tail = node
+		list.tail = node.prev
 	}
 	list.n--
 }
-- 
2.43.0


From 054d3b019dec2b4633ddebc82af595463c2463a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 02/27] fix: relabelling an edge left it under its old label in
 the edge list of the graph

---
 graph.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graph.go b/graph.go
index 4ac65e3..2e1e449 100644
--- a/graph.go
+++ b/graph.go
@@ -523,7 +523,9 @@ func (g *Graph) disconnect(edge *Edge) {
 
 func (g *Graph) setEdgeLabel(edge *Edge, label string) {
 	g.disconnect(edge)
+	g.allEdges.remove(edge, 0)
 	edge.label = label
+	g.allEdges.add(edge, 0)
 	g.connect(edge)
 }
 
-- 
2.43.0


From af4e440cfb4c543dbfa8f3365c5c17d4ddb78036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 03/27] fix: a removed edge stayed in the edge property indexes

---
 graph.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graph.go b/graph.go
index 2e1e449..2341778 100644
--- a/graph.go
+++ b/graph.go
@@ -532,6 +532,7 @@ func (g *Graph) setEdgeLabel(edge *Edge, label string) {
 func (g *Graph) removeEdge(edge *Edge) {
 	g.disconnect(edge)
 	g.allEdges.remove(edge, 0)
+	g.index.removeEdgeFromIndex(edge, g)
 }
 
 func (g *Graph) setEdgeProperty(edge *Edge, key string, value interface{}) {
-- 
2.43.0


From 218566a94d9d054c0f92343135f9cbc52a1f14ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 04/27] fix: FindNodes and FindEdges panicked without labels
 and ignored the query when no index applied

---
 graph.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/graph.go b/graph.go
index 2341778..1463338 100644
--- a/graph.go
+++ b/graph.go
@@ -223,12 +223,13 @@ func (g *Graph) FindNodes(allLabels StringSet, properties map[string]interface{}
 		return g.GetNodes()
 	}
 
-	var nodesByLabelItr NodeIterator
+	nodesByLabelItr := g.GetNodes()
+	nodesByLabelSize := -1
 	if allLabels.Len() > 0 {
 		nodesByLabelItr = g.index.nodesByLabel.IteratorAllLabels(allLabels)
+		nodesByLabelSize = nodesByLabelItr.MaxSize()
 	}
 	// Select the iterator with minimum max size
-	nodesByLabelSize := nodesByLabelItr.MaxSize()
 	propertyIterators := make(map[string]NodeIterator)
 	if len(properties) > 0 {
 		for k, v := range properties {
@@ -278,7 +279,14 @@ func (g *Graph) FindNodes(allLabels StringSet, properties map[string]interface{}
 		}
 	}
 	// Iterate all
-	return g.GetNodes()
+	return nodeIterator{
+		&filterIterator{
+			itr: nodesByLabelItr,
+			filter: func(item interface{}) bool {
+				return nodeFilterFunc(item.(*Node))
+			},
+		},
+	}
 }
 
 // FindEdges returns an iterator that will iterate through all the
@@ -292,12 +300,13 @@ func (g *Graph) FindEdges(labels StringSet, properties map[string]interface{}) E
 		return g.GetEdges()
 	}
 
-	var edgesByLabelItr EdgeIterator
+	edgesByLabelItr := g.GetEdges()
+	edgesByLabelSize := -1
 	if labels.Len() > 0 {
 		edgesByLabelItr = g.GetEdgesWithAnyLabel(labels)
+		edgesByLabelSize = edgesByLabelItr.MaxSize()
 	}
 	// Select the iterator with minimum max size
-	edgesByLabelSize := edgesByLabelItr.MaxSize()
 	propertyIterators := make(map[string]EdgeIterator)
 	if len(properties) > 0 {
 		for k, v := range properties {
@@ -347,7 +356,14 @@ func (g *Graph) FindEdges(labels StringSet, properties map[string]interface{}) E
 		}
 	}
 	// Iterate all
-	return g.GetEdges()
+	return &edgeIterator{
+		&filterIterator{
+			itr: edgesByLabelItr,
+			filter: func(item interface{}) bool {
+				return edgeFilterFunc(item.(*Edge))
+			},
+		},
+	}
 }
 
 // GetNodeFilterFunc returns a filter function that can be used to select
-- 
2.43.0


From 04069f73233372cdc89c1565bf1e5783225dc818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:56 +0000
Subject: [PATCH 05/27] fix: looking up a value that an index cannot compare or
 hash panicked instead of matching nothing

---
 indexes.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/indexes.go b/indexes.go
index ebfa242..1b931d7 100644
--- a/indexes.go
+++ b/indexes.go
@@ -21,6 +21,18 @@ type index interface {
 	valueItr() Iterator
 }
 
+// findInIndex returns an iterator over the items with the given value. A
+// value that cannot be looked up in the index (incomparable with the
+// indexed values, or not hashable) has no matches.
+func findInIndex(ix index, value interface{}) (itr Iterator) {
+	defer func() {
+		if r := recover(); r != nil {
+			itr = emptyIterator{}
+		}
+	}()
+	return ix.find(value)
+}
+
 type IndexType int
 
 const (
@@ -82,7 +94,7 @@ func (g *graphIndex) GetIteratorForNodeProperty(key string, value interface{}) N
 	if !found {
 		return nil
 	}
-	itr := index.find(value)
+	itr := findInIndex(index, value)
 	return nodeIterator{itr}
 }
 
@@ -181,6 +193,6 @@ func (g *graphIndex) GetIteratorForEdgeProperty(key string, value interface{}) E
 	if !found {
 		return nil
 	}
-	itr := index.find(value)
+	itr := findInIndex(index, value)
 	return edgeIterator{itr}
 }
-- 
2.43.0


From 122f5447bafe035b02153bf786e0966901600164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 06/27] fix: looking up nodes with an empty label set panicked

---
 maps.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/maps.go b/maps.go
index 2a6088f..031919e 100644
--- a/maps.go
+++ b/maps.go
@@ -182,6 +182,9 @@ func (nm NodeMap) Iterator() NodeIterator {
 }
 
 func (nm NodeMap) IteratorAllLabels(labels StringSet) NodeIterator {
+	if labels.Len() == 0 {
+		return nm.Iterator()
+	}
 	// Find the smallest map element, iterate that
 	var minSet *fastSet
 	for label := range labels.M {
-- 
2.43.0


From 6f580f7c32eb97ec4f7b918c857a698fc3e870f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 07/27] fix: clearing the labels of a node left it under its
 old labels in the node map

---
 maps.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/maps.go b/maps.go
index 031919e..9de3aa8 100644
--- a/maps.go
+++ b/maps.go
@@ -42,7 +42,6 @@ func (nm *NodeMap) Replace(node *Node, oldLabels, newLabels StringSet) {
 	}
 	if newLabels.Len() == 0 {
 		nm.nolabels.add(node.id, node)
-		return
 	}
 	var set *fastSet
 	// Process removed labels
-- 
2.43.0


From 673cae59489ed1b731c5632662a713a1127e1014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:30 +0000
Subject: [PATCH 08/27] fix: NodeMap.IsEmpty reported a map holding only
 unlabeled nodes as empty

---
 maps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maps.go b/maps.go
index 9de3aa8..0db36db 100644
--- a/maps.go
+++ b/maps.go
@@ -112,7 +112,7 @@ func (nm NodeMap) Remove(node *Node) {
 }
 
 func (nm NodeMap) IsEmpty() bool {
-	if nm.m.Size() == 0 {
+	if nm.m.Size() == 0 && nm.nolabels.size() == 0 {
 		return true
 	}
 	return false
-- 
2.43.0


From a1b9ce1d7d148c36afc1d58770a845ff94a3e298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:33 +0000
Subject: [PATCH 09/27] fix: MaxSize of any-direction edge iterators added up
 unknown sizes

---
 node.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 666e0ec..62ffd57 100644
--- a/node.go
+++ b/node.go
@@ -95,7 +95,11 @@ func (node *Node) GetEdgesWithAnyLabel(dir EdgeDir, labels StringSet) EdgeIterat
 	}
 	i1 := node.GetEdgesWithAnyLabel(IncomingEdge, labels)
 	i2 := node.GetEdgesWithAnyLabel(OutgoingEdge, labels)
-	return edgeIterator{withSize(MultiIterator(i1, i2), i1.MaxSize()+i2.MaxSize())}
+	size := -1
+	if s1, s2 := i1.MaxSize(), i2.MaxSize(); s1 != -1 && s2 != -1 {
+		size = s1 + s2
+	}
+	return edgeIterator{withSize(MultiIterator(i1, i2), size)}
 }
 
 // SetLabels sets the node labels
-- 
2.43.0


From 37064623033566f3d0f1704d52168313911122ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 10/27] fix: encoding an empty graph with separate edges wrote
 invalid JSON

---
 json.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/json.go b/json.go
index 2b7b248..8b351d7 100644
--- a/json.go
+++ b/json.go
@@ -350,8 +350,10 @@ func (j JSON) Encode(g *Graph, out io.Writer) error {
 	}
 
 	if j.MarshalEdgesSeparately {
-		if _, err := out.Write(comma); err != nil {
-			return err
+		if len(nodeMap) > 0 {
+			if _, err := out.Write(comma); err != nil {
+				return err
+			}
 		}
 		if _, err := out.Write(edgesKey); err != nil {
 			return err
-- 
2.43.0


From b82ab9be3bb1bc0f1d08d646439971c8b37910de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 11/27] fix: decoding a graph stopped at unknown keys holding
 an array or object

---
 json.go | 88 ++++++++++++++++++++++++++-------------------------------
 1 file changed, 40 insertions(+), 48 deletions(-)

diff --git a/json.go b/json.go
index 8b351d7..9b019b6 100644
--- a/json.go
+++ b/json.go
@@ -465,7 +465,6 @@ func (j JSON) Decode(g *Graph, input *json.Decoder) error {
 	if tok != json.Delim('{') {
 		return &json.SyntaxError{Offset: input.InputOffset()}
 	}
-	depth := 0
 	nodeMap := make(map[int]*Node)
 	edgeQueue := make([]jsonEdge, 0)
 	for {
@@ -473,62 +472,55 @@ func (j JSON) Decode(g *Graph, input *json.Decoder) error {
 		if err != nil {
 			return err
 		}
-		if depth == 0 {
-			if s, ok := tok.(string); ok {
-				if s == "nodes" {
-					var nodes []jsonNode
-					if err := input.Decode(&nodes); err != nil {
+		if s, ok := tok.(string); ok {
+			if s == "nodes" {
+				var nodes []jsonNode
+				if err := input.Decode(&nodes); err != nil {
+					return err
+				}
+				for _, node := range nodes {
+					if edgeQueue, err = j.addNode(g, node, nodeMap, edgeQueue); err != nil {
 						return err
 					}
-					for _, node := range nodes {
-						if edgeQueue, err = j.addNode(g, node, nodeMap, edgeQueue); err != nil {
+				}
+			} else if s == "edges" {
+				var edges []jsonEdge
+				if err := input.Decode(&edges); err != nil {
+					return err
+				}
+				for _, edge := range edges {
+					from, fromExists := nodeMap[edge.From]
+					to, toExists := nodeMap[edge.To]
+					if fromExists && toExists {
+						if err := j.addEdge(g, from, to, edge.Label, edge.Properties); err != nil {
 							return err
 						}
+					} else {
+						edgeQueue = append(edgeQueue, edge)
 					}
-				} else if s == "edges" {
-					var edges []jsonEdge
-					if err := input.Decode(&edges); err != nil {
-						return err
-					}
-					for _, edge := range edges {
-						from, fromExists := nodeMap[edge.From]
-						to, toExists := nodeMap[edge.To]
-						if fromExists && toExists {
-							if err := j.addEdge(g, from, to, edge.Label, edge.Properties); err != nil {
-								return err
-							}
-						} else {
-							edgeQueue = append(edgeQueue, edge)
-						}
-					}
-				} else {
-					depth = 1
 				}
-			} else if tok == json.Delim('}') {
-				for _, edge := range edgeQueue {
-					from, ok := nodeMap[edge.From]
-					if !ok {
-						return ErrInvalidGraph{Msg: fmt.Sprintf("Invalid edge.from: %d", edge.From)}
-					}
-					to, ok := nodeMap[edge.To]
-					if !ok {
-						return ErrInvalidGraph{Msg: fmt.Sprintf("Invalid edge.to: %d", edge.To)}
-					}
-					if err := j.addEdge(g, from, to, edge.Label, edge.Properties); err != nil {
-						return err
-					}
+			} else {
+				// Skip the value of an unknown key
+				var skip json.RawMessage
+				if err := input.Decode(&skip); err != nil {
+					return err
 				}
-				return nil
 			}
-		} else {
-			switch tok {
-			case json.Delim('{'), json.Delim('['):
-				depth++
-			case json.Delim('}'), json.Delim(']'):
-				depth--
-			default:
-				depth--
+		} else if tok == json.Delim('}') {
+			for _, edge := range edgeQueue {
+				from, ok := nodeMap[edge.From]
+				if !ok {
+					return ErrInvalidGraph{Msg: fmt.Sprintf("Invalid edge.from: %d", edge.From)}
+				}
+				to, ok := nodeMap[edge.To]
+				if !ok {
+					return ErrInvalidGraph{Msg: fmt.Sprintf("Invalid edge.to: %d", edge.To)}
+				}
+				if err := j.addEdge(g, from, to, edge.Label, edge.Properties); err != nil {
+					return err
+				}
 			}
+			return nil
 		}
 	}
 }
-- 
2.43.0


From d938f2e2319188bf92babc143954eff6e2b81db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:32 +0000
Subject: [PATCH 12/27] fix: edge labels with quotes or backslashes made
 malformed DOT

---
 dotrenderer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dotrenderer.go b/dotrenderer.go
index 2a0a9fb..5265116 100644
--- a/dotrenderer.go
+++ b/dotrenderer.go
@@ -17,8 +17,12 @@ package lpg
 import (
 	"fmt"
 	"io"
+	"strings"
 )
 
+// dotEscaper escapes text to be put in a quoted DOT string
+var dotEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`)
+
 // DOTRenderer renders a graph in Graphviz dot format
 type DOTRenderer struct {
 	// NodeRenderer renders a node. If the node is to be excluded, returns false.
@@ -57,7 +61,7 @@ func DefaultDOTNodeRender(ID string, node *Node, w io.Writer) error {
 func DefaultDOTEdgeRender(fromNode, toNode string, edge *Edge, w io.Writer) error {
 	lbl := edge.GetLabel()
 	if len(lbl) != 0 {
-		if _, err := fmt.Fprintf(w, "  %s -> %s [label=\"%s\"];\n", fromNode, toNode, lbl); err != nil {
+		if _, err := fmt.Fprintf(w, "  %s -> %s [label=\"%s\"];\n", fromNode, toNode, dotEscaper.Replace(lbl)); err != nil {
 			return err
 		}
 	} else {
-- 
2.43.0


From ffd66c7990924e70c472eb8ac8a92ca7e489e428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 13/27] fix: CheckIsomorphism accepted mappings that are not
 one-to-one on nodes

---
 alg.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/alg.go b/alg.go
index 5bc333c..203332b 100644
--- a/alg.go
+++ b/alg.go
@@ -109,12 +109,19 @@ func CheckIsomorphism(ctx context.Context, g1, g2 *Graph, nodeEquivalenceFunc fu
 
 	nodeEquivalences := make([]int, len(all1Nodes))
 
-	// build a node equivalence map based on the current state of nodeEquivalences. nodeEquivalences must be valid
+	// build a node equivalence map based on the current state of
+	// nodeEquivalences. nodeEquivalences must be valid. Returns nil if
+	// the map is not one-to-one
 	buildNodeEquivalence := func() map[*Node]*Node {
 		eq := make(map[*Node]*Node)
+		used := make(map[*Node]struct{})
 		for i := range nodeEquivalences {
 			node1 := all1Nodes[i]
 			node2 := equivalences[i][nodeEquivalences[i]]
+			if _, exists := used[node2]; exists {
+				return nil
+			}
+			used[node2] = struct{}{}
 			eq[node1] = node2
 		}
 		return eq
@@ -163,7 +170,7 @@ func CheckIsomorphism(ctx context.Context, g1, g2 *Graph, nodeEquivalenceFunc fu
 	// Iterate possible node equivalences, and check isomorphism
 	for {
 		nodeMapping := buildNodeEquivalence()
-		if isIsomorphism(nodeMapping) {
+		if nodeMapping != nil && isIsomorphism(nodeMapping) {
 			return true, nil
 		}
 		if !next() {
-- 
2.43.0


From 5f0da0c4710e883d107bf774b14aa2bc08631782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 14/27] fix: CheckIsomorphism matched several edges to the same
 edge

---
 alg.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/alg.go b/alg.go
index 203332b..cd072a1 100644
--- a/alg.go
+++ b/alg.go
@@ -149,12 +149,15 @@ func CheckIsomorphism(ctx context.Context, g1, g2 *Graph, nodeEquivalenceFunc fu
 				return false
 			}
 
+			// An edge can be equivalent to only one edge
+			matched := make([]bool, len(edges2))
 			for _, edge1 := range edges1 {
 				found := false
-				for _, edge2 := range edges2 {
+				for i, edge2 := range edges2 {
 					// edge1.Edge.GetTo()
-					if nodeMapping[edge1.GetTo()] == edge2.GetTo() &&
+					if !matched[i] && nodeMapping[edge1.GetTo()] == edge2.GetTo() &&
 						edgeEquivalenceFunc(edge1, edge2) {
+						matched[i] = true
 						found = true
 						break
 					}
-- 
2.43.0


From b74adaf43cadc86ec219bc8c94b8517fe61c324b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 15/27] fix: Path.AppendPath lost single nodes, changed its
 argument and skipped the connection check

---
 path.go | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/path.go b/path.go
index e613260..36dfb04 100644
--- a/path.go
+++ b/path.go
@@ -144,24 +144,11 @@ func (p *Path) Append(path ...PathElement) *Path {
 // AppendPath can append a single node or a path to the callers path.
 // If the caller does not contain a path, the passed path is copied into the receiver
 func (p *Path) AppendPath(path *Path) *Path {
-	switch p.NumNodes() {
-	case 0:
+	if p.NumNodes() == 0 {
+		p.only = path.only
 		p.path = make([]PathElement, len(path.path))
 		copy(p.path, path.path)
 		return p
-	case 1:
-		if p.only != nil {
-			p.only = nil
-		}
-	default:
-		switch path.NumNodes() {
-		case 0:
-			return p
-		case 1:
-			if path.only != nil {
-				path.only = nil
-			}
-		}
 	}
 	return p.Append(path.path...)
 }
-- 
2.43.0


From 02f6313706cf0208f457e780fba8e080aae3fc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 16/27] fix: Path.RemoveLast removed the edge from the graph
 and emptied one-edge paths

---
 path.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/path.go b/path.go
index 36dfb04..28aaf7a 100644
--- a/path.go
+++ b/path.go
@@ -285,8 +285,11 @@ func (p *Path) RemoveLast() *Path {
 		return p
 	}
 	if len(p.path) > 0 {
-		p.path[len(p.path)-1].Edge.Remove()
+		last := p.path[len(p.path)-1]
 		p.path = p.path[:len(p.path)-1]
+		if len(p.path) == 0 {
+			p.only = last.GetSourceNode()
+		}
 	}
 	return p
 }
-- 
2.43.0


From ea47808542593a36cc490bb57f998bd89fd6053b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 17/27] fix: Cursor.Nodes in any direction returned the node
 itself for incoming edges

---
 cursor.go |  4 ++--
 itr.go    | 18 ++++++++++--------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/cursor.go b/cursor.go
index e393582..7517574 100644
--- a/cursor.go
+++ b/cursor.go
@@ -81,7 +81,7 @@ func (c *Cursor) Nodes(dir EdgeDir) NodeIterator {
 	if c.node == nil {
 		return &nodeIterator{emptyIterator{}}
 	}
-	return newNodesFromEdges(c.node.GetEdges(dir), dir)
+	return newNodesFromEdges(c.node, c.node.GetEdges(dir), dir)
 }
 
 // NodesWith returns an iterator over the nodes that are reachable by
@@ -91,7 +91,7 @@ func (c *Cursor) NodesWith(dir EdgeDir, label string) NodeIterator {
 	if c.node == nil {
 		return &nodeIterator{emptyIterator{}}
 	}
-	return newNodesFromEdges(c.node.GetEdgesWithLabel(dir, label), dir)
+	return newNodesFromEdges(c.node, c.node.GetEdgesWithLabel(dir, label), dir)
 }
 
 // Forward returns an edge iterator for outgoing edges of the current
diff --git a/itr.go b/itr.go
index b2c31a7..8063274 100644
--- a/itr.go
+++ b/itr.go
@@ -252,16 +252,18 @@ func (l *listIterator) MaxSize() int { return l.size }
 
 // nodesFromEdgesIterator iterates the nodes of an edge iterator
 type nodesFromEdgesIterator struct {
-	dir  EdgeDir
-	itr  EdgeIterator
-	seen map[int]struct{}
+	origin *Node
+	dir    EdgeDir
+	itr    EdgeIterator
+	seen   map[int]struct{}
 }
 
-func newNodesFromEdges(itr EdgeIterator, dir EdgeDir) NodeIterator {
+func newNodesFromEdges(origin *Node, itr EdgeIterator, dir EdgeDir) NodeIterator {
 	return &nodesFromEdgesIterator{
-		dir:  dir,
-		itr:  itr,
-		seen: make(map[int]struct{}),
+		origin: origin,
+		dir:    dir,
+		itr:    itr,
+		seen:   make(map[int]struct{}),
 	}
 }
 
@@ -283,7 +285,7 @@ func (i *nodesFromEdgesIterator) Value() interface{} { return i.Node() }
 
 func (i *nodesFromEdgesIterator) Node() *Node {
 	e := i.itr.Edge()
-	if i.dir == IncomingEdge {
+	if i.dir == IncomingEdge || (i.dir == AnyEdge && e.GetTo() == i.origin) {
 		return e.GetFrom()
 	}
 	return e.GetTo()
-- 
2.43.0


From f1b820afa15bb8cf79b2ba8b3bd00e1d03dd0165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:56 +0000
Subject: [PATCH 18/27] fix: Cursor.PopFromPath did not move the cursor back

---
 cursor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cursor.go b/cursor.go
index 7517574..13f727e 100644
--- a/cursor.go
+++ b/cursor.go
@@ -52,6 +52,9 @@ func (c *Cursor) GetPath() *Path {
 // PopFromPath removes the last edge from the path. This also moves the cursor to the previous node
 func (c *Cursor) PopFromPath() *Cursor {
 	c.path.RemoveLast()
+	if last := c.path.Last(); last != nil {
+		c.node = last
+	}
 	return c
 }
 
-- 
2.43.0


From a848b8ebaf82f8cd6bf4b8195dd050a7e65dfa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:49 +0000
Subject: [PATCH 19/27] fix: an undirected pattern edge matched a self-loop
 twice

---
 planprocessors.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planprocessors.go b/planprocessors.go
index f9b2994..eed5159 100644
--- a/planprocessors.go
+++ b/planprocessors.go
@@ -145,12 +145,12 @@ func (processor *iterateConnectedEdges) init(ctx *MatchContext) {
 func (processor *iterateConnectedEdges) Run(ctx *MatchContext, next matchAccumulator) error {
 	node := processor.source.GetResult().(*Node)
 	processor.edgeItr = edgeIterator{
-		&filterIterator{
+		makeUniqueIterator(&filterIterator{
 			itr: node.GetEdgesWithAnyLabel(processor.dir, processor.patternItem.Labels),
 			filter: func(item interface{}) bool {
 				return processor.edgeFilter(item.(*Edge))
 			},
-		},
+		}),
 	}
 	if processor.edgeItr == nil {
 		return nil
-- 
2.43.0


From 6115e8e92ffdc413c04afdf23e7e68cd76955c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 20/27] fix: patterns evaluated from an undirected or left edge
 panicked or gave a wrong path

---
 pattern.go        |  4 ++++
 planprocessors.go | 33 +++++++++++++++++++++++----------
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/pattern.go b/pattern.go
index e212cd8..9d592db 100644
--- a/pattern.go
+++ b/pattern.go
@@ -471,6 +471,8 @@ func (pattern Pattern) GetPlan(graph *Graph, symbols map[string]*PatternSymbol)
 					processors[i] = newIterateConnectedNodes(processors[i-1], pattern[i], useFromNode)
 				} else if !pattern[i-1].Undirected {
 					processors[i] = newIterateConnectedNodes(processors[i-1], pattern[i], useToNode)
+				} else if i == index+1 {
+					processors[i] = newIterateConnectedNodes(processors[i-1], pattern[i], usePathEnd)
 				} else {
 					processors[i] = newIterateConnectedNodes(processors[i-1], pattern[i], useAnyNode, processors[i-2])
 				}
@@ -497,6 +499,8 @@ func (pattern Pattern) GetPlan(graph *Graph, symbols map[string]*PatternSymbol)
 					processors[i] = newIterateConnectedNodes(processors[i+1], pattern[i], useToNode)
 				} else if !pattern[i+1].Undirected {
 					processors[i] = newIterateConnectedNodes(processors[i+1], pattern[i], useFromNode)
+				} else if i == index-1 {
+					processors[i] = newIterateConnectedNodes(processors[i+1], pattern[i], usePathStart)
 				} else {
 					processors[i] = newIterateConnectedNodes(processors[i+1], pattern[i], useAnyNode, processors[i+2])
 				}
diff --git a/planprocessors.go b/planprocessors.go
index eed5159..39b2d35 100644
--- a/planprocessors.go
+++ b/planprocessors.go
@@ -100,17 +100,21 @@ func (processor *iterateEdges) init(ctx *MatchContext) {
 func (processor *iterateEdges) Run(ctx *MatchContext, next matchAccumulator) error {
 	processor.init(ctx)
 	for processor.itr.Next() {
-		path := &Path{path: []PathElement{{Edge: processor.itr.Edge()}}}
-		// TODO: find edge dir
-		// if  {
-		// 	path.path[0].Reverse = true
-		// }
-		processor.result = path
-		ctx.recordStepResult(processor)
-		if err := next.Run(ctx); err != nil {
-			return err
+		edge := processor.itr.Edge()
+		// The path follows the pattern: a <-- edge is traversed in reverse,
+		// and an undirected edge can be traversed both ways
+		directions := []bool{processor.patternItem.ToLeft}
+		if processor.patternItem.Undirected && !processor.patternItem.ToLeft && edge.GetFrom() != edge.GetTo() {
+			directions = []bool{false, true}
+		}
+		for _, reverse := range directions {
+			processor.result = &Path{path: []PathElement{{Edge: edge, Reverse: reverse}}}
+			ctx.recordStepResult(processor)
+			if err := next.Run(ctx); err != nil {
+				return err
+			}
+			ctx.resetStepResult(processor)
 		}
-		ctx.resetStepResult(processor)
 	}
 	return nil
 }
@@ -200,6 +204,11 @@ const useFromNode = -1
 const useAnyNode = 0
 const useToNode = 1
 
+// The plan starts from an undirected edge, so the direction of the
+// path determines the node
+const usePathStart = 2
+const usePathEnd = 3
+
 type iterateConnectedNodes struct {
 	patternItem    PatternItem
 	source         planProcessor
@@ -241,6 +250,10 @@ func (processor *iterateConnectedNodes) Run(ctx *MatchContext, next matchAccumul
 			node = edge.GetTo()
 		case useFromNode:
 			node = edge.GetFrom()
+		case usePathStart:
+			node = edges.First()
+		case usePathEnd:
+			node = edges.Last()
 		case useAnyNode:
 			n := processor.prevOrNextNode.GetResult().(*Node)
 			if edge.GetTo() == n {
-- 
2.43.0


From 615223884bbc65581ce377c520f9d7aa1140a6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:35 +0000
Subject: [PATCH 21/27] fix: pattern items evaluated backwards gave wrong
 variable-length paths and reversed symbols

---
 path.go    | 13 +++++++++++++
 pattern.go | 12 ++++++++----
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/path.go b/path.go
index 28aaf7a..ddd1692 100644
--- a/path.go
+++ b/path.go
@@ -62,6 +62,19 @@ func (p *Path) Clone() *Path {
 	return &ret
 }
 
+// reversed returns a new path that goes through the same nodes and
+// edges in the opposite direction
+func (p *Path) reversed() *Path {
+	ret := Path{
+		only: p.only,
+		path: make([]PathElement, 0, len(p.path)),
+	}
+	for i := len(p.path) - 1; i >= 0; i-- {
+		ret.path = append(ret.path, PathElement{Edge: p.path[i].Edge, Reverse: !p.path[i].Reverse})
+	}
+	return &ret
+}
+
 // SetOnlyNode sets the path to a single node
 func (p *Path) SetOnlyNode(node *Node) *Path {
 	p.only = node
diff --git a/pattern.go b/pattern.go
index 9d592db..f2da4b1 100644
--- a/pattern.go
+++ b/pattern.go
@@ -555,8 +555,7 @@ func (plan MatchPlan) GetCurrentPath() *Path {
 	revPathOut := &Path{}
 	for i := len(plan.steps) - 1; i >= plan.nForward; i-- {
 		if path, ok := plan.steps[i].GetResult().(*Path); ok {
-			revPathOut.Append(PathElement{Edge: path.path[0].Edge, Reverse: !path.path[0].Reverse})
-			// revPathOut.AppendPath(path)
+			revPathOut.AppendPath(path.reversed())
 		}
 	}
 	return revPathOut.AppendPath(out)
@@ -565,10 +564,15 @@ func (plan MatchPlan) GetCurrentPath() *Path {
 // CaptureSymbolValues captures the current symbol values as nodes or []Edges
 func (plan MatchPlan) CaptureSymbolValues() map[string]interface{} {
 	ret := make(map[string]interface{})
-	for _, step := range plan.steps {
+	for i, step := range plan.steps {
 		if len(step.GetPatternItem().Name) > 0 {
 			if _, exists := ret[step.GetPatternItem().Name]; !exists {
-				ret[step.GetPatternItem().Name] = step.GetResult()
+				result := step.GetResult()
+				if path, ok := result.(*Path); ok && i > plan.nForward {
+					// Backward steps walk against the direction of the pattern
+					result = path.reversed()
+				}
+				ret[step.GetPatternItem().Name] = result
 			}
 		}
 	}
-- 
2.43.0


From 3407354b1eef1a0e1bf4095014ef28ebdddb5f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:22 +0000
Subject: [PATCH 22/27] fix: a repeated name in a pattern lost its binding
 after the first match

---
 pattern.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pattern.go b/pattern.go
index f2da4b1..4f0b45e 100644
--- a/pattern.go
+++ b/pattern.go
@@ -292,6 +292,9 @@ type MatchContext struct {
 	// localSymbols are symbols defined in the pattern.
 	LocalSymbols map[string]*PatternSymbol
 
+	// The steps that bound the local symbols
+	localSymbolSteps map[string]planProcessor
+
 	variablePathNode *Node
 }
 
@@ -304,12 +307,18 @@ func (ctx *MatchContext) recordStepResult(step planProcessor) {
 	if _, global := ctx.Symbols[name]; global {
 		return
 	}
+	if owner, bound := ctx.localSymbolSteps[name]; bound && owner != step {
+		// Already bound by an earlier step using the same name
+		return
+	}
 	result := &PatternSymbol{}
 	result.Add(step.GetResult())
 	ctx.LocalSymbols[name] = result
+	ctx.localSymbolSteps[name] = step
 }
 
-// resetStepResult will remove the step's local symbol from the context
+// resetStepResult will remove the step's local symbol from the
+// context, if it was bound by that step
 func (ctx *MatchContext) resetStepResult(step planProcessor) {
 	name := step.GetPatternItem().Name
 	if len(name) == 0 {
@@ -318,7 +327,11 @@ func (ctx *MatchContext) resetStepResult(step planProcessor) {
 	if _, global := ctx.Symbols[name]; global {
 		return
 	}
+	if ctx.localSymbolSteps[name] != step {
+		return
+	}
 	delete(ctx.LocalSymbols, name)
+	delete(ctx.localSymbolSteps, name)
 }
 
 func (pattern Pattern) Run(graph *Graph, symbols map[string]*PatternSymbol, result MatchAccumulator) error {
@@ -627,9 +640,10 @@ func (acc *DefaultMatchAccumulator) GetTailNodes() []*Node {
 
 func (plan MatchPlan) Run(graph *Graph, symbols map[string]*PatternSymbol, result MatchAccumulator) error {
 	ctx := &MatchContext{
-		Graph:        graph,
-		Symbols:      symbols,
-		LocalSymbols: make(map[string]*PatternSymbol),
+		Graph:            graph,
+		Symbols:          symbols,
+		LocalSymbols:     make(map[string]*PatternSymbol),
+		localSymbolSteps: make(map[string]planProcessor),
 	}
 
 	res := resultAccumulator{acc: result, plan: plan}
-- 
2.43.0


From 845ddd522b46911d9cccc2ac0b7407db1bece3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:59 +0000
Subject: [PATCH 23/27] fix: names of pattern edges did not constrain them, and
 were not checked to be edges

---
 planprocessors.go | 31 +++++++++++++++++++++++++++----
 sets.go           |  4 ++++
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/planprocessors.go b/planprocessors.go
index 39b2d35..bec5e44 100644
--- a/planprocessors.go
+++ b/planprocessors.go
@@ -82,9 +82,8 @@ type iterateEdges struct {
 	initialized bool
 }
 
-func (processor *iterateEdges) init(ctx *MatchContext) {
+func (processor *iterateEdges) init(ctx *MatchContext) error {
 	if !processor.initialized {
-		processor.initialized = true
 		filterFunc := processor.patternItem.getEdgeFilter()
 		processor.itr = edgeIterator{
 			&filterIterator{
@@ -94,11 +93,29 @@ func (processor *iterateEdges) init(ctx *MatchContext) {
 				},
 			},
 		}
+		edges, err := processor.patternItem.isConstrainedEdges(ctx)
+		if err != nil {
+			return err
+		}
+		if edges != nil {
+			processor.itr = edgeIterator{
+				&filterIterator{
+					itr: processor.itr,
+					filter: func(edge interface{}) bool {
+						return edges.Has(edge.(*Edge))
+					},
+				},
+			}
+		}
+		processor.initialized = true
 	}
+	return nil
 }
 
 func (processor *iterateEdges) Run(ctx *MatchContext, next matchAccumulator) error {
-	processor.init(ctx)
+	if err := processor.init(ctx); err != nil {
+		return err
+	}
 	for processor.itr.Next() {
 		edge := processor.itr.Edge()
 		// The path follows the pattern: a <-- edge is traversed in reverse,
@@ -148,6 +165,10 @@ func (processor *iterateConnectedEdges) init(ctx *MatchContext) {
 
 func (processor *iterateConnectedEdges) Run(ctx *MatchContext, next matchAccumulator) error {
 	node := processor.source.GetResult().(*Node)
+	constraints, err := processor.patternItem.isConstrainedEdges(ctx)
+	if err != nil {
+		return err
+	}
 	processor.edgeItr = edgeIterator{
 		makeUniqueIterator(&filterIterator{
 			itr: node.GetEdgesWithAnyLabel(processor.dir, processor.patternItem.Labels),
@@ -162,6 +183,9 @@ func (processor *iterateConnectedEdges) Run(ctx *MatchContext, next matchAccumul
 	if processor.patternItem.Min == 1 && processor.patternItem.Max == 1 {
 		for processor.edgeItr.Next() {
 			edge := processor.edgeItr.Edge()
+			if constraints != nil && !constraints.Has(edge) {
+				continue
+			}
 			path := &Path{path: []PathElement{
 				{Edge: edge},
 			}}
@@ -179,7 +203,6 @@ func (processor *iterateConnectedEdges) Run(ctx *MatchContext, next matchAccumul
 		return nil
 	}
 	logf("IterateConnectedEdges min=%d max=%d %+v\n", processor.patternItem.Min, processor.patternItem.Max, processor.result)
-	var err error
 	CollectAllPaths(ctx.Graph, node, processor.edgeItr, processor.edgeFilter, processor.dir, processor.patternItem.Min, processor.patternItem.Max, func(path *Path) bool {
 		processor.result = path
 		logf("IterateConnectedEdges testing len=%d %+v\n", len(path.path), processor.result)
diff --git a/sets.go b/sets.go
index 21d2c93..a929148 100644
--- a/sets.go
+++ b/sets.go
@@ -132,6 +132,10 @@ func (set EdgeSet) Remove(edge *Edge) {
 	set.set.remove(edge.id)
 }
 
+func (set EdgeSet) Has(edge *Edge) bool {
+	return set.set.has(edge.id)
+}
+
 func (set EdgeSet) Len() int {
 	return set.set.size()
 }
-- 
2.43.0


From b7bb4baefd1efba4b83e734bbc58dc579b3089b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 24/27] fix: do not start evaluating a pattern at an edge item
 whose length bounds exclude one edge

An edge item with bounds 0..0 (the zero value) matches nothing when reached
from a node, but matched single edges when the evaluation happened to start
at it.
---
 pattern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pattern.go b/pattern.go
index 4f0b45e..9f526b7 100644
--- a/pattern.go
+++ b/pattern.go
@@ -170,7 +170,7 @@ func (p PatternItem) estimateEdgeSize(g *Graph, symbols map[string]*PatternSymbo
 		return ret, max
 	}
 
-	if p.Min > 1 || p.Max > 1 || p.Min == -1 || p.Max == -1 {
+	if p.Min != 1 || p.Max != 1 {
 		return g.GetEdges(), -1
 	}
 
-- 
2.43.0


From 809b27230847c5c1f5595227883e1dbd2d0c652f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 25/27] fix: hash indexes panicked on lists and missed values
 wrapped twice

---
 hashindex.go | 61 ++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 52 insertions(+), 9 deletions(-)

diff --git a/hashindex.go b/hashindex.go
index e4b283c..65d801c 100644
--- a/hashindex.go
+++ b/hashindex.go
@@ -16,6 +16,8 @@ package lpg
 
 import (
 	"container/list"
+	"fmt"
+	"strings"
 )
 
 // A hashIndex is a hash table index
@@ -24,14 +26,59 @@ type hashIndex struct {
 	elements list.List
 }
 
+// The key of the lists in a hash index. Lists with equal elements have
+// equal keys.
+type listHashKey string
+
+// The key of all values that cannot be used as a map key, or that are
+// not equal to themselves
+type noHashKey struct{}
+
+// hashKey returns the key of a value in a hash index. Values that are
+// equal have the same key, but different values may have the same key
+// as well: those found in an index have to be compared.
+func hashKey(value interface{}) (key interface{}) {
+	defer func() {
+		if r := recover(); r != nil {
+			key = noHashKey{}
+		}
+	}()
+	if native, ok := value.(WithNativeValue); ok {
+		return hashKey(native.GetNativeValue())
+	}
+	switch v := value.(type) {
+	case []int:
+		var sb strings.Builder
+		for _, x := range v {
+			fmt.Fprintf(&sb, "%v,", x)
+		}
+		return listHashKey(sb.String())
+	case []string:
+		var sb strings.Builder
+		for _, x := range v {
+			fmt.Fprintf(&sb, "%v,", x)
+		}
+		return listHashKey(sb.String())
+	case []interface{}:
+		var sb strings.Builder
+		for _, x := range v {
+			fmt.Fprintf(&sb, "%v,", hashKey(x))
+		}
+		return listHashKey(sb.String())
+	}
+	// Panics if value cannot be a map key
+	if _, ok := map[interface{}]struct{}{value: {}}[value]; !ok {
+		return noHashKey{}
+	}
+	return value
+}
+
 func (ix *hashIndex) add(value interface{}, id int, item interface{}) {
 	if ix.values == nil {
 		ix.values = make(map[interface{}]*fastSet)
 	}
 
-	if native, ok := value.(WithNativeValue); ok {
-		value = native.GetNativeValue()
-	}
+	value = hashKey(value)
 
 	el := ix.elements.PushBack(item)
 	fs, ok := ix.values[value]
@@ -46,9 +93,7 @@ func (ix *hashIndex) remove(value interface{}, id int) {
 	if ix.values == nil {
 		return
 	}
-	if native, ok := value.(WithNativeValue); ok {
-		value = native.GetNativeValue()
-	}
+	value = hashKey(value)
 	fs, ok := ix.values[value]
 	if !ok {
 		return
@@ -66,9 +111,7 @@ func (ix *hashIndex) find(value interface{}) Iterator {
 	if ix.values == nil {
 		return emptyIterator{}
 	}
-	if native, ok := value.(WithNativeValue); ok {
-		value = native.GetNativeValue()
-	}
+	value = hashKey(value)
 	v, found := ix.values[value]
 	if !found {
 		return emptyIterator{}
-- 
2.43.0


From d7203d011ce5cbdb1771d5088c5ba3e7dc55e897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:49 +0000
Subject: [PATCH 26/27] fix: paths made from the same slice of elements changed
 each other

---
 path.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/path.go b/path.go
index ddd1692..46f5f26 100644
--- a/path.go
+++ b/path.go
@@ -31,7 +31,11 @@ type PathElement struct {
 }
 
 func NewPathFromElements(elements ...PathElement) *Path {
-	return &Path{path: elements}
+	ret := Path{
+		path: make([]PathElement, len(elements)),
+	}
+	copy(ret.path, elements)
+	return &ret
 }
 
 func NewPathElementsFromEdges(edges []*Edge) []PathElement {
-- 
2.43.0


From bce7ad89c4b3400d40c84a7f7fdcf138aca8881d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:07 +0000
Subject: [PATCH 27/27] fix: encoding silently replaced property values that
 JSON cannot express with null

---
 json.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/json.go b/json.go
index 9b019b6..703a469 100644
--- a/json.go
+++ b/json.go
@@ -180,7 +180,10 @@ func (j JSON) Encode(g *Graph, out io.Writer) error {
 		ret := make(map[string]json.RawMessage)
 		for k, v := range in {
 			if j.PropertyMarshaler == nil {
-				d, _ := json.Marshal(v)
+				d, err := json.Marshal(v)
+				if err != nil {
+					return nil, err
+				}
 				ret[k] = d
 			} else {
 				k, d, err := j.PropertyMarshaler(k, v)
-- 
2.43.0

