#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here in readable form)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })

prop("C01", "Graph contents always match the mutation history",
 "After any sequence of node and edge creations, label changes, property changes, detachments and removals, enumerating a graph yields exactly the live nodes and the live edges, each exactly once, and NumNodes/NumEdges agree with the enumeration. Every live edge keeps the source and target it was created with, and each node's outgoing (incoming) edge list is exactly the live edges whose source (target) it is, the any-direction list being the two together.",
 ["histories"], "every finite sequence of mutating API calls on live nodes and edges, including self-loops, parallel edges, relabelled edges, and removal of first/last/only elements",
 "The single CRUD test removes one middle node and counts; it never adds after a removal, removes a tail, relabels an edge and then removes it, or compares adjacency with an independent record.",
 ["graph.go", "node.go", "edge.go", "list.go", "edgemap.go"],
 [("doubly linked node list", "list.go nodeList.add/remove"), ("per-label edge lists with single-edge fast path", "edgemap.go edgeMap.add/remove"), ("connect/disconnect on both endpoints", "graph.go connect/disconnect/setEdgeLabel/removeEdge/detachNode")],
 [("allNodes/allEdges", "global node list and edge map", "graph.go Graph"), ("incoming/outgoing", "per-node edge maps", "node.go Node")],
 ["Graph.GetNodes", "Graph.GetEdges", "Graph.NumNodes", "Graph.NumEdges", "Node.GetEdges", "Edge.GetFrom/GetTo"])

prop("C02", "Label lookups reflect the current labels",
 "At every point of any mutation history, looking up nodes by a label set returns exactly the live nodes currently carrying all those labels (every live node for the empty set), and looking up edges by label, on the whole graph or at a node in any direction, returns exactly the matching live edges with their current label, each once. At a node, an empty label set means no label restriction.",
 ["histories", "inputs"], "every mutation history (including label replacement on nodes, to and from no labels, and relabelling of edges) and every query label set",
 "Tests build label maps once and query them once; no test replaces node labels, relabels an edge and then queries or removes it.",
 ["maps.go", "edgemap.go", "graph.go", "node.go"],
 [("label to node-set map kept in step by Add/Replace/Remove", "maps.go NodeMap"), ("label to edge-list map", "edgemap.go"), ("edge relabelling moves the edge between lists", "graph.go setEdgeLabel")],
 [("nodesByLabel", "label index of nodes", "indexes.go graphIndex")],
 ["Graph.GetNodesWithAllLabels", "Graph.GetEdgesWithAnyLabel", "Node.GetEdgesWithLabel", "Node.GetEdgesWithAnyLabel", "Node.HasLabel/GetLabels", "Edge.GetLabel"])

prop("C03", "Properties and labels read back as last written",
 "For every node and edge, reading a property returns the value last written to that key and absence once it is removed or if never set, and enumerating the properties visits exactly the current key/value pairs once (stopping, and reporting it, as soon as the callback declines). Writing to one node or edge never changes any other, and later changes to the map or label slice passed to NewNode/NewEdge, or to a label set obtained from or given to a node through set operations, do not alter the graph.",
 ["histories", "inputs"], "every sequence of property/label writes and removals over several nodes and edges with arbitrary keys and values, indexed or not",
 "No test removes a property, overwrites one, or mutates caller-owned maps after construction.",
 ["properties.go", "graph.go", "node.go", "edge.go", "stringset.go"],
 [("copying constructors", "graph.go NewNode/NewEdge"), ("set/remove property with index maintenance", "graph.go setNodeProperty/removeNodeProperty/setEdgeProperty/removeEdgeProperty")],
 [("properties", "per-item property map", "properties.go")],
 ["Node/Edge.GetProperty", "ForEachProperty", "Node.GetLabels"])

prop("C04", "Property-presence lookups are exact with or without an index",
 "At every point of any mutation history, GetNodesWithProperty and GetEdgesWithProperty return exactly the live nodes or edges that currently have the property, each once, whether the property has no index, a B-tree index or a hash index, and whether the index was added before or after the data.",
 ["histories", "configurations"], "every history mixing creations, property writes, removals and index creation of either kind",
 "Index tests insert once and look up one value; none overwrites, removes, deletes indexed items, or enumerates an index.",
 ["indexes.go", "hashindex.go", "btreeindex.go", "graph.go"],
 [("index add/remove on every property change and item removal", "indexes.go add*/remove*FromIndex, graph.go set*Property/remove*Property/removeEdge"), ("value enumeration", "hashindex.go valueItr, btreeindex.go valueItr")],
 [("nodeProperties/edgeProperties", "property name to index", "indexes.go graphIndex")],
 ["Graph.GetNodesWithProperty", "Graph.GetEdgesWithProperty"])

prop("C05", "FindNodes and FindEdges return exactly the matching items",
 "At every point of any mutation history, FindNodes returns exactly the live nodes having all the given labels and, for every given property, a value equal to the requested one; FindEdges returns exactly the live edges whose label is among the given labels and whose properties match; an empty label set or property map imposes no restriction and each match is returned once. The answer is the same with no index and with any combination of B-tree and hash indexes, a requested value that cannot be compared with a stored one simply does not match, and the exported filter functions accept exactly the same items.",
 ["histories", "inputs", "configurations"], "every history, index configuration and query over supported non-null value types",
 "FindNodes and FindEdges are not called by any test; only one index lookup per index kind is.",
 ["graph.go", "indexes.go", "hashindex.go", "btreeindex.go", "properties.go"],
 [("choice of the smallest candidate iterator plus a filter", "graph.go FindNodes/FindEdges"), ("GetNodeFilterFunc/GetEdgeFilterFunc", "graph.go"), ("value lookup", "btreeindex.go find, hashindex.go find")],
 [("nodeProperties/edgeProperties", "property name to index", "indexes.go graphIndex")],
 ["Graph.FindNodes", "Graph.FindEdges", "GetNodeFilterFunc", "GetEdgeFilterFunc"])

prop("C06", "Every iterator is finite, stable at its end, and bounded by MaxSize",
 "Every node or edge iterator returned by the library yields a finite sequence, keeps returning false from Next once exhausted, reports the same item through its typed and untyped accessors, and reports a MaxSize that is -1 or at least the number of items it yields. Independent iterators over an unmodified graph do not disturb each other, and MultiIterator yields the concatenation of its inputs.",
 ["inputs", "histories"], "every reachable graph state and every query entry point returning an iterator, including any-direction and multi-label edge iterators",
 "Tests check MaxSize for one index lookup only; the query planner relies on it everywhere.",
 ["itr.go", "list.go", "edgemap.go", "maps.go", "node.go", "sets.go"],
 [("size wrappers", "itr.go withSize"), ("composite iterators", "itr.go funcIterator/MultiIterator/filterIterator")],
 [], ["Iterator.Next", "Iterator.Value", "Iterator.MaxSize"])

prop("C07", "Property value comparison is a consistent total order",
 "On mutually comparable property values (integers, strings, lists of them, generic lists, and wrappers exposing a native value) ComparePropertyValue is reflexive, antisymmetric and transitive, orders integers and strings naturally and lists lexicographically with a proper prefix first, and gives the same answer for a typed list and the generic list with the same elements and for a wrapped and an unwrapped value. Values of incomparable types are rejected by a panic rather than given an order.",
 ["inputs"], "all pairs and triples of supported values, nested and wrapped",
 "ComparePropertyValue has no direct test.",
 ["properties.go"],
 [("type switch with element-wise recursion", "properties.go ComparePropertyValue")],
 [], ["ComparePropertyValue"])

prop("C08", "JSON round trip preserves the graph",
 "For every graph whose property values are JSON values, Encode produces one valid JSON document in the documented node-list format, with edges embedded in their source nodes or listed separately as configured, and decoding it into an empty graph yields an isomorphic graph: the same labels, properties, edge labels, edge properties, multiplicities and endpoints. This includes the empty graph, isolated and unlabeled nodes, self-loops, parallel edges, empty edge labels and arbitrary Unicode text.",
 ["inputs", "configurations"], "every graph with JSON property values, both edge layouts",
 "The encode test checks an empty graph and two nodes, and never compares the decoded graph or uses the separate-edges layout.",
 ["json.go", "README.md"],
 [("streaming encoder with node indexes", "json.go Encode"), ("decoder with deferred edges", "json.go Decode/addNode/addEdge")],
 [], ["JSON.Encode", "JSON.Decode"])

prop("C09", "JSON decoding builds exactly the described graph",
 "Decoding any document in the documented format adds to the target graph exactly the nodes and edges it describes, for any order of top-level keys and of nodes, arbitrary (also negative or sparse) unique node indexes, edges embedded, separate or both, and unknown top-level keys with any JSON value, which are ignored. The decoder stops right after the document, its settings as they were, so that consecutive documents can be read from one stream, nodes already in the target graph are left alone, and an edge referring to a node index that no node has is reported as an invalid-graph error.",
 ["inputs"], "all documents in the format, including forward references and unknown keys",
 "Tests decode two fixed well-behaved files and do not check the resulting graph.",
 ["json.go", "README.md"],
 [("token-driven top-level loop", "json.go Decode"), ("edge queue resolved at the end", "json.go Decode")],
 [], ["JSON.Decode", "ErrInvalidGraph"])

prop("C10", "Malformed JSON is rejected with an error, never a panic or silence",
 "For any byte input, Decode returns without panicking, and it reports success only if the input starts with a complete, well-formed JSON object that fits the documented format. In particular every proper truncation of a valid document, a document with a wrongly typed field, and a stream whose reader fails are reported as errors. Whatever was in the target graph before a failed Decode is still there, unchanged, and all views of the graph agree.",
 ["inputs", "fault_sequences"], "arbitrary byte strings, truncations and corruptions of valid documents, readers failing at any offset",
 "No test feeds invalid input.",
 ["json.go"],
 [("json.Decoder token loop and typed decoding", "json.go Decode")],
 [], ["JSON.Decode"])

prop("C11", "JSON property hooks and interner are applied faithfully",
 "A property marshaler or unmarshaler is applied to every node and edge property exactly once: the key and value it returns are what is written or stored, a property for which it returns an empty key is skipped, and an error it returns is returned by Encode or Decode, all views of the graph still agreeing. Every property key stored by Decode, and every node label, goes through the interner, and using an interner, shared or not, never changes the decoded graph.",
 ["inputs", "configurations", "fault_sequences"], "all graphs and hooks that rename, drop, transform or fail on chosen properties",
 "No test sets a hook or an interner.",
 ["json.go"],
 [("marshalProperties/unmarshalProperties", "json.go"), ("Interner use", "json.go unmarshalProperties/addNode")],
 [], ["JSON.PropertyMarshaler", "JSON.PropertyUnmarshaler", "JSON.Interner"])

prop("C12", "Output errors are always reported by the encoders",
 "If the destination writer fails at any point while a graph is encoded as JSON or rendered as DOT, the call returns that error, and it returns nil only if every byte was accepted by the writer. A failing node or edge renderer's error is likewise returned, and so is the failure to express a property value in JSON.",
 ["fault_sequences", "inputs"], "a writer fault at every write call or byte offset, for every graph and layout",
 "No test uses a failing writer.",
 ["json.go", "dotrenderer.go"],
 [("error check after each write", "json.go Encode, dotrenderer.go")],
 [], ["JSON.Encode", "DOTRenderer.Render"])

prop("C13", "CopyGraph yields a faithful, independent copy",
 "CopyGraph adds to the target exactly one new node per source node and one new edge per source edge, with the same labels, edge labels and connections, and properties transformed by the supplied clone function, and returns the one-to-one node mapping. The source and anything already in the target are unchanged (also when the clone function panics), the copies are found by the target's label and property lookups, and later mutations of either graph never affect the other.",
 ["inputs", "histories"], "every source graph, target content, target index configuration and clone function",
 "The clone test copies one line graph into an empty graph and compares with a weak isomorphism check.",
 ["clone.go", "graph.go", "properties.go"],
 [("cloneNode/cloneEdge", "graph.go"), ("CopyGraph over CopyGraphf", "clone.go")],
 [], ["CopyGraph"])

prop("C14", "Partial copies contain exactly the selected part",
 "CopySubgraph copies exactly the nodes reachable from the given node along outgoing edges and every edge leaving one of them, each once, terminating on cycles, and with a shared node map a later call adds only what was not yet copied. CopyGraphf copies exactly the nodes its node function returns and offers exactly the edges whose both ends were copied; CopyNode, CopyEdge and CloneEdge each add one faithful copy; the source is never modified.",
 ["inputs"], "every source graph (cycles, self-loops, parallel edges), start node and selection",
 "CopySubgraph, CopyGraphf with exclusions, CopyNode, CopyEdge and CloneEdge are untested.",
 ["clone.go", "graph.go"],
 [("depth-first copy guarded by the node map", "clone.go CopySubgraph"), ("nil-node exclusion", "clone.go CopyGraphf")],
 [], ["CopySubgraph", "CopyGraphf", "CopyNode", "CopyEdge", "CloneEdge"])

prop("C15", "CheckIsomorphism decides isomorphism correctly",
 "For any two graphs and node/edge equivalence relations, CheckIsomorphism returns true exactly when there is a one-to-one mapping between their nodes that relates equivalent nodes and under which the edges correspond one to one with equivalent edges between corresponding endpoints. It returns an error only when its context is cancelled, and that error is the context's; cancelling stops the search.",
 ["inputs"], "all pairs of small graphs (equal, permuted, near-miss) and equivalence relations",
 "It is only used once, on a positive instance with distinct nodes; negative and ambiguous instances are never tried.",
 ["alg.go"],
 [("enumeration of node assignments with an edge check", "alg.go CheckIsomorphism")],
 [], ["CheckIsomorphism"])

prop("C16", "Fixed-length patterns find exactly the matching paths",
 "Running a pattern whose edges all have length one reports each assignment of graph nodes and edges to the pattern's positions that satisfies the labels, properties and edge directions (left, right or undirected) exactly once, and nothing else. Each reported path lists those edges in pattern order as a connected path from the node matching the first item to the node matching the last, and FindNodes, GetHeadNodes and GetTailNodes return the distinct first or last nodes of these paths.",
 ["inputs"], "every graph (self-loops, parallel edges, fewer edges than nodes and vice versa) and every fixed-length pattern; distinct items may match the same graph edge",
 "Tests cover line and circle graphs with one-edge patterns; plans that start at an edge or run backwards are hardly reached.",
 ["pattern.go", "planprocessors.go", "graph.go"],
 [("plan starting at the most selective item, then forward and backward steps", "pattern.go GetPlan"), ("step processors", "planprocessors.go"), ("path assembly", "pattern.go GetCurrentPath")],
 [], ["Pattern.Run", "Pattern.FindPaths", "Pattern.FindNodes", "DefaultMatchAccumulator"])

prop("C17", "Variable-length patterns find exactly the matching trails",
 "A pattern edge with a minimum and maximum length (-1 meaning unbounded) matches exactly the paths of at least one edge within those bounds that never repeat an edge, whose edges all satisfy its labels, properties and direction, each reported once; reported paths are connected and in pattern order wherever the item stands in the pattern. CollectAllPaths likewise delivers each such path from its start node once and stops as soon as its callback declines.",
 ["inputs"], "every graph with cycles, self-loops and parallel edges, and every min/max/direction/filter",
 "Tests count results on a few line/circle graphs; the CollectAllPaths test asserts nothing.",
 ["vpathitr.go", "planprocessors.go", "pattern.go"],
 [("depth-first trail enumeration", "vpathitr.go CollectAllPaths"), ("variable-length step", "planprocessors.go iterateConnectedEdges"), ("path assembly", "pattern.go GetCurrentPath")],
 [], ["CollectAllPaths", "Pattern.Run"])

prop("C18", "Pattern variables bind consistently and respect given symbols",
 "In every reported match each named pattern item is captured under its name as the node, or the path of edges in pattern order, matched at that position; a node name, or the name of a length-one edge, used at several positions denotes the same item at all of them (unless it was given as a symbol of several items). If a node name, or the name of a length-one edge, is supplied as an input symbol only items of that symbol match there, and a name bound to nodes used for an edge (or the reverse) never produces a match and is reported as an error when reached. The context given to an accumulator holds the same bindings as the match reported with it, and the graph searched.",
 ["inputs", "configurations"], "every pattern with repeated names and every set of pre-bound node or edge symbols",
 "Tests bind one node symbol; edge symbols, repeated names over several candidates and kind mismatches are untested.",
 ["pattern.go", "planprocessors.go"],
 [("local symbol recording and resetting", "pattern.go recordStepResult/resetStepResult"), ("constraints", "pattern.go isConstrainedNodes/isConstrainedEdges"), ("capture", "pattern.go CaptureSymbolValues")],
 [("Symbols/LocalSymbols", "given and pattern-local bindings", "pattern.go MatchContext")],
 ["MatchAccumulator.StoreResult", "Pattern.GetSymbolNames"])

prop("C19", "Pattern results do not depend on indexes or evaluation order",
 "For a given graph and pattern the set of reported matches, with their paths and captured symbols, is the same whatever property indexes exist, in whatever order the graph was built, and whichever item the evaluation starts from; matching the reversed pattern (items in opposite order, directions flipped) yields exactly the reversed matches.",
 ["inputs", "configurations"], "all graphs, patterns, index configurations and construction orders",
 "Tests run a few patterns with and without one index but compare only counts.",
 ["pattern.go", "planprocessors.go", "indexes.go"],
 [("selectivity estimation", "pattern.go estimateNodeSize/estimateEdgeSize/getFastestElement"), ("backward steps", "pattern.go GetPlan")],
 [], ["Pattern.Run"])

prop("C20", "Path operations behave as operations on a node/edge sequence",
 "A path behaves as an alternating sequence of nodes and edges: node/edge counts, First, Last, GetNode, GetEdge and IsEmpty agree with that sequence, appending edges or a connected path concatenates, removing the last edge drops it (leaving the source node of a one-edge path), Slice(i,j) with at least two nodes, or j=-1 for the end, is the corresponding part, and prefix tests hold exactly for prefixes. RemoveFirst, which removes the first edge of the path from the graph, leaves the rest of a path of several edges, and a graph without that edge but otherwise as it was. Appending a disconnected edge panics; clones and slices are independent, as are paths made from the same slice of elements; and none of the other operations changes the argument path, the slice of elements passed in, or the graph.",
 ["histories", "inputs"], "every sequence of path operations over walks in arbitrary graphs, including reversed elements and self-loops",
 "Path tests check two slices and that appending does not crash.",
 ["path.go"],
 [("only/path representation", "path.go Path"), ("connectivity check", "path.go Append")],
 [("only/path", "single-node or element-list form", "path.go Path")],
 ["Path.*"])

prop("C21", "Cursor navigation matches the graph and its recorded path",
 "A cursor's edge and node iterators yield exactly the edges incident to its node and the distinct nodes at their other ends, in the requested direction (either direction for any) and label; without a node they are empty. Pushing an outgoing edge onto the recorded path moves the cursor to its target and extends the path, popping an edge undoes exactly that, and neither changes the graph.",
 ["histories", "inputs"], "every walk of pushes, pops and queries over every graph",
 "One test pushes a single edge and counts.",
 ["cursor.go", "itr.go", "path.go"],
 [("nodes from edges with duplicate suppression", "itr.go nodesFromEdgesIterator"), ("path recording", "cursor.go PushToPath/PopFromPath")],
 [("node/path", "current node and recorded path", "cursor.go Cursor")],
 ["Cursor.*"])

prop("C22", "StringSet is a correct set with value semantics",
 "StringSet implements a mathematical set of strings: membership, any/all tests, equality, add, remove, union, length, slices, text and JSON round trip agree with a reference set, starting also from the zero value. Copies (assignment or Clone) and their original never see each other's subsequent additions and removals, and argument sets are never modified.",
 ["histories", "inputs"], "all operation sequences over several aliased sets with arbitrary strings",
 "StringSet has no test.",
 ["stringset.go"],
 [("copy-on-write updates", "stringset.go Add/AddSet/Remove")],
 [("M", "member map", "stringset.go StringSet")],
 ["StringSet.*"])

prop("C23", "Node and edge collections behave as sets",
 "NodeSet and EdgeSet keep each item at most once, and their membership, length, slices and iterators agree with a reference set under any sequence of additions and removals, in insertion order. NodeMap, kept up to date through Add, Replace and Remove, lists every stored node exactly once, returns for a label set exactly the stored nodes carrying all the labels, and is empty exactly when it stores nothing; PatternSymbol accumulates the nodes, edges or path edges added to it.",
 ["histories"], "all sequences of additions, removals and label replacements of nodes with zero or more labels",
 "One test fills a NodeMap and queries it; removal and replacement are untested, NodeSet and EdgeSet have no test.",
 ["sets.go", "maps.go", "pattern.go"],
 [("id-keyed list set", "sets.go fastSet"), ("label map plus unlabeled set", "maps.go NodeMap")],
 [], ["NodeSet.*", "EdgeSet.*", "NodeMap.*", "PatternSymbol.*"])

prop("C24", "DOT output renders exactly the graph",
 "Rendering any graph as DOT produces a syntactically well-formed digraph containing one statement with a distinct identifier for every node and one edge statement per edge joining the identifiers of its endpoints and carrying its label text exactly, for arbitrary labels. With custom renderers, each node is offered once, a declined node is left out together with all its edges, and every other edge is offered once with the identifiers of its rendered endpoints.",
 ["inputs", "configurations"], "every graph, arbitrary label text, every selection of excluded nodes and edges",
 "The DOT renderer has no test.",
 ["dotrenderer.go"],
 [("sequential node identifiers", "dotrenderer.go RenderNodesEdges"), ("label quoting", "dotrenderer.go DefaultDOTEdgeRender")],
 [], ["DOTRenderer.Render", "DOTRenderer.RenderNodesEdges"])

prop("C25", "Traversal helpers return exactly what their names promise",
 "On every graph reached by any history, Sources and Sinks return exactly the nodes without incoming and without outgoing edges, EdgesBetweenNodes exactly the edges from one node to the other, NextNodesWith and PrevNodesWith the distinct targets or sources of the edges with the label, TargetNodes and SourceNodes the distinct ends of the given edges, NodeSlice and EdgeSlice all remaining items, and ForEachNode visits every node once until told to stop. Each result item appears once.",
 ["histories", "inputs"], "every reachable graph, node pair and label",
 "None of these helpers is tested.",
 ["alg.go", "itr.go", "node.go"],
 [("filters over the adjacency iterators", "alg.go, itr.go, node.go")],
 [], ["Sources", "Sinks", "EdgesBetweenNodes", "NextNodesWith", "PrevNodesWith", "TargetNodes", "SourceNodes", "ForEachNode"])

prop("C26", "Reading a graph never changes it",
 "Lookups, iterations (complete or abandoned, also by a panic of a callback), pattern searches, path collection, isomorphism checks, copying out, encoding and rendering leave the graph, its indexes, and the pattern, symbol and label-set arguments unchanged, so repeating any of them gives the same result, and so does making one in the middle of another (in its callbacks, or between two steps of its iterator), on the same or another graph.",
 ["histories", "inputs"], "every reachable graph and every sequence of read operations",
 "No test repeats a query or checks the graph after one.",
 ["graph.go", "pattern.go", "planprocessors.go", "itr.go", "json.go", "path.go"],
 [("fresh plan and iterators per query", "pattern.go GetPlan, graph.go")],
 [], ["all read entry points"])

prop("C27", "Graphs are separate and own their nodes and edges",
 "Within a graph every live node has an identifier different from every other live node's, and every live edge from every other live edge's, stable for its lifetime; nodes and edges report the graph that created them. Operations on one graph never affect another, and creating an edge with an endpoint of another graph panics and leaves both graphs as they were.",
 ["histories"], "all interleavings of operations on several graphs, including attempted cross-graph edges",
 "Tests use one graph at a time and never try a cross-graph edge.",
 ["graph.go", "node.go", "edge.go"],
 [("ownership check", "graph.go FastNewEdge/cloneEdge"), ("per-graph id counter", "graph.go idBase")],
 [("idBase", "next identifier", "graph.go Graph")],
 ["Node.GetID", "Edge.GetID", "Node.GetGraph", "Edge.GetGraph", "Graph.NewEdge"])

prop("C28", "Concurrent readers do not disturb each other",
 "Any number of goroutines may read one graph at the same time (lookups, iteration, pattern searches, path collection, isomorphism checks, copying out, encoding, rendering), sharing patterns, symbols and label sets as arguments, while other goroutines build and change graphs of their own: there is no data race, and each gets the same results as it would alone.",
 ["schedules", "histories", "all inputs"], "all interleavings of concurrent reads, for every graph and every combination of read operations",
 "Every test is single-threaded and no test runs reads concurrently or under the race detector.",
 ["graph.go", "pattern.go", "planprocessors.go", "maps.go", "edgemap.go"],
 [("no hidden state written by reads, no package-level scratch state", "all read entry points")],
 [], ["all read entry points"])

prop("C29", "Selective lookups and local changes do not scan the graph",
 "In a graph of tens of thousands of items, whatever history it went through, these take a small fraction (less than a quarter) of the time needed to visit all of its nodes when few items match: node lookups by labels one of which few or no nodes have, edge lookups by labels few edges have; FindNodes and FindEdges with a value of an indexed property (B-tree or hash) that few items have, together with any other labels and properties, and FindNodes with a label few nodes have; lookups by existence of an indexed property few items have; NumNodes and NumEdges; the edges of a node with few edges in that direction, and the few edges with given labels of a node with many others; pattern searches that contain a node item that few nodes can match (by label, indexed value or given symbol) and whose matches have few neighbours, wherever that item is in the pattern. So does creating, removing or detaching a node with few edges, creating, removing or relabelling an edge, and changing labels or properties, indexed or not.",
 ["histories", "inputs"], "every graph, reached by any history, in which the items concerned are few among many; every index type and order of index creation and data",
 "The tests have no graph large enough for an ignored index, a label lookup that filters all nodes, or a removal that walks a list to be noticed: the results are the same.",
 ["graph.go", "indexes.go", "btreeindex.go", "hashindex.go", "maps.go", "edgemap.go", "sets.go", "list.go", "pattern.go"],
 [("smallest candidate set chosen", "graph.go FindNodes/FindEdges, maps.go IteratorAllLabels, pattern.go getFastestElement"), ("indexes by label and property", "maps.go, indexes.go"), ("constant-time sets and lists", "sets.go fastSet, list.go")],
 [], ["Graph.FindNodes", "Graph.FindEdges", "Graph.GetNodesWithProperty", "Graph.GetNodesWithAllLabels", "Node.GetEdgesWithLabel", "Pattern.FindPaths", "mutating calls"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
for p in P:
    assert len(p["title"]) <= 80, p["title"]
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
