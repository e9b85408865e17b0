#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
DG='src/graph/default_graph.rs'; GR='src/graph/graph.rs'; ER='src/graph/error.rs'
DF='src/traversal/depth_first.rs'; BF='src/traversal/breadth_first.rs'; ST='src/traversal/step.rs'
CO='src/selection/components.rs'; GM='src/matching/greedy.rs'; MM='src/matching/maximum_matching.rs'
BL='src/matching/blossom.rs'; FO='src/matching/forest.rs'; MK='src/matching/marker.rs'; PA='src/matching/pairing.rs'
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

dgstate=[("indices","node id -> position","%s DefaultGraph"%DG),("adjacency","neighbor ids by position","%s DefaultGraph"%DG),("nodes","ids in insertion order","%s DefaultGraph"%DG),("edges","each edge once, as given","%s DefaultGraph"%DG)]
p("C01","Every graph query describes one and the same undirected graph",
 "However a graph came about (empty, from an adjacency list, from an edge list, from a depth-first traversal, by any history of accepted and refused insertions), all its queries describe the same undirected graph, namely the one that was put in: emptiness and node count match the listed nodes, the edge count matches the listed edges, and each node and each edge is listed exactly once. Two nodes are reported as joined, in either argument order, exactly when their edge is listed and exactly when each is among the other's neighbors (no neighbor repeated; a node joined to itself is its own neighbor once), and a node's degree is the number of its neighbors.",
 ["histories","inputs"],"all construction routes and insertion histories, all node ids",
 "The tests query six fixed graphs of at most three nodes, one query each; none compares queries with each other after a history of insertions.",
 [DG,GR],[("four parallel representations kept in step",DG+" add_node/add_edge/try_from")],["return values of is_empty, order, size, nodes, neighbors, has_node, degree, edges, has_edge"],dgstate)
p("C02","Insertions succeed exactly when allowed, and a refused one changes nothing",
 "Adding a node succeeds exactly when its id is new, and adding an edge succeeds exactly when both ends exist and are not yet joined in either direction; success adds exactly that node or edge and nothing else. A refused insertion names its cause (the duplicate node, a missing end, or the duplicate edge as it was given) and leaves every observable of the graph as it was.",
 ["histories"],"all sequences of add_node and add_edge, valid and invalid, on any starting graph",
 "Tests make single refused calls on graphs of one or two nodes and never look at the graph afterwards.",
 [DG,ER],[("validate before mutate",DG+" add_node, add_edge")],["results of add_node/add_edge; full query snapshot before and after"],dgstate)
p("C03","Nodes, neighbors and edges iterate in a stable, insertion-determined order",
 "Nodes are listed in the order they were added (for an adjacency list: index order; for an edge list: order of first appearance), a node's neighbors in the order their edges were added (adjacency list: as written in its row), and edges in the order and direction they were added (adjacency list: by row, each edge at the row of its lower end). Later insertions only append, and neither refused insertions nor queries ever reorder anything.",
 ["histories","inputs"],"all construction routes and insertion histories",
 "Order is asserted on P3 only; hash-based storage makes order bugs depend on ids and sizes that the tests do not sample.",
 [DG,GR,"README.md"],[("ids, neighbors and edges are kept in Vecs in insertion order",DG)],["sequences yielded by nodes, neighbors, edges"],dgstate)
p("C04","Unknown node ids are always reported, known ones never",
 "For an id that is not in the graph, the neighbors, degree and edge queries and the start of a traversal fail with a missing-node error naming such an id (for an edge query, whichever end is missing, whether one or both), and membership is false. For ids in the graph none of them ever fails, whatever the ids' values.",
 ["inputs","histories"],"all graphs, all member and non-member ids over the whole integer range",
 "Tests probe ids 0 and 1 on graphs with at most three contiguous ids.",
 [DG,DF,BF,ER],[("id to index lookup",DG+" index_for"),("root lookup",DF+" new, "+BF+" new")],["Result of neighbors, degree, has_edge, DepthFirst::new, BreadthFirst::new; has_node"])
p("C05","An adjacency list is accepted exactly when it is a valid undirected graph",
 "Conversion from an adjacency list succeeds exactly when every listed neighbor is a row, no row lists a neighbor twice, and every listing is mutual; the graph then has the rows as nodes and the listings as neighbors, with nothing added, lost or changed. Otherwise it fails with an error that names a fault really present: a neighbor that is not a row, a neighbor duplicated in its row, or a mutual listing that is missing.",
 ["inputs"],"all adjacency lists, valid, or invalid in any combination of ways",
 "Three invalid lists of one or two rows are tested; valid ones are only used as fixtures.",
 [DG,ER],[("row validation",DG+" TryFrom<Vec<Vec<usize>>>")],["Result of try_from, then all queries"])
p("C06","An edge list is accepted exactly when it repeats no edge",
 "Conversion from a list of edges succeeds exactly when no edge occurs twice in either direction, and otherwise fails naming an occurrence that repeats an earlier one. The resulting graph has exactly the mentioned ids as nodes and exactly the listed edges, and equals the graph built by adding the same nodes and edges one by one.",
 ["inputs"],"all edge lists over all ids, with and without repetitions",
 "Two duplicate lists and one valid list of three edges are tested.",
 [DG,ER],[("on-demand node insertion",DG+" TryFrom<Vec<(usize,usize)>>")],["Result of try_from, then all queries"])
p("C07","Graphs are equal exactly when they have the same nodes and edges",
 "Two graphs compare equal exactly when their node ids are the same set and their undirected edges are the same set, regardless of insertion order, edge direction, neighbor order or construction route. Hence equality is reflexive, symmetric and transitive, and any single added, removed or moved node or edge makes graphs unequal.",
 ["inputs","histories"],"all pairs of graphs, in particular near misses with equal counts",
 "Four pairs are compared; three of the four differ in counts or ids.",
 [DG],[("count, node and edge comparison",DG+" PartialEq")],["result of == and != in both directions"])
p("C08","Depth-first traversal reports each reachable edge once, with right cut flags",
 "A depth-first traversal reports every edge of the root's connected component exactly once (in one of its directions) and nothing else. Each step starts at a node already reached; it is flagged as a cut exactly when its target had already been reached, so the unflagged steps reach every other node of the component exactly once.",
 ["inputs"],"all graphs (any implementation of the graph interface), all roots, all neighbor orders",
 "Sixteen fixed graphs are compared step by step; none has a back edge arriving while an unrelated branch of its target is still pending.",
 [DF,ST],[("explicit stack with removal of the edge seen from its other end",DF+" next")],["the sequence of steps"],[("nodes","nodes reached",DF),("stack","pending edges",DF)])
p("C09","Depth-first traversal goes deep first, in neighbor order",
 "Every step of a depth-first traversal leaves from the most recently reached node that still has an untraversed edge, and takes the first such edge in that node's neighbor order. Consequently every cut step joins a node to one of its ancestors in the traversal tree (or to itself).",
 ["inputs"],"all graphs, all roots, all neighbor orders",
 "Only fixed small graphs with hand-written step lists are tested, mostly with sorted neighbors.",
 [DF],[("LIFO stack loaded in reverse neighbor order",DF+" next")],["the sequence of steps"],[("stack","pending edges",DF)])
p("C10","Breadth-first traversal reports each reachable edge once, with right cut flags",
 "A breadth-first traversal reports every edge of the root's connected component exactly once (in one of its directions) and nothing else. Each step starts at a node already reached; it is flagged as a cut exactly when its target had already been reached, so the unflagged steps reach every other node of the component exactly once.",
 ["inputs"],"all graphs (any implementation of the graph interface), all roots, all neighbor orders",
 "Sixteen fixed graphs of at most seven nodes are compared step by step.",
 [BF,ST],[("FIFO queue of edges, skipped if the other end was expanded first",BF+" next")],["the sequence of steps"],[("nodes","nodes reached",BF),("queue","pending edges",BF)])
p("C11","Breadth-first traversal proceeds by distance and finds shortest paths",
 "A breadth-first traversal takes the reached nodes in the order they were reached, and reports for each, in its neighbor order, its edges that were not reported before. Consequently step sources never get closer to the root, each unflagged step goes from a node at distance d to one at distance d+1, and the unflagged steps form shortest paths from the root.",
 ["inputs"],"all graphs, all roots, all neighbor orders",
 "Fixed small graphs; no test states distances, and the largest depth is three.",
 [BF],[("FIFO queue",BF+" next")],["the sequence of steps, compared with independently computed distances"],[("queue","pending edges",BF)])
p("C12","Traversals and components can be consumed in any way with the same result",
 "Depth-first traversals, breadth-first traversals and component enumerations yield the same sequence however they are consumed: one item at a time, in parts, through skipping, counting or folding, interleaved with other traversals of the same graph, or abandoned early. Size hints never contradict what is yielded, and an exhausted one keeps yielding nothing.",
 ["histories","inputs"],"all interleavings of iterator operations over one or several live iterators",
 "Every test collects one iterator at once.",
 [DF,BF,CO],[("state lives in the iterator value only",DF+", "+BF+", "+CO)],["items yielded per operation; size_hint before each"])
p("C13","Tables and graphs made from a depth-first traversal agree with its steps",
 "The table made from a traversal with at least one step lists the root and then the other reached nodes in the order reached, and its edges in step order and direction. The graph made from such a traversal always succeeds and consists of exactly the root's connected component, its nodes in the order reached and its edges in step order and direction.",
 ["inputs"],"all graphs, all roots with at least one edge",
 "Three tables and two graphs of at most four nodes are tested.",
 [DF,DG],[("fold over steps",DF+" into_table, "+DG+" TryFrom<DepthFirst>")],["result of into_table and try_from(traversal)"])
p("C14","Connected components partition the graph faithfully",
 "The components of a graph are connected graphs whose node sets partition the graph's nodes and whose edges are, in total, exactly the graph's edges, each component having every edge between its nodes. There is exactly one component per connected part, isolated nodes included, and they come in the order of their earliest listed node.",
 ["inputs"],"all graphs (any implementation of the graph interface), any number and shape of connected parts",
 "Five graphs with parts of at most three nodes, each a path or a triangle, are tested.",
 [CO,DF,DG],[("one traversal per unvisited node, nodes of each remembered",CO+" next")],["the sequence of component graphs, through all their queries"],[("visited","nodes of earlier components",CO)])
p("C15","Greedy matching is a maximal matching",
 "The greedy matching of any graph consists of edges of the graph between two different nodes, no two sharing a node, and no edge of the graph could be added to it: each edge between different nodes has at least one matched end. Hence it has at least half as many edges as a maximum matching.",
 ["inputs"],"all graphs (any implementation of the graph interface), all node and neighbor orders",
 "Eight fixed graphs, all bipartite, all with the expected matching written out.",
 [GM,CO,DF],[("pair the ends of a step if both are free",GM+" greedy")],["edges, order, has_node and mate of the result"])
p("C16","Maximum matching yields a valid matching of the graph",
 "After maximum matching from any valid starting matching of the graph, the pairs are edges of the graph between two different nodes, and no node is in two pairs. The result's views agree: each listed pair is listed once with its lower id first, exactly the nodes of listed pairs count as matched, and each is the other's mate.",
 ["inputs"],"all graphs and all valid starting matchings, in particular with nested odd cycles",
 "Fourteen fixed graphs with the expected matching written out; only two contract an odd cycle inside a path.",
 [MM,BL,FO,MK,PA],[("augmentation along lifted paths",MM+" augmenting_path, "+BL+" lift"),("re-pairing releases old mates",PA+" pair")],["edges, order, has_node and mate of the pairing afterwards"])
p("C17","Maximum matching reaches the maximum size from any start",
 "For every graph and every valid starting matching of it (empty, partial, greedy, or already maximum), maximum matching ends with as many pairs as any matching of the graph can have.",
 ["inputs"],"all graphs and all valid starting matchings",
 "Fourteen fixed graphs; chemical graphs with low degree dominate, dense graphs and nested odd cycles are absent.",
 [MM,BL,FO,MK],[("Edmonds' search with odd-cycle contraction",MM+", "+BL+" contract_graph/contract_pairing/lift"),("alternating forest and marking",FO+", "+MK)],["number of pairs afterwards, against an independent optimum with a Tutte-Berge certificate"])
p("C18","Maximum matching never unmatches a node that was matched",
 "Every node matched in the valid starting matching is still matched (possibly to another node) after maximum matching, so the number of pairs never falls, and a starting matching that is already maximum is left exactly as it was. In particular running it a second time changes nothing.",
 ["inputs","histories"],"all graphs and all valid starting matchings",
 "Four tests start from a non-empty matching, none from a maximum one, and none runs it twice.",
 [MM,BL,PA],[("augmenting paths keep inner nodes matched",MM+", "+PA+" augment")],["matched nodes before and after"])
p("C19","A pairing is always a set of disjoint pairs in which the latest pair wins",
 "After any sequence of pairing two different nodes, the pairing holds exactly the pairs that no later call displaced: pairing two nodes joins them and frees any previous mate of either. The mate relation is mutual (asking for the mate of a node in no pair panics), node count, membership and edges agree with it (each pair listed once, lower id first), and two pairings are equal exactly when they hold the same pairs.",
 ["histories"],"all sequences of pair operations over any ids",
 "The tests use at most three pair calls.",
 [PA],[("insert releases the displaced mate",PA+" insert")],["order, has_node, edges, mate, == after every operation"],[("pairs","node -> mate, both directions",PA)])
p("C20","Augmenting pairs a path's nodes two by two and rejects odd paths",
 "Augmenting a pairing with a path of an even number of different nodes pairs the first with the second, the third with the fourth and so on, frees mates displaced by that, and leaves all other pairs alone; along an augmenting path this matches every node of the path and adds one pair. A path with an odd number of nodes is rejected by a panic before anything changes.",
 ["histories","inputs"],"all pairings, all paths",
 "Three paths of four or five nodes are tested.",
 [PA],[("pairwise re-pairing",PA+" augment")],["all views of the pairing before and after"],[("pairs","node -> mate, both directions",PA)])
p("C21","Results depend only on the graph interface, not on ids or implementation",
 "Traversals, components and matchings work on every conforming implementation of the graph interface, and depend only on what it reports: renaming the node ids (to any ids, including the smallest and largest) while keeping the node and neighbor orders renames the traversal steps and components accordingly and changes neither the validity nor the maximum size of matchings.",
 ["inputs","programs"],"all graphs, all injective renamings, all conforming implementations",
 "Every test uses the bundled implementation with small ids.",
 [GR,DF,BF,CO,GM,MM,BL],[("algorithms are generic over the interface",GR),("fresh id for a contracted cycle",MM+" process_blossom")],["steps, components and matchings over different implementations; the calls the algorithms make on the graph"])
p("C22","Queries and algorithms are pure: no hidden state, no interference",
 "Results depend only on the current content of the arguments: repeating any query, traversal or component enumeration, in any order, interleaved with work on other graphs, after further insertions, or concurrently from several threads sharing the graph, gives what a fresh computation on the same content gives, and matchings found are always valid for the same content and, for maximum matching, of the same size. Nothing but insertion changes a graph.",
 ["histories","schedules"],"all interleavings of operations on several graphs, all thread schedules of read-only use",
 "Each test computes one thing once on one graph in one thread.",
 [DG,DF,BF,CO,GM,MM],[("no interior mutability, no statics","src/")],["results of repeated, interleaved and concurrent calls; data-race reports"])
p("C23","Every operation on valid input returns normally with bounded resources",
 "On any valid graph, root and starting matching every operation returns normally: no panic, abort or endless loop, and traversals do no more than a bounded amount of graph queries per node and edge, and maximum matching a polynomial amount. Stack use of traversals, components and greedy matching does not grow with the graph, nor does that of maximum matching with the number of pairs.",
 ["inputs"],"all valid inputs, including large, deep, dense and disconnected graphs and extreme ids",
 "The largest tested graph has 60 nodes; nothing observes work done or stack used.",
 [DG,DF,BF,CO,GM,MM,BL,FO,MK,PA],[("iterative traversals",DF+", "+BF),("loop per augmentation",MM+" maximum_matching")],["panics, signals, counted graph queries, counted executed code regions, live memory, completion on small stacks"])
p("C24","No operation has undefined behaviour, and all memory is released",
 "No sequence of operations on graphs, traversals, components and pairings, including refused insertions and abandoned iterators, performs an invalid memory access, reads uninitialised memory, or races. Once the values involved are dropped, all memory allocated on their behalf has been released.",
 ["histories","schedules","inputs"],"all operation histories, including partial consumption and drops at any point",
 "The tests run without any sanitizer and never look at memory.",
 [DG,DF,BF,CO,GM,MM,BL,FO,MK,PA],[("safe Rust throughout","src/")],["Miri, AddressSanitizer, LeakSanitizer and ThreadSanitizer reports; live-byte balance of a counting allocator"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
if __name__=='__main__':
    try:
        import jsonschema
        s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80,(x['id'],len(x['title']))
        print("ok",len(P))
    except ImportError: print("written",len(P))
