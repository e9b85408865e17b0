"""What counts as a case of each property, what the verdict rests on, and the least the monitors must see."""
GRAPHS = ("all labelled graphs of few nodes first, then random graphs of 23 families (among them ear decompositions, cactuses, nested and long odd cycles, hubs), then large ones, then bred ones (choices of the generator varied and kept by what they make the library execute); "
          "nodes named by one of 14 schemes (dense, nearly dense, sparse, 64-bit, alike in the lower bits, top of the range...), built through one of the routes add_node/add_edge, adjacency list, edge list, one of these and then insertions, or a foreign implementation, in random, sorted, reversed or nearly sorted order")
TRUST = ["The reference models and checkers in /verif/harness/src (model.rs, oracle.rs) are right; they are independent of the library and cross-checked at run time where stated.",
         "Held on the executions observed; inputs outside the generated families and sizes are not covered."]
MODEL = "The expected state is kept by an executable model of plain ordered lists."
BRED = " Besides, 8 runs of breeding vary cases of this kind, guided by the library's code regions."
def r(rule, need=None, assume=()): return dict(rule=rule + ('' if 'bred ones' in rule else BRED), need=need or {}, assume=list(assume) + TRUST)
HIST = "Histories of insertions, valid and refused, from empty and non-empty starting graphs (one in fifty has 200 to 1500 operations); and graphs: " + GRAPHS + ". "
TR = "Traces from several roots (all roots of small graphs) of graphs: " + GRAPHS + ". Non-trivial: at least one step. Distinct by graph, orders, names and root."
MM = "Matchings from an empty and further starting matchings (partial, maximal, greedy, maximum, stirred along alternating paths) of graphs: " + GRAPHS + ". Non-trivial: the graph has an edge. Distinct by graph, orders, names and start."
CERT = "Optimum by an independent implementation of Edmonds' algorithm whose result is certified by a Tutte-Berge barrier in every case (no certificate: the check fails), and by dynamic programming up to 10 nodes."
RULES = {
 'C01': r(HIST + "All queries are compared with the model after every operation (long histories: every 37th). Non-trivial: has an edge and, for histories, a refused operation.", dict(observations=100000, refused_operations=1000), [MODEL]),
 'C02': r(HIST + "Full snapshots before and after every operation. Non-trivial: some operation was refused and the final graph has an edge.", dict(refusals_checked=1000, operations=10000), [MODEL]),
 'C03': r(HIST + "Exact sequences of nodes, edges and neighbors. Non-trivial as in C01.", dict(observations=10000), [MODEL]),
 'C04': r(HIST + "Lookups of unknown ids near and far from the known ones, and of all known ids. Non-trivial as in C01.", dict(observations=50000), [MODEL]),
 'C05': r("All lists of three rows over small rows, then lists of graphs with up to three injected faults (missing node, duplicate, unmutual), and valid ones. Non-trivial: at least one entry. Distinct by list.", dict(accepted=300, refused_missing_node=100, refused_duplicate=100, refused_unmutual=100), ["Which fault is reported when several are present is left open."]),
 'C06': r("All lists of four edges over three ids, then edge lists of graphs with and without repetitions in either direction. Non-trivial: at least two edges. Distinct by list.", dict(accepted=300, refused=300), [MODEL]),
 'C07': r("All pairs of graphs over subsets of four ids, then pairs of rebuilt graphs, of minimally altered ones (same counts preferred) and of graphs alike in nodes, degrees or sums of neighbors. Non-trivial: has an edge (exhaustive pairs: any). Distinct by the two graphs.", dict(equal_pairs=1000, unequal_pairs_same_counts=1000)),
 'C08': r(TR, dict(steps_observed=50000, cut_steps_observed=5000)),
 'C09': r(TR, dict(steps_observed=50000, cut_steps_observed=5000), ["Expected steps are computed from the order rule by a reference traversal; ancestors are checked separately."]),
 'C10': r(TR, dict(steps_observed=50000, cut_steps_observed=5000)),
 'C11': r(TR, dict(steps_observed=50000, cut_steps_observed=5000), ["Expected steps are computed from the order rule by a reference traversal; distances by level-wise relaxation."]),
 'C12': r("Histories of next, nth, take, size_hint, whole consumption in 8 ways, and drops over up to four live traversals and component enumerations of one graph (sometimes one whose queries run the library themselves), against the items one at a time. Graphs: " + GRAPHS + ". Non-trivial: the graph has an edge. Distinct by graph and history.", dict(items_observed=20000, size_hints_observed=5000, consumed_whole=500, abandoned=500), ["What the items should be is left to C08-C11 and C14."]),
 'C13': r(TR, dict(table_rows_observed=50000, conversions=2000)),
 'C14': r("Components of graphs: " + GRAPHS + ", partly with edges removed. Each component is compared through all queries. Non-trivial: has an edge. Distinct by graph, orders, names.", dict(components_observed=5000, singletons_observed=1000), ["Expected parts by union-find."]),
 'C15': r("Greedy matchings of graphs: " + GRAPHS + ". Non-trivial: has an edge.", dict(greedy_pairs_observed=10000), [CERT]),
 'C16': r(MM, dict(pairs_observed=10000, augmentations_observed=2000, oracle_blossoms=500)),
 'C17': r(MM, dict(pairs_observed=10000, augmentations_observed=2000, runs_with_one_augmentation=500, certificates_with_nonempty_barrier=500, oracle_blossoms=500), [CERT]),
 'C18': r(MM, dict(pairs_observed=10000, already_maximum=500), [CERT]),
 'C19': r("All sequences of four pair calls over four ids, then random sequences of up to 60 (one in hundred: 3000) calls, observed after every call (long ones: every 97th); mates of nodes in no pair are asked for and must be refused, and pairings of the same nodes that differ must be unequal. Non-trivial: more than one call. Distinct by sequence.", dict(displacements=5000, observations=10000, exhaustive_sequences=20736)),
 'C20': r("Random pairings, then up to four paths: arbitrary distinct nodes, or true augmenting paths of the present pairs; odd lengths must be rejected. Non-trivial: a path of two or more nodes. Distinct by calls and paths.", dict(even_paths=2000, odd_paths_rejected=1000, true_augmenting_paths=1000)),
 'C21': r("Each graph is given to the algorithms in two foreign implementations, sometimes in a third whose queries run the library themselves, and (if it has a construction route) as a DefaultGraph, under its own and under random other names; steps and components must map onto each other, matchings must stay valid and of maximum size. Graphs: " + GRAPHS + ". Non-trivial: has an edge. Distinct by graph, orders and both namings.", dict(runs_compared=10000, with_id_zero=500, with_largest_id=300), [CERT]),
 'C22': r("Histories over two to four graphs (often twins in counts or content) with insertions, replacement, traversals interrupted by other events, now and then hundreds of events or large graphs, and (every second one) threads sharing the graphs through a delaying wrapper; run in a process of their own, and every observation repeated by a fresh process on the same content. Evaluations are observations compared; distinct by content, observation and thread interleaving.", dict(observations=5000, concurrent_observations=2000, fresh_processes=5000), ["Data races are reported by ThreadSanitizer on the schedules that occurred."]),
 'C23': r("Graphs: " + GRAPHS + ", with counted queries against bounds (linear for traversals, components and greedy matching; polynomial for maximum matching) and counted code regions; large and deep graphs on stacks of 128 KB and on painted stacks (used bytes at most twice those of a graph of 8 nodes, plus 8 KB), also in an unoptimised build; graphs whose queries run the library themselves; in all cases panics, signals, 1 GB of live memory, 6e9 executed code regions, 240 s of processor time or 20 s asleep end the run as a violation. Non-trivial: has an edge.", dict(neighbors_queries_observed=100000, small_stack_runs=14, matchings_run=5000), ["The bounds are generous: 16 queries per node and edge, a fourth-degree polynomial, 60 times what the library needs."]),
 'C24': r("Random programs over the whole API (all construction routes, refused insertions, abandoned iterators, rejected paths, several live iterators, drops in any order) with the allocation balance taken around each; programs of the same kinds under AddressSanitizer with leak detection; and, of thousands more, those selected that together execute every code region, each about as often as any does, under AddressSanitizer and Miri, also by two threads at once. Non-trivial: at least one operation. Distinct by graphs, operations and items consumed.", dict(allocator_calls_observed=100000, refused_operations=5000, abandoned_iterators=1000, matchings_run=2000), ["Miri and AddressSanitizer report what happened on the executions observed."]),
}
