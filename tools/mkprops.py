"""Writes /verif/properties.jsonl (the list lives here so that it is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, state=(), obs=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=q), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(obs), hook_needed=hook)))
H, I, C, F, S, X = 'histories', 'inputs', 'configurations', 'fault_sequences', 'schedules', 'crash_points'

p('C01', 'Family algebra is exact after any history of operations',
  'After any sequence of operations on families of sets, every operation (union, intersection, difference, symmetric difference, quotient, remainder, complement, join, meet, minimal, maximal, hitting, (non-)sub/supersets, including/excluding/included, flip, size filters, add/remove/discard/pop/clear, comparisons, len, membership) returns exactly the family its mathematical definition gives for the current contents of its operands. The answer does not depend on what was computed or discarded earlier in the process, nor on whether graphs are given as edge lists (in either direction, with or without weights) or as graph objects through registered converters.',
  [H, I, F], 'all interleaved histories of constructing, combining, mutating and dropping families, over universes that keep growing, with node-table garbage collection forced at arbitrary points',
  'Tests call each operation once on fresh small families in a process whose node table never fills; wrong answers that need a prior history (memo tables, reused node slots, grown universes) are outside every sampled case.',
  ['src/pygraphillion.cc', 'src/graphillion/setset.cc', 'src/graphillion/zdd.cc', 'src/SAPPOROBDD/bddc.cc', 'src/SAPPOROBDD/ZBDD.cc', 'graphillion/setset.py', 'graphillion/setset_base.py', 'graphillion/universe.py'],
  [('operation cache keyed by operands', 'src/SAPPOROBDD/bddc.cc apply/andfalse'), ('memo tables of minimal/maximal/non_subsets/non_supersets', 'src/graphillion/zdd.cc'), ('element to variable mapping', 'src/graphillion/setset.cc, graphillion/universe.py')],
  [('node table and operation cache', 'hash-consed nodes and memoised results shared by all families', 'src/SAPPOROBDD/bddc.cc')],
  ['public setset/GraphSet/DiGraphSet/VertexSetSet/EdgeVertexSetSet results'])

p('C02', 'Operations never alter other live families',
  'A family changes only through its own mutating methods: no operation, successful or failed, changes the contents of any other live family, copy, iterator snapshot or operand, and a copy and its original evolve independently afterwards. Non-mutating methods leave their receiver unchanged.',
  [H, F], 'all histories of copies, mutations, augmented operators, drops and failures over many live aliases of shared nodes',
  'Tests inspect the object just operated on, not every other live object after every step; aliasing needs a history that builds shared structure and then mutates one side.',
  ['src/pygraphillion.cc', 'graphillion/setset_base.py', 'graphillion/graphset.py', 'src/graphillion/setset.h'],
  [('reference-counted immutable nodes', 'src/SAPPOROBDD/ZBDD.h'), ('update methods assign a new root', 'src/pygraphillion.cc UPDATE_FOR_MULTI')],
  (), ['contents of every live family after every operation'])

p('C03', 'Memory reclamation and table growth are invisible',
  'Whenever internal memory is reclaimed or the internal tables grow, at any allocation point inside any operation, every live family, iterator and in-flight computation keeps its exact contents and every later result is the one an unlimited memory would give.',
  [H, F, S], 'all histories crossed with every choice of when the node table is refused more memory (forcing collection) or grows, at every initial table size',
  'The shipped table starts large enough that no test ever triggers a collection or a growth; the code that runs then is never executed.',
  ['src/SAPPOROBDD/bddc.cc', 'src/SAPPOROBDD/ZBDD.cc', 'src/SAPPOROBDD/BDD.cc', 'src/graphillion/zdd.cc', 'src/graphillion/reconf.cc', 'src/subsetting/eval/ToZBDD.hpp'],
  [('mark by reference count, sweep, cache cleaning', 'src/SAPPOROBDD/bddc.cc bddgc'), ('table growth and rehash', 'src/SAPPOROBDD/bddc.cc node_enlarge, var_enlarge'), ('temporaries hold references', 'src/SAPPOROBDD/ZBDD.h')],
  [('node table', 'nodes, reference counts, free list', 'src/SAPPOROBDD/bddc.cc')], ['family contents, iterator output'])

p('C04', 'Running out of memory is never silently wrong',
  'When memory cannot be obtained at any point inside an operation, the operation either still returns the exact result or fails loudly (an exception, or process termination with a diagnostic); it never returns a wrong family, number or iterator. If the process survives, all other families keep their contents and later operations are exact.',
  [F, H], 'every position of a failed allocation (one-off, repeated, or permanent node limit) inside every operation and constructor',
  'No test makes an allocation fail.',
  ['src/SAPPOROBDD/bddc.cc', 'src/graphillion/zdd.cc', 'src/pygraphillion.cc', 'src/subsetting/eval/ToZBDD.hpp'],
  [('null result on table overflow', 'src/SAPPOROBDD/bddc.cc getnode'), ('exceptions translated to MemoryError', 'src/pygraphillion.cc')],
  (), ['return values and exceptions of every public call'])

p('C05', 'A successful dump is complete and loads back equal',
  'If dump returns without raising, the destination holds a complete serialisation, and loading it — in this process, later in its history, or in a fresh process given the same universe — yields an equal family; dumps/loads round-trips likewise. Short and interrupted writes are completed; a write that fails for good (disk full, I/O error) is reported to the caller, and the caller’s file object stays usable.',
  [F, H, X], 'every schedule of short writes, EINTR/EIO/ENOSPC at any byte, every family size across stdio buffer boundaries, and every history between dump and load',
  'Tests dump a tiny family to a healthy temporary file and read it back at once in the same process.',
  ['src/pygraphillion.cc', 'src/graphillion/setset.cc', 'src/graphillion/zdd.cc', 'src/SAPPOROBDD/ZBDD.cc', 'graphillion/setset.py', 'graphillion/graphset.py', 'graphillion/vertex_setset.py'],
  [('dup + fdopen + fprintf + fclose', 'src/pygraphillion.cc setset_dump'), ('node renumbering', 'src/graphillion/zdd.cc dump/load')],
  (), ['bytes on the simulated device, exception or return of dump, equality after load'])

p('C06', 'Damaged dumps raise or load equal, and never break the process',
  'Loading a dump that was cut short anywhere, that lost its beginning (unless what is left is itself a complete dump), or whose reading fails with an I/O error part-way, either raises an exception or yields the family that was dumped — never a different family. Loading arbitrarily corrupted bytes never crashes, hangs or exhausts the process and leaves every live family unchanged.',
  [F, X, I], 'every truncation point, every read-error position, and sampled byte flips, deletions, duplications and token rewrites of dumps of arbitrary families',
  'Tests load only intact dumps.',
  ['src/pygraphillion.cc', 'src/graphillion/setset.cc', 'src/graphillion/zdd.cc', 'graphillion/setset_base.py'],
  [('dump parser', 'src/graphillion/zdd.cc load'), ('load/loads entry points', 'src/pygraphillion.cc setset_load, setset_loads')],
  (), ['exception or equality after load, liveness of the interpreter'])

p('C07', 'Iteration yields each member exactly once, from a snapshot',
  'Any iterator over a family (plain, random, weighted) yields every member of the family as it was when the iterator was created exactly once and nothing else, no matter how the family is mutated, dropped, or other iterators are advanced in between and no matter when memory is reclaimed. Order guarantees and early abandonment do not affect the other iterators.',
  [H, S, F], 'all interleavings of several iterators over the same and different families with mutations, drops, universe growth and memory reclamation',
  'Tests exhaust one iterator at a time on an unchanging family.',
  ['src/pygraphillion.cc', 'src/graphillion/setset.cc', 'src/graphillion/setset.h', 'graphillion/setset_base.py'],
  [('iterator owns a copy of the remaining family', 'src/graphillion/setset.h setset::iterator')],
  (), ['sequence of yielded sets'])

p('C08', 'Weighted and random queries are exact',
  'max_iter/min_iter yield all members in non-increasing/non-decreasing total weight, by given weights or those of the universe, with every tie included; cost_le/cost_ge/cost_eq keep exactly the members within the bound for the given integer costs; probability equals the sum over members of the product of element probabilities; choice returns a member, and rand_iter draws uniformly, so every member can come first.',
  [H, I, F], 'all families, weights (negative, zero, missing, large), bounds and preceding histories, including memory reclamation and growing universes between and during queries',
  'Tests use one weight map on one small family; wrong cuts, stale cost tables or overflow at other weights and histories are unsampled.',
  ['src/SAPPOROBDD/BDDCT.cc', 'src/graphillion/setset.cc', 'src/graphillion/zdd.cc', 'src/pygraphillion.cc', 'graphillion/setset_base.py', 'graphillion/setset.py', 'graphillion/graphset.py'],
  [('cost table', 'src/SAPPOROBDD/BDDCT.cc'), ('weighted iterator', 'src/graphillion/setset.cc weighted_iterator'), ('algo_b, algo_c, probability', 'src/graphillion/zdd.cc')],
  (), ['yield order, filtered families, floats'])

p('C09', 'Undirected subgraph families are exact',
  'For every undirected graph, traversal order and admissible parameters, GraphSet.graphs and its shorthands (connected components, trees, forests, cycles, paths, matchings, k-/b-matchings, k-/f-factors, cliques, bicliques, Steiner subgraphs/trees/cycles/paths, linear constraints, search within a given family) return exactly the edge sets that satisfy the stated definition, whatever the process did before and however worker threads are scheduled.',
  [I, S, H, C], 'all small graphs and parameter combinations crossed with thread counts, schedules, traversal orders, earlier computations and memory reclamation',
  'Tests check a few hand-computed cases on a 2x2/3x3 grid with the default scheduling.',
  ['src/graphillion/graphset.cc', 'src/subsetting/spec/FrontierBasedSearch.hpp', 'src/subsetting/spec/DegreeConstraint.hpp', 'src/subsetting/spec/LinearConstraints.hpp', 'src/subsetting/spec/GraphillionZdd.hpp', 'src/subsetting/DdStructure.hpp', 'graphillion/graphset.py'],
  [('frontier-based search', 'src/subsetting/spec/FrontierBasedSearch.hpp'), ('parameter translation', 'src/graphillion/graphset.cc SearchGraphs, graphillion/graphset.py graphs')],
  (), ['resulting family'])

p('C10', 'Directed subgraph families are exact',
  'For every directed graph (including antiparallel edges) and admissible parameters, DiGraphSet.graphs, directed_cycles, directed_hamiltonian_cycles, directed_st_paths, rooted_trees and rooted_forests return exactly the arc sets that satisfy the stated definition, whatever the process did before and however worker threads are scheduled.',
  [I, S, H, C], 'all small digraphs and parameters crossed with traversal orders, schedules, histories and memory reclamation',
  'Tests check a handful of digraphs with one order and the default scheduling.',
  ['graphillion/digraphset.py', 'src/graphillion/digraphs', 'src/pygraphillion.cc', 'src/graphillion/graphset.cc'],
  [('directed frontier specs', 'src/graphillion/digraphs/*.hpp'), ('parameter translation', 'graphillion/digraphset.py')],
  (), ['resulting family'])

p('C11', 'Structural graph classes are exact',
  'Regular, bipartite, regular-bipartite, degree-distribution, letter-P, forbidden-induced-subgraph and chordal families and all GraphClass families (claw-, diamond-, gem-, odd-hole-free, cographs, split, block, threshold, … graphs) contain exactly the subgraphs of the universe satisfying the class definition, whatever the process did before.',
  [I, H, S], 'all small graphs and class parameters crossed with histories, schedules and memory reclamation',
  'Tests check each class on one or two small graphs.',
  ['graphillion/graphset.py', 'graphillion/graphclass.py', 'src/graphillion/regular', 'src/graphillion/degree_distribution', 'src/graphillion/forbidden_induced', 'src/graphillion/chordal', 'src/graphillion/odd_edges_subgraphs'],
  [('per-class frontier specs', 'src/graphillion/{regular,degree_distribution,forbidden_induced,chordal,odd_edges_subgraphs}')],
  (), ['resulting family'])

p('C12', 'Partitions, induced subgraphs and reliability are exact',
  'Partitions, balanced partitions, (weighted) induced subgraph families contain exactly the edge sets their definitions describe for the given component counts, roots, weights and bounds, and reliability equals the exact probability that the required vertices stay connected.',
  [I, H, S], 'all small graphs, weights, bounds, roots, terminal sets and probabilities crossed with histories and schedules',
  'Tests check one parameter setting on one grid.',
  ['graphillion/graphset.py', 'src/graphillion/partition', 'src/graphillion/induced_graphs', 'src/graphillion/reliability', 'src/graphillion/convert_weight_list.h'],
  [('component weight/ratio/range specs', 'src/graphillion/partition/*.h'), ('induced specs', 'src/graphillion/induced_graphs/*.h'), ('reliability over a family', 'src/graphillion/reliability')],
  (), ['resulting family or number'])

p('C13', 'Results are independent of worker threads and their schedule',
  'Every operation that uses worker threads returns the same family for every thread count, processor count, team size actually granted and interleaving of the workers, and always terminates without deadlock.',
  [S, C], 'all interleavings of worker threads at the granularity of memory accesses, every thread count 1..8, teams granted smaller than requested',
  'Tests observe whichever interleaving the operating system happened to choose on tiny diagrams that a single worker finishes.',
  ['src/subsetting/dd/DdBuilder.hpp', 'src/subsetting/dd/DdReducer.hpp', 'src/subsetting/DdStructure.hpp', 'src/subsetting/dd/NodeTable.hpp', 'src/graphillion/graphset.cc'],
  [('per-thread sweeps and level barriers', 'src/subsetting/dd/DdBuilder.hpp'), ('multi-processor reduction', 'src/subsetting/dd/DdReducer.hpp'), ('thread selection', 'src/subsetting/DdStructure.hpp')],
  (), ['resulting family, termination'])

p('C14', 'Concurrent callers see atomic operations',
  'When several Python threads use families concurrently, including dump and load, every operation takes effect atomically — switching universes and removing a vertex from a GraphSet, which consist of several steps, excepted; an operation that depends on the universe may see it as of any moment during the call: results and dumped bytes are those of some sequential order, untouched families keep their contents, and the process neither crashes nor deadlocks. A dump or load blocked on a slow pipe lets other threads proceed.',
  [S, F], 'all hand-overs between caller threads at every point where the interpreter lock is released or may be switched, with pipes of arbitrary capacity and stalled readers',
  'Tests are single-threaded.',
  ['src/pygraphillion.cc', 'src/graphillion/setset.cc', 'src/graphillion/zdd.cc'],
  [('interpreter lock released around file I/O', 'src/pygraphillion.cc setset_dump, setset_load, setset_enum')],
  (), ['per-thread results, dumped bytes, liveness'])

p('C15', 'Growing or switching the universe never changes existing families',
  'Adding elements to the universe — explicitly or by first use in any call — leaves every existing family, copy and iterator with the same members, and complement-like operations thereafter range over the enlarged universe. A universe is what was set: its elements, order, weights and names, whichever way it was given, and a refused one changes nothing. Switching to another universe (or a vertex/edge universe) and computing there gives the same results as a fresh process, and families dumped earlier load back equal when their universe is restored.',
  [H], 'all histories that interleave element introduction, universe switches and family operations',
  'Tests set one universe at the start of each case, in a process in which element order follows test order.',
  ['graphillion/universe.py', 'graphillion/setset_base.py', 'src/graphillion/setset.cc', 'src/graphillion/zdd.cc', 'src/pygraphillion.cc'],
  [('new variables are created at the first level', 'src/graphillion/zdd.cc new_elems'), ('object/number maps', 'graphillion/universe.py')],
  [('element numbering', 'object to variable map of each universe', 'graphillion/universe.py')], ['family contents before and after'])

p('C16', 'Reconfiguration neighbours are exact',
  'remove_some_*/add_some_*/remove_add_some_* return exactly the sets obtained from members by removing one, adding one, or swapping one element (restricted to the given element set where accepted), for every family and after every history of universe growth, memory reclamation and earlier reconfiguration calls.',
  [H, I, F], 'all families and element restrictions crossed with histories of growth, reclamation and repeated calls',
  'Tests call each once on a fresh family.',
  ['src/graphillion/reconf.cc', 'src/pygraphillion.cc', 'graphillion/setset_base.py', 'graphillion/graphset.py'],
  [('recursion memoised per node and level', 'src/graphillion/reconf.cc')], (), ['resulting family'])

p('C17', 'A failed call changes nothing and the library stays usable',
  'A call that raises — wrong types, unknown elements, bad parameters, removing an absent member, failing user iterables or callbacks half-way — leaves every existing family unchanged, does not crash the interpreter, and every later call behaves as if the failed call had not been made (except that a failed setset call may already have registered elements it mentions, which a setset does when an element is first mentioned).',
  [F, H], 'every public call crossed with every kind of bad argument and every position at which a user-supplied iterable, mapping or hash fails, anywhere in a history',
  'Tests check that a few bad calls raise, on throw-away objects.',
  ['src/pygraphillion.cc', 'graphillion/setset_base.py', 'graphillion/universe.py', 'graphillion/graphset.py', 'graphillion/setset.py'],
  [('argument parsing and exception translation', 'src/pygraphillion.cc'), ('element conversion', 'graphillion/universe.py')], (), ['exception type, later contents'])

p('C18', 'Vertex, edge and mixed families convert and filter consistently',
  'Vertex-set and edge-vertex-set families (independent sets, dominating sets, vertex covers, cliques, conversions from edge families to vertex or edge-vertex families, universe-consistent sets, explicitly set vertex universes) contain exactly the vertex or edge-vertex sets that correspond by definition to the graph and the edge family, in every history and under every element order. Edges with unknown ends and members that hold an edge without its ends are refused.',
  [I, H, C], 'all small graphs with arbitrary vertex labels and orders crossed with histories and memory reclamation',
  'Tests check one grid with integer labels.',
  ['graphillion/vertex_setset.py', 'graphillion/edgevertex_setset.py', 'src/graphillion/variable_converter', 'graphillion/graphset.py', 'graphillion/universe.py'],
  [('variable conversion', 'src/graphillion/variable_converter'), ('filters built from family algebra', 'graphillion/vertex_setset.py')], (), ['resulting family'])

p('C19', 'Dropped families give all their memory back',
  'Once every family, iterator and argument created by a history has been dropped, internal node memory and Python object references return to the level before it, also when calls in the history failed for other reasons than lack of memory; a bounded set of live families never needs an unbounded node table.',
  [H, F], 'all histories including failing calls and abandoned iterators, measured in live internal nodes and object references after dropping everything',
  'Tests never measure resources and exit after a few calls.',
  ['src/pygraphillion.cc', 'src/SAPPOROBDD/bddc.cc', 'src/SAPPOROBDD/ZBDD.h', 'src/SAPPOROBDD/BDDCT.cc', 'src/graphillion/zdd.cc', 'src/graphillion/reconf.cc'],
  [('reference counting of nodes', 'src/SAPPOROBDD/bddc.cc bddfree/bddgc'), ('Python object ownership', 'src/pygraphillion.cc')],
  [('live node count', 'nodes reachable from references', 'src/SAPPOROBDD/bddc.cc')], ['live nodes after collection, reference counts, open descriptors'])

p('C20', 'Results do not depend on labels, hash seeds or element order',
  'Renaming vertices, permuting the edge list, reversing undirected edge orientation, choosing another traversal order, or running under another hash seed permutes results correspondingly and never changes which subgraphs are found, how many there are, or any computed number.',
  [C, H, I], 'all relabelings (integers, strings, tuples), edge orders and orientations, traversal strategies and interpreter hash seeds, crossed with histories',
  'Tests use one labelling, one order and whichever hash seed the interpreter drew.',
  ['graphillion/universe.py', 'graphillion/graphset.py', 'graphillion/vertex_setset.py', 'graphillion/digraphset.py', 'src/graphillion/graphset.cc'],
  [('traversal and canonical edge form', 'graphillion/universe.py _traverse, graphset.py _conv_edge')], (), ['result after mapping back'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
