#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or [], hook_needed=None)))

MGR = ["include/bdd_mgr.h", "src/bdd_mgr.cpp"]
p("C01", "Boolean connectives compute the pointwise Boolean function",
  "For all BDDs of one manager, conjunction, disjunction, exclusive-or, negation, if-then-else and their operator forms return a BDD whose value under every assignment is that connective applied to the operands' values. This holds for every operand, including the constants, equal or complementary operands and operands whose supports are disjoint, overlapping or contain the manager's first or last variable.",
  ["inputs", "histories"], "all pairs (triples for if-then-else) of Boolean functions, all placements of their variables among the manager's variables, all orders in which the connectives are applied",
  "The tests evaluate a dozen hand-picked formulas; exclusive-or is never tested and if-then-else only on three projections, so operand shapes, shortcuts for trivial cases and top-variable selection are barely sampled.",
  MGR, [("recursive apply with shortcuts, top-variable choice and memo", "src/bdd_mgr.cpp: and_rec, or_rec, xor_rec, ite_rec, negate"), ("operators", "include/bdd_mgr.h: operator&, operator||, operator^, operator!")],
  observe=["node_ref::evaluate", "node_ref::operator=="])
p("C02", "Canonical form: equal references exactly for equal functions",
  "Two BDD references of one manager compare equal if and only if they denote the same Boolean function, no matter by which operations, in which order or how long ago they were built. Every BDD is ordered (variables strictly increase from the root to the sinks) and reduced (no node with equal children, no two distinct nodes with the same variable and children), so its node count is the minimum for its function.",
  ["histories", "inputs"], "all sequences of construction operations up to a depth, all functions over a small set of variables, all ways of building each",
  "Tests compare a handful of pairs built in two ways; canonicity must hold between every two results ever produced, whatever was computed in between.",
  ["src/bdd_mgr.cpp", "src/bdd_var.cpp", "include/bdd_var.h", "src/bdd_node.cpp"], [("unique table lookup before node creation, equal-children rule", "src/bdd_var.cpp: unique_find, unique_table_lookup"), ("top variable selection", "src/bdd_mgr.cpp")],
  observe=["node_ref::operator==", "node_ref::low/high/variable", "node_ref::nr_nodes"])
p("C03", "Garbage collection never disturbs a BDD that is still referenced",
  "After garbage collection at any point of any history, every BDD the user still holds a reference to denotes the same function, and it is still the canonical representative: recomputing the function by any operation returns an equal reference. All operations performed after a collection return correct results, as if it had never happened, however the removed nodes' storage is reused.",
  ["histories"], "all interleavings of building, copying, dropping and collecting up to a depth, all subsets of held BDDs, all placements of the nodes in the hash tables",
  "Garbage collection is reached only by one test that is excluded because it fails at random; survivors in collision clusters, recycled nodes and stale cached results need multi-step histories.",
  ["src/bdd_var.cpp", "src/bdd_mgr.cpp", "src/bdd_memo_cache.cpp", "src/bdd_node.cpp"], [("dead node removal with re-insertion of survivors", "src/bdd_var.cpp: remove_dead_nodes"), ("purge of cached results", "src/bdd_memo_cache.cpp: purge, can_be_purged"), ("reference counting handles", "src/bdd_node.cpp: node_ref")],
  state=[("xref", "number of parents and handles of a node", "include/bdd_node.h"), ("memos", "cached results that may refer to removed nodes", "include/bdd_memo_cache.h")],
  observe=["node_ref::evaluate", "node_ref::operator==", "bdd_mgr::collect_garbage"])
p("C04", "Garbage collection reclaims everything unreferenced; exact node count",
  "Right after a garbage collection the manager's reported node count is two (the sinks) plus the number of distinct nodes reachable from the references the user still holds, so when all references are dropped it returns to two. Copying, moving, assigning (also to itself), swapping and destroying references and storing them in containers never changes which nodes are kept, between collections the count never decreases, and a manager can be destroyed cleanly after any history once the references are gone.",
  ["histories"], "all histories of operations, handle manipulations and collections up to a depth, all orders of dropping references, destruction after every history",
  "The only check of the count after a collection is an inequality in an excluded test; leaks and premature frees depend on the history of handles and on collision clusters.",
  ["src/bdd_var.cpp", "src/bdd_node.cpp", "src/bdd_node_cache.cpp", "src/bdd_mgr.cpp", "include/bdd_node.h"], [("handle copy/move/assign/destroy", "src/bdd_node.cpp: node_ref"), ("freeing a node releases its children", "src/bdd_node_cache.cpp: free_node"), ("top-down sweep", "src/bdd_mgr.cpp: collect_garbage")],
  observe=["bdd_mgr::nr_nodes", "bdd_mgr::~bdd_mgr"])
p("C05", "Hash keys and table layout never influence results",
  "For every assignment of hash keys to nodes, all operations and garbage collections of a manager give the same functions, the same equalities between references and the same node counts. In particular nodes whose keys collide, whose collision runs wrap around the end of the table, or which are moved when a table grows or shrinks are found again and never duplicated or lost.",
  ["inputs", "histories"], "all assignments of keys from a small alphabet of colliding and wrapping keys to the nodes of a history, all insertion orders, table growth, removal and shrinking in between",
  "Keys are drawn from the system's random device, so each test run samples one of astronomically many layouts; the tests have no control over collisions.",
  ["src/bdd_var.cpp", "include/bdd_var.h", "src/bdd_node.cpp", "src/bdd_memo_cache.cpp"], [("open addressing with linear probing", "src/bdd_var.cpp: unique_table_lookup, next_free_slot, store_node"), ("rehash on growth and on removal", "src/bdd_var.cpp: double_cache, remove_dead_nodes"), ("random keys", "src/bdd_node.cpp: init_new_node")],
  state=[("base/mask/free", "open-addressing table of one variable", "include/bdd_var.h")],
  observe=["node_ref::operator==", "bdd_mgr::nr_nodes", "node_ref::evaluate"])
p("C06", "Cached results are transparent",
  "Whatever operations were performed before, on whatever operands and in whatever number, the result of an operation is the one a fresh manager would compute; results of different operations on the same operands, of the same operation with operands exchanged, and of three-operand operations sharing two operands are never confused. This includes histories long enough to grow and overwrite the result cache and histories with garbage collections that recycle operands or results.",
  ["histories"], "all sequences of operations over a small set of operands up to a depth, with and without collections, and long histories crossing every growth step of the cache up to a bound",
  "Tests use each operand pair with one operation only, so confusing entries of different operations cannot show; growth and overwriting are not observed.",
  ["src/bdd_memo_cache.cpp", "include/bdd_memo_cache.h", "src/bdd_mgr.cpp"], [("operation tags in the key", "include/bdd_memo_cache.h: and_symb, or_symb, xor_symb"), ("lookup comparing the full key", "src/bdd_memo_cache.cpp: cache_lookup"), ("rehash on growth, purge", "src/bdd_memo_cache.cpp: double_cache, purge")],
  state=[("memos", "direct-mapped cache", "include/bdd_memo_cache.h")],
  observe=["node_ref::operator==", "node_ref::evaluate"])
p("C07", "Variables can be added at any time without affecting existing BDDs",
  "Variables are numbered consecutively from zero in the order they are added, and asking for the projection of a variable that does not exist yet adds all variables up to it. Adding any number of variables at any point of a history leaves every existing BDD, its identity and all later results unchanged, and the projection (negated projection) of each variable is true exactly when that variable is true (false).",
  ["histories", "inputs"], "all interleavings of adding variables with building nodes (also enough to grow the tables) and collecting, variable counts up to a bound",
  "The tests add variables only before anything is built and check only the counter; the per-variable tables are relocated when the variable list grows.",
  ["src/bdd_mgr.cpp", "src/bdd_var.cpp"], [("relocation of per-variable tables", "src/bdd_var.cpp: var_struct(var_struct&&)"), ("on-demand creation", "src/bdd_mgr.cpp: add_variable, projection, neg_projection")],
  observe=["bdd_mgr::nr_variables", "bdd_mgr::projection", "node_ref::evaluate"])
p("C08", "Counting constraints mean what their names say",
  "For every non-empty list of BDDs and every bound b (including zero, the list's length and more), all-false, at-least-one, at-most-one, simplex (exactly one), at-least-b, at-most-b and exactly-b are true under an assignment exactly when the number of list members true under it satisfies the respective condition. The list may be in any variable order and may contain any BDDs of the manager.",
  ["inputs"], "all lengths up to a bound, all bounds up to beyond the length, all assignments, all orders and selections of variables, lists of arbitrary functions including repeated members, complements and constants",
  "Tests cover 2 to 5 consecutive variables with b = 2 only, never b greater than the length, other orders or members that are not projections.",
  ["include/bdd_mgr.h"], [("divide-and-conquer construction", "include/bdd_mgr.h: all_false, simplex, at_most_one, at_least_one, at_least, at_most, cardinality")],
  observe=["node_ref::evaluate"])
p("C09", "Conjunction, disjunction and exclusive-or of many operands",
  "Combining two or more BDDs given as a range or as separate arguments yields the same BDD as combining them pairwise in any order and grouping, for conjunction, disjunction and exclusive-or. The inputs are not modified.",
  ["inputs"], "all lists over a small set of functions up to a length, and all lengths up to a larger bound",
  "Tests fold a few fixed lists for conjunction and disjunction; exclusive-or folds are never run.",
  ["include/bdd_mgr.h"], [("balanced splitting of ranges, variadic recursion", "include/bdd_mgr.h: and_rec, or_rec, xor_rec templates")],
  observe=["node_ref::operator=="])
p("C10", "Size-limited conjunction of references",
  "Size-limited conjunction returns the conjunction together with its exact number of nodes (sinks not counted) when that number is below the limit, and otherwise returns a null reference together with the largest representable number. It never returns a wrong or partial BDD, a failed attempt does not influence later results, and this holds for constants, equal operands and results that were computed before.",
  ["inputs", "histories"], "all pairs of functions over a small set of variables, all limits around the true size, before and after the same conjunction was computed without limit",
  "Tests use one pair with two limits; node counts depend on sharing and on which sub-results are already cached.",
  MGR, [("early abort on sub-results over the limit", "src/bdd_mgr.cpp: and_rec_limited")],
  observe=["bdd_mgr::and_rec_limited"])
p("C11", "Structural queries and traversals are exact and leave no trace",
  "For every BDD including the constants, the node count is the number of distinct non-sink nodes, the variable list is the sorted duplicate-free list of variables the function depends on, post-order and breadth-first traversals list every non-sink node exactly once with children before parents respectively in order of increasing distance from the root, and evaluation follows the assignment. These queries, and printing, change nothing: they can be repeated and mixed in any order on the same or overlapping BDDs with the same answers.",
  ["inputs", "histories"], "all functions over a small number of variables, all sequences of two or three queries on overlapping BDDs, larger structured BDDs",
  "Traversals use marks stored in shared nodes; tests run each query once on one BDD, so a mark left behind or a node visited twice in an overlapping BDD is not observed.",
  ["src/bdd_node.cpp", "include/bdd_node.h"], [("mark bits set during a traversal and cleared afterwards", "src/bdd_node.cpp: nr_nodes, nodes_postorder, nodes_bfs, variables, unmark"), ("evaluation", "include/bdd_node.h: evaluate")],
  state=[("marked_", "visited flag shared by all traversals", "include/bdd_node.h")],
  observe=["node_ref::nr_nodes", "node_ref::variables", "node_ref::nodes_postorder", "node_ref::nodes_bfs", "node_ref::evaluate"])
p("C12", "Rebasing copies a function to other variables",
  "For every BDD and every mapping of its variables that preserves their order, given as an associative container or as a sequence indexed by variable, rebasing yields the canonical BDD of the same function of the mapped variables, leaves the original unchanged, and adds the target variables the manager does not have yet. Rebasing a constant yields that constant, and mapping forth and back yields the original reference.",
  ["inputs"], "all functions over a few variables, all order-preserving maps into a larger set of variables, both ways of giving the map, targets within and beyond the existing variables",
  "One test rebases one BDD by one map.",
  ["include/bdd_mgr.h"], [("bottom-up copy through the unique tables", "include/bdd_mgr.h: rebase")],
  observe=["bdd_mgr::rebase", "bdd_mgr::nr_variables"])
COL = ["include/bdd_collection.h", "src/bdd_collection.cpp"]
p("C13", "Import into and export from a collection preserve the BDD",
  "Adding any BDD, constants included, to a collection gives it the next index and stores it with the same function and one stored node per BDD node plus the two sinks; exporting it again into the same manager returns the identical reference, and exporting or adding it into another manager returns that manager's canonical BDD of the same function. This holds for every number of BDDs already stored, and BDDs stored earlier are unaffected.",
  ["inputs", "histories"], "all functions over a few variables, all pairs and triples of them stored one after the other, one or two managers, also large BDDs and collections",
  "Tests import and export one simplex; most of their evaluation loops visit only the all-zero assignment.",
  COL + ["src/bdd_mgr.cpp"], [("copy in reverse post-order with index hash", "src/bdd_collection.cpp: add_bdd"), ("bottom-up re-creation", "src/bdd_collection.cpp: export_bdd; src/bdd_mgr.cpp: add_bdd")],
  observe=["bdd_collection::add_bdd", "bdd_collection::export_bdd", "bdd_mgr::add_bdd", "bdd_collection::evaluate", "bdd_collection::nr_bdd_nodes"])
p("C14", "Conjunction inside a collection",
  "The conjunction of any two or more stored BDDs (up to 49 at once, repetitions allowed) appends exactly one BDD denoting the conjunction of the operands in reduced ordered form and returns its index, also when the result is constant; the conjunction of a single BDD is that BDD. The operands and all other stored BDDs are unaffected and it agrees with the manager's conjunction.",
  ["inputs", "histories"], "all pairs and triples of functions over a few variables, all operand counts from 1 to 49, chains of conjunctions of results",
  "Tests conjoin three fixed pairs or triples and check the two-operand results at the all-zero assignment; contradictory operands are never tried.",
  COL, [("melding with node and reduction hashes on a stack", "src/bdd_collection.cpp: bdd_and, bdd_and_impl"), ("dispatch on the operand count", "include/bdd_collection.h: bdd_and")],
  state=[("stack, generated_nodes, reduction", "temporaries that must be empty between calls", "include/bdd_collection.h")],
  observe=["bdd_collection::bdd_and", "bdd_collection::evaluate", "bdd_collection::nr_bdds", "bdd_collection::export_bdd"])
p("C15", "Node limit of collection conjunction",
  "Conjunction with a node limit (at least three) succeeds exactly when the resulting BDD including its two sinks has at most that many nodes, and then gives the same result as without limit. Otherwise it returns the largest representable number and leaves the collection exactly as it was, and later calls with any limit behave as if the failed attempt had not happened.",
  ["inputs", "histories"], "all pairs and small tuples of functions over a few variables, every limit from three to beyond the result size, failures followed by further operations",
  "One test tries one pair at two limits; the abort can happen at every point of the recursion and must clean up every temporary.",
  COL, [("abort of the recursion and cleanup", "src/bdd_collection.cpp: bdd_and, bdd_and_impl")],
  observe=["bdd_collection::bdd_and", "bdd_collection::nr_bdds"])
p("C16", "Relaxing a stored BDD by literals",
  "Disjoining a stored BDD with sets of positive and negative variables appends exactly one BDD, in reduced ordered form, that is true exactly on the assignments that satisfy the original or whose decision path in the original passes a node of a positive variable that is true, or of a negative variable that is false; where all paths test the variables this is the disjunction with the literals. The result may be constant, and the original and all other stored BDDs are unaffected.",
  ["inputs"], "all functions over a few variables, all pairs of sets of positive and negative variables, any position in the collection",
  "One test relaxes one BDD by its first two variables; redirecting arcs creates redundant, duplicate and unreachable nodes only for other shapes.",
  COL, [("redirecting arcs in a copy", "include/bdd_collection.h: bdd_or_var"), ("reduction of the copy", "src/bdd_collection.cpp: reduce")],
  observe=["bdd_collection::bdd_or_var", "bdd_collection::evaluate", "bdd_collection::export_bdd"])
p("C17", "Removing BDDs from a collection keeps the others",
  "Removing any sorted duplicate-free set of indices, given by iterators, removes exactly those BDDs and renumbers the remaining ones in order; each remaining BDD keeps its function, node count and structure and can be used in every later operation. Only the given range is consulted, and removing an empty range changes nothing.",
  ["inputs", "histories"], "all subsets of collections up to a size, BDDs of different sizes, produced by import, conjunction, relaxation or rebasing, followed by further operations and removals",
  "One test removes one set and evaluates one remaining BDD at one assignment.",
  COL, [("copying with index shift", "include/bdd_collection.h: remove")],
  observe=["bdd_collection::remove", "bdd_collection::evaluate", "bdd_collection::nr_bdds"])
p("C18", "Collection queries and rebasing are exact and local",
  "For every stored BDD, evaluation, the variable list, the node count, the node count per variable and the stored instructions describe exactly its function, wherever in the collection it lies and by whichever operation it was produced. Rebasing one BDD by an order-preserving map, given as an associative container or a sequence, renames exactly its variables and leaves all other BDDs unchanged.",
  ["inputs", "histories"], "all functions over a few variables at each position of a collection, BDDs from import, conjunction, relaxation and rebasing, all order-preserving maps",
  "Per-variable counts, variable lists and rebasing of collections are not tested at all.",
  COL, [("queries over the instruction range of a BDD", "include/bdd_collection.h: evaluate, rebase; src/bdd_collection.cpp: variables, nr_bdd_nodes")],
  observe=["bdd_collection::evaluate", "bdd_collection::variables", "bdd_collection::nr_bdd_nodes", "bdd_collection::rebase"])
p("C19", "Walking through a stored BDD",
  "For every stored BDD with at least one decision node, by whichever operation it was produced, following low and high from the root node agrees with evaluation; the entry's two sinks are its false and true sink; stepping from the first node in post-order to the root visits every decision node once with children before parents; positions, comparison and hashing identify nodes. A node stays usable as long as the collection exists and is not modified, also when the entry it was obtained from was a temporary, and an entry's own queries and conjunction agree with the collection's.",
  ["inputs", "histories"], "all functions over a few variables, each way of producing them, entries kept and temporary",
  "No test walks a stored BDD.",
  COL, [("index wrappers into the instruction array", "src/bdd_collection.cpp: bdd_collection_node, bdd_collection_entry")],
  observe=["bdd_collection_entry", "bdd_collection_node"])
p("C20", "Building a BDD by hand in a collection",
  "Opening a new BDD, adding decision nodes top-down, setting both arcs of each to a later node or to a sink and closing it yields a stored BDD that evaluates exactly as the arcs say and can be used in all further operations like any other if it is reduced and ordered. Closing with an arc left unset reports an error by an exception, and BDDs stored earlier are unaffected.",
  ["inputs", "histories"], "all small diagrams: all numbers of nodes up to a bound, all arc targets, variables and orders of setting the arcs, all choices of arcs left unset",
  "The interface is not tested at all.",
  COL, [("placeholder arcs resolved on closing", "src/bdd_collection.cpp: new_bdd, add_bdd_node, close_bdd, set_lo_arc and the like")],
  observe=["bdd_collection::new_bdd", "bdd_collection::add_bdd_node", "bdd_collection::close_bdd", "bdd_collection::evaluate"])
p("C21", "Graph output describes the BDD",
  "Printing a BDD emits a directed graph in which every decision node appears with exactly one 0-arc and one 1-arc, so that reading the text back gives the same function with the same number of nodes; exporting a stored BDD emits a graph with every decision node labelled by its variable, both labelled sinks, one solid arc for true and one dashed arc for false per node. Output works for every BDD including constants, and does not change it.",
  ["inputs"], "all functions over a few variables, printed and exported and parsed back",
  "One test writes a file that nobody reads.",
  ["include/bdd_node.h", "include/bdd_collection.h"], [("recursive printing with marks", "include/bdd_node.h: print"), ("graphviz clusters and arcs", "include/bdd_collection.h: export_graphviz")],
  observe=["node_ref::print", "bdd_collection::export_graphviz"])
p("C22", "Storage pools hand out every slot to at most one owner",
  "For every sequence of reserving and freeing, the node pool and the table page pools never hand out storage that is still reserved or overlaps reserved storage, pages are handed out empty, freed storage is handed out again before new memory is taken, the sinks are never handed out, and the counts of nodes and pages are exact. Writing to a reserved slot never affects another, whatever the memory contained before.",
  ["histories"], "all sequences of reserve and free operations up to a depth, started at every distance from the boundary of an allocation block, all orders of freeing, all initial memory contents from an alphabet",
  "Tests reserve everything and then free everything once and only look at the counters.",
  ["src/bdd_node_cache.cpp", "include/bdd_node_cache.h", "include/bdd_var.h"], [("free list and bump pointer over 4096-node blocks", "src/bdd_node_cache.cpp: reserve_node, free_node, increase_cache"), ("page free lists", "include/bdd_var.h: unique_table_page_cache")],
  observe=["bdd_node_cache::reserve_node", "bdd_node_cache::nr_nodes", "unique_table_page_cache::reserve_page"])
p("C23", "Managers and collections are independent of each other",
  "Operations on one manager or collection never change the BDDs, counts or results of another one in the same program, including creating, collecting and destroying it in between. Every BDD leads back to its own manager and that manager's sinks, and results depend only on a manager's own history, not on what memory previously held.",
  ["histories"], "all interleavings of short histories on two managers and two collections, with destruction and re-creation, over an alphabet of initial memory contents",
  "Every test uses one manager.",
  ["src/bdd_node.cpp", "src/bdd_node_cache.cpp", "src/bdd_mgr.cpp", "src/bdd_collection.cpp"], [("link from the sinks to the manager", "src/bdd_node.cpp: find_bdd_mgr, init_botsink, init_topsink"), ("state per manager and per collection", "include/bdd_mgr.h, include/bdd_collection.h")],
  observe=["node_ref::find_bdd_mgr", "node_ref::botsink", "node_ref::topsink", "bdd_mgr::nr_nodes"])
p("C24", "Growth: correctness is independent of the number of nodes",
  "Canonicity, function values, node counts and garbage collection stay correct as the number of nodes of one variable, of the manager and of the cached results grows through every internal capacity step, up to at least half a million nodes of a single variable, and when it shrinks again after collections and regrows.",
  ["histories"], "histories that create nodes one at a time through every capacity boundary, keep every pattern of survivors from a family, collect and regrow, under several hash key policies",
  "The largest test never looks at individual nodes, never collects, and stays far below the larger table sizes.",
  ["src/bdd_var.cpp", "include/bdd_var.h", "src/bdd_node_cache.cpp", "src/bdd_memo_cache.cpp"], [("table doubling through fifteen page sizes", "src/bdd_var.cpp: double_cache, new_page, free_page"), ("shrinking after removal", "src/bdd_var.cpp: remove_dead_nodes"), ("node blocks", "src/bdd_node_cache.cpp: increase_cache"), ("cache doubling", "src/bdd_memo_cache.cpp: double_cache")],
  observe=["bdd_mgr::unique_find", "node_ref::operator==", "bdd_mgr::nr_nodes"])
p("C25", "Exactly-one-solution test",
  "The exactly-one-solution query is true precisely when, among the assignments to the variables the BDD depends on, exactly one makes it true; it is true for the constant true and false for the constant false.",
  ["inputs"], "all functions over up to four (thorough: all, five: structured) variables",
  "Tests try five functions.",
  ["src/bdd_node.cpp"], [("descent along the only arc that avoids the false sink", "src/bdd_node.cpp: exactly_one_solution")],
  observe=["node_ref::exactly_one_solution"])
p("C26", "Recorded depth of nodes",
  "When a BDD's nodes are registered children before parents, the depth recorded for each node is the number of decision nodes on a longest path from it to a sink, in every registration order that respects this.",
  ["inputs"], "all functions over a few variables, all child-first registration orders of small BDDs, several BDDs registered one after the other",
  "The depth register is not tested at all.",
  ["src/bdd_node_depth.cpp", "include/bdd_node_depth.h"], [("maximum of the children's depths plus one", "src/bdd_node_depth.cpp: add_node")],
  observe=["bdd_node_depth::add_node"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
