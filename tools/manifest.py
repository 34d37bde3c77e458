#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = {  # property: (what is enumerated, what limits it)
"C01": ("all operand tuples over all functions of up to 3 variables, all pairs of 4-variable functions from a complete family, all placements and key policies", "functions of more than a few variables only through families"),
"C02": ("all construction routes of all functions of up to 3 variables and all two-step histories on them", "functions of up to 4 variables"),
"C03": ("all sequences of operations, drops and collections up to a depth", "three held references, functions of 3 variables"),
"C04": ("all sequences of operations, drops and collections up to a depth, all ways of copying and destroying handles", "three held references, functions of 3 variables"),
"C05": ("all placements of up to 6 (thorough 8) nodes on colliding slots, all kept and re-created subsets, all assignments of colliding keys to the first nodes of operation histories", "keys outside the enumerated families"),
"C06": ("all sequences of memoised operations up to a depth, with every collection and replacement between, memory offsets and key policies; long histories through all cache sizes", "cache collisions outside the enumerated address and key patterns"),
"C07": ("all histories of operations and variable additions up to a depth", "bounded depth"),
"C08": ("all operand lists over a 12-function alphabet up to length 6, all orders of up to 7 variables, all bounds", "lists of up to 14 operands"),
"C09": ("all operand lists over an alphabet up to a length, all argument forms", "lists of bounded length"),
"C10": ("all pairs of functions of 3 variables with every limit around the true size", "larger functions only through families"),
"C11": ("all functions of up to 4 variables, all placements, sequences of queries", "functions of up to 4 variables"),
"C12": ("all functions of up to 3 variables, all order-preserving maps of a range, all forms of the map", "functions of up to 4 variables"),
"C13": ("all functions of up to 3 variables, all sequences of imports and exports up to a depth", "bounded depth; sizes around one and two thousand nodes"),
"C14": ("all pairs of functions of 3 variables, all operand lists over an alphabet, all argument forms", "functions of up to 4 variables plus families"),
"C15": ("all limits around the true size for all operand lists of an alphabet, every stored BDD compared before and after", "limits of a size's neighbourhood and extremes"),
"C16": ("all functions of up to 3 variables with all pairs of variable sets", "functions of up to 4 variables"),
"C17": ("all subsets of removed BDDs of collections of up to 6, all sequences with other operations up to a depth", "bounded collections"),
"C18": ("all functions of up to 3 variables, all order-preserving maps, all sequences of rebasing up to a depth", "functions of up to 4 variables"),
"C19": ("all walks through all stored functions of 3 variables", "functions of up to 4 variables"),
"C20": ("all diagrams of up to 4 nodes including unset arcs, all functions of 3 variables in five building orders, all sequences of building steps up to a depth", "diagrams of more than 4 nodes only through functions"),
"C21": ("all functions of up to 4 variables printed and parsed back, all functions of up to 3 variables exported and parsed back", "functions of up to 4 variables"),
"C22": ("all sequences of reserving and freeing up to a depth at every distance from the block boundaries, all freeing orders, four memory contents, all fifteen page sizes", "bounded depth"),
"C23": ("all sequences of 12 operations on either of two manager/collection sides up to a depth, with each side's history replayed alone on other memory contents", "two sides; up to five managers in the lifetime scenario"),
"C24": ("deterministic histories through every capacity step up to 600000 nodes of one variable, all pairs of survivor patterns, five key families", "the growth path is one history per size, pattern pair and key family"),
"C25": ("all functions of up to 4 variables, all cubes of up to 6 variables with neighbours, chains of up to 40 variables", "five and more variables only through cubes and chains"),
"C26": ("all functions of up to 4 variables, all child-first registration orders of the diagrams of up to 3 variables", "orders of 4-variable diagrams capped"),
"C27": ("all unary operations on 12 kinds of functions and their negations, all pairs and triples of kinds, sizes up to 1500 variables, arrangements, cache states; every executed basic block of the library is counted against the number of distinct subproblems", "functions outside the enumerated kinds; allowance of 10000 blocks per subproblem"),
"C28": ("all sequences of 4 of 38 operations of a manager and a collection destroyed at the end, three times over; all sequences of 3 repeated in rounds; pools, tables and large diagrams in rounds; the blocks and bytes in use are counted in replaced operators new and delete", "memory obtained other than by operator new; the bound of the result cache from one long history"),
"C29": ("pairs of functions of 3 variables with all subsets of their nodes marked, all pairs of 13 operations under 16 patterns of marks, all pairs of functions recycled after marking on four memory contents", "functions of 3 variables and families of larger ones"),
}
checks = []
for p in props:
    i = p["id"]; what, lim = T[i]
    checks.append({
        "property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "technique": "model checking: stateless exhaustive exploration of the compiled library against a reference model",
        "level": "model_checking",
        "level_note": "Explored: %s. Every execution runs the real code and is compared step by step with a truth-table model. Limits: %s; trusted: the reference model in harness/, the compiler, the replaced random engine." % (what, lim)})
json.dump({
    "version": 1, "setup_cmd": "python3 check.py --build-all",
    "hooks": {"guard": "LBDD_VERIF_SMALL_POOLS", "enable": "check.py compiles the library's sources with -DLBDD_VERIF_SMALL_POOLS=16 (variants small, reuse, asan, cost) or =3 (down); the variant full is built without it", "source_commits": ["68d5fbf69008ee8bea1a259975edfef144d7dc1b"]},
    "checks": checks, "not_applicable": [],
    "notes": "known findings and repairs: known-findings.txt; design: DESIGN.md",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
