"""Which monitors decide which property, in which build, and how much work."""
# automatic variables the code leaves uninitialised hold a poison pattern
POISON = ["-ftrivial-auto-var-init=pattern"]
SAN = ["-g1", "-fno-omit-frame-pointer"]
FLAVOURS = {
    # as shipped (asserts off, optimised, libgomp)
    "fast": {"cflags": ["-O2", "-DNDEBUG", "-fopenmp"], "ldflags": ["-fopenmp"]},
    # address sanitizer, library assertions on, libgomp
    "asan": {"cflags": ["-O1", "-fopenmp", "-fsanitize=address"] + SAN + POISON, "ldflags": ["-fopenmp", "-fsanitize=address"]},
    # address sanitizer + controlled OpenMP scheduler
    "sasan": {"cflags": ["-O1", "-fopenmp", "-DUSE_SHIM", "-fsanitize=address"] + SAN + POISON, "ldflags": ["-fsanitize=address", "-lpthread"], "shim": True},
    # address + undefined behaviour sanitizers
    "ubsan": {"cflags": ["-O0", "-fopenmp", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] + SAN + POISON,
              "ldflags": ["-fopenmp", "-fsanitize=address,undefined"]},
    # thread sanitizer + instrumented OpenMP runtime with random delays
    "tsan": {"cflags": ["-O1", "-DNDEBUG", "-fopenmp", "-DUSE_SHIM", "-DSHIM_FREE", "-fsanitize=thread"] + SAN,
             "ldflags": ["-fsanitize=thread", "-lpthread"], "shim": True},
    # valgrind memcheck
    "memcheck": {"cflags": ["-O1", "-g1", "-DNDEBUG", "-fopenmp", "-DVF_VALGRIND"], "ldflags": ["-fopenmp"],
                 "wrap": ["valgrind", "-q", "--error-exitcode=26", "--exit-on-first-error=yes", "--leak-check=no", "--num-callers=12"]},
}

PLAN = {
    "C01": {
        "jobs": [{"src": "c01.cpp", "flavour": "sasan", "cases": 1600, "cases_thorough": 60000},
                 {"src": "c01.cpp", "flavour": "fast", "cases": 6000, "cases_thorough": 400000},
                 {"src": "scale.cpp", "flavour": "fast", "mode": "build", "cases": 48, "cases_thorough": 768}],
        "rule": "random levelled automaton (levels, width, skips, dead and duplicate states, arity 2..37) presented through a randomly chosen spec base class, serial or parallel; non-trivial = its language needs at least one node; distinct by automaton",
        "must_observe": {"huge_cases": 24, "nontrivial_cases": 100, "mp_builds": 50, "large_cases": 10},
    },
    "C02": {
        "jobs": [{"src": "c02.cpp", "flavour": "sasan", "cases": 2400, "cases_thorough": 60000},
                 {"src": "c02.cpp", "flavour": "fast", "cases": 12000, "cases_thorough": 400000},
                 {"src": "scale.cpp", "flavour": "fast", "mode": "reduce", "cases": 48, "cases_thorough": 768}],
        "rule": "random automaton (arity 2,3,4,9) built and reduced as BDD/ZDD/QDD in either mode, compared with an independently computed canonical diagram, re-reduced, and compared for equality with a permuted and a mutated automaton; non-trivial = canonical diagram has a node; distinct by automaton and reduction",
        "must_observe": {"huge_cases": 24, "nontrivial_cases": 200, "equal_pairs": 100, "different_pairs": 100, "cases_with_removed_nodes": 100},
    },
    "C03": {
        "jobs": [{"src": "c03.cpp", "flavour": "sasan", "cases": 1200, "cases_thorough": 40000},
                 {"src": "c03.cpp", "flavour": "fast", "cases": 3000, "cases_thorough": 150000},
                 {"src": "scale.cpp", "flavour": "fast", "mode": "par", "cases": 40, "cases_thorough": 640}],
        "rule": "random program of 2..7 operations (build, subset, reduce, convert, combine, copy, rebuild, evaluate) run once sequentially and once or twice in multi-processor mode with 1..8 threads changing between operations, under seeded schedules (controlled runtime) and real libgomp; every observation compared; non-trivial = some result is not a terminal; distinct by program",
        "must_observe": {"huge_cases": 20, "nontrivial_cases": 200, "distinct_schedules": 100, "shim:thread_switches": 1000, "op:build": 200, "op:subset": 100, "op:convert": 50},
    },
    "C04": {
        "jobs": [{"src": "c03.cpp", "flavour": "tsan", "cases": 700, "cases_thorough": 20000}],
        "rule": "the programs of C03 executed under ThreadSanitizer with an instrumented OpenMP runtime (real threads, random delays at runtime calls and spec callbacks); specs and evaluators write a scratch word in every callback so that concurrent use of one copy is itself a race; non-trivial = some result is not a terminal; distinct by program",
        "must_observe": {"nontrivial_cases": 100, "shim:parallel_regions": 1000, "parallel_runs": 100, "op:subset": 50},
    },
    "C05": {
        "jobs": [{"src": "c05.cpp", "flavour": "sasan", "cases": 3200, "cases_thorough": 80000},
                 {"src": "c05.cpp", "flavour": "fast", "cases": 16000, "cases_thorough": 500000},
                 {"src": "scale.cpp", "flavour": "fast", "mode": "subset", "cases": 40, "cases_thorough": 640}],
        "rule": "random diagram (built or universal, reduced or not, arity 2,3,6) subset 1..3 times by random specs of every base class, diagrams, itself or a copy sharing its nodes, in either mode; result compared with an independent canonical-ZDD intersection, all earlier copies re-checked; non-trivial = the family shrank and is not a terminal; distinct by diagram and result",
        "must_observe": {"huge_cases": 20, "nontrivial_cases": 200, "mp_subsets": 200, "serial_subsets": 200, "differing_heights": 100, "self_subsets": 50, "shared_subsets": 20, "copies_checked": 200},
    },
    "C06": {
        "jobs": [{"src": "c06.cpp", "flavour": "sasan", "cases": 2400, "cases_thorough": 80000},
                 {"src": "c06.cpp", "flavour": "fast", "cases": 16000, "cases_thorough": 600000},
                 {"src": "scale.cpp", "flavour": "fast", "mode": "ops", "cases": 40, "cases_thorough": 640}],
        "rule": "random operand automata (different heights, skips, terminal roots, mutated copies of each other) as specs of different state types or diagrams, combined by one operator, nested operators or 3/4-ary forms, built in either mode or used for subsetting; compared with an independent apply on canonical diagrams and with truth tables for n<=9; non-trivial = result is not a terminal; distinct by operands and result",
        "must_observe": {"huge_cases": 20, "nontrivial_cases": 500, "extensional_checks": 500, "differing_heights": 200, "terminal_operand": 50, "nested_or_variadic": 300, "mp_builds": 200},
    },
    "C07": {
        "jobs": [{"src": "c07.cpp", "flavour": "sasan", "cases": 2400, "cases_thorough": 80000},
                 {"src": "c07.cpp", "flavour": "fast", "cases": 16000, "cases_thorough": 600000},
                 {"src": "scale.cpp", "flavour": "fast", "mode": "wrap", "cases": 40, "cases_thorough": 640}],
        "rule": "random automata (arity 2..5) through look-ahead and unreduction wrappers over every spec base class and through bdd2zdd/zdd2bdd with numVars = height..height+4; meaning, skipped/explicit levels, sizes and round trips compared with independent canonical forms and truth tables; non-trivial = something was skipped / made explicit / converted and the result is not empty; distinct by automaton and operation",
        "must_observe": {"huge_cases": 20, "lookahead_skipped": 200, "nontrivial_unreductions": 200, "nontrivial_conversions": 200, "levels_checked": 500},
    },
    "C08": {
        "jobs": [{"src": "c08.cpp", "flavour": "sasan", "cases": 2400, "cases_thorough": 60000},
                 {"src": "c08.cpp", "flavour": "fast", "cases": 8000, "cases_thorough": 200000},
                 {"src": "scale.cpp", "flavour": "fast", "mode": "eval", "cases": 48, "cases_thorough": 768}],
        "rule": "random diagram (arity 2,3,7; unreduced, reduced three ways, subset result, shared or not) evaluated in either mode by an evaluator whose every callback and value object is checked online against a trace specification; non-trivial = diagram has a node; distinct by automaton, mode and declared thread-safety",
        "must_observe": {"huge_cases": 24, "nontrivial_cases": 200, "node_events": 5000, "level_finished_events": 1000, "mp_evaluations": 200, "unsafe_in_mp_mode": 100},
    },
    "C09": {
        "jobs": [{"src": "c09.cpp", "flavour": "asan", "cases": 1600, "cases_thorough": 40000},
                 {"src": "c09.cpp", "flavour": "fast", "cases": 6000, "cases_thorough": 150000},
                 {"src": "scale.cpp", "flavour": "fast", "mode": "card", "cases": 64, "cases_thorough": 1024}],
        "rule": "universal diagrams, random automata and long chains with short and long skips (arity 2,3,4,7,37; up to several hundred levels), numVars = height + 0..600, either mode; decimal results compared with an independent base-1e9 count, integer and floating variants where representable; non-trivial = a node and a non-zero count; distinct by diagram and numVars",
        "must_observe": {"huge_cases": 32, "nontrivial_cases": 200, "multiword_results": 200, "many_word_results": 50, "numvars_above_height": 100, "fits_u64": 100},
    },
    "C10": {
        "jobs": [{"src": "c10.cpp", "flavour": "sasan", "cases": 2400, "cases_thorough": 80000},
                 {"src": "c10.cpp", "flavour": "fast", "cases": 16000, "cases_thorough": 400000},
                 {"src": "scale.cpp", "flavour": "fast", "mode": "iter", "cases": 40, "cases_thorough": 640}],
        "rule": "random binary diagrams (raw, reduced, unreduced) iterated completely and compared with an independent enumeration, iterator equality and copies checked; random specs of every base class and diagrams (arity 2,3,6) searched three times with different random seeds, each instance replayed on the automaton; non-trivial = more than one set / something accepted; distinct by automaton",
        "must_observe": {"huge_cases": 20, "nontrivial_iterations": 200, "sets_iterated": 1000, "empty_families": 20, "instances": 500, "no_instance": 100},
    },
    "C19": {
        "jobs": [{"src": "c19.cpp", "flavour": "asan", "cases": 1600, "cases_thorough": 40000},
                 {"src": "c19.cpp", "flavour": "fast", "cases": 6000, "cases_thorough": 150000},
                 {"src": "scale.cpp", "flavour": "fast", "mode": "count", "cases": 64, "cases_thorough": 1024}],
        "rule": "random automata through every spec base class and long, wide automata with long skips into shared states (arity 2,3,5,16; up to several hundred levels): normal, fast and 64-bit counters and the built diagram compared with an independent count; non-trivial = non-zero count; distinct by automaton",
        "must_observe": {"huge_cases": 32, "nontrivial_cases": 300, "multiword_results": 200, "wide_cases": 200, "object_states": 50, "diagram_compared": 100},
    },
    "C11": {
        "jobs": [{"src": "c11.cpp", "flavour": "sasan", "cases": 1600, "cases_thorough": 50000},
                 {"src": "c11.cpp", "flavour": "fast", "cases": 6000, "cases_thorough": 200000},
                 {"src": "scale.cpp", "flavour": "fast", "mode": "copy", "cases": 40, "cases_thorough": 640}],
        "rule": "random history of 6..22 operations (build, copy, assign incl. to itself, swap, destroy, reduce, subset by another object or itself, rebuild, convert, evaluate, dump, compare) over up to 7 aliased diagram variables (arity 2,3,5), either mode; after every step every other object is re-checked against its recorded structure, size and cardinality and the target against an independent oracle; non-trivial = at least two live objects, one not a terminal; distinct by history",
        "must_observe": {"huge_cases": 20, "nontrivial_histories": 300, "bystanders_checked": 5000, "self_assignments": 100, "equal_pairs": 300, "unequal_pairs": 300, "op:subset": 200, "op:twins": 100, "histories_with_sharing": 300},
    },
    "C12": {
        "jobs": [{"src": "c12.cpp", "flavour": "sasan", "cases": 6000, "cases_thorough": 150000},
                 {"src": "c12.cpp", "flavour": "fast", "cases": 6000, "cases_thorough": 150000}],
        "rule": "random automata presented through specs with heap-owning object states (scalar and hybrid) built, subset, dumped, searched, counted, combined by operators, looked ahead, unreduced, and diagrams evaluated with object values, either mode, including terminal roots and empty families; every construction, copy, use and destruction is checked online per address, live objects and (ASan build) allocated heap bytes are compared before and after; non-trivial = more than 3 objects; distinct by case",
        "must_observe": {"nontrivial_cases": 1000, "heap_checks": 1000, "mp_operations": 500, "terminal_roots": 200, "op:build": 100, "op:subset": 100, "op:dump": 100, "op:findOneInstance": 100, "op:countPaths": 100, "op:operator": 100, "op:nested-operator": 100, "op:lookahead": 100, "op:unreduction": 100, "op:evaluate": 100},
    },
    "C15": {
        "jobs": [{"src": "c15.cpp", "flavour": "ubsan", "cases": 4000, "cases_thorough": 200000},
                 {"src": "c15.cpp", "flavour": "fast", "cases": 20000, "cases_thorough": 1000000}],
        "rule": "random simple graphs (up to 60 edges, one in a hundred with hundreds to 65534 vertices and up to 600 groups; grids, complete, paths, cycles, trees, bipartite, stars, sparse, dense; numeric and arbitrary names) entered by calls, edge-list or adjacency text with varied white space, line ends and duplicates, coloured by calls or group files, recoloured, extended; every accessor compared with an independent computation; malformed texts must be rejected; non-trivial = at least two edges; distinct by graph and way of input",
        "must_observe": {"nontrivial_cases": 1000, "graphs_verified": 2000, "edge_lists": 500, "adjacency_lists": 200, "vertex_groups": 200, "malformed_rejected": 300, "no_final_newline": 200, "colored_graphs": 500, "drawings": 1000, "large_graphs": 30, "from_stdin": 200, "replaced": 100},
    },
    "C16": {
        "jobs": [{"src": "c16.cpp", "flavour": "ubsan", "cases": 1600, "cases_thorough": 60000},
                 {"src": "c16.cpp", "flavour": "fast", "cases": 12000, "cases_thorough": 400000}],
        "rule": "random simple graphs (up to 13 edges, nine families, random edge orders, disconnected included), one to three end-point pairs, with and without look-ahead, either mode, built or used as subset constraint; the complete family of edge sets compared with an independent enumeration of all subsets; non-trivial = at least two paths; distinct by graph and end points",
        "must_observe": {"nontrivial_cases": 500, "families": 2000, "graphs_with_cycles": 500, "graphs_with_hamilton_cycles": 100, "graphs_with_paths": 500, "graphs_with_hamilton_paths": 100, "several_pairs": 200, "mp_builds": 300},
    },
    "C17": {
        "jobs": [{"src": "c17.cpp", "flavour": "ubsan", "cases": 2400, "cases_thorough": 80000},
                 {"src": "c17.cpp", "flavour": "fast", "cases": 24000, "cases_thorough": 800000}],
        "rule": "random simple graphs (up to 12 edges) with random vertex colourings (0..3 colours, groups of any size), component counts -1..3, loop and look-ahead options, either mode; the complete family compared with an independent enumeration; non-trivial = family neither empty nor everything; distinct by graph, colouring and options",
        "must_observe": {"nontrivial_cases": 1000, "colored": 1000, "counted_components": 1000, "acyclic": 1000, "mp_builds": 500},
    },
    "C18": {
        "jobs": [{"src": "c18.cpp", "flavour": "ubsan", "cases": 3200, "cases_thorough": 100000},
                 {"src": "c18.cpp", "flavour": "fast", "cases": 24000, "cases_thorough": 800000}],
        "rule": "random degree sets (arbitrary finite sets, stepped ranges, per vertex, default or none) on random graphs, random size sets, random linear systems (0..5 rows over 1..10 variables, signed coefficients, int/long/double, unsatisfiable and empty rows), with and without look-ahead, either mode; complete family compared with an independent enumeration; non-trivial = family neither empty nor everything; distinct by instance",
        "must_observe": {"nontrivial_degree": 300, "nontrivial_size": 300, "nontrivial_linear": 300, "unsatisfiable_systems": 50, "mp_builds": 500},
    },
    "C14": {
        "jobs": [{"src": "c14.cpp", "flavour": "sasan", "cases": 12000, "cases_thorough": 100000},
                 {"src": "c14.cpp", "flavour": "fast", "cases": 60000, "cases_thorough": 800000},
                 {"src": "scale.cpp", "flavour": "fast", "mode": "dump", "cases": 40, "cases_thorough": 640}],
        "rule": "random automata (arity 2,3,4) dumped in DOT through every spec base class, operators, look-ahead and unreduction wrappers, as diagrams (raw, reduced, subset) and as node tables, and in the Sapporo format; each text is parsed by an independent reader and walked jointly with the automaton (nodes, levels, branches, labels, root, counts); random Graphillion node lists (any order, numbering, white space, file or standard input) are read and compared with the denoted family; non-trivial = at least two nodes; distinct by automaton",
        "must_observe": {"wrapped_labels": 500, "nontrivial_cases": 1000, "dumps": 1000, "table_dumps": 300, "sapporo_lists": 300, "sapporo_terminals": 10, "graphillion_nontrivial": 300, "read_files": 100, "read_stdin": 100, "composed_dumps": 300, "terminal_dumps": 30},
    },
    "C20": {
        "jobs": [{"src": "c20.cpp", "flavour": "ubsan", "cases": 12000, "cases_thorough": 300000},
                 {"src": "c20.cpp", "flavour": "fast", "cases": 60000, "cases_thorough": 1500000},
                 {"src": "scale.cpp", "flavour": "fast", "mode": "containers", "cases": 64, "cases_thorough": 1024}],
        "rule": "random histories of 5..200 operations on vectors (plain and life-cycle monitored elements), data tables, hash sets and maps (integers, colliding structs), block and pool lists with variable element sizes, memory pools (small, large, reuse, splice, moved in vectors, as allocator), bit sets, small sets, integer ranges and multi-word and fixed numbers in exactly sized storage; every container is compared with its model after every operation; distinct by history",
        "must_observe": {"huge_cases": 32, "nontrivial_cases": 5000, "vector_ops": 20000, "vector_erase": 1000, "vector_self_assign": 500, "hash_ops": 10000, "hash_self_assign": 300, "map_cases": 500, "list_ops": 5000, "pool_ops": 10000, "pool_reuse": 500, "pool_splice": 300, "pool_vector": 100, "bitset_cases": 1000, "pullouts": 1000, "smallset_cases": 500, "number_adds": 10000, "number_shifts": 3000, "number_divisions": 3000, "range_cases": 1000},
    },
    "C22": {
        "jobs": [{"src": "c22.cpp", "flavour": "asan", "cases": 60000, "cases_thorough": 1500000},
                 {"src": "c22.cpp", "flavour": "fast", "cases": 240000, "cases_thorough": 6000000}],
        "rule": "random automata (arity 2,3,4) whose states carry an accumulated cost and marks; equivalent states are resolved by keeping the cheaper one and merging ties (uniting marks that influence later transitions), through four spec base classes; constructed, used for subsetting random diagrams, and dumped; surviving states computed independently level by level; non-trivial = some edge leads to a discarded state; distinct by automaton, costs and operation",
        "must_observe": {"op:construct": 500, "op:subset": 500, "op:dump": 500, "discarded_edges": 2000, "merged_edges": 2000, "discarded_accepting_edges": 1000, "merge_calls_keep_second": 500, "merge_calls_keep_first": 500, "merge_calls_merged": 500, "object_states": 300},
    },
    "C21": {
        "jobs": [{"py": "c21", "cases": 4000, "cases_thorough": 40000}],
        "rule": "ddpaths on random simple graphs (up to 11 edges; adjacency lists as file or standard input; one to three pairs, colour groups, size bounds, every option), ddnumlin on random boards (up to 20 cells, single rows and columns included) and ddqueens (up to 8, coloured up to 6), and ddpaths on grids, ladders, rings and band graphs of up to 2500 edges and ddnumlin on boards of up to 200 cells counted by an independent edge-by-edge dynamic program, built with AddressSanitizer+UBSan or optimised; exit code, counts, node counts, printed solutions, boards, dumped and exported diagrams compared with brute force; malformed input must be rejected; non-trivial = several paths / a solvable puzzle; distinct by input and command line",
        "must_observe": {"nontrivial_paths": 200, "ddpaths_path": 100, "ddpaths_cycle": 50, "ddpaths_cc": 50, "ddpaths_forest": 50, "numlin_solvable": 200, "boards_checked": 300, "queens_runs": 100, "zdd_dumps": 50, "exports": 30, "solutions_printed": 500, "errors_rejected": 30, "numlin_single_row_or_column": 30, "large_boards": 20, "large_graphs": 20},
    },
    "C13": {
        "jobs": [{"src": "c13.cpp", "flavour": "ubsan", "cases": 1600, "cases_thorough": 60000},
                 {"src": "c13.cpp", "flavour": "memcheck", "cases": 320, "cases_thorough": 6000}],
        "rule": "implicit random automata (1..400 levels, up to 1500 states per level, arity 2,3,5,64) through nine state layouts (odd element sizes, padded hybrids, heap-owning states), built, reduced, subset, dumped, iterated, searched, counted, combined, unreduced and evaluated in either mode, and graph specs on graphs of up to 22 edges; observed by AddressSanitizer+UBSan with library assertions on, and by memcheck for uninitialised memory; non-trivial = the diagram has a node; distinct by automaton or graph",
        "must_observe": {"nontrivial_cases": 300, "graphs": 100, "op:subset": 50, "op:dump": 50, "op:operator": 20, "op:lookahead": 50, "op:countPaths": 20, "op:evaluate": 50, "wide_levels": 20},
        "technique": "AddressSanitizer, UndefinedBehaviorSanitizer, library assertions and valgrind memcheck over randomised workloads with size extremes",
    },
    "C24": {
        "jobs": [{"py": "c24", "cases": 3000, "cases_thorough": 40000}],
        "rule": "cnfbdd and cnf2ztdd2bdd, built against a monitored stand-in for CUDD (ASan+UBSan, optimised, and under memcheck), on random CNF files (1..12 variables, 1..35 clauses; unit, repeated, tautological, subsuming, tail-sharing clauses, unused variables, comments, clauses over several lines, missing final newline; file or standard input) with random options (sorting, canonical clause mapping, reachability analysis limits, parallel mode, dumps, output to file or standard output); reported counts, printed assignments and dumped diagrams compared with the enumeration of all assignments; malformed input must be rejected; non-trivial = neither unsatisfiable nor valid; distinct by input and command line",
        "must_observe": {"nontrivial_cases": 300, "cnfbdd": 300, "cnf2ztdd2bdd": 150, "parallel": 50, "limited": 50, "unsatisfiable": 30, "tautologies_only": 3, "solutions_printed": 1000, "dumps": 100, "errors_rejected": 20, "runs_vg": 20},
        "assumptions": ["mock/cudd behaves like CUDD for the calls the programs make"],
    },
    "C23": {
        "jobs": [{"src": "c23.cpp", "flavour": "sasan", "cases": 8000, "cases_thorough": 200000},
                 {"src": "c23.cpp", "flavour": "fast", "cases": 16000, "cases_thorough": 400000}],
        "rule": "random diagrams exported to a package in use (variables in any order, offsets of either sign, either mode) and package diagrams imported as specs (offsets of either sign, built or as subset constraint), compared level by level with an independent shift of the canonical form; random operation sequences on the CUDD wrapper compared with 64-bit truth tables, reference counts and frees watched; the packages are exact stand-ins that report concurrent entry, unknown variables and levels, unreferenced operands and runaway recursion; non-trivial = result is not a terminal; distinct by diagram and offset",
        "must_observe": {"nontrivial_exports": 500, "nontrivial_imports": 500, "mp_exports": 500, "permuted_orders": 500, "truncated_exports": 50, "truncated_imports": 20, "invalid_levels_rejected": 50, "round_trips": 300, "cudd_programs": 500, "specs_built": 200, "nodes_freed": 1000},
    },
    "C25": {
        "jobs": [{"src": "c25.cpp", "flavour": "sasan", "cases": 3000, "cases_thorough": 80000},
                 {"src": "c25.cpp", "flavour": "tsan", "cases": 500, "cases_thorough": 10000},
                 {"src": "c25.cpp", "flavour": "fast", "cases": 12000, "cases_thorough": 400000}],
        "rule": "random program of 2..8 operations (build, reduce, subset, combine, evaluate, count paths, read files) executed twice from the same choices, with messages off and on (in either order, inside 0..3 blocks of the user, either mode, normal or fast clock): results compared, std::cerr and std::cout captured and the log parsed into balanced, indented blocks whose names, sizes, progress and outcome are compared with what happened; or a random sequence of nested handlers whose complete visible text is compared with what was written; non-trivial = some operation reports; distinct by program",
        "must_observe": {"nontrivial_cases": 1000, "blocks": 2000, "sizes_checked": 1000, "dots_checked": 500, "aborted_operations": 100, "outer_blocks": 100, "multi_line_blocks": 100, "percent_lines": 20, "handler_cases": 500, "texts": 1000, "hidden": 100},
    },
}
