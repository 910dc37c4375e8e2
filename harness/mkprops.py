import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
I="include/tdzdd/"
p("C01","A diagram built from a spec represents exactly the spec",
 "Building a decision diagram from a spec yields a diagram whose set of root-to-1 paths (with the levels and branch values on them) is exactly the one the spec defines, with terminal roots handled the same way. This holds for every spec base class (stateless, scalar, array, hybrid), every arity, arbitrary level skips, dead branches, state hash collisions, long or wide diagrams, and for the sequential and the parallel builder alike; a diagram used as a spec rebuilds to itself.",
 ["inputs","programs","configurations"],"all specs (level structure, states, transitions), all arities, both builders",
 "The tests build a few fixed specs and compare sizes or cardinalities; they never use hybrid states, colliding hashes, level skips with on-the-fly sweeping, terminal roots or more than two spec flavours.",
 [I+"DdStructure.hpp",I+"DdSpec.hpp",I+"dd/DdBuilder.hpp",I+"dd/DdSweeper.hpp",I+"util/MyHashTable.hpp",I+"util/MyList.hpp"],
 [("breadth-first construction with per-level unique table","DdBuilder::construct, DdBuilderMP::construct"),("on-the-fly removal of dead nodes","DdSweeper::update"),("state copy/hash/equality adapters","DdSpec.hpp")],
 ["DdStructure root()/child()/size()/topLevel()"])
p("C02","Reduction keeps the meaning and reaches the unique minimal form",
 "Reducing a diagram as a BDD, ZDD or quasi-reduced diagram never changes the function or family it represents, leaves no two equal nodes on a level and no node that the chosen deletion rule removes, and is idempotent. Two reduced diagrams of the same kind compare equal exactly when they represent the same function, and their sizes are the number of nodes of the canonical diagram.",
 ["inputs","programs","configurations"],"all diagrams (built, subset, converted), all arities, the three reductions, sequential and parallel",
 "Tests compare node counts of two construction orders for a handful of random diagrams; they never compute the canonical size or meaning independently, nor reduce diagrams with level skips, dead nodes or terminal roots.",
 [I+"dd/DdReducer.hpp",I+"DdStructure.hpp",I+"dd/NodeTable.hpp"],
 [("bottom-up reduction (Algorithm R, hash based, parallel)","DdReducer::algorithmR/reduce_/reduceMP_"),("structural equality","DdStructure::operator==")],
 ["DdStructure after bddReduce/zddReduce/qddReduce"])
p("C03","Parallel algorithms give the sequential results on every schedule",
 "For every thread count and every interleaving, switching on multi-processor mode changes nothing observable: construction, subsetting, reduction, conversion and evaluation yield a diagram equal to the sequential one after reduction, with the same size, cardinality and emptiness, and never deadlock. Repeating a parallel operation with another schedule gives an equal result.",
 ["schedules","configurations","inputs"],"all thread counts, all assignments of loop chunks to threads, all interleavings of spec and evaluator callbacks",
 "The tests run once with four threads under whatever schedule the machine happens to produce.",
 [I+"dd/DdBuilder.hpp",I+"dd/DdReducer.hpp",I+"DdStructure.hpp",I+"dd/NodeTable.hpp"],
 [("task partition by state hash, per-thread queues, barriers between phases","DdBuilderMP, ZddSubsetterMP, DdReducer::reduceMP_"),("per-thread evaluator copies","DdStructure::evaluate")],
 ["results of the same program run in both modes"])
p("C04","Multi-processor mode is free of data races",
 "No execution of the multi-processor construction, subsetting, reduction, conversion or evaluation contains two unsynchronised conflicting accesses to the same memory, for any number of threads; user callbacks on one spec or evaluator copy are never invoked concurrently by two threads.",
 ["schedules","configurations","inputs"],"all thread counts and interleavings of the parallel regions",
 "A race need not change the outcome of the few schedules a test run sees; no test runs under a race detector.",
 [I+"dd/DdBuilder.hpp",I+"dd/DdReducer.hpp",I+"dd/NodeTable.hpp",I+"DdStructure.hpp"],
 [("disjoint per-thread tables and barriers","DdBuilderMP::construct, ZddSubsetterMP::subset, DdReducer::reduceMP_, NodeTableEntity::makeIndex")],
 ["memory accesses inside the parallel regions (ThreadSanitizer)","callback entry/exit"])
p("C05","Subsetting a ZDD by a spec is exactly intersection",
 "Subsetting a ZDD by a spec leaves exactly those members of the family that the spec also accepts (under zero-suppressed reading of skipped levels on both sides), whatever the heights of diagram and spec, and repeated subsetting is the intersection of all specs. Copies of the diagram taken before are not affected, and a diagram may be subset by itself or by a diagram sharing its nodes.",
 ["inputs","programs","configurations"],"all diagrams, all specs, all arities, reduced or not, sequential and parallel",
 "One test subsets by a size constraint; skipped levels, differing heights, arities above two, terminal results and sharing are never exercised.",
 [I+"dd/DdBuilder.hpp",I+"DdStructure.hpp",I+"dd/NodeTable.hpp"],
 [("synchronised descent of table and spec","ZddSubsetter::subset, downTable, downSpec"),("release of unshared rows","NodeTableHandler::derefLevel")],
 ["DdStructure::zddSubset"])
p("C06","Spec operators compute conjunction, disjunction, union, intersection",
 "The BDD conjunction and disjunction and the ZDD intersection and union of any two or more binary specs accept exactly what Boolean conjunction/disjunction or set intersection/union of their operands accept, for operands of different heights, with skipped levels, terminal roots and different state types, also when operators are nested. An operand is neither changed nor retained by the operation beyond its copy.",
 ["inputs","programs"],"all binary operand specs and diagrams, numbers of operands, nestings of operators",
 "No test applies the operators.",
 [I+"DdSpecOp.hpp",I+"op/BinaryOperation.hpp"],
 [("product construction over two states","BddAnd_/BddOr_/ZddIntersection_/ZddUnion_")],
 ["diagram built from the combined spec"])
p("C07","Look-ahead, unreduction and BDD/ZDD conversion preserve meaning",
 "Look-ahead wrappers leave the function or family of a spec unchanged and skip every state whose successors make it evident that the deletion rule removes it (BDD: all lead to the same state or terminal; ZDD: all but the 0-branch reject); unreduction wrappers make every level from the given number of variables down explicit without changing it. Converting a diagram between BDD and ZDD for a number of variables not below its height preserves the set of accepted assignments, and converting back returns the reduced original.",
 ["inputs","programs","configurations"],"all specs and diagrams, all variable counts >= height, all arities, both modes",
 "No test uses these operations.",
 [I+"op/Lookahead.hpp",I+"op/Unreduction.hpp",I+"DdStructure.hpp",I+"DdSpecOp.hpp"],
 [("node skipping on the fly","BddLookahead_/ZddLookahead_"),("don't-care insertion","BddUnreduction_/ZddUnreduction_")],
 ["DdStructure(bddLookahead(..)) etc., bdd2zdd, zdd2bdd"])
p("C08","Bottom-up evaluation visits children first with the right values",
 "An evaluator is initialised with the height, evaluates both terminals, then every reachable node after all of its children with exactly the children's values and levels, and its result is the value of the root; each stored value is live when it is read. A level is announced as finished only when no later node refers to it and at most once per evaluator, and an evaluator that declares itself not thread-safe is driven by one instance only, while a thread-safe one gives the same result in both modes.",
 ["inputs","programs","schedules"],"all diagrams, arities, evaluators with arbitrary value types, both modes",
 "Tests only use the built-in cardinality evaluator.",
 [I+"DdStructure.hpp",I+"DdEval.hpp",I+"dd/NodeTable.hpp",I+"dd/DataTable.hpp"],
 [("level-wise sweep and early release of finished levels","DdStructure::evaluate, NodeTableEntity::makeIndex/lowerLevels")],
 ["callbacks of a monitoring evaluator"])
p("C09","Cardinalities are exact, however large",
 "The reported number of sets of a ZDD and the number of satisfying assignments of a BDD over a given number of variables are exact decimal numbers for every diagram, arity and number of variables not below the height, including zero, one, terminal diagrams and values of many thousands of bits. Floating-point and integer variants agree with it wherever they can represent the value.",
 ["inputs","configurations"],"all diagrams, arities, numbers of variables, magnitudes",
 "Tests check values below 2^64 plus a few fixed totals; carries across words, arities above two and variable counts above the height are not reached.",
 [I+"eval/Cardinality.hpp",I+"util/BigNumber.hpp",I+"DdStructure.hpp"],
 [("multi-word arithmetic with 63-bit words","BigNumber"),("weighting of skipped levels","BddCardinality::evalNode/getValue")],
 ["zddCardinality(), bddCardinality(n), evaluate(...Cardinality)"])
p("C10","Iteration yields every set once; a found instance is a member",
 "Iterating over a binary ZDD yields every member of its family exactly once and nothing else, ending for every diagram including the empty family and the family of the empty set; iterators compare equal exactly at the same position. Searching one instance of a spec or diagram returns an accepted assignment listing every decided level once, for any arity, and reports failure exactly when nothing is accepted.",
 ["inputs","programs"],"all diagrams, reduced or not, with or without level skips; all specs",
 "No test iterates or searches instances.",
 [I+"DdStructure.hpp",I+"dd/DepthFirstSearcher.hpp"],
 [("explicit path stack","DdStructure::const_iterator::next"),("randomised depth-first search","DepthFirstSearcher::findOneInstanceStep")],
 ["begin()/end(), findOneInstance()"])
p("C11","Diagram objects behave as independent values",
 "Copying, assigning (including to itself), passing or destroying diagrams never changes the meaning of any other diagram object, whatever sequence of constructions, reductions, subsettings, conversions and evaluations follows on any of the copies. Equality is an equivalence relation consistent with the represented structure: a diagram always equals its copies and any diagram built and processed the same way, and differs from diagrams that represent something else.",
 ["histories","programs"],"all sequences of operations over several aliased diagram objects",
 "Tests use each diagram object once and never share node tables between live objects.",
 [I+"DdStructure.hpp",I+"dd/NodeTable.hpp",I+"dd/DataTable.hpp",I+"util/MyVector.hpp"],
 [("reference-counted node tables with copy on write","NodeTableHandler")],
 ["all live diagram objects after every operation"])
p("C12","Every spec state and value object is created and destroyed exactly once",
 "During construction, subsetting, searching, dumping, operator combination and evaluation every state or value object that is created is destroyed exactly once, no operation touches an object outside its lifetime, and nothing remains allocated afterwards. A state is expanded, hashed and compared only at the level it belongs to and not after the end of that level was announced to the spec; the end of every level of the operation at which a spec's states were expanded is announced to it, also through operators and wrappers. This also holds when operations end early (terminal roots, no instance) and in multi-processor mode.",
 ["inputs","programs","schedules"],"all specs with object states, all operations, both modes",
 "Tests use plain integer or POD states only, for which a missed or doubled destruction is invisible.",
 [I+"dd/DdBuilder.hpp",I+"DdSpec.hpp",I+"op/BinaryOperation.hpp",I+"op/Unreduction.hpp",I+"dd/DepthFirstSearcher.hpp",I+"util/MyVector.hpp"],
 [("explicit get_copy/destruct pairing","DdBuilder*, ZddSubsetter*, DdDumper, DepthFirstSearcher"),("placement construction in containers","MyVector, DataTable")],
 ["constructor/destructor events of monitored state objects","allocated heap bytes before/after"])
p("C13","No memory error or undefined behaviour in any supported use",
 "No supported use of the library reads or writes outside its allocations, uses freed or uninitialised memory, violates one of its own assertions or executes undefined arithmetic, whatever the sizes of states, levels, arities, thread counts and inputs, including empty and degenerate ones.",
 ["inputs","programs","configurations"],"all workloads of the other properties plus size extremes",
 "The tests are built without sanitizers and with assertions disabled.",
 [I+"dd/DdBuilder.hpp",I+"dd/DdReducer.hpp",I+"util/MyVector.hpp",I+"util/MemoryPool.hpp",I+"util/MyList.hpp",I+"eval/Cardinality.hpp",I+"util/BigNumber.hpp"],
 [("hand-written containers and pools","util/"),("raw state buffers","dd/DdBuilder.hpp")],
 ["AddressSanitizer, UndefinedBehaviorSanitizer, memcheck, library assertions"])
p("C14","Exported and imported diagrams denote the same family",
 "The graph description written for a spec or diagram contains exactly its reachable nodes and edges with the right levels, state labels and branch styles (dashed for 0, solid for the others, coloured for arities above two), and the node list written in the Sapporo format denotes exactly the diagram, for every binary diagram including terminal ones. Reading a node list in Graphillion's format yields exactly the family it denotes.",
 ["inputs","programs"],"all diagrams and specs, reduced or not",
 "No test reads any exported text back.",
 [I+"DdStructure.hpp",I+"dd/DdBuilder.hpp",I+"spec/GraphillionZdd.hpp"],
 [("DOT writer","DdDumper::dump"),("Sapporo writer","DdStructure::dumpSapporo"),("reader","GraphillionZdd")],
 ["text streams"])
p("C15","A graph is read and indexed faithfully",
 "After reading edges, adjacency lists or vertex groups from any well-formed text, the graph has exactly the vertices, edges (duplicates in either direction merged) and colours that were given; malformed lines are rejected. Edge order is the input order, vertex numbers follow the order in which vertices leave the frontier, and for every edge the frontier start, the last-use and second-last-use marks, the colour marks and the maximum frontier width are what the edge order implies. The drawing lists exactly these vertices, edges and colours.",
 ["inputs"],"all edge lists, names, layouts, duplicates, colourings",
 "Tests never read a graph.",
 [I+"util/Graph.hpp"],
 [("renumbering and frontier computation","Graph::update"),("parsers","Graph::readEdges/readAdjacencyList/readVertexGroups")],
 ["Graph accessors"])
p("C16","Path and cycle diagrams contain exactly the paths and cycles",
 "For every simple graph, the path, cycle, Hamiltonian path and Hamiltonian cycle specs yield exactly the edge sets that form, respectively, vertex-disjoint simple paths joining each pair of equally coloured end points (one pair or several; uncoloured graphs have none), one simple cycle (on an uncoloured graph), and their versions that visit every vertex. The variant with map states (one pair) gives the same family, and look-ahead does not change it.",
 ["inputs","configurations"],"all graphs, colourings, spec variants, both modes",
 "Only the number of paths on one family of grids is tested, with a different spec.",
 [I+"spec/PathZdd.hpp",I+"spec/PathZddByStdMap.hpp"],
 [("frontier mate arrays","PathZddBase")],
 ["families enumerated from the built diagrams"])
p("C17","Frontier-based search yields exactly the constrained subgraphs",
 "For every graph and vertex colouring the frontier-based search spec yields exactly the edge sets whose components keep equal-coloured vertices together and different-coloured ones apart, with the requested number of uncoloured components and, if requested, without cycles; look-ahead changes the shape but not the family.",
 ["inputs","configurations"],"all graphs, colourings, component counts, option combinations, both modes",
 "No test uses the spec.",
 [I+"spec/FrontierBasedSearch.hpp",I+"util/Graph.hpp"],
 [("frontier mate structure with colour bookkeeping","FrontierBasedSearch, FrontierBasedSearchMate")],
 ["families enumerated from the built diagrams"])
p("C18","Degree, size and linear constraint specs accept exactly what they state",
 "The degree constraint accepts exactly the edge sets whose vertex degrees are all in the sets given for them, the size constraint exactly the sets whose cardinality is in the given integer set, and linear constraints exactly the 0/1 assignments that satisfy every equation and inequality, including negative coefficients and empty or unsatisfiable systems. Look-ahead does not change the accepted family.",
 ["inputs","configurations"],"all graphs, degree sets, integer sets, integer coefficient matrices and bounds",
 "One test covers contiguous size ranges; the others are untested.",
 [I+"spec/DegreeConstraint.hpp",I+"spec/SizeConstraint.hpp",I+"spec/LinearConstraints.hpp",I+"util/IntSubset.hpp"],
 [("remaining-degree array","DegreeConstraint"),("counter","SizeConstraint"),("running sums with bounds","LinearConstraints")],
 ["families enumerated from the built diagrams"])
p("C19","Path counting on a spec equals counting on the built diagram",
 "Counting the accepted paths of a spec without building its diagram returns exactly the number of root-to-1 paths of the diagram the spec defines, as an exact decimal number, for every spec, level skipping, arity and with or without the fast or pruning-friendly variants.",
 ["inputs","programs"],"all specs",
 "No test counts paths directly.",
 [I+"dd/PathCounter.hpp",I+"util/BigNumber.hpp"],
 [("level-wise counting with multi-word accumulators","PathCounter")],
 ["countPaths result"])
p("C20","Support containers behave like their mathematical models",
 "Under every sequence of operations, element type and size (growth, reuse, clearing, copying, splicing) the hash set and map behave as a set and map, the vector as a sequence, the list as a stack with iteration, the small sets and bit sets as sets, integer ranges as sets of integers, the memory pool hands out disjoint stable storage, and the multi-word numbers compute exact sums, shifts, quotients and decimal texts.",
 ["histories","inputs"],"all operation sequences and element types",
 "Containers are only exercised indirectly by diagram tests.",
 [I+"util/MyHashTable.hpp",I+"util/MyVector.hpp",I+"util/MyList.hpp",I+"util/MySet.hpp",I+"util/MemoryPool.hpp",I+"util/BigNumber.hpp",I+"util/IntSubset.hpp",I+"dd/DataTable.hpp"],
 [("open addressing with rehash","MyHashTable"),("manual storage","MyVector, MyList, MemoryPool")],
 ["container contents after every operation"])
p("C21","The sample programs report correct results for every input and option",
 "The path enumerator, the N-queens solver and the number-link solver print the exact number of solutions (and only valid, distinct solutions where they print them) for every accepted simple graph, board size or puzzle and every combination of their options, with and without multi-processor mode: paths, cycles, connected components or forests with Hamilton, size and component constraints; queen placements, plain, after the rook constraint or coloured; link patterns in which every number is joined to an equal number, with at most the given number of blank boxes (all of them with -a, otherwise those without removable detours). Reduced diagrams they print or export denote exactly these solutions, and malformed input is reported as an error instead of crashing.",
 ["inputs","configurations"],"all graphs/boards/puzzles and option combinations",
 "The programs are only compiled by the test build.",
 ["apps/ddpaths/ddpaths.cpp","apps/ddqueens/ddqueens.cpp","apps/ddqueens/NQueenZdd.hpp","apps/numberlink/ddnumlin.cpp","apps/numberlink/NumlinZdd.cpp","apps/numberlink/Board.cpp"],
 [("ddpaths main","apps/ddpaths/ddpaths.cpp"),("queens specs","apps/ddqueens"),("number-link specs","apps/numberlink")],
 ["program output"])
p("C22","State merging keeps exactly the surviving states",
 "When a spec resolves equivalent states by merging, keeping the first or keeping the second, the diagram built from it in sequential mode contains exactly the paths through the surviving states at every level and at the accepting terminal: every edge to a discarded state leads to rejection and no edge to a surviving state is lost, for construction, subsetting and dumping alike, and also when the spec is wrapped by an unreduction or combined with a spec that merges nothing, in a way that changes no level.",
 ["inputs","programs"],"all specs whose choice among equivalent states is independent of the order of presentation",
 "No test spec defines state merging.",
 [I+"dd/DdBuilder.hpp",I+"dd/DdSweeper.hpp"],
 [("merge_states return codes","DdBuilder::construct, ZddSubsetter::subset, DdDumper::dumpStep")],
 ["DdStructure built from merging specs"])
p("C23","Exchange with external BDD packages preserves meaning",
 "Exporting a diagram to the SAPPOROBDD package gives exactly the same family (as a ZBDD) or Boolean function (as a BDD) with every level moved by the offset, for every offset, existing variable order and mode; levels that fall below 1 contribute only their 0-branch (families) or are rejected (functions). Using a package diagram as a spec gives the same family or function back. The package is never entered by two threads at a time, even when the diagram is in multi-processor mode. The CUDD wrapper computes the Boolean operations it names, can itself be used as a spec, and drops exactly the references it takes.",
 ["inputs","configurations","schedules"],"all diagrams, offsets, variable orders, operation sequences and schedules",
 "No test uses an external package.",
 [I+"eval/ToZBDD.hpp",I+"eval/ToBDD.hpp",I+"spec/SapporoZdd.hpp",I+"spec/SapporoBdd.hpp","apps/cnfbdd/Cudd.hpp"],
 [("evaluators","ToZBDD, ToBDD"),("wrapping specs","SapporoZdd, SapporoBdd, Cudd_")],
 ["package diagrams, diagrams built from them, reference counts"])
p("C24","The CNF programs report exactly the satisfying assignments",
 "For every CNF file they accept, cnfbdd and cnf2ztdd2bdd report the exact number of satisfying assignments and emit diagrams that denote exactly these assignments, whatever the clauses (empty, unit, tautological, repeated, with gaps in the variable numbering), the variable order or intermediate method chosen by options and with or without multi-processor mode. They use the external BDD package correctly (no use of freed nodes, balanced reference counts, no concurrent entry), and malformed input is reported instead of crashing.",
 ["inputs","configurations","schedules"],"all CNF formulas, option combinations and thread schedules",
 "The programs are only compiled, and only when the CUDD library is installed.",
 ["apps/cnfbdd/cnfbdd.cpp","apps/cnfbdd/CnfToBdd.hpp","apps/cnfbdd/Cudd.hpp","apps/cnf2ztdd2bdd/cnf2ztdd2bdd.cpp","apps/cnf2ztdd2bdd/CnfToZtdd.cpp","apps/cnf2ztdd2bdd/ZtddToCudd.hpp"],
 [("clause-set states and CUDD wrapper","apps/cnfbdd"),("ternary clause diagrams","apps/cnf2ztdd2bdd")],
 ["program output"])
p("C25","Progress messages only observe and report what happened",
 "Switching progress messages on or off changes no result of any operation. With messages off nothing is written; with messages on every operation writes one balanced block to the standard error stream only: its name, its progress (ten marks when completed, or rising percentages) and a final line with the number of nodes of the resulting diagram and the resources used, nested operations indented inside, an operation ended by an exception reported as aborted. Text written through handlers appears completely and in order, handlers that are alive together never share a line, the indentation and the format state of the stream are restored, and multi-processor mode adds no data race.",
 ["inputs","histories","schedules"],"all operation sequences, nestings, modes and clock readings",
 "Tests run with messages switched off.",
 [I+"util/MessageHandler.hpp",I+"util/ResourceUsage.hpp",I+"util/demangle.hpp",I+"DdStructure.hpp",I+"dd/DdSweeper.hpp",I+"dd/PathCounter.hpp",I+"util/Graph.hpp"],
 [("message streams","MessageHandler_"),("progress calls","DdStructure::construct_, zddSubset_, reduce, evaluate; PathCounter; DdSweeper")],
 ["text on std::cerr, results with and without messages"])
with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), max(len(x['title']) for x in P))
