#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (kept in step by construction)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from props import PROPS
I = "include/tdzdd/"
def A(files, mech, observe=None, state=None):
    return dict(files=[os.path.normpath(I + f) for f in files], state=state or [], mechanism=[dict(name=n, where=w if w.startswith('apps/') else I + w) for n, w in mech],
                observe_at=observe or [], hook_needed=None)
L = []
def prop(id, title, statement, over, text, why, anchors, note=None):
    assert len(title) <= 80, title
    L.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=anchors), note))

SCHED = "every number of workers, every interleaving of their memory accesses, every assignment of loop chunks, stalled workers, teams smaller than requested and nested calls"

prop("P01", "Construction yields exactly the specified function, one node per state",
 "A diagram constructed from a specification, with or without the multi-processor option, represents exactly the function the specification defines by its root state and child states. It has one node per distinct reachable (level, state) - never more nodes than distinct reachable states, and never fewer than those from which the 1-terminal is reachable - and every edge points to an existing node of a strictly lower level or to a terminal. size(), topLevel() and root() agree with the table, and a specification whose root is a terminal yields that terminal.",
 ["schedules", "inputs", "configurations"], "for every specification (scalar, object, array and hybrid states; arities 2-5; any state hash quality), " + SCHED,
 "The existing tests build a handful of fixed instances with whatever schedule the machine happens to produce; duplicate or lost nodes under a rare interleaving, an uneven chunk assignment or a hash collision do not change the few counts they compare.",
 A(["dd/DdBuilder.hpp", "dd/DdSweeper.hpp", "util/MyHashTable.hpp", "util/MyList.hpp", "DdStructure.hpp"],
   [("per-(worker,task) state lists, unique table per task, two-phase level construction", "dd/DdBuilder.hpp (DdBuilderMP::construct)"), ("dead-node sweeping", "dd/DdSweeper.hpp (update)")],
   ["DdStructure(spec, useMP)", "size()", "topLevel()", "root()", "child()"]))

prop("P02", "State merging and pruning keep exactly the winning states",
 "When a specification merges states, every group of equal states at a level is offered to the merge callback before any of them is expanded, and the diagram behaves as if only the surviving state of the group existed: references to a discarded state lead to the 0-terminal, references to the surviving state lead to its node. With a callback that keeps the best of two states the group's best state always survives, in construction and in subsetting, serial and multi-processor. In serial mode the same holds for the states that reach the 1-terminal.",
 ["schedules", "inputs", "configurations"], "for every merging specification whose preference is a total order, " + SCHED,
 "No existing test uses a merge callback at all; the order in which equal states meet depends on the schedule, so only a controlled scheduler reaches the discard-the-earlier, discard-the-later and several-in-a-row orders.",
 A(["dd/DdBuilder.hpp", "dd/DdSweeper.hpp", "DdSpec.hpp"],
   [("merge_states switch in the four builders", "dd/DdBuilder.hpp"), ("1-terminal candidate list", "dd/DdBuilder.hpp (oneSrcPtr)")], ["DdStructure(spec, useMP)", "zddSubset(spec)", "mergeStates callback"]))

prop("P03", "Reduction is canonical and preserves the function",
 "After zddReduce() or bddReduce() the diagram represents the same function as before, under that reduction's reading of skipped levels, and is the unique minimal diagram of it: no redundant node, no two equal nodes, and exactly the minimal number of nodes per level. After qddReduce() the function is the same under every reading and no two nodes reachable from the root are equal. The result is the same for serial and multi-processor reduction, for reductions applied in sequence, and for any number of workers.",
 ["schedules", "inputs", "histories", "configurations"], "for every diagram (including ones with dead nodes, shared copies and terminal roots), arities 2-5, " + SCHED,
 "The tests compare sizes of a few reduced diagrams; an unmerged pair or a lost redirection appears only for particular chunk boundaries, team sizes or hash clashes.",
 A(["dd/DdReducer.hpp", "dd/NodeTable.hpp", "DdStructure.hpp", "util/MyHashTable.hpp"],
   [("Algorithm R with in-place marks", "dd/DdReducer.hpp (algorithmR)"), ("task matrix, per-task unique tables, prefix sums over tasks", "dd/DdReducer.hpp (reduceMP_)"), ("level index", "dd/NodeTable.hpp (makeIndex)")],
   ["qddReduce()", "bddReduce()", "zddReduce()", "size()"]))

prop("P04", "Subsetting yields exactly the intersection with the specification",
 "zddSubset(spec) turns a ZDD into one that represents exactly the sets that were in the ZDD and satisfy the specification, both read with the zero-suppress rule for skipped levels; every edge is valid and the number of nodes never exceeds the number of distinct reachable pairs of an input node and a specification state. The specification and every other diagram sharing nodes with the input, including one used as the specification itself, are left unchanged.",
 ["schedules", "inputs", "histories", "configurations"], "for every input ZDD (reduced or not), every specification, roots at different levels, terminal roots, " + SCHED,
 "The tests subset a few fixed families; the level-alignment walk, the early release of input rows and the per-worker tables are exercised by one schedule each.",
 A(["dd/DdBuilder.hpp", "DdStructure.hpp", "dd/NodeTable.hpp", "util/MemoryPool.hpp"],
   [("lock-step descent of table and specification", "dd/DdBuilder.hpp (ZddSubsetter, ZddSubsetterMP)"), ("releasing finished input rows only when not shared", "dd/NodeTable.hpp (derefLevel)")], ["zddSubset(spec)"]))

prop("P05", "Bottom-up evaluation calls the evaluator exactly as documented",
 "evaluate() computes the evaluator's value of the root: every node of the levels up to the root's is evaluated exactly once, after its children, from its children's values and levels. Each copy of the evaluator is initialised before it evaluates a node and is never used by two workers at once; a level's values are not read after that level was released, levels are released at most once per copy; and an evaluator that declares itself not thread safe is run by the calling thread only.",
 ["schedules", "inputs", "configurations"], "for every diagram and evaluator (scalar and heap-owning values), also when the number of workers changes between operations or between parallel regions, " + SCHED,
 "Existing evaluators are stateless and tolerate being uninitialised or shared; a team that changes size inside one evaluation never happens in the tests.",
 A(["DdStructure.hpp", "DdEval.hpp", "dd/NodeTable.hpp", "eval/Cardinality.hpp"],
   [("per-worker evaluator copies", "DdStructure.hpp (evaluate)"), ("early release by lowerLevels index", "DdStructure.hpp (evaluate), dd/NodeTable.hpp (makeIndex)")], ["evaluate()"]))

prop("P06", "Whole computations give the same answer serially and in parallel",
 "For any sequence of operations - construct, reduce, subset, convert between BDD and ZDD form, switch the multi-processor option, change the number of workers, copy, compare, count - the function represented after every step, the equality verdicts (== and != between reduced diagrams) and the counts are those of the sequential definition of the operations, whichever mode, worker count and schedule each step used.",
 ["schedules", "histories", "configurations"], "for every operation sequence, mode and worker count per step, " + SCHED,
 "Tests run each pipeline once in one mode; agreement between modes over arbitrary sequences is never compared.",
 A(["DdStructure.hpp", "dd/DdBuilder.hpp", "dd/DdReducer.hpp", "op/Lookahead.hpp", "op/Unreduction.hpp"],
   [("mode dispatch and conversions", "DdStructure.hpp (bdd2zdd, zdd2bdd, useMultiProcessors)"), ("structural equality", "DdStructure.hpp (operator==)")], ["all public operations of DdStructure"]))

prop("P07", "Every operation finishes: no deadlock, bounded work under any schedule",
 "Construction, subsetting, reduction, evaluation, comparison and counting return after a number of steps bounded in terms of the size of the diagrams and the number of workers, whatever the scheduler does: workers stalled for long, run one at a time, or a team smaller than requested. No schedule makes workers wait for each other forever, also when callbacks of the specification or evaluator use critical sections of their own.",
 ["schedules", "fault_sequences", "configurations"], "for every operation and input, " + SCHED + ", colliding state hashes included",
 "A test that hangs one time in a thousand schedules looks green; no test stalls a worker or gives a region fewer workers than were planned.",
 A(["dd/DdBuilder.hpp", "dd/DdReducer.hpp", "DdStructure.hpp", "util/MyHashTable.hpp"],
   [("worksharing without spinning", "dd/DdBuilder.hpp, dd/DdReducer.hpp"), ("open addressing with a load bound", "util/MyHashTable.hpp")], ["all parallel operations"]))

prop("P08", "States and memory are released exactly once",
 "Every state object an operation creates from a specification is copied and read only while alive, is destroyed exactly once and none is left when the operation returns; evaluator values likewise. Memory that a copy of a specification keeps for the states of a level may be freed in its destructLevel(), which is called for each level that had states, after their last use. All memory an operation allocates is released when the diagrams and results are destroyed, nothing is read or written outside or after a live block, and nothing is freed twice.",
 ["schedules", "inputs", "histories", "configurations"], "for every specification with heap-owning states, every operation sequence that does not fail, " + SCHED,
 "Existing specifications use plain data, so a missed or doubled destructor call, or a stale pool block, is invisible to them.",
 A(["DdSpec.hpp", "dd/DdBuilder.hpp", "util/MemoryPool.hpp", "util/MyList.hpp", "util/MyVector.hpp", "util/MyHashTable.hpp", "dd/DataTable.hpp"],
   [("get_copy/destruct pairing", "dd/DdBuilder.hpp"), ("pool and list ownership", "util/MemoryPool.hpp, util/MyList.hpp")], ["state constructors and destructors", "operator new/delete"]))

prop("P09", "Diagrams have value semantics: operating on one never changes another",
 "Copying, assigning (self-assignment included), returning and destroying diagrams, in any order and interleaved with in-place operations (reduce, subset - also with a diagram or a copy of itself as specification), never changes the function, node count or iteration result of any other diagram object; a copy represents the same function as its source at the time of copying for as long as it lives.",
 ["histories", "schedules", "inputs"], "for every history of operations over several diagram objects that share node tables, in any mode, " + SCHED,
 "Tests use each diagram once; sharing bugs need a copy made before a particular in-place operation and inspected after it.",
 A(["dd/NodeTable.hpp", "DdStructure.hpp", "dd/DataTable.hpp"],
   [("reference-counted tables with copy on write", "dd/NodeTable.hpp (NodeTableHandler)")], ["copy constructor", "operator=", "destructor", "zddReduce()", "zddSubset()"]))

prop("P10", "A failed allocation or throwing callback corrupts nothing",
 "When an allocation fails or a callback of a specification or evaluator throws during a serial operation, the exception reaches the caller, no memory is freed twice or used after being freed, all diagrams that were not the target of the operation are unchanged, every involved object can still be destroyed, and a target that is assigned anew works normally.",
 ["fault_sequences", "histories", "inputs"], "for every serial operation and every point at which an allocation or callback can fail",
 "Tests never fail an allocation; each operation has hundreds of failure points.",
 A(["util/MyHashTable.hpp", "util/MyVector.hpp", "util/MyList.hpp", "util/MemoryPool.hpp", "dd/NodeTable.hpp", "dd/DdBuilder.hpp", "dd/DdReducer.hpp", "DdStructure.hpp"],
   [("order of release and allocation", "util/MyHashTable.hpp (initialize), dd/NodeTable.hpp (privateEntity, init, operator=)"), ("destructors of builders and tables", "dd/DdBuilder.hpp, util/MyVector.hpp")], ["operator new", "getChild/getRoot callbacks", "evalNode callback"]))

prop("P11", "Graph input is read completely or rejected, however the stream behaves",
 "Reading an edge list, adjacency list, vertex-group file or Graphillion ZDD file gives exactly the graph (with its vertex, edge, colour and frontier information) or diagram the bytes describe, independent of how the bytes are delivered (short reads, interrupted calls, any buffering, final line with or without a newline). If the stream reports an error before the end, the file cannot be opened, or the text is malformed - a wrong number of names on an edge line, something other than a number where one is needed, an incomplete or unresolvable node - the caller gets an exception, never a graph or diagram built from part of the input, and can read again. Vertex groups read later replace those read before.",
 ["fault_sequences", "inputs"], "for every well-formed file and every sequence of short reads, interruptions and read errors at any byte",
 "The tests read two intact files; no test delivers bytes piecemeal, drops the final newline or fails a read.",
 A(["util/Graph.hpp", "spec/GraphillionZdd.hpp"], [("token readers and EOF handling", "util/Graph.hpp (readEdges, readAdjacencyList, readVertexGroups), spec/GraphillionZdd.hpp (load)")], ["readEdges()", "readAdjacencyList()", "readVertexGroups()", "edgeSize()", "edgeName()", "getColor()"]))

prop("P12", "Exported text is complete and correct, or the stream reports failure",
 "dumpSapporo() (of a binary diagram) and dumpDot() (of a diagram or a specification, arity up to 4) write a text from which the exact diagram - every node, its level, every edge with its branch, and the root where the format has one - can be read back, in every mode and for terminal-only diagrams. If the output medium fails or is full, the bytes delivered are a prefix of the right text and the stream is left in a failed state; the diagram is never changed by an export.",
 ["fault_sequences", "inputs", "schedules"], "for every diagram and every sequence of short writes, interrupted writes, errors and full-disk conditions",
 "The tests compare no exported text under any write failure.",
 A(["DdStructure.hpp", "dd/NodeTable.hpp", "DdSpec.hpp", "dd/DdBuilder.hpp"], [("dumpers", "DdStructure.hpp (dumpSapporo), dd/NodeTable.hpp (dumpDot), dd/DdBuilder.hpp (DdDumper)")], ["dumpSapporo()", "dumpDot()"]))

prop("P13", "Random instance search returns members only, whatever the generator yields",
 "findOneInstance() on a specification or diagram returns, for every sequence the random source can produce, an instance the specification accepts - each level at which it branched named once with the value taken - whenever any accepted instance exists, and throws std::runtime_error when none exists. It always ends, every accepted path of the specification is returned for some random sequence, and every state it creates is destroyed.",
 ["inputs", "fault_sequences"], "for every specification and every behaviour of the random source, including constant, extreme and alternating values",
 "A random search checked with one seed covers one path; dead ends met in a particular order need particular random numbers.",
 A(["DdSpec.hpp", "dd/DepthFirstSearcher.hpp"], [("randomised backtracking over branches", "dd/DepthFirstSearcher.hpp"), ("entry point", "DdSpec.hpp (findOneInstance)")], ["findOneInstance()"]))

prop("P14", "Progress messages and clock behaviour never influence results",
 "Turning progress messages on or off, redirecting them to a stream that fails or throws nothing, and any behaviour of the clock (frozen, jumping forwards or backwards between any two readings) leave every result unchanged and cause no crash or endless loop; with messages enabled, everything written goes to the selected stream and with messages disabled nothing is written. However an operation ends - by returning or by an exception - the messages it opened are closed, so later messages are not indented or joined to them.",
 ["fault_sequences", "schedules", "configurations"], "for every operation sequence, every clock behaviour, every write-failure pattern of the message stream",
 "Tests never move the clock backwards during an operation or fail the message stream.",
 A(["util/MessageHandler.hpp", "util/ResourceUsage.hpp", "DdStructure.hpp"], [("step rate limiting and column tracking", "util/MessageHandler.hpp"), ("elapsed time counters", "util/ResourceUsage.hpp")], ["MessageHandler", "all operations"]))

prop("P15", "Independent diagrams may be used from different threads at the same time",
 "Several application threads that each construct, reduce, subset, evaluate and destroy diagrams of their own - no diagram, nor a copy of one, shared between threads, and messages left disabled - obtain the same results as if each thread had run alone, whatever the interleaving and whichever of them use the multi-processor option.",
 ["schedules", "histories"], "for every set of per-thread operation sequences and every interleaving of the threads and their workers",
 "All tests are single-caller.",
 A(["DdStructure.hpp", "util/MessageHandler.hpp", "util/MyHashTable.hpp", "dd/NodeTable.hpp"], [("no mutable state shared between diagrams", "whole library")], ["all public operations from several threads"]))

prop("P16", "Composed specifications mean the composition and stay private to a worker",
 "bddAnd/bddOr and zddIntersection/zddUnion of two or more specifications, the look-ahead and unreduction wrappers and a diagram used as a specification define exactly the conjunction, disjunction, intersection, union or unchanged function of their parts, including parts with heap-owning states, parts whose roots are terminals or at different levels, and nested compositions. Built with any number of workers, a copy of a part is never used by two workers at once, and every part's states are destroyed exactly once.",
 ["schedules", "inputs", "programs"], "for every composition of specifications up to depth 3, " + SCHED,
 "Tests compose a few plain-data specifications serially.",
 A(["DdSpecOp.hpp", "op/BinaryOperation.hpp", "op/Lookahead.hpp", "op/Unreduction.hpp"], [("packed product states", "op/BinaryOperation.hpp"), ("scratch states of wrappers", "op/Lookahead.hpp")], ["bddAnd()", "bddOr()", "zddIntersection()", "zddUnion()", "bddLookahead()", "zddLookahead()", "bddUnreduction()", "zddUnreduction()"]))

prop("P17", "The supplied combinatorial specifications enumerate exactly their families",
 "Built with any mode and schedule, the supplied specifications give exactly: the subsets whose size is in a given set; the edge sets whose vertex degrees are in given sets; the simple paths connecting the coloured vertex pairs, the Hamiltonian paths, the simple cycles and the Hamiltonian cycles of a graph; the edge sets that connect all vertices of a colour, keep different colours apart, form the given number of uncoloured components and, on request, contain no cycle (FrontierBasedSearch); and the 0-1 vectors satisfying given linear inequalities. Look-ahead on or off does not change the family.",
 ["schedules", "inputs", "configurations"], "for every simple graph without self-loops, any edge order, colouring (in pairs for paths), constraint and option, " + SCHED,
 "Tests count a few grid graphs in one mode.",
 A(["spec/SizeConstraint.hpp", "spec/DegreeConstraint.hpp", "spec/PathZdd.hpp", "spec/PathZddByStdMap.hpp", "spec/FrontierBasedSearch.hpp", "spec/LinearConstraints.hpp", "util/Graph.hpp", "util/IntSubset.hpp"],
   [("frontier states", "spec/PathZdd.hpp, spec/DegreeConstraint.hpp"), ("frontier layout", "util/Graph.hpp (update)")], ["DdStructure(spec, useMP)"]))

prop("P18", "Counting and enumeration agree with the represented family",
 "zddCardinality() and bddCardinality(n) return the exact number of members however large it is, in every mode; iterating a binary ZDD from begin() to end() yields every member exactly once, each as the set of its item numbers, and nothing else. Neither changes the diagram, and both may be repeated with the same result.",
 ["schedules", "inputs", "configurations"], "for every ZDD/BDD (reduced or not), counts from 0 to far beyond 64 bits, " + SCHED,
 "Tests print a few counts; carries at word boundaries under parallel evaluation and enumeration of unreduced diagrams with dead nodes are not covered.",
 A(["eval/Cardinality.hpp", "util/BigNumber.hpp", "DdStructure.hpp"], [("big-number accumulation in per-worker evaluators", "eval/Cardinality.hpp"), ("path iterator", "DdStructure.hpp (const_iterator)")], ["zddCardinality()", "bddCardinality()", "begin()", "end()"]))

prop("P19", "Exchange with SAPPOROBDD keeps the function, one call at a time",
 "Evaluating a binary diagram with ToZBDD(offset) or ToBDD(offset) gives the ZBDD or BDD of the same family or function with level i moved to level i + offset, whatever the order of that library's variables; missing variables are created. Members with an item that would get a level below 1 are left out by ToZBDD; ToBDD throws when a node would get a level below 1. With or without the multi-processor option the library, which serves one thread at a time, is never entered by two workers at once, and every handle except the result is released. A diagram constructed serially from SapporoZdd or SapporoBdd with an offset represents the same family or function with level i + offset moved to level i, under the same rule for levels below 1. The exported diagram is not changed.",
 ["schedules", "inputs", "configurations"], "for every binary diagram, offset and order of the other library's variables, " + SCHED,
 "No existing test uses the exporters or the importers; whether two workers meet inside the other library depends on the schedule.",
 A(["eval/ToBDD.hpp", "eval/ToZBDD.hpp", "spec/SapporoBdd.hpp", "spec/SapporoZdd.hpp", "DdStructure.hpp"], [("evaluators that declare themselves not thread safe", "eval/ToBDD.hpp, eval/ToZBDD.hpp (isThreadSafe), DdStructure.hpp (evaluate)"), ("level offsets", "eval/ToBDD.hpp, eval/ToZBDD.hpp")], ["evaluate(ToZBDD(offset))", "evaluate(ToBDD(offset))", "DdStructure(SapporoZdd)", "DdStructure(SapporoBdd)"]))

prop("P20", "The bundled programs find exactly the right solutions",
 "Each bundled program answers for exactly the solutions of its problem. ddqueens: the report and the dumped diagram are those of the placements of n queens (with -rook, which only changes the way, the same), of n coloured sets of queens with -colored and -colored1; its specifications (NQueen and NRook, in either column order, ColoredNRook, NAry, OneHotNAry, ZddInterleave) represent exactly the sets they describe. ddnumlin: with -a exactly all ways to link the labels of a numberlink board of at least two cells, without it only solutions and at least one when the board has one, with -k the given number of blank cells at most; the listed boards are distinct solutions. ddpaths: for every combination of its options the reported and the listed, exported or counted families are exactly the paths, cycles, coloured links, components or forests of the graph under the given constraints. graphillion_example: likewise for its degree, component, loop and size constraints, with -import restricted to the given family (one that mentions the last edge). The answer is the same with and without -p, for every schedule. Input that cannot be read in full makes the program fail instead of answering for a part of it, and a wrong command line is refused with a failure exit and without an answer.",
 ["schedules", "inputs", "faults", "configurations"], "for every board, graph and combination of options, every way the input stream delivers or fails, and " + SCHED,
 "The existing tests run none of these programs; small boards and graphs have few solutions, and a wrong one shows only against an independent enumeration.",
 A(["../../apps/ddqueens/ddqueens.cpp", "../../apps/ddqueens/NQueenZdd.hpp", "../../apps/ddqueens/NAryZdd.hpp", "../../apps/ddqueens/ZddInterleave.hpp", "../../apps/numberlink/ddnumlin.cpp", "../../apps/numberlink/NumlinZdd.cpp", "../../apps/numberlink/Board.cpp", "../../apps/numberlink/DegreeZdd.cpp", "../../apps/ddpaths/ddpaths.cpp", "../../apps/graphillion/graphillion_example.cpp"], [("program options and the pipeline behind each", "apps/*/dd*.cpp (main)")], ["ddqueens", "ddnumlin", "ddpaths", "graphillion_example"]))

prop("P21", "The CNF programs find exactly the models of the formula",
 "For every well-formed DIMACS CNF formula of 1 to 65535 clauses, cnfbdd and cnf2ztdd2bdd report the number of its models, dump diagrams of exactly its models (cnf2ztdd2bdd -dd0, -dd1 and -dd2: of exactly its clauses) and list each model once, whatever the order, repetition or redundancy of its clauses and literals, including clauses that always hold. cnfbdd does so with every combination of -s, -n, -b, -limit, -c and -p, which change only the way, for every schedule of the workers of -p, and pictures exactly the clauses of the input with -cnf. Input that cannot be read in full, ends early, or holds too many clauses or variables out of range, and a wrong command line, end with a failure exit and without an answer. CUDD is never entered by two workers at a time, no node is used that nothing refers to, and no reference is left behind. The operators and functions of the CUDD wrapper (class Cudd) compute what they name, and a diagram built from a Cudd object represents its function.",
 ["schedules", "inputs", "faults", "configurations"], "for every formula and combination of options, every way the input stream delivers, fails or ends, and " + SCHED,
 "The existing tests run neither program; the pruning and renaming of clause states goes wrong only for formulas with particular shared suffixes, and a reference-count race only shows long afterwards.",
 A(["../../apps/cnfbdd/cnfbdd.cpp", "../../apps/cnfbdd/CnfToBdd.cpp", "../../apps/cnfbdd/CnfToBdd.hpp", "../../apps/cnfbdd/Cudd.hpp", "../../apps/cnf2ztdd2bdd/cnf2ztdd2bdd.cpp", "../../apps/cnf2ztdd2bdd/CnfToZtdd.cpp", "../../apps/cnf2ztdd2bdd/CnfToZtdd.hpp", "../../apps/cnf2ztdd2bdd/ZtddToCudd.hpp"], [("program options and the pipeline behind each", "apps/cnf*/cnf*.cpp (main)")], ["cnfbdd", "cnf2ztdd2bdd", "Cudd"]))

prop("P22", "Paths are counted exactly without building a diagram",
 "countPaths(spec), countPaths(spec, true) and, when the number is below 2^64, countPaths64(spec) return the exact number of paths from the root to the 1-terminal, which is the number of members of the ZDD of the specification, for every specification (of one that merges states nothing is claimed), however large the number is and however many levels an edge skips. Every state is destroyed, destructLevel() is called for each level that had states, after their last use, and all memory is released; counting can be repeated; several callers can count at once, each with a specification of its own; a failed allocation or an exception of the specification reaches the caller, and counting again afterwards is right.",
 ["schedules", "inputs", "faults"], "for every specification, number of levels and of paths, point of failure, and " + SCHED,
 "No test counts paths this way; the storage of a number runs out only when numbers of different levels meet behind a long skip.",
 A(["dd/PathCounter.hpp", "util/BigNumber.hpp", "util/MyList.hpp", "util/MyHashTable.hpp"], [("number of words reserved for a count", "dd/PathCounter.hpp (growthWords)"), ("merging of equal states with their counts", "dd/PathCounter.hpp (count, countFast, count64)")], ["countPaths(spec)", "countPaths(spec, true)", "countPaths64(spec)"]))

prop("P23", "The utility containers and numbers hold exactly what was put into them",
 "For every history of operations (construction, growth, shrinking, writing, erasing, copying, assignment, self-assignment, swapping, clearing), MyVector, DataTable, MyHashTable, MyHashMap, MyList, MyListOnPool, the sets of MySet.hpp, BigNumber and FixedBigNumber hold exactly the elements, keys and values, or the number, that the operations give them: every observer (size, membership, equality, comparison of hash codes of equal sets, forward and reverse iteration, which visits each element once, printing, remainder, word count) agrees, and other objects do not change. Pieces obtained from memory pools do not overlap and keep their contents until the pool is cleared, also after a splice. Every element is destroyed exactly once and all memory is released. A failed allocation is reported as std::bad_alloc, after which the container can still be cleared, assigned to and destroyed; overflow of a FixedBigNumber and a non-zero value for a BigNumber without storage are reported as std::runtime_error.",
 ["inputs", "histories", "faults"], "for every sequence of operations, element type, size, and point at which an allocation fails",
 "No test uses these classes directly; self-assignment, growth across block limits, erasing in the middle, carries over word limits and failed allocations are each reached by particular histories only.",
 A(["util/MyVector.hpp", "util/MyHashTable.hpp", "util/MyList.hpp", "util/MemoryPool.hpp", "util/MySet.hpp", "util/BigNumber.hpp", "dd/DataTable.hpp"], [("moving of elements when a vector grows", "util/MyVector.hpp (reserve)"), ("open addressing and growth of the hash table", "util/MyHashTable.hpp (add, rehash)"), ("block chain of a pool", "util/MemoryPool.hpp (alloc, splice, reuse)"), ("carries over 63-bit words", "util/BigNumber.hpp (add, shiftLeft, divide)")], ["MyVector", "DataTable", "MyHashTable", "MyHashMap", "MyList", "MyListOnPool", "MemoryPool", "MemoryPools", "MySmallSet", "MyBitSet", "BigNumber", "FixedBigNumber"]))

NA = []
def na(p, reason): NA.append((p, reason))

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as o:
        for p, _ in L:
            o.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks = []
    for p, _ in L:
        if p["id"] not in PROPS: continue
        checks.append(dict(property=p["id"], quick_cmd="python3 bin/check.py %s --tier quick" % p["id"],
            thorough_cmd="python3 bin/check.py %s --tier thorough" % p["id"],
            evidence_file="evidence/%s.json" % p["id"],
            technique="deterministic simulation with fault injection: seeded search over schedules and faults, reference-model oracle",
            level="exploration", level_note=PROPS[p["id"]].get("note", "Seeded sampling of schedules, faults and inputs on the real headers under a simulated OpenMP runtime, heap and clock; trusts the simulator, the reference model and sequential consistency. Evidence, not proof.")))
    claimed = set(PROPS)
    nal = [dict(property=p["id"], reason="check under construction") for p, _ in L if p["id"] not in claimed] + [dict(property=a, reason=r) for a, r in NA]
    m = dict(version=1, setup_cmd="python3 bin/setup.py", hooks=dict(guard="none", enable="no hooks are needed: the checks compile /repo's headers unchanged and substitute the runtime at link time", source_commits=[]),
             checks=checks, not_applicable=nal,
             notes="See DESIGN.md. Replay a failure with: python3 bin/check.py <id> --replay <file>")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
main()
