"""Which workloads decide which property, and how many runs each tier makes."""
REAL = ["all TdZdd headers used by the workload (builders, subsetters, reducer, sweeper, node tables, hash tables, pools, lists, evaluators) compiled from /repo with -fopenmp",
        "libstdc++ (iostreams, containers, exceptions)"]
STUB = ["OpenMP runtime (teams, worksharing, barriers, single, critical, atomics, reductions): replaced by the simulator's scheduler",
        "OS threads, mutexes and condition variables: fibers of the simulator",
        "heap: deterministic arena with junk fill, no reuse, bounds and use-after-free checks",
        "clocks, rusage, rand: simulated"]

def P(tus, workloads, rule, quick, thorough, **kw):
    return dict(tus=tus, workloads=workloads, rule=rule, quick=quick, thorough=thorough, **kw)

def tiers(runs, wall=55, big=12, bigwall=600):
    return dict(runs=runs, wall=wall, det=24), dict(runs=runs * big, wall=bigwall, det=160, minimise=120)

PROPS = {}
q, t = tiers(120000)
PROPS["P01"] = P(["w_build"], "build2:4,build3:2,build5,build2wide:2,build2deep,build2fat,build70",
    "Random layered automaton encoded as a scalar, heap-owning, array or hybrid specification and built with 1-23 workers; non-trivial: more than 3 reachable states.", q, t)

q, t = tiers(100000)
PROPS["P03"] = P(["w_reduce"], "reduce2:4,reduce3:2,reduce4,reduce2wide:2,reduce2deep,reduce70",
    "Random diagram, then one to three reductions of random kind, mode and worker count, compared with a canonical reference diagram; non-trivial: more than 3 nodes and at least one reduction removed nodes.", q, t)
q, t = tiers(100000)
PROPS["P04"] = P(["w_subset"], "subset2:4,subset3:2,subset2wide:2,subset2fat,subset70",
    "Random ZDD (raw or reduced) subset by one or two random specifications or diagrams, compared with reference intersection; non-trivial: more than 3 reachable (node, state) pairs.", q, t)

q, t = tiers(150000)
PROPS["P02"] = P(["w_merge"], "merge2:3,merge3:2,merge2wide:2,mergesub2:3,mergesub3,merge12",
    "Random specification whose states carry a cost; the merge callback keeps the cheaper state or adds costs into the first; compared with a reference that groups the states of a level; non-trivial: at least two merges took place.", q, t)

q, t = tiers(100000)
PROPS["P05"] = P(["w_eval"], "eval2:4,eval3:2,eval2wide:2,eval2deep,eval70",
    "Random diagram evaluated one to three times by a hashing evaluator with scalar or heap-owning values that audits its own calls; non-trivial: more than 3 nodes.", q, t)

q, t = tiers(60000)
PROPS["P06"] = P(["w_hist"], "pipe2:4,pipe3:2,pipe2wide",
    "Random history of 2-8 operations over up to four diagrams, every result compared with the reference model; non-trivial: a diagram of more than 3 nodes and at least three operations.", q, t)
q, t = tiers(150000)
PROPS["P09"] = P(["w_hist"], "cow2:3,cow3",
    "Random history of 3-14 copies, assignments, swaps, destructions and in-place operations over up to six diagrams sharing tables; every other diagram is re-read after every step; non-trivial: a diagram of more than 3 nodes and an in-place operation.", q, t)
q, t = tiers(120000)
PROPS["P10"] = P(["w_fault"], "fault2:3,fault3,fault2wide",
    "Random history of 1-5 serial operations, each with one failing allocation, allocations failing from a point on, or a throwing callback at a random position; non-trivial: an operation really failed.", q, t)
q, t = tiers(130000)
PROPS["P16"] = P(["w_comp"], "comp2:4,comp2deep:2,comp2wide:2,comp3",
    "Random expression tree (conjunction, disjunction, intersection, union of 2-3 parts, look-ahead, unreduction, diagrams as parts) over random automata with scalar, heap-owning, array and hybrid states, built or used for subsetting; non-trivial: at least one operator and more than 3 nodes.", q, t)
q, t = tiers(100000)
PROPS["P08"] = P(["w_life", "w_merge"], "life2:3,life2deep,lifefat2,life2wide,life3,lifemerge2,lifemergesub2,level2,level3,levelcomp2,levelcomp3",
    "Random history of 1-4 constructions, subsets, reductions, evaluations, counts and copies with states and values that own heap memory, followed by an account of all state objects and all blocks; non-trivial: more than 3 heap-owning objects were made.", q, t)
q, t = tiers(45000)
PROPS["P18"] = P(["w_enum"], "count2:12,count2big,count3big,count4,count2wide,count12,iter2:7,iter2deep",
    "Random diagram (built, or reduced in a random way) counted once or twice as ZDD and BDD with string, 64-bit and floating-point counts over up to 900 more variables than levels, or iterated twice; non-trivial: more than 3 nodes, or more than one member iterated.", q, t)
q, t = tiers(60000)
PROPS["P13"] = P(["w_enum"], "inst2:4,inst3:2,inst5,inst12,instcover2,instcover3",
    "Random specification or diagram searched repeatedly under uniform, constant, extreme, alternating and counting random sources; on small families 700 searches must between them return every instance; non-trivial: an instance exists and the root is above level 1.", q, t)

q, t = tiers(150000)
PROPS["P11"] = P(["w_io"], "edges:3,edgesbig,adjacency:3,adjacencybig,groups:3,groupsbig,zddfile:2,zddfilebig",
    "Random edge list, adjacency list, vertex-group or ZDD text (odd spacing, missing final newline, malformed lines) delivered from a file or standard input in pieces, with interrupted, failing and refused system calls, read again after a failure, groups read repeatedly; non-trivial: more than one edge.", q, t)
q, t = tiers(120000)
PROPS["P12"] = P(["w_io"], "export2:4,export2wide,export2deep,export3:2,export4",
    "Random diagram or specification exported to memory, a file and a limited stream with short, interrupted, failing and throwing writes; the text is parsed back; non-trivial: more than 3 nodes.", q, t)
q, t = tiers(60000)
PROPS["P07"] = P(["w_sys"], "progress2:3,progress3,progress2wide:2,progress2deep",
    "Random diagram built, reduced, subset, counted, compared and converted with stalled workers, one-at-a-time schedules, shrinking teams, colliding hashes and callbacks with critical sections of their own; every operation must return within a fixed multiple of a work measure of its input; non-trivial: more than 3 reachable states.", q, t)
q, t = tiers(60000)
PROPS["P14"] = P(["w_sys"], "message2:3,message3:2,message2deep,message2wide",
    "Random history of operations with messages on, off and switched, standard error replaced by a stream that works, fails, recovers or throws, and a normal, frozen, leaping, backward or jittering clock; every result is compared with the reference model; non-trivial: a diagram of more than 3 nodes and messages were written (or disabled).", q, t)
q, t = tiers(140000)
PROPS["P15"] = P(["w_sys"], "callers2:3,callers3,callers2wide",
    "Two to four caller threads, each with its own diagrams and its own random sequence of 1-4 operations (building, reducing, subsetting, converting, counting, iterating, exporting, searching; sometimes all callers the same one), interleaved with each other and with their workers; every result is compared with that caller's reference model; non-trivial: at least two specifications of more than 3 states.", q, t)
q, t = tiers(100000)
PROPS["P17"] = P(["w_spec"], "graph6:4,graph9:2,items:2,fbs:2,fbs9",
    "Random small graph (cliques, grids, cycles with chords; any edge order), colour pairs, degree, connectivity, size or linear constraints, look-ahead on or off, built with a random team or used to filter the power set, compared with brute-force enumeration; non-trivial: more than one member.", q, t)
q, t = tiers(60000)
PROPS["P19"] = P(["w_sap"], "sap2:4,sap2wide,sap2deep",
    "Random diagram, built or reduced, exported to a BDD or ZBDD with a random offset and mode and imported again with the same or another offset; variables of the library in any order; non-trivial: the imported diagram has more than 3 nodes.", q, t,
    stub=["SAPPOROBDD: a stand-in that keeps functions in reference diagrams and reports overlapping calls"])
q, t = tiers(60000)
PROPS["P20"] = P(["w_app"], "queens,queenspec,numlin:2,numlinbig,paths:2,pathsbig,example:2,examplebig,usage",
    "The whole main of ddqueens, ddnumlin, ddpaths or graphillion_example with random options, a random board or graph, a random team and a stream that delivers in pieces or fails; exit code, counts and everything written are compared with brute-force enumeration; non-trivial: the program gave an answer with more than one solution.", q, t,
    stub=["SAPPOROBDD: a stand-in that keeps functions in reference diagrams and reports overlapping calls"])
q, t = tiers(120000)
PROPS["P21"] = P(["w_cnf"], "cnf:10,cnfbig:4,wrapper:4,cnfusage:2,cnfmany",
    "The whole main of cnfbdd or cnf2ztdd2bdd with random options, a random formula, a random team and a stream that delivers in pieces, fails or ends early, compared with the truth table; random sequences of operations of the CUDD wrapper compared with truth tables; non-trivial: more than one model and a diagram of more than 2 nodes.", q, t,
    stub=["CUDD: a stand-in with reduced diagrams, complemented edges and reference counts that reports overlapping calls and the use of unreferenced nodes"])
q, t = tiers(60000)
PROPS["P22"] = P(["w_count"], "paths2:40,paths3:20,paths2big:4,paths3big:4,paths4big:3,paths2skip,paths3skip,paths2side,paths3side,paths12",
    "Random specification of any kind, or a diagram, whose paths are counted one to three times in random ways (memory-saving, fast, 64-bit), by one to three callers at once, with failing allocations and throwing callbacks; large counts, long skips over word boundaries; non-trivial: more than 3 states that reach the 1-terminal, or a failure reported.", q, t)
q, t = tiers(150000)
PROPS["P23"] = P(["w_cont"], "vector:4,hash:2,list:2,pool:2,sets:3,numbers:3,table:2",
    "Random histories of operations on one to four objects of a utility class (vectors, hash tables and maps, lists, memory pools, small and bit sets, tables, multi-word numbers) with failing allocations, every observer compared after each step with a model; non-trivial: more than a few elements or words, or a failure reported.", q, t)
