"""Writes properties.jsonl and MANIFEST.json."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/'
P=[]
def add(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":list(over),"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[dict(zip(("name","meaning","where"),s)) for s in state],
                 "mechanism":[dict(zip(("name","where"),m)) for m in mech],"observe_at":list(observe),"hook_needed":hook}})
W='wagyu/wagyu.py';L='wagyu/local_minimum.py';B='wagyu/bound.py';R='wagyu/ring_manager.py'
M='src/main.cpp';H='include/mapbox/geometry/wagyu/'
add("C01","Answers depend on the rings held only, not on what was done before",
 "Whatever has been done with clippers before (executions of any operations with any fill kinds in any order, readings, copies, clearings, rejected additions, collections of garbage, work of other clippers of the process), each answer of a clipper is the one a new clipper with the same orientation gives in a new process after the rings currently held have been added to it. An operation can be repeated any number of times with the same result, and executing or reading never changes what the clipper holds.",
 ["histories","inputs","programs"],"for all sequences of calls on any number of clippers of one process, all rings with integer coordinates, both implementations (port and native)",
 "Tests build a clipper, make one call and throw it away: no test executes a second operation on a used clipper or compares it with a fresh one, and the number of histories is unbounded.",
 [W,L,B,'wagyu/edge.py',R,'wagyu/ring.py',M,H+'wagyu.hpp',H+'local_minimum_util.hpp',H+'vatti.hpp'],
 [("working state of bounds is reset before every execution","LocalMinimum.initialize in wagyu/local_minimum.py, initialize_lm in "+H+"local_minimum_util.hpp"),("every execution has a ring manager of its own","Wagyu.execute in wagyu/wagyu.py, wagyu::execute in "+H+"wagyu.hpp")],
 [("local minimums","what is held between calls",L)],["results, bounds, scanbeams, edges of local minimums"])
add("C02","An exception in the middle of an execution leaves no trace",
 "If an asynchronous exception (interruption by the user, exhausted memory or recursion limit, an exception raised by a signal handler) ends an execution or a reading of a clipper of the port at any instruction, it reaches the caller, and every later answer of this and of any other clipper is the one a clipper which has never been interrupted gives. Executions finish in a number of steps comparable with the one of a new clipper.",
 ["fault_sequences","histories","crash_points","inputs"],"for all places in executions and readings where an exception can appear, all sequences of such failures and later calls",
 "No test interrupts a call; the place (any of tens of thousands of instructions of one execution) and later history decide, tests cannot control where an asynchronous exception arrives.",
 [W,R,B,L,'wagyu/ring.py','wagyu/point_node.py'],
 [("working state is reset if execution fails","Wagyu.execute in wagyu/wagyu.py"),("working state is initialised before execution","LocalMinimum.initialize in wagyu/local_minimum.py")],
 [("bounds","positions, winding counts and references to unfinished rings",B)],["exceptions and later results"])
add("C03","Additions are all or nothing, acknowledged ones are never lost",
 "Adding a ring, adding a polygon or clearing either happens completely or, if the call fails (a bad argument, an exception at any instruction, a failed allocation), not at all, unless the failure comes after it has been done completely. Rings acknowledged before are neither lost nor changed by failures of other calls, so later results cover exactly the region the acknowledged rings define.",
 ["fault_sequences","histories","crash_points","inputs"],"for all rings and polygons, all places where an addition or a clearing can fail, all histories around it, both implementations",
 "Tests add valid rings only and never make an addition fail, the more so at a chosen instruction or allocation of it.",
 [W,L,'wagyu/linear_ring.py',B,M,H+'wagyu.hpp',H+'build_local_minima_list.hpp',H+'build_edges.hpp'],
 [("minimums of a ring are collected aside and added at once","LocalMinimumList.add_linear_ring in wagyu/local_minimum.py, add_linear_ring in "+H+"build_local_minima_list.hpp"),("minimums of a polygon are collected aside and added at once","Wagyu.add_polygon in wagyu/wagyu.py, wagyu::add_polygon in "+H+"wagyu.hpp")],
 [("local minimums","what is held between calls",L)],["results of operations after failures, return values"])
add("C04","The native module survives failing allocations and interruptions",
 "When an allocation fails or cooperative interruption is requested at any point inside of a native call, the call raises an ordinary Python exception (or completes), the process neither crashes nor hangs, and every later answer of any clipper is the one a clipper which has met no failure gives. A request of interruption stops exactly one execution and is forgotten by it.",
 ["fault_sequences","histories","crash_points","inputs"],"for all allocations and function entries of native calls, all sequences of such failures and later calls",
 "Tests never run out of memory and the interruption facility is not even compiled into the module they load.",
 [M]+[H+n for n in ('wagyu.hpp','interrupt.hpp','vatti.hpp','ring.hpp','ring_util.hpp','topology_correction.hpp','build_local_minima_list.hpp','snap_rounding.hpp','local_minimum_util.hpp')],
 [("containers own everything allocated by an execution","ring_manager in "+H+"ring.hpp"),("bounds are released if execution fails","wagyu::execute in "+H+"wagyu.hpp"),("checks of requests","interrupt_check in "+H+"interrupt.hpp")],
 [("request of interruption","flag of the thread",H+"interrupt.hpp")],["exceptions, survival of the process, later results"])
add("C05","Clippers of different threads do not influence each other",
 "Threads may use clippers of their own at the same time, rings, polygons and points passed to them may be shared between threads, and however the threads are interleaved each call answers what it answers without other threads.",
 ["schedules","inputs","programs"],"for all interleavings (switches between any instructions of the port, between calls and in native code running without the interpreter lock) of 2 and more threads using their own clippers",
 "All tests are single-threaded; a race needs a switch at a specific instruction, which tests do not control.",
 [W,R,L,B,'wagyu/utils.py','wagyu/enums.py',M,H+'interrupt.hpp',H+'config.hpp'],
 [("no module-level mutable state","whole wagyu package and include directory"),("flag of interruption belongs to the thread",H+"interrupt.hpp")],(),["results of calls in each thread"])
add("C06","A native clipper shared by threads behaves as if calls came one by one",
 "If several threads call one native clipper, every call behaves as if calls were made one after another in some order which agrees with the order of calls which did not overlap: additions are not lost or torn, results correspond to the rings added before, the process does not crash.",
 ["schedules","histories","inputs"],"for all interleavings of calls of 2-4 threads on one native clipper",
 "Tests are single-threaded, and whether calls are atomic depends on switches of threads inside of native code.",
 [M,H+'wagyu.hpp'],[("interpreter lock is held during native calls",M)],(),["return values of concurrent calls"])
add("C07","Answers do not depend on the environment of the process",
 "The same script gives bit for bit the same answers whatever identities and addresses objects have, whatever memory contained before, whenever garbage is collected, whatever decimal context, depth of stack, optimisation level and seed of hashes the caller has.",
 ["configurations","inputs","schedules"],"for all scripts of calls and all assignments of identities, addresses, moments of collection of garbage, decimal contexts, depths of stack, seeds of hashes and optimisation levels of the interpreter",
 "Tests run in the one environment the runner gives them, identities of objects are decided by the allocator, and no test compares two environments.",
 [R,'wagyu/ring.py','wagyu/utils.py','wagyu/point_node.py','wagyu/bubble_sort.py',M,H+'ring_util.hpp',H+'topology_correction.hpp',H+'vatti.hpp',H+'ring.hpp'],
 [("ties are decided by explicit keys (indices, coordinates), not by addresses","sorting in wagyu/ring_manager.py and "+H+"ring_util.hpp"),("rounding uses a context of its own","round_half_up in wagyu/utils.py")],(),["results, bounds, scanbeams, local minimums"])
add("C08","Inputs and results obtained before are never modified",
 "No call, completed or failed, changes points, rings and polygons passed by the caller or results returned before, and changes the caller makes to results returned before change neither the clipper nor other results.",
 ["histories","fault_sequences","inputs"],"for all histories of calls on clippers sharing rings and polygons, failures included",
 "Tests compare return values only, generate new inputs for each call and never look at an input or at an older result after another call.",
 [W,L,'wagyu/linear_ring.py','wagyu/edge.py',B,'wagyu/polygon.py','wagyu/point_node.py',R,M,H+'build_edges.hpp',H+'build_result.hpp'],
 [("results consist of new points","point_node_to_linear_ring in wagyu/polygon.py"),("edges are not changed after they have been made from a ring","wagyu/bound.py, wagyu/wagyu.py")],(),["rings, polygons, results held by the caller"])
add("C09","Native objects stay valid as long as Python holds them",
 "An object obtained from a native object (local minimum, bound, edges, edge, point, box, ring, polygon, iterator over them) keeps its value as long as it is held, no matter in which order the objects it has been obtained from are dropped, collected and their memory is used for other objects, and no matter how many rings are added and operations are executed meanwhile.",
 ["histories","schedules","inputs"],"for all orders of obtaining and dropping native objects, with additions, executions and reuse of memory in between (clearing of a clipper whose minimums are held is a known finding)",
 "Tests hold everything until the end of the test, and reading freed memory usually gives the old value unless the memory is reused.",
 [M],[("return value policies and keep-alive relations",M)],(),["values read from objects which are still held"])
add("C10","Snapshots restore the same state in another process",
 "A clipper of the port which has been pickled or deep-copied and restored, in the same or in another process, at any moment of its history, is equal to the original and answers every later call the way the original does; results and value types of both implementations which have been pickled keep their values. A server which logs additions and saves snapshots therefore comes back after a crash at any point with the acknowledged state.",
 ["crash_points","histories","fault_sequences","inputs"],"for all histories, all moments of snapshots and crashes, all pickle protocols from 2, lost and torn writes of the storage",
 "Tests pickle fresh value objects within one process and never a clipper with a history, and nothing crashes in them.",
 [W,L,B,'wagyu/edge.py','wagyu/point.py','wagyu/linear_ring.py','wagyu/polygon.py','wagyu/box.py','wagyu/enums.py',M],
 [("whole state is in slots of plain objects","__slots__ of classes of the wagyu package"),("pickling of native value types","py::pickle in "+M)],
 [("state of a clipper","local minimums and orientation",W)],["equality with the original, later results"])
add("C11","Port and native module are interchangeable",
 "A port clipper and a native clipper which have gone through the same history of calls with integer coordinates hold equal local minimums and give equal answers: return values of additions, bounds, scanbeams, and results of all operations with the same polygons, rings and points in the same order; if one of them reports an error so does the other. This holds as well if operations of one of them have been aborted and repeated or it has been rebuilt from the log of additions.",
 ["histories","inputs","fault_sequences"],"for all histories of additions, executions of all operations with all fill kinds, clearings, with any integer rings (degenerate, self-intersecting, touching, duplicated), and all faults aborting calls of one side",
 "Integration tests compare single calls for small random scenes; rare configurations (collinear overlaps, many touching rings, loops of intersections) and long histories are not reached, three defects were found there.",
 ['wagyu/*.py',M,H+'*.hpp'],[("the port follows the native algorithm step by step","wagyu/ring_manager.py and "+H+"vatti.hpp, topology_correction.hpp, snap_rounding.hpp")],(),["all answers of both sides"])
add("C12","Regions merged over an unreliable cluster converge",
 "Results are regions which can be merged again: given as inputs to clippers of any of the implementations they are accepted, and uniting them gives the union of what has been merged, with nothing covered twice and with the requested orientation, no matter in which order, how often and grouped in which way they arrive. So nodes which exchange merged regions over a network which loses, repeats and reorders messages, crash and restart, all end with the same regions as soon as all updates have reached them, and all other operations on such regions agree with the updates merged so far.",
 ["schedules","histories","fault_sequences","inputs"],"for all clusters of nodes and orders of delivery, duplication and loss of messages, partitions, crashes, lost writes, aborted merges; exactly for regions with horizontal and vertical edges, up to rounding for others on grids which are coarse compared with their units",
 "Tests never give results back as inputs and check no region at all: they compare implementations or types.",
 [W,R,'wagyu/polygon.py','wagyu/ring.py',M,H+'build_result.hpp',H+'topology_correction.hpp',H+'vatti.hpp',H+'snap_rounding.hpp'],
 [("topology correction makes results valid","correct_topology in wagyu/ring_manager.py, "+H+"topology_correction.hpp"),("orientation of results","point_node_to_linear_ring in wagyu/polygon.py, "+H+"build_result.hpp")],(),["merged regions, answers of nodes"])
add("C13","The list of local minimums behaves as a mutable sequence",
 "The list of local minimums of the port answers and changes under insertion, deletion, replacement, reversal, searching, counting, iteration and comparison as the built-in list does, negative and too large positions included, and a call which has been ended by an exception has changed nothing or everything (prefixes of many added elements are allowed). Its order does not change the regions operations give, and positions of scanbeams are its sorted ordinates.",
 ["histories","fault_sequences","inputs"],"for all histories of calls of the interface of mutable sequences and all places where they can be interrupted",
 "Tests of the list build it once and check a single call; insertion was endlessly recursive and no test noticed.",
 [L,R],[("delegation to a built-in list","LocalMinimumList in wagyu/local_minimum.py")],[("elements","list of local minimums",L)],["contents and answers of the list"])
add("C14","Operations leave nothing behind",
 "Repeating any history of calls, with operations completed or aborted by failures at the same places, does not increase what the process holds: native memory and objects of the library which are alive after a repetition are as many as after the one before, and nothing is left when all clippers and results have been dropped.",
 ["histories","fault_sequences","inputs"],"for all histories repeated any number of times, with exceptions, failing allocations and interruptions at any places",
 "Tests never look at memory, and leaks appear on paths of failures or in rare configurations only.",
 [W,R,B,L,M,H+'ring.hpp',H+'wagyu.hpp',H+'interrupt.hpp'],[("containers own everything allocated by an execution","ring_manager in "+H+"ring.hpp"),("no module-level caches","whole wagyu package")],(),["number of live native blocks and Python objects"])
add("C19","Stages of operations of both implementations are the same",
 "Ring managers of the port and of the native module which are taken through an operation stage by stage (hot pixels, the sweep as a whole or scanbeam by scanbeam, orientation, collinear edges, self-intersections, tree of rings, chained rings, building of the result) are in the same state after each stage: the same rings with the same points, parents and children, the same hot pixels, active bounds and scanbeams, the same answers and errors. Stages performed one by one give what the whole operation gives, and a stage which has been aborted and repeated by a new manager from its log gives what it gave before.",
 ["histories","inputs","fault_sequences"],"for all rings with integer coordinates, operations, fill kinds, sequences of stages an operation consists of, and faults aborting stages",
 "Integration tests call single stages on empty or nearly empty managers with default scenes; states in the middle of an operation over rare configurations (loops of intersections, holes touching their parents, overlapping edges) are not reached.",
 ['wagyu/ring_manager.py','wagyu/ring.py','wagyu/point_node.py','wagyu/bound.py','wagyu/bubble_sort.py',M]+[H+n for n in ('vatti.hpp','process_maxima.hpp','process_horizontal.hpp','snap_rounding.hpp','intersect.hpp','topology_correction.hpp','ring_util.hpp','active_bound_list.hpp','build_result.hpp')],
 [("stages are methods of ring managers","RingManager in wagyu/ring_manager.py, RingManager in "+M)],[("rings","rings, their points and relations after each stage",R)],["rings, hot pixels, active bounds and scanbeams after each stage"])
NA=[]
def na(id,title,statement,reason,text,why,files,mech):
    add(id,title,statement,["inputs"],text,why,files,mech)
    NA.append({"property":id,"reason":reason})
na("C15","Rings of results are minimal and well formed",
 "Every ring of a result is closed, has at least three different points and no point lying between its neighbours, exterior rings come first in their polygons and holes after them.",
 "a predicate on the value of one pure single-threaded call: no schedule, clock, I/O or fault takes part in deciding it, a simulator would only be a random input generator for it (orientation and coverage of results are decided over histories by C12)",
 "for all inputs of a single operation","Tests check types of results only.",['wagyu/polygon.py',R,H+'build_result.hpp',H+'topology_correction.hpp'],[("collinear points are removed","correct_collinear_edges in wagyu/ring_manager.py")])
na("C16","Intersections of edges are rounded to the nearest grid point",
 "The point of intersection of two edges used by an operation is the exact one rounded to the nearest integer point.",
 "numerical property of pure arithmetic helpers of a single call, nothing nondeterministic takes part in it",
 "for all pairs of edges with integer coordinates","Tests sample floats with default strategies and compare implementations only.",['wagyu/edge.py','wagyu/utils.py',H+'intersect_util.hpp',H+'util.hpp'],[("rounding helpers","wagyu/utils.py")])
na("C17","Value types obey laws of equality and ordering",
 "Equality of points, edges, rings, polygons, boxes and results is reflexive, symmetric and transitive and agrees with their coordinates, ordering of hot pixels, local minimums and intersections is a strict weak one.",
 "algebraic laws of pure functions of immutable values, there is nothing for a simulator to schedule or to fail",
 "for all values","Tests sample them with property-based testing.",['wagyu/point.py','wagyu/edge.py','wagyu/box.py',M],[("comparison methods","wagyu/point.py, src/main.cpp")])
na("C18","Comparisons of floats agree with tolerance on both sides",
 "Helpers comparing floats approximately are consistent with each other (exactly one of less, equal and greater holds) and between the implementations.",
 "pure functions of two numbers without any state, time or environment",
 "for all pairs of floats","Tests sample them with property-based testing.",['wagyu/utils.py',H+'almost_equal.hpp',H+'util.hpp'],[("comparison by units in the last place","wagyu/utils.py")])
with open(ROOT + 'properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+"\n")
CL=[p for p in P if p["id"] not in {n["property"] for n in NA}]
NOTE={
"C01":"Seeded histories against answers of a clipper never used before in a process forked for each question (memoised); holds for the histories drawn, nothing is enumerated. Trusts fork isolation and that a first call on a new clipper is right (C03, C11, C12 look at that).",
"C02":"Exceptions are raised by the trace function of the interpreter at drawn instructions of the real port; later answers are compared with a never used clipper. A quarter of runs continue one history in many copies of a process with an exception inside of another call in each of them. Places inside of C functions of the interpreter are not covered.",
"C03":"Faults at drawn instructions and allocations, results compared with a new clipper given the acknowledged rings and with winding numbers at sampled points. A failed call may have been done or not, both worlds are followed. A part of runs is continued in copies of the process with a fault at another place in each.",
"C04":"Every allocation of the library's code is behind a replaced operator new, interruption is compiled in and requested at drawn function entries, freed memory is overwritten. A part of runs is continued in copies of the process with a fault at another place in each. Real code otherwise, built with -O1.",
"C05":"Real threads, only the one holding the baton runs, handed over at drawn instructions; answers compared with the ones given alone. A part of schedules switches at places which are passed for the first time in the process. Switches inside of native code happen at functions and basic blocks where the interpreter lock is not held (nowhere now).",
"C06":"Recorded concurrent histories are checked for linearizability against a clipper used by one thread. Native code can be switched at functions and basic blocks where it does not hold the interpreter lock (nowhere now).",
"C07":"The same script in processes with simulated identities, shuffled addresses, junk memory, forced collections, decimal contexts, depths of stack, seeds of hashes, -O levels; answers must be bit for bit the same.",
"C08":"After every step all inputs and kept results are compared with copies taken when they were made, faults included.",
"C09":"Freed native memory is overwritten and reused, values of held objects are compared with the ones read first. Clearing while elements are held is a known finding and is not drawn.",
"C10":"A simulated server with a log and snapshots crashes at drawn lines, writes are lost or torn, answers after restarts are compared with a clipper which never crashed.",
"C11":"State machine replication: both implementations apply one log while faults abort calls and force rebuilding, all answers are compared, regions are compared with winding numbers as well. Integer coordinates of magnitude up to 4*10^6.",
"C12":"Simulated network, storage, crashes and aborted merges; exact model of regions (all cells) for rectilinear updates, sampled points away from boundaries otherwise.",
"C13":"Built-in list as the model, exceptions at drawn instructions.",
"C19":"State machine replication on the level of stages, with crashes and aborted stages; states are compared with the other implementation and results with the whole operation. Integer coordinates of magnitude up to 4*10^6.",
"C14":"Live blocks of operator new of the native module and their requested bytes, live objects of the port and everything reachable from its modules are counted after every repetition of a history. Memory of the C allocator used by the interpreter itself is not counted.",
}
checks=[{"property":p["id"],"quick_cmd":"./check %s quick"%p["id"],"thorough_cmd":"./check %s thorough"%p["id"],
 "evidence_file":"evidence/%s.json"%p["id"],"technique":"deterministic simulation with fault injection (seeded search over %s)"%{
 "C05":"schedules of threads","C06":"schedules of threads, linearizability","C07":"environments","C09":"lifetimes","C12":"network schedules and faults","C10":"crashes and storage faults"}.get(p["id"],"histories and faults"),
 "level":"exploration","level_note":NOTE[p["id"]]} for p in CL]
json.dump({"version":1,"setup_cmd":"./check setup","checks":checks,"not_applicable":NA,
 "notes":"No hooks in /repo: seams are the trace function, the module-level name id, operator new/delete and function entries of a simulation build of src/main.cpp made outside of /repo. ./check replay FILE replays a violation, ./check selftest checks determinism."},
 open(ROOT + 'MANIFEST.json','w'),indent=1)
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
