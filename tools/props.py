import json
P=[]
def add(id,title,st,over,text,why,files,mech,state=[],obs=[]):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
CH="src/linestring_2d/convex_hull.rs"; L2="src/linestring_2d.rs"; L3="src/linestring_3d.rs"
add("C01","The parallel convex hull is the convex hull, whatever the thread schedule",
 "For every set of finite 2D points, every selection of them (any order, any repetition) and every chunk size, the parallel convex hull returns the closed, counter clockwise polygon of exactly the corner points of the convex hull of the selected points, made of selected points only. The answer does not depend on the number of worker threads, on which thread works on which chunk, in what order partial hulls are combined, or on what else the pool is doing. (Exact for coordinates whose products are exact; otherwise up to rounding. For selections that lie on one line only termination and membership are promised.)",
 ["schedules","inputs","configurations"],"all schedules of the pool's threads x all finite point sets, selections and chunk sizes x pool sizes and ways of entering the pool",
 "The tests run the parallel hull on a few random clouds with one chunk size on the default pool: whatever split and combination order the machine happens to produce. Wrong results for unlucky work splits, few threads or duplicate points stayed unnoticed (three defects repaired here).",
 [CH,L2],[("convex_hull_par",CH),("combine_indexed_convex_hull",CH),("indexed_find_lowest_x",CH),("indexed_graham_scan_no_loop",CH),("LineString2::convex_hull_par",L2)],
 [("start_index","lowest point of the whole selection, first element of every combined hull",CH)],["return value of convex_hull::convex_hull_par and LineString2::convex_hull_par"])
add("C02","Parallel containment equals the exact answer and the sequential answer",
 "For every convex counter clockwise polygon a and every list of points b, the parallel containment test returns true exactly when every point of b lies inside or on the boundary of a, and so does the sequential one. The answer is the same for every thread count and schedule, also when the one point that is outside is met first, last or by a stolen piece of work.",
 ["schedules","inputs","configurations"],"all schedules x all convex polygons and point lists (exact arithmetic range) x pool arrangements",
 "The tests compare a few hulls on the default pool; early termination racing with other workers and single outside points at arbitrary positions are not sampled.",
 [CH],[("contains_convex_hull_par",CH),("contains_convex_hull",CH),("contains_point_inclusive",CH)],[],["return value"])
add("C03","Non-finite selected vertices are an error on every schedule",
 "If at least four vertices are selected and any selected vertex has a NaN or infinite component, the parallel convex hull returns an error, on every schedule and whichever worker meets it: it neither returns a hull, nor panics, nor hangs. Non-finite vertices that are not selected have no influence on the result. After such an error the pool and the library answer the next calls correctly.",
 ["schedules","inputs","fault_sequences"],"all positions, components and kinds of non-finite values x all schedules and chunk sizes x sequences of failing and good calls on one pool",
 "No test passes a non-finite vertex to the parallel hull; whether an error from one chunk survives the parallel reduction depends on the split and combination order.",
 [CH],[("indexed_find_lowest_x finiteness check",CH),("Result propagation through collect and reduce in convex_hull_par",CH)],[],["returned Result, following calls"])
add("C04","A panic in parallel work reaches its own caller and nothing else",
 "If a vector operation panics in any worker at any moment of a parallel hull or containment call, or a selected index is out of range (four or more selected), the call that owns the work ends by panicking (or, for the index, by an error) in its caller. It never returns a normal result, hangs, aborts the process or disturbs concurrent calls on the same pool; later calls in the same process give correct results.",
 ["schedules","fault_sequences"],"all instants (every vector operation) x all schedules x other callers x repeated panics",
 "A panic in a worker at a chosen instant cannot be produced by the tests; there is no such test.",
 [CH],[("no state outlives a call",CH),("rayon's panic propagation through par_iter/reduce/all",CH)],[],["outcome of the call (value, error, panic) and of later calls"])
add("C05","Concurrent callers and earlier calls do not influence a result",
 "Every public operation returns bit for bit what it returns when it is the only call in a fresh process: no matter which other operations other threads are executing at the same time, and what has been called before, including calls that panicked. (For the parallel hull this is the hull itself, not the choice among equal points.)",
 ["schedules","histories","fault_sequences"],"all interleavings of up to four callers with up to four operations each, all histories, all operations of the public interface",
 "Each test calls one function with private data; interference between calls (shared scratch space, caches, statics, thread locals) needs two calls that overlap or follow each other in a particular way.",
 ["src/linestring_2d.rs","src/linestring_3d.rs","src/shape.rs","src/linestring_2d/intersection.rs","src/linestring_2d/indexed_intersection.rs","src/linestring_2d/simplify.rs","src/linestring_3d/simplify.rs",CH],
 [("all functions work on their arguments and locals only","src/lib.rs")],[],["return values"])
add("C06","Results are reproducible: no dependence on hash seeds, memory or threads",
 "Every public operation applied to the same arguments returns bit for bit the same result in every process and on every thread: it does not depend on the random seeds of hash tables, on the contents or layout of memory, on the number of processors, on the clock (however slow the run, suspended the process or wrong the date), on the number of the process, or on whether the process is fresh.",
 ["configurations","inputs","histories"],"all hash seeds, heap contents and layouts, clocks x all arguments, in particular degenerate ones with many equal candidates",
 "A test run sees one hash seed per process and compares with tolerances or as sets; results that differ for one seed in thousands, on degenerate input, are invisible to it (one such defect was repaired here).",
 ["src/linestring_2d/intersection.rs","src/linestring_2d/indexed_intersection.rs","src/shape.rs","src/linestring_2d/simplify.rs","src/linestring_3d/simplify.rs",L3],
 [("ordered result collections","src/linestring_2d/intersection.rs"),("adjacency map walk order","src/shape.rs"),("sorting before writing OBJ vertices",L3)],[],["return values, written files"])
add("C07","A successful OBJ save leaves a complete and faithful file",
 "When saving line strings to an OBJ file reports success, the file at that path contains the object name, every distinct vertex exactly once with coordinates that read back bit for bit, and every segment exactly once, in order, referring to the right vertices, and nothing else: for every input, whatever was in the file before, and however short or interrupted the individual writes were. A save that meets only short and interrupted writes succeeds.",
 ["fault_sequences","inputs","configurations"],"all sequences of short writes and EINTR x all line string sets x prior file contents x hash seeds",
 "The one OBJ test writes a small file to a real disk, where every write is complete, and into a new file.",
 [L3],[("vertex table and index lookup in save_to_obj_file",L3),("fs::File::create truncation, BufWriter, flush",L3)],[("point_set","text of a vertex -> its number",L3)],["file contents after Ok"])
add("C08","A failed OBJ save is reported and can be repeated",
 "If the operating system reports an error at any step of a save (opening, any write, disk full at any byte, a write that accepts nothing, unusable path), the save returns an I/O error carrying the first such error; it never reports success for an incomplete file, and never panics or hangs. No file descriptor stays open, other files are untouched, and once the fault is gone a repeated save succeeds with a complete file.",
 ["fault_sequences","inputs"],"an error of any kind at any file system call, once or from then on, any remaining disk space x inputs below and above the buffer size",
 "No test makes a file operation fail; in particular an error in the final flush is easy to lose.",
 [L3,"src/lib.rs"],[("error propagation with ? and the explicit flush in save_to_obj_file",L3),("LinestringError::IoError","src/lib.rs")],[],["returned Result, file contents, open descriptors"])
add("C09","A crash during an OBJ save leaves old content or a prefix of the new file",
 "If the process is killed at any moment of a save, the target path holds either what it held before (or does not exist, if it did not) or a byte prefix of the complete new file: never a mixture, gaps or foreign content; other files are untouched. After a restart, saving again produces the complete file.",
 ["crash_points","inputs"],"a kill before, after and in the middle (any byte) of every file system call x prior contents x inputs",
 "Tests cannot kill themselves at a chosen instant and inspect what survives.",
 [L3],[("truncate on create, append-only sequential writes in save_to_obj_file",L3)],[],["file contents after the crash and after restart"])
add("C10","Concurrent OBJ saves to different files do not interfere",
 "Any number of threads saving different data to different files at the same time each get a complete and faithful file, under every schedule and with short or interrupted writes; when one of them meets an I/O error, that one reports it and the others are unaffected.",
 ["schedules","fault_sequences"],"all interleavings of two to five savers, each with one to three saves, at every file system call x faults in one of them",
 "The test suite saves one file from one thread.",
 [L3],[("save_to_obj_file keeps all state local and opens exactly the path it is given",L3)],[],["all files, all returned Results"])
add("C11","Parallel calls always finish, also nested and on busy pools",
 "Every parallel hull or containment call finishes, with a correct result, within a bounded number of scheduler steps: from outside a pool, from inside pools of any size including one thread, from nested parallel iterators, joins and scopes, with several callers on one pool, with spurious wake-ups and with workers that hardly ever get to run. No schedule leads to a deadlock or an endless loop.",
 ["schedules","configurations","inputs"],"all schedules incl. starvation of any subset of threads x pool sizes x nesting x inputs (duplicates, collinear points, tiny chunks)",
 "The tests call from the test thread on the global pool; deadlocks of nested use on small pools and loops on unlucky splits need specific schedules (a hang with duplicate points was repaired here).",
 [CH],[("no locks held across parallel sections",CH),("bounded scan loops in indexed_graham_scan_no_loop",CH)],[],["termination within the step budget, deadlock detection"])
add("C12","Unfinished iterators, builders and callbacks are independent of everything else",
 "What a caller is handed piece by piece (the line iterators, discretization, the iterators over intersections), what it builds up piece by piece (sweep-line inputs given in several calls, bounding boxes), and what runs the caller's own code (lazy inputs, apply closures) gives bit for bit what it gives alone and in one go: however the steps of several such objects are interleaved, whichever thread takes the next step, what other calls are made in between or from inside the caller's code, and even if some objects are dropped half way or the caller's code panics inside a call. Such a panic reaches the caller, every later step and call is correct, and a line string whose apply closure panicked still has all its points, each as before or as transformed.",
 ["histories","schedules","fault_sequences"],"all interleavings of the steps of one to four objects by one to four threads x all points at which caller's code panics or calls back into the library x all ways of handing over the input in pieces",
 "The tests consume every iterator at once and hand over all input in one call, with trivial closures; two live objects, a moved iterator, re-entry from a closure or input in pieces never occur (sweep-line input in pieces was numbered wrongly and is repaired here).",
 [L2,L3,"src/linestring_2d/intersection.rs","src/linestring_2d/indexed_intersection.rs"],
 [("WindowIterator, ChunkIterator, DiscreteLineSegmentIterator",L2),("IntersectionData::with_lines",  "src/linestring_2d/intersection.rs"),("IntersectionTester::with_edges","src/linestring_2d/indexed_intersection.rs"),("apply",L3)],
 [("lines","the input handed over so far; its length numbers the next line","src/linestring_2d/intersection.rs")],["every item, the built result, the nested call's result"])
add("C13","Calls leave nothing behind: no memory, descriptors or threads",
 "Any public operation can be repeated for as long as the process lives. When a call has ended, with a result, an error or a panic (bad input, a failing file system call, a panicking vector operation or closure, an iterator or builder dropped half way), and its results are dropped, no memory that it allocated stays allocated, no file descriptor stays open and no thread it started keeps running: what the process holds does not grow with the number of calls.",
 ["histories","fault_sequences","schedules"],"all repetitions of all public operations x every way in which a call can end x schedules",
 "Tests make each call once in a process that ends right after; what a call leaves behind, above all on its error and panic paths, is not observed by any of them.",
 [L2,L3,CH,"src/shape.rs","src/linestring_2d/intersection.rs","src/linestring_2d/indexed_intersection.rs","src/linestring_2d/simplify.rs","src/linestring_3d/simplify.rs"],
 [("all state is owned by locals and results","src/lib.rs"),("fs::File and BufWriter are dropped on every path of save_to_obj_file",L3)],[],["allocated blocks and bytes by round, live threads, open descriptors"])
add("C14","Calls need little stack, and memory in proportion, whatever the data",
 "Every public operation works for arguments of any size and shape (also with non-finite components, except that lines and arcs to be discretized are finite) on threads with little stack, 64 KiB or more, be it the caller's thread or a thread of the pool: the process never ends because a stack overflowed. While a call runs it needs no more memory beside its arguments than a fixed amount (1 MiB) and a small multiple (32 times) of what its arguments and results take, and it ends.",
 ["inputs","configurations","schedules"],"all sizes and shapes of arguments (zigzags, spirals, equal or collinear points, long paths, stars, combs) x stack sizes x calling thread or pool thread",
 "The tests use small or randomly scattered data on threads with 2 or 8 MiB of stack; recursion that is as deep as the data is long shows only for particular shapes (a zigzag of 20000 points ended the process in Ramer-Douglas-Peucker and is repaired here), and memory use is not looked at.",
 [L2,L3,CH,"src/shape.rs","src/linestring_2d/simplify.rs","src/linestring_3d/simplify.rs","src/linestring_2d/intersection.rs","src/linestring_2d/indexed_intersection.rs"],
 [("explicit stacks instead of recursion","src/linestring_2d/simplify.rs"),("Use stack to avoid recursion (VoronoiParabolicArc)",L2),("loops in unwind_line","src/shape.rs")],[],["whether the process survives, peak of allocated bytes"])
NA=[]
def na(id,title,st,text,why,files,mech,reason):
    add(id,title,st,["inputs"],text,why,files,mech); NA.append(dict(property=id,reason=reason))
PURE="a pure, single threaded function of its arguments: no schedule, clock, I/O, randomness or fault can influence it, so there is nothing for a simulator to decide; "
na("C20","Sequential convex hull algorithms agree and are correct","Graham scan, gift wrapping and the indexed variants return the same closed counter clockwise hull polygon for every finite point set in general position.","all finite point sets","a handful of clouds is sampled",[CH],[("graham_scan, gift_wrap, indexed_*",CH)],PURE+"its independence from history, threads and hash seeds is part of C05 and C06")
na("C21","Sweep-line intersection finds exactly the crossings","For every set of segments in general position the sweep-line algorithm reports exactly the pairwise crossings, with the indices of the segments involved.","all segment sets","a few dozen fixed figures",["src/linestring_2d/intersection.rs","src/linestring_2d/indexed_intersection.rs"],[("event queue and sweep line","src/linestring_2d/intersection.rs")],PURE+"its reproducibility under different hash seeds is part of C06")
na("C22","Ramer-Douglas-Peucker stays within the given distance","Simplification keeps the end points, returns a subsequence of the input, and every removed point is within the given distance of the segment that replaces it.","all polylines and distances","fixed examples",["src/linestring_2d/simplify.rs","src/linestring_3d/simplify.rs"],[("simplify_rdp","src/linestring_2d/simplify.rs")],PURE+"reproducibility is part of C05 and C06")
na("C23","Visvalingam-Whyatt keeps what it promises","Simplification returns a subsequence of the input with the requested number of points removed in order of effective area.","all polylines","fixed examples; the 3D tests encode that the last point of an open line is dropped",["src/linestring_2d/simplify.rs","src/linestring_3d/simplify.rs"],[("simplify_vw","src/linestring_2d/simplify.rs")],PURE+"reproducibility is part of C05 and C06")
na("C24","Discretization steps are bounded and keep the vertices","Discretizing a line string yields every original vertex in order and no step longer than the given distance.","all line strings and distances","fixed examples",[L2,L3],[("DiscreteLineSegmentIterator",L2)],PURE+"independence of several live iterators is covered by C12")
na("C25","Bounding boxes are the tightest and predicates agree with them","The box of a point set is the smallest axis aligned box containing all of it, and the containment predicates agree with it.","all point sets","fixed examples",[L2,L3],[("Aabb2, Aabb3",L2)],PURE+"nothing to simulate")
na("C26","Affine transforms invert each other","The transform between two boxes maps one onto the other, and back, up to rounding.","all pairs of boxes","fixed examples",[L2],[("SimpleAffine",L2)],PURE+"nothing to simulate")
na("C27","Dividing into shapes conserves the edges","Every input edge occurs in exactly one of the shapes, once, and consecutive vertices of a shape are joined by an input edge.","all edge lists","fixed examples",["src/shape.rs"],[("divide_into_shapes","src/shape.rs")],PURE+"its independence from hash seeds is part of C06")
na("C28","Line to line intersection is symmetric and on both lines","The intersection of two segments lies on both, up to rounding, and does not depend on the order of the arguments.","all pairs of segments","fixed examples",[L2],[("Line2::intersection_point",L2)],PURE+"nothing to simulate")
na("C29","Parabolic arcs follow the parabola within the distance","Discretized Voronoi arcs lie on the parabola and deviate from it by at most the given distance.","all arcs","fixed examples",[L2],[("VoronoiParabolicArc",L2)],PURE+"nothing to simulate")
