"""Source of properties.jsonl and MANIFEST.json: python3 props.py rewrites both."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
L, Q, QK, PT = "src/lib.rs", "src/query.rs", "src/query_k.rs", "src/point.rs"
CO, CA = "src/query_k/container.rs", "src/query_k/container_axis.rs"
PA, PW, PX = "src/query_k/parallel.rs", "src/query_k/parallel_with.rs", "src/query_k/parallel_axis.rs"
DI, UT, MO, PY = "src/distance.rs", "src/utils.rs", "src/moms.rs", "pyfnntw/src/lib.rs"

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note))


REAL = "Arithmetic on finite floats is treated as exact real arithmetic, and std, rayon and ordered-float calls are trusted models; an obligation the analysis cannot decide raises no alarm and is listed in the evidence."

prop("C01", "A nearest-neighbour query returns a true nearest neighbour",
     "For every finite data set, leaf size and finite query point, a (non-periodic) nearest-neighbour query returns a point of the data whose distance to the query is minimal over all points of the data, together with that distance. No subtree may be skipped unless it provably holds no point closer than the answer.",
     ["inputs", "configurations"], "all data sets, dimensions, leaf sizes, query points and float types; every feature combination",
     "Tests compare with brute force on a few random uniform sets of fixed size; exactness is over all point configurations (ties, clusters, boundary queries, deep or leaf-only trees).",
     [Q, DI, L], [("pruned depth-first descent", Q), ("distance to a subtree's box", DI)], ["result of the nearest-neighbour query"],
     "abstract interpretation of the recursive descent: path-sensitive coverage analysis (every subtree evaluated, queued or excluded by a valid lower bound) with polynomial value numbering",
     "Every control path of the search and of the entry point is covered, for all inputs. " + REAL)
prop("C02", "A k-nearest query returns the k closest points",
     "For every finite data set and query, a (non-periodic) k-nearest query returns min(k, number of points) distinct points of the data such that no other point of the data is closer than the farthest one returned. The k-nearest queries over one or many points, with or without reused work areas, all have this property.",
     ["inputs", "configurations"], "all data sets, k, leaf sizes, query points and entry points",
     "Tests use one random data set per entry point and few values of k (mostly smaller than the data); the guarantee is over all configurations, including k larger than the data, ties and points at the bound.",
     [QK, CO, PA, PW, DI], [("bounded max-heap of candidates", CO), ("pruned descent with queue", QK)], ["result of every k-nearest query"],
     "path-sensitive coverage analysis of the k-nearest descent, bounded-heap transition rules, dataflow from search result to returned columns",
     "Every control path of search, container and entry points. " + REAL)
prop("C03", "Periodic queries find the nearest periodic images",
     "On a tree with a period, a query returns what an exhaustive search over the data and its periodic images would: every one of the images that can matter (one for each non-empty subset of axes, shifted by the box towards the far side) is searched or excluded because its side of the box is at least as far as the current best, and an image is searched with the same rules as the query itself. On a tree without a period no image is considered.",
     ["inputs", "configurations"], "all periodic boxes, queries inside the box, data sets, dimensions and k",
     "Tests check random 3-D points against brute force at one size; skipped images or shifted sides show only for queries near particular faces, edges or corners.",
     [Q, QK, PA, PW, PX], [("enumeration of 2^D images by subset mask", Q), ("distance to the image's side", QK)], ["result of queries on periodic trees"],
     "symbolic summary of the image loop: the family of searched points is compared, as polynomials over mask bits, with the required family, and each skip with a valid bound",
     "All images, all dimensions, all entry points; queries inside the box are the precondition. " + REAL)
prop("C04", "Building a tree keeps every point once, in correctly bounded nodes",
     "After construction each input point is held exactly once (by one leaf or as the dividing point of one node), every node's links lead to the subtrees over the two sides of its dividing point, every leaf respects the leaf size, and the box stored with a node encloses every point below it. The root reached by queries is the root of the whole tree.",
     ["inputs", "configurations"], "all data sets (any order, repeated values), leaf sizes, dimensions and parallel split levels",
     "Tests only look at query results for some random data; a lost or misplaced point or a box that is slightly too small changes answers only for special data.",
     [L, PT], [("recursive construction", L), ("box handed down", L), ("links and root", L)], ["query results", "node list"],
     "inductive analysis of the recursive constructors: per-instance obligations on slices, links, boxes and leaf size over value graphs",
     "By induction over the recursion, for every instance (flags, levels) of the constructors. " + REAL)
prop("C05", "The division of points is a correct median-style partition",
     "Dividing a set of points along an axis rearranges the points without losing or duplicating any, and yields a dividing point such that no point on its lower side has a larger, and no point on its upper side a smaller, coordinate along that axis. This holds for small sets and for the large-set approximate median alike, including sets with many equal coordinates.",
     ["inputs"], "all point sets, any number of repeated coordinates, both the small and the large path",
     "The large path needs 100,000 points and is run by few tests on random (almost duplicate-free) data.",
     [MO, L], [("quickselect for small sets", MO), ("approximate median and three-way partition for large sets", MO)], ["structure of the built tree"],
     "array-segmentation abstract interpretation of the partition loops with cardinality constraints; linear-arithmetic domain",
     "All array contents and lengths. " + REAL)
prop("C06", "Parallel construction builds a correct tree under every schedule",
     "Constructing a tree with several threads gives, for every split level and every thread schedule, a tree with the same guarantees as the sequential construction: all points held once, links that lead to the node they were made for even when other threads add nodes in between, correct boxes and the same root. It completes only after all workers have finished.",
     ["schedules", "inputs", "configurations"], "all interleavings of the building threads, all split levels and data sets",
     "Tests build a few trees in parallel and sample a handful of schedules; a link that depends on timing fails only under contention.",
     [L], [("nodes shared under a lock", L), ("length read and insertion in one critical section", L), ("threads joined before the root is taken", L)], ["links of the node list", "query results"],
     "lock-scope dataflow (index and insertion under one guard, values held across release are stale) plus the inductive construction analysis for parallel instances",
     "All schedules, by treating every value read outside the lock as unknown. " + REAL)
prop("C07", "Invalid data and boxes are refused at construction, valid ones accepted",
     "Building a tree from empty data or data with a NaN or infinite coordinate returns the matching error, and never a tree; finite non-empty data is never refused. Setting a period succeeds only for a finite box that encloses the (non-negative) data, and is refused with the matching error otherwise.",
     ["inputs", "configurations"], "all data sets and boxes; position of the bad component in any point; both constructors",
     "Tests try a few bad inputs with the bad value in one place; the check must see every component of every point.",
     [L, UT], [("check of every component before building", UT), ("checks of the box", L)], ["result of construction and of setting a period"],
     "possible-worlds evaluation of path conditions (component NaN / infinite / finite) on every accepting and refusing path",
     "Every accepting path is shown to exclude bad components, every refusing path to have a reason. " + REAL)
prop("C08", "Every query entry point validates its query",
     "Every query function refuses a query with a NaN or infinite component with the matching error, whatever the position of the component and, for batches, of the query; an axis outside the dimensions is refused likewise. Valid queries are never refused.",
     ["inputs", "configurations"], "all entry points, all positions of a bad component or query, k = 0 included",
     "Existing tests try bad queries on few entry points; nothing ties every entry point (and every early return) to the check.",
     [UT, Q, QK, PA, PW, PX], [("component check", UT), ("axis check", PX)], ["error results of query functions"],
     "possible-worlds evaluation of path conditions on every path of every entry point",
     "All paths of all entry points. " + REAL)
prop("C09", "Batch queries put every answer in the row of its query",
     "A query over many points returns, in row i of every column, exactly what a single query for point i would return, whatever the number of threads and their schedule. Every entry of the returned columns is written, and only by the query it belongs to.",
     ["schedules", "inputs", "configurations"], "all batch sizes, k, thread counts and schedules",
     "Tests compare one batch of random queries with brute force; stale work areas, unwritten entries or rows exchanged between threads depend on schedule and sizes.",
     [PA, PW, PX, CO, CA], [("raw writes into preallocated columns", CO), ("per-thread work areas", PW)], ["columns returned by batch queries"],
     "effect and dataflow analysis of the batch loops: written index ranges as polynomials in the row, disjointness, full initialisation and emptiness of reused work areas",
     "All rows, iterations and interleavings. " + REAL)
prop("C10", "Returned distances have the documented unit everywhere",
     "With the square-root feature every entry point returns true Euclidean distances, each obtained by exactly one square root; without it every entry point returns squared distances. The unit does not depend on the entry point, on k, or on whether an image was nearest.",
     ["inputs", "configurations"], "all entry points, feature combinations, periodic and non-periodic trees",
     "Tests run one feature configuration at a time and square on their own side; not every entry point is compared in both.",
     [UT, Q, CO, CA], [("conversion of the final distance", UT)], ["distances returned by all queries"],
     "dataflow from the search result to the returned value on every path, counting square roots per feature configuration",
     "All paths; the batch default and the feature-off configurations are analysed separately. " + REAL)
prop("C11", "k-nearest results are ordered, aligned and of the right length",
     "k-nearest results are in ascending order of distance, all returned columns have the same rank order, and there are exactly min(k, number of points) entries per query (none for k = 0). No entry is missing, repeated or undefined.",
     ["inputs", "configurations"], "all data sets, k (zero, one, larger than the data) and entry points",
     "Tests check a sorted result for one data set and mostly 0 < k < n.",
     [CO, CA, QK, PA, PW, PX], [("draining of the heap in sorted order", CO)], ["columns returned by k-nearest queries"],
     "value-graph dataflow from the sorted container into the returned columns; length algebra; candidate ordering analysis",
     "All paths of all k-nearest entry points. " + REAL)
prop("C12", "Axis queries split the same k-nearest result along the axis",
     "A k-nearest query with an axis returns the k nearest points by full distance, and for each the distance along that axis and the distance across the other axes, which together give the full squared distance. Both belong to the point at that rank, for any valid axis.",
     ["inputs", "configurations"], "all axes, dimensions, data sets and queries, periodic or not",
     "There is one test with one axis; the split is over all axes and images.",
     [PX, CA, DI], [("axis container ordered by full distance", CA), ("split of the squared distance", DI)], ["columns returned by axis queries"],
     "coverage analysis of the axis search and dataflow of the two components into the columns",
     "All paths of the axis search and entry point. " + REAL)
prop("C13", "Index, position and distance returned together describe one point",
     "The index returned with a distance is the position in the caller's input of a point with exactly that distance (to the query or, on periodic trees, its image), and a returned position is that point's coordinates. This holds for every entry point that returns them, at every rank.",
     ["inputs", "configurations"], "all entry points and feature combinations that return indices or positions, all ranks",
     "Tests check indices by looking up one brute-force answer; a mismatch arising when an image wins or at ties needs specific data.",
     [Q, CO, CA, PT, L], [("index from the address relative to the first input point", PT), ("pairing of distance and point in a candidate", CO)], ["index and position columns"],
     "value-graph dataflow pairing distance and point through updates, images, heap and columns",
     "All paths of all entry points. " + REAL)
prop("C14", "Queries leave the tree unchanged and are independent of each other",
     "Running a query changes nothing that another query can observe: the tree, the data and any global state stay as they were, so queries may run in any order and concurrently with the same results.",
     ["schedules", "histories"], "all sequences and interleavings of queries on a shared tree",
     "Tests do not interleave queries or compare answers across histories.",
     [Q, QK, PA, PW, PX, PT], [("shared references only, no interior mutability", L)], ["results of repeated and concurrent queries"],
     "effect analysis over the call graph of every query: no write through shared references, no interior mutability, no global state; type-level check of the tree's fields",
     "All functions reachable from the query entry points.")
prop("C15", "Unchecked accesses stay within bounds and initialised memory",
     "No sequence of calls to the safe public functions makes the library read or write outside the arrays it works on, use an uninitialised value, or form an invalid not-NaN value. Every access that skips the bounds check is preceded by facts that imply its bound.",
     ["inputs", "configurations", "programs"], "all unchecked accesses, all inputs and feature combinations",
     "An out-of-bounds access often goes unnoticed in tests (it reads a neighbouring element); the code skips bounds checks throughout.",
     [L, Q, QK, DI, CO, CA, MO, PT], [("unchecked indexing and raw pointers", DI)], ["memory safety of every call"],
     "obligation per unsafe operation: bounds implied by path facts and type dimensions in a linear-arithmetic domain",
     "Every unsafe indexing, pointer arithmetic and transmute reached by the analysis. " + REAL)
prop("C16", "A tree cannot outlive or race with its data",
     "The types do not let a program keep or use a tree (or a result that refers to the data) after the data it was built from has been dropped or changed. Programs that only query a live tree keep compiling.",
     ["programs"], "all client programs",
     "Tests are programs that compile; that violating programs do not compile is not tested.",
     [L, PT, Q], [("lifetime parameters of the tree and of results", L)], ["acceptance by the type checker"],
     "compile-fail witnesses, each with a compiling twin, type-checked against the current source",
     "The witnesses enumerate the ways to hold a reference past its data; type checker trusted.")
prop("C17", "Valid input never makes the library panic or hang",
     "For non-empty finite data, any leaf size and split level, and finite queries, construction and queries return: no panic (index, overflow, unwrap, division) and no endless recursion or loop. Invalid input gives an error instead of a panic.",
     ["inputs", "configurations"], "all valid and invalid inputs, leaf sizes including 0, k including 0 and more than n",
     "Tests stay with ordinary sizes; degenerate sizes and repeated values need specific inputs.",
     [L, MO, Q, QK, CO], [("size checks before recursion", L), ("error results", UT)], ["termination and panics of every call"],
     "reachability of panic edges under path facts; strictly decreasing measure for every recursion and loop",
     "Every panic edge the analysis reaches is either infeasible or reported undecided. " + REAL)
prop("C18", "Python trees compute what the Rust tree computes",
     "For every supported dimension and both float types the Python classes build the tree over exactly the array given, with the leaf size, split level and box given, and return the query results of that tree in the documented shapes. No dimension or float type is dispatched to another one's code.",
     ["inputs", "configurations"], "all dimensions 1 to 8 supported, both float types, all methods and arguments",
     "There are no tests of the Python module.",
     [PY], [("dispatch on the dimension", PY), ("conversion of arrays", PY)], ["values returned to Python"],
     "dataflow over the binding's MIR: dispatch tables, argument pass-through, sibling agreement of the f32 and f64 classes",
     "All methods of both classes; numpy and pyo3 are trusted.")
prop("C19", "The Python module reports errors and keeps its data alive",
     "Bad arguments (shape, contiguity, dimension, NaN or infinite values, bad box) raise a Python exception instead of crashing the interpreter, and a tree object keeps the array it was built from alive for as long as it exists.",
     ["inputs", "histories"], "all argument errors, all object lifetimes",
     "There are no tests of the Python module, and a use after free shows only after the array's memory is reused.",
     [PY], [("ownership of the array in the class", PY), ("conversion of errors", PY)], ["exceptions and object lifetimes seen from Python"],
     "panic-edge reachability in the binding, ownership rule on the class fields",
     "All paths of the binding's methods; numpy and pyo3 are trusted.")
prop("C20", "Every feature combination builds and answers alike",
     "Every combination of the crate's features compiles, offers the query functions documented for it, and returns the same neighbours: the features change only units, the presence of columns and whether threads are used.",
     ["configurations"], "all combinations of features",
     "Tests run in one feature combination at a time.",
     [L, UT, Q, QK, PA, PW, PX], [("conditional compilation", UT)], ["type-check and results in each configuration"],
     "type-check of the whole feature matrix plus the query analyses in each configuration",
     "All combinations of the four behavioural features.")
prop("C21", "The public distance functions compute what they document",
     "The squared distance of two points is the sum of squared component differences in every dimension; the axis version splits exactly that sum; the distance to a box is the distance to its nearest point, zero inside, and never more than the distance to any point in the box. The update helpers replace the best exactly when the candidate is closer.",
     ["inputs"], "all dimensions, points and boxes",
     "Three unit tests with one value each.",
     [DI], [("distance helpers", DI)], ["values of the public functions"],
     "polynomial identity and inequality checking of the functions' value graphs",
     "All dimensions. " + REAL)

NA = {}


def main():
    import sys
    sys.path.insert(0, os.path.join(HERE, "sa"))
    import re
    src = open(os.path.join(HERE, "sa", "rules.py")).read()
    claimed = set(re.findall(r'^    "(C\d\d)": dict\(', src, re.M))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                    why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                                                                         observe_at=p["observe"], hook_needed=None))) + "\n")
    m = dict(version=1, setup_cmd="python3 setup.py", checks=[], not_applicable=[])
    for p in P:
        if p["id"] in claimed:
            m["checks"].append(dict(property=p["id"], quick_cmd="./check %s" % p["id"], thorough_cmd="./check %s --thorough" % p["id"],
                                    evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="other", level_note=p["note"]))
        else:
            m["not_applicable"].append(dict(property=p["id"], reason=NA.get(p["id"], "No check is claimed for it yet: see DESIGN.md.")))
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for p in P:
        assert len(p["title"]) <= 80, p["title"]


main()
