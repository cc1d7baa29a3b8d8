#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "tests sample a few dozen fixed or once-seeded point sets"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note,
         technique):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                  why=why, files=files, mech=mech, observe=observe, note=note,
                  technique=technique))


GEN = "PBT; generated point sets and parameters"
prop("C01", "No true Voronoi neighbour is missing",
 "For every set of points strictly inside the unit cube, every point q among the k nearest of a point p whose bisector carries a face of p's Voronoi cell (within the cube and among those k) appears in p's row. With k at least N-1 this means every true Voronoi neighbour is listed.",
 ["inputs", "configurations"], "all point sets in (0,1)^3 in float and double, all k, grid resolutions, capacities, threads and chunkings",
 "Voronoi faces depend on real geometry; the regression tests compare with voro++ on a few uniform sets of one size and one k, never clusters, lattices, walls, duplicates or more than 65536 points.",
 ["src/votess.ipp", "src/knn.ipp", "src/cc.ipp", "src/boundary.ipp", "src/planes.ipp", "src/sradius.ipp"],
 [("k nearest neighbour search", "src/knn.ipp"), ("cell clipping and security radius", "src/cc.ipp")],
 "votess::tesellate result rows",
 "Independent clipping oracle in long double with certified faces; faces smaller than the rounding of the tested type are not judged.",
 "property-based testing against an independent geometric oracle")
prop("C02", "A row holds exactly the faces of the cell, nothing spurious",
 "For points in general position and capacities that suffice, the row of a point is exactly the set of points among its k nearest whose bisectors carry a face of the cell cut out of the unit cube by those k points. No point without a face is listed.",
 ["inputs", "configurations"], "all point sets in general position, all k, grids, threads, with ample capacities",
 T + " and compare mostly with recorded output; they do not reach cells where a spurious entry would survive.",
 ["src/cc.ipp", "src/boundary.ipp", "src/planes.ipp", "src/votess.ipp"],
 [("removal of neighbours whose plane lost all vertices", "src/cc.ipp"), ("dnn assembly", "src/votess.ipp")],
 "votess::tesellate result rows",
 "Exact replay of the clipping in long double with running error bounds; only cells in which every decision clears its bound are judged.",
 "property-based testing against an error-bounded reference clipper")
prop("C03", "Being a neighbour is mutual",
 "When all other points are considered (k at least N-1, or recomputation on) and capacities suffice, q is in p's row exactly when p is in q's row, faces too small to resolve in the coordinate type excepted.",
 ["inputs", "configurations"], "all point sets, devices, grids, threads with complete neighbour lists",
 "No test looks at both directions; " + T + ".",
 ["src/cc.ipp", "src/votess.ipp", "src/knn.ipp"], [("independent construction of both cells", "src/cc.ipp")],
 "votess::tesellate result rows",
 "Metamorphic; one-sided pairs are put to a face oracle and count only when the face is certain.",
 "property-based testing, metamorphic symmetry relation")
prop("C04", "The grid resolution never changes the result",
 "For every point set and k, any grid resolution of at least 1 gives the same neighbours in the same order for each point as a one-cell grid, which is exhaustive search; only points at indistinguishable distance may be exchanged.",
 ["inputs", "configurations"], "all point sets, all grid resolutions from 1 to hundreds, all k, coordinates on and beside cell walls",
 "Tests fix a handful of resolutions on uniform points; empty cells, walls, clusters and very fine grids are not reached.",
 ["src/knn.ipp", "src/xyzset.ipp"], [("shell by shell search over grid cells with early stop", "src/knn.ipp"), ("cell assignment", "src/xyzset.ipp")],
 "votess::tesellate result rows (raw lists through minimal capacities)",
 "Differential against brute force in the tested type.", "property-based testing, differential against one-cell grid")
prop("C05", "Threads, chunks and fallback never change the result",
 "The number of CPU threads, chunking and chunk size, the work size, output suppression, falling back from an absent GPU, the index type (any signed one that can count points, entries and grid cells) and repeating the call leave the rows, the order within rows and the order of the points exactly the same.",
 ["inputs", "configurations", "schedules"], "all point sets, thread counts including 0 and more than N, chunk sizes from 1 to beyond N and non-positive, 16- to 64-bit index types, working memory beyond 2^31 entries",
 "Tests run few thread counts and chunk sizes, none at or beside the number of points.",
 ["src/votess.ipp"], [("division of points over threads and chunks", "src/votess.ipp")],
 "votess::tesellate result, reordered points", "Differential with a single-threaded, unchunked run.",
 "property-based testing, differential over configurations")
prop("C06", "Sorting keeps every point and describes the grid correctly",
 "After a tessellation the caller's set holds exactly the points given, each exactly once and bit for bit, in order of grid cells, and rows refer to that order; the sorter's tables say exactly where each cell's points are. The validators accept exactly valid sets: every coordinate strictly between 0 and 1. A tessellation on the CPU writes a warning to stderr exactly when the set is not valid.",
 ["inputs", "configurations"], "all point sets including duplicates, walls, more than 65536 points, all grid resolutions",
 "Sort tests use few small sets; cell boundaries, values next to 0 and 1 and large grids are sampled only by chance.",
 ["src/xyzset.ipp", "src/votess.ipp"], [("radix sort by cell", "src/xyzset.ipp"), ("validators", "src/xyzset.ipp")],
 "caller's vector after votess::tesellate, xyzset::sort return value", "Reference model of cells and permutation.",
 "property-based testing against a reference model")
prop("C07", "Renaming, mirroring or widening the input changes nothing else",
 "Giving the points in another order, exchanging or mirroring axes, or passing float coordinates as double gives the same neighbour relation between the same points, ties and faces within rounding excepted.",
 ["inputs"], "all point sets, all permutations, the 48 symmetries of the cube, both coordinate types",
 "No test transforms its input.", ["src/xyzset.ipp", "src/knn.ipp", "src/cc.ipp"],
 [("axis-symmetric cell index, search and clipping", "src/knn.ipp, src/cc.ipp")],
 "votess::tesellate rows mapped back to the caller's points", "Metamorphic; only cells whose decisions are certain are compared.",
 "property-based testing, metamorphic relations")
prop("C08", "Recomputation completes every cell",
 "With recomputation on, whatever k, capacities, threads and chunks one starts from, every row is the point's complete and exact Voronoi cell among all points, and cells that were already complete keep their rows. (Cells that need more than 249 bisectors are a listed finding.)",
 ["inputs", "configurations"], "all point sets in general position, all starting k, capacities, devices",
 "One test turns recomputation on, from a k that already suffices for nearly every cell.",
 ["src/votess.ipp", "src/cc.ipp", "include/status.hpp"], [("retry with doubled k and enlarged capacities", "src/votess.ipp"), ("per-cell status flags", "include/status.hpp")],
 "votess::tesellate rows with use_recompute", "Oracle as in C02 with k = N-1, and the rows of a direct run with k = N-1.",
 "property-based testing against an error-bounded reference clipper")
prop("C09", "Every result has the right shape",
 "For any number of points including none, any k of at least 1 and any parameters, the result has one row per point; every entry is the index of another point, no entry repeats, entries come nearest first and number at most k; and a point's nearest other point is always listed.",
 ["inputs", "configurations"], "all point sets including 0, 1, 2 points, duplicates, k beyond N, 32 and 64 bit indices, both devices",
 "Tests never pass fewer points than k, duplicates or tiny sets.",
 ["src/votess.ipp", "src/knn.ipp", "src/cc.ipp", "src/dnn.ipp"], [("k clamped to N-1", "src/votess.ipp"), ("result assembly", "src/votess.ipp")],
 "votess::tesellate result", "Invariant over the result alone plus distances in the tested type.",
 "property-based testing of invariants")
prop("C10", "No input or parameter causes undefined behaviour or a hang",
 "A tessellation returns a result with one row per point and in-range indices for every point set and parameter set: valid sets of any distribution, and also sets with coordinates on or outside the cube, infinite, subnormal or NaN, any k and grid resolution of at least 1 and any number of threads the system can start. No memory is accessed out of bounds, no value overflows and nothing hangs.",
 ["inputs", "configurations"], "all coordinates representable, all integer parameters with k and grid resolution at least 1",
 "Tests pass only ordinary values and run without sanitizers.",
 ["src/votess.ipp", "src/knn.ipp", "src/cc.ipp", "src/xyzset.ipp", "src/boundary.ipp", "src/heap.ipp"],
 [("clamping of k, capacities and cell indices", "src/votess.ipp, src/xyzset.ipp")],
 "process outcome under AddressSanitizer and UBSan", "Sanitizers are the oracle; the thorough tier adds coverage-guided fuzzing (libFuzzer) of the same generators.",
 "property-based testing and libFuzzer under sanitizers")
prop("C11", "The result container behaves as a list of rows",
 "Whatever was stored, the number of rows, the length of each row and every entry read back are those stored, writing an entry through a row changes that entry only, copies are independent, and printing and saving write every row including empty ones in order. A file that cannot be opened or written in full is reported on stderr.",
 ["histories", "inputs"], "all sequences of construction, copy, move, read, write, print and save over jagged arrays of any shape",
 "Tests read a few entries of one result; empty rows, empty results, copies and output are not covered.",
 ["include/dnn.hpp", "src/dnn.ipp"], [("list and offset arrays behind row views", "src/dnn.ipp")],
 "dnn accessors, print(), savetxt()", "Model: vector of vectors.", "stateful property-based testing against a model")
prop("C12", "Parameters read back as set; unknown names are refused",
 "A parameter set to a number, truth value or numeric text reads back as that value in every arithmetic type (character types aside) that can hold it, setting one never changes another, copies are independent, documented defaults hold until overwritten, and an unknown name or unreadable value raises an error without side effect.",
 ["histories", "inputs"], "all sequences of sets, gets, copies and failing operations over the ten parameters",
 "Tests check a few sets and gets of single keys.", ["include/arguments.hpp"], [("text-valued map with checked conversion", "include/arguments.hpp")],
 "vtargs operator[], get, grouped getters", "Model: map from name to text.", "stateful property-based testing against a model")
prop("C13", "The bounded heap keeps and sorts the k smallest",
 "For any sequence of distances with ties and infinities, the heap used by the neighbour search holds exactly the k smallest seen with their own identifiers, and sorting it yields ascending distances with the same pairs; nothing outside the heap's own storage changes. Host and device forms agree.",
 ["inputs", "histories"], "all sequences and heap sizes, all strides and offsets of the device forms",
 "Heap tests are fixed arrays of about ten entries.", ["include/heap.hpp", "src/heap.ipp"], [("max-heap over two parallel arrays", "src/heap.ipp")],
 "heap::sort, heap::maxheapify, heap::swap", "Model: sorted multiset of pairs; guard values around the arrays; AddressSanitizer.",
 "property-based testing against a model")
prop("C14", "The rim of a cut is found as one closed cycle",
 "For every set of removed vertices of a convex cell that forms a disc, the boundary computed is the closed cycle of planes around that disc, each plane once and in order, in host and device form; sets that do not form a disc are reported as failures and never as a wrong cycle, and always terminate.",
 ["inputs", "histories"], "all triangulated spheres of up to 254 planes and all removed subsets",
 "Boundary tests list 24 fixed triangle sets of a few planes.", ["include/boundary.hpp", "src/boundary.ipp"], [("incremental merge of triangles into the cycle", "src/boundary.ipp")],
 "boundary::compute, boundary::compute_gpu", "Oracle: independent edge counting over the removed triangles; AddressSanitizer.",
 "property-based testing against an independent oracle")
prop("C15", "Geometric primitives are exact up to rounding",
 "Plane evaluation, bisectors, three-plane intersections, squared distances, the security radius test and the numeric helpers return the exact value where every intermediate is representable, and otherwise stay within a small multiple of rounding; parallel planes give finite results. Status flags are independent of each other.",
 ["inputs"], "all finite operands of moderate size, thresholds hit exactly, singular plane triples",
 "Tests evaluate a few fixed operands.", ["src/planes.ipp", "src/sradius.ipp", "src/utils.ipp", "include/status.hpp", "include/boundary.hpp"],
 [("closed-form expressions", "src/planes.ipp")], "planes::*, sr::*, utils::*, cc::state", "Long double reference.", "property-based testing against exact arithmetic")
prop("C16", "The device path computes what the host path computes",
 "For every point set, parameters, work size the device accepts, chunking, order in which work items run and content of uninitialised device memory, the device path gives exactly the rows of the host path.",
 ["inputs", "configurations", "schedules"], "all point sets, work group sizes, chunk sizes, execution orders, initial memory contents",
 "The sandbox and CI have no GPU: the existing tests never execute the device path.",
 ["src/votess.ipp", "src/knn.ipp", "src/cc.ipp", "src/boundary.ipp", "src/heap.ipp"], [("SYCL kernels over strided buffers", "src/votess.ipp")],
 "votess::tesellate(..., device::gpu) under an emulated SYCL runtime", "Kernels run on a host emulation with bounds-checked accessors, poisoned memory and generated execution orders.",
 "property-based testing, differential host/device under emulated SYCL")
prop("C17", "The command line tool prints what the library computes",
 "For every input file of points in any number format, spacing and line ending and every combination, order and spelling of options (of a repeated one the last counts), the tool prints exactly the rows the library computes for those points with those parameters (k 0 meaning min(N,64)). A malformed line, a file that is missing or cannot be read, or no file makes it fail with a message and print no result; a result that cannot be written in full makes it fail.",
 ["inputs", "configurations"], "all files and option lists of the documented grammar",
 "No test runs the tool.", ["src/main.cpp"], [("option parsing and file reading", "src/main.cpp")],
 "exit status, stdout and stderr of clvotess", "The tool is spawned; oracle is the library called in the harness.", "property-based testing, differential tool/library")
prop("C18", "The Python module returns what the library computes",
 "For every sequence or array of points (lists, tuples, numpy arrays of any type and layout), parameters given as int, float, bool or text, and device, the module gives the rows the library gives, by index, iteration, print and savetxt; row objects stay valid after the result is dropped, indices outside raise IndexError, parameters read back as set and are untouched by a call, and bad names or types raise.",
 ["inputs", "configurations", "histories"], "all point containers, parameter sets and ways of reading the result",
 "No test imports the module.", ["src/pybind11/pyvotess.cpp"], [("pybind11 bindings and lifetimes", "src/pybind11/pyvotess.cpp")],
 "Python objects returned by pyvotess", "A Python process is driven; oracle is the library called in the harness.", "property-based testing, differential Python/library")
prop("C19", "The summary counts the cells that failed, and only those",
 "The printed summary reports exactly how many cells the k neighbours did not close, ran out of planes, ran out of vertices or failed otherwise, on either device, for any chunking and threads, and after recomputation only what could not be repaired.",
 ["inputs", "configurations"], "all point sets, k, capacities, devices, chunkings",
 "No test reads the summary.", ["src/votess.ipp", "include/status.hpp", "src/cc.ipp"], [("per-cell status flags", "src/cc.ipp"), ("summary loop", "src/votess.ipp")],
 "std::cout with dev_suppress_stdout off", "Oracle: exact account of planes, vertices and security radius per cell; cells within rounding are slack.", "property-based testing against a reference account")
prop("C20", "Too small a capacity costs only the cells it concerns",
 "Whatever the plane and vertex capacities, a cell that fits them has exactly the row ample capacities give, and a cell that does not fit has as its row the list of its k nearest points in order. No other cell is affected.",
 ["inputs", "configurations"], "all point sets and capacities from below the minimum to ample, both devices",
 "Tests use the default capacities, which almost every tested cell fits.", ["src/cc.ipp", "src/votess.ipp"], [("overflow checks before storing planes and vertices", "src/cc.ipp")],
 "votess::tesellate rows", "Oracle: rows under ample and minimal capacities and an exact count of planes and vertices.", "property-based testing, differential and reference account")
prop("C21", "A call depends only on its arguments",
 "Whatever calls were made before in the process, including calls that threw or were refused memory, a call gives the rows, order of points and output it gives as the first call of a process; earlier results, the caller's parameters and the state of standard output are left as they were, a failing call leaves the caller's points (in some order), and nothing is printed when output is suppressed.",
 ["histories", "configurations"], "all sequences of calls over types, devices, sizes, parameters and failing calls",
 "Each test makes isolated calls and never compares them across histories.", ["src/votess.ipp", "src/cc.ipp", "src/knn.ipp"], [("no state outlives a call", "src/votess.ipp"), ("scoped suppression of std::cout", "src/votess.ipp")],
 "results, std::cout and parameters around votess::tesellate", "Oracle: the same call in a freshly forked child.", "stateful property-based testing against a fresh process")
prop("C22", "Threads never race",
 "With any number of threads, any chunking, and recomputation on or off, no two threads access the same memory with one of them writing and nothing ordering them, and the rows are those of one thread.",
 ["schedules", "inputs", "configurations"], "all schedules of 2 or more threads over all point sets and parameters",
 "A race need not show in the rows of a test run; tests run without a race detector.", ["src/votess.ipp"], [("each thread owns its range of points", "src/votess.ipp")],
 "ThreadSanitizer reports and result rows", "Happens-before race detection on generated runs, not an enumeration of schedules.", "property-based testing under ThreadSanitizer")

prop("C23", "Calls leave no memory behind",
 "Once the result of a call is gone, or the call has failed with an error, all memory it took is given back: repeating any sequence of calls, on either device, with any parameters, recomputation and failing calls (for unreadable parameters or lack of memory) included, does not add to the memory in use.",
 ["histories", "inputs", "configurations"], "all repeated sequences of succeeding and failing calls",
 "A leak shows in no result; tests make each call once.", ["src/votess.ipp", "src/dnn.ipp"], [("working arrays and temporary rows of a call", "src/votess.ipp")],
 "memory in use between calls", "operator new and the C library's heap are counted; devices are emulated.", "stateful property-based testing with counted allocation")
prop("C24", "Chunking bounds the working memory",
 "With chunking on, a call's peak memory beyond the points and rows themselves is in proportion to the size of a chunk and does not grow with the number of points as it does without chunking; the rows are the same.",
 ["inputs", "configurations"], "all point sets of several chunks, parameters and both devices",
 "Tests look at rows only; memory shows only as exhaustion on large sets.", ["src/votess.ipp"], [("working arrays sized by the chunk", "src/votess.ipp")],
 "peak memory of votess::tesellate", "Metamorphic: the same call with and without chunks, generous bounds (three times what is needed).", "property-based testing, metamorphic over chunking")
prop("C25", "Work runs where it was asked for, on the threads it was given",
 "However many points, chunks and recomputations there are, a call never has more threads running at a time than cpu_nthreads says (0 meaning as many as the machine has), uses as many where there are points for them, and leaves none running when it returns or throws. Kernels run on a device exactly when the GPU was asked for and one is there; when it is absent the host does the work and a warning is written to stderr.",
 ["inputs", "configurations"], "all point sets, thread counts, chunkings, recomputation on and off, device asked for or not, present or not",
 "Tests look at rows only, which do not show who computed them.", ["src/votess.ipp"], [("threads started and joined per run", "src/votess.ipp"), ("choice of device", "src/votess.ipp")],
 "pthread_create, kernel launches and stderr around votess::tesellate", "Threads are counted at pthread_create, kernels by the emulated device.", "property-based testing of invariants over counted threads and launches")

with open(HERE + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"],
            "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": [p["observe"]], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [],
     "not_applicable": [],
     "notes": "No hooks in /repo. See DESIGN.md; findings in KNOWN_FINDINGS.md."}
for p in P:
    m["checks"].append({"property": p["id"],
        "quick_cmd": "python3 run.py " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p["id"],
        "technique": p["technique"], "level": "exploration",
        "level_note": p["note"] + " Holds on the generated cases; absence of"
                      " other violations is not proved."})
with open(HERE + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
