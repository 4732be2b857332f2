#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d["anchors"]["observe_at"] = observe or []
    d["anchors"]["hook_needed"] = None
    P.append(d)

prop("C01", "Parallel diagrams of complexes and chain maps are exact on every schedule",
 "For every diagram of point subsets or covers, building in parallel the diagram of Rips complexes or nerves, and from it the diagram of chain complexes (or of chain/cochain differential graded spaces), puts on every node exactly the complex its data define, up to the requested dimension, and on every edge exactly the map induced by the vertex map, with the edge's source and target. "
 "The result is the same for every number of threads and every interleaving, and the construction has no data race and no invalid memory access.",
 ["schedules", "inputs", "configurations"], "every thread count, every interleaving of the parallel loops, every diagram shape and data set",
 "The tests run one diagram shape with 2 OS threads and compare only end results; they fix neither the interleaving nor the team size and never look for races.",
 ["include/multigraph/functors.hpp", "include/multigraph/diagram.hpp", "include/topology/rips.hpp", "include/topology/flag.hpp", "include/topology/nerve.hpp", "include/complex/simplicial_complex.hpp", "include/complex/simplicial_map.hpp", "include/chain/chain_complex.hpp", "include/chain/chain_map.hpp", "include/dgvs/dgvs.hpp"],
 [("parallel-for over nodes then edges, each iteration writes its own slot", "multigraph/functors.hpp Nerve/Rips/ChainFunctor/DGLinearFunctor"), ("flag expansion of the edge list", "topology/flag.hpp FlagComplex"), ("signed image of each simplex", "complex/simplicial_map.hpp SimplicialMap")],
 [("Diagram.node/edata/elist", "preallocated node and edge slots", "multigraph/diagram.hpp")], ["Diagram nodes, edges, edge endpoints after the call"])

prop("C02", "Parallel homology functor: right Betti numbers and induced maps always",
 "For every diagram of chain complexes or differential graded spaces (homological and cohomological), in one dimension, in all dimensions, or fused with the Rips construction, the parallel homology functor gives every node the true Betti numbers and cycle representatives, and every edge the matrix of the induced map in the bases it reports. "
 "This holds for every number of threads and every interleaving, without data races or invalid memory accesses.",
 ["schedules", "inputs", "configurations"], "every thread count and interleaving, every small diagram of complexes, fields Z/2, Z/3, Z/5, Q",
 "Tests exercise one demo pipeline at 2 threads and check only that the process exits 0; no test verifies an induced map against linear algebra.",
 ["include/multigraph/functors.hpp", "include/homology/basis.hpp", "include/homology/dgbasis.hpp", "include/homology/induced_map.hpp", "include/homology/reduction.hpp"],
 [("parallel-for over nodes then edges", "multigraph/functors.hpp Hom/RipsHom"), ("R=BU reduction and preferred representatives", "homology/basis.hpp, homology/dgbasis.hpp"), ("induced_map", "homology/induced_map.hpp")],
 None, ["hdim of nodes, representatives, edge matrices"])

prop("C03", "Diagram barcode is the interval decomposition for any threads and algorithm",
 "The barcode of a linear diagram of vector spaces with at least one arrow and arbitrary arrow directions is the multiset of intervals of its unique interval decomposition, so it is determined by the ranks of the diagram's sub-segments; the rightward, leftward and parallel divide-and-conquer algorithms all return it. "
 "The answer does not depend on the number of threads or on how tasks are scheduled, and the parallel algorithm is free of data races and invalid memory accesses.",
 ["schedules", "inputs", "configurations"], "every thread count (the parallel algorithm runs only with 4 or more), every task interleaving, every arrow pattern, field and matrix",
 "The test suite runs with 2 threads, where the divide-and-conquer entry point silently falls back to the sequential sweep, so the parallel recursion is never executed by any test.",
 ["include/quiver/sparse.hpp", "include/linalg/sparse_fact.hpp"],
 [("task recursion with taskwait, barrier at region end", "quiver/sparse.hpp type_A_dq_common/EL/EU"), ("matrix factorizations and commutation relations", "linalg/sparse_fact.hpp")],
 [("facts[], mats[]", "per-edge factors shared between tasks", "quiver/sparse.hpp barcode_form_divide_conquer")], ["returned persistence pairs"])

prop("C04", "Parallel matrix reduction is a valid reduction on every schedule",
 "Reducing a matrix by the parallel divide-and-conquer algorithm or pre-reducing it with the parallel block sweep only adds earlier columns to later ones (and applies the same operations to the accompanying basis matrix), so the column space prefix by prefix is unchanged; the full reduction leaves nonzero columns with distinct lowest nonzeros and returns exactly the map from those rows to their columns. "
 "The pivot set equals the one of the standard sequential reduction for every matrix size, block size, thread count and interleaving, with no data race and no invalid memory access.",
 ["schedules", "inputs", "configurations"], "every matrix (including fewer columns than one block), block size, thread count and task order",
 "Tests only reduce small matrices for which the recursion never splits, at 2 threads, and never call the block sweep.",
 ["include/homology/parallel.hpp", "include/homology/reduction.hpp"],
 [("tasks on disjoint column blocks then sequential merge", "homology/parallel.hpp reduce_block_dq"), ("block sweep", "homology/parallel.hpp partial_reduce_parallel")],
 None, ["reduced matrix, basis matrix, pivot map"])

prop("C05", "Parallel neighbourhood and landmark-cover queries return exact answers",
 "The neighbourhoods of a point set in another, by radius (strictly inside) or by number of nearest neighbours, contain exactly one entry per query point listing exactly the right points, and the covers built from nearest landmarks contain exactly the points assigned to each landmark. Each landmark of a greedy selection is a furthest point from the earlier ones, with the true covering radius reported, and the approximate centre minimises the largest distance to such landmarks. "
 "The answer is the same for every thread count and interleaving, with no data race.",
 ["schedules", "inputs", "configurations"], "every data set, metric, radius or k, thread count and interleaving",
 "No test calls these functions.",
 ["include/topology/neighborhood.hpp", "include/topology/cover.hpp", "include/topology/landmark.hpp", "include/util/permutation.hpp"],
 [("parallel-for writing one slot per query point", "topology/neighborhood.hpp neighborhoods")], None, ["returned vectors and covers"])

prop("C06", "Parallel level-set zigzag contains exactly the cells of each window",
 "The zigzag of thickened level sets of a filtered complex has one node per window, alternating single and double windows from the lower to the upper bound, whose cells are exactly those whose interval of values meets the closed window, and each edge is the inclusion of the smaller window into the larger. "
 "The level-set filtration of a 3D image gives every cube the interval from the smallest to the largest value of the voxels containing it, so every window is a closed complex; results are identical for every thread count and interleaving, without data races.",
 ["schedules", "inputs", "configurations"], "every image or filtered complex, window size, thread count, interleaving",
 "Only a demo (not run by the suite) calls this code.",
 ["include/topology/levelset.hpp", "include/zigzag/zigzag_filtration.hpp", "include/complex/cubical_complex.hpp", "include/complex/cell_map.hpp"],
 [("parallel-for over windows and inclusions", "topology/levelset.hpp zigzag_levelsets"), ("values of faces from cofaces", "topology/levelset.hpp zigzag_toplex")], None, ["diagram nodes, edges"])

prop("C07", "End-to-end zigzag pipelines give the true barcode for any thread count",
 "From a point cloud and subsets, covers or landmark sequences to the final barcode, the composed pipelines (Rips zigzags over subset unions, nerve zigzags over refined covers, discrete Morozov and oscillating Rips zigzags, fused Rips homology) return the zigzag barcode defined by the nested complexes. "
 "Every stage may run in parallel: the barcode is the same for each number of threads, each interleaving and each choice of barcode algorithm.",
 ["schedules", "inputs", "configurations"], "every input and pipeline, thread count per run, interleaving across all stages",
 "Demos check exit status only; the property spans stages that unit tests exercise separately and mostly sequentially.",
 ["include/topology/inclusion.hpp", "include/topology/zigzag_zoo.hpp", "include/topology/landmark.hpp", "include/topology/cover.hpp", "include/multigraph/functors.hpp", "include/quiver/sparse.hpp"],
 [("diagram of subsets, functor composition, interval decomposition", "topology/inclusion.hpp, multigraph/functors.hpp, quiver/sparse.hpp")], None, ["returned persistence pairs, Rips parameters"])

prop("C08", "An error raised inside parallel work reaches the caller as an exception",
 "When an iteration of a parallel construction fails (a Rips parameter that decreases along an arrow, a vertex map without a target simplex, mismatched dimensions, memory exhaustion), the call throws an exception the caller can catch: the process is not terminated, no call hangs, and no result is returned as if it had succeeded. "
 "The inputs stay unchanged and a later call with valid input succeeds, for every thread count and whichever iterations fail.",
 ["schedules", "fault_sequences", "configurations"], "every failing iteration or combination of failing iterations, every thread count and interleaving",
 "No test provokes an error in a parallel region; a test harness cannot survive std::terminate.",
 ["include/multigraph/functors.hpp", "include/topology/levelset.hpp", "include/quiver/sparse.hpp", "include/homology/parallel.hpp"],
 [("explicit throws inside parallel loops", "multigraph/functors.hpp Rips, complex/simplicial_map.hpp SimplicialMap, complex/cell_map.hpp CellularMap")], None, ["exception at the call site"])

prop("C09", "Shared complexes, filtrations and reductions can be read concurrently",
 "Any number of threads may concurrently query one shared constant complex, filtration, matrix, chain complex or reduced complex (cell lookup, enumeration, boundaries, persistence pairs, representatives, induced maps, reductions of the shared input): there is no data race, and each query returns what it returns when run alone.",
 ["schedules", "inputs"], "every mix of read-only queries, every interleaving",
 "All tests are single-threaded users of the library.",
 ["include/complex/simplicial_complex.hpp", "include/util/trie.hpp", "include/complex/cubical_complex.hpp", "include/filtration/filtration.hpp", "include/homology/basis.hpp", "include/linalg/col_matrix.hpp"],
 [("const member functions without hidden mutable state", "complex/*.hpp, homology/basis.hpp, linalg/*.hpp")], None, ["query results"])

prop("R01", "Results are reproducible across threads, heap contents and clock",
 "Given the same inputs and generator state, every computation returns identical results (cell order, matrices, pair lists, representatives, the intervals of diagram barcodes) whatever the number of threads, their interleaving, the previous contents of the heap and the time of day. "
 "Random matrices, vectors, subsets, permutations and sampled point clouds depend only on the generator or seed passed in, and calls that take no seed still return data of the documented kind (size, range, points on the stated shape) at every clock value.",
 ["schedules", "configurations", "inputs"], "every schedule, clock value, heap history",
 "Each test runs once per process under one schedule, with a clock it does not control, and compares with itself only.",
 ["include/multigraph/functors.hpp", "include/linalg/col_matrix.hpp", "include/linalg/sparse_vector.hpp", "include/topology/data_gen.hpp", "include/util/set.hpp", "include/util/permutation.hpp"],
 [("each parallel iteration is a pure function of its input", "multigraph/functors.hpp"), ("generators seeded explicitly, or from the clock", "linalg/col_matrix.hpp random, topology/data_gen.hpp")], None, ["digest of the returned objects"])

prop("S01", "Saving then loading returns an equal object under any legal I/O behaviour",
 "A simplicial complex, sparse integer or modular matrix, or cellular map that is saved to a file and loaded back is equal to the original: same cells in the same order with the same indices (dimensions without cells are not stored), same matrix dimensions and entries, same number of maps. "
 "This holds for empty and degenerate objects too, and for every legal behaviour of the operating system's file calls (short reads and writes, interrupted calls), and saving over a longer old file leaves none of its contents behind.",
 ["inputs", "fault_sequences"], "every object and every sequence of short or interrupted reads and writes",
 "No test saves or loads anything.",
 ["include/complex/simplicial_complex.hpp", "include/complex/cell_map.hpp", "include/linalg/col_matrix.hpp", "include/linalg/sparse_vector.hpp"],
 [("text writer and reader pairs", "complex/simplicial_complex.hpp save/ctor, complex/cell_map.hpp save/ctor, linalg/col_matrix.hpp write/read/save")], None, ["loaded object"])

prop("S02", "A save that did not reach the file is always reported",
 "When saving an object fails because the file cannot be created or because any write fails (disk full, I/O error), the failure is reported to the user by a message on the error stream or an exception; whenever a save completes without any such report, the file holds the complete object and loads back equal. "
 "A failed save does not crash, hang or change the object in memory, and saving again once the fault is gone succeeds.",
 ["fault_sequences", "inputs"], "every object and every position and kind of failing file operation",
 "Tests never save, and cannot make the disk fail.",
 ["include/complex/simplicial_complex.hpp", "include/complex/cell_map.hpp", "include/linalg/col_matrix.hpp", "include/multigraph/diagram.hpp"],
 [("std::cerr message when a file cannot be opened", "all save functions")], None, ["std::cerr, exceptions, file contents"])

prop("S03", "Loading a torn or damaged file never yields a malformed object",
 "Loading a file that was cut off at an arbitrary byte, has a damaged number, or stops with a read error terminates without invalid memory access, and either throws an exception or returns a well-formed object: a complex closed under taking faces, a matrix with the declared number of columns and every index inside the declared dimensions in increasing order, and no cell or entry that the file as it stands does not list. "
 "It never loops forever and never duplicates data.",
 ["crash_points", "fault_sequences", "inputs"], "every truncation point and every read fault, for every saved object",
 "No test loads a file.",
 ["include/complex/simplicial_complex.hpp", "include/complex/cell_map.hpp", "include/linalg/col_matrix.hpp", "include/linalg/sparse_vector.hpp", "include/topology/data.hpp"],
 [("line-based readers with getline and stoi", "linalg/col_matrix.hpp read, linalg/sparse_vector.hpp string constructor, complex/simplicial_complex.hpp")], None, ["loaded object or exception"])

prop("S04", "Saving a diagram in parallel writes exactly one faithful file per member",
 "Saving a diagram creates a directory whose metadata gives the number of nodes, the number of edges and every edge's source and target in order, and which contains for every node and every edge one file that loads back equal to that node or edge. "
 "This holds for every thread count and interleaving of the parallel writers, with short and interrupted writes, and when the directory already exists; failures of any of the files are reported.",
 ["schedules", "fault_sequences", "inputs"], "every diagram, thread count, interleaving and I/O behaviour",
 "No test saves a diagram.",
 ["include/multigraph/diagram.hpp", "include/complex/simplicial_complex.hpp", "include/complex/cell_map.hpp"],
 [("parallel-for over node and edge files", "multigraph/diagram.hpp save")], None, ["directory contents"])

prop("S05", "Point-cloud and cubical-complex files are read exactly",
 "Reading a comma-separated point cloud gives a matrix holding exactly the numbers of the file in order, optionally skipping one header line, and loading a cubical complex from a text list of cubes (faces before the cubes they bound) gives exactly the listed cubes in order, with their boundaries. "
 "This holds under short and interrupted reads; inconsistent rows, unreadable files and read errors are reported and never cause invalid memory access.",
 ["inputs", "fault_sequences"], "every file and every sequence of short, interrupted or failing reads",
 "No test reads a data file.",
 ["include/topology/data.hpp", "include/complex/cubical_complex.hpp"],
 [("line-based readers", "topology/data.hpp read_point_cloud, complex/cubical_complex.hpp load_cubes")], None, ["returned matrix or complex, std::cerr"])

prop("A01", "Memory exhaustion is survived: exception, no leak, no corruption, retry works",
 "If any single allocation fails during building a complex or filtration, forming a chain complex, reducing it, updating it, computing a barcode or an induced map, or copying any of these, the call throws std::bad_alloc to its caller. "
 "Nothing is leaked (the buffers of dense matrices and data sets, which callers own, aside), freed twice or accessed after being freed, constant inputs are unchanged, every object can still be destroyed, and repeating the same call on fresh objects with memory available gives the correct result.",
 ["fault_sequences", "inputs"], "every allocation site on every execution",
 "Tests never see an allocation fail.",
 ["include/util/trie.hpp", "include/complex/simplicial_complex.hpp", "include/linalg/col_matrix.hpp", "include/homology/basis.hpp", "include/linalg/sparse_fact.hpp", "include/util/permutation.hpp"],
 [("RAII containers; hand-written ownership in the trie", "util/trie.hpp")], None, ["exception, heap state"])

prop("H01", "Any history of filtration updates equals recomputing from scratch",
 "Starting from a reduced filtered chain complex, after any sequence of value updates (reordering cells) and general updates (adding, removing and reordering cells), the persistence pairs in every dimension equal those of reducing the current filtration from scratch. "
 "The stored factorization stays valid (the boundary matrix in current order times the basis matrix equals the reduced matrix, with an invertible upper triangular basis), so representatives remain cycles and further updates stay correct.",
 ["histories", "inputs"], "every sequence of updates, in every order and length, including empty changes, vertex additions and removals",
 "The tests apply a single update to one fixed filtration; errors that corrupt the basis appear only at the second or later update.",
 ["include/homology/basis.hpp", "include/persistence/filtered_basis.hpp", "include/filtration/update_information.hpp"],
 [("permute, re-triangularize, delete, insert, re-reduce", "homology/basis.hpp permute_basis, update_basis_general"), ("difference of two filtrations", "filtration/update_information.hpp")],
 [("U,R,p2c,perm,val", "factorization and orderings carried between updates", "persistence/filtered_basis.hpp")], ["persistence_pairs, representative"])

prop("H02", "Update histories of (co)homological graded reductions stay correct",
 "Starting from a reduced filtered differential graded space of either degree, after any sequence of value updates and of updates that add, remove and reorder cells, the persistence pairs in every dimension equal those obtained from the current filtration from scratch, and homological and cohomological histories agree with each other on them. "
 "The stored reduced and basis matrices remain a valid factorization of the current differential.",
 ["histories", "inputs"], "every sequence of updates, both degrees",
 "Tests apply one update to one filtration; many update tests are not part of the passing suite.",
 ["include/homology/dgbasis.hpp", "include/persistence/filtered_dgbasis.hpp", "include/filtration/update_information.hpp", "include/dgvs/filtered_dgvs.hpp"],
 [("permute, re-triangularize, delete, insert, re-reduce with clearing", "homology/dgbasis.hpp update_basis")], None, ["persistence_pairs"])

prop("H03", "Zigzag filtration barcode matches the history of insertions and removals",
 "For every history of cell insertions and removals in which each cell is present, over one or more disjoint closed intervals of parameters, only while its faces are (a zigzag filtration, cells possibly re-entering), the computed zigzag barcode in each dimension, ignoring zero-length bars, is the interval decomposition of the homology of the sequence of complexes: births and deaths at the right parameter values and at entries or removals correctly identified. "
 "The answer is independent of the reduction flags and of the order of events that share a parameter value, and agrees with the barcode of the explicit diagram of complexes. Building the history interval by interval or cell by cell with all missing faces stores exactly the given intervals; extending a function on the vertices gives each cell the interval on which all its vertices are present; the level set of an interval of parameters consists of the cells whose interval meets it.",
 ["histories", "inputs"], "every history of insertions and removals, with ties, every coefficient field and flag combination",
 "Tests contain no zigzag filtration; only a demo exercises it.",
 ["include/zigzag/zigzag_filtration.hpp", "include/zigzag/reduction.hpp", "include/zigzag/extension.hpp"],
 [("running factorization along insert and delete events", "zigzag/reduction.hpp zigzag_barcode_reduction"), ("event order and duplicated cells", "zigzag/zigzag_filtration.hpp prepare_ChainComplex")], None, ["returned bars"])

prop("H04", "Simplicial complexes and filtrations obey a set model under any history",
 "After any history of adding simplices (the same one repeatedly, with vertices in any order, recursively with faces, or by union) to a simplicial complex, light simplicial complex or filtration, each distinct simplex is held once under a stable index, lookup finds exactly the present simplices, enumeration lists them in insertion order, and each boundary is the signed sum of the simplex's faces so that the boundary of a boundary is zero. "
 "Filtration values, sublevel sets and sort orders agree with the values given for each cell, and both complex types agree with each other (boundaries up to the choice of orientation). A Morse pairing on such cells never puts a cell in two pairs, pairs an edge with the younger of the components it joins, and forgets everything when cleared.",
 ["histories", "inputs"], "every sequence of additions and queries on every vertex set",
 "Tests build a handful of fixed complexes.",
 ["include/complex/simplicial_complex.hpp", "include/complex/light_simplicial_complex.hpp", "include/filtration/filtration.hpp", "include/util/trie.hpp", "include/morse/pairing.hpp"],
 [("trie from vertex tuples to indices; faces and coefficients recorded on insertion", "complex/simplicial_complex.hpp, util/trie.hpp"), ("integer-encoded simplices", "complex/light_simplicial_complex.hpp")], None, ["find_idx, get_simplices, boundary, boundary_csc, vals"])

prop("H05", "Cubical and cell complexes obey a cell-set model under any history",
 "After any history of adding cubes (singly, recursively with faces, or as a full grid) to a cubical complex or filtration, each distinct cube is held once under a stable index, lookup finds exactly the present cubes, skeleta keep exactly the low-dimensional ones, and boundaries are the signed sums of the two opposite faces in each direction, so that the boundary of a boundary is zero and homology is that of the union of the cubes. "
 "Cell complexes built from vertices and explicit boundaries keep exactly the cells and boundaries given, and inclusion maps between nested complexes commute with the boundary.",
 ["histories", "inputs"], "every sequence of additions and queries",
 "Tests do not cover cubical or general cell complexes beyond demos.",
 ["include/complex/cubical_complex.hpp", "include/complex/cell_complex.hpp", "include/complex/cubical_map.hpp", "include/complex/cell_map.hpp"],
 [("trie from coordinates to indices, signed faces", "complex/cubical_complex.hpp")], None, ["find_idx, get_cubes, boundary_csc"])

prop("H06", "Sparse vectors and matrices refine a dense model under any history",
 "After any history of operations on sparse vectors and column matrices (entry access, scaled additions, products, permutations, swaps, transposes, row and column insertion, deletion and appending, submatrices, triangular solves), their values and dimensions equal those of a dense matrix put through the same history, with every column sorted by row index, free of stored zeros and inside the declared dimensions. "
 "This holds over every coefficient field, when operands alias each other, and whatever preallocated temporaries held before.",
 ["histories", "inputs"], "every sequence of operations, aliasing pattern and temporary reuse, several fields",
 "Tests check single operations on fixed operands, not histories that leave unusual internal states.",
 ["include/linalg/sparse_vector.hpp", "include/linalg/col_matrix.hpp", "include/linalg/csc_matrix.hpp"],
 [("sorted nonzero lists merged with preallocated temporaries", "linalg/sparse_vector.hpp, linalg/col_matrix.hpp")], None, ["entries, dimensions, column invariants"])

prop("H07", "Complexes, sparse matrices and diagrams are independent values under copying",
 "Copying, assigning, moving and destroying complexes, filtrations, sparse matrices, chain complexes, reductions and diagrams, in any order and repetition (including self-assignment and assignment over non-empty objects), gives objects equal to their source at that moment and independent afterwards: changing or destroying one never changes another. "
 "No history leaks memory, frees it twice or touches freed memory.",
 ["histories", "inputs"], "every history of copies, assignments, moves, mutations and destructions",
 "Tests copy objects incidentally; lifetime errors need specific sequences to show and do not fail assertions.",
 ["include/util/trie.hpp", "include/complex/simplicial_complex.hpp", "include/complex/cubical_complex.hpp", "include/linalg/col_matrix.hpp", "include/multigraph/diagram.hpp"],
 [("hand-written copy and move operations", "util/trie.hpp"), ("member-wise copies everywhere else", "complex, chain, homology, persistence, multigraph")], None, ["object contents, heap state"])

prop("H08", "Chain complexes and chain maps follow linear algebra under any history",
 "Under any sequence of operations on chain complexes and graded vector spaces (building from simplicial, cubical or cell complexes, relative to a subcomplex, permuting a basis in one or all dimensions, subcomplexes, quotients, tensor products, preprocessing by apparent pairs, copies), each object equals the matrices that the definition gives and consecutive maps compose to zero. "
 "Its homology has the dimensions and representatives linear algebra gives, for either degree and with augmentation. A cellular map induces the right chain map, also between quotients, and the right map in (relative) homology; a map of the wrong shape is refused.",
 ["histories", "inputs"], "every sequence of constructions and operations on every complex, subcomplex and map, over every field",
 "Tests check a tensor product of one small complex and a few permutations; relative complexes and maps appear in one example and errors need particular orders of cells.",
 ["include/chain/chain_complex.hpp", "include/chain/chain_map.hpp", "include/dgvs/dgvs.hpp", "include/dgvs/dgmap.hpp", "include/homology/basis.hpp", "include/homology/dgbasis.hpp", "include/homology/induced_map.hpp", "include/complex/cell_map.hpp", "include/complex/simplicial_map.hpp"],
 [("operations on boundary matrices", "chain/chain_complex.hpp"), ("relative maps", "chain/chain_map.hpp")], None, ["boundary matrices", "hdim, preferred representatives", "induced_map"])

prop("H09", "Complexes built from points, graphs, landmarks and grids match their definitions",
 "Flag and Rips complexes and filtrations (of points, of a distance matrix, restricted to a cover), Dowker and witness complexes, triangulated grids and grids of cubes, and lower-star filtrations contain exactly the simplices or cubes their definitions admit up to the requested dimension, each once, with the value and the critical edge or vertex the definition gives. "
 "Metrics, enclosing radii, witness parameters, interval covers, projections and gradients are the functions they are named after. Results do not depend on thread count, leftover heap contents or calls that failed for lack of memory.",
 ["inputs", "schedules", "faults"], "every point cloud, graph, landmark set, cover, grid and function; every dimension including 0; every thread schedule and memory state",
 "Tests build one or two small complexes and mostly compare counts; Dowker, witness, cover and triangulated-grid functions are not called by any test.",
 ["include/filtration/flag.hpp", "include/filtration/rips.hpp", "include/filtration/extension.hpp", "include/topology/flag.hpp", "include/topology/rips.hpp", "include/topology/rips_cover.hpp", "include/topology/dowker.hpp", "include/topology/dowker_cover.hpp", "include/topology/neighborhood.hpp", "include/topology/grid.hpp", "include/topology/metric.hpp", "include/topology/cover.hpp", "include/util/sorted.hpp"],
 [("direct constructions from edges and distances", "filtration/*.hpp topology/*.hpp"), ("metrics", "topology/metric.hpp")], None, ["cells, values, indices of the returned objects", "distances"])

prop("H10", "Products of complexes, Eilenberg-Zilber maps and connecting maps are exact",
 "For any two simplicial complexes (vertices numbered 0..n-1, cells in any order) and any field, EilenbergZilber returns the tensor product of their chain complexes with its boundary, the triangulated product with every cell once, and a chain map between them that sends each product of simplices to all shuffles of it with coefficients +-1 and vertices to vertices; for pairs (X,A), (Y,B) it returns the quotients of all three. "
 "Products of chains and of homology classes land in the class they represent and together span the homology of the product, and the Mayer-Vietoris map of a union sends each cell of A to the part of its boundary in the intersection.",
 ["inputs", "faults"], "every pair of complexes and subcomplexes, every order of cells, field and truncation; every memory state",
 "No test calls these functions; a demonstration prints one example.",
 ["include/topology/eilenberg_zilber.hpp", "include/topology/mayer_vietoris.hpp", "include/complex/simplicial_complex.hpp", "include/chain/chain_complex.hpp", "include/chain/chain_map.hpp"],
 [("shuffles of paths through a product", "complex/simplicial_complex.hpp product_paths"), ("tensor product and map", "topology/eilenberg_zilber.hpp")], None, ["boundary matrices", "maps", "cells of the product"])

prop("H11", "Factorizations, solves and normal forms of matrices are exact",
 "Each factorization of a sparse matrix (LEUP, PLEU, UELP, PUEL, LQU, UQL, in place or not) returns invertible triangles, a permutation and an echelon or pivot matrix of the promised shape, with as many pivots as the rank, whose product is the input; inverses, triangular solves and commutation of triangles past echelon matrices are exact. "
 "Smith forms over the integers and over polynomials are diagonal with each entry dividing the next and unimodular factors; polynomial division, common divisors, companion and characteristic matrices and the rational canonical form satisfy their definitions. Inputs are left unchanged and results do not depend on what factorizations ran before, on leftover heap contents or on calls that failed for lack of memory.",
 ["inputs", "histories", "faults"], "every matrix of every shape and rank over every field, integers and polynomials; factors factored again; every memory state",
 "Tests factor random matrices of a few sizes; only demonstrations call the normal forms.",
 ["include/linalg/sparse_fact.hpp", "include/linalg/col_matrix.hpp", "include/linalg/pid.hpp", "include/linalg/polynomial.hpp", "include/linalg/rcf.hpp"],
 [("elimination with pivots", "linalg/sparse_fact.hpp"), ("elimination over a PID", "linalg/pid.hpp")], None, ["factors", "normal forms"])

prop("P01", "Every reduction algorithm yields the same persistence, on every schedule",
 "For every filtered complex and coefficient field, the persistence pairs are those of the mathematical definition (ranks of maps between sublevel sets), whichever reduction is used: standard, with extra or sparse elimination, with clearing or compression, with or without a basis, parallel divide-and-conquer, homology or cohomology, or union-find in dimension 0. "
 "Pairs join a cell with a cell one dimension higher and each cell is used at most once, and representatives returned for a pair are cycles born at its birth; results do not depend on thread count or interleaving.",
 ["schedules", "inputs", "configurations"], "every filtration with ties, every algorithm flag combination and field, every schedule of the parallel variant",
 "Tests compare a few flags on one or two complexes; the parallel variant never actually splits at the sizes tested.",
 ["include/homology/reduction.hpp", "include/homology/parallel.hpp", "include/homology/basis.hpp", "include/homology/dgbasis.hpp", "include/homology/cohom_basis.hpp", "include/persistence/filtered_basis.hpp", "include/persistence/filtered_dgbasis.hpp", "include/persistence/union_find.hpp", "include/chain/filtered_chain_complex.hpp"],
 [("column reductions with flags", "homology/reduction.hpp"), ("pair extraction", "persistence/filtered_basis.hpp persistence_pairs")], None, ["persistence_pairs, representative"])

# ---- not applicable to this technique
prop("N01", "Coefficient field arithmetic is exact",
 "Arithmetic in the prime fields and the rationals satisfies the field axioms: sums, products, negatives and inverses are exact for every pair of representable elements, division by zero is reported, and printed values read back equal.",
 ["inputs"], "all pairs of field elements",
 "Tests sample a few elements.", ["include/linalg/field.hpp"], [("modular and rational operators", "linalg/field.hpp")], None, ["operator results"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
