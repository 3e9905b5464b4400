"""Writes properties.jsonl and MANIFEST.json from the table below (python3 tools/mkdocs.py)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = {}


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None, level=None):
    P.append((dict(
        id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
        anchors={
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe), "hook_needed": hook,
        },
    ), level))


LOOP = ("parallel loop over points or bonds", "freud/util/utils.h forLoopWrapper, forLoopWrapper2D; freud/locality/NeighborComputeFunctional.h loopOverNeighbors")
HIST = ("thread-local histograms reduced on reading", "freud/util/Histogram.h ThreadLocalHistogram; freud/locality/BondHistogramCompute.h")

prop(
    "P01", "The result does not depend on the schedule or the number of threads",
    "For every parallel analysis and every bulk operation, the values returned for given inputs are the same for any number of "
    "worker threads, any division of the work among them and any interleaving. They are bit-identical, except where a sum of "
    "floating-point numbers is grouped by the division of the work, and there they agree to rounding.",
    ["schedules", "inputs", "configurations"],
    "all task divisions, stealing orders, preemption points and 1 to 16 workers; all supported inputs",
    "The tests compare a few parallel results with fixed numbers on whatever schedule the machine produces; none chooses a schedule, "
    "and most inputs are too small to be divided at all.",
    ["freud/util/utils.h", "freud/util/Histogram.h", "freud/util/ThreadStorage.h", "freud/locality/NeighborComputeFunctional.h",
     "freud/order/Cubatic.cc", "freud/density/GaussianDensity.cc", "freud/parallel.py"],
    [LOOP, HIST, ("thread-local arrays", "freud/util/ThreadStorage.h"), ("parallel sort of bonds", "freud/locality/NeighborQuery.h toNeighborList")],
    observe=["every output of every parallel analysis in vsim/adapters.py"], hook=None,
    level="seeded search over schedules of the real C++ under a simulated TBB scheduler; oracle: the one-worker schedule of the same build",
)
prop(
    "P02", "No data races in parallel computations",
    "While any analysis, query or bulk operation runs, no two worker threads access the same memory without ordering, one of them "
    "changing its value. No memory is used after it was freed.",
    ["schedules", "inputs"],
    "all interleavings of the workers of every parallel region; all supported inputs",
    "No test runs under a race detector, and the tests' results rarely show a lost update.",
    ["freud/util/utils.h", "freud/locality/NeighborComputeFunctional.h", "freud/cluster/Cluster.cc", "freud/density/GaussianDensity.cc",
     "freud/density/SphereVoxelization.cc", "freud/locality/Filter.h", "freud/order/Cubatic.cc"],
    [LOOP, HIST, ("wait-free disjoint sets", "freud/cluster/Cluster.cc, extern/dset"), ("locks around shared results", "freud/locality, freud/util")],
    observe=["happens-before analysis over instrumented memory accesses"],
    level="seeded schedules with a happens-before race detector inside the simulator",
)
prop(
    "P03", "The same seed gives the same result",
    "A computation that takes a seed returns the same result each time it is run with that seed on the same input, whatever was "
    "computed before, whatever thread schedule or thread count is in use, and whatever other code did to the global random generators. "
    "Without a seed, different results are drawn; with one, the global generators are left as they were.",
    ["schedules", "histories", "inputs"],
    "all schedules, thread counts, clock values and histories of other random draws between two uses of a seed",
    "The tests fix a seed and compare once, in one process state and on one schedule.",
    ["freud/order/Cubatic.cc", "freud/order.py", "freud/data.py"],
    [("generator seeded per replicate", "freud/order/Cubatic.cc"), ("numpy Generator from the seed", "freud/data.py")],
    observe=["Cubatic.order_parameter and particle outputs", "freud.data.make_random_system", "UnitCell.generate_system"],
    level="seeded search over schedules, clock values and disturbances between two uses of one seed",
)
prop(
    "P04", "Accumulated results are those of exactly the frames since the last reset",
    "After any sequence of accumulating and resetting computations and readings, what is read equals what a new object reports "
    "that is fed only the frames since the last reset. Reading in between changes nothing.",
    ["histories", "schedules", "inputs"],
    "all finite sequences of compute(reset=True), compute(reset=False) and reads, over frames of differing size, box and bonds; all schedules",
    "The tests read after one or two identical frames; they do not mix reads, resets and unequal frames, nor vary which threads took part in which frame.",
    ["freud/util/Histogram.h", "freud/locality/BondHistogramCompute.h", "freud/density/RDF.cc", "freud/density/CorrelationFunction.cc",
     "freud/pmft/PMFT.h", "freud/environment/BondOrder.cc", "freud/diffraction/StaticStructureFactorDebye.cc", "freud/diffraction.py", "freud/msd.py"],
    [HIST, ("lazy reduction flag", "freud/locality/BondHistogramCompute.h m_reduce"), ("frame counter", "freud/locality/BondHistogramCompute.h m_frame_counter")],
    state=[("thread-local counts", "bonds counted by each worker since the last reset", "freud/util/Histogram.h"),
           ("frame counter", "frames since the last reset", "freud/locality/BondHistogramCompute.h")],
    observe=["outputs of RDF, CorrelationFunction, BondOrder, the PMFTs, StaticStructureFactorDebye, DiffractionPattern, MSD, RotationalAutocorrelation"],
    level="seeded histories and schedules; oracle: a new object fed the same frames serially",
)
prop(
    "P05", "A failed accumulation leaves no trace",
    "When a computation that adds a frame fails, because its arguments are rejected, memory runs out or it is interrupted, everything "
    "read afterwards, and after further frames, is what it would have been without the failed call. A failed call that was asked "
    "to reset may have reset, and an interruption may have let the frame be added whole.",
    ["fault_sequences", "histories", "schedules", "crash_points"],
    "all positions of a rejected argument, failing allocation or interruption within a call, at any point of any history of frames, reads and resets; all schedules",
    "The tests check that bad arguments raise; they never read the object afterwards, and cannot make an allocation fail or interrupt a call at a chosen point.",
    ["freud/locality/BondHistogramCompute.h", "freud/diffraction/StaticStructureFactorDebye.cc", "freud/density.py", "freud/pmft/PMFTXYZ.cc",
     "freud/diffraction.py", "freud/msd.py", "freud/density/CorrelationFunction.cc"],
    [("state changed only after the loop succeeded", "freud/locality/BondHistogramCompute.h accumulateGeneral"), ("validation before accumulation", "freud/locality.py _preprocess_arguments")],
    observe=["outputs of every accumulating analysis after a failed call"],
    level="seeded fault injection (rejected arguments, allocation failure, interruption, bad values in mid-loop) in seeded histories and schedules",
)
prop(
    "P06", "A failed computation does not spoil the next",
    "After a computation failed, because its arguments are rejected, memory runs out or it is interrupted, the next computation on the "
    "same object that succeeds gives what a new object gives, however many calls failed before and whatever they were given.",
    ["fault_sequences", "histories", "schedules", "crash_points"],
    "all positions of the failure within a call, any number of failures, any history of inputs of differing sizes; all schedules",
    "The tests use an object after a failure nowhere.",
    ["freud/density", "freud/order", "freud/environment", "freud/cluster", "freud/locality", "freud/interface.py", "freud/util.py"],
    [("results allocated anew for each computation", "freud/*/*.cc compute"), ("flag of a finished computation", "freud/util.py _Compute")],
    observe=["outputs of every resetting analysis after a failed call"],
    level="seeded fault injection in seeded histories and schedules; oracle: a new object",
)
prop(
    "P07", "Neighbor queries return exactly the neighbors",
    "A neighbor query returns, for each query point, exactly the points its arguments ask for under the minimum image convention: all "
    "within the cutoffs (from r_min on and nearer than r_max), or the asked number of nearest ones, without the point itself when excluded, each bond once, with its distance "
    "and vector, and in the promised order. This holds for each of the available search structures and however often and with whatever "
    "arguments a structure has been asked before.",
    ["inputs", "histories", "schedules", "configurations"],
    "all boxes (two- and three-dimensional, triclinic), point sets, query arguments, search structures, histories of queries and schedules",
    "The tests compare the structures with each other on a few random systems in nearly cubic boxes, on a structure that was just built.",
    ["freud/locality/AABBQuery.cc", "freud/locality/AABBQuery.h", "freud/locality/LinkCell.cc", "freud/locality/LinkCell.h",
     "freud/locality/CellQuery.cc", "freud/locality/CellQuery.h", "freud/locality/NeighborQuery.h", "freud/locality.py"],
    [("tree of bounding boxes and periodic images", "freud/locality/AABBQuery.cc"), ("cell list with shells of cells", "freud/locality/LinkCell.cc"),
     ("grid rebuilt per radius", "freud/locality/CellQuery.cc"), ("parallel collection and sort", "freud/locality/NeighborQuery.h toNeighborList")],
    observe=["NeighborQuery.query(...) iterated and as NeighborList"],
    level="seeded query histories and schedules against a brute-force model in float64",
)
prop(
    "P08", "Queries of one structure do not disturb each other",
    "Queries of one structure that are consumed bit by bit, in any interleaving with each other, with other computations on the "
    "structure and with the disposal of the structure or of the caller's arrays, each give what they give when consumed alone.",
    ["schedules", "histories", "inputs"],
    "all interleavings of the consumption of several lazily evaluated queries, and all arguments of theirs",
    "Each test consumes one query in full before it begins the next.",
    ["freud/locality/NeighborQuery.h", "freud/locality/CellQuery.h", "freud/locality/AABBQuery.h", "freud/locality/LinkCell.h", "freud/locality.py"],
    [("iterators that own their state", "freud/locality/NeighborPerPointIterator.h and the iterator of each structure"), ("lifetime of arrays", "freud/locality.py NeighborQueryResult")],
    observe=["bonds yielded by interleaved iterators"],
    level="seeded interleavings of iterator steps by simulated clients",
)
prop(
    "P09", "Neighbor lists stay consistent under any sequence of operations",
    "After any sequence of constructions, filters, copies and sorts, a neighbor list holds exactly the bonds the sequence keeps, "
    "each with its own distance, weight and vector; counts, segments and the first-bond search agree with the bonds. A refused operation "
    "leaves the list as it was, and no operation changes a copy.",
    ["histories", "schedules", "inputs", "fault_sequences"],
    "all sequences of list operations on lists of all sizes, including empty ones, with refused and failing operations in between; all permutations the parallel sort may produce among equal keys",
    "The tests apply one operation to a handful of fixed lists.",
    ["freud/locality/NeighborList.cc", "freud/locality/NeighborList.h", "freud/locality/NeighborBond.h", "freud/locality.py"],
    [("filter over all arrays together", "freud/locality/NeighborList.cc filter, filter_r"), ("segments and counts derived lazily", "freud/locality/NeighborList.cc updateSegmentCounts"),
     ("validation and sort on construction", "freud/locality/NeighborList.cc")],
    state=[("segments and counts", "cached index of the bonds of each query point", "freud/locality/NeighborList.h")],
    observe=["every attribute of freud.locality.NeighborList"],
    level="seeded operation histories with failing allocations and refused arguments, against a small model",
)
prop(
    "P10", "Returned results are snapshots",
    "An array read from an analysis or a neighbor list keeps its values and stays valid when the object later computes anew, fails in "
    "doing so, or is disposed of. (Adding a frame with reset=False and sorting a list in place are meant to change what is there.)",
    ["histories", "schedules", "fault_sequences"],
    "all histories of computations (each resetting), reads, failures and disposals after the array was read; all schedules",
    "A few tests compare an array before and after one more computation of the same object; none disposes of or fails the object.",
    ["freud/util/ManagedArray.h", "freud/util/export-ManagedArray.h", "freud/locality/BondHistogramCompute.h", "freud/density", "freud/order", "freud/environment", "freud/cluster", "freud/locality"],
    [("arrays allocated anew rather than overwritten", "m_... = std::make_shared<util::ManagedArray<...>> in each compute"), ("shared ownership with NumPy", "freud/util/export-ManagedArray.h")],
    observe=["arrays held by the caller"],
    level="seeded histories with faults and disposal; arrays compared with copies made when they were read, freed memory poisoned",
)
prop(
    "P11", "Results exist only after a successful computation",
    "Before the first computation has succeeded, reading any computed result of an analysis raises AttributeError, also when "
    "computations have failed or been interrupted before. After one has succeeded, each of them can be read, whatever later computations failed. Options can be read at any time.",
    ["histories", "fault_sequences", "crash_points"],
    "all analyses and all of their computed results; all failures of the first computations at any point",
    "The tests check some of the results of some analyses, and none after a failed computation.",
    ["freud/util.py", "freud/density.py", "freud/order.py", "freud/environment.py", "freud/cluster.py", "freud/locality.py", "freud/msd.py", "freud/diffraction.py", "freud/interface.py", "freud/pmft.py"],
    [("computed properties check the flag set after compute returns", "freud/util.py _Compute")],
    observe=["every property of every analysis"],
    level="seeded faults in the first computations, every property read",
)
prop(
    "P12", "The thread limit is the one that was set, and temporary limits are undone",
    "The number of threads reported, and the number of workers any computation uses, is that of the latest setting in force. Leaving a "
    "temporary limit, normally or through an exception or interruption, restores the limit that was in force when it was entered, also when they are nested.",
    ["histories", "schedules", "fault_sequences"],
    "all nested sequences of settings, temporary limits, exits by exception, and computations in between",
    "The tests set a number and read it back.",
    ["freud/parallel.py", "freud/parallel/tbb_config.h", "freud/parallel/module-parallel.cc"],
    [("context manager", "freud/parallel.py NumThreads"), ("global concurrency limit", "freud/parallel/tbb_config.h")],
    state=[("current limit", "the value last set", "freud/parallel.py _num_threads")],
    observe=["freud.get_num_threads()", "workers in the regions of the simulated scheduler"],
    level="seeded histories of settings with exceptions and interruptions against a stack model; worker counts observed in the simulated scheduler",
)
prop(
    "P13", "Clusters are the connected components of the bonds",
    "Clustering puts two points in the same cluster exactly when they are connected by bonds, whatever order the bonds come in and "
    "whichever workers merge them. Clusters are numbered from the largest to the smallest (equal sizes by their smallest point), and the listed keys are those of their members.",
    ["schedules", "inputs"],
    "all graphs of bonds and all interleavings of concurrent merges",
    "The tests use a few small systems whose merges never contend.",
    ["freud/cluster/Cluster.cc", "extern/dset", "freud/cluster.py"],
    [("wait-free union-find", "DisjointSets in freud/cluster/Cluster.cc"), ("renumbering by size", "freud/cluster/Cluster.cc")],
    observe=["Cluster.cluster_idx, num_clusters, cluster_keys"],
    level="seeded schedules of concurrent merges against a sequential union-find",
)
prop(
    "P14", "Neighbor filters keep exactly the bonds their definition keeps",
    "The solid-angle and relative-angular-distance filters return, for each query point, exactly the bonds their published definition "
    "keeps, each with its distance, weight and vector, in the order and with the counts of a neighbor list, independent of the schedule. Without permission for incomplete shells, they "
    "fail, naming the query points that lack a full shell.",
    ["schedules", "inputs"],
    "all systems, neighbor lists and filter options; all schedules of the parallel filter",
    "The tests compare with known lattices and one permutation.",
    ["freud/locality/FilterRAD.cc", "freud/locality/FilterSANN.cc", "freud/locality/Filter.h", "freud/locality.py"],
    [("filter per query point, merged from workers", "freud/locality/FilterRAD.cc, FilterSANN.cc")],
    observe=["filtered_nlist, unfiltered_nlist", "the error for incomplete shells"],
    level="seeded schedules and inputs against the definition in float64",
)
prop(
    "P15", "Objects and calling threads do not affect each other",
    "Computations on distinct objects, called from several threads in any interleaving and sharing boxes, points, search structures and "
    "neighbor lists, each give what they give when run alone.",
    ["schedules", "histories", "fault_sequences"],
    "all interleavings of the calls of up to four calling threads, with failing calls among them",
    "The tests use one object at a time from one thread.",
    ["freud/util.py", "freud/locality.py", "freud/box.py", "freud/locality/NeighborQuery.h", "freud/locality/CellQuery.cc", "freud/locality/NeighborList.cc", "freud/parallel.py"],
    [("no state shared between objects", "throughout"), ("search structures not changed by use", "freud/locality/NeighborQuery.h")],
    observe=["outputs of each simulated caller"],
    level="seeded interleavings of simulated calling threads, switched at lines of freud's Python code, and of their workers",
)
prop(
    "P16", "Inputs are taken when given and never modified",
    "No computation or query changes the arrays, dictionaries or objects it is given. What an object was given at construction or in a call is what it works "
    "with later on, whatever the caller does to its own data afterwards. (A neighbor list that a class hands back as the one it was given, and "
    "the arrays read from an object, are outside this guarantee.)",
    ["histories", "inputs", "schedules"],
    "all inputs (any accepted type, memory layout and writability) and all later changes by the caller, at any point of the history",
    "Tests seldom compare inputs afterwards, and do not change the caller's arrays between construction and use.",
    ["freud/util.py", "freud/locality.py", "freud/box.py", "freud/density.py", "freud/order.py", "freud/environment.py", "freud/cluster.py", "freud/pmft.py", "freud/diffraction.py", "freud/msd.py", "freud/interface.py"],
    [("conversion to contiguous arrays", "freud/util.py _convert_array"), ("copies kept by search structures and lists", "freud/locality.py")],
    observe=["the caller's arrays before and after", "results after the caller's changes"],
    level="seeded histories in which the caller overwrites its data at chosen points, with interrupts and failing allocations in between; oracle: the same history with the data left alone",
)
prop(
    "P18", "Pair histograms equal their definition",
    "The bin counts and normalized results of the radial distribution function, correlation functions, bond-order diagrams, potentials of "
    "mean force and the Debye structure factor equal their documented definition over the neighbors asked for (orientations as angles or as quaternions; a bin holds what lies on its lower edge, not its upper), under every schedule.",
    ["schedules", "inputs"],
    "all systems, neighbor selections, bins and options; all schedules of counting and reduction",
    "The tests check known limits (ideal gas, few particles) within wide tolerances.",
    ["freud/density/RDF.cc", "freud/density/CorrelationFunction.cc", "freud/environment/BondOrder.cc", "freud/pmft", "freud/diffraction/StaticStructureFactorDebye.cc", "freud/util/Histogram.h"],
    [HIST, LOOP],
    observe=["bin_counts, rdf, n_r, correlation, bond_order, pmft, S_k"],
    level="seeded schedules and inputs against float64 definitions",
)
prop(
    "P19", "Per-particle and grid analyses equal their definition",
    "Local density, the hexatic parameter, cluster properties, interfaces, angular separations, bond projections, the rotational "
    "autocorrelation, the cubatic parameter, Gaussian density and sphere voxelization and periodic buffers return, for each particle or grid cell, the value of their "
    "documented definition over the neighbors asked for, under every schedule.",
    ["schedules", "inputs"],
    "all systems, neighbor selections and options; all schedules",
    "The tests check symmetric arrangements and single particles.",
    ["freud/density/LocalDensity.cc", "freud/order/HexaticTranslational.cc", "freud/cluster/ClusterProperties.cc", "freud/interface.py", "freud/environment/AngularSeparation.cc",
     "freud/environment/LocalBondProjection.cc", "freud/order/RotationalAutocorrelation.cc", "freud/order/Cubatic.cc", "freud/density/GaussianDensity.cc", "freud/density/SphereVoxelization.cc", "freud/locality/PeriodicBuffer.cc"],
    [LOOP, ("per-point loops over segments of a neighbor list", "freud/locality/NeighborComputeFunctional.h")],
    observe=["every output of these analyses"],
    level="seeded schedules and inputs against float64 definitions",
)
prop(
    "P20", "Bulk box operations equal the operation on each vector",
    "Wrapping, unwrapping, images, fractional and absolute coordinates, distances, containment and centers of many vectors give for each "
    "vector what they give for it alone, however the vectors are divided among workers, and agree with their definition, on the faces of the box, too: a vector is what is wrapped from it, moved by its image, and faces are contained.",
    ["schedules", "inputs"],
    "all boxes, arrays and divisions among workers",
    "The tests use a handful of vectors, which one worker processes.",
    ["freud/box/Box.h", "freud/box/export-Box.cc", "freud/box.py"],
    [("parallel loop over vectors", "freud/box/Box.h"), ("conversion of arrays", "freud/box.py")],
    observe=["freud.box.Box methods on arrays"],
    level="seeded divisions and schedules; oracle: the single vector and a float64 definition",
)
prop(
    "P21", "Boxes are the same box in every representation",
    "After any history of changes to its lengths, tilts, dimension and periodicity, a box describes one lattice: everything it reports, everything computed "
    "with it and every representation it is converted to agree, and equal those of a box made at once with these values. Converting to any representation and back "
    "gives the same lattice and dimension (representations such as matrices and dictionaries do not carry periodicity). Refused changes and malformed representations leave it as it was.",
    ["inputs", "histories", "fault_sequences"],
    "all boxes, representations and histories of changes, refused ones included",
    "The tests convert a few boxes, and change one value of a new box at a time.",
    ["freud/box.py", "freud/box/Box.h", "freud/locality/NeighborQuery.h", "freud/locality/CellQuery.cc", "freud/locality/RawPoints.h"],
    [("setters of a box", "freud/box.py"), ("derived lengths, bounds and inverses", "freud/box/Box.h setL, set2D"),
     ("from_box, from_box_lengths_and_angles, to_dict, to_matrix, to_box_lengths_and_angles", "freud/box.py")],
    observe=["every property and method of freud.box.Box", "neighbor queries in the box"],
    level="seeded histories of changes, conversions and refused changes, with bulk operations and neighbor queries under seeded schedules in between; oracle: a float64 model of the lattice",
)
prop(
    "P22", "Voronoi cells partition the box",
    "The cells of a Voronoi diagram are what is nearest to their points and fill the box; its neighbor list holds each face between two cells (images included) once, "
    "ordered, with its area as weight and the vector to the neighbor. A diagram is that of a new object after any history, on any number of threads; one that fails leaves "
    "all of the one before, and results that were read stay as they are.",
    ["inputs", "schedules", "histories", "fault_sequences"],
    "all point sets and boxes, schedules and histories of calls",
    "The tests use regular lattices and new objects.",
    ["freud/locality/Voronoi.cc", "freud/locality.py"],
    [("cells, faces, volumes", "freud/locality/Voronoi.cc: Voronoi::compute"), ("results", "freud/locality.py: Voronoi")],
    observe=["volumes, polytopes, nlist (pairs, vectors, distances, weights, counts)"],
    level="seeded histories with faults under seeded schedules; each diagram is checked against the definition of a cell in float64, and against a new object on one worker",
)
prop(
    "P23", "Harmonic, matching and k-space analyses equal their definition",
    "Steinhardt (ordinary, averaged, weighted, Wl and its normalization), SolidLiquid, Nematic, LocalDescriptors (all modes) and "
    "StaticStructureFactorDirect return the values of their documented definition for every box, orientation, neighbor list and option. "
    "EnvironmentCluster, EnvironmentMotifMatch and EnvironmentRMSDMinimizer report a clustering, matches and deviations that a valid "
    "matching within the threshold explains, with environments belonging to the computation just made. A recomputation equals that of a "
    "new object, on any number of threads, and where random numbers are drawn (sampled k points, registration) every draw gives a valid answer.",
    ["inputs", "schedules", "histories"],
    "all systems, query points, neighbor arguments and options; all schedules; all sequences of (failing) computations; all values of the entropy source",
    "The tests use ideal lattices and mostly orthorhombic boxes in new objects; several of the classes are not in the official build of this sandbox at all.",
    ["freud/order/Steinhardt.cc", "freud/order/SolidLiquid.cc", "freud/order/Nematic.cc", "freud/order/Wigner3j.cc", "freud/environment/MatchEnv.cc",
     "freud/environment/Registration.h", "freud/environment/LocalDescriptors.cc", "freud/diffraction/StaticStructureFactorDirect.cc"],
    [LOOP, HIST, ("k points kept for the same box", "freud/diffraction/StaticStructureFactorDirect.cc accumulate"),
     ("random registration trials", "freud/environment/Registration.h RegisterBruteForce")],
    state=[("m_k_points, previous_box", "the sampled k points and the box they belong to", "StaticStructureFactorDirect"),
           ("m_point_environments, m_env_index", "environments of the last computation", "MatchEnv")],
    observe=["every result of these classes, against vsim/adapters_sph.py"],
    level="seeded search over inputs, histories and schedules of the real C++ (built with the system's Eigen and a stand-in for fsph); oracle: "
          "float64 models from the documentation",
)
prop(
    "P24", "A system in any documented form is the box and points it stands for",
    "Every analysis and search accepts a system as a neighbor query, a pair of box and points, an object with box and points, or a frame of MDAnalysis, GSD, "
    "HOOMD-blue, garnett or OVITO, and computes for it what it computes for the box and the points that the frame describes (triclinic "
    "boxes, two dimensions and boxes given as lists, dictionaries or matrices included) at the time of the call, also when the trajectory refills the same "
    "frame object afterwards or a reading fails in between. A failed reading leaves the analysis as it was.",
    ["inputs", "histories", "fault_sequences"],
    "all documented forms of a system, all boxes, all histories of frames read into one object, failing readings at any of its accesses",
    "The tests read one or two small files of some of the forms, with boxes whose matrices are diagonal, and one frame at a time.",
    ["freud/locality.py", "freud/box.py", "freud/util.py", "freud/interface.py"],
    [("recognition of the forms", "freud/locality.py NeighborQuery.from_system, _match_class_path"), ("box of a frame", "freud/box.py Box.from_box, from_matrix"),
     ("conversion of points", "freud/util.py _convert_array")],
    observe=["results of every analysis that takes a system"],
    level="seeded histories of a simulated trajectory reader that refills one frame object and fails at chosen accesses; oracle: the box and points themselves",
)
prop(
    "P25", "Memory is only accessed within blocks that are in use",
    "Whatever a computation, search, list or box operation is given - arguments that fit or do not fit together, empty ones, numbers out of range, "
    "not-a-number - and whatever it went through before (failures, exhausted memory, disposed objects), the extension modules read and write only "
    "blocks of the heap that are in use, within their bounds: a call ends with a result or an exception.",
    ["inputs", "histories", "schedules", "fault_sequences"],
    "all arguments that Python can pass, all histories and schedules, allocations failing at any point",
    "A read beyond a block seldom changes a result and almost never fails a test; the tests pass arguments that fit together.",
    ["freud/locality", "freud/util", "freud/cluster", "freud/density", "freud/environment", "freud/order", "freud/pmft", "freud/diffraction", "freud/box"],
    [("lengths of arrays that go together", "freud/*.py compute methods, freud/util.py _convert_array"), ("sizes of neighbor lists", "freud/locality/NeighborList.cc validate"),
     ("cells and images of points", "freud/locality/LinkCell.cc, CellQuery.cc, AABBQuery.cc"), ("results shared with NumPy", "freud/util/ManagedArray.h, export-ManagedArray.h")],
    observe=["every access of the instrumented extension modules to the guarded heap"],
    level="seeded scenarios of all the other properties and of unfit arguments, every access looked up in a guarded heap (bounds and life of each block)",
)
prop(
    "P26", "Memory and objects are given back",
    "Repeating computations, searches, list operations and their failures, and disposing of the objects, does not take more and more memory: once the "
    "last reference from outside is gone, everything that was allocated for them is given back, whatever path they took (success, exception, exhausted memory, interrupt).",
    ["histories", "fault_sequences", "schedules"],
    "all repeated histories of computations and failures",
    "Tests run each computation once and end.",
    ["freud/locality", "freud/util", "freud/cluster", "freud/density", "freud/environment", "freud/order", "freud/pmft", "freud/diffraction"],
    [("ownership of results", "freud/util/ManagedArray.h, export-ManagedArray.h"), ("references between queries, lists and iterators", "freud/locality.py"),
     ("thread-local storage", "freud/util/ThreadStorage.h")],
    observe=["blocks in use of the extension modules' allocator, live objects of freud's classes"],
    level="seeded scenarios (with faults) executed repeatedly in one process of the simulator; blocks and objects in use are counted after each",
)
prop(
    "P27", "Displacements, diffraction images and generated systems equal their definition",
    "Mean squared displacements (window and direct, with images), diffraction images (S(k) on the plane seen from the view orientation, its k_values and "
    "k_vectors, weights, averages over frames) and the systems generated from unit cells (box, number, places and order of the points, scale, noise and seed) "
    "or at random are those of their documented definition, after any history of computations, resets, refused and interrupted calls.",
    ["inputs", "histories", "fault_sequences"],
    "all trajectories, views, unit cells and histories of calls",
    "Tests look at a few lattices, mostly from the default view.",
    ["freud/msd.py", "freud/diffraction.py", "freud/data.py", "freud/locality/PeriodicBuffer.cc"],
    [("displacements", "freud/msd.py: MSD.compute"), ("view, projection and image", "freud/diffraction.py: DiffractionPattern._calc_proj, _transform, k_vectors"),
     ("replication and noise", "freud/data.py: UnitCell.generate_system, make_random_system")],
    observe=["msd, particle_msd, diffraction, k_values, k_vectors, N_points, generated boxes and points"],
    level="seeded histories with faults; every read is compared with float64 models of the definitions",
)
prop(
    "P28", "Options, representations and plots of objects are truthful",
    "After any history of computations, refused, failed and interrupted calls, and changed options, the options and bins an object reports are those it was made with, "
    "repr() evaluates to an object of the same options that computes the same, plots show the values the object holds at their places (images, lines, bars, edges of "
    "boxes, points, titles), and showing an object changes none of its results and leaves no figure open.",
    ["inputs", "histories", "fault_sequences"],
    "all options of the classes, all boxes and systems, all histories of calls",
    "Tests evaluate the repr of a few objects and never look at what is plotted.",
    ["freud/plot.py", "freud/diffraction.py", "freud/density.py", "freud/pmft.py", "freud/order.py", "freud/box.py"],
    [("plots", "freud/plot.py: line_plot, pmft_plot, density_plot, diffraction_plot, box_plot, system_plot, _ax_to_bytes"),
     ("options", "freud/*.py: properties and __repr__ of the compute classes")],
    observe=["option properties, bins, repr, str, the artists on matplotlib axes, open figures, outputs before and after"],
    level="seeded histories with faults; what an object says is compared with what it was made with and what it holds",
)
exec(open(os.path.join(HERE, "tools", "na.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for d, _ in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
checks = []
for d, level in P:
    i = d["id"]
    if i in NA:
        continue
    checks.append({
        "property": i, "quick_cmd": f"python3 -m vsim.check {i}", "thorough_cmd": f"python3 -m vsim.check {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection: " + level, "level": "exploration",
        "level_note": NOTE.get(i, NOTE[""]),
    })
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1, "setup_cmd": "python3 sim/build.py", "checks": checks,
        "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    }, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(NA), "not applicable")
