#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept as the readable source of the property list)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

prop("C01", "A combination leaves every component grid with the combined solution",
 "After a combination, every component grid in every process group holds exactly the coefficient-weighted sparse grid function (restricted to that grid) that a sequential combination of the same input grids yields, up to floating-point rounding. This holds for every number of process groups, every distribution of the grids over the groups that leaves no group without a grid, every parallelization and decomposition of a group, every supported boundary and basis choice, every reduction variant (whole sparse grid, subspace-wise, outgroup-wise, chunked) and every chunk size. Repeating combination steps keeps this true, so all groups agree on every shared subspace after each one.",
 ["configurations", "inputs", "schedules"],
 "over all small combination schemes, group layouts, parallelizations, variants, chunk sizes, bases, boundary flags, lmin choices for hierarchization and message schedules",
 "The tests run a handful of fixed layouts with one MPI schedule each and mostly compare norms or constant functions; the agreement has to hold for every variant x chunk size x layout x basis combination.",
 ["src/combicom/CombiCom.hpp", "src/sparsegrid/DistributedSparseGridUniform.hpp", "src/sparsegrid/AnyDistributedSparseGrid.cpp", "src/manager/SparseGridWorker.hpp", "src/manager/ProcessGroupWorker.cpp", "src/fullgrid/DistributedFullGrid.hpp"],
 [("sparse grid reduce variants", "src/combicom/CombiCom.hpp"), ("collectReduceDistribute / reduceLocalAndGlobal", "src/manager/SparseGridWorker.hpp"), ("scatter of a full grid into subspaces and back", "src/sparsegrid/DistributedSparseGridUniform.hpp")],
 ["values of the local full grids after combination on every rank"],
 [("subspace data", "the concatenated hierarchical coefficients of the sparse grid", "DistributedSparseGridUniform"), ("subspace communicators", "which ranks reduce which subspaces", "AnyDistributedSparseGrid")])

prop("C02", "Distributed (de)hierarchization equals the sequential transform and inverts",
 "Hierarchizing a distributed full grid gives, at every grid point, the hierarchical coefficient that the sequential definition of the chosen basis gives for the undistributed grid, and dehierarchizing restores the nodal values, up to rounding. This holds for every basis (hat, full weighting, biorthogonal, each with its periodic variant), every boundary type per dimension, every minimum hierarchization level, every choice of dimensions and every (also non-uniform) decomposition over any number of processes.",
 ["configurations", "inputs"],
 "over all levels, boundary flags, bases, minimum levels, dimension masks, process grids and decompositions within the bound; linear, so unit vectors of all points settle all inputs",
 "The tests use a few anisotropic grids with analytic functions on uniform decompositions; the ghost exchange has cases for every position of a predecessor relative to the local range.",
 ["src/hierarchization/DistributedHierarchization.hpp", "src/hierarchization/Hierarchization.hpp", "src/fullgrid/DistributedFullGrid.hpp"],
 [("remote predecessor exchange", "src/hierarchization/DistributedHierarchization.hpp"), ("one-dimensional kernels", "src/hierarchization/DistributedHierarchization.hpp")],
 ["full grid values after hierarchize / dehierarchize on each rank"])

prop("C03", "The manager-worker protocol never deadlocks and never depends on timing",
 "Any legal sequence of manager commands (run first/next, combine in any variant, write/read sparse grids, interpolate, norms, diagnostics, rescheduling, exit) is executed completely by all process groups: no schedule, message delay or send-buffering behaviour of a conforming MPI library deadlocks it, lets a message be consumed by the wrong receiver, or leaves a message, request or group status behind. The results the manager reports are the same for every such schedule.",
 ["schedules", "histories", "configurations"],
 "over all schedules up to a deviation bound, both eager and rendezvous sends, of command sequences up to a depth, for several group counts and sizes",
 "Tests run each command sequence once with the eager buffering of one MPI library on shared memory; orders of status messages, unexpected ANY_SOURCE matches and rendezvous sends are never seen.",
 ["src/manager/ProcessManager.cpp", "src/manager/ProcessManager.hpp", "src/manager/ProcessGroupManager.cpp", "src/manager/ProcessGroupWorker.cpp", "src/manager/ProcessGroupSignals.hpp", "src/mpi/MPIUtils.hpp", "src/mpi/MPITags.hpp"],
 [("signal / status handshake", "src/manager/ProcessGroupManager.cpp"), ("worker command loop", "src/manager/ProcessGroupWorker.cpp")],
 ["termination of all ranks", "unmatched messages and pending requests at the end", "return values at the manager"],
 [("group status", "WAIT / BUSY / FAIL per process group", "ProcessGroupManager")])

prop("C04", "Every component grid is computed exactly once per time step by one group",
 "Each task handed to the manager is assigned to exactly one process group, is initialised there once and advanced exactly once per run phase by all ranks of that group. Moving tasks between groups or recomputing and re-adding them never loses or duplicates a task, and keeps its identity, level, coefficient and accumulated values. The bookkeeping of the manager always matches the tasks the workers actually hold.",
 ["histories", "schedules", "configurations"],
 "over all task sets, group counts, completion orders of the groups and reassignment sequences within the bound",
 "Which group receives the next task depends on which group answers first; tests see one order and check only few migration histories.",
 ["src/manager/ProcessManager.cpp", "src/manager/ProcessManager.hpp", "src/manager/ProcessGroupManager.cpp", "src/manager/ProcessGroupWorker.cpp", "src/manager/TaskWorker.hpp", "src/task/Task.hpp", "src/utils/LevelSetUtils.cpp"],
 [("next free group selection", "src/manager/ProcessManager.hpp"), ("add / remove / reassign task", "src/manager/ProcessGroupManager.cpp"), ("task serialization and broadcast", "src/task/Task.hpp")],
 ["run/init counters inside a test task", "task lists of manager and workers"])

prop("C05", "A distributed full grid partitions its points with consistent index maps",
 "For every level, boundary choice, process grid and decomposition, each grid point belongs to exactly one rank, the maps between local and global, linear and multi-dimensional indices, coordinates and owning ranks are mutually inverse and equal their geometric meaning, and the point sets of the hierarchical subspaces partition the local points. Levels and points per hierarchical subspace, neighbour ranks, ghost slices and derived decompositions of coarser grids refer to the same points on every rank.",
 ["configurations"],
 "over all levels, boundary flags, process grids and decompositions within the bound, every rank and every point",
 "Tests check some maps on a few grids; the off-by-one cases lie at range borders of particular decompositions, levels and boundary flags.",
 ["src/fullgrid/DistributedFullGrid.hpp", "src/fullgrid/Tensor.hpp", "src/mpi/MPICartesianUtils.hpp", "src/utils/DecompositionUtils.hpp", "src/utils/PowerOfTwo.hpp", "src/utils/IndexVector.hpp"],
 [("decomposition and bounds", "src/fullgrid/DistributedFullGrid.hpp"), ("linear / vector index conversion", "src/fullgrid/Tensor.hpp"), ("1-d index sets of a level", "src/fullgrid/DistributedFullGrid.hpp")],
 ["index maps of the full grid on every rank"])

prop("C06", "Evaluation, interpolation and norms do not depend on the decomposition",
 "Evaluating a distributed full grid or the combination at any coordinate of the unit cube gives the multilinear interpolant of its nodal values (periodic across one-sided boundaries), and the maximum and integral norms give the values of the undistributed function, for every decomposition and process count. Interpolating at a set of coordinates through the manager gives the coefficient-weighted sum over all grids, in the order of the coordinates. Writing the combination on a uniform level writes exactly its nodal values there.",
 ["configurations", "inputs"],
 "over all grids, decompositions and a coordinate alphabet including grid points, cell midpoints, partition borders and domain borders",
 "Coordinates on partition borders and on the domain border select different code paths; tests evaluate few random or interior points on few decompositions.",
 ["src/fullgrid/DistributedFullGrid.hpp", "src/manager/InterpolationWorker.hpp", "src/manager/ProcessManager.cpp", "src/manager/ProcessGroupWorker.cpp"],
 [("local evaluation with support on each rank", "src/fullgrid/DistributedFullGrid.hpp"), ("reduction over ranks and groups", "src/manager/InterpolationWorker.hpp")],
 ["returned values, norms and written interpolation files"])

prop("C07", "Process groups and communicators form a consistent world for every layout",
 "For every number of groups and processes per group, with or without a manager, the communicators the system sets up are consistent: each worker is in exactly one group with the right size and rank, corresponding ranks of all groups form the reduction communicator in group order, the manager reaches every group master, and the output communicators contain every group-local position exactly once. The number of file parts that are written matches the requested number.",
 ["configurations"],
 "over all (groups, processes per group, manager or not, file parts, world-rank surplus) within the bound, every rank",
 "Tests initialise a few layouts of nine ranks.",
 ["src/mpi/MPISystem.cpp", "src/mpi/MPISystem.hpp"],
 [("communicator construction", "src/mpi/MPISystem.cpp")],
 ["ranks, sizes and members of the communicators and role predicates on every rank"])

prop("C08", "Sparse grid and full grid files round-trip for any number of ranks",
 "What the library writes as sparse grid, full grid or compressed file is what it reads back, bit for bit, for every distribution of the values over the ranks including empty ranks, and reading with reduction adds exactly the stored values once. The uncompressed one-file format is independent of process count and chunking, plot files hold the nodal values in grid order behind a correct header, whatever file they replace, and the coefficient range file lists the true extremes of every subspace; incomplete or wrongly sized files are reported instead of silently accepted.",
 ["configurations", "inputs", "fault_sequences"],
 "over all distributions of value counts over ranks, chunk sizes, numbers of files, and truncation points of a written file within the bound",
 "Tests write and read one or two layouts; uneven or empty ranks and chunk borders are not sampled.",
 ["src/io/MPIInputOutput.hpp", "src/io/MPICompression.hpp", "src/sparsegrid/DistributedSparseGridIO.hpp", "src/fullgrid/DistributedFullGrid.hpp"],
 [("offset computation and collective write/read", "src/io/MPIInputOutput.hpp"), ("LZ4 frame per rank with header", "src/io/MPICompression.hpp")],
 ["file contents and values read back"])

prop("C09", "File-based coupling of two systems is correct for every interleaving",
 "When two systems exchange their sparse grids through files, both end up with the combined solution a single system holding all grids would have, whatever the relative speed of the systems and the visibility order of data and token files. No system ever reads data before it is completely written, and exchanged files and tokens are removed only after they have been used, so that further combination steps work.",
 ["schedules", "histories", "configurations"],
 "over all interleavings up to a deviation bound of two systems and a copy agent over several combination steps, for all supported variants and file part counts",
 "The tests fake the other system inside the same process and use one order.",
 ["src/manager/SparseGridWorker.hpp", "src/manager/ProcessGroupWorker.cpp", "src/sparsegrid/DistributedSparseGridIO.hpp", "src/io/FileInputOutput.cpp", "src/io/MPIInputOutput.hpp"],
 [("token file written after the data", "src/manager/SparseGridWorker.hpp"), ("wait for token, read-reduce, distribute", "src/manager/SparseGridWorker.hpp")],
 ["grids of both systems after each exchange", "order of file-system operations"])

prop("C10", "Generated combination schemes are valid combinations",
 "Every generated scheme has pairwise different levels within the requested minimum and maximum level, its coefficients sum to one, and every hierarchical subspace that any of its grids contains is counted exactly once (so functions in the span are reproduced exactly). The down set it generates is exactly the set of hierarchical subspaces its grids contain. Splitting a scheme between systems or distributing it over groups partitions it: no grid is lost, duplicated or given another coefficient.",
 ["inputs", "configurations"],
 "over all minimum/maximum level vectors in up to four dimensions within the level bound, all splits and all group counts",
 "Tests check a few schemes against hard-coded numbers.",
 ["src/combischeme/CombiMinMaxScheme.cpp", "src/combischeme/CombiMinMaxScheme.hpp", "src/combischeme/CombiThirdLevelScheme.cpp", "src/utils/LevelSetUtils.cpp", "src/utils/LevelSetUtils.hpp", "src/io/FileInputOutput.cpp"],
 [("level set generation and coefficients", "src/combischeme/CombiMinMaxScheme.cpp"), ("scheme splitting / assignment to groups", "src/combischeme/CombiThirdLevelScheme.cpp")],
 ["levels, coefficients, down set, partitions"])

prop("C11", "Recombination after faults is a valid combination without the lost grids",
 "For every set of failed component grids, the recomputed coefficients give weight zero to every failed grid that is not announced as to be recomputed, are a valid combination (each contained subspace is counted zero times or once, the coarse common subspaces exactly once whenever the surviving grids contain them, and no other such combination represents a larger weighted set of subspaces), and leave a fault-free scheme unchanged; every failed task is announced exactly once, either as to be recomputed or as to be redistributed, and restoring the scheme brings back the original coefficients.",
 ["fault_sequences", "configurations"],
 "over all fault sets of bounded size on all small schemes",
 "The fault tolerance tests are not part of the stable suite and cover single fixed faults.",
 ["src/fault_tolerance/LPOptimizationInterpolation.cpp", "src/fault_tolerance/FTUtils.cpp", "src/combischeme/CombiMinMaxScheme.cpp"],
 [("optimisation problem for the coefficients", "src/fault_tolerance/LPOptimizationInterpolation.cpp")],
 ["coefficients and recompute list"])

prop("C12", "Messages between systems over the network survive arbitrary fragmentation",
 "Every length-prefixed message and every binary block sent over a connection is received unchanged and completely, in order and without consuming bytes of the next message, for every way the network fragments or delays the byte stream. A broken connection or malformed length is reported as failure and never as a successfully received message.",
 ["fault_sequences", "inputs", "schedules"],
 "over all fragmentations (short reads and writes, interruptions), and close points of short message sequences",
 "No stable test covers the network code, and loopback sockets practically never fragment short messages.",
 ["src/third_level/NetworkUtils.cpp", "src/third_level/NetworkUtils.hpp", "src/third_level/ThirdLevelUtils.cpp", "third_level_manager/thirdLevelManager.cpp"],
 [("sendall / recvall loops and length prefix", "src/third_level/NetworkUtils.cpp")],
 ["bytes delivered to the receiver, return codes"])

prop("C13", "Rescheduling decisions only move existing tasks between existing groups",
 "For every task distribution, load measurement and tuning parameter the rescheduler terminates and returns a list of moves in which each task exists, appears at most once, and its target is an existing group other than its current one, and no group loses its last task. If loads are as predicted, the moves never raise the largest or lower the smallest group load; balanced loads or a slowest group within the tolerated imbalance lead to no move. Predictions are the average of the last measured durations.",
 ["inputs", "configurations", "histories"],
 "over all task-to-group maps, small expected/measured load values including zero and large ones, and parameters within the bound",
 "Tests use two hand-made load situations.",
 ["src/rescheduler/RebalancingTaskRescheduler.cpp", "src/rescheduler/StaticTaskRescheduler.hpp", "src/loadmodel/AverageOfLastNLoadModel.cpp", "src/loadmodel/AveragingLoadModel.cpp", "src/manager/ProcessManager.cpp"],
 [("iterative move search", "src/rescheduler/RebalancingTaskRescheduler.cpp")],
 ["returned moves"])

prop("C14", "All ranks agree on the subspaces and sizes of the distributed sparse grid",
 "After registration and size exchange every group knows, for each rank and subspace, the same number of points, equal to the number of points of that subspace that the rank's part of the domain contains for any grid holding the subspace, and zero if none of the communicating groups holds it. Subspace-to-group assignments used for reduction contain a rank exactly if one of its grids has the subspace, and coefficients set, copied or scattered for one subspace never touch another one.",
 ["configurations", "histories"],
 "over all registrations of small grid sets in all groups, group layouts and decompositions",
 "Tests register one scheme per test and look at total sizes.",
 ["src/sparsegrid/DistributedSparseGridUniform.hpp", "src/sparsegrid/AnyDistributedSparseGrid.cpp", "src/combicom/CombiCom.hpp", "src/manager/SparseGridWorker.hpp"],
 [("register full grid, reduce subspace sizes", "src/sparsegrid/DistributedSparseGridUniform.hpp"), ("subspace communicator construction", "src/sparsegrid/AnyDistributedSparseGrid.cpp")],
 ["subspace sizes, data sizes and membership on every rank"])

prop("C15", "Parameters, tasks and loads arrive unchanged at every worker",
 "Every configuration value the manager sets (levels, coefficients, bases, boundary flags, parallelization, decomposition, chunk size, variant, third-level settings) and every task arrives unchanged at all ranks of all groups; input files broadcast to all ranks are identical to the file.",
 ["inputs", "configurations", "schedules"],
 "over all parameter combinations within the alphabet, group layouts and payload sizes around the protocol's size limits",
 "Tests serialise one parameter object.",
 ["src/manager/CombiParameters.hpp", "src/mpi/MPIUtils.hpp", "src/task/Task.hpp", "src/io/BroadcastParameters.cpp", "src/manager/ProcessGroupManager.cpp"],
 [("boost serialization and class send/receive/broadcast", "src/mpi/MPIUtils.hpp")],
 ["parameter values on the workers"])

prop("C16", "Thread-parallel sections give the sequential result without data races",
 "Every computation that runs on several threads gives the same result (up to rounding) for every number of threads and every assignment of work to threads, and no two threads access the same data without synchronisation where one of them writes.",
 ["schedules", "configurations"],
 "over thread counts and all orders in which the threads' work shares can execute, for all thread-parallel sections reachable from the drivers",
 "The tests run with two threads and one timing; a race in a short loop rarely manifests.",
 ["src/fullgrid/DistributedFullGrid.hpp", "src/manager/InterpolationWorker.hpp", "src/hierarchization/Hierarchization.hpp", "src/hierarchization/DistributedHierarchization.hpp", "src/combicom/CombiCom.hpp", "src/sparsegrid/DistributedSparseGridUniform.hpp"],
 [("OpenMP worksharing, reductions and critical sections", "src/*")],
 ["memory accesses per thread and results of the sections"])

prop("C17", "Two coupled systems compute one combination of all their grids",
 "When two systems, each with its own manager and process groups, couple through the broker or through files, every component grid of both holds, after every coupled combination, exactly what one sequential combination of all grids of both systems yields, whatever subspace sizes, distributions of the grids, third-level groups or network fragmentation; sizes, interpolated values and random coordinates agree on both sides, no schedule deadlocks, and a broken connection is reported instead of giving wrong values.",
 ["configurations", "schedules", "fault_sequences", "histories"],
 "over all distributions of small schemes over two systems, group layouts, command sequences, network schedules and break points of a connection",
 "The network-coupled tests need an external broker process and do not run in the stable suite.",
 ["src/manager/ProcessManager.hpp", "src/manager/ProcessGroupManager.cpp", "src/manager/ProcessGroupWorker.cpp", "src/combicom/CombiCom.hpp", "third_level_manager/thirdLevelManager.cpp"],
 [("unify subspace sizes and exchange sparse grids", "src/manager/ProcessGroupManager.cpp"), ("third-level commands", "src/manager/ProcessManager.hpp"), ("size and data updates of the workers", "src/manager/ProcessGroupWorker.cpp")],
 ["grid values on all workers of both systems after every command", "exchanged sizes and bytes"])

prop("C18", "Statistics files hold every finished event and attribute exactly once",
 "Every statistics file is valid JSON with exactly one entry per rank of the communicator it was written on, whatever each rank recorded. Each entry has all attributes with their last values. A partial file holds exactly the events finished since the previous partial write, the final file every finished event of the session, each once and with its measured start and end; unfinished events never enter a partial file. A new session starts empty, and an older, longer file under the same name leaves nothing behind.",
 ["histories", "configurations", "schedules"],
 "over all histories of event starts and stops, attributes, partial and final writes on any number of ranks and communicators",
 "Tests write one statistics file and never read it back.",
 ["src/utils/Stats.hpp", "src/io/FileInputOutput.cpp"],
 [("partial and final writes", "src/utils/Stats.hpp"), ("concatenation of the parts of all ranks", "src/io/FileInputOutput.cpp")],
 ["contents of the statistics files after every write", "values returned by the timers"])

prop("C19", "Undistributed full grids: index maps, evaluation, sums, hierarchization",
 "For every dimension, level vector and choice of boundary flags, an undistributed full grid numbers its points one to one, with coordinates and (level, index) pairs that agree; evaluating it at any point of the domain gives the multilinear interpolant of its values (linearly extrapolated beyond the outermost points), adding another grid adds its interpolated values, norms are the lp norms of the values, a saved grid loads back equal, and hierarchize yields the hat-function surpluses that dehierarchize turns back, with any number of threads.",
 ["inputs", "configurations"],
 "over all dimensions, level vectors, boundary flags, values and evaluation points",
 "Tests evaluate linear functions on a few grids, for which most wrong weights cancel.",
 ["src/fullgrid/FullGrid.hpp", "src/hierarchization/Hierarchization.hpp"],
 [("evaluation and sums", "src/fullgrid/FullGrid.hpp"), ("sequential hierarchization", "src/hierarchization/Hierarchization.hpp")],
 ["indices, coordinates and values of the grid", "values of eval, norms and files"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
