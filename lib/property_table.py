TRACE = "TLA+ specification, TLC; recorded executions of the real code checked against it"

prop("P01", "A submitted task runs exactly once and its future delivers its outcome",
     "Every task that is submitted to a thread pool that stays alive is run exactly once, by one of the pool's threads, whatever number of threads submit tasks (tasks themselves included) and however the threads interleave. The future that submission returns becomes ready only after the task finished and delivers that task's own result, or the exception that the task threw.",
     ["schedules", "histories"],
     "All interleavings of workers and submitters, including spurious wake-ups and expiring waits; tasks that return values, nothing, move-only objects or throw; tasks that submit tasks.",
     "The repository has no test of the thread pool at all; algorithms' tests run it under whatever schedule the machine happens to produce.",
     ["source/fern/core/thread_pool.h", "source/fern/core/thread_pool.cc", "source/fern/core/thread_safe_queue.h", "source/fern/core/detail/function_wrapper.h"],
     [("submission", "ThreadPool::submit"), ("worker loop", "ThreadPool::execute_task_or_wait"), ("type-erased task", "FunctionWrapper")],
     TRACE + "; controlled scheduler",
     "The design (ThreadPool.tla) is model checked exhaustively for small constants and refines Executor.tla; thousands of controlled schedules of the real pool, a systematic preemption-bounded search among them, are checked against Executor.tla.")

prop("P02", "Idle workers take up queued tasks at once, and all workers work at the same time",
     "A task that is waiting while a worker has nothing to do is taken up: at once if that worker was asleep when the task was submitted, and within a bounded time in any case; no wake-up is lost for ever. Tasks are taken up in the order in which they were submitted, and a pool of n threads executes up to n tasks at the same time.",
     ["schedules"],
     "All interleavings of submissions with workers that check, wait, time out or wake up spuriously; pools of 1 to 4 threads; bursts of submissions to sleeping workers; tasks that need each other to be running.",
     "A lost wake-up needs a notification in the window between finding the queue empty and waiting, and shows as a delay or a hang; no test measures either.",
     ["source/fern/core/thread_pool.h", "source/fern/core/thread_pool.cc"],
     [("notification", "ThreadPool::submit"), ("wait with time-out", "ThreadPool::execute_task_or_wait")],
     TRACE + "; controlled scheduler with virtual time",
     "Liveness of the design under weak fairness (TLC), its failure without the time-out as a control; latencies of recorded executions in virtual time.")

prop("P03", "Destroying a thread pool terminates, finishes running tasks and settles the rest",
     "Destruction of a thread pool ends, without delay when the workers are asleep and otherwise as soon as the running tasks have ended, which are never cut short. After it no task of the pool runs or starts and none of its threads is alive; the future of a task that was never started reports a broken promise and every other future still delivers its outcome.",
     ["schedules", "histories"],
     "Destruction at any moment: before any task, with tasks queued, running, sleeping or submitting further tasks, with workers at any point of their loop.",
     "No test destroys a pool that has work left.",
     ["source/fern/core/thread_pool.cc", "source/fern/core/join_threads.cc", "source/fern/core/thread_pool.h"],
     [("stop flag and broadcast", "ThreadPool::~ThreadPool"), ("joining", "JoinThreads::~JoinThreads"), ("member order", "ThreadPool")],
     TRACE + "; controlled scheduler with virtual time",
     "Termination of destruction is a liveness property of the model; recorded executions are checked for every observable consequence.")

prop("P04", "The shared queue is linearizable, first in first out",
     "Operations of concurrent threads on the thread safe queue behave as if each took effect at one moment between its call and its return: a push appends, a pop removes and delivers the oldest element or reports that there is none and leaves its argument alone, and the emptiness query tells whether there is one. No element is lost, delivered twice, reordered or delivered damaged.",
     ["schedules", "histories"],
     "All interleavings of pushes, pops and emptiness queries by up to five threads, down to single memory accesses.",
     "There is no test with more than one thread, and a missing lock only shows when a thread is preempted inside an operation.",
     ["source/fern/core/thread_safe_queue.h"],
     [("locking", "ThreadSafeQueue::push, try_pop, empty")],
     TRACE + " (linearizability); controlled scheduler at memory-access level",
     "LockedQueue.tla refines SharedQueue.tla (exhaustive, small constants), and does not without its mutex; recorded concurrent histories are checked for an explaining order of effects.")

prop("P05", "Arrays are split in blocks that together are the array, once",
     "index_ranges splits an array for n threads in non-empty consecutive blocks that start at the first and end at the last cell (2D: of whole rows), for all sizes, so that each cell is in exactly one block. An empty array has no blocks, an array with fewer cells (2D: rows) than threads has one block, and a larger array has at least n blocks, none of them larger than the size divided by n, rounded up. Equality, emptiness and sizes of (1D and 2D) index ranges are those of the sets of indices.",
     ["inputs"],
     "All combinations of 1 to 20 threads and 0 to 60 cells or rows; random ones up to 64 threads and a billion cells.",
     "All parallel algorithms rely on it; sizes that do not divide evenly go wrong one cell at a time.",
     ["source/fern/algorithm/core/index_ranges.cc", "source/fern/algorithm/core/index_ranges.h", "source/fern/algorithm/core/index_range.cc", "source/fern/algorithm/core/index_range.h"],
     [("split in blocks", "index_ranges"), ("range arithmetic", "IndexRange, IndexRanges")],
     TRACE,
     "Partition.tla, with MCPartition; recorded calls judged by PartitionTrace.")

prop("P06", "Parallel execution gives the sequential result, without data races",
     "Performing an algorithm with the parallel execution policy gives, in every schedule and for every number of workers, the same values, no-data marks and counts as performing it with the sequential one, and returns only after all of its work is done: the caller can use (and destroy) the arguments and results directly. Neither the algorithms nor the thread pool contain a data race: any two accesses to the same memory by different threads, at least one of which writes, are ordered by synchronisation. This holds for elementary algebra, statistics, the core operations, convolution, gradient, laplacian, lax and slope, and also when threads share the pool and when calls follow each other.",
     ["schedules", "inputs"],
     "62 kinds of calls (all shapes of arguments that are performed in parallel) on 1D and 2D arguments of 1 to 20 cells with any pattern of no-data, 1 to 3 workers, one call, two after each other, or two at the same time; random and bounded-preemption schedules. Values are integral, so that sums do not depend on the order of addition.",
     "Tests run one schedule, on machines that seldom show a race, and compare few results.",
     ["source/fern/algorithm/core/unary_local_operation.h", "source/fern/algorithm/core/binary_local_operation.h", "source/fern/algorithm/core/unary_aggregate_operation.h", "source/fern/algorithm/core/detail/compress.h", "source/fern/algorithm/convolution/detail/convolve.h", "source/fern/algorithm/space/focal/slope.h", "source/fern/core/thread_pool.cc"],
     [("submit and wait", "the specialisations for ParallelExecutionPolicy"), ("merging of partial results", "aggregates, compress")],
     TRACE,
     "ForkJoin.tla is the design (with HappensBefore.tla: vector clocks); ParallelTrace judges recorded executions: each access to shared memory, and each result.")

prop("P07", "No-data propagates through local operations for all shapes and policies",
     "For every combination of scalar, 1D and 2D arguments, of input no-data policies (none, mask, the type's no-data value, a given value) and of output no-data policies, and for every execution policy, a cell of the result of a checked local operation is marked as no-data if and only if it was marked already or one of the corresponding cells of the arguments is no-data, the values are outside of the operation's domain, or the result is out of range. All other cells contain the operation's value and keep their mark. Marks that no policy looks at make no difference, nothing is marked if nobody asked for it, and the arguments stay as they are.",
     ["inputs"],
     "Scalars and arrays in all combinations, arrays of 1 to 40 cells, any pattern of no-data (none, all, some), results that are marked beforehand, sequential and parallel execution.",
     "Tests use a handful of cells, mostly of one shape, with at most one or two cells masked.",
     ["source/fern/algorithm/core/unary_local_operation.h", "source/fern/algorithm/core/binary_local_operation.h", "source/fern/algorithm/policy"],
     [("unary", "unary_local_operation"), ("binary", "binary_local_operation"), ("input policies", "InputNoDataPolicies, DetectNoDataByValue, DetectNoData, SkipNoData"), ("output policies", "MarkNoDataByValue, MarkNoData, DontMarkNoData"), ("defined", "algebra::defined")],
     TRACE,
     "LocalTrace.tla judges each recorded call cell by cell.")

prop("P08", "Arithmetic on cells is exact, or reported as out of domain or range",
     "add, subtract, multiply, divide and absolute give, for all pairs of numeric types (unsigned 64 bits values together with signed types: up to the maximum of the signed 64 bits type), the mathematically exact result in the result type that the two argument types prescribe (quotients of integers truncated; floats where the exact result is representable). With the operation's own policies a cell is marked if and only if the divisor is zero or the exact result does not fit the result type. Without policies, results that fit are the same, also when the result is stored in the first argument.",
     ["inputs"],
     "All 100 pairs of types; values at and around the limits of the types, powers of two and zero, all pairs of 8 bits values in the thorough check; floats near the largest one.",
     "Tests check a few values for a few type pairs; overflow detection goes wrong for single values at the limits.",
     ["source/fern/algorithm/algebra/elementary/add.h", "source/fern/algorithm/algebra/elementary/subtract.h", "source/fern/algorithm/algebra/elementary/multiply.h", "source/fern/algorithm/algebra/elementary/divide.h", "source/fern/algorithm/algebra/elementary/absolute.h", "source/fern/algorithm/core/result_type.h"],
     [("range and domain policies", "OutOfRangePolicy, OutOfDomainPolicy"), ("result types", "Result")],
     TRACE,
     "Exact arithmetic (BigInt.tla for 32 and 64 bits types) in LocalOps.tla; ResultKind in Kinds.tla.")

prop("P09", "All other cell by cell operations give their value or report none",
     "equal (of the same types), less, less_equal, greater and greater_equal (of types of the same kind), and, or, xor, nor, xnor, not, defined, binary_min, binary_max, floor, ceil, round (half away from zero), trunc, sqrt, log, log2, log10, factorial, tgamma, pow, sin, cos, tan, acos, asin and atan give their mathematical value for every cell: exactly where the result is exact, and up to rounding otherwise. With the operation's own policies a cell is marked if and only if its value is outside of the operation's domain (roots and logarithms of negative numbers, factorials of negative or fractional numbers, tgamma of non-positive integers, sines of infinity, arcsines of more than one, negative numbers to fractional powers, zero to negative powers) or the result is too large for its type.",
     ["inputs"],
     "1D arrays of all the types an operation accepts; values on both sides of every limit of domain and range, negative zero fractions, halves, infinities and NaN where the operation allows them.",
     "Tests check a few values each; wrong limits show for single values.",
     ["source/fern/algorithm/algebra/elementary", "source/fern/algorithm/algebra/boole", "source/fern/algorithm/trigonometry", "source/fern/algorithm/statistic/binary_min.h", "source/fern/algorithm/statistic/binary_max.h"],
     [("domains and ranges", "OutOfDomainPolicy, OutOfRangePolicy"), ("values", "Algorithm::operator()")],
     TRACE,
     "Tables and exact laws in LocalOps.tla, at arguments for which these are exact or known to six digits.")

prop("P10", "Sums, means, extremes and counts are those of the cells that hold a value",
     "sum, mean (truncated for integers), unary_max, unary_min and count (of the cells equal to a value) give the value of exactly the cells that are not no-data, whatever the value type, shape, no-data policies and pattern of no-data, and however an execution policy splits the cells in blocks. The result is no-data if no cell holds a value. With the out-of-range policy it is also no-data if the sum does not fit its type; a sum that fits is delivered, unless the sum of some consecutive cells does not fit. The arguments are not changed, and a mark that was there stays.",
     ["inputs"],
     "Scalars, 1D and 2D arrays of 0 to 300 cells; small values, values near the limits of their types and infinities; any pattern of no-data; sequential execution and pools of 1 to 5 threads.",
     "Aggregates of blocks are merged per thread; results depend on where blocks end relative to the pattern of no-data and to the sums that do not fit.",
     ["source/fern/algorithm/core/unary_aggregate_operation.h", "source/fern/algorithm/core/binary_aggregate_operation.h", "source/fern/algorithm/statistic", "source/fern/algorithm/accumulator"],
     [("aggregation of cells", "operation_1d, operation_2d"), ("merging blocks", "UnaryAggregateOperation, BinaryAggregateOperation")],
     TRACE,
     "AggOps.tla; MCAgg models aggregation in blocks and checks, for all small collections and blocks, that its outcomes are those that AggTrace accepts.")

prop("P11", "An accumulator stands for the values added to it, however they got there",
     "After any sequence of constructions, assignments, additions, merges and copies, the sum, count, mean, maximum, minimum, range, median, mode, variance and standard deviation accumulators deliver that statistic of exactly the values that were added to them or to the accumulators merged into them, since they were last assigned a value. A default constructed accumulator stands for no values. Adding or merging with an out-of-range policy succeeds if and only if the total (or count) fits the result type. Asking for a result or merging does not change what the other accumulators stand for.",
     ["histories", "inputs"],
     "Programs of up to 90 steps over three accumulators, all accumulator types, with equal and with different argument and result types; small values and values near the limits of their types.",
     "Accumulators are merged per thread in parallel aggregates; tests add a few values to one accumulator and merge once.",
     ["source/fern/algorithm/accumulator"],
     [("accumulators", "operator(), operator|=, operator|, operator="), ("frequency table", "detail::FrequencyTable")],
     TRACE,
     "AccTrace.tla: the state of an accumulator is a sequence of values; a recorded program is a behaviour of it. Totals and counts are only added to without a policy if they fit.")

prop("P12", "if and cover select, for every cell, the value that the condition decides on",
     "For every supported combination of scalar, 1D and 2D arguments, value types, no-data policies and execution policies: if without an alternative gives the true value where the condition holds and no-data elsewhere; with an alternative it gives the true value where the condition is not zero and the false value where it is zero, and is no-data only where the condition is, or the selected value is (no-data in the value that is not selected does not matter). cover gives the first value where there is one, otherwise the second, otherwise no-data. Marks that were there stay, the arguments stay as they are, also for empty arrays.",
     ["inputs"],
     "All combinations of ranks that the functions support; arrays of 0 to 40 cells; any pattern of no-data, in one or all of the arguments; sequential execution and pools of 1 to 5 threads.",
     "The dozens of implementations (one per combination of ranks) are tested for a few combinations, mostly without no-data.",
     ["source/fern/algorithm/core/if.h", "source/fern/algorithm/core/detail/if.h", "source/fern/algorithm/core/cover.h", "source/fern/algorithm/core/detail/cover.h"],
     [("selection per combination of ranks", "if_then_*, if_then_else_*"), ("cover", "cover_*")],
     TRACE,
     "CoreOps.tla: cells are values or no-data; laws checked by TLC for all small collections (MCCore); recorded calls judged by CoreTrace.")

prop("P13", "merge, unite and intersect mark the right cells and touch no value",
     "merge_no_data marks a cell of the result if and only if the argument is no-data there; unite_no_data if and only if at least one of the two arguments is; intersect_no_data if and only if both are. Cells that were marked before stay marked, and no value is changed (other than to the value that means no-data, if marks are made that way), whatever the value types, no-data policies and execution policy.",
     ["inputs"],
     "Scalars and 2D arrays of 0 to 40 cells, any pattern of no-data, marks that were there, sequential and parallel execution.",
     "Tests use one pattern of no-data on a small array.",
     ["source/fern/algorithm/core/merge_no_data.h", "source/fern/algorithm/core/unite_no_data.h", "source/fern/algorithm/core/intersect_no_data.h"],
     [("marking", "merge_no_data_*, unite_no_data_*, intersect_no_data_*")],
     TRACE,
     "CoreOps.tla, MCCore, CoreTrace.")

prop("P14", "clamp, fill and cast give each cell the value it should have, or no-data",
     "clamp gives the lower bound for smaller values, the upper bound for larger values and the value itself otherwise, for any combination of scalar and array bounds (that hold values, lower bound not above upper bound); fill gives every cell the given value; cast gives the same number in the other type, for floats to integers without its fraction. Cells whose input is no-data, and no other cells, are marked as no-data (all cells, if the value to fill with is no-data).",
     ["inputs"],
     "All combinations of ranks, value types (casts: numbers that both types hold), no-data policies and execution policies; arrays of 0 to 40 cells.",
     "Tests do not call clamp with scalar bounds on filled arrays or in parallel, and cast for a few values only.",
     ["source/fern/algorithm/core/clamp.h", "source/fern/algorithm/core/detail/clamp.h", "source/fern/algorithm/core/fill.h", "source/fern/algorithm/core/unary_disaggregate_operation.h", "source/fern/algorithm/core/cast.h"],
     [("bounds", "clamp_*"), ("one value to all cells", "unary_disaggregate_operation"), ("conversion", "cast")],
     TRACE,
     "CoreOps.tla, MCCore, CoreTrace.")

prop("P15", "compress, decompress, copy and offset move each value to the cell it belongs in",
     "compress delivers the values that are not no-data, in order, and their number; decompress puts values, in order, in the cells that are not no-data and marks the other cells. copy copies a range of cells to a position, with their no-data, and touches no other cell. offset moves every cell by the given number of cells per dimension (positive: to higher indices), no-data included; cells that nothing moved to are marked, or filled with the given value. All this for any size of the array, range, and offset, including empty ones and offsets larger than the array, and for all no-data and execution policies.",
     ["inputs"],
     "1D and 2D arrays of 0 to 40 cells; all positions and sizes of ranges; offsets from minus to plus more than twice the array's size; sequential execution and pools of 1 to 5 threads, so that blocks end at any cell.",
     "In parallel each block needs to know where its part goes; that depends on size, number of threads, range and pattern of no-data together.",
     ["source/fern/algorithm/core/compress.h", "source/fern/algorithm/core/decompress.h", "source/fern/algorithm/core/copy.h", "source/fern/algorithm/core/offset.h", "source/fern/algorithm/core/detail"],
     [("counts per block", "compress, decompress"), ("position per block", "copy"), ("range to copy and to initialize", "offset")],
     TRACE,
     "CoreOps.tla, with laws that TLC checks for all small collections (round trip of compress and decompress, composition of offsets, number of uncovered cells); CoreTrace.")

prop("P16", "Types tell what an expression can be used for and what an operation returns",
     "Collections of value types and data types behave as sets: union, intersection, symmetric difference, size, equality, and being a non-empty part of another one; their text lists the elements in a fixed order. Names and constants stand for the documented sets, and C++ types for their own. An expression type satisfies another one if both its data types and value types are non-empty parts of those of the other; a list of types, if any of its elements satisfies any of the other's, and the first that does is found. The result of a standard operation has the fixed type of the result if it has one; otherwise it is a field if any argument may be one, and has the highest value type, in the order float64, float32, uint64, int64, uint32, int32, uint16, int16, uint8, int8, that an argument may have and its parameter accepts (what the parameters accept, if nothing is known); with one parameter, the argument's value types.",
     ["inputs"],
     "All sets of the 13 value types and 2 data types, lists of up to 5 types, operations with 1 to 4 parameters, 1 or 2 results, and arguments of known, partly known and unknown type.",
     "There are 2^15 sets and all pairs of them; tests look at a few. Which type wins depends on the combination.",
     ["source/fern/core/flag_collection.h", "source/fern/core/value_types.cc", "source/fern/core/data_types.cc", "source/fern/core/type_traits.cc", "source/fern/core/expression_type.cc", "source/fern/language/operation/core/expression_types.cc", "source/fern/language/operation/core/expression_type_calculation.cc", "source/fern/language/operation/core/operations.cc"],
     [("sets", "FlagCollection"), ("matching", "is_satisfied_by, id_of_satisfying_type"), ("promotion", "standard_expression_type")],
     TRACE,
     "Types.tla, with MCTypes (satisfaction is a partial order; result types are sound, symmetric and associative); TypesTrace.")

prop("P17", "Strings, paths and data names are taken apart and put together consistently",
     "split returns the non-empty pieces between any of the (ordinary) characters given, or white space, in order; strip removes exactly those characters from the ends; join, contains, starts_with, ends_with and replace (leftmost, not overlapping, not again in what was put in) do what they say; a text is convertible to an integer or a number exactly if it is the whole text of one (that fits), and then converts to it, otherwise to zero. Paths: repeated separators do not matter; names, file name, stem, parent, being absolute, replacing the extension and appending follow the generic path conventions. A data name consists of the path of the database, up to the first colon, and an absolute path of the data, without repeated or trailing separators, / by default.",
     ["inputs"],
     "Texts of up to 30 characters from small alphabets, so that matches occur; integers around the limits of 64 bits; paths of up to 5 names with dots, repeated and trailing separators; up to 4 changes of a path in a row. Not: two separators at the start of a path (platform dependent), special characters of regular expressions in split.",
     "Tests contain a dozen examples per function.",
     ["source/fern/core/string.cc", "source/fern/core/path.cc", "source/fern/core/data_name.cc"],
     [("pieces", "split, strip, replace"), ("names of data", "DataName"), ("paths", "Path")],
     TRACE,
     "Texts.tla, with MCTexts (laws for all short texts); TextsTrace.")

prop("P18", "convolve gives each cell the weighted sum or average of the cells around it",
     "The result of convolve in a cell is the sum of value times weight (DontDivideByWeights), or that divided by the sum of the weights used (DivideByWeights), over the locations of the kernel with a non-zero weight that have a value. A cell in the image that is not no-data has its value. A no-data cell is skipped, or has the average of its valid neighbours (ReplaceNoDataByFocalAverage); a location outside of the image is skipped, or has the average of the valid image cells adjacent to it (ReplaceOutOfImageByFocalAverage); without any of those, neither has a value. A cell is marked as no-data if no location has a value, if the sum is not finite (OutOfRangePolicy), or if it is no-data itself and KeepNoDataFocusElement is used; other cells are not marked. All this in the inner part, at the sides and in the corners of the image, for all kernel sizes, weight types, policies and execution policies; the source does not change and nothing outside of the images is read.",
     ["inputs"],
     "Images of 2r to 2r+5 rows and columns, r the radius (1 to 3) of the kernel; kernels with arbitrary, sparse, zero and negative weights of type bool, integral and floating point; all combinations of the policies; no-data patterns from none to all; sums around the largest finite number.",
     "There are ten pieces of code, for nine parts of the image, each with its own index arithmetic, and 32 combinations of policies; errors show up for specific combinations of position, image size, weights and no-data.",
     ["source/fern/algorithm/convolution/convolve.h", "source/fern/algorithm/convolution/detail/convolve.h", "source/fern/algorithm/convolution/replace_no_data_by_focal_average.h", "source/fern/algorithm/convolution/replace_out_of_image_by_focal_average.h", "source/fern/algorithm/convolution/neighborhood"],
     [("index arithmetic per part", "detail/convolve.h: ConvolveNorthWestCorner ... ConvolveInnerPart"), ("replacement values", "ReplaceNoDataByFocalAverage, ReplaceOutOfImageByFocalAverage"), ("sums and normalization", "HandleValue, DivideByWeights")],
     TRACE,
     "ConvolveOps.tla defines the result of each cell; MCConvolve.tla, checked with TLC for all small images, shows that calculating in parts with clipped kernels amounts to that, with the laws of linearity, mirroring and bounds; recorded convolutions are judged by ConvolveTrace.")

prop("P19", "slope, gradient, laplacian and lax give the documented function of each cell",
     "For rasters of any size from 2 by 2, with cells of any width and height, and values small enough not to overflow: gradient_x (gradient_y) of a cell is the difference of its two neighbours in the same row (column) divided by two cell widths (heights), or the difference with the only valid neighbour divided by one, or zero without valid neighbours. laplacian is the sum over the valid neighbours of weight times the difference with the cell, divided by the cell area, with weights 3 for direct and 2 for diagonal neighbours. lax is the given fraction of the weighted average of the valid neighbours, with those weights, plus the remaining fraction of the cell itself. slope is the length of the vector of the rates of change of Horn's method, in which no-data cells and cells outside of the raster are replaced by the average of the valid cells adjacent to them. No-data cells are marked in the result, and so are cells for which there is nothing to calculate with (for gradient: never); other cells are not. Values, mask and transformation of the argument do not change.",
     ["inputs"],
     "Rasters of 2 to 8 rows and columns; cells with width and height 1 to 4; no-data from none to 90%; float32 and float64; sequential execution and pools of 1 to 5 threads.",
     "Each combines several operations whose no-data must be passed on; special treatment at the borders and next to no-data depends on position, number of threads and no-data together.",
     ["source/fern/algorithm/space/focal/detail/slope.h", "source/fern/algorithm/algebra/vector/detail/gradient.h", "source/fern/algorithm/algebra/vector/detail/laplacian.h", "source/fern/algorithm/algebra/vector/detail/lax.h"],
     [("borders and one-sided differences", "gradient_x_2d, gradient_y_2d"), ("no-data of intermediate results", "Slope::apply, Laplacian::apply, Lax::apply")],
     TRACE,
     "FieldOps.tla, on top of ConvolveOps.tla, defines the results as quotients of integers; recorded operations are judged by FieldTrace.")

prop("P20", "Containers keep values, marks and shape, and share nothing",
     "An array, masked array, raster or masked raster of one to three dimensions has, after any history of operations on it, the shape, the values in row-major order, the marks of no-data and the transformation that these operations prescribe. set_mask only adds marks, those of the cells with the value, or that a given mask selects; mask() writes 0 for the masked and 255 for the other cells; has_masked_values tells whether any cell is masked; clone gives the same shape and transformation with the given (or zero) values and no marks; sizes, indices, cell sizes and areas follow from them. Copies and clones are independent of the original. References to memory show what is in the memory. A masked scalar that is assigned a value is no longer masked; it equals another one if both their values and marks are equal.",
     ["histories", "inputs"],
     "Programs of 6 to 14 operations on two containers of 0 to 27 cells; all sorts and dimensions, 8 value types; also empty ones. Views on arrays cannot be instantiated and are left out.",
     "Tests construct a few containers and look at single members; not at histories, independence, third dimensions or clones.",
     ["source/fern/feature/core/array.h", "source/fern/feature/core/masked_array.h", "source/fern/feature/core/raster.h", "source/fern/feature/core/masked_raster.h", "source/fern/feature/core/masked_scalar.h", "source/fern/feature/core/array_reference.h", "source/fern/feature/core/data_customization_point"],
     [("masks", "MaskedArray"), ("clones", "clone, size, index, get"), ("scalars", "MaskedScalar")],
     TRACE,
     "Containers.tla, with MCContainers; ContainersTrace judges recorded programs step by step.")

prop("P21", "Symbol tables, scopes, stacks and scope guards keep to their discipline",
     "A scope holds one value per name: the last one set and not erased. A symbol table is a stack of scopes: values are added to and erased from the innermost one, a name has the value of the innermost scope that has it (and that scope's level), popping removes exactly what was added since the matching push, and the size is the number of values in all scopes. Copies are independent, and moving hands over everything. A stack gives back values of any type in the reverse order of pushing, and refuses to give them as another type. The function of a scope guard is called exactly once when the block is left, in whatever way, unless the guard was released; moving a guard moves that duty.",
     ["histories"],
     "Programs of up to 25 operations on two tables, scopes or stacks, or three guards, with four names (one empty), values of several types, exceptions while guards are alive.",
     "Tests contain one short history each; shadowing, erasing in inner scopes, moves and exceptions combine in many ways.",
     ["source/fern/language/core/symbol_table.h", "source/fern/core/scope.h", "source/fern/core/stack.h", "source/fern/core/scope_exit.h"],
     [("look-up through scopes", "SymbolTable"), ("any type of value", "Stack"), ("exactly once", "ScopeExit, make_scope_exit")],
     TRACE,
     "Scopes.tla, with MCScopes; ScopesTrace judges recorded programs step by step.")

prop("P22", "XML becomes the syntax tree it describes, and a tree becomes its text",
     "Parsing the XML of a program gives a tree with the same statements and expressions in the same order, nesting, names, strings, numbers of the same type and value, symbols of operators and positions; assigning also sets the value of the target. How the XML is written (spaces, comments, entities, order of attributes, empty elements) does not matter, and what was parsed before neither. XML that is cut off, has unknown, misplaced or missing elements, attributes or tags, or values that are no numbers, is not parsed but gives a ParseError with source, position and message. The text of a module has a line per statement, indented by the nesting level times the tab size, in the notation of the language, with parentheses around operands, and U behind unsigned numbers.",
     ["inputs"],
     "Programs of up to 5 statements per block, three levels deep, with all kinds of statements and expressions, numbers of all types (up to their limits; integers within 32 bits, as in the schema), strings with special characters; 28 ways of breaking the XML. Not: text of function definitions and return statements (not implemented in fern).",
     "The tests of the parser and the visitors need an interpreter that is not built here; they contain some twenty snippets.",
     ["source/fern/language/ast/xml/xml_parser.cc", "source/fern/language/ast/xml/syntax_tree.xsd", "source/fern/language/ast/visitor/module_visitor.cc", "source/fern/language/ast/core"],
     [("elements under construction", "xml_parser.cc: *_pimpl"), ("symbols", "operator_vertex.cc"), ("lines and indentation", "ModuleVisitor")],
     TRACE,
     "Ast.tla defines tree and text of a program, with MCAst (texts are unambiguous, for all small programs); AstTrace judges recorded parses.")

prop("P23", "Each name is bound to its definition, and inputs and outputs are found",
     "After IdentifyVisitor, the target of an assignment is its own definition, a name that is used has the last definition of it in the same or an enclosing scope that comes before it as definition, or none, and a definition knows exactly its uses, in order of evaluation (the value before the target, a condition before the blocks). Both blocks of if and while are scopes of their own. IOVisitor reports as inputs the names that are used where they have no definition, once each, in order of first use; and as outputs the last definitions of each name at global scope, in order. Visiting again starts from scratch.",
     ["inputs"],
     "Programs of up to 8 statements with nested if and while, with 2 to 6 different names, so that shadowing and redefining are frequent. Targets are names; no function definitions.",
     "Tests contain two programs without nesting.",
     ["source/fern/language/ast/visitor/identify_visitor.cc", "source/fern/language/ast/visitor/io_visitor.cc", "source/fern/language/ast/core/name_vertex.cc"],
     [("scopes", "IdentifyVisitor, IOVisitor"), ("order of evaluation", "Visit(AssignmentVertex&)"), ("redefined outputs", "IOVisitor::Visit(NameVertex&)")],
     TRACE,
     "Ast.tla defines visibility over the sequence of definitions, uses and scopes, with MCAst (definitions and uses match; a program preceded by its inputs has none); AstTrace judges recorded visits.")

prop("P24", "Threading the tree gives the order in which a program is executed",
     "After ThreadVisitor, each vertex has as successors the vertices that are executed next: from the module through its scope and the statements in order back to the module. Arguments come before the operation, in order, the value and then the target before the assignment, the condition before the if. An if is followed by the scope of its true block, and that of its false block if it has statements; both end at the sentinel of the if, which is followed by what comes next. A call of a function that is defined in the same or an enclosing scope is followed by the definition, its parameters and its scope, of which the sentinel is followed by what comes after the call; functions that are not called have no successor at their end, other calls are ordinary operations. A return is followed by the end of the function.",
     ["inputs"],
     "Programs of up to 5 statements per block, four levels deep, with nested functions. Each function is called at most once, return is a statement of the function itself and not followed by a definition; while is not implemented in fern.",
     "Tests of the visitor are not built here; they contain some twenty programs.",
     ["source/fern/language/ast/visitor/thread_visitor.cc", "source/fern/language/ast/core/ast_vertex.cc"],
     [("known functions", "ThreadVisitor::Visit(ScopeVertex&), Visit(FunctionDefinitionVertex&)"), ("successors", "AstVertex::set_successor")],
     TRACE,
     "Ast.tla defines the edges by chains of steps, with MCAst (every vertex is reached, every path gets back to the module); AstTrace judges recorded trees.")

prop("P25", "Types are derived for all expressions, and the first error is reported",
     "AnnotateVisitor gives each number and string its own type, each name the type of the last assignment to it that comes before it in the text (or of the given global symbol, or none), and each operation that is known, with as many arguments as it has parameters, the type that the operation determines from the types of the arguments, in order; other operations get no type. The target of an assignment has the type of its value. The types of statements that are expressions are left on the stack. ValidateVisitor accepts the annotated tree exactly if each name has a type, each operation is known, has the right number of arguments and each argument satisfies the parameter's type; otherwise it throws UndefinedIdentifier, UndefinedOperation, WrongNumberOfArguments or WrongTypeOfArgument for the first violation in order of evaluation, with its name, position, numbers, argument and types.",
     ["inputs"],
     "Programs of up to 4 statements per block with nested if and while; up to 7 operations with up to 3 parameters of arbitrary types, of which the result has the type of any of the arguments or another one; up to 4 global symbols of arbitrary types. Subscripts and attributes are not supported by fern here.",
     "Tests of the visitors are not built here, and use only operations that treat their arguments alike.",
     ["source/fern/language/ast/visitor/annotate_visitor.cc", "source/fern/language/ast/visitor/validate_visitor.cc", "source/fern/language/operation/core/expression_types.cc"],
     [("stack of types", "AnnotateVisitor"), ("order of checks", "ValidateVisitor::Visit(OperationVertex&)")],
     TRACE,
     "Ast.tla, on top of Types.tla, with MCAst (knowing more names breaks no program; programs without errors have types everywhere); AstTrace judges recorded visits.")

prop("P26", "What is in a file is what is read; errors are reported; datasets are closed",
     "Reading the raster of a file gives the cells of its first band in their own type, and marks as no-data exactly the cells that equal the no-data value the file states, besides cells that were marked already; nothing else changes. Reading a variable from a dataset that conforms to COARDS gives its value; conventions, attributes and variables that are listed are those in the dataset. What does not exist, cannot be read or written, does not conform, lacks the variable or has one that is not a scalar is refused with an error that names the file and the reason, and nothing is changed. Each dataset that was opened is closed once, when its handle ends or is given another dataset, also after errors. Drivers are there as long as there is a client.",
     ["histories", "inputs"],
     "Rasters of 1 to 400 cells in four formats, seven value types, one to three bands, no-data values inside and outside the value type and NaN, with and without marks; NetCDF (classic and 4) with up to 6 variables of 12 types and arbitrary lists of conventions; 6 sorts of unreadable files through 6 functions; histories of up to 14 operations on three handles. Variables are read as double only (the code offers nothing else).",
     "Tests contain one raster, two scalars and a few errors; no no-data values outside the value type, no moves of handles.",
     ["source/fern/io/gdal/detail/read.h", "source/fern/io/gdal/dataset.cc", "source/fern/io/gdal/dataset_handle.cc", "source/fern/io/gdal/gdal_client.cc", "source/fern/io/netcdf/core", "source/fern/io/netcdf/coards", "source/fern/io/core/file.cc", "source/fern/core/io_error.cc"],
     [("no-data", "gdal/detail/read.h"), ("one handle per dataset", "DatasetHandle"), ("order of refusals", "netcdf/coards/detail/read.h"), ("separators", "netcdf/core/attribute.cc: conventions")],
     TRACE,
     "Io.tla: handles, clients, marks, conventions and refusals, with MCIo (all histories of three handles: every open dataset has one owner and is closed once); IoTrace judges recorded reads and histories.")

prop("P27", "Features and attributes are found by path; values keep to their geometries",
     "A feature answers about the feature or attribute at the end of a path, relative or absolute, of any depth, and about features that are shared or contain themselves, according to what was added at that path and nothing else: adding something shows at its path and takes nothing away; what is not there is not found; counts and sorted names are those of the feature at the path. A constant attribute gives the last value that was set. In a spatial attribute each added geometry gets the next number, and domain and values hold, under that number, the geometry and the value it was added with. The type of an attribute is the type it was made with. Arrays of values have the shape they were given, hold what is put in them, and start without marks.",
     ["histories", "inputs"],
     "Programs of up to 24 steps on four features and three attributes with paths of up to 3 names in all spellings; programs of up to 16 steps on constants, points (2 and 3 dimensions) and boxes with 12 value types; arrays of one to three dimensions. Asking the attribute or counts of a path that does not exist, and adding a name twice, are outside (they are asserted).",
     "Tests add two features and one attribute by direct name; no nested or absolute paths.",
     ["source/fern/language/feature/core", "source/fern/language/feature/visitor/attribute_type_visitor.cc", "source/fern/language/operation/core/attribute_argument.cc", "source/fern/core/path.cc"],
     [("paths", "feature/core/feature.cc"), ("numbers of geometries", "SpatialDomain::add"), ("types", "AttributeTypeVisitor")],
     TRACE,
     "Features.tla: heap of features, paths, domains, with MCFeatures (all programs on a few features: paths compose, adding takes nothing away); FeaturesTrace judges recorded programs.")

prop("P28", "An error tells what went wrong and where",
     "The message of an error names the source, for errors in scripts also the line and the column and, when known, the statement, and the reason, each as it was given, whatever characters they contain; messages about values hold these values at their place. An error can be caught as its own type and as each of the more general types (ParseError and ValidateError as ScriptError, all as Exception and std::exception) and as nothing else, and has the same message each time it is asked, however it was caught, copied, moved or assigned.",
     ["inputs"],
     "All 22 messages; names, statements and reasons with format directives, quotes, colons and line breaks, also empty; line and column numbers from negative to the largest; six ways to construct errors, six types to catch them as.",
     "Tests contain three messages of parse and validate errors with plain texts.",
     ["source/fern/core/messages.h", "source/fern/core/messages.cc", "source/fern/core/exception.cc", "source/fern/core/io_error.cc", "source/fern/core/script_error.cc", "source/fern/core/parse_error.cc", "source/fern/core/validate_error.cc"],
     [("texts", "Messages::Messages"), ("messages of errors", "message()"), ("place of the values", "Messages::format_message")],
     TRACE,
     "Errors.tla: the text of each message and error, the types errors are caught as, with MCErrors (different errors have different messages); ErrorsTrace judges recorded messages, throws and copies.")

prop("P29", "Documents are read as they are written or refused where they go wrong",
     "Reading a GPX document (1.0 or 1.1) gives its tracks, segments, routes, points, names, numbers, times and positions, each once, in order and with the values that are written; reading an UncertML document of a normal distribution gives its mean and, as standard deviation, the root of its variance. A document that is not well-formed, has elements, attributes or text that do not belong there, in the wrong order or number, or has values that are not allowed (positions off the earth, variances that are not positive, several values) is refused with a parse error that names the source and the line of the first thing that is wrong; a file that does not exist or cannot be read is refused as that. A normal distribution keeps its mean and deviation through copies and moves; without deviation each sample is the mean, and from equal generators equal distributions give equal samples.",
     ["inputs"],
     "Documents of up to some 40 elements of the two GPX schemas (the elements for positions, times, names, numbers) and of normal distributions, with comments, white space, CDATA, entities, prefixes and line ends of all sorts; half of them has one of 12 sorts of mistakes at a random place. Other elements of GPX and other UncertML distributions (the code has none) are outside.",
     "Tests contain one document of each sort and two documents that are not well-formed; those of GPX fetch the schema from the network and do not run.",
     ["source/fern/io/xml/parse.h", "source/fern/io/gpx/parse.cc", "source/fern/language/io/uncertml2/uncertml2_parser.cc", "source/fern/language/uncertainty/normal_distribution.cc", "source/fern/language/uncertainty/normal_distribution.h"],
     [("refusals", "io/xml/parse.h"), ("root of the variance", "NormalDistribution_pimpl"), ("location", "UncertML2Parser::parse")],
     TRACE,
     "Documents.tla: readers as stack machines over the tokens of a document, what is read from them, with MCDocuments (all documents of some tokens: refused at the first wrong token, read completely); DocumentsTrace judges recorded readings.")

prop("P30", "Programs are drawn and simplified as the programs they are",
     "The drawing of a syntax tree is a well-formed graph that shows every expression, statement and scope of the program once, with its text, its parts from left to right and each scope within the one it is in; when asked for, edges show where control goes next and which uses a definition reaches. The drawing of the flow of values shows, for each operation, call and assignment, where each value comes from, through the definitions of names. Drawing twice gives the same drawing, whatever characters the texts contain, and leaves the program as it was. Leaving out the names of a sequence of assignments that are used once gives, for every other name, the value it had.",
     ["inputs"],
     "Random programs of all statements and expressions the drawings support, nested up to some levels, annotated or not with identifiers, control and types; strings and names with quotes, backslashes and other characters; sequences of assignments of names and constants, each assigned once and before its use. Attributes of values, parameters of function definitions and, in the drawing of the flow, loops and functions are not drawn by the code; operations with names of which the value is to be inlined are unfinished: outside.",
     "The existing tests draw a few programs without comparing what is drawn with the program, and simplify two.",
     ["source/fern/language/ast/visitor/dot_visitor.cc", "source/fern/language/ast/visitor/ast_dot_visitor.cc", "source/fern/language/ast/visitor/flowgraph_dot_visitor.cc", "source/fern/language/ast/visitor/optimize_visitor.cc", "source/fern/language/ast/visitor/ast_visitor.cc", "source/fern/language/ast/core/assignment_vertex.cc"],
     [("vertices and edges", "AstDotVisitor"), ("origin of values", "FlowgraphDotVisitor"), ("names used once", "OptimizeVisitor::Visit")],
     TRACE,
     "Drawings.tla: the drawing of a program (vertices, order, clusters, edges of control, uses and flow) and what is left of assignments without the names used once, with MCDrawings (drawings are trees, values are kept, simplifying twice changes nothing); DrawingsTrace judges recorded drawings and simplified programs.")

prop("P31", "Executing programs computes what they say, and only valid ones are executed",
     "Executing a program evaluates its statements in order, each once. The value of an operation is what that operation gives for the values of its arguments, which are evaluated from left to right before it; a number or string has its own value and type; a name has the value that was last assigned to it, by this program or by one that was executed before in the same session. A name without a value is read from the data source for it, at most once per program, and only if it is used; passing a source for a name makes that its value is read again. The last assignment to a name, and no other, is written to the data sync for that name, if there is one. The values of expressions that are not assigned stay on the stack, in order, until it is cleared. If an operation fails, what was done before stays done, and nothing else is done. The interpreter executes a program only if every name in it has a value or a source, every operation exists, and the numbers and types of all arguments are right; otherwise it throws a ValidateError whose message names the source, line, column and the first problem, and nothing changes. Whether a program was only validated, rejected or executed before: names are known if and only if they have a value (or source), with the type of that value.",
     ["inputs", "histories"],
     "Histories of up to 5 programs of up to 5 assignments and expressions with 4 names, numbers of all types, strings, calls and operators of user-defined operations (0 to 3 arguments), with random sources (constants, datasets and others), syncs, clearing of the stack and programs that are only validated; half of the histories by the visitor that executes, half by the interpreter, with mistakes in part of the programs. Programs are given as syntax trees in XML. The execution of if, while, subscripts and functions is unfinished in fern; the parser of scripts needs Python 2.",
     "Tests of the interpreter are not built in the usual configuration; they execute some tens of programs, most of them in a session of their own.",
     ["source/fern/language/interpreter/execute_visitor.cc", "source/fern/language/interpreter/interpreter.cc", "source/fern/language/interpreter/constant_source.h", "source/fern/language/interpreter/dataset_source.cc", "source/fern/language/interpreter/dataset_sync.cc", "source/fern/language/ast/visitor/annotate_visitor.cc"],
     [("values and order", "ExecuteVisitor"), ("sources and syncs", "ExecuteVisitor::set_data_source_symbols"), ("validation", "Interpreter::validate"), ("known names", "Interpreter::annotate")],
     TRACE,
     "Session.tla: values, sources, syncs, stack and known types of a session of programs, with MCSession (rejected programs do nothing, known names have a value of the known type, sources are read at most once, the final value is written once, two programs do what their concatenation does); SessionTrace judges recorded histories of the real visitor and interpreter.")
prop("P32", "Datasets hold what was written to them",
     "A dataset of features (a Fern file) holds the last value written to each attribute path, with its type and its exact bits, also after it is closed and opened again, and also when seen by another dataset of the same file. Writing an attribute creates the features on its path and changes nothing else; contains_feature, contains_attribute, the numbers and names of features and attributes, expression_type, open_attribute and read_attribute say what is there for any path, whether or not any of its parts exists; what is not there is reported by an IOError with the name and the path. Opening for overwriting empties the file, opening for updating or reading keeps it; a file that does not exist, cannot be read, written or created is reported as such; asking whether a dataset can be opened answers what opening it would do, and creates, changes and truncates nothing. No file, type or other object stays open. Without a format, the driver of Fern is asked first, and the others by name, until one can open the dataset; with a format only that driver, which must exist. The drivers are there as long as there are clients of them; none can open, or ends the process on, what does not exist. A raster (GDAL) is one feature with one attribute, named after the file: what is read is what was written last, value by value, with its type, mask, extent and cell size, and every other program finds it at that place. The operations read and write, and the sources and syncs of programs, exchange these same values. Whether a path is a file or directory that can be written follows from its permissions, also by way of links.",
     ["inputs", "histories"],
     "Histories of up to 60 steps on up to 5 files (not there, stores, text, directories, in missing directories) with up to 4 datasets open at a time, all 10 number types, paths of up to 4 names, absolute and relative, with special values; histories of up to 8 steps on a GeoTIFF file, 7 types, up to 5 by 5 cells; all drivers of the installed GDAL for names that are not there. Attributes of other types and shapes in Fern files, open_feature, and read_feature of Fern files are unfinished in fern. Files are in a scratch directory.",
     "Tests of datasets are not built in the usual configuration; they write one attribute and read two rasters.",
     ["source/fern/language/io/fern/fern_dataset.cc", "source/fern/language/io/fern/fern_driver.cc", "source/fern/language/io/fern/hdf5_file.cc", "source/fern/language/io/gdal/gdal_dataset.cc", "source/fern/language/io/gdal/gdal_driver.cc", "source/fern/language/io/drivers.cc", "source/fern/language/io/core/file.cc", "source/fern/language/operation/std/read.cc", "source/fern/language/operation/std/write.cc"],
     [("attributes", "FernDataset::write_attribute"), ("modes", "open_file"), ("asking", "FernDriver::can_open"), ("drivers", "open_dataset"), ("rasters", "GDALDataset::read_attribute")],
     TRACE,
     "Stores.tla: files as trees of features with attributes, handles and modes, with MCStores (the tree is a tree, one value per path, what is written is there, only writing and overwriting change a file, a file is in use iff a dataset is open); StoresTrace judges recorded histories of the real datasets, drivers, operations and clients.")
prop("P33", "Commands do what their arguments ask for, or say why not",
     "The fern program and the programs made from scripts do what their arguments say. A command succeeds (exit status) exactly if it did what was asked; --help as first argument of a command or of what it compiles to, or no arguments at all, shows the help of exactly that and does nothing else. Too few or too many arguments, and unknown commands, languages, kinds of graph, scripts that cannot be read or parsed, and results that cannot be written are refused: with a message on standard error, a failure status, and without reading, executing or writing anything; the program never crashes. execute runs the script (a file, or - for standard input): all its statements in order up to one that fails, none if the script is not valid. compile dot ast|flowgraph gives the graph of the script with the edges the flags ask for (in any order, once or more), on standard output if no output is named and otherwise in that file and nowhere else; compile c++ writes a header and a module named after the script, and a driver and build file if and only if asked, in the directory that is named. describe tells whether the dataset is there, the features of it if no path is given, and otherwise whether the path is a feature, an attribute or neither. The interpreter executes every line that is typed in one session: values and names last, the values of a line are shown (last first) if the whole line succeeded, a line that is not valid does nothing and the next one is fine, everything typed is remembered in the history. Arguments of a program are, from left to right, its inputs and then its outputs: an input that names an existing dataset is read from it (an IOError if the data is not there), otherwise it is an integer, floating point number or text, as it is written; an output is the dataset that is named, opened for overwriting; the last ones may be missing, more are refused. A module has the arguments and results it was made with, and is not run with fewer or more sources than arguments.",
     ["inputs", "histories"],
     "Arguments: up to 9 from all flags, commands, misspelled ones, readable, wrong and missing scripts, existing, new, missing and unwritable outputs; scripts of up to 5 calls that succeed, fail or do not exist; stores with up to 4 attributes; sessions of up to 6 lines of up to 3 statements; programs of up to 3 inputs and 3 outputs with 25 texts. Scripts are syntax trees in XML (the parser of scripts needs Python 2). The C++ code itself, the conversion to XML, Fern and Python, and import are unfinished in fern: only files and statuses are judged; a script with an unknown operation is not compiled to C++. Dataset names without a file part (\"\", \":x\") violate a precondition.",
     "Nothing of this is built in the usual configuration; its tests look at one argument, and there are none for the commands.",
     ["source/fern/language/command/fern.cc", "source/fern/language/command/compile_command.cc", "source/fern/language/command/describe_command.cc", "source/fern/language/command/execute_command.cc", "source/fern/language/command/import_command.cc", "source/fern/language/command/command.cc", "source/fern/language/command/interpreter.cc", "source/fern/language/compiler/compiler.cc", "source/fern/language/compiler/parse_command_line.cc", "source/fern/language/compiler/module.cc"],
     [("the program", "main"), ("compile", "CompileCommand::execute"), ("describe", "DescribeCommand::describe"), ("interpreter", "enter_interpreter"), ("arguments of programs", "parse_command_line")],
     TRACE,
     "Commands.tla: what each command line does in a world of scripts and datasets, what a session shows, and what the arguments of programs are, with MCCommands (failure is clean, help does nothing, one place for results, flags are a set, sessions grow, arguments are read in order); CommandsTrace judges recorded runs of the real program in processes of their own.")

prop("P34", "Rasters in Python keep their type, their place and their missing values",
     "A raster that Python makes from lists of values and of marks, or of sizes only, has those values (or zeros), is missing where marked, and has the type, the place and the cell size that were given; what is told about the raster is what it is. Adding and multiplying a raster and a raster or a number, in either order, gives a new raster of the common type of both (of the raster, if the other is a number) with per cell the exact sum or product; comparing them gives 1 or 0 in an uint8 raster; choosing gives the values of the first where the condition is not zero and of the second where it is zero. A cell of the result is missing exactly if a value that it depends on is missing (for a choice: the condition or the value that is chosen), or if the result does not fit in the type; the result is placed where the first raster is (for a choice: the condition). The arguments do not change, except the raster that is added to or multiplied in place: it becomes what adding or multiplying gives, under all its names, and overflow is noticed there too. The slope of a floating point raster is the length of its gradient, missing where the raster is or has no neighbours. All of this whatever the execution policy. A raster that is written to a file and read again is the same, and a raster that is read has the values, the place and the missing values of the file. Rasters of types that an operation does not know, of different types where one is needed, or of different sizes, unknown and read-only formats, and files that cannot be made or read are refused with an error; nothing is changed and the process goes on.",
     ["inputs", "schedules"],
     "Rasters of 1..5 by 1..5 cells of uint8, uint32, int32, uint64, int64, float32 and float64 (files: also uint16 and int16), values around zero, around the bounds of the type, their halves and their square roots; numbers that the type can hold; sequential and parallel policies. A number that the type of the raster cannot hold is cast by C++ and negative numbers are not compared with unsigned ones: left out. The glue that is written against Python 2 (module definitions, numpy) does not compile here and is left out.",
     "Nothing of this is built in the usual configuration, and its tests need Python 2; type by type, cell by cell behaviour is not enumerable by examples.",
     ["source/fern/python/feature/masked_raster.cc", "source/fern/python/feature/masked_raster.h", "source/fern/python/feature/detail/masked_raster.h", "source/fern/python/algorithm/algebra/elementary/add_raster_raster.cc", "source/fern/python/algorithm/algebra/elementary/add_number_raster.cc", "source/fern/python/algorithm/algebra/elementary/add_raster_number.cc", "source/fern/python/algorithm/algebra/elementary/multiply.cc", "source/fern/python/algorithm/algebra/elementary/less.cc", "source/fern/python/algorithm/algebra/elementary/greater.cc", "source/fern/python/algorithm/core/if_raster_raster.cc", "source/fern/python/algorithm/core/if_raster_number.cc", "source/fern/python/algorithm/core/if_number_raster.cc", "source/fern/python/algorithm/space/focal/slope.cc", "source/fern/python/algorithm/execution_policy.cc", "source/fern/python/io/gdal.cc"],
     [("rasters", "MaskedRaster::MaskedRaster"), ("operations", "add"), ("in place", "iadd"), ("choices", "if_"), ("files", "write_raster")],
     TRACE,
     "Rasters.tla: the type, place, values and missing values of what each operation gives, with MCRasters (sessions: addition commutes, missing values spread and stay, numbers are rasters, one type, order, choices); RastersTrace judges recorded uses of the real bindings.")
