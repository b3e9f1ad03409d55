import json
TECH='deterministic simulation: seeded search over thread schedules'
NOTE=('Seeded search, no exhaustiveness. Real extension module and Python package under a simulator that owns threads, '
 'locks, clocks, processor count and heap; each run is repeatable from its seed and replayed from its file.')
F='src/pyinterp/core/'
def P(id,title,statement,over,text,why,files,mech,tech=TECH,note=NOTE,**k):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=mech,where=files[0])],**{x:k[x] for x in('state','observe_at','hook_needed') if x in k}))
    if 'na' in k: d['not_applicable']=k['na']
    else: d['check']=dict(technique=tech,note=note)
    return d
PARF=[F+x for x in('include/pyinterp/detail/thread.hpp','include/pyinterp/bivariate.hpp','include/pyinterp/trivariate.hpp',
 'include/pyinterp/quadrivariate.hpp','include/pyinterp/bicubic.hpp','include/pyinterp/spline.hpp','include/pyinterp/rtree.hpp',
 'include/pyinterp/fill.hpp','include/pyinterp/geodetic/algorithm.hpp','lib/geohash.cpp','lib/geodetic/coordinates.cpp')]
L=[
P('P01','Results do not depend on the number of threads or on the schedule',
 'Every operation that takes num_threads returns, element for element and bit for bit, the same arrays as the same call run with one thread, whatever num_threads, the number of processors, the sizes of the inputs and the interleaving of the workers. A call that fails with one thread does not succeed with several, and no thread outlives the call.',
 ['schedules','inputs','configurations'],'all num_threads (0 = all processors, more threads than elements included), processor counts, input sizes and interleavings of the workers of one call',
 'The tests run each operation with one or two thread counts under whatever schedule the machine happens to give; which elements a worker handles and when is never controlled.',
 PARF,'detail::dispatch cuts the index range among the workers; each worker writes its own slice of the output'),
P('P02','Parallel operations have no data race or wild access and only read inputs',
 'While an operation runs with any number of threads, no two of its threads touch the same memory without synchronisation when one of them writes, no access falls outside live memory, and the arrays, grids, trees and geometries given by the caller are unchanged when the call returns or fails.',
 ['schedules','inputs','configurations'],'all interleavings of the workers, all inputs accepted or refused by the operation, all thread counts',
 'A race or an out-of-bounds access rarely changes a sampled result; the tests run without any race or bounds detection and with one schedule.',
 PARF,'workers share the grid, the axes, the tree, the interpolator and the storage of the first exception'),
P('P03','An error in a worker thread reaches the caller as that error',
 'When an element makes an operation fail, or memory cannot be obtained in a worker, the call raises one of the errors that the elements produce (MemoryError for memory): it never returns partial results as if they were complete, never terminates the process, never hangs, and the same call succeeds once the cause is gone.',
 ['schedules','fault_sequences','inputs'],'all positions of the failing elements and of the refused allocations, all interleavings, several workers failing at once',
 'Tests provoke a few errors with one thread; no test makes an allocation fail in a worker or lets two workers fail together.',
 PARF,'workers catch exceptions, store one of them and the caller rethrows it after joining'),
P('P04','Refused thread creations are contained',
 'When the operating system refuses some or all of the threads an operation asks for, the call either completes with the right results or raises an error; the threads already started are joined, the process survives, and the next call, made when threads are available again, gives the right results.',
 ['fault_sequences','schedules','configurations'],'every subset of refused creations (single, several, permanent limit on live threads) and every interleaving',
 'std::thread failing is never provoked by the tests; before the repair a partial failure terminated the interpreter.',
 PARF[:1]+[F+'include/pyinterp/fill.hpp'],'the list of launched threads is joined when the launch of the next one throws'),
P('P05','Objects can be read by several callers at once',
 'Several Python threads may call read-only operations (interpolation, queries, statistics, geometry predicates, representation, pickling) on the same objects at the same time: each call returns what it returns alone, no memory is raced on, and the objects do not change.',
 ['schedules','histories'],'all sets of concurrent read-only calls on shared objects, all interleavings, including calls that themselves use several threads',
 'No test calls the library from two threads; caches, lazy initialisation or scratch members shared between calls that release the interpreter lock stay invisible.',
 [F+'include/pyinterp/axis.hpp',F+'include/pyinterp/grid.hpp',F+'include/pyinterp/rtree.hpp',F+'include/pyinterp/geodetic/polygon.hpp','src/pyinterp/grid.py'],
 'const methods that release the interpreter lock share the object without a lock'),
P('P06','Objects survive pickling, copying and restarts, and stay independent',
 'An object saved with any pickle protocol, copied, or written in an exchange format that keeps its values (GeoJSON, geohash code), and then restored answers every query as the original does, and goes on behaving like it under any later sequence of operations. A crash after a save loses only what was done since; replaying those operations on the restored object gives the state of an object that never crashed. Changing a restored or deep-copied object never changes the original, nor the reverse.',
 ['histories','crash_points','inputs','fault_sequences'],'every picklable type, all histories of operations, saves, torn or refused saves, crashes, restores and copies, all pickle protocols',
 'The tests pickle one freshly built object per type, once, and compare a few attributes; no test goes on using the restored object or restores one that went through a history.',
 [F+'lib/axis.cpp',F+'include/pyinterp/grid.hpp',F+'include/pyinterp/rtree.hpp',F+'lib/binning.cpp',F+'include/pyinterp/histogram2d.hpp',F+'include/pyinterp/descriptive_statistics.hpp',F+'include/pyinterp/streaming_histogram.hpp','src/pyinterp/rtree.py','src/pyinterp/period.py','src/pyinterp/binning.py'],
 '__getstate__/__setstate__/__reduce__ of the Python classes and getstate/setstate of the core',
 tech='deterministic simulation: seeded histories with crashes, torn saves and refused memory against a reference object'),
P('P07','A damaged saved state never takes the process down',
 'Restoring an object from a state that was damaged on its way (bytes flipped, zeroed, cut or appended, numbers replaced, arrays of another size, shape or type, items lost, added, exchanged or replaced) either raises an exception or gives an object; every query, update, merge, save and destruction of an object restored in this way ends with a result or an exception, without touching memory outside live blocks.',
 ['crash_points','inputs','histories','fault_sequences'],'every type that can be saved, every history before the save, one or several damages anywhere in the state, every use of the restored object',
 'The tests restore intact states, apart from a truncated one per type.',
 [F+'include/pyinterp/axis.hpp',F+'include/pyinterp/detail/math/streaming_histogram.hpp',F+'include/pyinterp/streaming_histogram.hpp',F+'include/pyinterp/descriptive_statistics.hpp',F+'include/pyinterp/histogram2d.hpp',F+'include/pyinterp/rtree.hpp',F+'lib/geodetic/line_string.cpp',F+'lib/geodetic/rtree.cpp'],
 'setstate of each class checks what it reads before using it',
 tech='deterministic simulation: seeded corruption of the saved state as the fault, heap accesses monitored'),
P('P08','Partial statistics merge to the statistics of the whole',
 'However samples are cut into pieces, assigned to workers, retried or reordered, and in whatever tree the partial results are merged (including empty ones), univariate statistics and 1D or 2D binned statistics equal those of all the samples taken once: counts, extrema exactly, sums and moments up to rounding. Merging does not alter the operand merged in, and a merge between incompatible objects is refused.',
 ['histories','schedules','fault_sequences','inputs'],'all partitions, assignments to workers, lost and repeated tasks, merge orders and shapes of merge trees, weights, NaN, axes of reduction, element types',
 'The tests merge two fixed halves; empty parts, parts holding one sample, chains and trees of merges, and retried tasks of the distributed path are not tried.',
 [F+'include/pyinterp/detail/math/descriptive_statistics.hpp',F+'include/pyinterp/descriptive_statistics.hpp',F+'include/pyinterp/binning.hpp','src/pyinterp/binning.py','src/pyinterp/statistics/descriptive_statistics.py'],
 'operator+= of the accumulators; push_delayed builds one partial result per chunk and sums them',
 tech='deterministic simulation: seeded cluster of workers with crashes, retries and reordered merges, checked against a small exact model'),
P('P09','Streaming histograms conserve counts and stay within their capacity',
 'Through any sequence of updates, merges, resizes, copies and restarts, a streaming histogram (alone or one per cell of a 2D histogram) keeps the number and weight of the samples received and their exact minimum and maximum, never holds more bins than allowed, keeps bins sorted with non-negative weights that add up to the total, and returns quantiles that are monotonic and lie between the extremes. While the number of distinct values is within the capacity the bins are the exact weighted values, whatever the order of arrival.',
 ['histories','schedules','fault_sequences','inputs'],'all histories of pushes, merges in any tree, resizes, self merges, restarts; all capacities; weights, NaN, infinities',
 'The tests push one sample set into one histogram; merge orders, resizes midway, capacity edges and infinite values are not explored.',
 [F+'include/pyinterp/detail/math/streaming_histogram.hpp',F+'include/pyinterp/streaming_histogram.hpp',F+'include/pyinterp/histogram2d.hpp','src/pyinterp/histogram2d.py','src/pyinterp/statistics/streaming_histogram.py'],
 'bins are merged with their nearest neighbour when the capacity is exceeded; merging pushes the bins of the other histogram',
 tech='deterministic simulation: seeded histories of pushes, merges and restarts checked by conservation invariants and an exact model'),
P('P10','A spatial index answers for exactly the points inserted so far',
 'After any sequence of bulk loads, insertions, clears, copies and restarts, nearest-neighbour queries return exactly the nearest of the points the index holds with their distances and values, its length, emptiness and bounds are those of that set, and interpolations only use those points, whatever the number of threads and the schedule.',
 ['histories','schedules','inputs','crash_points'],'all histories of the operations of both indexes, all numbers of neighbours and of threads, coordinate systems and element types, duplicated points, empty index',
 'The tests build one index from one point set and never mix packing with insertions, clears and restarts.',
 [F+'include/pyinterp/detail/geometry/rtree.hpp',F+'include/pyinterp/rtree.hpp',F+'lib/geodetic/rtree.cpp','src/pyinterp/rtree.py','src/pyinterp/geodetic/__init__.py'],
 'boost R*-tree over ECEF or cartesian points; packing replaces the content, insertion adds to it',
 tech='deterministic simulation: seeded histories and schedules compared with a brute-force reference model'),
P('P11','Running out of memory anywhere leaves the process and the objects sound',
 'When memory is refused to any call at any point, once or for good, in the calling thread or in a worker, the call either completes with its usual result or raises a memory error: the process is not terminated, no thread or memory is left behind, inputs are intact, and the same call gives its usual result once memory is available. Read-only calls leave the object as it was; an update that fails is either applied or not, except the incremental insertions that document no guarantee (index insertion, 2D binning, extending a collection of polygons), which only stay usable.',
 ['fault_sequences','schedules','inputs','histories'],'every allocation made by the library in every call on every type, single and persistent refusals, all schedules of the workers',
 'No test makes an allocation fail.',
 [F+'include/pyinterp/detail/axis.hpp',F+'include/pyinterp/detail/axis/container.hpp',F+'include/pyinterp/detail/thread.hpp',F+'lib/geohash/int64.cpp',F+'include/pyinterp/rtree.hpp'],
 'exceptions cross no noexcept function and no thread; resources are owned by objects',
 tech='deterministic simulation: seeded allocation faults in every call, alone and under seeded schedules'),
P('P12','Refused calls leave no trace',
 'A call whose arguments have no valid meaning (sizes or numbers of dimensions that do not match, positions outside a container, unknown names, incompatible objects) raises an exception without reading or writing outside the memory of its arguments, and the object answers afterwards exactly as if the call had never been made, through any mixture of accepted and refused calls.',
 ['histories','inputs','schedules'],'all histories mixing valid and invalid calls on all types; all mismatched sizes, whichever argument is wrong',
 'The tests try one mismatched size for some of the arguments and do not look at the object afterwards.',
 [F+'include/pyinterp/detail/broadcast.hpp',F+'module/geohash/string.cpp',F+'lib/geodetic/line_string.cpp',F+'include/pyinterp/rtree.hpp',F+'include/pyinterp/binning.hpp',F+'include/pyinterp/grid.hpp'],
 'arguments are checked before any of them is used',
 tech='deterministic simulation: seeded histories where invalid calls are the faults, memory accesses monitored, compared with a reference that never saw them'),
P('P13','Filling gaps keeps the defined values and gives the specified ones',
 'Filling the undefined cells of a grid by relaxation or LOESS, of a matrix or of a vector by lines, gives each of them the value its method specifies whatever the number of threads, the schedule, the memory layout and the sizes of the axes (a single element included), and every other cell keeps its value bit for bit, even when the call fails. Relaxation stops at the given number of iterations or when the residual is below the tolerance, and reports which truthfully.',
 ['schedules','inputs','configurations','fault_sequences'],'all sizes, patterns of gaps, circular axes, parameters, numbers of threads, schedules, layouts, refused threads and memory',
 'The tests fill one grid per method and look at a few cells.',
 [F+'include/pyinterp/fill.hpp',F+'module/fill.cpp','src/pyinterp/fill.py'],
 'red-black Gauss-Seidel over bands of rows; LOESS window mirrored at the edges; lines filled by their chords and their mean slope',
 tech='deterministic simulation: seeded schedules and faults, results compared with small sequential models'),
P('P14','Nothing outlives the objects and the calls that made it',
 'After any history of calls, successful or failed (bad arguments, refused memory, refused threads), destroying the objects in any order releases all the native memory they used and leaves no thread running: repeating the history any number of times does not grow the process.',
 ['histories','fault_sequences','schedules'],'all histories of constructions, reads, updates, pickling and failures on all types, all orders of destruction',
 'The tests do not measure memory or threads.',
 [F+'include/pyinterp/detail/thread.hpp',F+'include/pyinterp/grid.hpp',F+'include/pyinterp/rtree.hpp',F+'module/geodetic.cpp'],
 'RAII; threads are joined before a call returns',
 tech='deterministic simulation: seeded histories with faults, live native blocks counted by the simulated heap'),
P('P15','What was obtained from an object stays valid without it',
 'A value, copy, part, view or iterator obtained from an object stays usable and keeps a value that was its own at some moment, whatever happens next to the object (changed, extended, replaced, destroyed) and to the other things obtained from it, in any order; no access touches released memory.',
 ['histories','inputs'],'all histories of obtaining, iterating, changing and destroying, on all types, in any order',
 'The tests keep the owner alive and unchanged while they look at its parts.',
 [F+'module/geodetic.cpp',F+'module/period.cpp',F+'include/pyinterp/grid.hpp',F+'module/axis.cpp','src/pyinterp/grid.py'],
 'return value policies and keep_alive of the bindings; shared pointers to axes, arrays and trees',
 tech='deterministic simulation: seeded histories of life times, heap accesses monitored, values compared with those the owner had'),
P('P16','An answer depends on the object and the arguments only',
 'The answer of a call is a function of the content of the object and of its arguments: it does not depend on the calls made before on this object or others (refused ones and those that ran out of memory included), on the other objects alive, on the process, on the number of threads, nor on what uninitialised memory happens to hold.',
 ['histories','fault_sequences','schedules'],'all interleavings of calls on several objects of all types, with refused calls, refused memory, schedules and contents of fresh memory',
 'The tests ask each question once, to a new object.',
 [F+'include/pyinterp/detail/gsl',F+'include/pyinterp/detail/interpolation',F+'include/pyinterp/axis.hpp',F+'include/pyinterp/rtree.hpp',F+'lib'],
 'work spaces, caches and accelerators that are kept from one element or call to the next',
 tech='deterministic simulation: seeded histories on several objects compared with an object alone in a fresh process with other memory contents'),
P('P17','Lists of periods gathered from several places hold exactly their union',
 'Through any sequence of merges (in any order, repeated, of empty lists, in other units of time), joins, sorts, copies, saves and crashes, a list of periods covers exactly the instants of the periods put into it, each overlapping group as one period, and leaves the lists merged into it unchanged. Its queries (membership, crossing, proximity, intersection, selection) and those of a pair of periods agree with the definition on intervals of instants.',
 ['histories','crash_points','inputs'],'all histories of merges, joins, sorts, saves and crashes; all lists (nested, adjacent, equal, out of order, empty), units and instants',
 'The tests merge two lists of a few periods, once, in one unit.',
 [F+'include/pyinterp/period.hpp',F+'module/period.cpp','src/pyinterp/period.py'],
 'merge of two sorted lists; queries walk the periods and the dates together',
 tech='deterministic simulation: seeded histories with crashes and repeated deliveries, compared with a model of intervals'),
P('P18','Each element of a batch is answered as if it were alone',
 'In every call that answers for a batch (positions to interpolate, to locate or to convert, dates, codes, series to reduce), each element gets bit for bit the answer it gets alone, whatever the other elements hold (undefined, infinite, extreme, repeated, outside), whatever their number and layout in memory, the number of threads and the schedule. An element that cannot be answered is refused or reported as undefined, and a layout that is not supported is refused: neither changes the answer of another element, and no element, however odd, makes the call touch memory outside its arguments.',
 ['inputs','schedules','configurations'],'all batches with damaged elements at any position, all layouts, numbers of threads and schedules, of all the vectorised calls',
 'The tests use regular batches and compare a few values with constants.',
 [F+'include/pyinterp/interpolate1d.hpp',F+'include/pyinterp/detail/interpolation',F+'include/pyinterp/bivariate.hpp',F+'include/pyinterp/rtree.hpp',F+'module/dateutils.cpp',F+'lib/geohash',F+'include/pyinterp/detail/math/descriptive_statistics.hpp'],
 'one loop over the elements, with work spaces kept from one element to the next',
 tech='deterministic simulation: seeded batches with damaged elements, layouts and schedules, compared with each element asked alone'),
P('P21','The passes of an orbit share out its cycle, whatever the clock shows',
 'The orbit computed from an ephemeris that covers its cycle passes where the ephemeris does, starts at a southernmost latitude with increasing times and distances, and its passes, computed one by one, hold each of its points exactly once, in order; the durations of the passes add up to the cycle. Iterating over the passes from a date, or from the date the clock showed when it started (even if the clock jumps meanwhile), visits consecutive passes without gap, numbered as the absolute pass numbers encode and decode. A pass cropped to a box holds exactly its points in the box, the equator is crossed where and when the track crosses it, and the pixels of a swath lie at the across-track distances it announces.',
 ['inputs','schedules','histories'],'all closed circular orbits (inclination, drift, revolutions, first point, sampling, units), boxes and swaths, all schedules of the interpolation, all dates, pass numbers and clock jumps',
 'The tests count the passes of one ephemeris and compute one swath; nothing compares the orbit with the ephemeris, and the clock is the one of the machine.',
 ['src/pyinterp/orbit.py',F+'include/pyinterp/geodetic/swath.hpp',F+'include/pyinterp/detail/math/orbit.hpp'],
 'calculate_orbit rotates and resamples the ephemeris, calculate_pass selects by time, iterate reads the clock once',
 tech='deterministic simulation: seeded ephemerides, schedules and clock jumps, compared with the closed form of the orbit and a model of the passes'),
P('P22','A grid answers from the cell of the point, whatever happened to it',
 'Whatever was done to a grid or to its axes before (values written in place, copies, saves and restarts, refused calls, failures, axes put in increasing order), and with any number of threads and any schedule, a query is answered from the current values: the cell that holds each coordinate is found on every kind of axis (regular or not, ascending or descending, angles on a circle or not, rolled, dates, a single point), the points of that cell or window are combined as the method asked for says (bilinear, nearest, inverse distance, splines, linear or nearest along the other axes), coordinates outside or undefined, or missing values, give an undefined answer or the error asked for, and nothing else does. Samples binned on the same axes go to the bins that hold them, with weights that add up to one.',
 ['inputs','schedules','histories'],'all grids of 2 to 4 axes of every kind, dtypes, memory orders and missing values; all histories, methods, windows, boundaries, coordinates, numbers of threads and schedules',
 'The tests use one or two global grids with ascending axes, built once, and compare a few values with constants.',
 [F+'include/pyinterp/axis.hpp',F+'include/pyinterp/detail/axis.hpp',F+'include/pyinterp/bivariate.hpp',F+'include/pyinterp/trivariate.hpp',F+'include/pyinterp/bicubic.hpp',F+'include/pyinterp/interpolate1d.hpp',F+'include/pyinterp/binning_2d.hpp','src/pyinterp/interpolator','src/pyinterp/grid.py'],
 'the search of the cell is shared by all the calls; each call adds its own selection of points around it',
 tech='deterministic simulation: seeded histories of grids with schedules and faults, compared with executable reference models of the axes and of the methods'),
P('P19','The estimates of the trees are numerically those of their method',
 'On regular inputs, universal kriging, radial basis functions, windowed functions and weighted regressions of the trees give the value of their published formula, within rounding.',
 ['inputs'],'all grids and positions','The tests compare a few values with constants.',
 [F+'include/pyinterp/detail/math',F+'include/pyinterp/detail/interpolation'],
 'numerical formulas',
 na='A pure function of its arguments: no schedule, fault, time, history or party can change the answer, so a simulator has nothing to control; deciding it takes numerical analysis. What depends on schedules, faults, batches and histories is P01, P03, P10, P13, P16, P18 and, for grids, P22.'),
P('P20','Geodetic, geohash and calendar conversions are accurate',
 'Conversions between geodetic and Cartesian coordinates, geodetic distances and areas, geohash encodings and calendar decompositions agree with their definitions within rounding, and inverse conversions give back their input.',
 ['inputs'],'all coordinates, codes and dates','The tests compare a few values with constants.',
 [F+'include/pyinterp/detail/geodetic',F+'lib/geohash',F+'include/pyinterp/dateutils.hpp'],
 'numerical formulas',
 na='Pure arithmetic on each argument, without concurrency, time, I/O or history: nothing for a simulator to control. That the conversion of an element depends on nothing else is P18.'),
]
json.dump(dict(properties=L,hooks=dict(guard='none: no hook was added to /repo',enable='the checks compile /repo unchanged and interpose at the C library and at the compiler instrumentation',source_commits=[]),notes='See DESIGN.md.'),open('/verif/tools/props.json','w'),indent=1)
