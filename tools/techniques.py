TECH.update({
"C01": ("model_checking", "exhaustive deviation-bounded exploration of worker completion orders and faults on the real scheduler code (deterministic stand-in for ray)",
        "Every schedule/fault pattern within the stated deviation bounds is run on the real coordinator code with a deterministic ray stand-in; workers execute the real worker classes. Trusts the stand-in's semantics of ray.wait/get/kill."),
"C14": ("model_checking", "explicit-state exploration: state = (representation, rotation), transitions = the real conversion functions, all paths to a bounded depth from a finite set of rotations with all degenerate ones, checked against a reference model",
        "Complete for the enumerated rotations, precisions, array forms and path depth; rotations outside the finite set are not covered."),
"C15": ("exploration", "bounded exhaustive enumeration of operand tuples (all sign/zero patterns and degenerate quaternions, all calling forms and precisions) on the real functions against a numpy model",
        "Complete over the finite operand alphabet; values outside it are not covered."),
"C16": ("model_checking", "exhaustive enumeration of all space groups / Laue codes and closure (fix-point state space) of the real operator tables, compared with groups generated from textbook generators",
        "The domain (230 space groups, 11 Laue classes) is covered completely."),
"C17": ("model_checking", "exhaustive enumeration of all planes, plane pairs and plane triplets of a set of phases covering all Laue classes; bidirectional inclusion between the real library and an independent reference enumeration",
        "Complete for the listed phases; other cells/families are not covered."),
"C18": ("exploration", "bounded exhaustive enumeration of a lattice of unit cells (all crystal systems, units of length) times all index triples to a bound on the real functions against an independent Cartesian construction",
        "Complete for the enumerated cells and indices."),
})
NA = {}
TECH.update({
"C02": ("exploration", "bounded exhaustive enumeration of all (start, count) windows x input kinds x entry points on the real entry points, compared row by row with the full-scan result",
        "Complete over the windows of the small scans and listed input kinds."),
"C03": ("exploration", "bounded exhaustive enumeration of all orderings, subsets and chunkings of a pool of dissimilar patterns on the real band detector, compared with each pattern processed alone",
        "Complete over the pool and bounds; the pool is finite."),
"C04": ("exploration", "bounded exhaustive enumeration of all orderings/subsets of a pool of band sets and call histories on the real solver, compared with each set solved alone",
        "Complete over the pool and bounds."),
"C05": ("exploration", "bounded exhaustive enumeration of an orientation grid x phases x visible-band subsets x sign/permutation/spurious-band patterns on the real solver, and simulated patterns x detector geometries through the whole pipeline, against an independent forward model",
        "Complete over the grid; orientations between grid points are not covered."),
})
TECH.update({
"C06": ("exploration", "bounded exhaustive enumeration of Radon positions x detector shapes x source points x vendor conventions (shared and per-pattern pattern centres) on the real mapping, against an independent construction of the plane through source and line; simulated patterns indexed in every convention",
        "Complete over the grid."),
"C07": ("exploration", "bounded exhaustive enumeration of all ordered phase lists to length 3 x all early-exit thresholds on a pattern pool through the real entry point, against a reference model of the record composed from single-phase runs",
        "Complete over the phase lists, thresholds and the pool."),
"C19": ("exploration", "bounded exhaustive enumeration: a linear map is decided by its response to every single-pixel image; all of them are run through both implementations for a set of geometries, masks, index maps and paddings",
        "Complete for the enumerated geometries."),
"C20": ("exploration", "bounded exhaustive enumeration of masks x fillings of the masked pixels x pixel types x entry points, and of orders/subsets/containers for the background, on the real code",
        "Complete over the listed masks, fillings and pools."),
})
TECH.update({
"C08": ("model_checking", "exhaustive exploration of all sequences (to a depth) of operations on live indexer objects, including two interleaved indexers, each step compared with a fresh object holding the same settings",
        "Complete for the operation alphabet and depth; the alphabet is finite."),
})
TECH.update({
"C09": ("exploration", "bounded exhaustive enumeration of formats x bit depths x scan shapes x all (start, count) requests (runs and slabs) on the real readers, against files written by an independent writer",
        "Complete over the small scans and listed formats; files of vendors are represented by what the independent writers produce."),
"C10": ("model_checking", "explicit-state exploration of all sequences (to a depth) of writes, header writes, copies and reopenings on real files, every state compared with an array model after reading the file back with an independent parser",
        "Complete for the operation alphabet and depth; one process at a time, no torn writes."),
"C11": ("exploration", "bounded exhaustive enumeration of all small arrays over a boundary-value alphabet x targets x option combinations on the real conversion, against the stated laws",
        "Complete over the alphabet."),
"C12": ("exploration", "bounded exhaustive enumeration of scan shapes x radii x chunk sizes x strengths x noise maps on the real averaging and noise estimate, against an independent definition of the weighted average",
        "Complete over the small scans and settings listed."),
"C13": ("model_checking", "explicit-state exploration of all sequences (to a depth) of NLPAR operations on one live object over files of different shapes, each step compared with a fresh object and with the bytes of the input files",
        "Complete for the operation alphabet and depth."),
"C21": ("model_checking", "exhaustive exploration of all sequences of extreme random draws of the swarm on the real optimiser, and of all vendors x shapes x batch modes x kinds of start x interruption points on the real drivers",
        "Complete for the finite draw alphabet and the listed configurations; the cost is judged by evaluating the real cost at single positions."),
"C22": ("exploration", "bounded exhaustive enumeration of scan shapes, phase counts, subsets of unindexed points, ways of giving the grid and file kinds on the real exporters, read back by independent parsers",
        "Complete over the small scans listed."),
"C23": ("model_checking", "explicit-state exploration: states are crystal directions, transitions all symmetry operators, inversions, spins and sample directions, applied through the real colour keys; every scan shape to a bound with every point singled out for the images",
        "Complete over the direction grid and scan shapes; only the two supported Laue classes have keys."),
"C24": ("exploration", "bounded exhaustive enumeration of image sizes, channels, pixel sizes and options on the real function; bar, label and image area are read back from the picture",
        "Complete over the grid; the label is recognised by comparison with rendered candidates."),
})
TECH.update({
"C25": ("model_checking", "explicit-state exploration: states are pairs of orientations of a finite set, transitions all symmetry operators on either side; the real function is compared with the brute-force minimum over all operators",
        "Complete over the finite set, which contains all special orientations."),
})
TECH.update({
"C26": ("exploration", "bounded exhaustive enumeration of single lines (angle x distance grid over the half circle) crossed with detectors, resolutions, trims, masks, gains and offsets, and of all orders of up to four lines, on the real band detection",
        "Complete over the grid; the place is judged to one distance cell and three angle degrees, the mean error to hundredths of a cell."),
"C27": ("exploration", "exhaustive exploration of the choices of an OpenCL device (order of work items, delay of commands, content of unwritten memory, every failing call) on the real kernels, compiled by clang as OpenCL C and run under a pyopencl stand-in, crossed with batch sizes, number types and a grid of lines; all loads and stores of all work items recorded and checked for conflicts, which reduces all interleavings of work items to one",
        "The real host code and the real kernels, not a model; a real device's compiler and arithmetic are not covered."),
"C28": ("exploration", "exhaustive exploration of scan shapes x radii x settings x device memories (tiles), of all bounded worker schedules with failing tiles under a controlled scheduler, of device freedoms and failing calls and of sequences of runs, on the real kernels under a pyopencl stand-in, against a double precision reference from the definition; every division of a scan into tiles up to a bound",
        "Saturation levels are equal in all tiles by construction; persistent failure of a tile is outside the fault bound."),
})
