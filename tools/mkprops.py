"""Writes properties.jsonl (run from /verif)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["pyebsdindex/" + f for f in files],
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [{"name": n, "where": "pyebsdindex/" + w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})


prop("C01", "Distributed indexing equals serial indexing under every schedule",
     "Indexing a set of patterns with the distributed entry point terminates and returns, for every pattern, exactly the row that serial indexing returns, at the position of that pattern, whatever the order in which workers finish and whatever transient worker failures (a worker dies, reports an error, or a band-detection worker hangs) occur. No row is lost, duplicated, misplaced or left empty, for any number of patterns, chunk size, number of CPUs, starting pattern and input kind (array or file). The caller's environment is as it was before the call.",
     ["schedules", "fault_sequences", "configurations"],
     "All completion orders of the worker tasks and all sets of transient worker failures, for every split of the patterns into jobs.",
     "No stable test calls the distributed entry point with more than one job under a controlled completion order or with a failing worker; one real run shows one interleaving.",
     ["_ebsd_index_parallel.py"],
     [("two-stage job queues, task/worker lists, requeue on failure, hung-worker recovery", "_ebsd_index_parallel.py:index_pats_distributed")],
     ["return value of index_pats_distributed", "os.environ"],
     [("gpujobs/cpujobs/ngpudone/ncpudone", "jobs waiting per stage and jobs finished per stage", "_ebsd_index_parallel.py:index_pats_distributed")])

prop("C02", "Indexing a window of a scan gives the same rows as the full scan",
     "Indexing patterns selected by a start and a count returns the corresponding rows of the result of indexing everything, and nothing else. This holds for arrays (2-D or 3-D, any numeric type), HDF5 datasets, pattern containers and pattern files, and for the serial and the distributed entry point; a count of -1 means up to the last pattern.",
     ["inputs", "configurations"],
     "All (start, count) windows of a scan, all input kinds, both entry points.",
     "The tests index whole arrays with default start and count only.",
     ["_ebsd_index_single.py", "_ebsd_index_parallel.py", "ebsd_pattern.py"],
     [("pattern selection", "_ebsd_index_single.py:EBSDIndexer._getpats"), ("window arithmetic", "_ebsd_index_parallel.py:index_pats_distributed")],
     ["index_pats", "index_pats_distributed", "EBSDIndexer.index_pats"])

prop("C03", "Band detection treats every pattern independently",
     "The bands reported for a pattern depend only on that pattern and the detection settings: they are the same whether the pattern is processed alone, in a batch, in any chunking, or in any order and next to any other patterns (including empty, constant or extreme ones). Input patterns are not modified, and repeating the call gives the same answer.",
     ["inputs", "configurations", "histories"],
     "All orderings and subsets of a pool of dissimilar patterns, all chunk sizes, dtypes and repeated calls.",
     "The tests detect bands on one pattern, or on copies of one pattern, in one chunk.",
     ["band_detect.py", "radon_fast.py"],
     [("chunk loop", "band_detect.py:BandDetect.find_bands"), ("per-pattern peak labelling", "band_detect.py:BandDetect.band_label_numba"), ("batched Radon", "radon_fast.py:Radon.radon_faster")],
     ["BandDetect.find_bands"])

prop("C04", "Solving one pattern's bands does not depend on its neighbours",
     "The orientation, fit, confidence, matched bands and votes found for one set of band normals are the same when it is solved alone or in any batch, in any order, next to solvable, unsolvable, empty or invalid band sets, and on every repetition. Bands flagged invalid never influence the solution, and the inputs are left unchanged.",
     ["inputs", "histories"],
     "All orderings/subsets of a pool of band sets (good, degenerate, empty, partly invalid), repeated calls on one object.",
     "The tests solve one pattern at a time.",
     ["tripletvote.py"],
     [("per-pattern loop", "tripletvote.py:BandIndexer.bandindex"), ("triplet vote", "tripletvote.py:tripvote_numba")],
     ["BandIndexer.bandindex"])

prop("C05", "Exact bands and simulated patterns give back the true orientation",
     "Given the noise-free plane normals of a known crystal orientation (enough of them, in any order, with any sign and with spurious bands mixed in), indexing returns that orientation up to the crystal symmetry, matches every true band to a plane of the correct family, and reports a near-zero fit. A simulated pattern with a known orientation and pattern centre is indexed to that orientation within the angular resolution of the Radon transform, for square and non-square detectors and in every vendor convention of the pattern centre.",
     ["inputs", "configurations"],
     "All orientations of a grid over the fundamental zone, every bundled phase, every detector shape and pattern centre of the configuration set.",
     "The tests check one simulated Al pattern with the identity orientation.",
     ["tripletvote.py", "_ebsd_index_single.py", "band_detect.py", "radon_fast.py"],
     [("triplet voting and refinement", "tripletvote.py:BandIndexer.bandindex"), ("Radon coordinates to plane normals", "radon_fast.py:Radon.radon2pole")],
     ["index_pats", "BandIndexer.bandindex"])

prop("C06", "The same geometry in any vendor convention gives the same answer",
     "A pattern centre expressed in the EDAX, Oxford, Bruker, kikuchipy and EMsoft conventions for the same physical geometry yields the same plane normals and, per reference-frame family, the same orientations, on square and non-square detectors, for one pattern centre or one per pattern. A detected line on the detector always maps to the plane through the source point and that line.",
     ["inputs", "configurations"],
     "All vendors x detector shapes x pattern centres x Radon positions on a grid; shared or per-pattern pattern centres.",
     "The tests use the EDAX convention and one detector shape.",
     ["radon_fast.py", "_ebsd_index_single.py"],
     [("pattern-centre conventions", "radon_fast.py:Radon.radon2pole"), ("detector to sample frame", "_ebsd_index_single.py:EBSDIndexer._detector2refframe")],
     ["Radon.radon2pole", "index_pats"])

prop("C07", "Result records are complete, consistent and name the best phase",
     "For every pattern the final layer is a copy of the layer of the phase with the best combination of fit and matched bands (ties go to the earlier phase), or a no-solution record (phase -1, fit 180, zero matches) when no phase matched three bands. Each solved layer carries a unit quaternion with non-negative scalar part, its own phase number, a match count equal to the number of bands with a matched plane, and matched planes that lie within tolerance of the measured bands under that orientation. Adding a phase, or a threshold that stops trying further phases, never alters an earlier phase's own layer.",
     ["inputs", "configurations"],
     "All ordered phase lists up to length 3 over the bundled phases, all early-exit thresholds, a pool of patterns of each phase plus unsolvable ones.",
     "One test uses two phases on one pattern and checks little of the record.",
     ["_ebsd_index_single.py", "tripletvote.py"],
     [("phase loop and best-phase choice", "_ebsd_index_single.py:EBSDIndexer._indexbandsphase"), ("matched pole lookup", "_ebsd_index_single.py:EBSDIndexer.getmatchedpole")],
     ["index_pats", "EBSDIndexer.getmatchedpole"])

prop("C08", "A reused indexer answers like a fresh one",
     "After any history of calls (patterns of other sizes, other files, other numbers of patterns, pattern-centre optimisation, distributed runs), an indexer gives for the next input the result a newly built indexer with the same settings gives. Building or using one indexer never changes another one.",
     ["histories"],
     "All call sequences up to a depth over an alphabet of operations on shared indexer objects.",
     "Each test builds one indexer and uses it once or twice with the same detector size.",
     ["_ebsd_index_single.py", "band_detect.py", "radon_fast.py"],
     [("resetting for new pattern dimensions", "_ebsd_index_single.py:EBSDIndexer.update_file"), ("re-planning", "band_detect.py:BandDetect.band_detect_setup")],
     ["index_pats with ebsd_indexer_obj", "BandDetect.find_bands"])

prop("C09", "Pattern files return exactly the requested patterns",
     "For every supported file format and every way of requesting patterns (all, a run, a rectangular slab, clipped at the end of the scan), reading returns exactly the stored patterns at those positions, in order, with the stored values and the stored or regular-grid positions, whatever the pattern shape, bit depth and scan shape. Header information (dimensions, counts, step sizes) equals what was stored, and reading never changes the file.",
     ["inputs", "configurations"],
     "All formats x bit depths x scan shapes up to 4x4 x all (start, count) requests, in continuous and slab form.",
     "No test reads a pattern file.",
     ["ebsd_pattern.py"],
     [("request handling", "ebsd_pattern.py:EBSDPatternFile.read_data"), ("format readers", "ebsd_pattern.py:UPFile/EBSPFile/HDF5PatFile/... .pat_reader")],
     ["read_data", "read_header", "get_pattern_file_obj"])

prop("C10", "Writing patterns changes exactly the addressed patterns",
     "After any sequence of pattern writes, header writes, copies and re-openings, a file read back equals an array model updated with exactly the addressed patterns: every other pattern, the header data and any other file keep their values. Copying a file gives an equal, independent file and never modifies the source.",
     ["histories", "inputs"],
     "All operation sequences up to a depth over writes (single, run, slab), header rewrite, copy and reopen, for each writable format.",
     "No test writes a pattern file.",
     ["ebsd_pattern.py"],
     [("write handling", "ebsd_pattern.py:EBSDPatternFile.write_data"), ("format writers", "ebsd_pattern.py:*.pat_writer"), ("copy", "ebsd_pattern.py:*.copy_file")],
     ["write_data", "copy_file", "file bytes"])

prop("C11", "Float-to-integer pattern conversion is order preserving and in range",
     "Converting floating-point patterns for storage never wraps around: results stay inside the unsigned target range and order is preserved among the patterns given. Rescaling maps the range of the given patterns linearly onto the target range (times the scale factor), with the requested maximum in place of the patterns' own if one is given. Without rescaling, values that fit are kept to within rounding; the input is left unchanged.",
     ["inputs"],
     "All small arrays over a boundary-value alphabet (negative, zero, fractional, maximum, beyond maximum, constant), all target types and option combinations.",
     "No test covers the conversion.",
     ["ebsd_pattern.py"],
     [("conversion", "ebsd_pattern.py:pat_flt2int")],
     ["pat_flt2int"])

prop("C12", "NLPAR output is the defined weighted average at every scan point",
     "Every output pattern is the normalised, non-negative weighted average of the patterns inside the search window of that point, which is (2r+1) points wide and high, moved to stay inside the scan at its edges (and cut where the scan is smaller), with weights given by the noise-aware distance of pattern pairs; a search radius of zero returns the input and a uniform scan is unchanged. The result and the estimated noise do not depend on how the scan is cut into row chunks, and every scan point is written, for any scan shape.",
     ["inputs", "configurations"],
     "All scan shapes up to 5x5, all search radii, all chunk sizes, several strengths, thresholds and noise maps.",
     "No test runs NLPAR.",
     ["nlpar_cpu.py"],
     [("chunking", "nlpar_cpu.py:NLPAR._calcchunks"), ("averaging kernel", "nlpar_cpu.py:NLPAR.nlpar_nb"), ("noise estimate", "nlpar_cpu.py:NLPAR.calcsigma")],
     ["NLPAR.calcnlpar", "NLPAR.calcsigma"])

prop("C13", "NLPAR never touches its input and does not carry state between runs",
     "Running NLPAR leaves the input file byte-identical, writes to a separate output file with the same dimensions, and gives the same output as a fresh object with the same settings whatever the object was used for before: other files, other scan shapes, other pattern sizes, other settings. Only a noise estimate of the same file is kept, until it is reset. A strength search changes only the strength (and estimates the noise).",
     ["histories"],
     "All sequences of NLPAR operations up to a depth on one object over files of different scan shapes.",
     "No test runs NLPAR.",
     ["nlpar_cpu.py", "ebsd_pattern.py"],
     [("in/out file handling", "nlpar_cpu.py:NLPAR.setfile/setoutfile/getoutfileobj"), ("option setters", "nlpar_cpu.py:NLPAR.*")],
     ["NLPAR methods", "files"])

prop("C14", "All orientation representations describe the same rotation",
     "Converting an orientation between any two of the supported representations (Euler angles, matrix, axis-angle, Rodrigues, homochoric, cubochoric, quaternion), directly or through any chain, preserves the rotation and gives a value in the representation's definition range. This holds at the degenerate orientations too (identity, 180 degree rotations, Phi = 0 and 180), for one orientation or an array of any length, in single and double precision, without changing the input.",
     ["inputs"],
     "All ordered pairs (and triples) of representations on a grid of orientations containing the special ones.",
     "The conversion script in the tests directory is not collected; stable tests use a handful of quaternions indirectly.",
     ["rotlib.py", "rotations.py"],
     [("direct conversions and compositions", "rotlib.py"), ("the plain numpy versions", "rotations.py")],
     ["rotlib.*2*", "rotations.*2*"])

prop("C15", "Quaternion algebra is consistent",
     "Quaternion products, conjugates, normalisation, averages and vector rotations satisfy the rotation-group laws: associativity, inverse, identity, agreement of the product with composed vector rotations, length preservation, and sign independence of the rotation. One-to-many, many-to-one and pairwise forms agree with the elementwise results, and inputs are left unchanged.",
     ["inputs"],
     "All triples over a finite set of quaternions closed under interesting cases, all broadcasting shapes.",
     "Stable tests use the functions indirectly on a few values.",
     ["rotlib.py"],
     [("products and rotations", "rotlib.py:quat_multiply/quat_vector/quatnorm/quatconj/quatave")],
     ["rotlib.quat*"])

prop("C16", "Symmetry operators form the right point group for every space group",
     "For each Laue class the operators are unit quaternions forming a closed group of the right order that contains the identity and inverses and has the right axes, and every one of the 230 space groups, in number or in Laue-code form, is assigned its correct Laue class. Symmetry-equivalent orientations generated from them are mutually consistent.",
     ["inputs"],
     "All Laue classes, all operator pairs, all 230 space groups.",
     "Tests touch four space groups.",
     ["crystal_sym.py"],
     [("operators", "crystal_sym.py:*sym_q"), ("space group to Laue group", "crystal_sym.py:spacegroup2lauenumber/laueid2symops")],
     ["crystal_sym functions"])

prop("C17", "A phase library lists every reflecting plane and every band triplet",
     "For any crystal system and list of plane families, the library contains every symmetry-equivalent plane of each family and its inverse exactly once, with correct unit normals and correct angles between all pairs, and counts that agree with the crystallographic multiplicity. Every triplet of non-parallel listed planes is represented by its angles and families within the binning tolerance, so no true band triplet can fail to vote; equivalent inputs (other members of the family, inverted, 3- or 4-index notation) give the same library.",
     ["inputs", "configurations"],
     "All bundled phases and a set of lattices for every Laue class, all plane pairs and all plane triplets.",
     "Tests check counts for four phases.",
     ["tripletvote.py", "crystallometry.py", "crystal_sym.py"],
     [("library construction", "tripletvote.py:BandIndexer.build_trip_lib"), ("phase definitions", "tripletvote.py:addphase")],
     ["addphase", "BandIndexer.completelib", "BandIndexer.angtriplets"])

prop("C18", "Crystal geometry obeys the metric-tensor identities",
     "For every valid unit cell, direct and reciprocal metric tensors and structure matrices satisfy their defining identities (inverse pairs, volumes, dual bases, right-handed Cartesian frame), interplanar spacings and angles agree with the textbook formula, and angles between planes or directions do not depend on the unit of length or on scaling of the indices.",
     ["inputs"],
     "A grid of lattice parameters over all crystal systems and length units, all small Miller indices.",
     "No test covers the module directly.",
     ["crystallometry.py"],
     [("metric and structure matrices", "crystallometry.py:Crystal")],
     ["crystallometry.Crystal"])

prop("C19", "The Radon transform is the mean along the right pixels for any image",
     "The transform is linear in the image, each Radon cell is the mean of the unmasked pixels on its line, every pixel contributes to exactly the cells whose line passes through it (within half a pixel), and cells without pixels hold the missing value. Padding shifts but does not change the values, the two implementations agree, and masked or re-indexed pixels behave as stated, for any detector shape.",
     ["inputs", "configurations"],
     "All single-pixel images (which decide a linear map completely) for a set of detector shapes, resolutions, masks, index maps and paddings.",
     "Tests see the transform only through one indexed pattern.",
     ["radon_fast.py"],
     [("index plan", "radon_fast.py:Radon.radon_plan_setup"), ("transforms", "radon_fast.py:Radon.radon_fast/radon_faster")],
     ["Radon.radon_fast", "Radon.radon_faster"])

prop("C20", "Masked pixels and the background never leak into the result",
     "With a pattern mask, detected bands do not depend on the values of masked pixels, and no band is reported outside the masked Radon region. Background collection is independent of the order and the container (array or file) of the patterns, does not modify them, and an indexer with background correction treats each pattern independently.",
     ["inputs", "configurations"],
     "All masks of a family x fillings of the masked pixels; all orders of a pattern pool for the background.",
     "No test uses a mask or a background.",
     ["band_detect.py", "radon_fast.py"],
     [("mask handling", "band_detect.py:BandDetect.band_detect_setup"), ("background", "band_detect.py:BandDetect.collect_background")],
     ["BandDetect.find_bands", "BandDetect.collect_background"])

prop("C21", "Pattern-centre optimisation leaves the indexer intact and returns the best",
     "Optimising the pattern centre never changes the indexer, the patterns or the caller's starting point, for any vendor convention. The result is in the caller's convention, the swarm optimiser returns the best position it evaluated and stays inside its bounds with the cost of that position, and one-by-one optimisation equals optimising each pattern separately.",
     ["inputs", "configurations", "histories"],
     "All vendors x batch modes x starting points as list or array; all small objective functions on a grid for the swarm; all seeds of a set.",
     "Tests check one EDAX case.",
     ["pcopt.py"],
     [("Nelder-Mead driver", "pcopt.py:optimize"), ("swarm", "pcopt.py:PSOOpt")],
     ["optimize", "optimize_pso", "PSOOpt.optimize"])

prop("C22", "Exported scan files carry exactly the indexing result",
     "Writing an indexing result to an exported scan file (text or HDF5) records every point once, in scan order, with its Euler angles equivalent to the result's orientation, fit, confidence, quality, phase number and grid position, and marks unindexed points as such. The phases' symmetry, lattice and plane families are the indexer's, and writing does not alter the result held in memory.",
     ["inputs", "configurations"],
     "All scan shapes up to 3x4, phase counts, unindexed subsets and file kinds.",
     "No test writes a scan file.",
     ["ebsdfile.py"],
     [("text export", "ebsdfile.py:writeang"), ("HDF5 export", "ebsdfile.py:writeoh5")],
     ["writeang", "writeoh5"])

prop("C23", "Orientation colours respect symmetry and images respect scan positions",
     "The inverse-pole-figure colour of an orientation of a cubic or hexagonal (Laue m-3m, 6/mmm) phase is the same for all its symmetry-equivalent descriptions, for the inverted sample direction and for any length of that direction, lies in [0, 1], varies continuously, and differs between inequivalent directions. Orientation images place each scan point at its own row and column in the colour of its own phase, with padding and unindexed points black; scalar images place and order the values the same way; neither alters the data.",
     ["inputs", "configurations"],
     "All symmetry operators x a direction grid; all scan shapes and points.",
     "No test covers the images.",
     ["EBSDImage/IPFcolor.py", "EBSDImage/scalarimage.py"],
     [("colour keys", "EBSDImage/IPFcolor.py:ipf_color_cubic/ipf_color_hex"), ("image layout", "EBSDImage/IPFcolor.py:makeipf; EBSDImage/scalarimage.py:scalarimage")],
     ["makeipf", "qu2ipf_*", "scalarimage"])

prop("C24", "A scale bar has the length it states and leaves the image alone",
     "Adding a scale bar returns a new image: on top the given image (as is, or scaled linearly to 0..1 on request, or enlarged by whole pixels), below it a strip between the image's lowest and highest value with a bar. The bar's length is the largest of the round lengths 1, 2, 5, 10, 20, 25, 50, 100, 200, 250, 500 nm, um or mm below a third of the image width, to within one pixel for the given pixel size, and the label states it. Every result is finite and the given image is not changed.",
     ["inputs", "configurations"],
     "A grid of image sizes, channel counts, data types, value ranges, pixel sizes over seven decades and options.",
     "No test covers the scale bar.",
     ["EBSDImage/micronbar.py"],
     [("layout", "EBSDImage/micronbar.py:addmicronbar"), ("length and unit", "EBSDImage/micronbar.py:_round_micronbar")],
     ["addmicronbar"])

prop("C25", "A cubic misorientation is the smallest over all symmetry variants",
     "The misorientation of two cubic crystals is a unit quaternion whose angle is the smallest of all rotations that take one crystal into the other over all 24 symmetry operators, with an axis in the standard triangle (indices not negative, falling). It depends neither on the symmetry variant, sign or order of the two orientations nor on whether they are given singly or in arrays, and the given arrays are not changed.",
     ["inputs"],
     "All pairs of a finite set of orientations that holds all special ones, all symmetry variants, shapes and precisions.",
     "No test covers the module.",
     ["misorientation.py"],
     [("misorientation", "misorientation.py:misorientcubic_quick")],
     ["misorientcubic_quick"])

prop("C26", "The strongest bands reported are the lines in the pattern, where they are",
     "A straight bright line in an otherwise even pattern, at least as wide as a Radon cell and within the part of the transform that is not trimmed, is reported as the strongest band within one distance cell and about three degrees of its true angle and distance from the pattern centre, without systematic shift, for every angle, detector shape, Radon resolution, edge trim and pattern mask. Several lines of distinct strength come out strongest first. A constant added to a pattern or a positive factor changes neither which bands are found, nor where, nor how the pattern is indexed; pixels outside the pattern mask have no influence.",
     ["inputs"],
     "All lines of an (angle, distance) grid, with detector shapes, resolutions, trims, masks, gains and offsets crossed; every order of up to four lines.",
     "Tests look at one kind of square pattern with one setting.",
     ["band_detect.py", "radon_fast.py"],
     [("find_bands", "band_detect.py:BandDetect.find_bands"), ("rdn_conv", "band_detect.py:BandDetect.rdn_conv"), ("band_label_numba", "band_detect.py:BandDetect.band_label_numba"), ("rdn_mask", "band_detect.py:BandDetect.band_detect_setup")],
     ["find_bands", "rdn_conv", "band_label", "rdn_local_max", "band_detect_setup"])

prop("C27", "Band detection on an OpenCL device does not depend on how the device works",
     "The bands found on an OpenCL device are the same whatever the device is free to choose: the order in which work items run, when queued commands are executed, what memory holds before it is written. No two work items of a kernel touch the same memory unless both only read, and none reads or writes beyond its buffers. Batch size, number type, the other patterns and earlier calls do not matter. Whichever platform and device is there and is asked for, the bands are the same, and distributed indexing with workers that share the devices gives the serial result in every schedule and with failing workers. The bands are where the lines in the pattern are, strongest first, for every angle, detector and edge trim, and lead to the same orientation as those of the CPU. When the device fails at any call, the CPU's answer is given, or an error is raised, never a wrong answer.",
     ["inputs", "schedules", "fault_sequences"],
     "Every combination of work item order, command delay and memory content; every failing device call; batch sizes; all lines of a grid; worker schedules and faults; platforms and devices.",
     "Tests are skipped without a device, and a device shows one order and one memory content.",
     ["opencl/band_detect_cl.py", "opencl/clkernels.cl", "opencl/openclparam.py", "_ebsd_index_parallel.py"],
     [("find_bands", "opencl/band_detect_cl.py:BandDetect.find_bands"), ("rdn_conv", "opencl/band_detect_cl.py:BandDetect.rdn_convCL2"), ("openclparam", "opencl/openclparam.py:OpenClParam"), ("kernels", "opencl/clkernels.cl")],
     ["find_bands", "radon_fasterCL", "rdn_convCL2", "rdn_local_maxCL", "band_labelCL", "calcbackground"])

prop("C28", "NLPAR on an OpenCL device gives the defined average for every scan and device",
     "NLPAR on an OpenCL device, serial or by ray workers, replaces every pattern by the average over its search window with the weights of the published definition: distance over the mask without saturated pixels, noise of both points, threshold, offset and strength, the window mirrored at the edges of the scan. This holds for every scan shape (also single rows and points), radius, number type and file kind, however much memory the device has (the division into tiles leaves no point out and gives every point its whole window), whatever order work items run in, in every schedule of the workers, with failing tiles done again, and for an object used again with other files, masks and noise. No kernel reads or writes beyond its buffers, and no two work items interfere. The noise estimate and the strength search agree with their definitions. Settings count the same however they are given (with the object, the run, or an earlier run), an output without a name is named after input, strength and radius, the input file is left alone, and it does not matter which of several devices is used.",
     ["inputs", "schedules", "fault_sequences", "histories"],
     "Scan shapes, radii, settings and device memories crossed; all bounded worker schedules with failing tiles; every failing device call; sequences of runs of one object.",
     "Tests do not run NLPAR on a device at all.",
     ["opencl/nlpar_cl.py", "opencl/nlpar_clray.py", "opencl/clnlpar.cl", "nlpar_cpu.py"],
     [("calcnlpar_cl", "opencl/nlpar_cl.py:NLPAR.calcnlpar_cl"), ("calcsigma_cl", "opencl/nlpar_cl.py:NLPAR.calcsigma_cl"), ("calcnlpar_clray", "opencl/nlpar_clray.py:NLPAR.calcnlpar_clray"), ("kernels", "opencl/clnlpar.cl:calcnlpar"), ("tiles", "nlpar_cpu.py:NLPAR._calcchunks")],
     ["calcnlpar", "calcsigma", "normd", "_calcchunks", "opt_lambda"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
