"""Single source for properties.jsonl and MANIFEST.json (run tools/gen.py)."""
P = []

def prop(id, title, statement, over, quant, why, files, mechanism, observe=None,
         state=None, technique=None, note=None, na=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant,
                  why=why, files=files, mechanism=mechanism, observe=observe or [],
                  state=state or [], technique=technique, note=note, na=na, hook=hook))

M = lambda name, where: dict(name=name, where=where)

# ---------------------------------------------------------------- parset ----
prop("C01", "Parset behaves as a map under every operation history",
     "For every sequence of add, replace, remove, clear, adopt (file, text, other parset, command line), subset, subtract and lookup operations on a parameter set, the resulting keys and values, every lookup result, size, iteration order and every error equals that of a plain ordered dictionary with the documented semantics: add refuses an existing key, replace and adopt overwrite, remove is idempotent, a subset takes exactly the keys below its prefix. A lookup with a default never changes the set, and a lookup of an undefined key without default always fails with an error. A copied parameter set refers to the same set as the original, while a subset is independent of it.",
     ["histories"], "all operation sequences up to a depth over a small key/value alphabet, for both key-comparison modes",
     "A test samples a few fixed histories; aliasing between shared parsets, subset prefixes and overwrite rules only differ on particular orders of operations. No test in the buildable set touches the parameter set.",
     ["common/ParameterSet.h", "common/ParameterSet.cc", "common/ParameterSetImpl.h", "common/ParameterSetImpl.cc"],
     [M("ordered map with comparator, add/replace/remove/adoptCollection/subtractSubset/makeSubset", "common/ParameterSetImpl.cc")],
     technique="explicit-state exploration of operation histories on the real class against a reference dictionary")

prop("C02", "Parset text: last definition wins, comments/continuations, write-read identity",
     "For every parset text, reading it yields exactly the key/value pairs it denotes: blank and comment text is ignored (a hash sign outside quotes starts a comment), surrounding white space and a statement end are dropped, a line without an equal sign continues the value before it, a later definition of a key replaces an earlier one, and a given prefix is put before each key. Writing any parset and reading the result back gives the same keys and values. A definition with an empty key is an error.",
     ["inputs", "histories"], "all texts built from a line grammar up to a number of lines, with every white-space/quote/comment/continuation variant",
     "The line parser has many interacting special cases (quotes, comment sign, continuation, prefix); the buildable tests do not reach it at all.",
     ["common/ParameterSetImpl.cc", "common/ParameterSetImpl.h"],
     [M("readStream / addMergeKVpair / writeStream", "common/ParameterSetImpl.cc")],
     technique="exhaustive enumeration of grammar-generated parset texts on the real reader/writer against a reference reader")

prop("C03", "Parset values: vectors, records and quoted strings keep their structure",
     "For every value text that denotes a (nested) list, record or quoted string, the value accessors return exactly the elements denoted: separators inside quotes or nested brackets do not split, white space around elements is dropped, one level of matching quotes is removed when a string is requested, and typed list access equals typed access of each element in order. Text that is not in brackets is a list of one element and empty text is an empty list. Requesting a list or record from an unbalanced or unterminated bracketed text is an error, never a silently shorter result.",
     ["inputs"], "all nested list/record/quoted-string ASTs up to a size rendered with every quoting and white-space variant, and all short raw strings over the structural alphabet",
     "Nesting, quoting and separators combine multiplicatively; unit tests list a handful of values and none is in the buildable set.",
     ["common/ParameterValue.cc", "common/ParameterValue.h", "common/ParameterRecord.h", "common/StringTools.cc"],
     [M("ParameterValue::splitValue, getVector, getRecord, getString", "common/ParameterValue.cc"), M("skipQuotes, skipBalanced", "common/StringTools.cc")],
     technique="exhaustive enumeration of value ASTs rendered to text, real accessors compared with the generating AST")

prop("C04", "Parset array expansion of ranges and repetitions is exact",
     "For every array text, expansion replaces each range by all its numbers in order (ascending or descending, both ends included, the zero-padded width and the text around the number kept) and each repetition by that many copies of the repeated item or bracketed list, recursively, and leaves everything else, in particular quoted text, unchanged. Expanding always terminates, and an already expanded text is a fixed point.",
     ["inputs"], "all array texts generated from a range/repetition/quote grammar up to a nesting depth with boundary numbers (zero, equal ends, padding, near the integer limit)",
     "Range width, direction, prefix/suffix and nested repetition interact; the buildable tests check a few fixed texts.",
     ["common/StringTools.cc", "common/StringTools.h", "common/ParameterValue.cc"],
     [M("expandArrayString, expandRangeString, expandMultString", "common/StringTools.cc")],
     technique="exhaustive enumeration of grammar-generated array texts against the generator's own expansion")

prop("C05", "Parset scalars convert exactly or fail",
     "For every text, converting it to a boolean, integer of each width and signedness, floating-point number or time yields exactly the value the text denotes in decimal (or prefixed hexadecimal), or an error: an out-of-range number, trailing garbage, blank text or a word that is not a number never yields a value. A boolean is decided by its first letter (t, y, 1 or f, n, 0 in either case). A time accepts an optional unit of seconds, minutes or hours, is returned in seconds, and an unknown unit is an error.",
     ["inputs"], "all strings up to a length over the numeric alphabet plus every boundary of every integer width with each sign, padding and white-space variant",
     "The interesting inputs are the boundaries of every type and malformed tails; tests in the buildable set check a few values.",
     ["common/StringTools.cc", "common/ParameterValue.cc", "common/ParameterValue.h"],
     [M("strToBool/strToShort/.../strToDouble, ParameterValue::getTime", "common/StringTools.cc, common/ParameterValue.cc")],
     technique="exhaustive enumeration of short strings and boundary numerals against an independent recogniser with 128-bit arithmetic")

prop("C06", "Concurrent parset use is linearizable and race free",
     "When several threads read, query, add, replace, remove, subset or list keys of one shared parameter set, every interleaving gives results that some sequential order of the same operations would give, ends with the corresponding contents, and never deadlocks, crashes or accesses freed or half-written data. A reference or iterator into the set that a caller keeps is outside this guarantee once another thread changes the set.",
     ["schedules"], "all interleavings of 2-3 threads with 1-2 operations each at synchronisation operations (unbounded preemptions for 2 threads, bounded for 3), with a happens-before check of every memory access in every explored schedule",
     "A test runs one schedule per execution; the class documents itself as fully thread-safe but nothing tests it concurrently.",
     ["common/ParameterSetImpl.h", "common/ParameterSetImpl.cc", "common/ParameterSet.h"],
     [M("mutex guarding the map and the set of asked keys", "common/ParameterSetImpl.cc")],
     technique="stateless model checking of the real class under a controlled scheduler (interposed locks, compiler-instrumented memory accesses with vector clocks), linearizability against the sequential dictionary")

prop("C07", "Exactly the parset keys never consulted are reported as unused",
     "After any history of operations, the keys reported as unused are exactly the defined keys for which no lookup, by any typed accessor, with or without default, in any spelling when keys are case insensitive, or by taking a subset that contains them, was made. Defining, testing for existence, iterating or writing keys never counts as consulting them.",
     ["histories"], "all histories of definitions, lookups through every typed accessor, subset creation and unused-key queries up to a depth",
     "The report is the user's only protection against misspelled keys and depends on bookkeeping in every accessor and in subset creation; no buildable test covers it.",
     ["common/ParameterSetImpl.cc", "common/ParameterSet.h", "base/DP3.cc"],
     [M("asked-keys bookkeeping in get/isDefined/makeSubset, unusedKeys", "common/ParameterSetImpl.cc")],
     technique="explicit-state exploration of operation histories against a reference of asked keys")

prop("C08", "String helpers: split, skip quoted/balanced text, compare and wildcards",
     "For all texts: splitting at delimiters returns exactly the maximal delimiter-free pieces in order, and skipping white space, a quoted string or a balanced bracketed part stops exactly behind it, with an error for an unterminated one. Case-sensitive and case-insensitive comparison are strict weak orders, the latter identifying exactly texts equal up to case. A wildcard pattern matches exactly the names the shell-style pattern denotes, and formatted text is complete for any length.",
     ["inputs"], "all strings up to a length over small alphabets that include delimiters, brackets, wildcards and regex metacharacters, all pairs/triples for the ordering",
     "Edge cases are empty pieces, metacharacters, and ordering of near-equal strings; tests sample a few.",
     ["common/StringTools.h", "common/StringTools.cc"],
     [M("tokenize, ltrim/rtrim, toUpper/toLower, Compare, skip functions", "common/StringTools.cc")],
     technique="exhaustive enumeration of short strings against reference definitions")

# ---------------------------------------------------- pipeline bookkeeping ----
prop("C09", "Field requirements propagate soundly through every step chain",
     "For every chain of processing steps with any requirements and outputs, the data fields asked from the input contain every field some step needs and no earlier step provides, and contain no other field. Combining field sets is an idempotent, commutative and associative union, and the printed form lists exactly the members.",
     ["configurations", "programs"], "all chains up to a length over all requirement/provision combinations of the field kinds",
     "A missing or superfluous field only shows for a particular order of steps; tests combine two sets.",
     ["common/Fields.h", "common/Fields.cc", "base/DP3.cc", "steps/Step.h"],
     [M("Fields::UpdateRequirements and operators", "common/Fields.h"), M("GetChainRequiredFields / SetChainProvidedFields", "base/DP3.cc")],
     technique="exhaustive enumeration of step chains against a backward data-flow reference")

prop("C19", "Baseline numbering is a bijection",
     "For every number of antennas and both orderings, the baseline index maps the antenna pairs (autocorrelations included) one-to-one onto the numbers from zero up to the number of baselines, the inverse mapping returns the same pair, the order of the two antennas does not matter, and the list of baselines of one antenna is exactly the baselines that contain it, ordered by the other antenna.",
     ["inputs"], "all antenna counts up to a bound (beyond real arrays), all antenna pairs, both orderings",
     "An arithmetic slip may only show for particular counts (rounding in the inverse); tests check small fixed arrays.",
     ["common/baseline_indices.h"],
     [M("ComputeNBaselines, ComputeBaselineIndex, ComputeBaseline, ComputeBaselineList", "common/baseline_indices.h")],
     technique="exhaustive enumeration of antenna counts and pairs on the real functions")

# ---------------------------------------------------------- calibration ----
prop("C10", "Solutions resampled to another interval layout keep their values",
     "For every set of per-direction numbers of solutions in a solution interval, resampling to the common time grid gives every output slot exactly the solution of the direction's sub-interval that covers it, for every antenna, direction, polarization and channel block. The common grid has a number of slots that is a multiple of every direction's number of solutions.",
     ["inputs", "configurations"], "all small shapes: solutions per direction, directions, antennas, polarizations, intervals, channel blocks",
     "Index arithmetic over five dimensions; tests use one or two shapes.",
     ["ddecal/SolutionResampler.cc", "ddecal/SolutionResampler.h"],
     [M("SolutionResampler::Upsample", "ddecal/SolutionResampler.cc")],
     technique="exhaustive enumeration of shapes with uniquely labelled solutions against the definition")

prop("C11", "Linear solvers return the least-squares solution on every (re)use",
     "For every full-rank system with at least as many equations as unknowns and any number of right-hand sides, each linear solver kind returns the least-squares solution and reports success, the kinds agree with each other, and a solver object gives the same answer however often and in whatever order it was used before. Solver names are parsed case-insensitively to exactly their kinds and unknown names are errors.",
     ["inputs", "histories"], "all small integer systems up to a size, all right-hand-side counts, and sequences of solves on one solver object",
     "Workspace reuse and leading dimensions only matter for particular sequences and shapes; tests solve a few fixed systems.",
     ["ddecal/linear_solvers/LLSSolver.cc", "ddecal/linear_solvers/LLSSolver.h", "ddecal/linear_solvers/QRSolver.h", "ddecal/linear_solvers/SVDSolver.h", "ddecal/linear_solvers/NormalEquationsSolver.h"],
     [M("Solve of each solver, Make, ParseType, ToString", "ddecal/linear_solvers")],
     technique="exhaustive enumeration of small Gaussian-integer systems and solve histories against a reference normal-equation solution in higher precision")

prop("C12", "Kernel smoothing is a weighted average over the bandwidth",
     "For every kernel kind, bandwidth, frequency layout and weight pattern, each smoothed value is a weighted average of samples whose influence is proportional to their weight and the documented kernel shape within half the bandwidth: constants are preserved, samples with zero weight or outside the kernel's support have no influence, and the operation is linear in the data. A smoothed value is finite wherever a weighted sample is inside the window.",
     ["inputs", "configurations"], "all kernels, grids of bandwidths and frequency spacings, all 0/1 (and graded) weight patterns and unit impulses up to a channel count",
     "The window slides with two moving ends; errors show for specific bandwidth/channel ratios and weight patterns.",
     ["ddecal/constraints/KernelSmoother.h"],
     [M("KernelSmoother::Smooth and Kernel", "ddecal/constraints/KernelSmoother.h")],
     technique="exhaustive enumeration of channel layouts, weights and impulses against the weighted-average definition")

prop("C13", "TEC phase fitting recovers the model behind the data",
     "For every frequency layout whose search steps resolve the phase (such as the high band), channel weights and TEC value (and common phase offset for the two-parameter model) within the search range, fitting noiseless model phases, wrapped by any multiples of a full turn, recovers the parameters up to the stated precision whatever the parameters passed in were. The replaced phases equal the model at those parameters, the reported cost is the weighted distance to that model, and channels with zero weight have no influence.",
     ["inputs"], "a grid over the whole parameter range, channel layouts, weight patterns and wrap patterns",
     "Wrap and local-minimum errors only show for particular parameter ranges; the fitter is compiled but not tested here.",
     ["base/PhaseFitter.cc", "base/PhaseFitter.h"],
     [M("FitDataToTEC1Model, FitDataToTEC2Model, TEC1/TEC2 model costs", "base/PhaseFitter.cc")],
     technique="exhaustive enumeration of parameter/weight/wrap grids through the real fitter against the generating model")

prop("C14", "TEC, offset and delay fitting recovers the model behind the data",
     "For every combination of TEC, phase offset and delay within the search range, channel layout and weights, fitting noiseless wrapped model phases gives a model that reproduces the phases of every weighted channel modulo a full turn, with either fitting method and, as far as a search position leaves less than half a turn of residual, also when the offset is excluded. Linear fits of unwrapped phases recover the parameters exactly. Evaluating a fit always gives the equivalent phases in the principal range.",
     ["inputs"], "a grid over parameters, channel layouts, weight patterns and wrap patterns",
     "The grid search followed by a linear solve fails only for particular parameter combinations; it is compiled but not tested here.",
     ["ddecal/constraints/TecOffsetDelayFitting.cc", "ddecal/constraints/TecOffsetDelayFitting.h"],
     [M("TecOffsetDelayGridSearch, linear and gradient solves, evaluation", "ddecal/constraints/TecOffsetDelayFitting.cc")],
     technique="exhaustive enumeration of parameter/weight/wrap grids through the real fitter against the generating model")

prop("C15", "Applying station gains multiplies each baseline by its two stations' gains",
     "For every set of baselines, channels, visibilities and 2x2 station gains, applying the gains replaces every cross-correlation visibility matrix by gain of the first station times visibility times conjugate transpose of the gain of the second station, changes nothing else, leaves autocorrelations untouched, and respects any memory layout of the data.",
     ["inputs", "configurations"], "all small baseline lists including autocorrelations and repeated/reversed pairs, unit-impulse gains and data over a Gaussian-integer alphabet, several strides",
     "Index or conjugation mistakes can cancel for symmetric data; the routine is compiled but not tested here.",
     ["base/Apply.cc", "base/Apply.h", "base/Cursor.h"],
     [M("apply over strided cursors", "base/Apply.cc")],
     technique="exhaustive enumeration of baseline lists and unit impulses against exact complex-integer matrix products")

prop("C16", "Subtracting a model removes exactly the mixed, weighted model",
     "For every baseline list, channel count and memory layout, subtracting a source's model subtracts from each cross-correlation visibility exactly the model value times its mixing weight for each of the four correlations, and touches neither autocorrelations nor any other element. The reported variances are the summed squared amplitudes of the parallel-hand correlations of the cross-correlation baselines before and after, not-a-number values skipped. Processing channels in any partition gives the same result as in one go.",
     ["inputs", "configurations"], "all small baseline lists, strides and channel counts with uniquely labelled data, model and weights",
     "Cursor stepping errors only show for particular strides, autocorrelation positions and channel counts.",
     ["base/SubtractMixed.cc", "base/SubtractMixed.h", "base/Cursor.h"],
     [M("subtract over strided cursors", "base/SubtractMixed.cc")],
     technique="exhaustive enumeration of layouts with uniquely labelled data against direct indexing")

prop("C17", "Byte-order and flag-bit conversions are exact inverses",
     "For every value of every supported type, converting between byte orders twice gives the original, and in-place and copying conversion agree and reverse exactly the bytes of each element. Converting a non-empty list of flags to packed bits and back, from any start bit, gives the original flags, reports the number of bytes used, and changes no bits before the start or bytes beyond the end.",
     ["inputs"], "all 16-bit values, all single-byte patterns per position for wider types, all flag patterns and start bits up to a length",
     "Bit offsets interact with lengths modulo eight; compiled but untested here.",
     ["common/DataConvert.cc", "common/DataConvert.h", "common/DataFormat.h"],
     [M("byteSwap*/dataConvert*, boolToBit, bitToBool", "common/DataConvert.cc")],
     technique="exhaustive enumeration of element values, lengths, offsets and flag patterns")

prop("C18", "Cluster descriptions survive writing and give the file's file system",
     "For every cluster node description, writing it and reading it back gives the same node, and an inconsistent description is an error. The file system of any file is that of the longest mount point that is a proper path prefix of the file name, with the root mount as last resort. Only a leading automount directory is dropped from a mount point.",
     ["inputs"], "all small sets of file systems and mount points in every order, and all short paths over them",
     "Prefix/longest-match slips only show for particular mount sets; compiled but untested here.",
     ["common/NodeDesc.cc", "common/NodeDesc.h"],
     [M("NodeDesc parset constructor, write, findFileSys", "common/NodeDesc.cc")],
     technique="exhaustive enumeration of mount sets and paths against a reference longest-prefix search")

prop("C20", "Median and elapsed-time bookkeeping are exact",
     "For every non-empty sequence the median equals the middle value of the sorted sequence (mean of the two middle values for even lengths), whatever the order. After any history of starting, stopping and resetting, a timer's total, count and average equal those of the measured intervals. A printed value with unit denotes the value within the requested precision.",
     ["inputs", "histories"], "all sequences up to a length over a small alphabet in all orders, all timer operation histories up to a depth over a controlled clock, a boundary grid of printed values",
     "Ties, parity and orders multiply; tests sample a few.",
     ["common/Median.h", "common/Timer.h", "common/PrettyUnits.cc"],
     [M("Median, NSTimer, ScopedMicroSecondAccumulator", "common/Median.h, common/Timer.h")],
     technique="exhaustive enumeration of sequences and timer histories (mocked clock) against sorting / exact sums")

prop("C21", "Sky-model components give the right flux, description and patch direction",
     "For every point or Gaussian component, the flux at any frequency follows its logarithmic or ordinary spectral polynomial and rotation measure, and the reference flux is never changed by asking. Describing components one after another always gives exactly the current component's position, flux, spectrum (absent terms zero) and shape, and refuses spectra that do not fit. A patch points in the direction of the average of its components' unit vectors, independent of their order.",
     ["inputs", "histories"], "all spectra up to a number of terms over a value grid, all inspection histories up to a depth, all patches up to a size on a grid of directions",
     "Stale state of a reused description object and polynomial-order slips only show for particular sequences and term counts; compiled but untested here.",
     ["base/PointSource.cc", "base/PointSource.h", "base/GaussianSource.cc", "base/ComponentInfo.cc", "sky_model/Patch.cc", "base/Stokes.cc"],
     [M("PointSource::stokes", "base/PointSource.cc"), M("ComponentInfo::inspect", "base/ComponentInfo.cc"), M("Patch::ComputeDirection", "sky_model/Patch.cc")],
     technique="exhaustive enumeration of spectra, inspection histories and direction multisets on the real classes against the defining formulas")

prop("C22", "Calibration and receiver modes: names, numbers and tables agree",
     "Every documented calibration mode name gives its mode, every mode prints as a name that gives the mode back, every other text is an error, and the number of correlations of each mode is that of its solution matrix. Every receiver mode number in range gives the mode with the published band, antenna type, subband width, centre and Nyquist-zone offset, and every other number is an error.",
     ["inputs"], "all modes, all documented names, all single edits and concatenations of names, all numbers around the valid range and around powers of two",
     "A slip in one table entry is only visible for that entry; tests cover part of the receiver table and none of the calibration modes.",
     ["base/CalType.cc", "base/CalType.h", "base/RcuMode.h"],
     [M("StringToCalType / ToString / GetNPolarizations", "base/CalType.cc, base/CalType.h"), M("RcuMode tables", "base/RcuMode.h")],
     technique="exhaustive enumeration of the complete mode tables and the edit neighbourhood of all names")

prop("C23", "Direction-dependent calibration settings mean what was asked",
     "For every parameter set, the calibration settings hold for each documented key under the step's prefix exactly the given value or the documented default, keys that only apply to some modes or algorithms take effect only there, and an invalid mode, algorithm, smoothness or solution-interval list is refused. Sub-solutions per direction and smoothness factors are derived exactly from the given lists, and each direction that matches a reuse pattern is reused once under its name without prefix while a pattern matching nothing is an error. A misspelled key is reported as unused.",
     ["inputs"], "every documented key in every mode and algorithm, all pairs of keys, all sub-solution lists and all sets of patterns and directions up to a size",
     "About sixty keys interact with 19 modes and 6 algorithms; tests fix one value per key and are not in the buildable set.",
     ["ddecal/Settings.cc", "ddecal/Settings.h"],
     [M("Settings::Settings, PrepareSubSolutionsPerDirection, GetReusedDirections", "ddecal/Settings.cc")],
     technique="exhaustive enumeration of key/mode/algorithm combinations on the real settings class against a table of documented defaults")

prop("C24", "Parameter axes, grids and boxes behave as sets of cells",
     "For every axis of disjoint cells (regular or not, with gaps or not), finding a coordinate gives the cell that contains it, and sub-axes, compressed axes and unions denote exactly the selected, merged or united cells; axes whose overlapping cells differ are refused. A two-dimensional grid numbers its cells consistently, splits into and is rebuilt from its cells without loss, and a mapping from one grid to another names the cell containing each centre. Intersection, union, containment and equality of boxes are those of the rectangles they denote.",
     ["inputs", "histories"], "all axes, pairs of axes, grids and pairs of boxes on a small lattice, in several coordinate systems, with every search position, hint and selection",
     "Off-by-one errors at cell borders and gaps show only for particular pairs of axes; no test in the buildable set touches these classes.",
     ["parmdb/Axis.cc", "parmdb/Axis.h", "parmdb/AxisMapping.cc", "parmdb/Grid.cc", "parmdb/Box.cc", "parmdb/Box.h"],
     [M("Axis::find/subset/compress/combine/makeAxis", "parmdb/Axis.cc"), M("Grid cell arithmetic, toDomains", "parmdb/Grid.cc"), M("AxisMapping, GridMapping", "parmdb/AxisMapping.cc"), M("Box", "parmdb/Box.h")],
     technique="exhaustive enumeration of lattice axes, grids and boxes on the real classes against a reference set-of-cells model")

prop("C25", "Observation information stays consistent under every history of updates",
     "After any sequence of setting times, channels and antennas, averaging, selecting channels or baselines and removing unused antennas, the observation information describes exactly the data that remain: number, centres and spacing of times, every channel's centre, width, resolution and bandwidth with their total, antenna names, diameters and positions, the antennas of every baseline and the used-antenna map. Derived baseline lengths, autocorrelation indices and regularity are those of the current antennas, baselines and channels, whether or not they were asked before a change. An input that does not fit (mismatched sizes, reversed times, selections out of range, a channel factor that does not divide) is refused with an error and changes nothing.",
     ["histories"], "all sequences of updates up to a depth over a fixed alphabet, with and without inspection between the updates",
     "Cached and derived fields only go stale on particular orders of updates; tests apply one update to a fresh object and are not in the buildable set.",
     ["base/DPInfo.h", "base/DPInfo.cc", "common/Epsilon.h"],
     [M("update, SelectChannels, SelectBaselines, RemoveUnusedAntennas, setAntennas, setChannels, setTimes", "base/DPInfo.cc"), M("mutable caches getBaselineLengths, getAutoCorrIndex", "base/DPInfo.cc")],
     technique="explicit-state exploration of update histories on the real class against a plain reference record")

prop("C26", "Time-slot buffers keep their contents apart under every history",
     "After any sequence of assigning, copying, moving, partially copying (with any set of fields) and swapping parts of time-slot buffers, adding, filling, copying, moving and removing named visibilities, and storing solutions, every buffer holds exactly the values last put into it: copies are independent of their source, moves transfer everything, and only the requested fields are copied. The names of the visibilities are exactly those present, and asking for absent visibilities or an absent solution direction is an error. Solutions stored for several directions come back per direction with antennas, channels and polarizations in their places.",
     ["histories"], "all sequences of operations on two buffers up to a depth, from empty and filled buffers, both buffers compared after every step",
     "Aliasing and lost parts only show on particular sequences of copies and moves; steps rely on all of them, tests sample a few and are not in the buildable set.",
     ["base/DPBuffer.h", "base/DPBuffer.cc", "common/Fields.h"],
     [M("copy/move construction and assignment, Copy, CopyData, MoveData, SetSolution, GetSolution", "base/DPBuffer.cc")],
     technique="explicit-state exploration of operation histories on the real class against a value model")

prop("C27", "Baseline-averaged buffers keep rows, values and capacity consistent",
     "After any sequence of adding rows, adding, removing, renaming and moving named visibilities, copying with any set of fields and clearing, a baseline-dependent buffer holds exactly the rows added in order, and the visibilities, flags and weights of each row, by row or as a whole, are the values given for it or zero when none were given. A row that does not fit leaves the buffer unchanged and returns false, a row that ends before the last row starts is an error, and the used and remaining capacity always add up to the capacity. Fields that are not enabled are absent, and a field added later gives every row its own place.",
     ["histories"], "all sequences of operations on two buffers up to a depth, for all sets of enabled fields",
     "Offsets of rows depend on the order in which fields and rows are added; tests use one order, and are not in the buildable set.",
     ["base/BdaBuffer.h", "base/BdaBuffer.cc"],
     [M("AddRow, AddData, MoveData, copy constructor, Clear", "base/BdaBuffer.cc"), M("row offsets into the memory pools", "base/BdaBuffer.h")],
     technique="explicit-state exploration of operation histories on the real class against a list-of-rows model")

prop("C28", "Averaging in time and frequency keeps the weighted mean and the weights",
     "For every number of channels and time slots, averaging factors, weights and flags, each output point is the mean of the unflagged input points of its block weighted by their weights and carries the sum of those weights; a block with too few unflagged points (none, fewer than the given number or percentage) is flagged and keeps the weighted mean and the weights of all its points. Time, exposure, uvw and the description of the output belong to the averaged slots, a last incomplete block comes out at the end, and every input slot is used exactly once. A factor given as a resolution is the nearest whole number of channels or slots, a factor that does not divide the channels is refused, and the number of threads or the order of their work changes nothing.",
     ["inputs", "schedules"], "all flag patterns of blocks up to a number of points, for all factors, weight patterns and minimum settings, under several orders of the parallel loop",
     "The result depends on combinations of flags, zero weights and partial blocks; tests take a few of them and cannot be built here.",
     ["steps/Averager.h", "steps/Averager.cc", "base/DPInfo.cc"],
     [M("process, average, finish, getFreqHz", "steps/Averager.cc"), M("update of the information", "base/DPInfo.cc")],
     technique="exhaustive enumeration of flag patterns and settings on the real step against a direct weighted mean")

prop("C29", "Steps that change values change exactly the values they name",
     "Removing Stokes parameters sets exactly the selected ones to zero for every point and keeps the others, and data without four correlations are refused. Scaling multiplies each visibility by the factor that the polynomials of its two stations have at the frequency of its channel, including averaged channels of baseline-dependent data, with later station patterns taking precedence as documented. Adding or subtracting a named buffer is exact addition or subtraction and everything a step does not provide comes out as it went in.",
     ["inputs"], "all settings with all visibilities of a value grid, all lists of station patterns and polynomials up to a length, all shapes up to a size, for time slots and baseline-dependent rows",
     "A wrong sign, station or channel shows only for particular combinations of settings and values; tests use one and cannot be built here.",
     ["steps/NullStokes.cc", "steps/ScaleData.cc", "steps/Combine.cc"],
     [M("NullStokes::process", "steps/NullStokes.cc"), M("ScaleData::updateInfo, process", "steps/ScaleData.cc"), M("Combine::process", "steps/Combine.cc")],
     technique="exhaustive enumeration of settings and value grids on the real steps against the defining formulas")

prop("C30", "Moving the phase centre gives the visibilities of the new centre",
     "For any set of sources, shifting visibilities from any phase centre to any other gives the visibilities and uvw coordinates the same sources have with respect to the new centre, for every baseline, channel, correlation and time slot. An empty centre means the original one, the output information names the new centre and keeps the original, and shifting back restores the input. Flags and weights are untouched, and the number of threads or the order of their work changes nothing.",
     ["inputs", "schedules"], "all pairs of centres on a sky grid (including the pole and the wrap of right ascension), with sets of sources, forms of writing the centre, shapes and orders of the parallel loop",
     "Sign and rotation errors cancel for particular pairs of centres, for a single source or for w=0; tests use two centres and cannot be built here.",
     ["steps/PhaseShift.cc", "steps/PhaseShift.h"],
     [M("PhaseShift::updateInfo, process, handleCenter", "steps/PhaseShift.cc")],
     technique="exhaustive enumeration of centre pairs and source sets on the real step against the measurement equation")

prop("C31", "Preflagging flags exactly the points its selection expression names",
     "For every combination of criteria (baseline lists, correlation types and lengths, uv range, time of day, absolute and relative time, time slot, channels, frequencies, amplitude, phase, real and imaginary part, invalid values) a point is selected if and only if it meets every criterion given, and for every expression over sets of criteria if and only if the boolean expression (not, and, or with their precedence, parentheses) is true for it; a criterion that matches nothing selects nothing. In the modes set, clear, set-complement and clear-complement exactly the flags of the selected (or not selected) points change, all correlations of a point together, and everything else is passed on untouched. Malformed criteria and expressions are refused.",
     ["inputs"], "every criterion alone, all pairs and many triples of criteria in all modes, all expressions up to a length in all spellings, for data with flagged and invalid points over midnight",
     "A criterion that silently matches all or nothing destroys or keeps data; criteria interact through shortcuts (flag on time only, on channel only) that show only for combinations. The tests cannot be built here.",
     ["steps/PreFlagger.cc", "steps/PreFlagger.h", "base/BaselineSelection.cc"],
     [M("PSet::updateInfo, process, expression parsing (convert)", "steps/PreFlagger.cc"), M("BaselineSelection::apply", "base/BaselineSelection.cc")],
     technique="exhaustive enumeration of criteria and expressions on the real step against point-wise evaluation")

prop("C32", "Flagging on uvw coordinates flags exactly the points inside the ranges",
     "For every set of ranges, minima and maxima of the uv distance, u, v and w in metres or wavelengths, a point is flagged if its coordinate (in wavelengths: that of its own channel, also for baseline-dependent channels) lies in one of the ranges, and its flags are otherwise unchanged. With another phase centre, given as a source, a direction or a direction of a certain type, the coordinates with respect to exactly that centre, time and pair of stations count instead of those of the data. Without criteria the step needs and does nothing; the reported number of newly flagged points is right, and malformed ranges or centres are refused.",
     ["inputs"], "every criterion alone in all settings, all pairs and many triples, for regular and baseline-dependent data",
     "Squared limits, negative limits, wavelengths per baseline and earlier flags interact; a test fixes one range. The tests cannot be built here.",
     ["steps/UVWFlagger.cc", "steps/UVWFlagger.h"],
     [M("fillUVW, doFlag, testUVWm, testUVWl, handleCenter", "steps/UVWFlagger.cc")],
     technique="exhaustive enumeration of ranges and settings on the real step against the defining inequality")

prop("C33", "Median flagging flags exactly the outliers of each window",
     "For every window in time and frequency (also depending on the baseline length), threshold, list of correlations, baseline selection and set of already flagged points, a point is flagged if and only if it was flagged for a chosen correlation or its amplitude exceeds the median of the unflagged amplitudes in the window around it by more than the threshold times the scaled median deviation; windows are mirrored at the ends of the data, and with autocorrelations applied every cross-correlation gets the flags of its stations. All time slots come out once and in order, also when there are fewer than the window holds or none at all, and the number of threads changes nothing.",
     ["inputs", "schedules"], "all window pairs, numbers of time slots and channels, flag patterns of blocks up to a number of points, under several orders of the parallel loop",
     "The ring of buffered time slots, the mirrored ends and the reused work buffers only go wrong for particular numbers of slots, windows and flags; the tests cannot be built here.",
     ["steps/MadFlagger.cc", "steps/MadFlagger.h", "common/Median.h"],
     [M("process, finish, flag, flagBaseline, computeFactors", "steps/MadFlagger.cc")],
     technique="exhaustive enumeration of windows and flag patterns on the real step against a direct median")

prop("C34", "Selections keep exactly the selected data; the clipper flags only those",
     "For every baseline list, correlation type, length range and channel range, a filter passes on exactly the selected baselines and channels with their visibilities, flags, weights, uvw and row numbers, in order, and describes exactly those to the following steps (frequencies, stations, lengths, renumbered stations when unused ones are removed); filters in a row act one after the other, and a selection of nothing is refused. The clipper flags, for the selected baselines only and in every time slot (with or without row numbers), the points for which the prediction at the last predicted slot and channel exceeds the limit, for one or all correlations, and changes nothing else.",
     ["inputs", "histories"], "all combinations of selections, shapes and baseline orders; all time and frequency steps, selections and amplitude patterns over several time slots",
     "Selection mistakes mislabel data without any error and depend on combinations of baseline and channel selections; the tests cannot be built here.",
     ["steps/Filter.cc", "steps/Filter.h", "base/BaselineSelection.cc", "steps/Clipper.cc", "base/DPInfo.cc"],
     [M("Filter::updateInfo, process", "steps/Filter.cc"), M("SelectChannels, SelectBaselines, RemoveUnusedAntennas", "base/DPInfo.cc"), M("BaselineSelection::apply", "base/BaselineSelection.cc"), M("Clipper::process", "steps/Clipper.cc")],
     technique="exhaustive enumeration of selections on the real steps against direct selection")

prop("C35", "The steps named by the parameters run in order, fed and finished as wired",
     "For every list of steps, each name makes the step of its type (by the name, the name with digits or the 'type' key, in any case) with its own parameter prefix, in the given order, with an update or output step where the output parameters ask for it, and unknown types and steps that do not accept the kind of data before them are refused, the first step included. Each step is asked to provide, and the reader to read, exactly the fields that some later step needs before another one provides them, also over the branches of a split, and output steps are told which fields were changed. Running passes every time slot through the chain until the input ends, finishes each step once, shows counts and timings as requested, reports unused parameters and turns errors into a failing exit status of the command.",
     ["inputs", "histories"], "all step lists up to a depth over representative steps with all output settings, all combinations of required and provided fields around an output step, all splits",
     "The number of step lists is unlimited and field and kind mistakes depend on combinations of neighbours; the tests that run chains need measurement sets, which cannot be read here.",
     ["base/DP3.cc", "steps/Split.cc", "steps/Step.cc", "steps/Step.h", "base/ProgressMeter.cc"],
     [M("MakeSingleStep, MakeStepsFromParset, MakeMainSteps, SetChainProvidedFields, GetChainRequiredFields, ExecuteFromCommandLine", "base/DP3.cc"), M("Split", "steps/Split.cc")],
     technique="exhaustive enumeration of step lists: the real chain construction and execution with recording stand-in steps, against a model of the chain")

prop("C36", "Steps depend only on required fields, change only provided ones",
     "For each step that processes data, the fields it provides and the fields it requires come out the same whatever the other fields contain, even if they are absent; fields it does not provide (visibilities, flags, weights, uvw), the time, row numbers, solutions and other named visibilities pass unchanged, since the reader and the writers skip the fields that no step claims. A step takes the kinds of data (regular, baseline-dependent averaged) it says it accepts, passes on the kind it announces, and lets the next step finish exactly once, after the last output.",
     ["inputs", "histories"], "all subsets of present fields and contents of the fields that are not required, for over 200 configurations of 18 steps and several numbers of time slots",
     "A wrong declaration loses flags or reads missing data only in chains whose other steps do not need the same field; no test combines a step with every set of present fields.",
     ["steps/Step.h", "steps/MadFlagger.h", "steps/PreFlagger.h", "steps/UVWFlagger.h", "steps/AntennaFlagger.h", "steps/Averager.h", "steps/Upsample.h", "steps/Interpolate.h", "steps/StationAdder.h", "steps/Filter.h", "steps/BDAAverager.h", "steps/BdaExpander.h", "steps/Combine.h", "steps/ScaleData.h", "steps/NullStokes.h", "steps/PhaseShift.h", "steps/SetBeam.h", "steps/Counter.h", "steps/DummyStep.h"],
     [M("getRequiredFields, getProvidedFields, accepts, outputs of each step", "steps/Step.h"), M("finish", "steps/SetBeam.h")],
     technique="exhaustive enumeration of present fields and contents on the real steps, compared with the run on complete data")

prop("C37", "Baseline-dependent averaging keeps means and weights and expands back",
     "For every set of baselines and settings, each baseline is averaged by the number of slots and channels its length calls for (never less than one nor more than the limits given), each row holds the weighted mean of the unflagged input, the sum of its weights, a flag where all input was flagged, and the mean uvw, time, interval and exposure of its slots; rows come in the order in which they get complete, partial ones at the end, in buffers of the requested sizes. Expanding gives back every time slot and channel with the averaged values and evenly divided weights, and averaging the expanded data with the same scheme gives the same rows.",
     ["inputs", "histories"], "all combinations of thresholds, limits, numbers of channels and slots, with flag, weight, baseline and buffer size patterns",
     "Results depend on the combination of baseline lengths, flags, partial intervals and uneven channel groups, of which tests take a few and which cannot be built here.",
     ["steps/BDAAverager.cc", "steps/BDAAverager.h", "steps/BdaExpander.cc", "base/BdaBuffer.cc", "base/DPInfo.cc"],
     [M("updateInfo, process, AddBaseline, finish", "steps/BDAAverager.cc"), M("updateInfo, process, CopyData", "steps/BdaExpander.cc")],
     technique="exhaustive enumeration of averaging settings and data patterns on the real steps against a direct weighted mean, and round trips")

prop("C38", "Upsampling spreads each integration over the right finer time slots",
     "For every factor and every regular or gapped series of integrations, each input becomes the given number of output slots that tile its interval exactly once and in order, with its visibilities, flags, weights and named data copied, equal exposure, and the uvw of its own slot when asked for; slots that two inputs overlap come out once, with the unflagged one's data. The description passed on has the finer interval, the number of slots and the first slot's time that the output really has, and finishing emits every slot not yet passed on exactly once before the next step finishes.",
     ["inputs", "histories"], "all factors, numbers of slots, gaps between integrations, flag patterns, extra data names and uvw settings up to a bound",
     "Which slots overlap, and what is still held back at the end, depends on the factor and the gaps; the tests have one factor and no time description and cannot be built here.",
     ["steps/Upsample.cc", "steps/Upsample.h"],
     [M("updateInfo, process, UpdateTimeCentroidExposureAndUvw, finish", "steps/Upsample.cc")],
     technique="exhaustive enumeration of integration series on the real step against direct placement of slots")

prop("C39", "Interpolation replaces exactly the flagged values by neighbours' mean",
     "For every window and pattern of flags, an unflagged value passes unchanged, and a flagged value becomes the weighted mean of the unflagged values of its own baseline and correlation inside the window around it in time and frequency (cut off at the edges of the data), or zero if the window has none; flags, weights, uvw and times are untouched. Values filled in earlier are never used to fill others; every slot comes out once and in order, also when the data are shorter than the window, and the order of the parallel loop changes nothing.",
     ["inputs", "schedules"], "all windows, numbers of slots and channels, and flag patterns of a block up to a number of points, under several orders of the parallel loop",
     "Windows clipped at both ends of time and frequency, fully flagged windows and data shorter than the window combine in ways that one test with a fixed pattern does not reach.",
     ["steps/Interpolate.cc", "steps/Interpolate.h", "common/buffered_lane.h"],
     [M("process, finish, interpolateTimestep, interpolateSample", "steps/Interpolate.cc")],
     technique="exhaustive enumeration of windows and flag patterns on the real step against a direct weighted mean")

prop("C40", "The solver gets each visibility in its own solution interval and block",
     "Every unflagged visibility of every interval, regular or baseline-dependent averaged, reaches the solver exactly once with its antennas, weighted data and model, channel block and the solution of each direction whose interval its middle falls in; a visibility that is flagged or not finite in any correlation, in the data or any model, counts as zero and nothing else changes. Intervals become complete exactly when every baseline has passed them, no matter how rows are divided over buffers, and the buffers come back unchanged, once and in order, with the model kept or dropped as asked and the solutions applied to the right rows and channels. Rows that arrive after their interval was solved are refused.",
     ["inputs", "histories"], "all averaging factors of three baselines, interval lengths, buffer divisions and single bad values of a block",
     "Rows of one interval come in different buffers and end at different times; the unit tests use one fixed layout in which interval, block and solution boundaries coincide.",
     ["ddecal/gain_solvers/SolveData.cc", "ddecal/gain_solvers/SolverTools.cc", "ddecal/gain_solvers/BdaSolverBuffer.cc"],
     [M("SolveData constructors, NSolutionVisibilities", "ddecal/gain_solvers/SolveData.cc"), M("AssignAndWeight, Weigh", "ddecal/gain_solvers/SolverTools.cc"), M("AppendAndWeight, AdvanceInterval, IntervalIsComplete, GetDone, ApplySolutions", "ddecal/gain_solvers/BdaSolverBuffer.cc")],
     technique="exhaustive enumeration of row layouts and bad values on the real buffers against a direct account of every visibility")
prop("C41", "Gain solvers take least-squares steps and report convergence truthfully",
     "Each iteration of every gain solver moves each antenna's solution by the step size towards the least squares solution given the other antennas, directions and intervals; data made from true solutions keep them, and a solver that reports convergence reproduces noise-free data. Antennas, intervals and blocks without data get no solution but do not disturb the others, and the result does not depend on threads, loop order, other channel blocks or what was solved before. Iterations stop exactly at convergence with satisfied constraints, a stall or the maximum; constraints are prepared and applied in order every iteration, and the stages of a hybrid solver share its iterations.",
     ["inputs", "schedules", "histories"], "all solvers on every combination of small problems: solutions per direction, channel blocks, flags, averaging, step sizes and thread numbers; all histories of convergence, constraints and stages up to a length",
     "The solver tests solve one well-behaved data set; solvers that never converge, read another block's solutions or fail on a block without data pass them.",
     ["ddecal/gain_solvers/SolverBase.cc", "ddecal/gain_solvers/ScalarSolver.cc", "ddecal/gain_solvers/DiagonalSolver.cc", "ddecal/gain_solvers/FullJonesSolver.cc", "ddecal/gain_solvers/IterativeScalarSolver.cc", "ddecal/gain_solvers/IterativeDiagonalSolver.cc", "ddecal/gain_solvers/IterativeFullJonesSolver.cc", "ddecal/gain_solvers/DiagonalLowRankSolver.cc", "ddecal/gain_solvers/DiagonalAntennaSolver.cc", "ddecal/gain_solvers/HybridSolver.cc"],
     [M("Solve, PerformIteration", "ddecal/gain_solvers/IterativeDiagonalSolver.cc"), M("Step, AssignSolutions, MakeSolutionsFinite, ApplyConstraints, DetectStall", "ddecal/gain_solvers/SolverBase.cc"), M("RunSolver", "ddecal/gain_solvers/HybridSolver.cc")],
     technique="exhaustive enumeration of small calibration problems and iteration histories on the real solvers against direct least squares and a reference protocol")

prop("C42", "Constraints project each solution onto their model and keep the others",
     "For all solutions, directions with any number of sub solutions, channel blocks and patterns of missing values, each calibration constraint replaces the solutions by its model (mean over antennas or intervals, clipped amplitude, phase reference, leakage, rotation with or without diagonal, Faraday rotation, TEC with offset or delay, smooth over frequency) fitted to exactly the present values of that antenna, sub solution and polarization, with its own weights. Data that obey the model pass unchanged and applying it twice changes nothing; a missing value neither becomes a made-up solution nor disturbs others. The reported values and weights describe the solutions left behind, and neither threads nor earlier use change them.",
     ["inputs", "schedules"], "all constraints with all modes, references and layouts of sub solutions on patterns of missing values and true models; all lines, pieces, medians and unwraps of a grid",
     "Sub solutions, weights and missing values index different dimensions that coincide in the unit tests (one direction, equal weights, nothing missing).",
     ["ddecal/constraints/" + f for f in ("AmplitudeOnlyConstraint.h", "AntennaConstraint.h", "AntennaIntervalConstraint.cc", "FaradayConstraint.cc", "PolarizationLeakageConstraint.cc", "RotationConstraint.cc", "RotationAndDiagonalConstraint.cc", "SmoothnessConstraint.cc", "KernelSmoother.h", "TecConstraint.cc", "TecOffsetDelayConstraint.cc", "PieceWisePhaseFitter.h")] + ["common/PhaseLineFitter.h"],
     [M("Apply, SetWeights, SetSubSolutionWeights, GetResult", "ddecal/constraints/RotationAndDiagonalConstraint.cc"), M("PerformFit, Apply", "ddecal/constraints/FaradayConstraint.cc"), M("FitSlope", "common/PhaseLineFitter.h"), M("PieceWiseFit, WeightedMedian", "ddecal/constraints/PieceWisePhaseFitter.h")],
     technique="exhaustive enumeration of solution layouts, missing values and models on the real constraints against direct projections")

prop("C43", "Settings give the solver, constraints and station values they ask for",
     "For every combination of mode, algorithm, kind of data, station groups and smoothing, the solver made is of the documented type (or refused when there is none), with the requested iterations (a sixth of them for the first hybrid stage), accuracies, step size and least squares method, and every stage has exactly the documented constraints in the documented order, which act as the settings and station positions prescribe. Values per station are those of the last item whose patterns select the station, and defaults otherwise; items without a proper number are refused. Core antennas are those within the distance of the first antenna, named groups have exactly the known names, and smoothing factors follow the distance to the reference antenna.",
     ["configurations", "inputs"], "all combinations of modes, algorithms, data kinds, groups and smoothings; all lists of up to two items over a set of patterns and values; all placements of up to four antennas on a grid",
     "One wrong entry in the tables that link settings to solvers, or a constraint that is skipped in one hybrid stage, only shows for that combination; the tests construct a few.",
     ["ddecal/SolverFactory.cc", "ddecal/Settings.cc", "common/ValuePerStationParsing.h"],
     [M("CreateSolver, AddConstraints, InitializeSolverConstraints, CalculateAntennaSmoothnessFactors", "ddecal/SolverFactory.cc"), M("ParseValuePerStation, AssignStationValues", "common/ValuePerStationParsing.h")],
     technique="exhaustive enumeration of settings and station lists on the real factory against a table of the documentation")

prop("C44", "Calibration solves every interval on its own data and passes all data on",
     "For every number of time slots, solution interval, source of the models, division into channel blocks and set of used antennas, each solve gets exactly the unflagged, weighted visibilities and models of its interval, the weights of its antennas, its average time, and starting values that follow the propagation settings and earlier convergence. All buffers come out once, in order, with data, models, flags, solutions and directions as the subtract, keepmodel, onlypredict and storebuffer settings prescribe, using the solutions of the antennas of each baseline. The solutions and constraint results of all intervals are written once, with the flags for unconverged solves.",
     ["inputs", "histories", "configurations"], "all combinations of numbers of slots and solution intervals, sources of models, outputs, flag patterns, failures to converge, antenna sets and channel blocks within the bounds",
     "Errors in the bookkeeping of intervals show for incomplete intervals, unused antennas, several intervals per prediction or after a failed solve; they change calibration results slightly without any failure.",
     ["steps/DDECal.cc", "steps/MultiResultStep.cc", "ddecal/gain_solvers/SolverTools.cc"],
     [M("DDECal::updateInfo, doPrepare, doSolve, InitializeSolutions, checkMinimumVisibilities, CorrectAndSubtractModels, SumModels, WriteSolutions", "steps/DDECal.cc")],
     technique="exhaustive enumeration of slot histories, settings and solver outcomes on the real step with a recording solver, and with the real solvers")

prop("C45", "Solution files hold each solution once at its own axes and can be started from",
     "For every mode, numbers of antennas, channel blocks, directions and solutions per direction, and every length of the observation, the solution file gets one table per quantity in which each value is stored at the time, frequency, antenna, direction and polarization for which it was solved, and every time slot of the observation is covered by exactly one solution time that is not beyond its end. Weights, axis names, history, antennas and sources are stored with the values, and missing constraint results are refused. Starting values that are read from such a file are the matrix elements of the solution that is nearest in direction, for the same antenna, frequency, time and polarization, whatever the number of polarizations on either side.",
     ["inputs", "configurations"], "all modes, table kinds, divisions of directions and time, numbers of antennas and channels and starting times within the bounds",
     "A solution that is written or read at the wrong index is applied to other data without any failure; the last solution disappears only for unlucky times.",
     ["ddecal/SolutionWriter.cc", "ddecal/SolutionResampler.cc", "ddecal/InitialSolutions.cc", "steps/DDECal.cc"],
     [M("SolutionWriter::Write, WriteSolverResults, WriteConstraintResults, GetSolutionTimes", "ddecal/SolutionWriter.cc"), M("InitialSolutions::Read, ReadJonesMatrix", "ddecal/InitialSolutions.cc"), M("DDECal::WriteSolutions", "steps/DDECal.cc")],
     technique="exhaustive enumeration of shapes, modes and times on the real writer and reader with an in-memory solution file, and on the whole calibration step with a recording solver")

prop("C46", "Calibration of BDA data solves every interval on its rows and passes all rows on",
     "For every averaging of the baselines in time and frequency, division of the rows over buffers, delay of the predicted models and set of used antennas, each solve gets exactly the unflagged, weighted rows whose centre lies in its interval, finite weights of its antennas, its time and its starting values. All buffers come out once, in order and with all rows, with data and models as the subtract, keepmodel and onlypredict settings prescribe, using the solutions of the interval, channel block and antennas of each row. The solutions of all intervals are written once, with the right length of an interval and end of the observation; rows that are longer than an interval are refused.",
     ["inputs", "histories", "configurations"], "all combinations of row histories, buffer sizes, averagings, sources of models, outputs, flag patterns and failures to converge within the bounds",
     "The order in which averaged rows complete differs per baseline and data set, and an interval is solved only when all baselines have passed it; errors show for certain divisions into buffers only.",
     ["steps/BdaDdeCal.cc", "ddecal/gain_solvers/BdaSolverBuffer.cc", "steps/BDAResultStep.h"],
     [M("BdaDdeCal::updateInfo, process, ExtractResults, ProcessCompleteDirections, SolveCurrentInterval, ProcessDone, finish, WriteSolutions", "steps/BdaDdeCal.cc")],
     technique="exhaustive enumeration of row and buffer histories, settings and solver outcomes on the real step with a recording solver")

prop("C47", "Parallel loops are race free and give the serial result under every schedule",
     "For every shape of the data, number of threads and division of a parallel loop over the threads, averaging, interpolation, MAD flagging, phase shifting, the gain solvers, the weighting of solver data and the TEC, delay, Faraday and smoothness constraints give the results that they give with one thread. No execution has a data race, a deadlock, a use of freed memory or a lock that stays held. Nested loops and several uses of the same object in a row keep this.",
     ["schedules", "inputs"], "all interleavings up to a preemption bound of the loop bodies on 2-4 threads, for small shapes, flag patterns and settings, with a happens-before check of every memory access in every explored schedule",
     "A test runs one schedule, mostly with one thread, and a race on scratch memory of a thread shows only with a certain timing.",
     ["steps/Averager.cc", "steps/Interpolate.cc", "steps/MadFlagger.cc", "steps/PhaseShift.cc", "ddecal/gain_solvers/IterativeScalarSolver.cc", "ddecal/gain_solvers/ScalarSolver.cc", "ddecal/constraints/TecConstraint.cc", "ddecal/constraints/FaradayConstraint.cc"],
     [M("scratch memory per thread in parallel loops, work handed out to threads", "steps/MadFlagger.cc"), M("loops over channel blocks and antennas, locks around shared sums", "ddecal/gain_solvers/IterativeScalarSolver.cc"), M("per-thread fitters and weights", "ddecal/constraints/TecConstraint.cc")],
     technique="stateless model checking of the real code under a controlled scheduler (thread pool on cooperative threads, compiler-instrumented memory accesses with vector clocks), against the one-thread execution")

prop("C48", "Flag counts shown or saved are those of the flags that were seen",
     "After any sequence of time slots, the percentages that the counter shows per baseline, antenna and channel and the total are those of the first correlation's flags in exactly the slots seen, for every layout of baselines, also when no slot was seen. The notes name exactly the stations, channels and fully flagged baselines that the settings ask for, and the JSON file has the fraction of every station. Counts added up from several counters are those of all of them.",
     ["inputs", "histories"], "all flag patterns of small shapes, layouts with unused antennas, autocorrelations and more antennas or channels than fit on a line, 0-3 time slots",
     "Tests count flags of a few buffers and do not read what is shown; errors show for certain layouts and numbers of antennas only.",
     ["base/FlagCounter.cc", "steps/Counter.cc"], [M("counts per baseline, channel and correlation; text and JSON", "base/FlagCounter.cc"), M("counting of the first correlation", "steps/Counter.cc")],
     technique="exhaustive enumeration of flag patterns and layouts on the real step against counts kept by the harness")

prop("C49", "New stations get the sums of the baselines of their parts",
     "For every set of baselines and definition of new stations, exactly the baselines between a new station and the other stations are added, and an autocorrelation when asked for. Their visibilities, weights and uvw coordinates are the weighted means or sums over the unflagged baselines of the parts, seen in the direction from the other to the new station, and points with too few contributions are flagged. Existing baselines stay as they are, positions and sizes enclose the parts, and a station in two definitions or a name that exists is refused.",
     ["inputs", "configurations"], "all small sets of baselines in every direction, definitions, settings and flag patterns",
     "Tests use one complete set of baselines in one direction without flags; errors show for certain directions, flags and chained stations only.",
     ["steps/StationAdder.cc"], [M("determination of the new baselines, sums in the right direction, flags of few points", "steps/StationAdder.cc")],
     technique="exhaustive enumeration of layouts, definitions, settings and flag sets on the real step against the definition")

prop("C50", "Antenna flagging flags exactly the baselines of the outlying antennas",
     "In every slot, exactly the baselines of the antennas are flagged whose standard deviation and power both deviate from the median of their station, or whose station deviates from the other stations in all parallel-hand correlations, by more than the given number of standard deviations in the given number of rounds. Data and earlier flags stay as they are, slots do not influence each other, and a set of baselines that is not complete and in a known order is refused. The numbers of baselines and their antennas are each other's inverse in both orders.",
     ["inputs", "configurations"], "all sets of bad antennas of small arrays, thresholds, rounds, orders of the baselines; all baseline numbers up to 150 antennas",
     "Tests use one array and pattern; errors show for certain antennas, orders and numbers of rounds only.",
     ["antennaflagger/Flagger.cc", "steps/AntennaFlagger.cc", "common/baseline_indices.h"], [M("statistics, outliers within and between stations", "antennaflagger/Flagger.cc"), M("flags of the baselines of an antenna", "steps/AntennaFlagger.cc")],
     technique="exhaustive enumeration of sets of bad antennas and settings on the real step against the definition")

# ------------------------------------------------------- not applicable ----
prop("N01", "MeasurementSets are read and written without loss",
     "For every MeasurementSet and every selection, the data, flags, weights, uvw coordinates, times and metadata that the reader passes to the steps are those in the set, and those that a writer or updater stores are those that the steps produced. Writing and reading back gives the same visibilities, and an update changes only the columns and rows it says it changes.",
     ["inputs", "crash_points"], "all small MeasurementSets with missing time slots, reordered baselines and flag patterns",
     "A test reads a few example sets.", ["steps/MsReader.cc", "steps/MSWriter.cc", "steps/MSUpdater.cc", "steps/MsColumnReader.cc", "steps/MSBDAWriter.cc"],
     [M("column and row bookkeeping on casacore tables", "steps/MsReader.cc")],
     na="Needs casacore's table system, which is not installed; the sources use it in nearly every statement, so that a stand-in would be what is verified. Missing slots, order and selection are covered as far as steps see them (C34, C35, C36).")
prop("N02", "Beam corrections apply the response that the beam model gives",
     "For every telescope, direction, time and frequency, applying a beam multiplies the visibility of a baseline by the responses of its two stations and undoing it gives the original back. The response is that of the requested mode and element.",
     ["inputs"], "all modes and telescopes over a grid of directions", "A test needs example sets with station tables.",
     ["steps/ApplyBeam.cc", "base/Telescope.cc"], [M("station responses", "steps/ApplyBeam.cc")],
     na="Needs EveryBeam and its coefficient files, which are not installed; the multiplication by two stations' matrices is covered by C15.")
prop("N03", "Image-domain prediction equals the direct transform of the image",
     "For every image, facet and uvw coordinate, the visibilities predicted from the image by image-domain or w-gridding equal the direct Fourier transform of its pixels within the accuracy of the gridder. Every baseline and channel is predicted once.",
     ["inputs"], "all small images and facets", "A test compares a few sources.",
     ["steps/IDGPredict.cc", "steps/IDGImager.cc", "steps/WGridderPredict.cc", "steps/SagecalPredict.cc"], [M("gridding", "steps/IDGPredict.cc")],
     na="Needs IDG, ducc0 and libdirac, which are not installed; the result is that of the missing library.")
prop("N04", "Automatic flagging flags what the strategy detects, window by window",
     "For every sequence of time slots, the flags set are those that the strategy gives on the window of each slot and its overlap, each slot is passed on once with its data unchanged, and flags set before remain. The result does not depend on the number of threads.",
     ["inputs", "schedules"], "all lengths of the input relative to window and overlap", "A test uses one length.",
     ["steps/AOFlaggerStep.cc"], [M("window bookkeeping around aoflagger", "steps/AOFlaggerStep.cc")],
     na="Needs AOFlagger and its Lua strategies, which are not installed. The comparable window bookkeeping of the MAD flagger is covered by C33.")
prop("N05", "GPU solvers give the solutions of the CPU solvers",
     "For every problem, the CUDA solver gives the solutions of the iterative solver within rounding. Data that are kept on the host or on the device give the same result.",
     ["inputs", "schedules"], "all small problems of C41", "A test needs a device.",
     ["ddecal/gain_solvers/IterativeDiagonalSolverCuda.cc"], [M("streams and double buffering", "ddecal/gain_solvers/IterativeDiagonalSolverCuda.cc")],
     na="Needs a CUDA compiler and device; neither is present.")
prop("N06", "Steps written in Python see and change the same buffers as C++ steps",
     "For every field that a Python step reads or changes, the array it gets refers to the buffer's data, stays valid for as long as Python holds it and changes reach the next step. An exception in Python stops the run with an error.",
     ["histories"], "all orders in which buffers are kept, changed and passed on", "A test runs one script.",
     ["pythondp3/PyStep.cc", "pythondp3/PyDpBuffer.cc"], [M("pybind11 wrappers", "pythondp3/PyDpBuffer.cc")],
     na="Needs pybind11, which is not installed; object lifetime is decided by it. The buffers themselves are covered by C26.")
prop("N07", "Station selections by pattern select the baselines of casacore's syntax",
     "For every baseline selection in MSSelection syntax, exactly the baselines that the syntax denotes are selected, and an invalid selection is refused.",
     ["inputs"], "all selections of a grammar", "A test has a few strings.",
     ["base/BaselineSelection.cc"], [M("handing the string to MSSelection", "base/BaselineSelection.cc")],
     na="The grammar and its evaluation are casacore's, which is not installed; DP3's own baseline lists, lengths and correlation types are covered by C31 and C34.")
prop("N08", "The screen constraint projects solutions on a Karhunen-Loeve screen",
     "For every set of pierce points, the constrained phases are the least-squares projection on the screen of the requested order. Applying the constraint twice changes nothing.",
     ["inputs"], "all small layouts of stations and directions", "A test has one layout.",
     ["ddecal/constraints/ScreenConstraint.cc", "ddecal/constraints/KLFitter.cc"], [M("covariance and eigenvectors", "ddecal/constraints/KLFitter.cc")],
     na="Needs Armadillo, which is not installed; it is also optional in DP3 (the constraint is refused when it is absent).")
