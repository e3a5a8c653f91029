"""What each check builds and runs."""
MEANING = ("states: distinct enumerated cases (model states / inputs / histories / schedules); transitions: calls of the "
           "code under test made inside them; traces_validated_against_impl: complete cases executed on the real code and "
           "compared with the reference model; distinct_outcomes: different results seen (by hash).")
COMMON_ASSUMPTIONS = [
    "The code under test is compiled from /repo's working tree with gcc 13, C++20, NDEBUG, as the project's own build does.",
    "Libraries that are not installed here (aocommon, casacore, xtensor, schaapcommon) are replaced by the stand-ins in /verif/shims.",
]
PARSET = ["common/ParameterSet.cc", "common/ParameterSetImpl.cc", "common/ParameterValue.cc", "common/ParameterRecord.cc",
          "common/StringTools.cc"]
SPECS = {}
SPECS["C01"] = dict(
    units=[dict(name="hist", harness=["c01_parset_history.cc"], repo=PARSET, mode="asan")],
    bounds=dict(quick="all histories of <=4 operations from 28, both key-comparison modes, two parset handles that may alias",
                thorough="all histories of <=5 operations from 28, both key-comparison modes, two parset handles that may alias"),
    min_states=100000)
SPECS["C02"] = dict(
    units=[dict(name="text", harness=["c02_parset_text.cc"], repo=PARSET, mode="asan")],
    bounds=dict(quick="all texts of 0-2 lines over all line forms (every key/value/white-space/comment/continuation form, <=1 variation per line) and 3-line texts over every third form; with and without prefix and final newline; buffer, file and constructor",
                thorough="as quick with <=2 variations per line and 3-line texts over every second form"),
    min_states=10000)
SPECS["C07"] = dict(
    units=[dict(name="unused", harness=["c07_parset_unused.cc"], repo=PARSET, mode="asan")],
    bounds=dict(quick="every typed accessor x key x value; all histories of <=4 operations from 28, both key-comparison modes, two possibly aliasing handles",
                thorough="every typed accessor x key x value; all histories of <=5 operations from 28, both key-comparison modes, two possibly aliasing handles"),
    min_states=100000)
SPECS["C06"] = dict(
    units=[dict(name="threads", harness=["c06_parset_threads.cc", "sched_rt.cc"], repo=PARSET, mode="sched")],
    bounds=dict(quick="2 threads: all pairs of operations and all (2 operations, 1 operation) programs from 28 operations, every interleaving at lock operations and operation starts; all 31 kinds of typed access against every operation; 3 threads with one operation each, <=2 preemptions. In every execution all memory accesses of the instrumented code are checked for races and use after free",
                thorough="as quick with <=4 preemptions for 3 threads and all programs of 2 threads with 2 operations each, <=3 preemptions"),
    min_states=10000)
SPECS["C05"] = dict(
    units=[dict(name="scalars", harness=["c05_scalars.cc"], repo=PARSET, mode="asan")],
    bounds=dict(quick="all strings of length <=6 over '019.e-+x ', all 1-2 character strings over 7-bit bytes, words, all 2^k+d (|d|<=2) boundaries with decorations, floating-point limits and ties; every typed route of the parset for boundaries",
                thorough="as quick with strings of length <=7"),
    min_states=100000)
SPECS["C03"] = dict(
    units=[dict(name="values", harness=["c03_values.cc"], repo=PARSET, mode="asan")],
    bounds=dict(quick="all leaves, lists of <=3 leaves, records of <=2 fields, all pairs of depth-1 values, selected depth-3 values, 4 white-space renderings; all raw strings of length <=5 over 12 structural characters and of length 5 inside brackets/braces",
                thorough="as quick with the full depth-1 set and raw strings of length <=6"),
    min_states=40000)
SPECS["C04"] = dict(
    units=[dict(name="expand", harness=["c04_expand.cc"], repo=PARSET, mode="asan")],
    bounds=dict(quick="14 number pairs x 7 prefixes x 6 suffixes x repeated prefix x white space, double ranges, repetitions 1-3 of items/groups/lists, nested repetitions, 1-3 items per array; all strings of length <=6 over '12.*,()a'['",
                thorough="as quick with all nested forms, more item pairs, and strings of length <=7"),
    min_states=100000)
SPECS["C08"] = dict(
    units=[dict(name="strings", harness=["c08_strings.cc"], repo=["common/StringTools.cc"], mode="asan")],
    bounds=dict(quick="splitting: all strings of length <=6 over 6 characters x 7 delimiter sets; skipping: all strings <=7 over 4 / <=6 over 5 characters, every start and end; ordering: all pairs of >200 words in both modes; wildcards: all patterns of length <=5 over 'ab.*?' against all names <=4 over 'ab.'",
                thorough="as quick with strings and patterns one character longer"),
    min_states=50000)
SPECS["C09"] = dict(
    units=[dict(name="fields", harness=["c09_fields.cc"], repo=["common/Fields.cc"], mode="asan")],
    bounds=dict(quick="all pairs of field sets; all chains of 3 steps over 256x256x(every third of 256) requirement/provision combinations; all single-kind chains of <=6 steps",
                thorough="all pairs of field sets; all 16.8M chains of 3 steps; all single-kind chains of <=6 steps"),
    min_states=60000)
SPECS["C10"] = dict(
    units=[dict(name="resample", harness=["c10_resampler.cc"], repo=["ddecal/SolutionResampler.cc"], mode="asan")],
    bounds=dict(quick="all tuples of <=4 per-direction solution counts dividing an interval of 1,2,3,4,6,12,15,30; 1/3 antennas, 1/2/4 polarizations, 1-2 intervals, 1-2 channel blocks, 0-2 residual axes",
                thorough="as quick with <=5 directions and all shape combinations"),
    min_states=20000)
SPECS["C19"] = dict(
    units=[dict(name="baselines", harness=["c19_baselines.cc"], mode="asan")],
    bounds=dict(quick="all antenna counts 0-400 with all pairs, both orders; boundary pairs up to 100000 antennas",
                thorough="all antenna counts 0-1200 with all pairs, both orders; boundary pairs up to 100000 antennas"),
    min_states=1000)
SPECS["C20"] = dict(
    units=[dict(name="median_timer", harness=["c20_median_timer.cc"], repo=["common/PrettyUnits.cc"], mode="asan")],
    bounds=dict(quick="all sequences of length <=7 over 4-5 values and <=16 over 2 values; all timer histories of <=6 operations from 10 over a mocked clock; printed values over 17 decades x 318 mantissas x 6 precisions",
                thorough="sequences one longer, timer histories of <=7 operations, 2018 mantissas"),
    min_states=100000)
SPECS["C11"] = dict(
    units=[dict(name="lls", harness=["c11_lls.cc"], repo=["ddecal/linear_solvers/LLSSolver.cc"], mode="asan", libs=["-llapack", "-lblas"])],
    bounds=dict(quick="all systems of 11 shapes up to 5x1/4x3/3x3 with entries from 2-5 Gaussian integers, 1-3 right-hand sides; all sequences of 4 solves from 5 systems on one object for 7 shapes x 3 kinds; names with case variations and single edits",
                thorough="as quick plus 4 larger shapes and sequences of 5 solves"),
    assumptions=["LAPACK/BLAS routines are the installed ones; ill-conditioned systems (condition of the normal equations above 2e4) make no claim."],
    min_states=20000)
SPECS["C12"] = dict(
    units=[dict(name="kernel", harness=["c12_kernel.cc"], mode="asan")],
    bounds=dict(quick="9 channel layouts of 1-7 channels x 4 kernels x 8 bandwidths x 6 reference/exponent settings x truncation x 3 size factors x all 0/1 weight patterns and a third of the graded ones; full impulse response each",
                thorough="as quick with all factors and graded weights"),
    min_states=50000)
SPECS["C13"] = dict(
    units=[dict(name="phasefit", harness=["c13_phasefit.cc"], repo=["base/PhaseFitter.cc"], mode="fast")],
    bounds=dict(quick="5 channel layouts, 81 TEC values over the whole search range x 17 offsets x up to 5 weight/wrap patterns; cost function on 13600 parameter/data combinations",
                thorough="5 channel layouts, 321 TEC values x 33 offsets x 5 weight/wrap patterns"),
    min_states=10000)
SPECS["C14"] = dict(
    units=[dict(name="tecoffset", harness=["c14_tecoffset.cc"], repo=["ddecal/constraints/TecOffsetDelayFitting.cc"], mode="fast", libs=["-lgsl", "-lgslcblas"])],
    bounds=dict(quick="7 channel layouts x 1-2 wraps x 11 TEC x 7 offsets x 11 delays x 5 weight patterns (least squares; every 8th also Von Mises), linear fits on 7x7x7 parameters",
                thorough="7 channel layouts x 1-4 wraps x 17 TEC x 7 offsets x 17 delays x 5 weight patterns"),
    min_states=10000)
SPECS["C15"] = dict(
    units=[dict(name="apply", harness=["c15_apply.cc"], repo=["base/Apply.cc"], mode="asan")],
    bounds=dict(quick="all lists of <=3 baselines over 3 stations (ordered pairs incl. autocorrelations) x 0-3 channels x 5 memory layouts x 2 value sets; all unit impulses (1 and i) of both gains and the visibility; all gain pairs with entries 0,1,i x 9 visibilities; compositions",
                thorough="lists of <=4 baselines, 3 value sets, all gain pairs x all 81 visibilities with entries 0,1,i"),
    min_states=50000)
SPECS["C16"] = dict(
    units=[dict(name="subtract", harness=["c16_subtract.cc"], repo=["base/SubtractMixed.cc"], mode="asan")],
    bounds=dict(quick="all lists of <=4 baselines of 4 kinds (incl. autocorrelations) x 0-3 channels x 125 combinations of memory layouts (every 7th for >2 baselines) x NaN positions x split/unsplit channels; all unit impulses",
                thorough="lists of <=5 baselines with all layout combinations"),
    min_states=50000)
SPECS["C17"] = dict(
    units=[dict(name="convert", harness=["c17_convert.cc"], repo=["common/DataConvert.cc"], mode="asan", flags=["-fno-sanitize=alignment"])],
    bounds=dict(quick="all 16-bit values; all pairs of bytes in 32/64-bit values (every 3rd second value); arrays of 0-12 elements x 8 offsets x all routes; all flag patterns of length <=11 and structured patterns <=40 x start bits 0-26 x 3 backgrounds",
                thorough="all byte pairs, arrays of <=24 elements, all flag patterns of length <=14"),
    min_states=10000)
SPECS["C18"] = dict(
    units=[dict(name="nodes", harness=["c18_nodes.cc"], repo=["common/NodeDesc.cc"] + PARSET, mode="asan")],
    bounds=dict(quick="all ordered selections of <=4 of 8 mount points x 780 file names x 3 construction routes; all lists of <=3 of 16 file system/mount pairs x 4 names x 4 types x 3 prefixes written and read back; default/type/error variants",
                thorough="ordered selections of <=5 mount points"),
    min_states=10000)
SPECS["C21"] = dict(
    units=[dict(name="sources", harness=["c21_sources.cc"], repo=["base/PointSource.cc", "base/GaussianSource.cc", "base/ComponentInfo.cc", "base/Stokes.cc", "sky_model/Patch.cc"], mode="asan")],
    bounds=dict(quick="all spectra of <=3 terms from 5 values and of 4-5 terms from 2 values x log/linear x 3 reference frequencies x 4 rotation measures x 3 fluxes x 7 frequencies; all histories of <=4 inspections of 8 components; all patches of <=3 components on a 6x5 grid of directions",
                thorough="<=4 terms from 5 values, 5-6 from 2, histories of <=5 inspections, patches of <=4 components"),
    min_states=10000)
SPECS["C22"] = dict(
    units=[dict(name="modes", harness=["c22_modes.cc"], repo=["base/CalType.cc"], mode="asan")],
    bounds=dict(quick="all calibration modes, all documented names, all single edits/prefixes/suffixes/concatenations of names; all receiver mode numbers -1000..2000 and around powers of two",
                thorough="same (complete)"),
    min_states=5000)
SPECS["C24"] = dict(
    units=[dict(name="axes", harness=["c24_axes.cc"], repo=["parmdb/Axis.cc", "parmdb/AxisMapping.cc", "parmdb/Box.cc", "parmdb/Grid.cc"], mode="asan")],
    bounds=dict(quick="all axes with disjoint cells (gaps included) on 6 lattice steps x 5 coordinate systems x every construction, every search position at quarter steps, bias and hint, every subset and compression; all pairs of axes on 5 steps x 3 coordinate systems (union, match, mapping); all grids of such axes with every split; all pairs of boxes on 4x4 points",
                thorough="axes on 7 steps, pairs on 6, grids on 5, boxes on 5x5 points"),
    min_states=10000)
SPECS["C23"] = dict(
    units=[dict(name="settings", harness=["c23_settings.cc"], repo=PARSET + ["ddecal/Settings.cc", "base/CalType.cc", "ddecal/linear_solvers/LLSSolver.cc"], mode="asan", libs=["-llapack", "-lblas"])],
    bounds=dict(quick="every documented key alone in all 19 mode names x 6 algorithms, all pairs of key settings in 12 mode/algorithm combinations, three prefixes with decoy keys; all solution-file/model-column combinations; all sub-solution lists of <=4 values from 0-6 x 6 intervals x 4 direction counts; all pairs of 10 patterns x all subsets of 7 direction names",
                thorough="pairs of keys in all 114 mode/algorithm combinations, lists of <=5 values, triples of patterns"),
    min_states=20000)
SPECS["C25"] = dict(
    units=[dict(name="dpinfo", harness=["c25_dpinfo.cc"], repo=["base/DPInfo.cc"], mode="asan")],
    bounds=dict(quick="all histories of <=3 of 51 updates (times, averaging, channel and baseline selection, antenna removal and replacement, regular/irregular/per-baseline frequency layouts, refused inputs), inspected after each update or once on a copy at the end",
                thorough="histories of <=4 updates"),
    min_states=100000)
SPECS["C26"] = dict(
    units=[dict(name="dpbuffer", harness=["c26_dpbuffer.cc"], repo=["base/DPBuffer.cc", "common/Fields.cc"], mode="asan")],
    bounds=dict(quick="all histories of <=3 operations from 98 on two filled buffers and of <=2 on empty ones (assign, copy, move, partial copies, named visibilities, solutions, changes in place), both buffers compared after each operation",
                thorough="histories of <=4 operations"),
    min_states=100000)
SPECS["C27"] = dict(
    units=[dict(name="bdabuffer", harness=["c27_bdabuffer.cc"], repo=["base/BdaBuffer.cc", "common/Fields.cc"], mode="asan")],
    bounds=dict(quick="all 8 sets of enabled fields x empty/filled start x all histories of <=3 operations from 44 on two buffers (7 kinds of row incl. out of order and too big, named visibilities, moves within and between buffers, partial copies, clear)",
                thorough="histories of <=4 operations"),
    min_states=100000)
STEP = PARSET + ["steps/Step.cc", "base/DPInfo.cc", "base/DPBuffer.cc", "base/BdaBuffer.cc", "common/Fields.cc", "base/FlagCounter.cc"]
SPECS["C28"] = dict(
    units=[dict(name="averager", harness=["c28_averager.cc"], repo=STEP + ["steps/Averager.cc"], mode="asan")],
    bounds=dict(quick="1-8 channels x 1-6 time slots x every pair of averaging factors; all flag patterns of blocks of <=8 points and single/complement/alternating patterns of larger ones; 5 weight patterns (zero weights included), 6 minimum settings, factors given directly or as resolutions, 3 worker orders",
                thorough="all flag patterns of blocks of <=12 points, every minimum setting"),
    min_states=50000)
SPECS["C29"] = dict(
    units=[dict(name="values", harness=["c29_values.cc"], repo=STEP + ["steps/NullStokes.cc", "steps/ScaleData.cc", "steps/Combine.cc"], mode="asan")],
    bounds=dict(quick="all 16 sets of Stokes parameters x 9 shapes x 625 visibility quadruples; all lists of <=2 of 7 station patterns x 5 polynomials x 4 antenna sets x regular, baseline-averaged with equal and with different numbers of channels (a sixth of the pairs); all subsets of three named buffers x operations x 27 shapes x regular and baseline-averaged",
                thorough="all pairs of patterns and polynomials"),
    min_states=4000)
SPECS["C30"] = dict(
    units=[dict(name="phaseshift", harness=["c30_phaseshift.cc"], repo=STEP + ["steps/PhaseShift.cc"], mode="asan")],
    bounds=dict(quick="all pairs of 33 phase centres (poles and zero right ascension included) and back to the original centre x 4 sets of <=6 sources x 7 baselines x 3 time slots, 1/2/4 correlations, 3 units of the centre, 3 worker orders",
                thorough="12 sets of sources and frequencies"),
    min_states=3000)
SPECS["C33"] = dict(
    units=[dict(name="mad", harness=["c33_mad.cc"], repo=STEP + ["steps/MadFlagger.cc"], mode="asan")],
    bounds=dict(quick="all pairs of 6 frequency and 8 time windows (fixed and baseline-dependent) x 0-9 time slots (as many as announced or fewer) x 1-6 channels; all sets of flagged points of blocks of <=9 points x 4 ways; 8 lists of correlations x 1-4 correlations x baseline selections x autocorrelation modes; 3 worker orders",
                thorough="0-12 time slots, blocks of <=12 points, more data patterns"),
    min_states=20000)
SPECS["C31"] = dict(
    units=[dict(name="preflag", harness=["c31_preflag.cc"], repo=STEP + ["steps/PreFlagger.cc", "base/BaselineSelection.cc"], mode="asan")],
    bounds=dict(quick="every one of 58 criteria alone in all 6 modes and with 1, 2 and 4 correlations, all pairs in 4 modes, a thirteenth of the triples; all expressions of <=5 tokens over 3 sets, 4 operators and parentheses in varying spelling with 4 parents; 4 time slots over midnight x 6 baselines x 4 channels with flagged and invalid points",
                thorough="all triples, all expressions of <=7 tokens"),
    min_states=30000)
SPECS["C32"] = dict(
    units=[dict(name="uvwflag", harness=["c32_uvwflag.cc"], repo=STEP + ["steps/UVWFlagger.cc"], mode="asan")],
    bounds=dict(quick="64 criteria on the 8 coordinates (ranges of both notations, negative limits, minima, maxima) alone in all combinations of 4 phase centres, regular and baseline-dependent data, 1, 2, 4 correlations, 1, 2, 4 channels and 4 sets of earlier flags; all pairs and a ninth of the triples",
                thorough="all ordered pairs and all triples"),
    min_states=20000)
SPECS["C34"] = dict(
    units=[dict(name="filter", harness=["c34_filter.cc"], repo=STEP + ["steps/Filter.cc", "base/BaselineSelection.cc"], mode="asan"),
           dict(name="clipper", harness=["c34_clipper.cc"], repo=STEP + ["steps/Filter.cc", "base/BaselineSelection.cc", "steps/Clipper.cc", "steps/ResultStep.cc"], mode="asan")],
    bounds=dict(quick="all combinations of 11 baseline lists x 6 correlation types x 6 length ranges x 3 baseline orders x keeping or removing stations; all combinations of 7 first channels x 6 channel counts x 1-9 channels x 1, 2, 4 correlations x 4 baseline lists x with and without row numbers; pairs of filters in a row; clipper: 4 time steps x 5 frequency steps x 7 selections x 2 correlation modes x 4 amplitude patterns (equal to the limit, NaN) x 3 limits x 3 channel counts, 1-7 time slots",
                thorough="all baseline orders with all channel selections; 12 amplitude patterns, all row number modes, 1-11 time slots"),
    min_states=8000)
SPECS["C35"] = dict(
    units=[dict(name="chain", harness=["c35_chain.cc"], repo=STEP + ["base/DP3.cc", "base/ProgressMeter.cc", "steps/Split.cc"], mode="asan", flags=["-iquote@VERIF@/harness/dp3_mock"])],
    bounds=dict(quick="every step type and 10 wrong ones x 3 spellings x 4 ways of naming x regular/averaged input; all lists of <=3 steps from representative ones x kind of input x all output settings; all field combinations of 2 steps around an output (a ninth of those of the second); all splits of <=3 streams with <=2 steps; readers with 0-3 slots, failures at each step; command lines",
                thorough="as quick with lists of <=4 steps, all field combinations of the 2 steps and all run settings"),
    min_states=80000)
SPECS["C36"] = dict(
    units=[dict(name="fields", harness=["c36_fields.cc"], repo=STEP + ["steps/" + f + ".cc" for f in ("AntennaFlagger", "Averager", "BDAAverager", "BdaExpander", "Combine", "Counter", "DummyStep", "Filter", "Interpolate", "MadFlagger", "NullStokes", "PhaseShift", "PreFlagger", "ScaleData", "SetBeam", "StationAdder", "Upsample", "UVWFlagger")] + ["base/BaselineSelection.cc", "antennaflagger/Flagger.cc"], mode="asan")],
    bounds=dict(quick="over 200 configurations of 18 steps, 4 numbers of time slots (0-6), each not required field absent or with two other contents (NaN, all flagged, zero weights), required fields with two contents",
                thorough="8 numbers of time slots (0-7), four contents of the not required and three of the required fields"),
    min_states=20000)
SPECS["C37"] = dict(
    units=[dict(name="bda", harness=["c37_bda.cc"], repo=STEP + ["steps/BDAAverager.cc", "steps/BdaExpander.cc"], mode="asan")],
    bounds=dict(quick="5 time bases x 5 frequency bases x 4 maximum intervals x 4 minimum channels x 5 channel counts x 5 slot counts with rotating flags (7), weights (3), baseline sets (4), buffer sizes (4); all combinations of those patterns for 6 settings; expanding and averaging again",
                thorough="8 x 7 x 4 x 4 settings x 9 channel counts x 9 slot counts x all flag patterns"),
    min_states=40000)
SPECS["C38"] = dict(
    units=[dict(name="upsample", harness=["c38_upsample.cc"], repo=STEP + ["steps/Upsample.cc"], mode="asan")],
    bounds=dict(quick="factors 2-5, 0-5 slots (0-4 for factor 5), every sequence of gaps from 1 to factor+1 and 2*factor output intervals in which at most two slots overlap, all patterns of (un)flagged slots (with partly flagged ones up to 3 slots), uvw copied, recomputed or absent, intervals and times with rounding",
                thorough="factors 2-7, 0-6 slots, one partly flagged slot at any place"),
    min_states=5000)
SPECS["C39"] = dict(
    units=[dict(name="interpolate", harness=["c39_interpolate.cc"], repo=STEP + ["steps/Interpolate.cc"], mode="asan")],
    bounds=dict(quick="all flag patterns of 1 baseline, 1 correlation, slots x channels <= 12 (up to 6 each) with windows 1, 3, 5, 7; 49 patterns on up to 19 slots x 17 channels x 3 baselines x 4 correlations with windows 1-27 (a seventh of the combinations); finite and non-finite values",
                thorough="slots x channels <= 15; 193 patterns, all combinations"),
    min_states=5000)
SOLVE = STEP + ["ddecal/gain_solvers/SolveData.cc", "ddecal/gain_solvers/SolverTools.cc", "ddecal/gain_solvers/BdaSolverBuffer.cc"]
SPECS["C40"] = dict(
    units=[dict(name="regular", harness=["c40_solvedata.cc"], repo=SOLVE, mode="asan", flags=["-D_GLIBCXX_ASSERTIONS"]),
           dict(name="bda", harness=["c40_bda.cc"], repo=SOLVE, mode="asan", flags=["-D_GLIBCXX_ASSERTIONS"], hang=20)],
    bounds=dict(quick="regular: 1-4 slots, 1-4 channels in 1-4 blocks, 5 baseline sets, 10 sets of solutions per direction (1-3 directions), 3 visibility types, sqrt and linear weights, model kept or moved, 6 flag patterns (a seventh of the combinations); every single bad value of 6 kinds at any point, an eleventh of the pairs; bda: solution intervals of 1-4 slots, all averaging factors of 3 baselines, 1-6 slots, 1-5 rows per buffer, a late baseline, 5 sets of solutions, rotating channels, blocks, types, patterns; all swaps of two rows of a baseline",
                thorough="up to 6 slots and channels, all combinations, all pairs of bad values; bda up to 8 slots, 12 variants"),
    min_states=50000)
GAINS = SOLVE + ["ddecal/gain_solvers/" + f + ".cc" for f in ("SolverBase", "ScalarSolver", "DiagonalSolver", "FullJonesSolver", "HybridSolver", "IterativeScalarSolver", "IterativeDiagonalSolver", "IterativeFullJonesSolver", "DiagonalLowRankSolver", "DiagonalAntennaSolver")] + ["ddecal/linear_solvers/LLSSolver.cc", "ddecal/constraints/Constraint.cc"]
SPECS["C41"] = dict(
    units=[dict(name="solvers", harness=["c41_solvers.cc"], repo=GAINS, mode="asan", flags=["-I/usr/include/eigen3", "-D_GLIBCXX_ASSERTIONS"], libs=["-llapack", "-lblas", "-lgsl", "-lgslcblas"]),
           dict(name="base", harness=["c41_base.cc"], repo=GAINS, mode="asan", flags=["-I/usr/include/eigen3", "-D_GLIBCXX_ASSERTIONS"], libs=["-llapack", "-lblas", "-lgsl", "-lgslcblas"])],
    bounds=dict(quick="solvers: 9 solvers x 5-6 antennas, 2-4 slots, 2-3 channels in 1-3 blocks, 7 flag patterns, 3 sets of directions and 5 of several solutions per direction, regular data and 3 averagings (an eighth of the combinations), with 1-3 steps of size 1, 0.3, 0.6, phases only or not, 3 least squares methods, against direct least squares in double precision; all 11 solvers from the true solutions and from ones without noise; solving again after other data, 3 loop orders x 2 thread numbers, blocks one at a time; base: every pattern of finite values of 4 solutions, steps of 1-5 antennas from 6 to 6 phases, sequences of 36 iterations with 6 step shapes, constraints that need 0-3 iterations for every solver, 1-3 stages of a hybrid solver with every need and maximum of 4",
                thorough="6 data sets, all combinations; sequences of 44 iterations"),
    min_states=50000)
CONSTR = GAINS + ["ddecal/constraints/" + f + ".cc" for f in ("AntennaIntervalConstraint", "FaradayConstraint", "PolarizationLeakageConstraint", "RotationAndDiagonalConstraint", "RotationConstraint", "SmoothnessConstraint", "TecConstraint", "TecOffsetDelayConstraint", "TecOffsetDelayFitting")] + ["base/CalType.cc", "base/PhaseFitter.cc"]
CONSTR = list(dict.fromkeys(CONSTR))
SPECS["C42"] = dict(
    units=[dict(name="local", harness=["c42_local.cc"], repo=CONSTR, mode="asan", flags=["-I/usr/include/eigen3", "-D_GLIBCXX_ASSERTIONS"], libs=["-llapack", "-lblas", "-lgsl", "-lgslcblas"]),
           dict(name="fit", harness=["c42_fit.cc"], repo=CONSTR, mode="asan", flags=["-I/usr/include/eigen3", "-D_GLIBCXX_ASSERTIONS"], libs=["-llapack", "-lblas", "-lgsl", "-lgslcblas"])],
    bounds=dict(quick="2-4 antennas, 1-4 sub solutions in 1-2 directions, 1-22 channel blocks; every constraint with all its modes and references, all patterns of missing or infinite solutions of a list, two thread orders; phase lines: all slopes of a grid x weights x turns; pieces: all sizes up to 12 x chunk sizes; medians and unwraps: all sequences up to 5",
                thorough="the same with 8 to 12 instead of 2 sets of true solutions, and every combination of the pieces and medians of which the quick tier takes a fixed fifth or seventh from size 5 on"),
    min_states=5000)

FACTORY = list(dict.fromkeys(CONSTR + PARSET + ["ddecal/SolverFactory.cc", "ddecal/Settings.cc"]))
SPECS["C43"] = dict(
    units=[dict(name="factory", harness=["c43_factory.cc"], repo=FACTORY, mode="asan", flags=["-I/usr/include/eigen3", "-D_GLIBCXX_ASSERTIONS"], libs=["-llapack", "-lblas", "-lgsl", "-lgslcblas"])],
    bounds=dict(quick="17 modes x 6 algorithms x 3 kinds of data x approximation x 3 antenna groups x 2 averagings x 4 smoothings x 2 sets of other values (a third of them for the kinds of data that are not full); 1-2 items of 12 lists of patterns and 10 values for 4 sets of stations and 2 types; 1-4 antennas on 4 places with every reference and distance; two groups of every combination of 6 names",
                thorough="all combinations"),
    min_states=20000)

DDE = list(dict.fromkeys(SOLVE + ["ddecal/gain_solvers/SolverBase.cc", "ddecal/linear_solvers/LLSSolver.cc", "ddecal/constraints/Constraint.cc", "ddecal/Settings.cc", "base/CalType.cc", "steps/DDECal.cc", "steps/UVWFlagger.cc", "steps/ResultStep.cc", "steps/MultiResultStep.cc"]))
SPECS["C44"] = dict(
    units=[dict(name="flow", harness=["c44_flow.cc"], repo=DDE, mode="asan", flags=["-I/usr/include/eigen3", "-D_GLIBCXX_ASSERTIONS"], libs=["-llapack", "-lblas", "-lgsl", "-lgslcblas"]),
           dict(name="solve", harness=["c44_solve.cc"], repo=list(dict.fromkeys(DDE + FACTORY)), mode="fast", flags=["-I/usr/include/eigen3"], libs=["-llapack", "-lblas", "-lgsl", "-lgslcblas"])],
    bounds=dict(quick="flow: 1-5 slots x 5 solution intervals x 7 mixes of reused, read and predicted models x 6 outputs x 1/2/4 numbers per solution x 4 antenna sets (a third); 1-7 channels x all block sizes; 9 flag patterns x 7 minimum fractions x 4 minimum lengths; every pattern of failing solves x propagation, initial solutions and flagging settings; 3 kinds of data, 1-4 solutions per direction; sets longer than the data; models from images with 1-12 buffers; solve: 7 modes x 4 algorithms x 3 kinds of data x 3 antenna sets x 3 intervals x 3 flag patterns x 4 outputs (a quarter)", thorough="all combinations, 7 slots, 9 channels; 4 sets of gains"), min_states=5000)

_WFLAGS = dict(mode="asan", flags=["-I/usr/include/eigen3", "-D_GLIBCXX_ASSERTIONS"], libs=["-llapack", "-lblas", "-lgsl", "-lgslcblas"])
SPECS["C45"] = dict(
    units=[dict(name="write", harness=["c45_write.cc"], repo=PARSET + ["base/CalType.cc", "ddecal/SolutionWriter.cc", "ddecal/SolutionResampler.cc"], **_WFLAGS),
           dict(name="initial", harness=["c45_initial.cc"], repo=PARSET + ["base/CalType.cc", "ddecal/Settings.cc", "ddecal/linear_solvers/LLSSolver.cc", "ddecal/InitialSolutions.cc"], **_WFLAGS),
           dict(name="chain", harness=["c45_chain.cc"], repo=DDE + ["ddecal/SolutionWriter.cc", "ddecal/SolutionResampler.cc", "ddecal/InitialSolutions.cc"], **_WFLAGS)],
    bounds=dict(quick="write: 9 modes and 4 kinds of constraint results x 8 divisions of 1-3 directions in time x 1-3 antennas x 1-5 channels in all numbers of blocks x 1-3 intervals, complete or not; 1-26 slots x 6 solution intervals x 4 starting times x 7 slot lengths x missing, trimmed and extra intervals; initial: 4 sets of tables x 0/2/4 polarizations in the table x 1/2/4 in the solver x 4 divisions of directions x 1-3 antennas, 1-2 frequencies, 1-3 sources x 6 settings; chain: calibration with the real files for 1-10 slots x 5 intervals x 24 time axes x 3 divisions, and second runs that start from the first for all pairs of polarizations, 2 antenna sets, 1-3 channels (half)",
                thorough="4 antennas, 7 channels, 60 slots; 4 frequencies; 24 slots x 8 intervals; all second runs"), min_states=5000)

BDADDE = list(dict.fromkeys([x for x in DDE if x != "steps/DDECal.cc"] + ["steps/BdaDdeCal.cc"]))
SPECS["C46"] = dict(
    units=[dict(name="bda", harness=["c46_bda.cc"], repo=BDADDE, **{**_WFLAGS, "flags": _WFLAGS["flags"] + ["-Drestrict="]})],
    bounds=dict(quick="1-6 slots x solution intervals 0-4 x 4 averagings x buffers of 1-5 or all rows x 3 delays of the models x 7 mixes of models x 6 outputs (a quarter); 4 channel layouts x all block sizes x 3 antenna sets x 5 flag patterns x 3 minimum lengths (a quarter); every pattern of failing solves x propagation and flagging settings; 3 kinds of data, 1-4 solutions per direction; every baseline that stops at every slot",
                thorough="all combinations, 9 slots"), min_states=5000)

_SCHED = dict(mode="sched", flags=["-I/usr/include/eigen3", "-DVP_SCHED_POOL"], libs=["-llapack", "-lblas", "-lgsl", "-lgslcblas"])
SPECS["C47"] = dict(
    units=[dict(name="steps", harness=["c47_steps.cc", "sched_rt.cc"], repo=STEP + ["steps/" + f + ".cc" for f in ("Averager", "Interpolate", "MadFlagger", "PhaseShift")], **_SCHED),
           dict(name="solvers", harness=["c47_solvers.cc", "sched_rt.cc"], repo=GAINS, **_SCHED),
           dict(name="constraints", harness=["c47_constraints.cc", "sched_rt.cc"], repo=CONSTR, **_SCHED)],
    bounds=dict(quick="2-4 threads, 3 divisions of a loop over threads (round robin, blocks in reverse order, permuted), preemptions at starts, ends and lock operations: <=2 for steps and constraints, <=1 for solvers and interpolation; schedules branch at the first 6-9 (steps, solvers), 100 (weights) or 30 (constraints) scheduling points, later ones run on without preemption; <=6 baselines, <=4 channels, <=5 slots; 11 solvers with <=3 channel blocks, <=2 directions, <=2 sub-solutions, <=2 iterations; 8 constraints with <=4 antennas. In every execution all memory accesses of the instrumented code are checked for races and use after free",
                thorough="as quick with every combination of the settings and branches at the first 12-14 (60 for constraints) scheduling points"),
    min_states=2000)

SPECS["C48"] = dict(
    units=[dict(name="counter", harness=["c48_counter.cc"], repo=STEP + ["steps/Counter.cc"], mode="asan")],
    bounds=dict(quick="11 layouts of 1-31 antennas (autocorrelations, reversed pairs, unused antennas, no baselines) x 1-21 channels x 1-4 correlations x 0-3 time slots; all flag patterns of <=8 points and 14 densities of larger ones; 4 warning levels, full baselines, JSON file",
                thorough="all flag patterns of <=12 points, 60 densities, every combination of the settings"),
    min_states=5000)

SPECS["C49"] = dict(
    units=[dict(name="stations", harness=["c49_stations.cc"], repo=STEP + ["steps/StationAdder.cc"], mode="asan")],
    bounds=dict(quick="6 layouts of 4-5 stations (with and without autocorrelations, turned, incomplete) x 14 definitions of new stations (patterns, exclusions, two stations, refused ones) x 1-4 correlations x 1-2 channels x minpoints 0-3 x the 16 settings of autocorr, sumauto, average and useweights (a seventh of the combinations) x 3 patterns of weights; all sets of flagged baselines for <=6 baselines, 6 sets otherwise; 2 slots",
                thorough="every combination of the settings, all sets for <=7 baselines"),
    min_states=10000)

SPECS["C50"] = dict(
    units=[dict(name="antflag", harness=["c50_antflag.cc"], repo=STEP + ["steps/AntennaFlagger.cc", "antennaflagger/Flagger.cc"], mode="asan")],
    bounds=dict(quick="numbering of the baselines of <=150 antennas in both orders; flagging for 3-8 stations (all sets of loud, quiet or broken stations up to 5) x 1-4 correlations x 2-8 channels x 4 thresholds x 0-5 rounds x both orders (a third of the combinations), 1-2 stations of 48 antennas with 5 sets of bad antennas; flags set before, not set or absent; 2 slots",
                thorough="<=600 antennas, all sets up to 6 stations, every combination"),
    min_states=3000)
