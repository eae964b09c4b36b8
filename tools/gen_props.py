import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
EXT=["source/tomopy/util/extern/recon.py","source/tomopy/util/extern/gridrec.py","source/tomopy/util/extern/accel.py","source/tomopy/util/extern/prep.py","source/tomopy/util/extern/misc.py"]
HDR=["include/libtomo/recon.h","include/libtomo/project.h","include/libtomo/gridrec.h","include/libtomo/prep.h","include/libtomo/stripe.h","include/libtomo/morph.h","include/libtomo/remove_ring.h","include/libtomo/median_filt3d.h","include/libtomo/inpainter.h","include/libtomo/accel.h"]
KER=["source/libtomo/recon/art.c","source/libtomo/recon/bart.c","source/libtomo/recon/fbp.c","source/libtomo/recon/grad.c","source/libtomo/recon/osem.c","source/libtomo/recon/ospml_hybrid.c","source/libtomo/recon/ospml_quad.c","source/libtomo/recon/tikh.c","source/libtomo/recon/tv.c","source/libtomo/recon/project.c","source/libtomo/recon/vector.c","source/libtomo/recon/utils.c","source/libtomo/gridrec/gridrec.c"]
MISC=["source/libtomo/misc/inpainter.c","source/libtomo/misc/median_filt3d.c","source/libtomo/misc/morph.c","source/libtomo/misc/remove_ring.c","source/libtomo/prep/prep.c","source/libtomo/prep/stripe.c","source/libtomo/prep/stripes_detect3d.c"]
PREP=["source/tomopy/prep/normalize.py","source/tomopy/prep/stripe.py","source/tomopy/prep/phase.py","source/tomopy/prep/alignment.py"]
PMISC=["source/tomopy/misc/corr.py","source/tomopy/misc/morph.py","source/tomopy/misc/npmath.py"]
p("C01","Every call into native code matches the native function's signature",
  "Every call the Python layer makes into a compiled library names a function that library defines and passes exactly the arguments that function declares: same count, same order of meaning (slices, angles, detector columns, grid sizes, centers, angles, options), and the same machine type and pointee type in every position. The public headers and the definitions agree as well.",
  ["inputs","configurations"],"for every algorithm, option set and data shape that makes Python call native code",
  "There is no argtypes declaration and no compiler across the boundary; tests use cubic/square data and default options, for which swapped or mistyped arguments give the same numbers.",
  EXT+HDR,[("ctypes argument conversion","source/tomopy/util/dtype.py as_c_*"),("wrappers","source/tomopy/util/extern/*.py c_*"),("prototypes","include/libtomo/*.h")],["any public call that reaches native code, with non-square data"])
p("C02","Native code only ever receives contiguous arrays of the right element type",
  "Whatever dtype, memory order, stride or sub-array view the caller passes for images, angles, centers, initial guesses or regularisation data, every array pointer that reaches native code addresses a C-contiguous buffer whose element type is the one the native function reads or writes. A caller's choice of dtype or memory layout therefore never changes which numbers native code sees.",
  ["inputs"],"for every dtype and memory layout of every array argument of every public function that ends in native code",
  "The tests pass freshly created C-ordered float32 arrays; strided, transposed, Fortran-ordered, float64 or integer inputs are hardly sampled.",
  EXT+["source/tomopy/util/dtype.py","source/tomopy/recon/algorithm.py","source/tomopy/recon/vector.py","source/tomopy/sim/project.py","source/tomopy/misc/corr.py","source/tomopy/misc/morph.py","source/tomopy/prep/stripe.py","source/tomopy/prep/normalize.py"],
  [("conversion helpers","source/tomopy/util/dtype.py as_float32, as_sharedmem"),("contiguity","source/tomopy/recon/algorithm.py init_tomo, _init_recon; np.require in wrappers")],["results for arr vs np.asfortranarray(arr), arr[::2], arr.astype(float64)"])
p("C03","Native kernels stay inside the arrays they are given and their own scratch",
  "For all array dimensions, grid sizes and iteration counts, loops in native code that address an array by loop counters never read or write outside the extent implied by the dimensions passed in, nor outside the scratch buffers they allocated; in particular rectangular grids and data whose dimensions all differ are as safe as square ones.",
  ["inputs"],"for every combination of dimensions (slices, angles, columns, grid x, grid y, window sizes) passed to a native function",
  "Out-of-range accesses by a few elements usually do not crash, and the tests only use one square geometry.",
  KER+MISC,[("index arithmetic","source/libtomo/**/*.c"),("scratch allocation","malloc/calloc sites of the same functions"),("shared ray tracer","source/libtomo/recon/utils.c")],["address sanitizer or wrong values with rectangular shapes"])
p("C04","Native code releases everything it allocates, exactly once, on every path",
  "Every block of memory a native function allocates is released exactly once before the function returns, whatever path it takes (early return, each iteration, each option), and is not touched after its release. Long sessions of repeated calls therefore run in constant memory.",
  ["inputs","histories"],"for every path through every native function, and any number of repeated calls",
  "A leak or a rare double free produces no wrong number in a single short test call.",
  KER+MISC+["source/libtomo/gridrec/pal.h"],[("malloc/calloc/free pairs","source/libtomo/**/*.c"),("vector/matrix helpers","source/libtomo/gridrec/pal.h")],["resident memory over repeated calls; valgrind"])
p("C05","Native results never depend on uninitialised memory",
  "Native code never reads or accumulates into scratch memory or local variables that have not been set on that path, and buffers it clears are cleared over their whole extent, for every number of slices, iterations and options.",
  ["inputs","histories"],"for every path and every set of dimensions",
  "Fresh pages from the operating system are usually zero, so a missing clear passes the tests and only shows in long-lived processes or with several slices per call.",
  KER+MISC,[("calloc/memset before accumulation","source/libtomo/**/*.c")],["repeat a call in a process with a dirty heap"])
p("C06","Native calls may run concurrently without sharing mutable state",
  "Any number of native calls can run at the same time in different threads of one process, as reconstruction does for groups of slices, without affecting each other: no call writes to static or global variables, uses a non-reentrant library service, or uses the FFT planner without making it thread safe. The Python code run inside worker threads likewise writes no module-level state, and two threads of one call never store to the same array element.",
  ["schedules"],"for every interleaving of concurrent calls, with any thread count",
  "Tests are short and mostly single slice; races on shared state show up only under particular interleavings.",
  KER+["source/libtomo/prep/stripe.c","source/libtomo/misc/remove_ring.c","include/libtomo/filters.h","source/tomopy/recon/algorithm.py","source/tomopy/util/extern/recon.py"],[("locals only","source/libtomo/**/*.c"),("planner lock","source/libtomo/gridrec/gridrec.c fftwf_make_planner_thread_safe"),("thread pool","source/tomopy/recon/algorithm.py _dist_recon")],["ncore=1 vs ncore=N results, repeated"])
p("C07","Parallel loops in native code are free of data races",
  "In every loop that native code runs in parallel, two iterations never write the same location and never read a location another iteration writes: each scalar temporary is private to its iteration and each iteration writes only its own array elements. Results are therefore the same for every thread count.",
  ["schedules"],"for every thread count and schedule of every parallel region",
  "The stable tests exercise only small volumes and compare with tolerance; a racing scalar or stencil shows only under contention.",
  ["source/libtomo/misc/inpainter.c","source/libtomo/misc/median_filt3d.c","source/libtomo/prep/stripes_detect3d.c"],[("OpenMP private/shared clauses","source/libtomo/misc/*.c, source/libtomo/prep/stripes_detect3d.c"),("separate input and output buffers","same files")],["results for ncore=1 vs many"])
p("C08","Processing functions never modify the arrays they are given as input",
  "A call to a reconstruction, simulation, preprocessing, filtering or morphology function leaves every input array of the caller bit-for-bit unchanged, for every dtype and layout, unless the caller explicitly asked for in-place work by passing that array as the output or as the initial guess. Native kernels never write through pointers that carry input data.",
  ["inputs","histories"],"for every public processing function, every input dtype and layout, and every option",
  "Tests check returned values, rarely the inputs; modification happens only for particular dtypes (no conversion copy) or options.",
  PREP+PMISC+["source/tomopy/recon/algorithm.py","source/tomopy/sim/project.py","source/tomopy/recon/rotation.py","source/tomopy/util/mproc.py"]+KER,[("copies on entry","dtype.as_float32 / as_sharedmem / .copy()"),("const pointers","include/libtomo/*.h")],["np.array_equal(before, after)"])
p("C09","Each slice is reconstructed on its own, with its own rotation center",
  "The reconstruction (and projection) of a slice depends only on that slice's data, that slice's rotation center and that slice's initial guess or regularisation data: it is the same whichever other slices are in the same call or the same group. No native kernel uses another slice's center or data, or carries scratch values over from a previously processed slice.",
  ["inputs","configurations"],"for every number of slices, every per-slice center array, every ncore/nchunk grouping",
  "Tests use one center for all slices and compare to references made with one grouping.",
  KER+["source/tomopy/recon/algorithm.py"],[("per-slice indexing center[s], data[s], recon[s]","source/libtomo/recon/*.c, gridrec.c"),("per-slice scratch reset","calloc/memset inside the slice loop"),("consistent slicing of arguments","source/tomopy/recon/algorithm.py _dist_recon")],["recon(tomo)[i] == recon(tomo[i:i+1])"])
p("C10","Parallel work division covers every element exactly once",
  "Whatever the array length, core count and chunk size, the pieces into which an axis is divided for workers are disjoint, in order and cover the whole axis, and each piece's result is stored at the piece it was computed from. What a piece yields does not depend on which pieces the same worker handled before it.",
  ["inputs","configurations","schedules"],"for every axis length, ncore (including None, 0, more than the length) and nchunk",
  "Tests use a few sizes on one core count; off-by-one errors need lengths that do not divide evenly.",
  ["source/tomopy/util/mproc.py","source/tomopy/recon/algorithm.py","source/tomopy/misc/corr.py","source/tomopy/prep/stripe.py","source/tomopy/sim/project.py"],[("chunk arithmetic","source/tomopy/util/mproc.py get_ncore_nchunk, get_ncore_slices, distribute_jobs"),("per-piece write-back","source/tomopy/util/mproc.py _arg_parser; submit loops in corr.py")],["results with ncore/nchunk varied"])
p("C11","Every sweep uses every measured projection and detector pixel exactly once",
  "In every iteration of every reconstruction algorithm, and in projection simulation, each projection angle and each detector pixel of a slice is visited exactly once, including the last ones, for every data size; ordered-subset algorithms divide the projections into subsets that together contain each projection exactly once, also when the number of subsets does not divide the number of projections.",
  ["inputs"],"for every number of projections, pixels, subsets and every visiting order",
  "Dropping a few projections changes results within the tolerance of the tests; default runs use a single subset.",
  KER,[("loop bounds over angles and pixels","source/libtomo/recon/*.c"),("subset arithmetic","source/libtomo/recon/{bart,osem,ospml_hybrid,ospml_quad}.c")],["dependence of the result on each single data element"])
p("C12","A failure in any worker reaches the caller",
  "When the work of a call is spread over threads or processes and any piece fails, the call raises: it never returns a partially computed or uninitialised array as if it had succeeded, and it never waits forever. No error is swallowed by a handler that only logs or ignores it.",
  ["fault_sequences","schedules"],"for every parallel public function, any piece failing in any way at any time",
  "Tests never make a worker fail.",
  ["source/tomopy/util/mproc.py","source/tomopy/recon/algorithm.py","source/tomopy/recon/wrappers.py","source/tomopy/misc/corr.py","source/tomopy/prep/stripe.py","source/tomopy/sim/project.py"],[("result collection","futures' result()/exception(), map_async(...).get()")],["call with a worker that raises"])
p("C13","Process-wide settings are put back however a call ends",
  "Environment variables, thread-count settings of libraries, locks and shared-memory registrations that a call changes are restored or released when the call ends, whether it returns normally or raises at any point. A failed call therefore never changes how later calls behave.",
  ["fault_sequences","histories"],"for every public call and every point at which it can raise",
  "Tests do not look at process state after a call, least of all after a failing one.",
  ["source/tomopy/recon/algorithm.py","source/tomopy/recon/wrappers.py","source/tomopy/util/mproc.py","source/tomopy/prep/normalize.py","source/tomopy/misc/corr.py","source/tomopy/prep/phase.py"],[("context managers / try-finally","mproc.set_numexpr_threads, _dist_recon"),("shared registrations","mproc.init_shared/clear_shared")],["os.environ, numexpr thread count after a raising call"])
p("C14","Calls leave no residue: results do not depend on earlier calls",
  "No call changes module-level option tables, default argument values or the option dictionaries and lists passed by the caller; the same call with the same arguments behaves the same however many and whichever calls were made before it in the process.",
  ["histories"],"for every sequence of public calls",
  "Each test makes few calls and none compares repeated calls after others.",
  ["source/tomopy/recon/algorithm.py","source/tomopy/recon/wrappers.py","source/tomopy/recon/acceleration.py","source/tomopy/util/mproc.py","source/tomopy/prep/stripe.py","source/tomopy/misc/corr.py"],[("copies of option tables","source/tomopy/recon/algorithm.py recon"),("defaults","function signatures")],["module tables before/after; repeat call"])
p("C15","Every documented algorithm and option is implemented, and only those",
  "Every algorithm name the reconstruction front end accepts has an implementation, every option it accepts for that algorithm has a default and is used by that implementation, every option an implementation needs is accepted for it, and a name or option outside the documented set is rejected with an error. The filter names documented for analytic reconstruction are exactly those native code recognises.",
  ["inputs","configurations"],"for every algorithm name x option name",
  "Tests call each algorithm with a few options; unused or misnamed options are silently defaulted.",
  ["source/tomopy/recon/algorithm.py","source/tomopy/util/extern/recon.py","source/tomopy/util/extern/gridrec.py","source/tomopy/util/extern/accel.py","include/libtomo/filters.h"],[("registries","source/tomopy/recon/algorithm.py allowed_recon_kwargs, _get_algorithm_kwargs"),("dispatch","_get_func -> tomopy.util.extern.c_*"),("filter table","include/libtomo/filters.h get_filter")],["recon(..., algorithm=a, option=v) for all a, option"])
p("C16","Every parameter of a public function has the effect it names",
  "No public function or native function silently ignores one of its declared parameters or uses one parameter in place of another: core count, chunk size, axis, value thresholds, sizes and angles given by the caller arrive at the work they name, unswapped, on every path.",
  ["inputs","configurations"],"for every public function and every parameter",
  "Tests mostly use defaults, for which ignoring or swapping a parameter is invisible.",
  PREP+PMISC+["source/tomopy/sim/project.py","source/tomopy/recon/rotation.py","source/tomopy/recon/vector.py","source/libtomo/recon/vector.c"],[("parameter forwarding","call sites in the listed modules")],["change one parameter, observe the effect"])
p("C17","When an output array is given, that array receives and is the result",
  "Every function that accepts an output array writes its complete result into exactly that array and returns it, for every option; when none is given it returns a newly made array.",
  ["inputs"],"for every function with an output argument, every path",
  "Tests check values of the returned array for few functions and do not check identity.",
  PMISC+["source/tomopy/prep/normalize.py","source/tomopy/prep/stripe.py","source/tomopy/util/mproc.py"],[("out handling","`out` parameters of the listed modules")],["returned is out; out content"])
p("C18","Unsupported selector values are rejected; no undefined result is returned",
  "Selector arguments (modes, methods, names, sides, axes) outside the documented set raise an error before any work; no path of a public function returns memory it never filled in or fails on a variable that path never set.",
  ["inputs"],"for every selector value and every path",
  "Tests pass valid selectors; uninitialised arrays often happen to hold zeros.",
  ["source/tomopy/recon/algorithm.py","source/tomopy/recon/rotation.py","source/tomopy/prep/alignment.py","source/tomopy/misc/corr.py","source/tomopy/misc/morph.py","source/tomopy/sim/propagate.py","source/tomopy/sim/project.py"],[("validation branches","raise ValueError sites")],["call with an unsupported selector"])
p("C19","Results are deterministic",
  "Apart from the functions documented to add random noise or to inpaint at random, every public function is a function of its arguments: no result depends on random numbers, the clock, process or thread identity, memory addresses, hash or completion order, nor on the number of processors or on how the work is divided over workers.",
  ["schedules","histories"],"for every public function, run any number of times",
  "Tests run each call once.",
  PREP+PMISC+KER+["source/tomopy/recon/algorithm.py","source/tomopy/recon/rotation.py","source/tomopy/sim/project.py"],[("absence of such sources","call graph of public functions")],["repeat a call, compare bitwise"])
p("C20","Processing steps keep the caller's array geometry",
  "Normalisation, ring/stripe removal, filtering, phase retrieval and correction functions return data with the shape and axis order of their input for every size (odd, even, rectangular): internal padding is cropped by what was added, axis swaps are undone, and stacking offsets match.",
  ["inputs"],"for every input shape and every option",
  "Tests use a handful of shapes, mostly even and small.",
  PREP+["source/tomopy/misc/corr.py"],[("pad/crop pairs","source/tomopy/prep/phase.py, stripe.py"),("swap pairs","source/tomopy/misc/corr.py, prep/stripe.py")],["out.shape == in.shape; position of a marker pixel"])
p("C21","Reconstructions converge to the measured object",
  "Given enough consistent projections, each reconstruction algorithm returns an image that approximates the measured object, and iterative algorithms reduce their objective with further iterations.",
  ["inputs"],"for all objects, angle sets and iteration counts","Tests compare against a few stored references.",
  KER,[("solvers","source/libtomo/recon/*.c")])
p("C22","Simulated projections are the line integrals of the object",
  "Each simulated projection value is the line integral of the object along the ray of that angle and pixel, linear in the object.",
  ["inputs"],"for all objects, angles and centers","One stored reference.",
  ["source/libtomo/recon/project.c","source/libtomo/recon/utils.c","source/tomopy/sim/project.py"],[("ray tracer","source/libtomo/recon/utils.c")])
p("C23","Rotation-axis finders return the true axis",
  "For data of an object rotated about a known axis, each center finder returns that axis within its stated tolerance.",
  ["inputs"],"for all objects and axis positions","One data set each.",
  ["source/tomopy/recon/rotation.py"],[("search","source/tomopy/recon/rotation.py")])
p("C24","Native code is memory safe for value-dependent indices",
  "Array positions computed from data values, from user-supplied orderings or from floating-point geometry (visiting order, ring radii, intersected pixels) stay inside their arrays for every input.",
  ["inputs"],"for all data values and orderings","Tests sample few values.",
  ["source/libtomo/recon/utils.c","source/libtomo/misc/remove_ring.c","source/libtomo/gridrec/gridrec.c"],[("clamping and trimming","trim_coords, calc_dist, polar_transform")])
p("C25","Corrections have their documented numerical effect",
  "Normalisation divides by the flat-field response, stripe and ring removal reduce the named artefact without altering stripe-free data beyond tolerance, filters compute the documented statistic.",
  ["inputs"],"for all data values","Stored references for a few arrays.",
  PREP+["source/tomopy/misc/corr.py"],[("formulas","the listed modules")])
p("C26","Arrays that do not fit together are refused before native code sees them",
  "For every public function and every combination of sizes of its array arguments (projections and angles, slices and rotation centers, data and masks, components of one object, initial guesses, projection orders, custom filters), either an error is raised before native code runs, or every array handed to native code has exactly the extent native code works on.",
  ["inputs"],"for every combination of argument array sizes",
  "Tests pass arrays that fit; reading past the end of an array that is too short usually goes unnoticed.",
  ["source/tomopy/recon/algorithm.py","source/tomopy/recon/vector.py","source/tomopy/sim/project.py","source/tomopy/misc/corr.py","source/tomopy/util/extern/recon.py","source/tomopy/util/extern/gridrec.py","source/tomopy/util/extern/misc.py"],[("size checks","raise ValueError sites before extern.c_*"),("extents native code works on","dimension arguments of the native calls")],["call with one array longer or shorter than the others"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
