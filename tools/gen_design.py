import json
seeds = '@@SEEDS@@'
t = r'''# Static verification of tomopy/tomopy

Family: static analysis.  Every check decides from /repo's *current* source, parsed anew on each run; the code under
analysis is never imported, compiled into a program, run, or handed to a solver.  `check.py <id>` runs the passes of one property
and writes `evidence/<id>.json` (what was enumerated, how many obligations, rule applied) and, on a violation,
`evidence/<id>.findings.json` (file, function, line, message per finding).

## 1. How it decides

### 1.1 Native side (`lib/cfront, cabs, cconst, cmodel, cpass, poly`)

* clang's AST (`-ast-dump=json`, the build's defines) of every libtomo `.c` file is interpreted by `cabs.py`: integers are
  polynomials over parameters and loop counters, pointers are (buffer, offset polynomial), callees with a body are
  inlined, loops stay symbolic, branches are kept as guards.  Result: one *event tree* per exported function (loops,
  guards, reads, writes, allocations, releases, clears, calls).  All native passes work on that tree, so helper
  extraction, renaming, loop form and statement order do not change the verdict.
* Index obligations (C03): the index polynomial over the loop box against the extent of the buffer, with the guards on
  the path as conditions.  Extents of the parameters come from the contract of the exported function (`cmodel.py`), which C26
  and C01 establish on the Python side.  Undecided obligations are then examined over a *witness domain*: all
  small assignments of the dimensions (sizes that differ, odd/even, boundary options); floating-point positions are
  interval-evaluated and small loops unrolled.  Only a concrete assignment for which the analysed index
  leaves the buffer under all its guards is reported, and only where it is a consequence of loop counters, dimensions
  and options; indices read from data are C24, not claimed.
* C03's Python part: where native code is only safe for a range of an option (`nair`, `num_block`, ring centre,
  searching window …), the value that reaches the native call is evaluated for near-limit values of the public argument; either
  the Python layer raises or the value is inside the range native code needs.

### 1.2 Python side (`lib/pyval, pyabs, pymodel, pynp, pyext, pyscen, pytab, pypass, pyp1–pyp4`)

* `pyabs.py` interprets the syntax trees of `source/tomopy` from the public entry points; package functions are inlined,
  including those passed to `distribute_jobs`, `submit`, `map`, `map_async`.  numpy/scipy/numexpr/pywt/concurrent/
  multiprocessing calls are transfer functions (`pynp`, `pymodel`, `pyext`).
* Abstract array = geometry (shape, strides, dtype, alias root), plus *per element*: was it initialised, which element of
  which argument it was computed from (`src`: element, constant, mixture), which sources it depends on (taint labels:
  argument names, `#random`, `#clock`, `#order`, `#mix:…`), and who stored it.  Numbers are unknown, except scalars and
  small constant arrays, which are folded.
* `pytab.py` lists the public functions and per function the argument classes to enumerate (every documented selector
  value, every option's variants, layouts, dtypes, core counts, chunk sizes, output arrays, wrong values).  Array
  sizes: (5,3,7), (6,4,8), (3,5,4) plus permuted sizes — pairwise different, odd and even, slices fewer or more than
  cores, more or fewer slices than projections.  Unknown branch conditions fork (bounded number of paths, counted).
  Completion order of workers is reversed, processor count is 1, 2, 3 or 8, faults are injected at every call that can
  raise (C12, C13).
* What this is not: no element *values* exist, so nothing is tested; every conclusion is about where data flows.

### 1.3 Verdict rule

A check reports only what the analysis shows; what it cannot decide is counted as `undecided` in the evidence and is no
alarm.  An anchor that vanishes (no native call, no slice loop, no worker found at all; file not parsable) is an error exit, not a pass.
Native passes are isolated per function: a construct outside the front end makes that function undecided and leaves the
others decided.

## 2. Properties

| id | what is enumerated, and the rule | bound |
|----|----|----|
| C01 | every `LIB.sym(...)` call reached from a public function: symbol is defined, count, converter kind against clang's parameter type, pointee; role of every position (dimension and option values are traced from the shapes of the arguments and compared with the native parameter names); header = definition; an `init_recon`/`reg_data` of another shape is refused | scenarios of 1.2 |
| C02 | state (dtype, contiguity, alignment with the window of the root) of every array at every native call, over 5 layouts × 5 dtypes × shared memory of every array argument | scenarios |
| C03 | 1.1 | none for polynomial obligations; witness domain for the rest |
| C04 | typestate owned/released/escaped per allocation along every path, per loop iteration, incl. early returns | none |
| C05 | read-before-write of locals and scratch on every path; extent of clears against extent of reads; iteration-carried clears | none / witness domain |
| C06 | writes to statics and globals, non-reentrant library calls, FFTW planner without `fftwf_make_planner_thread_safe`, in the call graph of all exported functions; Python: module state, environment, numexpr thread count written in worker threads, two threads storing to one element | none / scenarios |
| C07 | per OpenMP directive: shared scalars written, index injective in the parallel counter, reads of what another iteration writes | none |
| C08 | native stores through `const`/input pointers; Python in-place stores whose root is a caller's array, for all dtypes and layouts (a copy that is only made for some dtypes is found) | scenarios |
| C09 | native: every access per slice uses the slice counter's stride, `center[s]`, and no accumulator or scratch value survives from slice to slice; Python: provenance of each element handed to the native call: slice s of the data with center s, initial guess s, reg_data s; `write_center` gives gridrec/art one trial center per native call | none / scenarios |
| C10 | pieces handed to workers: disjoint, in order, covering; store lands where it was read; native in-place work sees the whole array; no job reads what an earlier job of the same worker stored in a common (pickled-together) argument; blocks of block-wise functions leave no part at a constant; core count 1,2,3,8,None × chunk None,0,1,2,5 × axis | scenarios |
| C11 | every projection/detector loop nest visited with counts exactly one per (p, d) per iteration; subset partition `q→p` for dt and num_block not dividing; data-dependent skips of a projection | none / witness domain |
| C12 | exception flow: an injected failure in the n-th task (raise, process death) must leave the public call as an exception; futures and AsyncResults never inspected; handlers that swallow | each task, each raising site |
| C13 | environment, numexpr threads, locks, shared-memory tables at the exit of each normal path and of each path with a fault injected at each site that can raise | each site |
| C14 | two-call sequences f(a);f(b) and f(a);g(b): module tables, defaults, caller's containers unchanged; the second call's abstract result and native arguments equal those of a fresh process | all pairs that write state |
| C15 | name sets: front-end tables, dispatch, native functions, option defaults, options consumed, filter names against the native table; near-miss and foreign names must raise | all names |
| C16 | native: each parameter read with an effect and not crossed; Python: label of each parameter must reach native arguments/results/work division, its variants must not give the identical call, positional meaning not swapped; pools start as many workers as `ncore` says, not as the machine has; kernel windows lie along the requested axis and have the requested size; documented exemptions listed in `pytab` (`dead`, `skip`) | scenarios |
| C17 | returned object is the given array, all of it stored, and equal (provenance) to the result without `out`; none given: fresh array | out × layout × dtype × options |
| C18 | near-miss, empty, foreign and module-literal selector values raise before native work; no read of an unset variable; no element of a result uninitialised | all selectors |
| C19 | taint from random/clock/identity/order/hash to results and native arguments; same result under reversed completion order and 1/3/8 processors; *division*: operations that combine elements (sums, filters, extremes) see the same element sets for 1, 2, 8 workers, numbers handed to library calls are the same, and no number or size test derives from the extent of a *piece* (extents that vary with the division are tainted on entry to worker functions) | scenarios |
| C20 | shape in = shape out for all size classes; element provenance: element i of the result comes from element i of the input (pads cropped by what was added, swaps undone), also through fft pairs, wavelet levels and partial stores; elements of two different places are not combined; valid data never ends in an implicit IndexError/ValueError | scenarios |
| C26 | every combination of sizes too small, too large or permuted for each pair of array arguments: raises before native code, or extents equal the native contract | each pair |
| C21–C25 | not applicable: truth lies in floating-point results or values of data (reasons in MANIFEST) | |

Cost: C19 ≈ 65 s, C26 ≈ 45 s, C10 ≈ 32 s, C18/C20 ≈ 30 s, the others less (8 cores).  Why this reaches what the tests cannot:
the tests use one or two sizes, contiguous float32 data and no failing worker, and compare to stored results; the
analysis enumerates classes of calls and all native index expressions symbolically.

## 3. Known limits (stated so that silence is not over-read)

* C03: index expressions through data (`ind_block`, `indi`, polar radii) are C24.  `downsample` mis-indexes
  (not out of bounds) when the axis is not divisible by 2^level: no property here decides it.
* C06: arrays guarded by a lock are undecided.  C09: the ufo/lprec wrappers take one center for the volume by
  documentation and are outside; external wrappers are analysed for the other properties only.
* C10: `nchunk=0` (dimension removed) on one-dimensional arrays is excluded.
* C12: handlers of KeyboardInterrupt are not followed.  C15: `fbp` accepts `filter_name` through the shared table.
* C16: lprec's `theta` is exempt (the library assumes equally spaced angles).
* C19: a loop whose *number of rounds* follows from a piece's extent through a maximum with other extents is not seen.
  C20: the place an element stems from is followed through fft pairs, wavelet levels (dwt/idwt) and partial stores;
  elements whose place is lost (resampling, sorting, gathers through data) are undecided.
* C10: a job of a process pool that reads what an earlier job left in a common argument is reported also when the value
  happens to be the same (an idempotent update); nothing in the tree does that.
* C16: a parameter of the worker count is not required to reach anything when a call runs nothing in parallel.
* `find_center_vo`'s path for volumes that do not fit in memory is not followed.
* Loops in Python over unknown counts are explored for 0–2 rounds.

## 4. Findings in tomopy

Each was first shown on the real code, then repaired by a `fix:` commit or recorded (`known_findings.json`).

Recorded, not repaired (needs an interface or algorithm decision):

'''
k = json.load(open('known_findings.json'))
for x in k['known']:
    t += '* %s `%s` – %s\n' % (x['property'], x['key'], x['what'])
t += '\nRepaired (%d commits): ' % len(k['fixed']) + '; '.join(
    '%s %s %s' % tuple(x.replace('fixed: property=', '').split(' ', 2)) for x in k['fixed']) + '.\n'
t += r'''
False alarms met while building are not findings; the property or the machinery was narrowed instead: `fbp`'s filter
option in the shared table (C15), the single center that ufo/lprec document (C09), lprec's implied angles (C16),
`nchunk=0` on one-dimensional arrays (C10), arrays guarded by a lock (C06, undecided).

## 5. Planted bugs

`tools/mkseed.py tools/seeds/*.py` creates `seeded/<id>/` and validates each (applies, builds, stable tests pass, demo 0 → nonzero, check → 1).

'''
import glob, os
rows = []
for d in sorted(glob.glob('seeded/*')):
    m = json.load(open(d + '/meta.json'))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(d), m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
t += '| seed | caught by | breaks | needs |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
t += r'''
Beyond these, a larger number of unkept mutants (`tools/mut.py LIST`: apply in a scratch copy, run the checks, compare with the
expected property) were run over native kernels, option tables, mproc, recon, sim, prep and misc.  Missed ones led to: the witness
domain and float evaluation (C03), carried accumulators (C09/C19), near-miss selectors (C15/C18), windows (C16),
division of the work (C19), implicit errors (C20), permuted sizes (C26).  workers that share arguments (C10), trial centers in one native call (C09), pool sizes (C16),
places through transforms (C20).  Misses that remain: loop counts from mixed extents (C19), `constant_values` halves of `pad`.

Refactorings: five trees with behaviour-preserving edits (helpers extracted, loops rewritten, statements reordered,
comprehensions, keyword/positional swaps, renamed locals; native: merged loops, pointer walks, helper functions) are kept
outside the repository during development; all checks are quiet on them.  `tools/xval.py` compares the abstract interpreter's shapes and
dtypes with what the real functions return; it and `mut.py` are development aids and decide nothing.
'''
open('DESIGN.md', 'w').write(t)
