"""Writes MANIFEST.json from the tables below."""
import json
PYN = ('for every listed public function x option x dtype x memory layout; array contents stay unknown, array dimensions are '
       'instantiated at witness sizes (all different, odd and even), both outcomes of undecidable conditions are followed.')
TECH = {
 'C03': ('abstract interpretation of the C syntax tree (symbolic index ranges against buffer extents)',
         'Every access of every exported native function is an obligation: index polynomials over loop counters and '
         'dimension parameters are bounded symbolically or refuted at witness dimensions; value-dependent indices are undecided and quiet.'),
 'C04': ('path-sensitive ownership (typestate) analysis of allocations over the C syntax tree',
         'All branch paths of every exported native function, helpers inlined; loops at zero/one/more iterations.'),
 'C05': ('definite-initialisation and index-coverage dataflow over the C syntax tree',
         'Every read of malloced or automatic storage; index sets compared at witness dimensions; value-dependent ones undecided and quiet.'),
 'C06': ('effect analysis over the native call graph (static storage, non-reentrant services, planner lock)',
         'All functions reachable from an exported native function; the Python code of every worker thread of every public function, ' + PYN),
 'C14': ('abstract interpretation of the Python syntax tree (ownership of containers, two-call sequences)', 'Stores to module-level tables, default arguments and the caller\'s containers; every function called after itself and after others with other arguments and compared with a fresh process, ' + PYN),
 'C19': ('taint analysis of sources of chance (Python syntax tree, native call graph); sets of elements combined under different work divisions', 'Every public function under both completion orders and 1, 2, 3 and 8 processors, ' + PYN),
 'C07': ('dependence analysis of OpenMP loops (private/shared scalars, per-iteration index sets)',
         'Every OpenMP loop; index sets of different iterations compared at witness dimensions.'),
 'C08': ('alias and effect analysis (native stores; abstract interpretation of the Python syntax tree)', 'Every store of native code is attributed to the pointer parameters it may alias; every store of the Python layer to the argument array it may alias, ' + PYN),
 'C02': ('abstract interpretation of the Python syntax tree (array geometry and element type domain)', 'Every pointer of every native call is an obligation, ' + PYN),
 'C01': ('abstract interpretation of the Python syntax tree (call arguments against the C prototypes)', 'Every argument of every native call is an obligation: count, machine type, pointee type, extent and meaning against the native declaration, ' + PYN),
 'C10': ('abstract interpretation of the Python syntax tree (partition and store-disjointness domain)', 'Piece arithmetic over a grid of axis lengths, core counts and chunk sizes; stores of the workers of every parallel function compared pairwise, elements that a job reads from an argument after an earlier job of the worker stored there, ' + PYN),
 'C12': ('exception-flow analysis by abstract interpretation of the Python syntax tree', 'Every external operation and every piece of work is made to raise in turn, as several exception classes and both completion orders, ' + PYN),
 'C13': ('typestate of process-wide settings over all normal and exceptional paths (abstract interpretation of the Python syntax tree)', 'Every external operation is made to raise in turn, also as an interrupt, ' + PYN),
 'C17': ('abstract interpretation of the Python syntax tree (alias and store-coverage domain)', 'Every function with an output argument, ' + PYN),
 'C18': ('abstract interpretation of the Python syntax tree (definite initialisation of variables and array elements)', 'Every public function and selector value, ' + PYN),
 'C20': ('abstract interpretation of the Python syntax tree (array geometry and element provenance domain)', 'Every shape-preserving public function, ' + PYN),
 'C09': ('dataflow: slice index of every per-slice access and carried accumulators (C), slice provenance of every native argument (Python syntax tree)',
         'Every per-slice access of every reconstruction and projection kernel; which slices of data, center, initial guess and result each native call gets, ' + PYN),
 'C11': ('symbolic iteration-space counting over the C syntax tree',
         'Visits per measured ray counted from loop bounds and subset arithmetic at witness dimensions.'),
 'C15': ('constant propagation through the option tables and dispatch of the Python layer and through the native filter table', 'Every algorithm x option x value documented or accepted, plus names outside the documented set, followed to the native call; ' + PYN),
 'C16': ('use-definition analysis of parameters (native event trees; dependence labels in abstract interpretation of the Python syntax tree)', 'Every declared parameter of every exported native function; every parameter of every public function must reach a result, a native argument, a piece of work or a decision, in its own role, ' + PYN),
 'C26': ('abstract interpretation of the Python syntax tree (array sizes against the extents native code works on)', 'Every public function with every array argument made longer, shorter or of another dimension in turn, ' + PYN),
}
NA = {
 'C21': 'Convergence is a numerical property of runs over real data: no static argument in reach bounds it.',
 'C22': 'The value of a line integral depends on floating-point geometry computed at run time; not decidable from the source by a sound static rule.',
 'C23': 'Accuracy of a numerical search on image data quantifies over values only known at run time.',
 'C24': 'Index values come from image data, user orderings and floating-point geometry; bounding them needs value reasoning outside static analysis in reach.',
 'C25': 'Numerical effect on image values quantifies over run-time data.',
}
allp = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks = []
for p in allp:
    if p in TECH:
        t, n = TECH[p]
        checks.append(dict(property=p, quick_cmd='python3 check.py %s' % p, thorough_cmd='python3 check.py %s thorough' % p,
                           evidence_file='evidence/%s.json' % p, technique=t, level='other',
                           level_note=n + ' Decided on the current source on every run; trusts the clang/ast front ends and the abstract semantics in lib/.'))
na = [dict(property=p, reason=NA.get(p, 'not built yet')) for p in allp if p not in TECH]
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open('/verif/MANIFEST.json', 'w'), indent=1)
