"""C16 (every parameter has its effect) and C15 (algorithms and options), Python layer."""
import itertools

import numpy as np

from pyval import *
import pypass as P
import pytab
import pyp3
from pyscen import Arr, Same, Scn, Fun, Ref, explore, run

# parameters that another option makes irrelevant: (function, parameter) -> predicate over the arguments
MOOT = {
    ('align_seq', 'fdir'): lambda a: not a.get('save'),
    ('align_joint', 'fdir'): lambda a: not a.get('save'),
    ('align_seq', 'rin'): lambda a: not a.get('blur'),
    ('align_seq', 'rout'): lambda a: not a.get('blur'),
    ('align_joint', 'rin'): lambda a: not a.get('blur'),
    ('align_joint', 'rout'): lambda a: not a.get('blur'),
    ('find_center', 'ratio'): lambda a: not a.get('mask'),
    ('write_center', 'ratio'): lambda a: not a.get('mask'),
    ('recon', 'algorithm'): lambda a: isinstance(a.get('algorithm'), Ref),
    ('load_distortion_coefs', 'file_path'): lambda a: True,
    ('recon', 'theta'): lambda a: repr(a.get('algorithm')).endswith('lprec'),     # the package takes equally spaced angles
    ('tilt', 'obj'): lambda a: True, ('tilt', 'rad'): lambda a: True, ('tilt', 'phi'): lambda a: True,   # not implemented
}


def c16_units(tier):
    out = []
    dims = P.SIZES[0]
    for i, f in enumerate(pytab.table(*dims)):
        if 'C16' in f.skip:
            continue
        for lab, a in P.variants(f, ('base', 'var', 'out')):
            if lab != 'base' and any(repr(a.get(p)) != repr(f.base.get(p)) for p in ('ncore',)) or lab.startswith(('out:same', 'in:')):
                continue
            if 'nchunk=' in lab and a['nchunk'] > 2:
                continue
            out.append(('C16', dims, i, lab, a))
        if 'axis' in f.base:
            out.append(('C16', dims, i, 'AXIS', dict(f.base)))
    return out


def reached(o):
    """names of the parameters whose values reach the result or an effect; those that steer a branch"""
    d = pyp3.labels(o.value) | o.it.sink_deps
    for v in (o.params or {}).values():
        for x in P.roots_in(v):
            if x.root.written.any():
                d |= x.root.deps
    for e in P.natives(o):
        for x in e['args']:
            d |= pyp3.labels(x.arr if isinstance(x, Nat) and x.kind == 'cptr' else x)
    return set(x.split('.')[0] for x in d), set(x.split('.')[0] for x in o.it.branch_deps), d


def trace(o):
    """what the call did, as far as geometry shows it"""
    t = [pyp3.digest(o.value), [len(r.base) for r in o.it.roots]]
    for e in o.it.events:
        if e['kind'] == 'native':
            t.append((e['sym'],) + tuple(pyp3.digest(x) for x in e['args']))
        elif e['kind'] == 'task':
            t.append(tuple(pyp3.digest(x) for x in e['args']))
    return t


# names of the leading parameters of library functions
EXTPOS = {'gaussian_filter': ('input', 'sigma', 'order'), 'median_filter': ('input', 'size'), 'sobel': ('input', 'axis'),
          'uniform_filter1d': ('input', 'size', 'axis'), 'uniform_filter': ('input', 'size'), 'gaussian': ('M', 'std'),
          'medfilt2d': ('input', 'kernel_size'), 'medfilt': ('volume', 'kernel_size')}


def swaps(args, seen):
    """hook on calls inside the package: one parameter handed over in place of another"""
    pub = set(k for k, v in args.items() if v is not None)

    def ext(it, path, pos, kw, node):
        b = dict(zip(EXTPOS.get(path.rsplit('.', 1)[-1], ()), pos))
        b.update((k, v) for k, v in kw.items() if isinstance(k, str))
        look(it, path, b, node)

    def hook(it, fn, bound, node):
        if it.stack and it.stack[-1][0] != '<user>' and not fn.mod.endswith('dtype'):
            look(it, fn.name, bound, node)

    def look(it, name, bound, node):
        for q, v in bound.items():
            if q not in pub:
                continue
            other = None
            if isinstance(v, K) and not isinstance(args[q], (Arr, Same)):
                # another scalar parameter handed on unchanged
                own = [x for x in v.deps if x in args]
                if len(own) == 1 and own[0] != q and type(args[own[0]]) is type(v.v) and args[own[0]] == v.v:
                    other = own[0]
            elif isinstance(v, A) and isinstance(args[q], Arr) and v.root.owner.startswith('param:'):
                if v.root.owner[6:] != q and v.shape == args[v.root.owner[6:]].shape:
                    other = v.root.owner[6:]
            if other:
                seen.append((name, q, [other], it.site(node)))
    return dict(on_call=hook, on_ext=ext)


# native parameters that take the number the caller gives as it is
ASIS = {'num_iter', 'num_block', 'ngridx', 'ngridy', 'axis', 'axis1', 'axis2', 'axis3', 'level', 'nair', 'center_x', 'center_y',
        'thresh_max', 'thresh_min', 'threshold', 'angular_min', 'ring_width', 'ratio_radius', 'threshold_val', 'stripe_length_min',
        'stripe_depth_min', 'stripe_width_min', 'mu_threshold', 'iterations', 'pool_size'}


def unchanged(f, where, o, args, rep):
    import pyp1
    m = pyp1.OPT.get(f.fn.split('.')[-1])
    if not m:
        return
    for e in P.natives(o):
        sym = e['sym']
        for i, x in enumerate(e['args']):
            r = P.role(sym, i)
            p = m.get(r)
            v = args.get(p)
            if r not in ASIS or isinstance(v, bool) or not isinstance(v, (int, float)):
                continue
            if r == 'num_block' and getattr(f, 'alg', '') in ('mlem', 'sirt', 'pml_hybrid', 'pml_quad'):
                continue
            n = num(x)
            if n is None:
                rep.und('%s.%s is not known' % (sym, r))
            elif abs(n - v) > 1e-5 * max(abs(v), 1e-30):
                rep.bad('%s:%s:%s:value' % (P.fkey(f), sym, r), '%s: native %s() is given %s=%s for %s=%s' % (
                    where, sym, r, n, p, v), e['site'], f)
            else:
                rep.ok('%s: %s arrives as %s.%s' % (where, p, sym, r))


# extent of the window a filter of the Python layer uses along every axis of the caller's array
WINDOW = {
    'misc.corr.remove_outlier': lambda n, a: [1 if i == a['axis'] % n else a['size'] for i in range(n)],
    'misc.corr.remove_outlier1d': lambda n, a: [a['size'] if i == a['axis'] % n else 1 for i in range(n)],
    'misc.corr.median_filter': lambda n, a: [1 if i == a['axis'] % n else a['size'] for i in range(n)],
}


def windows(f, args, got):
    """hook on the library's median filter: the window it is given, per axis of the caller's array"""
    def ext(it, path, pos, kw, node):
        if path.rsplit('.', 1)[-1] != 'median_filter' or not pos or not isinstance(pos[0], A):
            return
        a, size = pos[0], kw.get('size', pos[1] if len(pos) > 1 else None)
        n = len(a.shape)
        import pyp1
        if isinstance(size, Seq):
            w = [num(x) for x in size.items]
        elif isinstance(size, (K, A, Nat)):
            w = [num(size)] * n
        else:
            w = [None]
        sh = args['arr'].shape
        s = a.src()
        if None in w or len(w) != n or kw.get('axes') is not None or kw.get('footprint') is not None or (s < 0).any() or (
                s >= int(np.prod(sh))).any():
            got.append((None, it.site(node)))
            return
        # which axis of the caller's array every axis of this one runs along
        at = np.unravel_index(s, sh)
        full = [1] * len(sh)
        for d in range(n):
            if a.shape[d] < 2:
                continue
            k = [i for i in range(len(sh)) if (np.diff(at[i], axis=d) != 0).any()]
            if len(k) != 1:
                got.append((None, it.site(node)))
                return
            full[k[0]] = w[d]
        w = full
        one = [i for i in range(len(sh)) if (at[i] == at[i].reshape(-1)[0]).all()]
        got.append(([None if i in one else x for i, x in enumerate(w)], it.site(node)))
    return ext


def both(a, b):
    def f(*x):
        a(*x)
        b(*x)
    return f


def u_c16(f, lab, args, rep):
    name = f.fn.split('.')[-1]
    where = '%s [%s]' % (f.fn, lab)
    if lab == 'AXIS':
        ts = []
        for ax in f.var.get('axis', [0, 1, 2]):
            if ax is None:
                continue
            o = run(P.REPO[0], Scn(f.fn, dict(f.base, axis=ax)))
            if o.kind != 'return':
                rep.und('%s: axis=%s' % (P.fkey(f), ax))
                return
            ts.append((trace(o), 'axis' in reached(o)[0] | reached(o)[1]))
        if all(t == ts[0][0] for t, _ in ts) and not any(b for _, b in ts):
            rep.bad('%s:ignored:axis' % P.fkey(f), '%s: every value of the parameter axis gives the same computation' % f.fn, None, f)
        else:
            rep.ok('%s: axis changes the computation' % f.fn)
        return
    seen, wins = [], []
    hooks = swaps(args, seen)
    if f.fn in WINDOW:
        hooks['on_ext'] = both(hooks['on_ext'], windows(f, args, wins))
    o = run(P.REPO[0], Scn(f.fn, args), opts=hooks)
    rep.count('paths')
    for fn, q, have, site in seen:
        rep.bad('%s:swapped:%s:%s' % (P.fkey(f), fn, q), '%s: %s() is given %s as its %s instead of the caller\'s %s' % (
            where, fn, ' and '.join(have), q, q), site, f)
    if o.kind != 'return':
        if o.kind != 'raise':
            rep.und('%s: %s' % (P.fkey(f), o.why))
        return
    unchanged(f, where, o, args, rep)
    for w, site in wins:
        want = WINDOW[f.fn](len(args['arr'].shape), args)
        if w is None:
            rep.und('%s: window of the median filter' % where)
        elif any(x not in (None, y) for x, y in zip(w, want)):
            rep.bad('%s:window' % P.fkey(f), '%s: the median filter is given the window %s for size=%s, axis=%s (it should be %s)' % (
                where, w, args['size'], args['axis'], want), site, f)
        else:
            rep.ok('%s: window %s' % (where, w))
    n = args.get('ncore')
    if isinstance(n, int) and not isinstance(n, bool) and 'ncore' not in f.dead:
        for e in o.it.events:
            if e['kind'] == 'pool':
                w = e['n'].v if isinstance(e['n'], K) else e['n']
                if 'ncore' in dep(e['n']) or w not in (None, o.it.cpu) or n == o.it.cpu:
                    rep.ok('%s: the number of workers at line %s is not that of the machine' % (where, e['site'][2]))
                else:
                    rep.bad('%s:ignored:ncore:pool' % P.fkey(f), '%s: as many workers are started as the machine has processors, whatever ncore says' % where,
                            e['site'], f)
    data, branch, full = reached(o)
    if o.it.order and any(v is not None and p not in data for p, v in args.items()):
        # parameters that only matter when a test on the data turns out the other way
        for x in P.explore(P.REPO[0], Scn(f.fn, args), cap=16)[1:]:
            if x.kind == 'return':
                d, b, fu = reached(x)
                data, branch, full = data | d, branch | b, full | fu
    for p, v in args.items():
        rep.count('parameters')
        if v is None or p == 'axis' or p in f.dead or MOOT.get((name, p), lambda a: False)(args):
            continue
        soft = isinstance(v, (bool, str)) or isinstance(v, int) and p not in ('ncore', 'nchunk') or isinstance(args.get(
            'algorithm'), Ref)
        if p in data or soft and p in branch:
            rep.ok('%s: %s %s' % (where, p, 'reaches the work' if p in data else 'selects what is done'))
        elif p in ('ncore', 'nchunk') and not o.it.parallel and not any(e['kind'] in ('pool', 'task') for e in o.it.events):
            rep.ok('%s: nothing runs in parallel, %s has nothing to govern' % (where, p))
        else:
            rep.bad('%s:ignored:%s' % (P.fkey(f), p), '%s: the value of the parameter %s never reaches the work%s' % (
                where, p, ', it is only tested' if p in branch else ''), None, f)
        if isinstance(v, dict):
            for k in v:
                if p + '.' + str(k) in full or p + '.' + str(k) in o.it.branch_deps:
                    rep.ok()
                else:
                    rep.bad('%s:ignored:%s.%s' % (P.fkey(f), p, k), '%s: the entry %s of %s never reaches the work' % (
                        where, k, p), None, f)


# ------------------------------------------------------------------ C15
NATIVE = {'mlem': 'osem', 'pml_hybrid': 'ospml_hybrid', 'pml_quad': 'ospml_quad', 'sirt': 'bart'}
FILTERS = ['none', 'shepp', 'cosine', 'hann', 'hamming', 'ramlak', 'parzen', 'butterworth', 'custom', 'custom2d']
ALLOPT = ['num_gridx', 'num_gridy', 'num_iter', 'num_block', 'ind_block', 'filter_name', 'filter_par', 'reg_par', 'reg_data']
ACCOPT = ['accelerated', 'pool_size', 'interpolation', 'device', 'grid_size', 'block_size']
RECON = 'recon.algorithm.recon'
DIMS = (5, 3, 7)


def c15_units(tier):
    NA, NS, NC = DIMS
    T, TH = Arr(NA, NS, NC, main=True), Arr(NA)
    opts = pytab.options(*DIMS)
    out = []

    def u(lab, **a):
        out.append(('C15', DIMS, RECON, lab, dict(dict(tomo=T, theta=TH, ncore=2), **a)))
    for a in pytab.ALGS:
        u('defaults:%s' % a, algorithm=a)
        for o in pytab.AOPT[a]:
            v = opts[o]
            if a == 'gridrec' and o in ('num_gridx', 'num_gridy'):
                v = 6
            u('option:%s:%s' % (a, o), algorithm=a, **{o: v})
            if o in ('reg_par', 'filter_par'):
                u('option:%s:%s' % (a, o), algorithm=a, **{o: 0.5})
                u('option:%s:%s' % (a, o), algorithm=a, **{o: [0.5]})
                u('option:%s:%s' % (a, o), algorithm=a, **{o: (0.5, 0.25)})
            if o == 'ind_block':
                u('option:%s:%s' % (a, o), algorithm=a, **{o: [3, 1, 0, 2, 4]})
        for o in ALLOPT + ['nosuch', 'numiter', 'options'] + ([] if a in pytab.ACC else ACCOPT):
            if o not in pytab.AOPT[a]:
                u('refuse:%s:%s' % (a, o), algorithm=a, **{o: opts.get(o, 1)})
    for a in sorted(pytab.ACC):
        u('defaults:accel-%s' % a, algorithm=a, accelerated=True)
        for o, v in (('num_gridx', 6), ('num_gridy', 4), ('num_iter', 2), ('pool_size', 3), ('interpolation', 'linear'),
                     ('device', 'cpu'), ('grid_size', [4, 5, 6]), ('block_size', [7, 8, 9])):
            u('option:accel-%s:%s' % (a, o), algorithm=a, accelerated=True, **{o: v})
        for o in ('filter_name', 'reg_par', 'nosuch'):
            u('refuse:accel-%s:%s' % (a, o), algorithm=a, accelerated=True, **{o: 1})
        u('defaults:%s' % a, algorithm=a, accelerated=False)
    for n in ('nosuch', 'ART', '', 'c_art', 'astra', 'vector', None, 5):
        u('unknown:%r' % (n,), algorithm=n)
    for n in FILTERS:
        u('filter:%s' % n, algorithm='gridrec', filter_name=n, filter_par=Arr(64))
    for n in ['nosuch', 'Shepp', 'custom3d', 'hanning'] + [v for g in FILTERS for v in (g[:-1], g + 'x', g[0] + 'zz')]:
        u('nofilter:%s' % n, algorithm='gridrec', filter_name=n)
        u('nofilter:%s' % n, algorithm='fbp', filter_name=n)
    for a in pytab.ALGS:
        out.append(('C15', DIMS, 'recon.rotation.write_center', 'center:%s' % a,
                    dict(tomo=T, theta=TH, dpath='tmp/center', cen_range=(2, 4, 1), algorithm=a)))
    out.append(('C15', DIMS, RECON, 'tables', {}))
    return out


def nargs(e):
    return dict((P.role(e['sym'], i), (a, e['adeps'][i])) for i, a in enumerate(e['args']))


def u_c15(f, lab, args, rep):
    import pyp1
    kind, _, rest = lab.partition(':')
    if kind == 'tables':
        return tables(f, rep)
    o = run(P.REPO[0], Scn(f.fn, args))
    rep.count('paths')
    what = 'recon(%s)' % ', '.join('%s=%s' % (k, P.desc(v)) for k, v in args.items() if k not in ('tomo', 'theta', 'ncore'))
    nat = P.natives(o)
    site = nat[0]['site'] if nat else o.exc.site if o.exc else None
    if o.kind in ('abort', 'hang', 'noload'):
        rep.und('%s: %s' % (what, o.why))
        return
    if kind in ('refuse', 'unknown', 'nofilter'):
        if o.kind != 'raise' or nat:
            rep.bad('%s:%s' % (kind, rest), '%s: %s' % (what, 'is accepted, though it is not documented' if o.kind == 'return'
                                                      else 'is refused only after native code has run'), site, f)
        elif isinstance(o.exc.ev.cls, type) and issubclass(o.exc.ev.cls, P.INTERNAL + (IndexError,)):
            rep.bad('%s:%s' % (kind, rest), '%s: fails on %s instead of being refused' % (what, o.exc.ev.cls.__name__), o.exc.site, f)
        else:
            rep.ok('%s is refused' % what)
        return
    if o.kind == 'raise':
        c = o.exc.ev.cls
        rep.bad('%s:%s:fails' % (kind, rest), '%s: a documented call is refused: %s %s' % (
            what, getattr(c, '__name__', c), [getattr(x, 'v', '?') for x in o.exc.ev.args]), o.exc.site, f)
        return
    if kind == 'center':
        rep.ok('write_center works with %s' % rest)
        if not nat:
            rep.bad('center:%s:none' % rest, 'write_center(algorithm=%s) reconstructs nothing' % rest, None, f)
        elif any(e['sym'] != NATIVE.get(rest, rest) for e in nat):
            rep.bad('center:%s:other' % rest, 'write_center(algorithm=%s) reconstructs with %s' % (rest, nat[0]['sym']), site, f)
        return
    alg = rest.split(':')[0] if kind != 'filter' else 'gridrec'
    want = NATIVE.get(alg, alg) if not alg.startswith('accel-') else 'cxx_' + alg[6:]
    if not nat:
        rep.bad('%s:none' % alg, '%s: no native reconstruction is called' % what, None, f)
        return
    for e in nat:
        if e['sym'] != want:
            if e['sym'] in P._PROTO:
                rep.bad('%s:other' % alg, '%s: runs the native algorithm %s' % (what, e['sym']), e['site'], f)
            else:
                rep.und('native function %s' % e['sym'])
            return
        rep.ok('%s runs %s' % (what, want))
        by = nargs(e)
        if kind == 'defaults':
            for r in ('ngridx', 'ngridy'):
                v = getattr(by[r][0], 'value', by[r][0]) if r in by else None
                if isinstance(v, K) and v.v != DIMS[2]:
                    rep.bad('%s:default:%s' % (alg, r), '%s: the default grid has %s=%s for data with %d columns' % (
                        what, r, v.v, DIMS[2]), e['site'], f)
                else:
                    rep.ok()
            v = getattr(by['num_iter'][0], 'value', None) if 'num_iter' in by else None
            if isinstance(v, K) and not v.v >= 1:
                rep.bad('%s:default:num_iter' % alg, '%s: does %s iterations by default' % (what, v.v), e['site'], f)
            if 'num_block' in by:
                v = getattr(by['num_block'][0], 'value', None)
                if isinstance(v, K) and not v.v >= 1:
                    rep.bad('%s:default:num_block' % alg, '%s: divides the projections into %s blocks by default' % (what, v.v),
                            e['site'], f)
        elif kind == 'option':
            p = rest.split(':')[1]
            rs = [r for r, q in pyp1.GENERIC.items() if q == p and r in by]
            if not rs:
                rep.und('role of %s in %s' % (p, want))
            for r in rs:
                if p in by[r][1]:
                    rep.ok('%s: %s reaches %s' % (what, p, want))
                else:
                    rep.bad('%s:option:%s' % (alg, p), '%s: the option %s is accepted but never reaches the algorithm' % (what, p),
                            e['site'], f)
        elif kind == 'filter':
            v = getattr(by.get('fname', (None,))[0], 'value', by.get('fname', (None,))[0])
            t = v.v if isinstance(v, K) else None
            if isinstance(t, bytes):
                t = t.split(b'\0')[0].decode()
            if t is None:
                rep.und('filter name handed to native code')
            elif t != rest:
                rep.bad('filter:%s:other' % rest, '%s: native code is asked for the filter %s' % (what, t), e['site'], f)
            else:
                rep.ok('%s arrives as %s' % (what, t))


def doc_names(doc, first, last):
    """the quoted names a docstring lists for one parameter"""
    import re
    out, on = [], False
    for l in doc.split('\n'):
        if re.match(r'\s*%s\b' % first, l):
            on = True
        elif on and re.match(r'\s*%s\b' % last, l):
            break
        elif on:
            m = re.match(r"\s+'(\w+)'\s*$", l)
            if m:
                out.append(m.group(1))
    return out


def tables(f, rep):
    import ast
    import os
    import cconst
    import cfront
    src = os.path.join(P.REPO[0], 'source/tomopy/recon/algorithm.py')
    fn = next((n for n in ast.parse(open(src).read()).body if isinstance(n, ast.FunctionDef) and n.name == 'recon'), None)
    doc = ast.get_docstring(fn) if fn is not None else None
    algs = doc_names(doc or '', 'algorithm', 'num_gridx') or pytab.ALGS
    fils = doc_names(doc or '', 'filter_name', 'filter_par') or FILTERS
    for n in sorted(set(algs) ^ set(pytab.ALGS)):
        rep.und('algorithm %s is not in the list of the analysis' % n)
    # what the registry of the module lists
    o = run(P.REPO[0], Scn(RECON, dict(tomo=Arr(5, 3, 7), theta=Arr(5), algorithm='art')))
    m = o.it.mods.get('tomopy.recon.algorithm')
    for name in ('allowed_recon_kwargs', 'allowed_accelerated_kwargs'):
        d = m.env.vars.get(name) if m is not None else None
        if isinstance(d, Dct) and not d.unk:
            for k, v in d.items.items():
                if k not in algs:
                    rep.bad('table:%s:%s' % (name, k), 'the algorithm %s is accepted but not documented' % k, None, f)
                else:
                    rep.ok()
    for a in algs:
        if a in pytab.ALGS:
            continue
        o = run(P.REPO[0], Scn(RECON, dict(tomo=Arr(5, 3, 7), theta=Arr(5), algorithm=a)))
        if o.kind == 'raise':
            rep.bad('doc:%s' % a, 'the documented algorithm %s is refused' % a, o.exc.site, f)
    prog = cfront.load(P.REPO[0])
    g, two = prog.find('get_filter'), prog.find('filter_is_2d')
    if g is None:
        rep.und('native filter table')
        return

    def filt(msg, key):
        rep.bads.append((key, msg, g.file, g.line, g.name))
    got = {}
    for n in fils + ['nosuch']:
        try:
            got[n] = cconst.Const(prog).call(g, [n])
        except (cconst.Unknown, KeyError, IndexError, TypeError, ValueError) as e:
            rep.und('native filter table: %s' % e)
            return
    for n in fils:
        fnn = got[n][1] if isinstance(got[n], tuple) else None
        if fnn is None:
            rep.und('native filter %s' % n)
            continue
        others = [k for k in fils if k != n and got[k] == got[n]]
        if got[n] == got['nosuch'] and n != 'shepp':
            filt('the documented filter %s is not recognised by native code' % n, 'filter:%s:unknown' % n)
        elif others:
            filt('native code computes the filters %s and %s with the same function' % (n, others[0]), 'filter:%s:same' % n)
        elif prog.find('filter_' + n) is not None and fnn != 'filter_' + n:
            filt('native code computes the filter %s with %s()' % (n, fnn), 'filter:%s:wrong' % n)
        else:
            rep.ok('filter %s: %s()' % (n, fnn))
        if two is not None:
            try:
                t = cconst.Const(prog).call(two, [n])
            except cconst.Unknown as e:
                rep.und('filter_is_2d: %s' % e)
                continue
            if bool(t) != (n == 'custom2d'):
                filt('native code takes the filter %s for %s' % (n, 'angle-dependent' if t else 'the same at every angle'),
                     'filter:%s:2d' % n)
            else:
                rep.ok()


# ------------------------------------------------------------------ C26
def c26_units(tier):
    out = []
    dims = P.SIZES[0]
    for i, f in enumerate(pytab.table(*dims)):
        if isinstance(f.base.get('algorithm'), Ref):
            continue
        for lab, args in P.variants(f, ('base', 'var')):
            out.append(('C26', dims, i, lab, args))
        names = f.arrays() + [p for p in ('center', 'init_recon', 'center1', 'center2', 'center3') if p in f.var or p in f.base]
        for p in names:
            b = f.base.get(p)
            if not isinstance(b, Arr):
                b = next((v for v in f.var.get(p, ()) if isinstance(v, Arr)), None)
            if b is None:
                continue
            base = dict(f.base)
            if base.get('axis', 0) is None:
                base['axis'] = 0
            for k in range(len(b.shape)):
                for d in (-2, -1, 1, 2):
                    n = b.shape[k] + d
                    if n < 1:
                        continue
                    s = b.shape[:k] + (n,) + b.shape[k + 1:]
                    out.append(('C26', dims, i, '%s:%s' % (p, s), dict(base, **{p: b.but(shape=s)})))
            # the same number of elements, arranged otherwise
            for q in sorted(set(itertools.permutations(b.shape))) if len(b.shape) > 1 else [b.shape + (1,)]:
                if q != b.shape:
                    out.append(('C26', dims, i, '%s:%s' % (p, q), dict(base, **{p: b.but(shape=q)})))
            out.append(('C26', dims, i, '%s:%s' % (p, b.shape[1:]), dict(base, **{p: b.but(shape=b.shape[1:] or (1,))})))
        if f.out:
            m = f.base[f.shape]
            for k in range(3):
                s = m.shape[:k] + (m.shape[k] - 1,) + m.shape[k + 1:]
                out.append(('C26', dims, i, '%s:%s' % (f.out, s), dict(f.base, **{f.out: m.but(shape=s, main=False)})))
        if getattr(f, 'alg', '') == 'gridrec':
            for n in ('custom', 'custom2d'):
                for k in (1, 4, 8, 39, 40, 64):
                    out.append(('C26', dims, i, '%s:%d' % (n, k), dict(f.base, filter_name=n, filter_par=Arr(k))))
        for p in ('center', 'ind_block', 'reg_par', 'filter_par', 'theta'):
            if p in f.base and f.fn.endswith('.recon'):
                out.append(('C26', dims, i, '%s:list' % p, dict(f.base, **{p: [1, 2]})))
    return out


def u_c26(f, lab, args, rep):
    import pyp1
    import cmodel
    for o in P.outs_of(f, args, rep=rep):
        nat = P.natives(o)
        if not nat and o.kind == 'raise':
            rep.ok('%s [%s] is refused' % (f.fn, lab))
        for e in nat:
            sym = e['sym']
            roles = [P.role(sym, k) for k in range(len(e['args']))]
            vals = {}
            for r, a in zip(roles, e['args']):
                v = getattr(a, 'value', a) if isinstance(a, (Nat, K)) else None
                if isinstance(v, K) and isinstance(v.v, (int, bytes, str, np.integer)):
                    vals[r] = v.v
            pyp1.sample_extent(f, '%s [%s]' % (f.fn, lab), e, sym, roles, vals, rep)
            for r, a in zip(roles, e['args']):
                if not (isinstance(a, Nat) and a.kind == 'cptr'):
                    continue
                if not isinstance(a.arr, A):
                    rep.und('geometry of %s of %s' % (r, sym))
                    continue
                need, exact = pyp1.MINLEN.get((sym, r), 0), False
                dims = pyp1.SHAPE.get((sym, r))
                if dims and not (r == 'ind_block' and vals.get('num_block') == 1):
                    dv = [vals.get(x) for x in dims]
                    if None in dv:
                        rep.und('dimensions of %s of %s' % (r, sym))
                        continue
                    need, exact = max(need, int(np.prod(dv))), r != 'ind_block'
                if sym == 'gridrec' and r == 'filter_par' and 'dx' in vals:
                    n = vals.get('fname')
                    n = n.split(b'\0')[0].decode() if isinstance(n, bytes) else n
                    pd = 16
                    while pd < vals['dx']:
                        pd *= 2
                    need = {'custom': pd // 2, 'custom2d': pd // 2 * vals.get('dt', 1)}.get(n, need)
                rep.count('native arrays')
                if a.arr.idx.size < need or exact and a.arr.idx.size != need:
                    rep.bad('%s:%s:%s:short' % (P.fkey(f), sym, r), '%s [%s]: native %s() works on %d elements of %s, the array '
                            'passed has %d' % (f.fn, lab, sym, need, r, a.arr.idx.size), e['site'], f)
                else:
                    rep.ok('%s [%s]: %s.%s is large enough' % (f.fn, lab, sym, r))


# ------------------------------------------------------------------ C03, the limits native code relies on
def num(x):
    """the number a scalar native argument is known to be"""
    import pyp1
    t, v = pyp1.cval(x)
    if isinstance(v, np.ndarray) and v.size == 1:
        v = v.reshape(-1)[0]
    if isinstance(v, A) and v.val() is not None and v.idx.size == 1:
        v = v.val().reshape(-1)[0]
    if isinstance(v, (int, float, np.number)) and not isinstance(v, bool):
        return v
    return None


def contracts():
    """native function -> what its loops rely on: (roles, predicate, text)"""
    import cmodel
    c = {}
    for s, rel in cmodel.RELATED.items():
        for a, b, t in rel:
            c.setdefault(s, []).append(((a, b), t, '%s within the limit set by %s' % (a, b)))
    for s, r, t, w in (('remove_ring', 'ring_width', lambda v: v >= 0, 'not negative'),
                       ('remove_ring', 'center_x', lambda v: v >= 0, 'inside the image'),
                       ('remove_ring', 'center_y', lambda v: v >= 0, 'inside the image'),
                       ('remove_ring', 'angular_min', lambda v: 0 <= v < 180, 'in [0, 180)'),
                       ('stripesdetect3d_main_float', 'window_halflength_vertical', lambda v: v >= 1, 'positive'),
                       ('Inpainter_morph_main', 'W_halfsize', lambda v: v >= 1, 'positive'),
                       ('medianfilter_main_float', 'radius', lambda v: v >= 1, 'positive'),
                       ('medianfilter_main_uint16', 'radius', lambda v: v >= 1, 'positive'),
                       ('sample', 'axis', lambda v: 0 <= v <= 2, 'one of 0, 1, 2'), ('sample', 'level', lambda v: v >= 0, 'not negative'),
                       ('bart', 'num_block', lambda v: v >= 1, 'positive'), ('osem', 'num_block', lambda v: v >= 1, 'positive'),
                       ('ospml_hybrid', 'num_block', lambda v: v >= 1, 'positive'),
                       ('ospml_quad', 'num_block', lambda v: v >= 1, 'positive')):
        c.setdefault(s, []).append(((r,), t, '%s %s' % (r, w)))
    return c


def c03_units(tier):
    out = []
    dims = P.SIZES[0]
    for i, f in enumerate(pytab.table(*dims)):
        if not f.lim:
            continue
        for lab, args in P.variants(f, ('base', 'var', 'bad')):
            out.append(('C03', dims, i, lab, args))
        for p, vs in f.lim.items():
            for v in vs:
                out.append(('C03', dims, i, 'LIMIT %s=%r' % (p, v), dict(f.base, **{p: v})))
    return out


def u_c03(f, lab, args, rep):
    cs = contracts()
    for o in P.outs_of(f, args, cap=24, rep=rep):
        nat = P.natives(o)
        if not nat and o.kind == 'raise':
            rep.ok('%s [%s] is refused' % (f.fn, lab))
        for e in nat:
            sym = e['sym']
            vals = {P.role(sym, k): num(a) for k, a in enumerate(e['args'])}
            for rs, test, text in cs.get(sym, ()):
                v = [vals.get(r) for r in rs]
                if None in v:
                    rep.und('%s.%s is not known' % (sym, rs[v.index(None)]))
                    continue
                rep.count('limits of native arguments')
                if not test(*v):
                    rep.bad('%s:%s:%s:limit' % (P.fkey(f), sym, rs[0]), '%s [%s]: native %s() relies on %s, it is given %s' % (
                        f.fn, lab, sym, text, ', '.join('%s=%s' % x for x in zip(rs, v))), e['site'], f)
                else:
                    rep.ok('%s [%s]: %s.%s' % (f.fn, lab, sym, text))
