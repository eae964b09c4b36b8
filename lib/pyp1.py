"""C01 (the Python/native boundary), C09 (slices stay together), C15 (algorithm and option tables)."""
import os
import re

import numpy as np

from pyval import *
import cmodel
import pypass as P
import pytab
from pyscen import Arr, Same, Scn, explore, run

LIBDIR = {'tomo-recon': 'recon', 'tomo-gridrec': 'gridrec', 'tomo-prep': 'prep', 'tomo-misc': 'misc', 'tomo-accel': 'accel'}
SCAL = {'int': {'c_int', 'int', 'c_int32', 'c_uint', 'c_uint32'}, 'float': {'c_float'}, 'double': {'c_double'},
        'unsigned int': {'c_uint', 'c_int', 'c_uint32', 'int'}, 'char': {'c_char'}, 'size_t': {'c_size_t', 'c_ulong'},
        '_Bool': {'c_bool'}, 'bool': {'c_bool'}, 'long': {'c_long'}, 'short': {'c_short'}}

# native role -> parameter of the public function that must arrive there
GENERIC = {
    'data': 'tomo', 'theta': 'theta', 'center': 'center', 'num_iter': 'num_iter', 'reg_pars': 'reg_par', 'reg_data': 'reg_data',
    'filter_par': 'filter_par', 'name': 'filter_name', 'fname': 'filter_name', 'num_block': 'num_block',
    'ind_block': 'ind_block', 'ngridx': 'num_gridx', 'ngridy': 'num_gridy', 'recon': 'init_recon', 'pool_size': 'pool_size',
    'interp': 'interpolation', 'device': 'device', 'grid_size': 'grid_size', 'block_size': 'block_size',
}
OPT = {
    'recon': GENERIC,
    'vector': dict(GENERIC),
    'vector2': {'num_iter': 'num_iter'}, 'vector3': {'num_iter': 'num_iter'},
    'project': {'obj': 'obj', 'theta': 'theta', 'center': 'center'},
    'project2': {'objx': 'objx', 'objy': 'objy', 'theta': 'theta', 'center': 'center'},
    'project3': {'objx': 'objx', 'objy': 'objy', 'objz': 'objz', 'theta': 'theta', 'center': 'center', 'axis': 'axis'},
    'normalize_bg': {'inout': 'tomo', 'nair': 'air'},
    'remove_stripe_sf': {'inout': 'tomo', 'size': 'size'},
    'stripes_detect3d': {'Input': 'tomo', 'window_halflength_vertical': 'size', 'ratio_radius': 'radius', 'ncores': 'ncore'},
    'stripes_mask3d': {'Input': 'weights', 'threshold_val': 'threshold', 'stripe_length_min': 'min_stripe_length',
                       'stripe_depth_min': 'min_stripe_depth', 'stripe_width_min': 'min_stripe_width',
                       'sensitivity': 'sensitivity_perc', 'ncores': 'ncore'},
    'downsample': {'data': 'arr', 'level': 'level', 'axis': 'axis'}, 'upsample': {'data': 'arr', 'level': 'level', 'axis': 'axis'},
    'remove_ring': {'inout': 'rec', 'center_x': 'center_x', 'center_y': 'center_y', 'thresh_max': 'thresh_max',
                    'thresh_min': 'thresh_min', 'threshold': 'thresh', 'angular_min': 'theta_min', 'ring_width': 'rwidth'},
    'inpainter_morph': {'Input': 'arr', 'Mask': 'mask', 'iterations': 'iterations', 'W_halfsize': 'size', 'ncores': 'ncore'},
    'median_filter3d': {'Input': 'arr', 'radius': 'size', 'ncores': 'ncore'},
    'remove_outlier3d': {'Input': 'arr', 'radius': 'size', 'mu_threshold': 'dif', 'ncores': 'ncore'},
    'find_center': {'theta': 'theta', 'data': 'tomo'}, 'write_center': {'theta': 'theta', 'data': 'tomo'},
}
for _n in ('2', '3'):
    for _i in '123'[:int(_n)]:
        OPT['vector' + _n].update({'data' + _i: 'tomo' + _i, 'theta' + _i: 'theta' + _i, 'center' + _i: 'center' + _i,
                                   'axis' + _i: 'axis' + _i})
SHAPE = {}          # (sym, role) -> dims in memory order
for _s, _c in cmodel.CANON.items():
    for _r in _c.split():
        _d = cmodel.EXT_OVERRIDE.get((_s, _r), cmodel.ROLE_EXT.get(_r))
        if _d:
            SHAPE[(_s, _r)] = tuple(_d)
for _s in ('cxx_mlem', 'cxx_sirt'):
    for _r in ('data', 'center', 'theta', 'recon'):
        SHAPE[(_s, _r)] = cmodel.ROLE_EXT[_r]
for (_s, _r), _d in list(SHAPE.items()):
    if _d == ('dimX', 'dimY', 'dimZ'):
        SHAPE[(_s, _r)] = ('dimZ', 'dimY', 'dimX')
SHAPE[('remove_ring', 'inout')] = ('iend', 'dy', 'dx')      # the slices it is given, whatever dz says
EXACT = {'data', 'data1', 'data2', 'data3', 'recon', 'recon1', 'recon2', 'recon3', 'obj', 'objx', 'objy', 'objz', 'out', 'inout',
         'Input', 'Output', 'Mask', 'reg_data'}


def cval(a):
    """the machine type and the value of a scalar argument"""
    if isinstance(a, Nat) and a.kind == 'cval':
        v = a.value
        t = getattr(a.ctype, '__name__', str(a.ctype))
        return t, (v.v if isinstance(v, K) else None)
    if isinstance(a, K):
        if isinstance(a.v, (bytes,)):
            return 'c_char_p', a.v
        if isinstance(a.v, bool) or isinstance(a.v, int):
            return 'int', a.v
        return type(a.v).__name__, a.v
    return None, None


def val(x):
    if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
        return int(x)
    if isinstance(x, np.ndarray) and x.size == 1:
        return int(x.reshape(-1)[0])
    if isinstance(x, A) and x.val() is not None and x.idx.size == 1:
        return int(x.val().reshape(-1)[0])
    return None


MINLEN = {}


def prepare(repo):
    """what the definitions say, from the C front end"""
    m = cmodel.Model(repo)
    for n, r in m.roots.items():
        for ro, b in r.buf.items():
            if ro in ('reg_pars',):
                mx = 0
                for e, _ in cmodel.walk(r.tree):
                    if isinstance(e, cmodel.Acc) and e.buf is b and e.off is not None and e.off.is_const():
                        mx = max(mx, int(e.off.cval()) // max(1, e.width) + 1)
                MINLEN[(n, ro)] = mx
    for s in ('fbp', 'gridrec'):
        for ro in ('filter_par',):
            MINLEN[(s, ro)] = 2
    return m


def u_c01(f, lab, args, rep):
    fn = f.fn.split('.')[-1]
    seen = set()
    for o in P.outs_of(f, args, rep=rep):
        for e in P.natives(o):
            rep.count('native calls')
            sym = e['sym']
            where = '%s [%s]' % (f.fn, lab)
            ps = P._PROTO.get(sym)
            if ps is None or P._PLIB.get(sym) and e['lib'] in LIBDIR and e['lib'] not in P._PLIB[sym]:
                rep.bad('%s:undefined' % sym, '%s: %s() is called in library %s, which does not define it' % (where, sym, e['lib']),
                        e['site'], f)
                continue
            if len(e['args']) != len(ps) or e.get('kw'):
                rep.bad('%s:count' % sym, '%s: native %s() takes %d arguments, %d are passed' % (where, sym, len(ps),
                                                                                       len(e['args'])), e['site'], f)
                continue
            roles = [P.role(sym, i) for i in range(len(ps))]
            vals = {}
            for i, (a, (base, stars)) in enumerate(zip(e['args'], ps)):
                r = roles[i]
                if stars == 0:
                    t, v = cval(a)
                    if v is not None:
                        vals[r] = val(v)
                    if t is None:
                        if isinstance(a, Nat) and a.kind == 'cptr':
                            rep.bad('%s:type:%s' % (sym, r), '%s: native %s() expects the %s %s, a pointer is passed' % (
                                where, sym, base, r), e['site'], f)
                        else:
                            rep.und('scalar argument %s of %s' % (r, sym))
                    elif base in SCAL and t not in SCAL[base]:
                        rep.bad('%s:type:%s' % (sym, r), '%s: native %s() expects %s as %s, %s is passed' % (
                            where, sym, r, base, t), e['site'], f)
                    else:
                        rep.ok('%s: %s.%s is %s' % (where, sym, r, t))
                elif base == 'char':
                    if isinstance(a, Nat) and a.kind == 'cptr' or isinstance(a, Nat) and a.kind == 'cval' and \
                            getattr(a.ctype, '__name__', '') != 'c_char_p':
                        rep.bad('%s:type:%s' % (sym, r), '%s: native %s() expects the text %s' % (where, sym, r), e['site'], f)
                    else:
                        rep.ok()
                else:
                    if isinstance(a, Nat) and a.kind == 'cval' or isinstance(a, K) and a.v is not None:
                        rep.bad('%s:type:%s' % (sym, r), '%s: native %s() expects the array %s, a scalar is passed' % (
                            where, sym, r), e['site'], f)
                        continue
                    if not (isinstance(a, Nat) and a.kind == 'cptr'):
                        rep.und('pointer argument %s of %s' % (r, sym))
                        continue
                    pt = P.PT.get(getattr(a.pointee, '__name__', None))
                    want = P.CT.get(base)
                    if pt and want and pt != want and not {pt, want} <= {'bool', 'uint8', 'int8'}:
                        rep.bad('%s:type:%s' % (sym, r), '%s: native %s() reads %s as %s, a pointer to %s is passed' % (
                            where, sym, r, want, pt), e['site'], f)
                    else:
                        rep.ok()
            extents(f, where, e, sym, roles, vals, rep)
            meaning(f, where, e, sym, roles, args, rep)
            if e['initbad'] and any(roles[i] not in cmodel.OUTPUTS for i in e['initbad']):
                i = next(i for i in e['initbad'] if roles[i] not in cmodel.OUTPUTS)
                rep.bad('%s:unset:%s' % (sym, roles[i]), '%s: native %s() is given memory that was never filled in as %s' % (
                    where, sym, roles[i]), e['site'], f)


def extents(f, where, e, sym, roles, vals, rep):
    for i, r in enumerate(roles):
        a = e['args'][i]
        if not (isinstance(a, Nat) and a.kind == 'cptr'):
            continue
        if not isinstance(a.arr, A):
            rep.und('geometry of %s of %s' % (r, sym))
            continue
        ml = MINLEN.get((sym, r))
        if ml is not None:
            if a.arr.idx.size < ml:
                rep.bad('%s:extent:%s' % (sym, r), '%s: native %s() reads %d elements of %s, the array passed has %d' % (
                    where, sym, ml, r, a.arr.idx.size), e['site'], f)
            else:
                rep.ok()
        dims = SHAPE.get((sym, r))
        if not dims:
            continue
        if r == 'ind_block' and vals.get('num_block') == 1:
            continue
        dv = [vals.get(x) for x in dims]
        if None in dv:
            rep.und('dimensions of %s of %s' % (r, sym))
            continue
        n = int(np.prod(dv))
        sh = tuple(a.arr.shape)
        full = tuple(x for x in sh)
        if len(sh) == len(dims) - 1 and dv[0] == 1:
            full = (1,) + sh
        bad = None
        if a.arr.idx.size < n or r in EXACT and a.arr.idx.size != n:
            bad = 'has shape %s' % (sh,)
        elif len(full) == len(dims) and r in EXACT and full != tuple(dv):
            bad = 'has shape %s' % (sh,)
        if bad:
            rep.bad('%s:extent:%s' % (sym, r), '%s: native %s() is told that %s is %s, the array passed %s' % (
                where, sym, r, ' x '.join('%s=%d' % x for x in zip(dims, dv)), bad), e['site'], f)
        else:
            rep.ok('%s: %s.%s has the announced extent %s' % (where, sym, r, dv))
    sample_extent(f, where, e, sym, roles, vals, rep)
    if {'istart', 'iend'} <= set(vals):
        n = vals.get('iend' if sym == 'remove_ring' else 'dy')
        if n is not None and vals['istart'] is not None and vals['iend'] is not None:
            if vals['istart'] != 0 or vals['iend'] != n:
                rep.bad('%s:range' % sym, '%s: native %s() is told to process slices %s..%s of %s' % (
                    where, sym, vals['istart'], vals['iend'], n), e['site'], f)
            else:
                rep.ok()


def sample_extent(f, where, e, sym, roles, vals, rep):
    if sym == 'sample' and {'dx', 'dy', 'dz', 'level', 'axis', 'mode'} <= set(vals) and None not in vals.values():
        d = [vals['dx'], vals['dy'], vals['dz']]
        ax = vals['axis']
        a = e['args'][roles.index('out')]
        if 0 <= ax < 3 and isinstance(a, Nat) and a.kind == 'cptr' and isinstance(a.arr, A):
            k = 2 ** vals['level']
            up, dn = list(d), list(d)
            up[ax] *= k
            dn[ax] = dn[ax] // k
            want = up if 'upsample' in f.fn else dn
            if a.arr.idx.size != int(np.prod(want)) or len(a.arr.shape) == 3 and list(a.arr.shape) != want:
                rep.bad('sample:extent:out', '%s: native sample() fills %s elements, the output array has shape %s' % (
                    where, want, a.arr.shape), e['site'], f)
            else:
                rep.ok()


def given(v):
    return v is not None and not isinstance(v, bool)


def meaning(f, where, e, sym, roles, args, rep):
    m = OPT.get(f.fn.split('.')[-1])
    if not m:
        return
    for i, r in enumerate(roles):
        p = m.get(r)
        if p is None or not given(args.get(p)):
            continue
        if sym in ('osem', 'ospml_hybrid', 'ospml_quad') and getattr(f, 'alg', '') in ('mlem', 'sirt', 'pml_hybrid', 'pml_quad') \
                and r in ('num_block', 'ind_block'):
            continue
        if p in e['adeps'][i]:
            rep.ok('%s: %s arrives as %s.%s' % (where, p, sym, r))
        else:
            got = sorted(x for x in e['adeps'][i] if x in args)
            rep.bad('%s:meaning:%s' % (sym, r), '%s: native %s() should get %s as %s, it gets %s' % (
                where, sym, p, r, ', '.join(got) or 'a value that does not depend on it'), e['site'], f)


def protos(rep):
    """headers against definitions"""
    for n, ds in P._DECL.items():
        d = P._PROTO.get(n)
        if d is None:
            continue
        for fi, ln, ts in ds:
            if ts != d:
                rep.bads.append(('%s:header' % n, 'the declaration of %s() in %s differs from its definition' % (n, fi), fi, ln, n))
            else:
                rep.ok('%s: %s agrees with the definition' % (n, fi))


# ------------------------------------------------------------------ C09
CEN, INI, REG, RES, THE = 1000000, 2000000, 3000000, 7000000, 5000000
KERN = {'art', 'bart', 'fbp', 'grad', 'osem', 'ospml_hybrid', 'ospml_quad', 'tv', 'tikh', 'gridrec', 'cxx_mlem', 'cxx_sirt',
        'vector'}


class Rows:
    """follows which slice of the caller's data the rows of native arrays belong to"""

    def __init__(self, dims, sino, what):
        self.dims, self.sino, self.what = dims, sino, what
        self.found = []

    def slice_of(self, src, n):
        """slice of every row of an (n, ...) array given its provenance; None: unknown"""
        rows = src.reshape(n, -1)
        out = []
        for r in rows:
            v = set(self.one(int(x)) for x in np.unique(r))
            out.append(v.pop() if len(v) == 1 else (None if None in v else tuple(sorted(v))))
        return out

    def one(self, v):
        NA, NS, NC = self.dims
        if v < 0:
            return None
        if v >= RES:
            return v - RES
        if v >= THE:
            return None
        if v >= REG:
            return (v - REG) // self.cell
        if v >= INI:
            return (v - INI) // self.cell
        if v >= CEN:
            return v - CEN
        if self.what == 'obj':
            return v // self.cell
        return v // (NA * NC) if self.sino else (v // NC) % NS

    def __call__(self, it, e):
        sym = e['sym']
        roles = [P.role(sym, i) for i in range(len(e['args']))]
        main = 'obj' if sym == 'project' else 'objx' if sym in ('project2', 'project3') else 'data'
        if sym not in KERN and sym not in ('project', 'project2', 'project3') or main not in roles:
            return
        i = roles.index(main)
        if e['srcs'][i] is None:
            return
        sh = e['srcs'][i].shape
        n = sh[0] if len(sh) == 3 else 1
        own = self.slice_of(e['srcs'][i], n)
        e['own'] = own
        for j, r in enumerate(roles):
            if e['srcs'][j] is None:
                continue
            if r in ('center', 'recon', 'recon1', 'reg_data', 'objy', 'objz') and e['srcs'][j].size % n == 0:
                oth = self.slice_of(e['srcs'][j], n)
                if r == 'center' and e['srcs'][j].size != n:
                    oth = [None] * n
                self.found.append((sym, r, own, oth, e['site']))
            if r in ('recon', 'recon1', 'recon2', 'out') and isinstance(e['args'][j].arr, A):
                a = e['args'][j].arr
                if a.idx.size % n:
                    continue
                k = a.idx.size // n
                lab = np.repeat(np.array([RES + x if isinstance(x, int) else -2 for x in own]), k)
                a.root.src[a.idx] = lab.reshape(a.idx.shape)
        if 'theta' in roles:
            s = e['srcs'][roles.index('theta')]
            if s is not None and (s >= THE).all():
                self.found.append((sym, 'theta', list(range(len(s.reshape(-1)))), [int(x) - THE for x in s.reshape(-1)], e['site']))


def c09_units(tier):
    out = []
    for dims in P.SIZES:
        for i, f in enumerate(pytab.table(*dims)):
            fn = f.fn.split('.')[-1]
            if fn == 'write_center':
                for alg in ('gridrec', 'art'):
                    for so in (False, True):
                        for cr in (None, (2, 4, 1)):
                            d = dict(f.base, algorithm=alg, sinogram_order=so, cen_range=cr)
                            if so:
                                d['tomo'] = Arr(dims[1], dims[0], dims[2], main=True)
                            out.append(('C09', dims, i, 'alone:%s,%s,%s' % (alg, so, cr), d))
                continue
            if fn not in ('recon', 'project', 'vector', 'project3', 'project2') or getattr(f, 'alg', '').startswith('wrap-'):
                continue
            NA, NS, NC = dims
            base = dict(f.base)
            if 'center' in base:
                base['center'] = Arr(NS, off=CEN)
            if isinstance(base.get('theta'), Arr):
                base['theta'] = base['theta'].but(off=THE)
            gx, gy = base.get('num_gridx', NC), base.get('num_gridy', NC)
            if 'reg_data' in base:
                base['reg_data'] = Arr(NS, gx, gy, off=REG)
            vs = [('base', base), ('sinogram', dict(base, sinogram_order=True))]
            if fn == 'recon':
                vs.append(('init', dict(base, init_recon=Arr(NS, gx, gy, off=INI))))
                vs.append(('init,strided', dict(base, init_recon=Arr(NS, gx, gy, off=INI, lay='strided'))))
            for nc in (1, 2, 3, 4, None) if 'ncore' in base else ():
                for ch in (None, 0, 1, 2, 3, 7):
                    if fn != 'recon' and ch == 0:
                        continue
                    d = dict(base, ncore=nc, nchunk=ch)
                    if fn == 'recon':
                        d['init_recon'] = Arr(NS, gx, gy, off=INI)
                    vs.append(('ncore=%s,nchunk=%s' % (nc, ch), d))
            if fn.startswith('project'):
                for em in (True, False):
                    for pd in (True, False):
                        vs.append(('emission=%s,pad=%s' % (em, pd), dict(base, emission=em, pad=pd)))
            for lab, a in vs:
                if lab == 'sinogram' and 'tomo' in a:
                    a['tomo'] = Arr(NS, NA, NC, main=True)
                if lab == 'sinogram' and 'sinogram_order' not in base:
                    continue
                out.append(('C09', dims, i, lab, a))
    return out


def blend(f, lab, args, o, rep):
    """values that combine elements of several slices must not reach native code"""
    main = [(k, v) for k, v in args.items() if isinstance(v, P.Arr) and v.main]
    if f.fn != 'recon.algorithm.recon' and not f.fn.startswith('sim.project.project') or len(main) != 1:
        return
    shape = main[0][1].shape
    ax = 0 if f.fn != 'recon.algorithm.recon' or args.get('sinogram_order') else 1
    import pyp3
    for e in P.natives(o):
        for x in e['args']:
            for l in pyp3.labels(x.arr if isinstance(x, Nat) and x.kind == 'cptr' else x):
                g = o.it.mixes.get(l) if l.startswith('#mix:') else None
                bad = False
                for q in g or ():
                    if len(set(np.unravel_index(sorted(q), shape)[ax].tolist())) > 1:
                        bad = True
                        break
                if bad:
                    _, mod, fn, line = l.split(':')
                    rep.bad('py:%s:blend:%s' % (P.fkey(f), fn), '%s [%s]: native %s() gets a value that line %s combines from '
                            'several slices' % (f.fn, lab, e['sym'], line), (mod, fn, int(line)), f)
                elif l.startswith('#mix:'):
                    rep.ok()


def alone(f, lab, args, rep):
    """trial centers are reconstructed one per native call where native code shares a center between the slices of a call"""
    for o in P.outs_of(f, args, rep=rep):
        for e in P.natives(o):
            roles = [P.role(e['sym'], i) for i in range(len(e['args']))]
            if e['sym'] not in ('gridrec', 'art') or 'data' not in roles:
                continue
            a = e['args'][roles.index('data')]
            a = a.arr if isinstance(a, Nat) else a
            if not isinstance(a, A) or len(a.shape) != 3:
                rep.und('%s [%s]: slices of the native call' % (f.fn, lab))
            elif a.shape[0] > 1:
                rep.bad('py:%s:center-shared:%s' % (fkey2(f), e['sym']), '%s: native %s() gets %d trial centers in one call, but it '
                        'uses the same center for several slices' % (f.fn, e['sym'], a.shape[0]), e['site'], f)
            else:
                rep.ok('%s[%s]: one trial center per call of %s' % (f.fn, lab, e['sym']))


def u_c09(f, lab, args, rep):
    fn = f.fn.split('.')[-1]
    if fn == 'write_center':
        return alone(f, lab, args, rep)
    NA, NS, NC = rep.dims
    what = 'obj' if fn.startswith('project') else 'tomo'
    h = Rows(rep.dims, bool(args.get('sinogram_order')), what)
    if what == 'obj':
        o0 = args.get('obj') or args.get('objx')
        h.cell = int(np.prod(o0.shape[1:]))
        NS = o0.shape[0]
    else:
        h.cell = int(args.get('num_gridx', NC)) * int(args.get('num_gridy', NC))
    for o in P.outs_of(f, args, rep=rep, opts=dict(native_hook=h, mixes=True)):
        blend(f, lab, args, o, rep)
        for sym, r, own, oth, site in h.found:
            rep.count('native calls')
            bad = [(a, b) for a, b in zip(own, oth) if a is not None and b is not None and a != b]
            if bad:
                rep.bad('py:%s:%s' % (fkey2(f), r), '%s [%s]: native %s() processes %s %s with the %s of %s' % (
                    f.fn, lab, sym, 'angle' if r == 'theta' else 'slice', bad[0][0], r, bad[0][1]), site, f)
            else:
                rep.ok('%s[%s]: %s.%s belongs to the slices processed' % (f.fn, lab, sym, r))
        h.found.clear()
        if o.kind != 'return':
            continue
        vs = o.value.items if isinstance(o.value, Seq) else [o.value]
        for v in vs:
            if not isinstance(v, A) or len(v.shape) != 3:
                rep.und('geometry of the result of %s' % f.fn)
                continue
            s = v.src()
            if what == 'obj' and not args.get('sinogram_order'):
                s = np.swapaxes(s, 0, 1)
            if s.shape[0] != NS:
                rep.bad('py:%s:slices' % fkey2(f), '%s [%s]: %d slices in, %d out' % (f.fn, lab, NS, s.shape[0]), v.root.site, f)
                continue
            got = h.slice_of(s, NS)
            bad = [(k, g) for k, g in enumerate(got) if g is not None and g != k]
            if bad:
                rep.bad('py:%s:place' % fkey2(f), '%s [%s]: slice %s of the result was computed from slice %s of the input' % (
                    f.fn, lab, bad[0][0], bad[0][1]), v.root.site, f)
            elif None in got:
                rep.und('slices of the result of %s' % f.fn)
            else:
                rep.ok('%s[%s]: every slice of the result stems from its own input slice' % (f.fn, lab))


def fkey2(f):
    return P.fkey(f)
