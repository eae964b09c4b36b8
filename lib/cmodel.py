"""Interpreted C program + the meaning of the exported functions' parameters."""
import copy
import itertools
import math
import multiprocessing
import os
import signal
import report
import cfront
import cabs
from poly import Poly, Atom, atom, C0, C1, atom_eval
from cabs import Acc, Loop, If, Alloc, Free, MemOp, Ext, CallB, Jump, VarEv, Uninit, Ptr, Phi, Null, walk, alts

# Canonical meaning of every exported function's parameters, by position.
CANON = {
    'art': 'data dy dt dx center theta recon ngridx ngridy num_iter',
    'bart': 'data dy dt dx center theta recon ngridx ngridy num_iter num_block ind_block',
    'fbp': 'data dy dt dx center theta recon ngridx ngridy name filter_par',
    'grad': 'data dy dt dx center theta recon ngridx ngridy num_iter reg_pars',
    'osem': 'data dy dt dx center theta recon ngridx ngridy num_iter num_block ind_block',
    'ospml_hybrid': 'data dy dt dx center theta recon ngridx ngridy num_iter reg_pars num_block ind_block',
    'ospml_quad': 'data dy dt dx center theta recon ngridx ngridy num_iter reg_pars num_block ind_block',
    'tv': 'data dy dt dx center theta recon ngridx ngridy num_iter reg_pars',
    'tikh': 'data dy dt dx center theta recon ngridx ngridy num_iter reg_data reg_pars',
    'vector': 'data dy dt dx center theta recon1 recon2 ngridx ngridy num_iter',
    'vector2': 'data1 data2 dy dt dx center1 center2 theta1 theta2 recon1 recon2 recon3 ngridx ngridy num_iter axis1 axis2',
    'vector3': 'data1 data2 data3 dy dt dx center1 center2 center3 theta1 theta2 theta3 recon1 recon2 recon3 '
               'ngridx ngridy num_iter axis1 axis2 axis3',
    'project': 'obj oy ox oz out dy dt dx center theta',
    'project2': 'objx objy oy ox oz out dy dt dx center theta',
    'project3': 'objx objy objz oy ox oz out dy dt dx center theta axis',
    'gridrec': 'data dy dt dx center theta recon ngridx ngridy fname filter_par',
    'normalize_bg': 'inout dx dy dz nair',
    'remove_stripe_sf': 'inout dx dy dz size istart iend',
    'stripesdetect3d_main_float': 'Input Output window_halflength_vertical ratio_radius ncores dimX dimY dimZ',
    'stripesmask3d_main_float': 'Input Output threshold_val stripe_length_min stripe_depth_min stripe_width_min '
                                'sensitivity ncores dimX dimY dimZ',
    'sample': 'mode data dx dy dz level axis out',
    'remove_ring': 'inout center_x center_y dx dy dz thresh_max thresh_min threshold angular_min ring_width '
                   'int_mode istart iend',
    'Inpainter_morph_main': 'Input Mask Output iterations W_halfsize method_type ncores dimX dimY dimZ',
    'medianfilter_main_float': 'Input Output radius mu_threshold ncores dimX dimY dimZ',
    'medianfilter_main_uint16': 'Input Output radius mu_threshold ncores dimX dimY dimZ',
}
RECON = ('art bart fbp grad osem ospml_hybrid ospml_quad tv tikh vector vector2 vector3 gridrec').split()
PROJ = ('project', 'project2', 'project3')
DIMS = {'dy', 'dt', 'dx', 'dz', 'ngridx', 'ngridy', 'ox', 'oy', 'oz', 'dimX', 'dimY', 'dimZ', 'num_iter', 'num_block'}
ROLE_EXT = {
    'data': ('dy', 'dt', 'dx'), 'data1': ('dy', 'dt', 'dx'), 'data2': ('dy', 'dt', 'dx'), 'data3': ('dy', 'dt', 'dx'),
    'center': ('dy',), 'center1': ('dy',), 'center2': ('dy',), 'center3': ('dy',),
    'theta': ('dt',), 'theta1': ('dt',), 'theta2': ('dt',), 'theta3': ('dt',),
    'recon': ('dy', 'ngridx', 'ngridy'), 'recon1': ('dy', 'ngridx', 'ngridy'), 'recon2': ('dy', 'ngridx', 'ngridy'),
    'recon3': ('dy', 'ngridx', 'ngridy'), 'reg_data': ('dy', 'ngridx', 'ngridy'), 'ind_block': ('dt',),
    'obj': ('oy', 'ox', 'oz'), 'objx': ('oy', 'ox', 'oz'), 'objy': ('oy', 'ox', 'oz'), 'objz': ('oy', 'ox', 'oz'),
    'Input': ('dimX', 'dimY', 'dimZ'), 'Output': ('dimX', 'dimY', 'dimZ'), 'Mask': ('dimX', 'dimY', 'dimZ'),
}
EXT_OVERRIDE = {
    ('project', 'out'): ('dy', 'dt', 'dx'), ('project2', 'out'): ('dy', 'dt', 'dx'), ('project3', 'out'): ('dy', 'dt', 'dx'),
    ('normalize_bg', 'inout'): ('dx', 'dy', 'dz'), ('remove_stripe_sf', 'inout'): ('dx', 'dy', 'dz'),
    ('sample', 'data'): ('dx', 'dy', 'dz'), ('sample', 'out'): None,
    ('remove_ring', 'inout'): ('dx', 'dy', 'dz'),
}
INPUTS = {'data', 'data1', 'data2', 'data3', 'center', 'center1', 'center2', 'center3', 'theta', 'theta1', 'theta2',
          'theta3', 'ind_block', 'reg_data', 'reg_pars', 'filter_par', 'fname', 'name', 'obj', 'objx', 'objy', 'objz',
          'Input', 'Mask'}
OUTPUTS = {'recon', 'recon1', 'recon2', 'recon3', 'out', 'Output', 'inout'}


ACC_CANON = ('data dy dt dx center theta recon ngridx ngridy num_iter pool_size interp device grid_size block_size')
NAME_ALIAS = {('fbp', 'fname'): 'name', ('gridrec', 'name'): 'fname'}
for _s in ('project', 'project2', 'project3'):
    NAME_ALIAS[(_s, 'data')] = 'out'
for _s in ('normalize_bg', 'remove_stripe_sf', 'remove_ring'):
    NAME_ALIAS[(_s, 'data')] = 'inout'


def canon_of(sym, names):
    """meaning of each parameter: by the name the definition gives it where that name is one of the canonical ones, the
    rest in canonical order"""
    can = (CANON.get(sym) or (ACC_CANON if sym in ('cxx_mlem', 'cxx_sirt') else '')).split()
    if not can or len(can) != len(names):
        return list(names)
    got = [NAME_ALIAS.get((sym, n), n) for n in names]
    if len(set(got)) != len(got):
        return can
    left = [c for c in can if c not in got]
    return [g if g in can else left.pop(0) for g in got]


class Root:
    def __init__(self, fn, tree, it, canon):
        self.fn, self.tree, self.it, self.canon = fn, tree, it, canon
        self.name = fn.name
        self.role = {}        # C parameter name -> canonical role
        self.p = {}           # canonical int name -> Atom
        self.buf = {}         # canonical pointer name -> Buf
        for prm, c in zip(fn.params, canon or []):
            nm = prm.get('name')
            self.role[nm] = c
            if nm in it.pints:
                self.p[c] = it.pints[nm]
            if nm in it.pbufs:
                self.buf[c] = it.pbufs[nm]
        for c, b in self.buf.items():
            b.role = c
            dims = EXT_OVERRIDE.get((fn.name, c), ROLE_EXT.get(c))
            if dims and all(d in self.p for d in dims) and b.elem:
                s = Poly.const(b.elem)
                for d in dims:
                    s = s * Poly.of(self.p[d])
                b.size = s
                b.dims = [Poly.of(self.p[d]) for d in dims]
            else:
                b.dims = None

    def P(self, c):
        return Poly.of(self.p[c])


class Slow(Exception):
    pass


class limit:
    """gives up on one function when its analysis takes too long"""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        def hit(*a):
            raise Slow('analysis of this function takes too long')
        self.old = signal.signal(signal.SIGALRM, hit)
        signal.alarm(self.s)

    def __exit__(self, *a):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)


class Model:
    def __init__(self, repo):
        self.prog = cfront.load(repo)
        self.roots = {}
        self.failed = {}
        names = set(CANON)
        for n, ps in self.prog.protos.items():
            if any(p.file.startswith('include/') for p in ps) and self.prog.find(n):
                names.add(n)
        for n in sorted(names):
            fn = self.prog.find(n)
            if fn is None:
                continue
            try:
                with limit(30):
                    it = cabs.Interp(self.prog)
                    tree = it.run(fn)
                    canon = canon_of(n, [p.get('name', '?') for p in fn.params]) if n in CANON else []
                    self.roots[n] = Root(fn, tree, it, canon)
            except Exception as e:
                if os.environ.get('VERIF_DEBUG'):
                    raise
                self.failed[n] = '%s: %s' % (type(e).__name__, str(e)[:80])
        if len(self.roots) + len(self.failed) < 10:
            raise cfront.AnalysisBroken('only %d exported native functions found' % len(self.roots))

    def only(self, n):
        m = copy.copy(self)
        m.roots = {n: self.roots[n]}
        return m


WHOLE = {'C06', 'C19'}
_STATE = {}


def _one(n):
    prop, model, fn = _STATE['x']
    res = report.Result(prop)
    try:
        with limit(240):
            fn(model.only(n) if n else model, res)
    except Exception as e:
        if os.environ.get('VERIF_DEBUG'):
            raise
        res = report.Result(prop)
        res.und('not analysable (%s): %s: %s' % (n or 'all', type(e).__name__, str(e)[:80]))
    return res


def decide(prop, model, fn, res):
    for n, why in model.failed.items():
        res.und('not analysable (%s): %s' % (n, why))
    _STATE['x'] = (prop, model, fn)
    jobs = int(os.environ.get('VERIF_JOBS', 0) or os.cpu_count() or 4)
    if prop in WHOLE:
        parts = [_one(None)]
    elif jobs > 1:
        with multiprocessing.get_context('fork').Pool(jobs) as pool:
            parts = pool.map(_one, sorted(model.roots), chunksize=1)
    else:
        parts = [_one(n) for n in sorted(model.roots)]
    for r in parts:
        res.merge(r)
    if not res.obligations:
        raise cfront.AnalysisBroken('nothing to analyse')


# ---------------------------------------------------------------- evaluation of index expressions at a witness point
def ev(p, env):
    tot = 0
    for m, c in p.t.items():
        v = c
        for i in m:
            x = env.get(i)
            if x is None:
                x = ev_atom(Atom.all[i], env)
                if x is None:
                    return None
            v *= x
        tot += v
    return tot


def ev_atom(a, env):
    if a.kind == 'ite':
        c = ev_cond(a.data[0], env)
        if c is None or len(a.data) != 3:
            return None
        return ev(a.data[1] if c else a.data[2], env)
    if a.kind in ('div', 'mod', 'ceildiv', 'min', 'max'):
        x, y = ev(a.data[0], env), ev(a.data[1], env)
        if x is None or y is None:
            return None
        if a.kind == 'min':
            return min(x, y)
        if a.kind == 'max':
            return max(x, y)
        if y == 0:
            return None
        if a.kind == 'ceildiv':
            return -((-x) // y)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return q if a.kind == 'div' else x - q * y
    if a.kind == 'sum':
        d, j, n = a.data
        n = ev(n, env)
        if n is None or n > 200:
            return None
        tot = 0
        for k in range(n):
            v = ev(d, {**env, j.id: k})
            if v is None:
                return None
            tot += v
        return tot
    if a.kind == 'ld' and ('ld', a.data[0]) in env:
        i = ev(a.data[1], env)
        return None if i is None else env['ld', a.data[0]](i // 4)
    if a.kind == 'bool':
        c = ev_cond(a.data[0], env)
        return None if c is None else int(c)
    if a.kind == 'f2i':
        v = evf(a.data[0], env)
        return None if v is None else toint(v)
    if a.kind == 'call' and a.data[0] in ('abs', 'labs'):
        x = ev(a.data[1], env) if isinstance(a.data[1], Poly) else None
        return None if x is None else abs(x)
    if a.kind == 'iop':
        x, y = ev(a.data[1], env), ev(a.data[2], env)
        if x is None or y is None:
            return None
        o = a.data[0]
        if o in ('&', '|', '^'):
            return x & y if o == '&' else x | y if o == '|' else x ^ y
        if o in ('<<', '>>') and 0 <= y < 32:
            return x << y if o == '<<' else x >> y
        return None
    return None


def toint(v):
    """(int) of a floating-point value; None where the rounding of the arithmetic decides"""
    x, exact = v
    if not math.isfinite(x):
        return None
    r = round(x)
    if not exact and abs(x - r) <= 1e-4 * max(1.0, abs(x)):
        return None
    return int(x)


F1 = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'sqrt': math.sqrt, 'fabs': abs, 'sin': math.sin,
      'cos': math.cos, 'tan': math.tan, 'exp': math.exp, 'log': math.log, 'log2': math.log2, 'atan': math.atan,
      'acos': math.acos, 'asin': math.asin, 'round': lambda x: math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1),
      'lround': lambda x: math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1), 'rint': round, 'lrint': round}
F2 = {'pow': lambda x, y: x ** y, 'fmin': min, 'fmax': max, 'fmod': math.fmod, 'atan2': math.atan2, 'hypot': math.hypot}


def evf(p, env):
    """(value, whether it is free of rounding) of a floating-point expression; None: not evaluable"""
    if not isinstance(p, Poly):
        return None
    if p.is_const():
        return float(p.cval()), True
    if len(p.t) != 1:
        v = ev(p, env)
        return None if v is None else (float(v), abs(v) < 2 ** 24)
    (m, co), = p.t.items()
    if len(m) != 1 or co != 1:
        v = ev(p, env)
        return None if v is None else (float(v), abs(v) < 2 ** 24)
    a = Atom.all[m[0]]
    if a.id in env:
        v = env[a.id]
        return float(v), float(v * 16).is_integer() and abs(v) < 2 ** 18
    if a.kind == 'i2f':
        v = ev(a.data[0], env)
        return None if v is None else (float(v), abs(v) < 2 ** 24)
    if a.kind == 'ld' and ('ld', a.data[0]) in env:
        v = ev_atom(a, env)
        return None if v is None else (v, float(v * 16).is_integer() and abs(v) < 2 ** 18)
    if a.kind == 'fc':
        try:
            v = float(str(a.data).rstrip('fFlL'))
        except ValueError:
            return None
        return v, float(v * 16).is_integer() and abs(v) < 2 ** 18
    if a.kind == 'ite' and len(a.data) == 3:
        c = ev_cond(a.data[0], env)
        return None if c is None else evf(a.data[1] if c else a.data[2], env)
    if a.kind == 'fop':
        xs = [evf(x, env) for x in a.data[1:]]
        if any(x is None for x in xs):
            return None
        o = a.data[0]
        try:
            if o == 'neg':
                return -xs[0][0], xs[0][1]
            (x, ex), (y, ey) = xs
            if o in '+-*/':
                r = x + y if o == '+' else x - y if o == '-' else x * y if o == '*' else x / y
                return r, ex and ey and float(r * 4096).is_integer() and abs(r) < 2 ** 11 or \
                    ex and ey and float(r).is_integer() and abs(r) < 2 ** 24
        except (ValueError, ZeroDivisionError, OverflowError):
            pass
        return None
    if a.kind == 'call':
        n = a.data[0]
        n = n if n in F1 or n in F2 else n[:-1] if n.endswith('f') else n
        xs = [evf(x, env) for x in a.data[1:]]
        if any(x is None for x in xs):
            return None
        try:
            if n in F1 and len(xs) == 1:
                x, ex = xs[0]
                if n in ('floor', 'ceil', 'trunc'):
                    if not ex and abs(x - round(x)) <= 1e-4 * max(1.0, abs(x)):
                        return None
                    return float(F1[n](x)), True
                if n in ('round', 'lround', 'rint', 'lrint'):
                    if not ex and abs(abs(x - math.floor(x)) - 0.5) <= 1e-4 * max(1.0, abs(x)):
                        return None
                    return float(F1[n](x)), True
                r = float(F1[n](x))
                return r, ex and n == 'fabs' or ex and n == 'sqrt' and r.is_integer() and r * r == x
            if n in F2 and len(xs) == 2:
                r = F2[n](xs[0][0], xs[1][0])
                if isinstance(r, complex):
                    return None
                ex = xs[0][1] and xs[1][1]
                if n == 'fmod' and abs(xs[0][0]) < 0.999 * abs(xs[1][0]):
                    return xs[0]
                return float(r), ex and (n in ('fmin', 'fmax') or float(r).is_integer() and abs(r) < 2 ** 24)
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            pass
    return None


def ev_cond(c, env):
    if c is None:
        return None
    k = c[0]
    if k == 'const':
        return c[1]
    if k == 'ge0':
        v = ev(c[1], env)
        return None if v is None else v >= 0
    if k == 'eq0':
        v = ev(c[1], env)
        return None if v is None else v == 0
    if k == 'not':
        v = ev_cond(c[1], env)
        return None if v is None else not v
    if k in ('and', 'or'):
        a, b = ev_cond(c[1], env), ev_cond(c[2], env)
        if k == 'and':
            if a is False or b is False:
                return False
            return True if a and b else None
        if a or b:
            return True
        return False if a is False and b is False else None
    if k == 'fcmp':
        x, y = evf(c[2], env), evf(c[3], env)
        if x is None or y is None:
            return None
        if not (x[1] and y[1]) and abs(x[0] - y[0]) <= 1e-4 * max(1.0, abs(x[0])):
            return None
        x, y = x[0], y[0]
        return {'<': x < y, '<=': x <= y, '==': x == y}[c[1]]
    return None


KNOWNF = set(F1) | set(F2) | {'abs', 'labs'}


def known_atoms(p, ok):
    """all atoms of p (deep) are parameters / loops in ok or evaluable operators"""
    for a in cabs.deep_atoms(p):
        if a.kind in ('param', 'loop'):
            if a.id not in ok:
                return False
        elif a.kind == 'call':
            if (a.data[0] if a.data[0] in F1 or a.data[0] in F2 else a.data[0].rstrip('f')) not in KNOWNF:
                return False
        elif a.kind not in ('div', 'mod', 'ceildiv', 'min', 'max', 'ite', 'bool', 'iop', 'sum', 'bound', 'f2i', 'i2f', 'fop',
                            'fc'):
            return False
        elif a.kind in ('ite', 'bool') and opaque(a.data[0]):
            return False
    return True


def opaque(c):
    """the condition has a part that cannot be evaluated"""
    if c is None:
        return True
    if c[0] in ('not', 'and', 'or'):
        return any(opaque(x) for x in c[1:])
    return c[0] not in ('ge0', 'eq0', 'const', 'fcmp')


def loops_of(ctx):
    return [x for x in ctx if isinstance(x, Loop)]


def guards_of(ctx):
    out = []
    for x in ctx:
        if isinstance(x, tuple):
            e, pos = x
            out += cabs.conjuncts(e.cond, pos)
    return out


def sign(p, nonneg_from=None):
    """'>=0' / '<=0' / None under: every parameter >= 1, loop atoms >= 0 shifted by env"""
    if not p.t:
        return '0'
    q = p
    for a in p.atoms():
        if a.kind == 'param':
            q = q.subst(a, Poly.of(a) + 1)
        elif a.kind in ('loop', 'div', 'mod', 'ceildiv'):
            pass
        else:
            return None
    vals = q.t.values()
    if all(v >= 0 for v in vals):
        return '>=0'
    if all(v <= 0 for v in vals):
        return '<=0'
    return None


def linear_loop_guards(ctx):
    """tightened (lo, hi) per loop from guards of the form +-L + rest >= 0"""
    los, his = {}, {}
    lps = loops_of(ctx)
    ids = {l.atom.id: l for l in lps}
    for c, pos in guards_of(ctx):
        if c[0] == 'ge0' and pos:
            for a in c[1].atoms():
                if a.id in ids and c[1].degree_in(a) == 1:
                    co, rest = c[1].coef(a)
                    if co == C1:
                        los.setdefault(a.id, []).append(-rest)
                    elif co == -C1:
                        his.setdefault(a.id, []).append(rest + 1)
    return los, his


def bound_index(idx, ctx, want):
    """symbolic max/min of idx over the loop box; None if not monotone / unknown"""
    lps = loops_of(ctx)
    los, his = linear_loop_guards(ctx)
    p = idx
    for l in reversed(lps):
        a = l.atom
        if not p.has(a):
            continue
        if l.hi is None or p.degree_in(a) != 1:
            return None
        co, rest = p.coef(a)
        s = sign(co)
        if s is None:
            return None
        up = (s in ('>=0', '0')) == (want == 'max')
        cand = his.get(a.id, []) if up else los.get(a.id, [])
        if up:
            b = l.hi - 1
            for h in cand:
                if sign(l.hi - h) == '>=0':
                    b = h - 1
        else:
            b = l.lo
            for x in cand:
                if sign(x - l.lo) == '>=0':
                    b = x
        p = co * b + rest
    return p


DIMVALS = {'dy': (1, 2, 3), 'dt': (1, 2, 4, 5), 'dx': (1, 3, 4), 'ngridx': (1, 2, 3, 5), 'ngridy': (1, 2, 3, 4),
           'num_iter': (1, 2), 'num_block': (1, 2, 3), 'ox': (1, 2, 5), 'oy': (1, 3), 'oz': (1, 2, 4),
           'dimX': (2, 5, 9), 'dimY': (2, 4, 7), 'dimZ': (1, 3, 8), 'dz': (1, 2, 4)}


# further integer parameters, with the relations the Python layer guarantees (checked there by C26 and C18)
ROOTVALS = {
    'normalize_bg': {'dx': (1, 2, 3), 'dy': (1, 2, 3), 'dz': (1, 2, 5), 'nair': (1, 2, 3)},
    'remove_stripe_sf': {'dx': (1, 2, 3), 'dy': (1, 2, 3), 'dz': (1, 2, 5), 'size': (1, 2, 5, 8), 'istart': (0, 1, 2),
                         'iend': (1, 2, 3)},
    'stripesdetect3d_main_float': {'window_halflength_vertical': (1, 2, 3), 'ratio_radius': (1, 2, 3), 'dimX': (1, 2, 5),
                                   'dimY': (1, 3, 6), 'dimZ': (2, 4, 7), 'ncores': (1, 2)},
    'stripesmask3d_main_float': {'stripe_length_min': (1, 2, 4), 'stripe_depth_min': (0, 1, 3), 'stripe_width_min': (1, 2, 4),
                                 'dimX': (2, 3, 6), 'dimY': (1, 2, 5), 'dimZ': (2, 4, 5), 'ncores': (1, 2)},
    'sample': {'mode': (0, 1), 'level': (0, 1, 2), 'axis': (0, 1, 2), 'dx': (4, 8), 'dy': (4, 12), 'dz': (4, 16)},
    'remove_ring': {'dx': (5, 13), 'dy': (6, 14), 'dz': (1, 3), 'istart': (0, 1), 'iend': (1, 3), 'ring_width': (1, 4),
                    'int_mode': (0, 1), 'center_x': (2.25, 5.5), 'center_y': (2.25, 6.5), 'angular_min': (30, 100, 175), 'thresh_max': (300.0,), 'thresh_min': (-100.0,), 'threshold': (300.0,)},
    'medianfilter_main_float': {'radius': (1, 2, 3), 'ncores': (1, 2), 'dimX': (1, 3, 5), 'dimY': (1, 2, 4), 'dimZ': (0, 1, 3)},
    'medianfilter_main_uint16': {'radius': (1, 2, 3), 'ncores': (1, 2), 'dimX': (1, 3, 5), 'dimY': (1, 2, 4),
                                 'dimZ': (0, 1, 3)},
    'Inpainter_morph_main': {'W_halfsize': (1, 2, 3), 'iterations': (0, 1, 2), 'method_type': (0, 1, 2), 'ncores': (1, 2),
                             'dimX': (1, 2, 5), 'dimY': (1, 3, 4), 'dimZ': (0, 1, 3)},
    'project3': {'axis': (0, 1, 2)}, 'vector2': {'axis1': (0, 1, 2), 'axis2': (0, 1, 2)},
    'vector3': {'axis1': (0, 1, 2), 'axis2': (0, 1, 2), 'axis3': (0, 1, 2)},
}
for _s in ('downsample', 'upsample'):
    ROOTVALS[_s] = {k: v for k, v in ROOTVALS['sample'].items() if k != 'mode'}
RELATED = {
    'normalize_bg': [('nair', 'dz', lambda a, b: a <= b)],
    'remove_stripe_sf': [('istart', 'iend', lambda a, b: a <= b), ('iend', 'dy', lambda a, b: a <= b)],
    'remove_ring': [('istart', 'iend', lambda a, b: a <= b), ('iend', 'dz', lambda a, b: a <= b),
                    ('center_x', 'dx', lambda a, b: a <= b - 1), ('center_y', 'dy', lambda a, b: a <= b - 1)],
    'stripesdetect3d_main_float': [('window_halflength_vertical', 'dimZ', lambda a, b: a <= b // 2)],
    'stripesmask3d_main_float': [('stripe_length_min', 'dimZ', lambda a, b: a < b), ('stripe_depth_min', 'dimY', lambda a, b: a < b),
                                 ('stripe_width_min', 'dimX', lambda a, b: a < b)],
}


def thresholds(root):
    """parameter atom id -> constants it is compared with"""
    r = getattr(root, 'consts', None)
    if r is not None:
        return r
    r = root.consts = {}
    ids = {a.id for a in root.p.values()}

    def cond(c):
        if not c:
            return
        if c[0] in ('ge0', 'eq0'):
            p = c[1]
            if len(p.t) <= 2 and len(p.atoms()) == 1:
                a = p.atoms()[0]
                if a.id in ids and p.degree_in(a) == 1:
                    co, rest = p.coef(a)
                    if co.is_const() and rest.is_const() and co.cval():
                        v = abs(rest.cval()) // abs(co.cval())
                        r.setdefault(a.id, set()).update((v, v + 1))
            for a in p.atoms():
                inner(a)
        elif c[0] in ('not', 'and', 'or'):
            for x in c[1:]:
                cond(x)

    def inner(a, depth=0):
        if depth < 4 and isinstance(a.data, tuple):
            for x in a.data:
                if isinstance(x, Poly):
                    for b in x.atoms():
                        inner(b, depth + 1)
                elif isinstance(x, tuple) and x and isinstance(x[0], str):
                    cond(x)
    for e, _ in cabs.walk(root.tree):
        if isinstance(e, If):
            cond(e.cond)
        elif isinstance(e, Loop) and e.hi is not None:
            for a in e.lo.atoms() + e.hi.atoms():
                inner(a)
    return r


def linked(root, env):
    """the point satisfies the relations the callers guarantee"""
    for x, y, f in RELATED.get(root.name, ()):
        if x in root.p and y in root.p:
            i, j = root.p[x].id, root.p[y].id
            if i in env and j in env and not f(env[i], env[j]):
                return False
    return True


def partners(root, params):
    """params, and the parameters related to them"""
    ids = {a.id for a in params}
    out = list(params)
    for x, y, _ in RELATED.get(root.name, ()):
        if x in root.p and y in root.p:
            for u, v in ((x, y), (y, x)):
                if root.p[u].id in ids and root.p[v].id not in ids:
                    ids.add(root.p[v].id)
                    out.append(root.p[v])
    return out


def witness_points(root, params, cap=400, extra=None):
    """small assignments of the dimension parameters"""
    names = {}
    for c, a in root.p.items():
        names[a.id] = c
    lst = []
    for a in partners(root, params):
        c = names.get(a.id)
        dom = (extra or {}).get(c) or ROOTVALS.get(root.name, {}).get(c) or DIMVALS.get(c)
        if dom is None:
            return
        more = sorted(v for v in thresholds(root).get(a.id, ()) if max(dom) < v <= 5000)
        lst.append((a.id, tuple(dom) + tuple(more[:4])))
    if root.name.startswith('ospml'):
        # the neighbourhood penalties are defined on grids of at least 2 x 2
        gr = {root.p[c].id for c in ('ngridx', 'ngridy') if c in root.p}
        lst = [(i, tuple(v for v in d if v > 1) if i in gr else d) for i, d in lst]
    cube = None
    if root.name in ('vector2', 'vector3'):
        # the Python layer admits only cubic volumes here (rule vector-cube of C03)
        cube = [root.p[c].id for c in ('dy', 'ngridx', 'ngridy') if c in root.p]
    tied = root.name in PROJ
    combos = itertools.product(*[v for _, v in lst])
    n = 0
    for vals in sorted(combos, key=lambda t: -len(set(t))):
        env = {i: v for (i, _), v in zip(lst, vals)}
        if 'num_block' in root.p and 'dt' in root.p:
            nb, dt = root.p['num_block'].id, root.p['dt'].id
            if nb in env and dt in env and env[nb] > env[dt]:
                continue
        if not linked(root, env):
            continue
        if cube:
            have = [env[i] for i in cube if i in env]
            if len(set(have)) > 1:
                continue
        if tied and root.p['oy'].id in env and root.p['dy'].id in env and env[root.p['oy'].id] != env[root.p['dy'].id]:
            continue
        n += 1
        if n > cap:
            return
        yield env
