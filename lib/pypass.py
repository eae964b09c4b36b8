"""Property decisions over the Python layer: rules applied to the abstract runs of pyscen/pytab."""
import multiprocessing
import os
import re
import sys

import numpy as np

from pyval import *
import cmodel
import pyscen
import pytab
from pyscen import Arr, Same, Scn, explore, run
from pytab import F

INTERNAL = (NameError, UnboundLocalError)
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
SIZES = [(5, 3, 7), (6, 4, 8), (3, 5, 4)]


# ------------------------------------------------------------------ scenario enumeration
def variants(f, what):
    """(label, args) with the requested kinds of variation"""
    if 'base' in what:
        yield 'base', dict(f.base)
    if 'min' in what:
        r = required(f.fn)
        if r is not None:
            yield 'defaults', {k: v for k, v in f.base.items() if k in r or k in ('algorithm', 'accelerated', 'device')}
    if 'var' in what:
        for p, vs in f.var.items():
            for v in vs:
                if isinstance(v, Arr) or repr(v) != repr(f.base[p]):
                    d = dict(f.base, **{p: v})
                    if p == 'sinogram_order' and v is True and 'theta' in d and isinstance(d.get('tomo'), Arr) and not f.base[p]:
                        n = d['tomo'].shape
                        d['tomo'] = d['tomo'].but(shape=(n[1], n[0], n[2]))
                    yield '%s=%s' % (p, desc(v)), d
    if 'cores' in what:
        for n in f.var.get('ncore', ()):
            for c in f.var.get('nchunk', [0]):
                for a in f.var.get('axis', [None]):
                    d = dict(f.base, ncore=n)
                    if c != 0:
                        d['nchunk'] = c
                    if a is not None:
                        d['axis'] = a
                    yield 'ncore=%s,nchunk=%s,axis=%s' % (n, c, a), d
    if 'lay' in what:
        for p in f.arrays() + ['center', 'init_recon', 'center1', 'center2', 'center3']:
            b = f.base.get(p)
            if not isinstance(b, Arr):
                b = next((v for v in f.var.get(p, ()) if isinstance(v, Arr)), None)
            if b is None:
                continue
            for lay in ('F', 'strided', 'rev', 'sub', 'lead') if len(b.shape) > 1 else ('strided', 'rev'):
                yield '%s:%s' % (p, lay), dict(f.base, **{p: b.but(lay=lay)})
            yield '%s:shared' % p, dict(f.base, **{p: b.but(shared=True)})
            if len(b.shape) > 1:
                yield '%s:sharedlead' % p, dict(f.base, **{p: b.but(shared=True, lay='lead')})
    if 'dt' in what:
        for p in f.arrays() + ['center', 'init_recon', 'center1', 'center2', 'center3']:
            b = f.base.get(p)
            if not isinstance(b, Arr):
                b = next((v for v in f.var.get(p, ()) if isinstance(v, Arr)), None)
            if b is None:
                continue
            for dt in ('float64', 'uint16', 'int32', 'int64'):
                if dt != b.dt and b.dt not in ('bool', 'complex64'):
                    yield '%s:%s' % (p, dt), dict(f.base, **{p: b.but(dt=dt)})
    if 'out' in what and f.out:
        m = f.base[f.shape]
        for lay in ('C', 'F', 'strided', 'lead'):
            yield 'out:' + lay, dict(f.base, **{f.out: m.but(lay=lay, main=False)})
        for dt in ('float64', 'uint16'):
            yield 'out:' + dt, dict(f.base, **{f.out: m.but(dt=dt, main=False)})
            yield 'in:%s,out:float32' % dt, dict(f.base, **{f.shape: m.but(dt=dt), f.out: m.but(main=False)})
        yield 'out:shared', dict(f.base, **{f.out: m.but(shared=True, main=False)})
        yield 'out:same', dict(f.base, **{f.out: Same(f.shape)})
        for p, vs in f.var.items():
            for v in vs:
                if not isinstance(v, Arr) and repr(v) != repr(f.base[p]):
                    yield 'out:C,%s=%s' % (p, desc(v)), dict(f.base, **{p: v, f.out: m.but(main=False)})
    if 'bad' in what:
        for p, vs in f.bad.items():
            for v in list(vs) + near(f, p):
                yield 'BAD %s=%r' % (p, v), dict(f.base, **{p: v})


def near(f, p):
    """strings that resemble the documented values of a selector without being one"""
    good = [v for v in [f.base.get(p)] + list(f.var.get(p, ())) if isinstance(v, str)]
    out = []
    for g in good:
        for v in (g[:-1], g + 'x', g[0] + 'zz', ''):
            if v not in good and v not in out and v not in pytab.ALGS:
                out.append(v)
    if good:
        low = [g.lower() for g in good]
        out += [v for v in words(ffile(f)) if v.lower() not in low and v not in out and v not in pytab.ALGS]
    return out


_WORDS = {}


def words(path):
    """the strings a module mentions that could name an option"""
    path = os.path.join(REPO[0], path)
    if path not in _WORDS:
        import ast
        try:
            t = ast.parse(open(path).read())
        except (OSError, SyntaxError):
            t = ast.Module([], [])
        _WORDS[path] = sorted(set(n.value for n in ast.walk(t) if isinstance(n, ast.Constant) and isinstance(n.value, str)
                                  and re.fullmatch(r'[A-Za-z_][\w+-]{0,15}', n.value)))
    return _WORDS[path]


_REQ = {}


def required(fn):
    """parameters of a function without a default, None if it cannot be read"""
    if fn not in _REQ:
        _REQ[fn] = None
        import ast
        mod, name = fn.rsplit('.', 1)
        for suffix in ('.py', '/__init__.py'):
            try:
                t = ast.parse(open(os.path.join(REPO[0], 'source/tomopy', mod.replace('.', '/') + suffix)).read())
            except (OSError, SyntaxError):
                continue
            for n in t.body:
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    a = n.args
                    ps = [x.arg for x in a.posonlyargs + a.args]
                    _REQ[fn] = set(ps[:len(ps) - len(a.defaults)]) | set(
                        x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None)
    return _REQ[fn]


def desc(v):
    if isinstance(v, Arr):
        return 'array%s%s' % (v.shape, '' if v.dt == 'float32' else v.dt)
    return repr(v)


def fkey(f):
    return f.fn.split('.')[-1] + (':' + f.alg if hasattr(f, 'alg') else '')


def ffile(f):
    return 'source/tomopy/' + '/'.join(f.fn.split('.')[:-1]) + '.py'


def at(site):
    """file, line, function of a site"""
    if site is None:
        return None, None, None
    return 'source/%s.py' % site[0], site[2], site[1]


class Rep:
    """what one unit of work reports back"""

    def __init__(self):
        self.bads, self.oks, self.unds, self.counts = [], 0, {}, {}
        self.samples = []

    def bad(self, key, msg, site=None, f=None):
        fi, li, fu = at(site)
        if fi is None or fi.startswith('source/<user>'):
            fi, li, fu = (ffile(f), 0, f.fn.split('.')[-1]) if f is not None else (None, None, None)
        self.bads.append((key, msg, fi, li, fu))

    def ok(self, sample=None, n=1):
        self.oks += n
        if sample and len(self.samples) < 3:
            self.samples.append(sample)

    def und(self, why):
        self.unds[why] = self.unds.get(why, 0) + 1

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n


def outs_of(f, args, cap=12, rep=None, **kw):
    outs = explore(REPO[0], Scn(f.fn, args), cap=cap, **kw)
    if rep is not None:
        rep.count('paths', len(outs))
        for o in outs:
            if o.kind in ('abort', 'noload', 'hang'):
                rep.und('%s: %s: %s' % (fkey(f), o.kind, o.why))
    return outs


REPO = ['/repo']


def roots_in(v, acc=None, depth=0):
    acc = [] if acc is None else acc
    if isinstance(v, A):
        acc.append(v)
    elif isinstance(v, Seq) and depth < 4:
        for x in v.items:
            roots_in(x, acc, depth + 1)
    elif isinstance(v, Dct) and depth < 4:
        for x in v.items.values():
            roots_in(x, acc, depth + 1)
    return acc


# ------------------------------------------------------------------ C02
PT = {'c_float': 'float32', 'c_int': 'int32', 'c_ushort': 'uint16', 'c_uint16': 'uint16', 'c_ubyte': 'uint8', 'c_uint8': 'uint8',
      'c_bool': 'bool', 'c_double': 'float64', 'c_uint': 'uint32', 'c_long': 'int64', 'c_byte': 'int8', 'c_char': 'int8',
      'c_short': 'int16'}


def role(sym, i):
    c = _ROLE.get(sym) or cmodel.CANON.get(sym, '').split()
    return c[i] if i < len(c) else 'arg%d' % i


def natives(o):
    return [e for e in o.it.events if e['kind'] == 'native']


def u_c02(f, lab, args, rep):
    for o in outs_of(f, args, rep=rep):
        for e in natives(o):
            rep.count('native calls')
            for i, a in enumerate(e['args']):
                if not (isinstance(a, Nat) and a.kind == 'cptr'):
                    continue
                r = role(e['sym'], i)
                if not isinstance(a.arr, A):
                    rep.und('array of unknown geometry reaches %s' % e['sym'])
                    continue
                if not a.arr.idx.flags.c_contiguous:
                    rep.bad('%s:%s:layout:%s' % (e['sym'], r, fkey(f)), '%s [%s]: the array passed to native %s() as %s is not '
                            'C-contiguous' % (f.fn, lab, e['sym'], r), e['site'], f)
                else:
                    rep.ok('%s[%s]: %s.%s contiguous' % (f.fn, lab, e['sym'], r))
                pt = PT.get(getattr(a.pointee, '__name__', None))
                want = pointee_of(e['sym'], i) or pt
                have = str(a.dtype_at if hasattr(a, 'dtype_at') else a.arr.dtype)
                if want is None:
                    rep.und('pointer type of %s.%s' % (e['sym'], r))
                elif {want, have} <= {'bool', 'uint8', 'int8'} or want == have:
                    rep.ok()
                else:
                    rep.bad('%s:%s:dtype:%s' % (e['sym'], r, fkey(f)), '%s [%s]: native %s() reads %s as %s but the array holds '
                            '%s' % (f.fn, lab, e['sym'], r, want, have), e['site'], f)


_PROTO = {}      # native function -> [(base type, pointer depth)]
_ROLE = {}       # native function -> canonical meaning of each parameter
_PLIB = {}       # native function -> source directories that define it
_DECL = {}       # native function -> [(header, line, types)]
CT = {'float': 'float32', 'int': 'int32', 'unsigned short': 'uint16', 'unsigned char': 'uint8', '_Bool': 'bool', 'bool': 'bool',
      'uint16_t': 'uint16', 'uint8_t': 'uint8', 'double': 'float64', 'char': 'char', 'unsigned int': 'uint32', 'short': 'int16',
      'int32_t': 'int32', 'long': 'int64', 'size_t': 'uint64', 'unsigned long': 'uint64'}


def ctype_of(q):
    """(base type, pointer depth) of a C type text"""
    q = q.replace('const', ' ').replace('restrict', ' ').replace('volatile', ' ').replace('__', '')
    n = q.count('*') + q.count('[')
    b = ' '.join(re.sub(r'\[.*?\]', '', q.replace('*', ' ')).split())
    return b, n


def pointee_of(sym, i):
    p = _PROTO.get(sym)
    if not p or i >= len(p):
        return None
    b, n = p[i]
    return CT.get(b) if n == 1 else None


# ------------------------------------------------------------------ C08
ALWAYS = {'out', 'init_recon'}


def u_c08(f, lab, args, rep):
    for o in outs_of(f, args, rep=rep):
        if o.params is None or o.kind in ('noload',):
            continue
        ex = set(f.inplace) | ALWAYS
        for k, v in args.items():
            if isinstance(v, Same):
                ex.add(v.name)
        for k, v in o.params.items():
            for a in roots_in(v):
                rep.count('input arrays')
                if k in ex:
                    continue
                if a.root.written.any():
                    s = sorted(a.root.wsites)[0] if a.root.wsites else None
                    rep.bad('input:%s:%s' % (f.fn.split('.')[-1], k), '%s [%s]: the caller\'s array %s is modified' % (
                        f.fn, lab, k), s, f)
                else:
                    rep.ok('%s[%s]: %s unmodified' % (f.fn, lab, k))


# ------------------------------------------------------------------ C17
def u_c17(f, lab, args, rep):
    for o in outs_of(f, args, rep=rep):
        if o.kind != 'return':
            if o.kind == 'raise':
                rep.ok()
            continue
        v = o.value
        given = args.get(f.out)
        if isinstance(given, (Arr, Same)):
            w = o.params[f.out]
            if not isinstance(v, A):
                if isinstance(v, K):
                    rep.bad('%s:out:notreturned' % fkey(f), '%s [%s]: the output array is not returned' % (f.fn, lab), None, f)
                else:
                    rep.und('unknown result of %s' % f.fn)
                continue
            if v.root is not w.root or v.idx.shape != w.idx.shape or not (v.idx == w.idx).all():
                rep.bad('%s:out:other' % fkey(f), '%s [%s]: returns another array than the output array it was given' % (
                    f.fn, lab), None, f)
            elif not w.root.written[w.idx].all():
                if getattr(w.root, 'maybe', False):
                    rep.und('partly unknown stores')
                elif isinstance(given, Same):
                    rep.und('in place')
                else:
                    rep.bad('%s:out:partial' % fkey(f), '%s [%s]: parts of the output array are never written' % (f.fn, lab),
                            None, f)
            elif f.shape not in w.root.deps:
                rep.bad('%s:out:nodata' % fkey(f), '%s [%s]: the output array does not receive the data' % (f.fn, lab), None, f)
            else:
                rep.ok('%s[%s]: out is result, %d elements written' % (f.fn, lab, w.idx.size))
            w2 = getattr(w.root, 'owner', '')
        else:
            for a in roots_in(v):
                if a.root.owner.startswith('param:') and a.root.owner[6:] not in f.inplace:
                    rep.bad('%s:out:aliases' % fkey(f), '%s [%s]: without an output array the result is the input array itself'
                            % (f.fn, lab), None, f)
                else:
                    rep.ok()


# ------------------------------------------------------------------ C18
def u_c18(f, lab, args, rep):
    outs = outs_of(f, args, cap=24, rep=rep)
    for n, o in enumerate(outs):
        if lab.startswith('BAD'):
            p = lab[4:].split('=')[0]
            if o.kind == 'return':
                if n == 0:
                    rep.bad('%s:accepts:%s' % (fkey(f), p), '%s accepts the undocumented value %s without an error' % (
                        f.fn, lab[4:]), None, f)
                continue
            if o.kind == 'raise':
                c = o.exc.ev.cls
                if isinstance(c, type) and issubclass(c, INTERNAL):
                    rep.bad('%s:unset:%s' % (fkey(f), o.exc.site[1]), '%s [%s]: fails on a variable that is not set on this '
                            'path: %s' % (f.fn, lab[4:], o.exc.ev.args), o.exc.site, f)
                else:
                    rep.ok('%s rejects %s' % (f.fn, lab[4:]))
            continue
        if o.kind == 'raise':
            c = o.exc.ev.cls
            if isinstance(c, type) and issubclass(c, INTERNAL):
                rep.bad('%s:unset:%s' % (fkey(f), o.exc.site[1]), '%s [%s]: fails on a variable that is not set on this path: '
                        '%s' % (f.fn, lab, o.exc.ev.args), o.exc.site, f)
            elif n == 0 and isinstance(c, type) and issubclass(c, (AttributeError, TypeError, IndexError, KeyError)) and \
                    not o.it.order and o.exc.ev.auto and ':' not in lab:
                rep.bad('%s:fails:%s' % (fkey(f), o.exc.site[1]), '%s [%s]: a documented call always fails: %s %s' % (
                    f.fn, lab, c.__name__, o.exc.ev.args), o.exc.site, f)
            else:
                rep.ok()
        elif o.kind == 'return':
            for a in roots_in(o.value):
                if not a.init().all():
                    rep.bad('%s:uninit' % fkey(f), '%s [%s]: returns memory that was never filled in (%d of %d elements)' % (
                        f.fn, lab, int((~a.init()).sum()), a.idx.size), a.root.site, f)
                else:
                    rep.ok('%s[%s]: result filled in' % (f.fn, lab))


# ------------------------------------------------------------------ C20
def u_c20(f, lab, args, rep):
    if not f.shape:
        return
    for o in outs_of(f, args, rep=rep):
        if o.kind != 'return':
            c = o.exc.ev.cls if o.kind == 'raise' else None
            if isinstance(c, type) and issubclass(c, (ValueError, IndexError)) and o.exc.ev.auto and ':' not in lab:
                rep.bad('%s:fails' % fkey(f), '%s [%s]: fails for data of shape %s: %s %s' % (
                    f.fn, lab, args[f.shape].shape, c.__name__, [getattr(x, 'v', '?') for x in o.exc.ev.args]), o.exc.site, f)
            continue
        p = o.params[f.shape]
        v = o.value
        if isinstance(v, Seq) and v.items:
            v = v.items[0]
        if not isinstance(v, A):
            rep.und('geometry of the result of %s' % f.fn)
            continue
        if v.shape != p.shape:
            rep.bad('%s:shape' % fkey(f), '%s [%s]: input of shape %s comes back with shape %s' % (f.fn, lab, p.shape, v.shape),
                    v.root.site, f)
            continue
        rep.ok('%s[%s]: shape %s kept' % (f.fn, lab, v.shape))
        s = v.src()
        want = np.arange(v.idx.size).reshape(v.shape)
        wrong = (s >= 0) & (s < 10 ** 6) & (s != want)
        if wrong.any():
            k = tuple(int(x) for x in np.argwhere(wrong)[0])
            rep.bad('%s:place' % fkey(f), '%s [%s]: element %s of the result stems from element %s of the input' % (
                f.fn, lab, k, tuple(int(x) for x in np.unravel_index(int(s[k]), v.shape))), v.root.site, f)
        elif (s == -3).any():
            k = tuple(int(x) for x in np.argwhere(s == -3)[0])
            rep.bad('%s:shift' % fkey(f), '%s [%s]: element %s of the result combines elements from different places of the input' % (
                f.fn, lab, k), v.root.site, f)
        elif (s == want).all():
            rep.ok('%s[%s]: every element at its own place' % (f.fn, lab))
        else:
            rep.und('places of %s' % f.fn)


UNITS = {
    'C02': (u_c02, ('base', 'min', 'var', 'lay', 'dt', 'out')),
    'C08': (u_c08, ('base', 'min', 'var', 'lay', 'dt', 'out')),
    'C17': (u_c17, ('base', 'out', 'dt')),
    'C18': (u_c18, ('base', 'min', 'var', 'bad', 'lay', 'dt', 'out')),
    'C20': (u_c20, ('base', 'var', 'cores', 'lay', 'dt')),
}


def work(unit):
    prop, dims, i, lab, args = unit
    sys.setrecursionlimit(20000)
    f = pytab.table(*dims)[i] if isinstance(i, int) else F(i, args)
    rep = Rep()
    rep.count('scenarios')
    rep.fn = fkey(f)
    rep.dims = dims
    try:
        UNITS[prop][0](f, lab, args, rep)
    except Exception as e:
        if os.environ.get('VERIF_DEBUG'):
            raise
        rep.und('not analysable (%s [%s]): %s: %s' % (fkey(f), lab, type(e).__name__, str(e)[:80]))
    return rep


def units(prop):
    fn, what = UNITS[prop]
    if callable(what):
        return what(None)
    out = []
    for dims in SIZES if prop in ('C20',) else SIZES[:1]:
        for i, f in enumerate(pytab.table(*dims)):
            if prop == 'C17' and not f.out:
                continue
            if prop == 'C20' and not f.shape:
                continue
            for lab, args in variants(f, what):
                out.append((prop, dims, i, lab, args))
    return out


def ptypes(fn):
    return [ctype_of(p['type']['qualType'] if isinstance(p.get('type'), dict) else str(p.get('type'))) for p in fn.params]


def load_protos(repo):
    import cfront
    prog = cfront.load(repo)
    for n in list(cmodel.CANON) + ['cxx_mlem', 'cxx_sirt']:
        fn = prog.find(n)
        if fn is not None:
            _PLIB[n] = {fn.lib}
        else:
            ps = [p for p in prog.protos.get(n, ()) if p.file.startswith('include/')]
            if not ps or n in cmodel.CANON:
                continue
            fn = ps[0]
        _PROTO[n] = ptypes(fn)
        pyscen.ROLES[n] = _ROLE[n] = cmodel.canon_of(n, [p.get('name', '?') for p in fn.params])
        _DECL[n] = [(p.file, p.line, ptypes(p)) for p in prog.protos.get(n, ())]
    # the accelerated library is C++: its header and its definitions are read as text
    for n in ('cxx_mlem', 'cxx_sirt'):
        ds = []
        base = os.path.join(repo, 'source/libtomo/accel/cxx')
        for fi in ['include/libtomo/accel.h'] + sorted('source/libtomo/accel/cxx/' + x for x in (
                os.listdir(base) if os.path.isdir(base) else ()) if x.endswith('.cc')):
            try:
                t = open(os.path.join(repo, fi)).read()
            except OSError:
                continue
            t = re.sub(r'//[^\n]*|/\*.*?\*/', lambda m: re.sub(r'[^\n]', ' ', m.group()), t, flags=re.S)
            for m in re.finditer(r'^%s\s*\(([^)]*)\)\s*([;{])' % n, t, flags=re.M):
                ps = [x.strip() for x in m.group(1).split(',')]
                ty = [ctype_of(re.sub(r'\w+$', '', x)) for x in ps]
                nm = [re.search(r'\w+$', x).group() if re.search(r'\w+$', x) else '?' for x in ps]
                ds.append((fi, t.count('\n', 0, m.start()) + 1, ty, nm, m.group(2)))
        if ds:
            d = next((x for x in ds if x[4] == '{'), ds[0])
            _PROTO[n] = d[2]
            pyscen.ROLES[n] = _ROLE[n] = cmodel.canon_of(n, d[3])
            _DECL[n] = [x[:3] for x in ds]
    return prog


def run_units(us, res):
    if JOBS > 1 and len(us) > 8:
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(JOBS) as pool:
            reps = pool.map(work, us, chunksize=max(1, len(us) // (JOBS * 8)))
    else:
        reps = [work(u) for u in us]
    for r in reps:
        merge(r, res)


def merge(r, res):
    for k, msg, fi, li, fu in r.bads:
        res.bad(k, msg, fi, li, fu)
    res.ok(r.oks)
    for s in r.samples:
        if len(res.samples) < 12:
            res.samples.append(s)
    for w, n in r.unds.items():
        res.und(w, n)
    for k, n in r.counts.items():
        res.count(k, n)


def run_prop(prop, repo, res):
    REPO[0] = repo
    load_protos(repo)
    PREPARE.get(prop, lambda r: None)(repo)
    run_units(units(prop), res)
    if prop in AFTER:
        r = Rep()
        AFTER[prop](r)
        merge(r, res)


PREPARE, AFTER = {}, {}
import pyp1
UNITS['C01'] = (pyp1.u_c01, ('base', 'min', 'var', 'cores', 'lay', 'dt', 'out'))
PREPARE['C01'] = pyp1.prepare
PREPARE['C26'] = pyp1.prepare
AFTER['C01'] = pyp1.protos

UNITS['C09'] = (pyp1.u_c09, pyp1.c09_units)

import pyp2
UNITS['C10'] = (pyp2.u_c10, pyp2.c10_units)
UNITS['C12'] = (pyp2.u_c12, pyp2.c12_units)
UNITS['C13'] = (pyp2.u_c13, pyp2.c13_units)

import pyp3
UNITS['C14'] = (pyp3.u_c14, pyp3.c14_units)
UNITS['C19'] = (pyp3.u_c19, pyp3.c19_units)
UNITS['C06'] = (pyp3.u_c06, pyp3.c06_units)

import pyp4
UNITS['C16'] = (pyp4.u_c16, pyp4.c16_units)
UNITS['C15'] = (pyp4.u_c15, pyp4.c15_units)
UNITS['C03'] = (pyp4.u_c03, pyp4.c03_units)
UNITS['C26'] = (pyp4.u_c26, pyp4.c26_units)
