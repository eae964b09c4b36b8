"""Development aid (not a check): compare the abstract interpreter's outcome with the real call, all variations."""
import os, sys, warnings
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.setrecursionlimit(20000)
sys.path.insert(0, '/repo/source')
warnings.simplefilter('ignore')
import numpy as np
from pytab import *
from pyscen import *
import importlib, signal, tempfile

os.chdir(tempfile.mkdtemp())


def real(v, rng):
    if isinstance(v, Arr):
        sh = tuple(v.shape)
        x = rng.uniform(0.5, 1.5, sh)
        if v.dt == 'int32':
            x = rng.permutation(int(np.prod(sh))).reshape(sh)
        if v.dt == 'bool':
            x = rng.uniform(0, 1, sh) > 0.9
        if v.dt == 'uint16':
            x = x * 1000
        x = x.astype(v.dt)
        if v.lay == 'F':
            x = np.asfortranarray(x)
        if v.lay == 'rev':
            return np.ascontiguousarray(x[..., ::-1])[..., ::-1]
        if v.lay == 'strided':
            b = np.zeros(sh[:-1] + (sh[-1] * 2,), v.dt)
            b[..., ::2] = x
            x = b[..., ::2]
        return x
    if isinstance(v, (list, tuple)):
        return type(v)(real(x, rng) for x in v)
    return v


def desc(v):
    if isinstance(v, np.ndarray):
        return ('arr', v.shape, str(v.dtype))
    if isinstance(v, tuple):
        return ('tuple',) + tuple(desc(x) for x in v)
    return type(v).__name__


def adesc(v):
    if isinstance(v, A):
        return ('arr', v.shape, str(v.dtype))
    if isinstance(v, Seq) and v.kind == 'tuple':
        return ('tuple',) + tuple(adesc(x) for x in v.items)
    if isinstance(v, K):
        return type(v.v).__name__
    return '?'


def variants(f):
    yield 'base', dict(f.base)
    for p, vs in f.var.items():
        for v in vs:
            d = dict(f.base)
            d[p] = v
            yield '%s=%r' % (p, v if not isinstance(v, Arr) else (v.shape, v.dt)), d
    for p in f.arrays():
        for lay in ('F', 'strided', 'rev'):
            yield '%s lay %s' % (p, lay), dict(f.base, **{p: f.base[p].but(lay=lay)})
        for dt in ('float64', 'uint16', 'int32', 'uint8'):
            if f.base[p].dt == 'float32':
                yield '%s dt %s' % (p, dt), dict(f.base, **{p: f.base[p].but(dt=dt)})
    if f.out:
        m = f.base[f.shape]
        for lay in ('C', 'F', 'strided'):
            yield 'out lay ' + lay, dict(f.base, **{f.out: m.but(lay=lay, main=False)})
        yield 'out f64', dict(f.base, **{f.out: m.but(dt='float64', main=False)})
        yield 'out same', dict(f.base, **{f.out: Same(f.shape)})
    for p, vs in f.bad.items():
        for v in vs:
            d = dict(f.base)
            d[p] = v
            yield 'BAD %s=%r' % (p, v), d


def agree(a, b):
    if '?' in (a, b):
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'tuple':
        return len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    return a == b


class TO(Exception):
    pass


def alarm(*a):
    raise TO()


signal.signal(signal.SIGALRM, alarm)
only = sys.argv[1] if len(sys.argv) > 1 else ''
nd = n = 0
for f in table():
    if only not in f.fn:
        continue
    mod, fn = f.fn.rsplit('.', 1)
    g = getattr(importlib.import_module('tomopy.' + mod), fn)
    for lab, args in variants(f):
        rng = np.random.default_rng(0)
        o = run('/repo', Scn(f.fn, args))
        ra = {k: real(v, rng) for k, v in args.items()}
        for k, v in args.items():
            if isinstance(v, Same):
                ra[k] = ra[v.name]
        signal.alarm(20)
        try:
            r = ('return', desc(g(**ra)))
        except TO:
            r = ('hang', None)
        except Exception as e:
            r = ('raise', type(e).__name__ + ': ' + str(e)[:80])
        signal.alarm(0)
        n += 1
        if o.kind == 'return':
            a = ('return', adesc(o.value))
        elif o.kind == 'raise':
            a = ('raise', repr(o.exc.ev) + str(o.exc.ev.args) + str(o.exc.site))
        else:
            a = (o.kind, o.why)
        if a[0] != r[0] or (a[0] == 'return' and not agree(a[1], r[1])):
            nd += 1
            print('DIFF', f.fn, getattr(f, 'alg', ''), lab, '\n    abs ', a, len(o.it.order), '\n    real', r, flush=True)
print(n, 'compared', nd, 'differ')
