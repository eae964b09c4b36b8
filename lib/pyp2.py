"""C10 (division of work), C12 (failures reach the caller), C13 (settings restored)."""
import numpy as np

from pyval import *
import pypass as P
import pytab
from pyscen import Arr, Same, Scn, Fun, explore, run

M = 'util.mproc.'
CODE = """
import numpy as np
def ident(a):
    return a * 1
def first(a, b):
    return a * 1
def inplace(a):
    a[:] = a * 1
def second(a, b):
    b[:] = a * 1
"""
SIZES = [(5, 3, 7), (6, 4, 8), (11, 5, 4)]


def c10_units(tier):
    out = []
    for n in list(range(1, 15)) + [16, 17, 31, 64, 100]:
        for nc in (None, 0, 1, 2, 3, 4, 5, 7, 8, 9, 40):
            for ch in (None, 0, 1, 2, 3, 4, 5, 8, 50):
                out.append(('C10', None, M + 'get_ncore_slices', 'axis_size=%s,ncore=%s,nchunk=%s' % (n, nc, ch),
                            dict(axis_size=n, ncore=nc, nchunk=ch)))
                if n < 15:
                    out.append(('C10', None, M + 'get_worker_ncore_slices', 'axis_size=%s,ncore=%s,nchunk=%s' % (n, nc, ch),
                                dict(axis_size=n, ncore=nc, nchunk=ch)))
    # the general work distributor, with functions of the caller
    for sh in ((5, 3, 7), (6, 4), (9,), (2, 8, 3)):
        for ax in range(len(sh)):
            for nc in (1, 2, 3, 8, None):
                for ch in (None, 0, 1, 2, 3, 20):
                    if ch == 0 and len(sh) == 1:
                        continue        # a piece would be a scalar, not an array
                    lab = 'shape=%s,axis=%s,ncore=%s,nchunk=%s' % (sh, ax, nc, ch)
                    a = Arr(*sh, main=True)
                    d = dict(arr=a, func=Fun(CODE, 'ident'), axis=ax, args=None, kwargs=None, ncore=nc, nchunk=ch, out=None)
                    out.append(('C10', None, M + 'distribute_jobs', lab, d))
                    if ch in (None, 0, 2):
                        out.append(('C10', None, M + 'distribute_jobs', lab + ',in place', dict(d, func=Fun(CODE, 'inplace'))))
                        out.append(('C10', None, M + 'distribute_jobs', lab + ',out', dict(d, out=Arr(*sh))))
                        out.append(('C10', None, M + 'distribute_jobs', lab + ',two arrays', dict(
                            d, arr=(a, Arr(*sh)), func=Fun(CODE, 'second'))))
                        out.append(('C10', None, M + 'distribute_jobs', lab + ',two types', dict(
                            d, arr=(a.but(dt='float64'), Arr(*sh, dt='int32')), func=Fun(CODE, 'first'))))
    for dims in SIZES:
        for i, f in enumerate(pytab.table(*dims)):
            if 'ncore' not in f.base and 'nchunk' not in f.base:
                continue
            for lab, args in P.variants(f, ('cores',)):
                out.append(('C10', dims, i, lab, args))
            if 'nblock' in f.base:
                for n in (1, 2, 3, 4):
                    out.append(('C10', dims, i, 'nblock=%d' % n, dict(f.base, nblock=n)))
    return out


def pieces(v):
    """list of index lists of a list of slices / ints"""
    if not isinstance(v, Seq):
        return None
    out = []
    for x in v.items:
        if isinstance(x, K) and isinstance(x.v, slice):
            s = x.v
            if not all(y is None or isinstance(y, (int, np.integer)) for y in (s.start, s.stop, s.step)):
                return None
            out.append((s.start or 0, s.stop))
        elif isinstance(x, K) and isinstance(x.v, (int, np.integer)):
            out.append((int(x.v), int(x.v) + 1))
        else:
            s = sl(x)
            if s is None:
                return None
            out.append(s)
    return out


def num(x):
    if isinstance(x, K) and (x.v is None or isinstance(x.v, (int, np.integer))):
        return x.v
    if isinstance(x, A) and x.idx.size == 1 and x.val() is not None:
        return int(x.val().reshape(-1)[0])
    return 'unknown'


def sl(x):
    if getattr(x, 'kind', None) == 'slice':
        a, b = num(x.start), num(x.stop)
        if a == 'unknown' or b == 'unknown':
            return None
        return (a or 0, b)
    return None


def clash(r, ts):
    """do two workers of one pool store to the same element?"""
    by = {}
    for t, m in ts:
        g = by.setdefault(r.line[t], np.zeros(r.base.size, bool))
        if (g & m).any():
            return True
        g |= m
    return False


def overlap(f, lab, o, rep, roots):
    for r in roots:
        ts = [(t, m) for t, m in r.epoch.items() if t]
        if len(ts) < 2:
            continue
        rep.count('arrays filled by several workers')
        if clash(r, ts):
            rep.bad('%s:overlap' % P.fkey(f), '%s [%s]: two workers store to the same element of one array' % (f.fn, lab),
                    r.site or (sorted(r.wsites)[0] if r.wsites else None), f)
        else:
            rep.ok('%s[%s]: %d workers store to disjoint parts' % (f.fn, lab, len(ts)))


def leaks(f, lab, o, rep):
    """a job of a process pool does not read what an earlier job of the same worker stored in an argument of both"""
    for orig, copies in o.it.shipped.values():
        if len(set(t for t, _ in copies)) < 2:
            continue
        rep.count('arrays given to several jobs')
        w = next((r for t, r in copies if r.staleread), None)
        if w is None:
            rep.ok('%s[%s]: no job reads what another stored in their common argument' % (f.fn, lab))
        else:
            rep.bad('%s:leak' % P.fkey(f), '%s [%s]: a job reads what an earlier job of the same worker stored in an argument of '
                    'both: what it computes depends on how the jobs are dealt out' % (f.fn, lab),
                    sorted(s for _, r in copies for s in r.wsites)[0], f)


def worked(f, lab, o, rep):
    """native code that changes the result in place gets to see all of it"""
    for a in P.roots_in(o.value):
        r = a.root
        seen = np.zeros(len(r.base), bool)
        e0 = None
        for e in P.natives(o):
            for x in e['args']:
                if isinstance(x, Nat) and x.kind == 'cptr' and isinstance(x.arr, A) and x.arr.root is r:
                    if not x.arr.idx.size:
                        continue
                    e0 = e
                    seen[x.arr.idx] = True
        if e0 is None:
            continue
        n = int((~seen[a.idx]).sum())
        if n:
            rep.bad('%s:unworked' % P.fkey(f), '%s [%s]: native %s() never gets to see %d of %d elements of the result' % (
                f.fn, lab, e0['sym'], n, a.idx.size), e0['site'], f)
        else:
            rep.ok('%s [%s]: native %s() works on the whole result' % (f.fn, lab, e0['sym']))


def u_c10(f, lab, args, rep):
    fn = f.fn.split('.')[-1]
    if fn in ('get_ncore_slices', 'get_worker_ncore_slices'):
        n = args['axis_size']
        o = run(P.REPO[0], Scn(f.fn, args))
        rep.count('paths')
        if o.kind != 'return':
            if o.kind in ('abort', 'noload', 'hang'):
                rep.und('%s: %s' % (f.fn, o.why))
            elif args['ncore'] in (None, 1, 2, 3, 4, 5, 7, 8) and args['nchunk'] in (None, 0, 1, 2, 3, 4, 5, 8):
                rep.bad('%s:fails' % fn, '%s [%s] fails: %s' % (f.fn, lab, o.exc.ev.args), o.exc.site, f)
            else:
                rep.ok()
            return
        v = o.value
        ps = None
        if isinstance(v, Seq) and len(v.items) == 2:
            ps = pieces(v.items[1])
        if ps is None:
            rep.und('pieces of %s' % f.fn)
            return
        got = [k for a, b in ps for k in range(a, n if b is None else min(b, n))]
        if got != list(range(n)):
            rep.bad('%s:partition' % fn, '%s [%s]: the pieces %s do not cover 0..%d once each in order' % (
                f.fn, lab, ps[:12], n - 1), o.it.mods and None, f)
        else:
            rep.ok('%s[%s]: %d pieces cover the axis' % (f.fn, lab, len(ps)))
        return
    if fn == 'distribute_jobs':
        for o in P.outs_of(f, args, rep=rep):
            if o.kind == 'raise':
                c = o.exc.ev.cls
                rep.bad('distribute_jobs:fails', '%s [%s] fails: %s %s' % (f.fn, lab, getattr(c, '__name__', c), o.exc.ev.args),
                        o.exc.site, f)
                continue
            if o.kind != 'return':
                continue
            v = o.value
            if not isinstance(v, A):
                rep.und('result of distribute_jobs')
                continue
            overlap(f, lab, o, rep, {v.root} | set(a.root for p in o.params.values() for a in P.roots_in(p)))
            s = v.src()
            want = np.arange(v.idx.size).reshape(v.shape)
            if (s == want).all():
                rep.ok('%s[%s]: every element at its own place' % (f.fn, lab))
            elif ((s != want) & (s >= -1)).any():
                k = tuple(int(x) for x in np.argwhere((s != want) & (s >= -1))[0])
                rep.bad('distribute_jobs:place', '%s [%s]: element %s of the result does not hold the result of its piece' % (
                    f.fn, lab, k), v.root.site, f)
            else:
                rep.und('places of distribute_jobs')
        return
    outs = P.outs_of(f, args, rep=rep)
    for o in outs:
        if o.kind == 'return':
            roots = set(a.root for a in P.roots_in(o.value))
            roots |= set(a.root for p in (o.params or {}).values() for a in P.roots_in(p))
            for e in o.it.events:
                if e['kind'] == 'native':
                    roots |= set(a.arr.root for a in e['args'] if isinstance(a, Nat) and a.kind == 'cptr' and isinstance(a.arr, A))
            overlap(f, lab, o, rep, roots)
            leaks(f, lab, o, rep)
            worked(f, lab, o, rep)
            for a in P.roots_in(o.value):
                c = a.src() == -1
                if f.shape and c.any() and not c.all():
                    rep.bad('%s:constant' % P.fkey(f), '%s [%s]: %d of %d elements of the result are constants, whatever the data' % (
                        f.fn, lab, int(c.sum()), a.idx.size), a.root.site, f)
                if not a.init().all():
                    rep.bad('%s:hole' % P.fkey(f), '%s [%s]: %d of %d elements of the result are computed by no worker' % (
                        f.fn, lab, int((~a.init()).sum()), a.idx.size), a.root.site, f)
                else:
                    rep.ok()
    # the same call on one core
    ref = dict(args)
    if 'ncore' in ref:
        ref['ncore'] = 1
    if 'nchunk' in ref:
        ref['nchunk'] = None
    o, r = outs[0], run(P.REPO[0], Scn(f.fn, ref))
    if o.kind != r.kind:
        if {o.kind, r.kind} == {'raise', 'return'}:
            b = o if o.kind == 'raise' else r
            rep.bad('%s:differs' % P.fkey(f), '%s fails with [%s] but not with ncore=1 (or the other way round): %s' % (
                f.fn, lab, b.exc.ev.args), b.exc.site, f)
        return
    if o.kind != 'return':
        return
    a, b = P.roots_in(o.value), P.roots_in(r.value)
    if len(a) != len(b):
        rep.bad('%s:differs' % P.fkey(f), '%s [%s]: another kind of result than with ncore=1' % (f.fn, lab), None, f)
        return
    for x, y in zip(a, b):
        if x.shape != y.shape or str(x.dtype) != str(y.dtype):
            rep.bad('%s:differs' % P.fkey(f), '%s [%s]: result %s %s, with ncore=1 %s %s' % (
                f.fn, lab, x.shape, x.dtype, y.shape, y.dtype), x.root.site, f)
            continue
        wx, wy = x.root.written[x.idx], y.root.written[y.idx]
        if wy.all() and not wx.all() and not getattr(x.root, 'maybe', False):
            rep.bad('%s:hole' % P.fkey(f), '%s [%s]: %d of %d elements of the result are computed by no worker' % (
                f.fn, lab, int((~wx).sum()), x.idx.size), x.root.site, f)
        s, t = x.src(), y.src()
        w = (s != t) & (s >= 0) & (t >= 0)
        if w.any():
            k = tuple(int(i) for i in np.argwhere(w)[0])
            rep.bad('%s:differs' % P.fkey(f), '%s [%s]: element %s of the result stems from another input element than with '
                    'ncore=1' % (f.fn, lab, k), x.root.site, f)
        else:
            rep.ok('%s[%s]: same result geometry and provenance as on one core' % (f.fn, lab))


# ------------------------------------------------------------------ C12, C13
USERALG = """
def alg(tomo, center, recon, theta, **kwargs):
    recon[:] = 1
"""


def fault_scen():
    """(table index or function name, label, args)"""
    dims = P.SIZES[0]
    for i, f in enumerate(pytab.table(*dims)):
        labs = [('base', dict(f.base))]
        for p, vs in f.var.items():
            if p in ('ncore', 'nchunk', 'averaging', 'axis', 'pad', 'cutoff', 'mask', 'norm', 'emission', 'wname', 'dim', 'arr',
                     'inpainting_type', 'int_mode', 'sinogram_order', 'method', 'save', 'blur'):
                for v in vs:
                    if isinstance(v, Arr) or repr(v) != repr(f.base[p]):
                        if p == 'ncore' and v not in (1, 3, None):
                            continue
                        labs.append(('%s=%s' % (p, P.desc(v)), dict(f.base, **{p: v})))
        for lab, a in labs:
            yield dims, i, lab, a
    NA, NS, NC = dims
    for nc in (1, 2):
        yield None, 'recon.algorithm.recon', 'algorithm=callable,ncore=%d' % nc, dict(
            tomo=Arr(NA, NS, NC, main=True), theta=Arr(NA), algorithm=Fun(USERALG, 'alg'), ncore=nc)
        for fnn in ('ident', 'inplace'):
            for ch in (None, 1, 0):
                yield None, M + 'distribute_jobs', 'func=%s,ncore=%d,nchunk=%s' % (fnn, nc, ch), dict(
                    arr=Arr(4, 3, main=True), func=Fun(CODE, fnn), axis=0, ncore=nc, nchunk=ch)


def c12_units(tier):
    return [('C12', d, i, lab, a) for d, i, lab, a in fault_scen()]


def c13_units(tier):
    out = [('C13', d, i, lab, a) for d, i, lab, a in fault_scen()]
    dims = P.SIZES[0]
    for i, f in enumerate(pytab.table(*dims)):
        for lab, a in P.variants(f, ('bad', 'out')):
            out.append(('C13', dims, i, lab, a))
    return out


def done(o):
    return sum(1 for x in o.it.futures if x.exc is None and not getattr(x, 'dead', False))


CLASSES = (None, ValueError, RuntimeError, OSError, MemoryError, TypeError, IndexError, KeyError, AttributeError)


def u_c12(f, lab, args, rep):
    scn = Scn(f.fn, args)
    for rev in (True, False):
        base = run(P.REPO[0], scn, opts=dict(rev=rev))
        rep.count('paths')
        if base.kind != 'return':
            if base.kind in ('abort', 'noload', 'hang'):
                rep.und('%s: %s: %s' % (P.fkey(f), base.kind, base.why))
            return
        n = base.it.ntask
        faults = []
        tasks = [e for e in base.it.events if e['kind'] == 'task']
        for k in range(1, n + 1):
            if n > 6 and k not in (1, 2, n // 2, n - 1, n):
                continue
            # a thread's function that catches its own errors is judged by the failing operations inside it
            for c in () if not tasks[k - 1]['pooled'] else CLASSES if k in (1, n) and rev else CLASSES[:1]:
                d = {'kind': 'task', 'n': k}
                if c:
                    d['cls'] = c
                faults.append(('worker %d of %d raises %s' % (k, n, c.__name__ if c else 'an error'), d))
            if tasks[k - 1]['proc']:
                faults.append(('worker process dies in piece %d of %d' % (k, n), {'kind': 'death', 'n': k}))
        if rev:
            for key, d in base.it.faultsites.items():
                faults.append(('%s fails' % d['what'], {'key': key, 'task': d['task']}))
        for what, d in faults:
            o = run(P.REPO[0], scn, fault=dict(d), opts=dict(rev=rev))
            rep.count('faults injected')
            if o.kind == 'raise':
                rep.ok('%s[%s]: %s: raised' % (f.fn, lab, what))
            elif o.kind == 'hang':
                rep.bad('%s:hang' % P.fkey(f), '%s [%s]: %s: the call waits forever (%s)' % (f.fn, lab, what, o.why), None, f)
            elif o.kind == 'return':
                fired = o.fault.get('done') if o.fault else False
                if not fired:
                    rep.ok()
                    continue
                if 'key' in d:
                    if d['key'][2].startswith(QUIETSRC):
                        rep.ok()
                        continue
                    h = [e for e in o.it.events if e['kind'] == 'handled']
                    site = h[-1]['site'] if h else d['key'][0]
                    rep.bad('%s:swallowed:%s' % (P.fkey(f), site[1]), '%s [%s]: %s (in %s, line %s) and the call returns as if '
                            'nothing happened' % (f.fn, lab, what, d['key'][0][1], d['key'][0][2]), site, f)
                elif done(o) >= done(base):
                    rep.ok()
                else:
                    site = tasks[d.get('n', 1) - 1]['site'] if tasks and d.get('n', 1) <= len(tasks) else None
                    rep.bad('%s:lost' % P.fkey(f), '%s [%s]: %s, yet the call returns a result' % (f.fn, lab, what), site, f)
            else:
                rep.und('%s: %s' % (o.kind, o.why))
        if n == 0:
            break


QUIETSRC = ('logging', 'warnings')


def holds_array(v, depth=0):
    if isinstance(v, (A, UA)):
        return True
    if isinstance(v, Nat) and v.kind in ('raw', 'mparray'):
        return True
    if isinstance(v, Seq) and depth < 3:
        return any(holds_array(x, depth + 1) for x in v.items)
    if isinstance(v, Dct) and depth < 3:
        return any(holds_array(x, depth + 1) for x in v.items.values())
    return False


def state(f, lab, o, what, env0, rep):
    it = o.it
    where = '%s [%s] %s' % (f.fn, lab, what)
    ks = [k for k in set(it.environ) | set(env0) if not same(it.environ.get(k), env0.get(k))]
    if ks:
        ev = [e for e in it.events if e['kind'] == 'env-write']
        rep.bad('%s:environ:%s' % (P.fkey(f), sorted(ks)[0]), '%s: environment variable %s is left changed' % (
            where, ', '.join(sorted(ks))), ev[-1]['site'] if ev else None, f)
    else:
        rep.ok()
    if it.ne_threads is not it.ne_init and not same(it.ne_threads, it.ne_init):
        ev = [e for e in it.events if e['kind'] == 'ne-threads']
        rep.bad('%s:numexpr' % P.fkey(f), '%s: the thread count of numexpr is left changed' % where,
                ev[-1]['site'] if ev else None, f)
    else:
        rep.ok()
    if any(l.held for l in it.locks):
        rep.bad('%s:lock' % P.fkey(f), '%s: a lock is never released' % where, None, f)
    for e in it.events:
        if e['kind'] == 'global-rng-seed':
            rep.bad('%s:rng' % P.fkey(f), '%s: the global random generator is reseeded' % where, e['site'], f)
        if e['kind'] == 'ext-setattr' and e.get('name') not in ('restype', 'argtypes'):
            rep.bad('%s:setting:%s' % (P.fkey(f), e.get('name')), '%s: the library setting %s is changed' % (where, e.get('name')),
                    e['site'], f)
    for e in it.events:
        if e['kind'] != 'global-write':
            continue
        m = it.mods.get(e['mod'])
        if m is None:
            continue
        v = m.env.vars.get(e['name'])
        if v is not None and holds_array(v):
            rep.bad('%s:global:%s' % (P.fkey(f), e['name']), '%s: the module variable %s keeps holding arrays of the call' % (
                where, e['name']), e['site'], f)
            break
    else:
        rep.ok()
    open_pools = [p for p in it.pools if not p.closed and not p.terminated]
    if open_pools:
        rep.bad('%s:pool' % P.fkey(f), '%s: a pool of worker processes is left running' % where, None, f)
    else:
        rep.ok()


def same(a, b):
    return a is b or isinstance(a, K) and isinstance(b, K) and a.v == b.v


def u_c13(f, lab, args, rep):
    scn = Scn(f.fn, args)
    for env0 in ({}, {'TOMOPY_PYTHON_THREADS': K('2')}):
        outs = P.outs_of(f, args, cap=8, rep=rep, opts=dict(environ0=env0))
        for o in outs:
            if o.kind in ('return', 'raise'):
                state(f, lab, o, 'ends normally' if o.kind == 'return' else 'raises', env0, rep)
        base = outs[0]
        if base.kind not in ('return', 'raise'):
            return
        uses = any(e['kind'] in ('env-write', 'ne-threads', 'global-write', 'pool') for e in base.it.events) or base.it.locks
        if not uses:
            return
        faults = [('%s fails' % d['what'], {'key': k, 'task': d['task'], 'dirty': d['dirty']}) for k, d in
                  base.it.faultsites.items()]
        n = base.it.ntask
        for k in range(1, n + 1):
            if k in (1, n):
                faults.append(('worker %d of %d fails' % (k, n), {'kind': 'task', 'n': k}))
                faults.append(('worker process %d of %d dies' % (k, n), {'kind': 'death', 'n': k}))
        for what, d in faults:
            for c in (None, KeyboardInterrupt):
                dd = dict(d)
                if c:
                    if d.get('kind') == 'death':
                        continue
                    dd['cls'] = c
                o = run(P.REPO[0], scn, fault=dd, opts=dict(environ0=env0))
                rep.count('faults injected')
                if o.kind in ('return', 'raise'):
                    state(f, lab, o, 'after: %s%s' % (what, ' (interrupted)' if c else ''), env0, rep)
        if not any(e['kind'] in ('env-read', 'env-write') for e in base.it.events):
            return
