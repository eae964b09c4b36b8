"""C14 (no residue between calls)."""
import numpy as np

from pyval import *
import pypass as P
import pytab
import pyp2
from pyscen import Arr, Same, Scn, Fun, Ref, explore, run


# ------------------------------------------------------------------ C14
def c14_units(tier):
    out = []
    dims = P.SIZES[0]
    t = pytab.table(*dims)
    for i, f in enumerate(t):
        for lab, a in P.variants(f, ('base', 'min', 'var', 'bad', 'out')):
            out.append(('C14', dims, i, lab, a))
        for p in f.base:
            if p not in f.var and isinstance(f.base[p], (int, float)) and not isinstance(f.base[p], bool):
                out.append(('C14', dims, i, '%s=other' % p, dict(f.base, **{p: f.base[p] + 1})))
        # one option differs between the calls, another has its other value in both
        for q, vs in f.var.items():
            for v in vs:
                if isinstance(v, (bool, str)) and v != f.base[q]:
                    for p in f.base:
                        b = f.base[p]
                        if p != q and isinstance(b, (int, float)) and p not in ('ncore', 'nchunk'):
                            c = not b if isinstance(b, bool) else b + 1
                            out.append(('C14', dims, i, 'both:%s=%s:%s' % (q, v, p), dict(f.base, **{q: v, p: c})))
        # the same function on data of another size
        for d2 in P.SIZES[1:]:
            out.append(('C14', dims, i, 'sizes=%s' % (d2,), dict(pytab.table(*d2)[i].base)))
    # a call of one function followed by a call of another
    for i, f in enumerate(t):
        for j in range(len(t)):
            if t[j].fn != f.fn:
                out.append(('C14', dims, i, 'then:%d' % j, None))
    return out


def digest(v, depth=0):
    if isinstance(v, K):
        return ('K', type(v.v).__name__, repr(v.v))
    if isinstance(v, A):
        x = v.val()
        return ('A', v.shape, str(v.dtype), v.init().tobytes(), v.src().tobytes(), None if x is None else x.tobytes())
    if isinstance(v, Seq) and depth < 4:
        return (v.kind,) + tuple(digest(x, depth + 1) for x in v.items)
    if isinstance(v, Dct) and depth < 4:
        return ('dict',) + tuple((k, digest(x, depth + 1)) for k, x in v.items.items())
    if isinstance(v, Nat) and v.kind == 'cptr':
        return ('ptr', digest(v.arr, depth + 1))
    return type(v).__name__


def residue(f, where, o, rep, phase=1):
    """containers and arrays that outlive the call and are changed by it"""
    for e in o.it.events:
        if e['phase'] != phase:
            continue
        if e['kind'] == 'mutate':
            w, n = e['owner'].split(':', 1)
            if w == 'param':
                rep.bad('%s:changes:%s' % (P.fkey(f), n), '%s: changes the caller\'s %s' % (where, n), e['site'], f)
            elif w in ('module', 'default') and e['nonempty']:
                rep.bad('%s:table:%s' % (e['site'][1], n), '%s: changes the %s %s, which later calls read' % (
                    where, 'module-level table' if w == 'module' else 'default argument', n), e['site'], f)
        elif e['kind'] == 'write':
            w, _, n = (e['owner'] or '').partition(':')
            if w in ('module', 'default'):
                rep.bad('%s:array:%s' % (e['site'][1], n), '%s: stores into the %s array %s, which later calls read' % (
                    where, w, n), e['site'], f)


def labels(v, acc=None, depth=0):
    acc = set() if acc is None else acc
    if isinstance(v, A):
        acc |= v.root.deps
    elif isinstance(v, Seq) and depth < 4:
        for x in v.items:
            labels(x, acc, depth + 1)
        acc |= v.xdeps
    elif isinstance(v, Dct) and depth < 4:
        for x in v.items.values():
            labels(x, acc, depth + 1)
        acc |= v.xdeps
    elif isinstance(v, Val):
        acc |= dep(v)
    return acc


_FRESH = {}


def fresh(fn, key, args):
    k = (fn, key, repr(sorted((n, repr(vars(v)) if isinstance(v, Arr) else repr(v)) for n, v in args.items())))
    if k not in _FRESH:
        o = run(P.REPO[0], Scn(fn, args), calls=1)
        _FRESH[k] = (o.kind, None if o.exc is None else o.exc.ev.cls, digest(o.value) if o.kind == 'return' else None,
                     [(e['sym'], tuple(digest(a) for a in e['args'])) for e in P.natives(o)])
    return _FRESH[k]


_LEFT = {}


def left(i, f, dims):
    """names of the module variables a call of f leaves changed"""
    if i not in _LEFT:
        o = run(P.REPO[0], Scn(f.fn, f.base))
        g = set()
        for e in o.it.events:
            if e['kind'] == 'global-write' and not e.get('inproc'):
                g.add((e['mod'], e['name']))
            if e['kind'] == 'mutate' and e['owner'].startswith(('module', 'default')):
                g.add((e['owner'], ''))
        _LEFT[i] = frozenset(g)
    return _LEFT[i]


def u_c14(f, lab, args, rep):
    t = pytab.table(*P.SIZES[0])
    if lab.startswith('then:'):
        g = t[int(lab[5:])]
        i = next(k for k, x in enumerate(t) if x.fn == f.fn and P.fkey(x) == P.fkey(f))
        w = left(i, f, None)
        if not w or any(left(k, t[k], None) == w for k in range(i)):
            return            # changes no module state, or exactly what an earlier listed function changes
        second, args, what = (g.fn, dict(g.base)), dict(f.base), 'after %s' % f.fn
        check(g, g.fn, args, second, what, rep, first=f.fn, fr=f)
        return
    second = dict(args if lab == 'defaults' else f.base)
    if lab.startswith('both:'):
        q = lab[5:].split('=')[0]
        second[q] = args[q]
    check(f, f.fn, args, second, 'after a call with %s' % lab, rep, first=f.fn)


def check(f, name, args, second, what, rep, first, fr=None):
    o = run(P.REPO[0], Scn(first, args, second=second), calls=2)
    rep.count('call sequences')
    if o.kind in ('abort', 'noload', 'hang') or len(o.results) < 2:
        rep.und('%s: %s' % (P.fkey(f), o.why))
        return
    where = '%s [%s]' % (first, what)
    residue(fr or f, where, o, rep)
    a2 = second[1] if isinstance(second, tuple) else second
    k, exc, dg, nat = fresh(name, P.fkey(f), a2)
    rk, rv, re = o.results[1]
    if k not in ('return', 'raise'):
        return
    if rk != k or k == 'raise' and re.ev.cls is not exc:
        rep.bad('%s:differs' % P.fkey(f), '%s %s: the call %s, without the earlier call it %s' % (
            name, what, rk + 's' + (' %s' % (re.ev.args,) if re else ''), k + 's'), re.site if re else None, f)
        return
    if rk == 'return':
        if digest(rv) != dg:
            rep.bad('%s:differs' % P.fkey(f), '%s %s: the call gives another result than without the earlier call' % (name, what),
                    rv.root.site if isinstance(rv, A) else None, f)
        else:
            rep.ok('%s %s: same result as in a fresh process' % (name, what))
        n2 = [(e['sym'], tuple(digest(a) for a in e['args'])) for e in P.natives(o) if e['phase'] == 2]
        if len(n2) == len(nat) and n2 != nat:
            e = [e for e in P.natives(o) if e['phase'] == 2][next(i for i in range(len(nat)) if n2[i] != nat[i])]
            rep.bad('%s:native' % P.fkey(f), '%s %s: native %s() gets other arguments than without the earlier call' % (
                name, what, e['sym']), e['site'], f)
        else:
            rep.ok()
        same = set(k for k in a2 if k in args and not isinstance(a2[k], Arr) and repr(args[k]) == repr(a2[k])) | o.it.excused
        old = [x[:-2] for x in labels(rv) if x.endswith('@0')]
        old = sorted(x for x in old if x.split('.')[0] not in same)
        if old:
            rep.bad('%s:carries:%s' % (P.fkey(f), old[0]), '%s %s: the result depends on the %s of the earlier call' % (
                name, what, ', '.join(old)), rv.root.site if isinstance(rv, A) else None, f)
        else:
            rep.ok()
        for e in P.natives(o):
            if e['phase'] == 2:
                old = sorted(x[:-2] for a in e['args'] for x in labels(a.arr if isinstance(a, Nat) and a.kind == 'cptr' else a)
                             if x.endswith('@0') and x[:-2].split('.')[0] not in same)
                if old:
                    rep.bad('%s:carries:%s' % (P.fkey(f), old[0]), '%s %s: native %s() gets the %s of the earlier call' % (
                        name, what, e['sym'], ', '.join(old)), e['site'], f)
    else:
        rep.ok()


# ------------------------------------------------------------------ C19
SOURCES = {'#random': 'random numbers', '#clock': 'the clock', '#identity': 'a process, thread or object identity',
           '#order': 'the order in which workers finish or a set is walked', '#hash': 'a hash value'}


def c19_units(tier):
    out = []
    for dims in P.SIZES[:2]:
        for i, f in enumerate(pytab.table(*dims)):
            for lab, a in P.variants(f, ('base', 'min', 'var')):
                out.append(('C19', dims, i, lab, a))
    return out


def u_c19(f, lab, args, rep):
    rnd = f.noise and not (f.fn.endswith('inpainter_morph') and args.get('inpainting_type') != 'random')
    for o in P.outs_of(f, args, rep=rep):
        if o.kind != 'return':
            continue
        where = '%s [%s]' % (f.fn, lab)
        seen = set(x for x in labels(o.value) if x.startswith('#'))
        for k, v in (o.params or {}).items():
            for a in P.roots_in(v):
                if a.root.written.any():
                    seen |= set(x for x in a.root.deps if x.startswith('#'))
        for e in P.natives(o):
            for a in e['args']:
                seen |= set(x for x in labels(a.arr if isinstance(a, Nat) and a.kind == 'cptr' else a) if x.startswith('#'))
        for x in sorted(seen & set(SOURCES)):
            if x == '#random' and rnd:
                rep.ok('%s: documented as random' % where)
                continue
            ev = [e for e in o.it.events if '#' + e['kind'] == x]
            rep.bad('%s:depends:%s' % (P.fkey(f), x[1:]), '%s: the result depends on %s' % (where, SOURCES[x]),
                    ev[0]['site'] if ev else None, f)
        if not seen & set(SOURCES):
            rep.ok('%s: no source of chance reaches the result' % where)
    if lab in ('base', 'defaults') or '=' in lab:
        bad, cnt, _ = mixdiff(f, args)
        rep.count('operations that combine elements', cnt)
        for site, msg in bad:
            rep.bad('%s:division:%s' % (P.fkey(f), site[1]), '%s [%s]: the result depends on how the work is divided: %s' % (
                f.fn, lab, msg), site, f)
        if not bad:
            rep.ok('%s[%s]: %d combining operations see the same elements however the work is divided' % (f.fn, lab, cnt))
    # other completion orders, other machines
    base = run(P.REPO[0], Scn(f.fn, args), opts=dict(rev=True))
    if base.kind != 'return':
        return
    d = digest(base.value)
    for what, op in (('completion order', dict(rev=False)), ('number of processors', dict(rev=True, cpu=3)),
                     ('number of processors', dict(rev=True, cpu=1))):
        o = run(P.REPO[0], Scn(f.fn, args), opts=op)
        rep.count('paths')
        if o.kind != 'return' and o.kind != 'raise':
            rep.und(str(o.why))
        elif o.kind == 'raise' or digest(o.value) != d:
            rep.bad('%s:varies:%s' % (P.fkey(f), what.split()[0]), '%s [%s]: the result depends on the %s' % (f.fn, lab, what),
                    None, f)
        else:
            rep.ok('%s[%s]: same result whatever the %s' % (f.fn, lab, what))


# library functions whose numbers are shapes or positions
PLACES = {'reshape', 'tile', 'resize', 'broadcast_to', 'zeros', 'ones', 'empty', 'full', 'arange', 'linspace', 'array_split', 'split',
          'take', 'expand_dims', 'meshgrid', 'repeat', 'pad', 'range', 'slice', 'insert', 'delete'}


def numbers(got, only=None):
    """hook on library calls: the numbers handed over together with data"""
    def ext(it, path, pos, kw, node):
        name = path.rsplit('.', 1)[-1]
        vals = [(i, v) for i, v in enumerate(pos)] + [(k, v) for k, v in kw.items() if k not in ('shape', 'extra_info', 'out', 'newshape')]
        if name in PLACES or not any(isinstance(v, (A, UA)) for _, v in vals):
            return
        t = []
        for k, v in vals:
            for x in v.items if isinstance(v, Seq) else [v]:
                if isinstance(x, K) and isinstance(x.v, (int, float, np.number)) and not isinstance(x.v, bool) and (
                        only is None or only in x.deps):
                    t.append((k, round(float(x.v), 6)))
        if t:
            got.setdefault((it.site(node), path), set()).add(tuple(t))
    return ext


def show(s):
    return ' or '.join(', '.join('%s=%g' % (k if isinstance(k, str) else 'argument %d' % (k + 1), v) for k, v in t) for t in sorted(s, key=repr)[:2])


def extents(got, work):
    """hook on calls: the extents of the arrays each function gets"""
    def call(it, fn, bound, node):
        for p, v in bound.items():
            if isinstance(v, A):
                k = (fn.mod, fn.name, p)
                got.setdefault(k, set()).add(v.shape)
                if it.tasks:
                    work.add(k)
    return call


def tainted(marks):
    """hook on calls: the extents that follow from the division of the work are marked"""
    def call(it, fn, bound, node):
        for p, v in bound.items():
            ax = marks.get((fn.mod, fn.name, p))
            if ax and isinstance(v, A):
                it.chunked[id(v)] = (v, ax)
    return call


def mixdiff(f, args):
    """operations whose operands change with the division of the work: [(site, message)], number compared"""
    a = dict(args)
    for k in ('ncore', 'nchunk'):
        if k in f.base:
            a[k] = None
    pars = {1: {}, 2: {}, 8: {}}
    calls, work = {1: {}, 2: {}, 8: {}}, set()
    runs = [(n, run(P.REPO[0], Scn(f.fn, a), opts=dict(rev=True, cpu=n, mixes=True, on_ext=numbers(pars[n]),
                                                       on_call=extents(calls[n], work)))) for n in (1, 2, 8)]
    if any(o.kind != 'return' for n, o in runs):
        return [], 0, runs
    seen = set()
    for n, o in runs:
        seen |= labels(o.value)
        for v in (o.params or {}).values():
            for x in P.roots_in(v):
                if x.root.written.any():
                    seen |= x.root.deps
        for e in P.natives(o):
            for x in e['args']:
                seen |= labels(x.arr if isinstance(x, Nat) and x.kind == 'cptr' else x)
    bad, cnt = [], 0
    one = runs[0][1].it.mixes
    for lab in sorted(x for x in seen if x.startswith('#mix:')):
        for n, o in runs[1:]:
            g, h = one.get(lab), o.it.mixes.get(lab)
            if g is None or h is None:
                continue
            cnt += 1
            if g != h:
                _, mod, fn, line = lab.split(':')
                bad.append(((mod, fn, int(line)), 'with one worker and with several, line %s combines different sets of elements' % line))
                break
    # extents of the pieces that steer the computation in a piece
    marks = {}
    for k in work:
        if all(k in c for c in calls.values()):
            shs = [set(c[k]) for c in calls.values()]
            nd = set(len(x) for s in shs for x in s)
            if len(nd) == 1:
                ax = set(i for i in range(nd.pop()) if len(set(frozenset(x[i] for x in s) for s in shs)) > 1)
                if ax:
                    marks[k] = ax
    if marks:
        got = {}
        o = run(P.REPO[0], Scn(f.fn, a), opts=dict(rev=True, cpu=2, on_call=tainted(marks), on_ext=numbers(got, '#chunk')))
        cnt += len(marks)
        for site, t in sorted(got.items()):
            bad.append((site[0], '%s() is called with %s, which follows from the size of a piece' % (site[1], show(t))))
        for e in o.it.events:
            if e['kind'] == 'chunk-branch':
                bad.append((e['site'], 'line %s tests the size of a piece' % e['site'][2]))
    for site in sorted(pars[1]):
        for n in (2, 8):
            g, h = pars[1][site], pars[n].get(site)
            if h is None:
                continue
            cnt += 1
            if g != h:
                bad.append((site[0], 'with one worker %s() is called with %s, with %d workers with %s' % (
                    site[1], show(g - h or g), n, show(h - g or h))))
                break
    return bad, cnt, runs


# ------------------------------------------------------------------ C06, Python layer
def c06_units(tier):
    return [('C06', P.SIZES[0], i, lab, a) for i, f in enumerate(pytab.table(*P.SIZES[0]))
            for lab, a in P.variants(f, ('base', 'min', 'var', 'out'))]


def u_c06(f, lab, args, rep):
    for o in P.outs_of(f, args, rep=rep):
        proc = {e['tid']: e['proc'] for e in o.it.events if e['kind'] == 'task'}
        rep.count('tasks', len(proc))
        roots = {}
        where = '%s [%s]' % (f.fn, lab)
        for e in o.it.events:
            t = e['task']
            if t is None or proc.get(t) or e.get('inproc'):
                continue
            if e['kind'] == 'global-write' and not e.get('locked'):
                rep.bad('%s:global:%s' % (e['site'][1], e['name']), '%s: a worker thread assigns the module variable %s' % (
                    where, e['name']), e['site'], f)
            elif e['kind'] == 'mutate' and e['owner'].startswith(('module:', 'default:')) and e['nonempty'] and not e.get('locked'):
                rep.bad('%s:table:%s' % (e['site'][1], e['owner']), '%s: a worker thread changes %s' % (
                    where, e['owner'].split(':')[1]), e['site'], f)
            elif e['kind'] == 'env-write':
                rep.bad('%s:environ' % e['site'][1], '%s: a worker thread changes the environment of the process' % where,
                        e['site'], f)
            elif e['kind'] == 'ne-threads':
                rep.bad('%s:numexpr' % e['site'][1], '%s: a worker thread changes the thread count of numexpr for everybody'
                        % where, e['site'], f)
            elif e['kind'] == 'write':
                w = (e['owner'] or '').split(':')[0]
                if w in ('module', 'default'):
                    rep.bad('%s:array:%s' % (e['site'][1], e['owner']), '%s: a worker thread stores into the array %s' % (
                        where, e['owner'].split(':')[1]), e['site'], f)
                roots[id(e['root'])] = (e['root'], e['site'])
        for r, site in roots.values():
            ts = [(t, m) for t, m in r.epoch.items() if t and not proc.get(t)]
            if len(ts) < 2:
                continue
            rep.count('arrays stored to by several threads')
            if r.guarded:
                rep.und('array guarded by a lock')
            elif pyp2.clash(r, ts):
                rep.bad('%s:shared' % P.fkey(f), '%s: two worker threads store to the same element of one array' % where, site, f)
            else:
                rep.ok('%s: %d threads store to disjoint parts' % (where, len(ts)))
        rep.ok(n=1)
