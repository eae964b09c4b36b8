"""Passes over the C event trees."""
import itertools
import re
import cabs
from cabs import (Acc, Scal, Loop, If, Alloc, Free, MemOp, Ext, CallB, Jump, VarEv, Uninit, Ptr, Phi, Null, walk, alts,
                  deep_atoms, cond_atoms)
from cmodel import (Model, ev, ev_cond, known_atoms, loops_of, guards_of, bound_index, sign, witness_points,
                    INPUTS, OUTPUTS, RECON, PROJ, DIMS)
from poly import Poly, Atom, C0, C1, atom


def where(e):
    return dict(file=getattr(e, 'file', None), line=e.line, func=e.func)


def env_boxes(ctx, env, need, cap=3000):
    """enumerate extreme values of the loop atoms in need (ids), outermost first"""
    lps = [l for l in loops_of(ctx)]
    sel = []
    needed = set(need)
    # bounds of needed loops may mention outer loops
    for l in reversed(lps):
        if l.atom.id in needed:
            for p in (l.lo, l.hi):
                if p is not None:
                    for a in deep_atoms(p):
                        if a.kind == 'loop':
                            needed.add(a.id)
    sel = [l for l in lps if l.atom.id in needed]

    count = [0]

    def rec(i, e):
        if count[0] > cap:
            return
        if i == len(sel):
            count[0] += 1
            yield e
            return
        l = sel[i]
        if l.hi is None:
            return
        lo, hi = ev(l.lo, e), ev(l.hi, e)
        if lo is None or hi is None or hi <= lo:
            return
        vals = sorted({lo, min(lo + 1, hi - 1), max(hi - 2, lo), hi - 1, (lo + hi - 1) // 2})
        for v in vals:
            e2 = dict(e)
            e2[l.atom.id] = v
            yield from rec(i + 1, e2)
    yield from rec(0, env)


def guards_hold(ctx, env):
    """False: some guard is definitely false. True otherwise"""
    for c, pos in guards_of(ctx):
        v = ev_cond(c, env)
        if v is not None and v != pos:
            return False
    return True


def unsure(ctx, env, idx_loops):
    """some guard that mentions a loop counter of the index cannot be evaluated at this point"""
    return any(ev_cond(c, env) is None and any(a.kind == 'loop' and a.id in idx_loops for a in cond_atoms(c))
               for c, pos in guards_of(ctx))


def shares_unknown(ctx, idx_loops):
    """a guard that cannot be evaluated and mentions a loop counter of the index"""
    for c, pos in guards_of(ctx):
        at = cond_atoms(c)
        unk = any(a.kind in ('unk', 'h') for a in at)
        if unk and any(a.kind == 'loop' and a.id in idx_loops for a in at):
            return True
    return False


def decide_access(root, idx, size_elems, ctx, buf=None):
    """('ok', None) | ('bad', witness) | ('und', why): 0 <= idx < size_elems"""
    mx = bound_index(idx, ctx, 'max')
    mn = bound_index(idx, ctx, 'min')
    hi_ok = mx is not None and sign(size_elems - 1 - mx) in ('>=0', '0')
    lo_ok = mn is not None and sign(mn) in ('>=0', '0')
    if hi_ok and lo_ok:
        return 'ok', None
    at = deep_atoms(idx) + deep_atoms(size_elems)
    lps = loops_of(ctx)
    for l in lps:
        if idx.has(l.atom):
            if l.hi is None:
                return 'und', 'loop bound unknown'
            at += deep_atoms(l.lo) + deep_atoms(l.hi)
    ok = {a.id for a in root.p.values()} | {l.atom.id for l in lps}
    if not all(known_atoms(x, ok) for x in [idx, size_elems] + [p for l in lps if any(a is l.atom for a in at)
                                                               for p in (l.lo, l.hi) if p is not None]):
        return 'und', 'index depends on data values'
    idx_loops = {a.id for a in at if a.kind == 'loop'}
    gat = [a for c, _ in guards_of(ctx) for a in cond_atoms(c)]
    if shares_unknown(ctx, idx_loops):
        return 'und', 'guarded by data values'
    need = set(idx_loops)
    params = {a.id: a for a in at if a.kind == 'param'}
    for a in gat:
        if a.kind == 'param':
            params[a.id] = a
        if a.kind == 'loop' and any(l.atom is a for l in lps):
            need.add(a.id)
    for l in lps:
        if l.atom.id in need and l.hi is not None:
            for p in (l.lo, l.hi):
                for a in deep_atoms(p):
                    if a.kind == 'param':
                        params[a.id] = a
    pts = list(witness_points(root, list(params.values())))
    if not pts:
        return 'und', 'no domain known for a parameter'
    tried = skipped = 0
    # a two-dimensional image is handed over with dimZ == 0
    z = root.p['dimZ'].id if 'dimZ' in root.p and buf is not None and buf.kind == 'param' else None
    for env in pts:
        for e in env_boxes(ctx, env, need, 600):
            if not guards_hold(ctx, e):
                continue
            i, s = ev(idx, e), ev(size_elems, {**e, z: 1} if z is not None and e.get(z) == 0 else e)
            if i is None or s is None:
                skipped += 1
                continue
            tried += 1
            if i < 0 or i >= s:
                if unsure(ctx, e, idx_loops):
                    skipped += 1
                    continue
                return 'bad', {Atom.all[k].name: v for k, v in e.items()} | {'index': i, 'extent': s}
    if not tried:
        return 'und', 'not evaluable' if skipped else 'no reachable point'
    if skipped:
        return 'und', 'not evaluable at some points'
    return 'ok?', None


def elems(buf, width):
    if buf.size is None or not width:
        return None
    return buf.size.divexact(width)


def bname(root, b):
    if b.kind == 'param':
        return getattr(b, 'role', b.name)
    return '%s/%s' % (b.func, b.name)


# scratch the ray-tracing helpers fill up to a length known only at run time: least extent (elements) in terms of the
# helper's own ngridx, ngridy; by helper name and parameter name
def _need(x, y):
    return {'ax': y + 1, 'ay': y + 1, 'bx': x + 1, 'by': x + 1, 'coorx': x + y, 'coory': x + y, 'dist': x + y - 1,
            'indi': x + y - 1, 'indx': x + y - 1, 'indy': x + y - 1}


HELPERS = ('trim_coords', 'calc_dist', 'calc_dist2', 'sort_intersections')


def helper_extents(root, rn, res):
    """the scratch arrays handed to the ray-tracing helpers hold the longest possible ray"""
    grid = None
    for e, ctx in walk(root.tree):
        if not isinstance(e, CallB) or e.name not in HELPERS:
            continue
        fn = root.it.prog.find(e.name)
        names = [p.get('name') for p in fn.params]
        a = dict(zip(names, e.args))
        x, y = a.get('ry', a.get('ngridx')), a.get('rz', a.get('ngridy'))
        if isinstance(x, Poly) and isinstance(y, Poly):
            grid = (x, y)
        if grid is None:
            continue
        need = _need(*grid)
        for nm, v in a.items():
            if nm not in need:
                continue
            for p in alts(v) if cabs.is_ptr(v) else []:
                if not isinstance(p, Ptr) or p.buf.size is None or p.off is None:
                    continue
                d = p.buf.size - p.off - need[nm] * 4
                res.count('ray scratch arrays')
                if sign(d) in ('>=0', '0'):
                    res.ok()
                else:
                    pars = [q for q in d.atoms()]
                    bad = None
                    if all(q.kind == 'param' for q in pars):
                        for env in witness_points(root, pars):
                            w = ev(d, env)
                            if w is not None and w < 0:
                                bad = env
                                break
                    if bad is None:
                        res.und('extent not comparable')
                    else:
                        res.bad('%s:%s:%s:ray' % (rn, e.name, bname(root, p.buf)),
                                '%s has room for %r bytes but the longest ray through a %r x %r grid needs %r elements, e.g. %r' % (
                                    bname(root, p.buf), p.buf.size, grid[0], grid[1], need[nm],
                                    {Atom.all[k].name: v2 for k, v2 in bad.items()}), **where(e))


def c03(model, res):
    res.rule('scratch arrays passed to the ray-tracing helpers are as long as the longest ray through the grid')
    res.rule('every array access whose index is a polynomial of loop counters and dimensions: 0 <= index < extent over '
             'the whole loop box (symbolic bound, else a witness dimension tuple)')
    res.rule('every memset/memcpy/FFT plan length <= extent of its buffer')
    for rn, root in model.roots.items():
        res.count('native functions')
        helper_extents(root, rn, res)
        for e, ctx in walk(root.tree):
            if isinstance(e, Acc):
                res.count('accesses')
                n = elems(e.buf, e.width)
                idx = e.idx()
                if n is None:
                    res.und('extent of buffer unknown')
                    continue
                if idx is None:
                    res.und('index unknown')
                    continue
                if root.name in PROJ and 'oy' in root.p:
                    idx = idx.subst(root.p['oy'], root.P('dy'))
                    n = n.subst(root.p['oy'], root.P('dy'))
                v = 'ok'
                for ix in cabs.expand(idx):
                    v, w = decide_access(root, ix, n, ctx, e.buf)
                    if not v.startswith('ok'):
                        break
                if v == 'bad' and ix is not idx:
                    idx = ix
                if v == 'ok':
                    res.ok(sample='%s: %s[%r] < %r in %s' % (rn, bname(root, e.buf), idx, n, e.func))
                elif v == 'ok?':
                    res.ok()
                elif v == 'und':
                    res.und(w)
                else:
                    res.bad('%s:%s:%s:%s' % (rn, e.func, bname(root, e.buf), e.rw),
                            '%s of %s at index %r leaves its extent %r, e.g. %r' % (
                                'write' if e.rw == 'w' else 'read', bname(root, e.buf), idx, n, w), **where(e))
            elif isinstance(e, MemOp):
                for ptr in (e.dst, e.src):
                    for p in alts(ptr) if ptr is not None else []:
                        if not isinstance(p, Ptr) or p.buf.size is None or p.off is None or e.size is None:
                            continue
                        res.count('block operations')
                        # last byte index = off+size-1
                        v, w = decide_access(root, p.off + e.size - 1, p.buf.size, ctx, p.buf)
                        if v.startswith('ok'):
                            res.ok(sample='%s: %s of %r bytes fits %s' % (rn, e.name, e.size, bname(root, p.buf)))
                        elif v == 'und':
                            # symbolic comparison also for opaque sizes
                            d = p.buf.size - p.off - e.size
                            if d.is_const() and d.cval() < 0:
                                res.bad('%s:%s:%s:%s' % (rn, e.func, bname(root, p.buf), e.name),
                                        '%s of %r bytes overruns %s of %r bytes' % (e.name, e.size, bname(root, p.buf), p.buf.size), **where(e))
                            else:
                                res.und(w)
                        else:
                            res.bad('%s:%s:%s:%s' % (rn, e.func, bname(root, p.buf), e.name),
                                    '%s of %r bytes at offset %r overruns %s of %r bytes, e.g. %r' % (
                                        e.name, e.size, p.off, bname(root, p.buf), p.buf.size, w), **where(e))


# ================================================================ C04
class OState:
    __slots__ = ('live', 'freed', 'assume')

    def __init__(self, live=None, freed=None, assume=None):
        self.live = dict(live or {})      # buf -> alloc event
        self.freed = dict(freed or {})    # buf -> free event
        self.assume = dict(assume or {})

    def copy(self):
        return OState(self.live, self.freed, self.assume)

    def key(self):
        return (frozenset(b.id for b in self.live), frozenset(b.id for b in self.freed),
                frozenset((repr(k), v) for k, v in self.assume.items()))


def relevant(evs):
    """does the subtree allocate, free or jump"""
    for e, _ in walk(evs):
        if isinstance(e, (Free, Jump)) or (isinstance(e, Alloc) and e.buf.kind in ('heap', 'plan')):
            return True
    return False


class Owner:
    """path-sensitive allocation typestate"""

    def __init__(self, root, res):
        self.root, self.res = root, res
        self.rel = {}
        self.paths = 0
        self.tables = set()

    def key(self, e, b, what):
        return '%s:%s:%s' % (self.root.name, what, bname(self.root, b))

    def bufs(self, v):
        return [x.buf for x in alts(v) if isinstance(x, Ptr)]

    def use(self, st, v, e, what):
        al = [x for x in alts(v) if not isinstance(x, Null)]
        bs = [x.buf for x in al if isinstance(x, Ptr)]
        if bs and len(bs) == len(al) and all(b in st.freed for b in bs):
            b = bs[0]
            self.res.bad(self.key(e, b, 'use-after-free'), '%s of %s after it was released at line %d' % (
                what, bname(self.root, b), st.freed[b].line), **where(e))

    def run(self, evs, states):
        """returns list of (state, outcome) with outcome in next/return/break/continue"""
        cur = [(s, 'next') for s in states]
        for e in evs:
            nxt = []
            for s, o in cur:
                if o != 'next':
                    nxt.append((s, o))
                else:
                    nxt += self.step(e, s)
            cur = self.dedup(nxt)
        return cur

    def dedup(self, l):
        seen, out = set(), []
        for s, o in l:
            k = (s.key(), o)
            if k not in seen:
                seen.add(k)
                out.append((s, o))
        return out[:400]

    def isrel(self, e):
        k = id(e)
        if k not in self.rel:
            if isinstance(e, If):
                self.rel[k] = relevant(e.then) or relevant(e.els)
            else:
                self.rel[k] = relevant(e.body)
        return self.rel[k]

    def step(self, e, s):
        if isinstance(e, Alloc):
            if e.buf.kind in ('heap', 'plan'):
                s = s.copy()
                if e.buf in s.live and e.buf not in self.tables:
                    self.leak(e.buf, e, 'is allocated again while the previous block is still held')
                s.live[e.buf] = e
                s.freed.pop(e.buf, None)
                s.assume.pop(('allocfail', e.buf.id), None)
            return [(s, 'next')]
        if isinstance(e, Free):
            s = s.copy()
            al = [x for x in alts(e.val)]
            hs = [x for x in al if isinstance(x, Ptr)]
            for x in hs:
                b = x.buf
                if b.kind in ('param', 'local', 'var', 'global', 'str') and len(hs) == len(al):
                    self.res.bad(self.key(e, b, 'bad-free'), '%s, which this function did not allocate, is released' %
                                 bname(self.root, b), **where(e))
                    continue
                if b in s.freed and b not in s.live and len(hs) == 1:
                    self.res.bad(self.key(e, b, 'double-free'), '%s is released again (first at line %d)' % (
                        bname(self.root, b), s.freed[b].line), **where(e))
                if len(hs) == 1 and x.off is not None and x.off.is_const() and x.off.cval() != 0:
                    self.res.bad(self.key(e, b, 'interior-free'), 'release of a pointer inside %s' %
                                 bname(self.root, b), **where(e))
                if b in s.live:
                    self.res.count('releases')
                    del s.live[b]
                    s.freed[b] = e
                elif len(hs) == 1:
                    s.freed[b] = e
            return [(s, 'next')]
        if isinstance(e, Acc):
            self.use(s, Ptr(e.buf, e.off), e, 'access') if not e.alt else None
            return [(s, 'next')]
        if isinstance(e, MemOp):
            for v in (e.dst, e.src):
                if v is not None:
                    self.use(s, v, e, e.name)
            return [(s, 'next')]
        if isinstance(e, Ext):
            for v in e.args:
                if cabs.is_ptr(v):
                    self.use(s, v, e, e.name)
            for v in getattr(e, 'io', ()):
                self.use(s, v, e, e.name)
            return [(s, 'next')]
        if isinstance(e, Jump):
            return [(s, e.kind)]
        if isinstance(e, CallB):
            if not self.isrel(e):
                out = self.run(e.body, [s])
            else:
                out = self.run(e.body, [s])
            return [(x, 'next' if o == 'return' else o) for x, o in out]
        if isinstance(e, If):
            if not self.isrel(e):
                self.run(e.then, [s])
                self.run(e.els, [s])
                return [(s, 'next')]
            out = []
            for pos, br in ((True, e.then), (False, e.els)):
                s2 = s.copy()
                feas = True
                for c, p in cabs.conjuncts(e.cond, pos):
                    if c[0] == 'const':
                        if c[1] != p:
                            feas = False
                        continue
                    if c[0] == 'allocfail':
                        b = [x for x in s2.live if x.id == c[1]]
                        if s2.assume.setdefault(c, p) != p:
                            feas = False
                        elif p:
                            for x in b:
                                del s2.live[x]
                        continue
                    if c in s2.assume:
                        if s2.assume[c] != p:
                            feas = False
                    elif cabs.c_not(c) in s2.assume:
                        if s2.assume[cabs.c_not(c)] == p:
                            feas = False
                    else:
                        s2.assume[c] = p
                if feas and not self.consistent(s2):
                    feas = False
                if feas:
                    self.paths += 1
                    out += self.run(br, [s2])
            return out
        if isinstance(e, Loop):
            if not self.isrel(e):
                self.run(e.body, [s])
                return [(s, 'next')]
            before = set(s.live)
            exits = []
            cur = [s]
            for k in range(2):
                nxt = []
                for x, o in self.run(e.body, cur):
                    x = x.copy()
                    x.assume = {c: v for c, v in x.assume.items() if not self.varies(c, e)}
                    if o == 'return':
                        exits.append((x, 'return'))
                    elif o == 'break':
                        exits.append((x, 'next'))
                    else:
                        for b in list(x.live):
                            if b not in before and b not in s.live:
                                if self.intable(b):
                                    self.tables.add(b)
                                elif self.freed_in(e, b) is False and self.loop_many(e):
                                    self.leak(b, x.live[b], 'is allocated in every iteration but not released in it')
                        nxt.append(x)
                d = self.dedup([(x, 'next') for x in nxt])
                cur = [x for x, _ in d]
                if not cur:
                    break
            # zero-trip is ignored: bounds are at least one
            return self.dedup(exits + [(x, 'next') for x in cur])
        return [(s, 'next')]

    def consistent(self, s):
        pos = [c[1] for c, v in s.assume.items() if c[0] == 'ge0' and v]
        for p in pos:
            for q in pos:
                d = p + q
                if d.is_const() and d.cval() < 0:
                    return False
        eqs = [(c[1], v) for c, v in s.assume.items() if c[0] == 'eq0']
        for p, v in eqs:
            for q, w in eqs:
                if v and w:
                    d = p - q
                    if d.is_const() and d.cval() != 0:
                        return False
        return True

    def varies(self, c, loop):
        inner = {l.atom.id for l, _ in walk([loop]) if isinstance(l, Loop)}
        for a in cond_atoms(c):
            if a.kind in ('unk', 'h', 'ld', 'loop') or a.id in inner:
                if a.kind == 'loop' and a.id not in inner:
                    continue
                return True
        return c[0] in ('unk', 'switch', 'fcmp') and not all(
            a.kind in ('param', 'fc', 'fop', 'i2f', 'call') for a in cond_atoms(c))

    def loop_many(self, e):
        return not (e.hi is not None and (e.hi - e.lo).is_const() and (e.hi - e.lo).cval() <= 1)

    def freed_in(self, loop, b):
        for e, _ in walk(loop.body):
            if isinstance(e, Free) and b in self.bufs(e.val):
                return None
        return False

    def intable(self, b):
        for e, ctx in walk(self.root.tree):
            if isinstance(e, Acc) and e.rw == 'w' and cabs.is_ptr(e.val) and b in self.bufs(e.val) \
                    and e.off is not None and any(a.kind == 'loop' for a in e.off.atoms()):
                return True
        return False

    def leak(self, b, e, how):
        self.res.bad(self.key(e, b, 'leak'), 'memory block %s %s' % (bname(self.root, b), how), **where(e))


def c04(model, res):
    res.rule('allocation typestate on every path (conditions correlated by their symbolic form, loop bodies twice): each '
             'block is released exactly once, not released unless owned, not used after release')
    for rn, root in model.roots.items():
        allocs = [e for e, _ in walk(root.tree) if isinstance(e, Alloc) and e.buf.kind in ('heap', 'plan')]
        res.count('native functions')
        res.count('allocation sites', len(allocs))
        o = Owner(root, res)
        n0 = len(res.findings)
        outs = o.run(root.tree, [OState()])
        res.count('exit states', len(outs))
        res.count('branch paths', o.paths)
        escaped = set()
        for e, ctx in walk(root.tree):
            if isinstance(e, Acc) and e.rw == 'w' and e.buf.kind == 'param' and cabs.is_ptr(e.val):
                escaped |= set(o.bufs(e.val))
        for v in root.it.lost:
            escaped |= set(o.bufs(v))
        if any(isinstance(e, Free) and any(x is cabs.TOP for x in alts(e.val)) for e, _ in walk(root.tree)):
            # a release through a pointer the analysis lost may be that of any block kept in memory
            for e, ctx in walk(root.tree):
                if isinstance(e, Acc) and e.rw == 'w' and cabs.is_ptr(e.val):
                    escaped |= set(o.bufs(e.val))
        for s, oc in outs:
            for b, a in s.live.items():
                if b in escaped:
                    continue
                path = ', '.join('%s=%s' % (cabs.cshow(c)[:60], v) for c, v in list(s.assume.items())[:4])
                o.leak(b, a, 'is not released before the function returns' + (' (path: %s)' % path if path else ''))
        bad = {k.split(':')[2] for k in list(res.findings)[n0:]}
        for a in allocs:
            if bname(root, a.buf) not in bad:
                res.ok(sample='%s: %s allocated line %d' % (rn, bname(root, a.buf), a.line))


# ================================================================ C05
def targets(e):
    """buffers an event writes: [(buf, idx poly|None, width, kind)]"""
    out = []
    if isinstance(e, Acc) and e.rw == 'w':
        out.append((e.buf, e.off, e.width, 'rmw' if e.rmw else 'w'))
    elif isinstance(e, MemOp):
        for p in alts(e.dst):
            if isinstance(p, Ptr):
                out.append((p.buf, p.off, e.size, 'block'))
    elif isinstance(e, Ext):
        if e.name in cabs.IGNORED or e.name.startswith(('fftwf_plan', 'fftw_plan')):
            return out
        ptrs = list(getattr(e, 'io', ()))
        if not ptrs and e.name != '<indirect>':
            ptrs = [a for a in e.args if cabs.is_ptr(a)]
        for v in ptrs:
            for p in alts(v):
                if isinstance(p, Ptr):
                    out.append((p.buf, None, None, 'ext'))
    return out


def kids(e):
    if isinstance(e, (Loop, CallB)):
        return [e.body]
    if isinstance(e, If):
        return [e.then, e.els]
    return []


def must_write(evs, buf, skip_rmw=True):
    """every path through evs (loops at least once) writes buf (plain write / block / ext)"""
    for e in evs:
        if isinstance(e, Jump):
            return False
        for b, off, w, k in targets(e):
            if b is buf and not (skip_rmw and k == 'rmw') and not getattr(e, 'alt', False):
                return True
        if isinstance(e, (Loop, CallB)) and must_write(e.body, buf, skip_rmw):
            return True
        if isinstance(e, If):
            t, f = must_write(e.then, buf, skip_rmw), must_write(e.els, buf, skip_rmw)
            if (t or jumps(e.then)) and (f or jumps(e.els)) and (t or f):
                return True
    return False


def jumps(evs):
    return bool(evs) and isinstance(evs[-1], Jump)


def may_writes(evs, buf):
    out = []
    for e, ctx in walk(evs):
        for b, off, w, k in targets(e):
            if b is buf:
                out.append((e, ctx, off, w, k))
    return out


def positions(evs, path=()):
    """yield (event, path) where path = tuple of (list, index, owner)"""
    for i, e in enumerate(evs):
        yield e, path + ((evs, i, e),)
        for k in kids(e):
            yield from positions(k, path + ((evs, i, e),))


def full_indices(root, off, width, ctx, env, block=None, cap=20000):
    """set of byte ranges written for a parameter assignment, all loop values; None if unknown"""
    lps = loops_of(ctx)
    out = set()
    n = [0]

    need = set()
    stack = [off] + ([block] if isinstance(block, Poly) else [])
    for p in stack:
        for a in deep_atoms(p):
            if a.kind == 'loop':
                need.add(a.id)
    for l in reversed(lps):
        if l.atom.id in need and l.hi is not None:
            for p in (l.lo, l.hi):
                for a in deep_atoms(p):
                    if a.kind == 'loop':
                        need.add(a.id)
    for c, pos in guards_of(ctx):
        for a in cond_atoms(c):
            if a.kind == 'loop' and a.id in {l.atom.id for l in lps}:
                need.add(a.id)
    sel = [l for l in lps if l.atom.id in need]

    def rec(i, e):
        if n[0] > cap:
            return False
        if i == len(sel):
            n[0] += 1
            if not guards_hold(ctx, e):
                return True
            o = ev(off, e)
            if o is None:
                return False
            w = ev(block, e) if isinstance(block, Poly) else width
            if w is None:
                return False
            out.add((o, o + w))
            return True
        l = sel[i]
        if l.hi is None:
            return False
        lo, hi = ev(l.lo, e), ev(l.hi, e)
        if lo is None or hi is None:
            return False
        for v in range(lo, hi):
            e2 = dict(e)
            e2[l.atom.id] = v
            if not rec(i + 1, e2):
                return False
        return True
    if not rec(0, env):
        return None
    return out


def uninit_bufs(root):
    out = []
    for e, ctx in walk(root.tree):
        if isinstance(e, Alloc) and e.buf.init in ('malloc', 'uninit') and e.buf.kind in ('heap', 'local'):
            out.append(e.buf)
    return out


def input_only(atoms_):
    return all(a.kind in ('param', 'fc', 'fop', 'i2f', 'call', 'f2i', 'ld', 'div', 'mod', 'cast', 'iop') for a in atoms_)


def c05(model, res):
    res.rule('a read of malloc\'ed or automatic storage needs a write before it on its path')
    res.rule('index sets: every element read or accumulated is in the index set of some earlier write or clear')
    res.rule('an accumulator allocated outside a loop, accumulated and consumed inside it, is reset in every iteration')
    res.rule('scalars are assigned before they are read on every path')
    for rn, root in model.roots.items():
        res.count('native functions')
        ub = {b.id: b for b in uninit_bufs(root)}
        res.count('uninitialised buffers', len(ub))
        pos = list(positions(root.tree))
        # scalar variables
        for e, path in pos:
            if isinstance(e, Uninit):
                if e.definite:
                    res.bad('%s:%s:var:%s' % (rn, e.func, e.name), 'variable %s is read before it is set' % e.name, **where(e))
                else:
                    at = cond_atoms(e.cond) if e.cond else [None]
                    if e.cond is not None and at and input_only(at):
                        res.bad('%s:%s:var:%s' % (rn, e.func, e.name), 'variable %s is read unset when %s does not hold' % (
                            e.name, cabs.cshow(e.cond)), **where(e))
                    else:
                        res.und('conditionally set variable')
        seen = set()
        for e, path in pos:
            bufs = []
            if isinstance(e, Acc) and e.rw == 'r' and e.buf.id in ub and not e.alt:
                bufs = [(e.buf, e.off, e.width)]
            elif isinstance(e, MemOp) and e.src is not None:
                bufs = [(p.buf, p.off, None) for p in alts(e.src) if isinstance(p, Ptr) and p.buf.id in ub and not isinstance(e.src, Phi)]
            for buf, off, width in bufs:
                res.count('reads of such buffers')
                k = (buf.id, e.line, repr(off))
                if k in seen:
                    continue
                seen.add(k)
                judge_read(root, rn, e, path, buf, off, width, res)
        carried(root, rn, res, lambda l: True, 'C05')


def judge_read(root, rn, e, path, buf, off, width, res):
    name = bname(root, buf)
    # prior writes: siblings before at each level; and later ones inside common loops
    before, later = [], []
    must = False
    ctxs = []
    depth = 0
    alloc_seen = False
    alloc_level = 0
    for lv, (lst, i, own) in enumerate(path):
        for x in lst[:i]:
            if isinstance(x, Alloc) and x.buf is buf:
                alloc_level = lv
            else:
                for y, _c in walk([x]):
                    if isinstance(y, Alloc) and y.buf is buf:
                        alloc_level = lv
    outer_ctx = []
    for lv, (lst, i, own) in enumerate(path):
        if lv >= alloc_level:
            pre = lst[:i]
            if must_write(pre, buf):
                must = True
            for w in may_writes(pre, buf):
                before.append((w[0], tuple(outer_ctx) + w[1], w[2], w[3], w[4]))
        if lv < len(path) - 1:
            nxt = path[lv + 1][0]
            if isinstance(own, Loop) and lv >= alloc_level:
                j = path[lv + 1][1]
                for w in may_writes(path[lv + 1][0][j:], buf):
                    later.append((w[0], tuple(outer_ctx) + (own,) + w[1], w[2], w[3], w[4]))
            if isinstance(own, If):
                outer_ctx.append((own, own.then is nxt))
            else:
                outer_ctx.append(own)
    ctx = tuple(outer_ctx)
    key = '%s:%s:%s' % (rn, e.func, name)
    before_k = [w for w in before if w[4] != 'rmw']
    if not before_k:
        lk = [w for w in later if w[4] != 'rmw']
        if lk or before:
            # first iteration reads it unset unless a guard protects it
            common = {a.atom.id for a in ctx if isinstance(a, Loop)}
            if not before and any(any(x.kind in ('loop', 'unk', 'h', 'ld') for x in cond_atoms(c)) for c, _ in guards_of(ctx)) and lk:
                res.und('read guarded, written later in the same loop')
                return
        res.bad(key + ':never-set', '%s of %s, which nothing has set at this point' % (
            'accumulation' if e in () else 'read', name), **where(e))
        return
    if not must:
        myg = {(c, p) for c, p in guards_of(ctx)}
        free_path = True
        why = None
        for w in before_k:
            g = [(c, p) for c, p in guards_of(w[1]) if (c, p) not in myg]
            opaque = [c for c, p in g if not input_only(cond_atoms(c)) or c[0] not in ('ge0', 'eq0', 'not', 'and', 'or', 'fcmp')]
            if not g or opaque:
                free_path = False
                break
            why = g[0]
        # the read must itself be definitely executed
        if free_path and why is not None and all(input_only(cond_atoms(c)) for c, p in guards_of(ctx)):
            nn = [w for w in before_k]
            conds = {c for w in nn for c, p in guards_of(w[1])}
            comp = complementary(nn, myg)
            if not comp:
                res.bad(key + ':conditional-set', '%s is set only when %s%s but read regardless' % (
                    name, '' if why[1] else 'not ', cabs.cshow(why[0])), **where(e))
                return
        res.und('written under conditions')
    # coverage
    # read-modify-writes set nothing that was not set before; they are judged as reads themselves
    allw = [w for w in before + later if w[4] != 'rmw']
    if any(w[4] == 'ext' or w[2] is None or (w[4] == 'block' and w[3] is None) for w in allw):
        res.und('written by a library call or at unknown index')
        return
    if off is None or width is None:
        res.und('index unknown')
        return
    ok = {a.id for a in root.p.values()}
    lids = {l.atom.id for l in loops_of(ctx)}
    polys = [(off, ctx)]
    good = all(known_atoms(x, ok | lids) for x in [off])
    pars = {}
    for w in allw:
        wl = {l.atom.id for l in loops_of(w[1])}
        ps = [w[2]] + ([w[3]] if isinstance(w[3], Poly) else [])
        for p in ps:
            if not known_atoms(p, ok | wl):
                good = False
    if not good:
        # opaque sizes: compare symbolically a single covering block or loop
        m = bound_index(off, ctx, 'max')
        for w in allw:
            if w[4] == 'block' and m is not None:
                d = w[2] + w[3] - m - width
                if d.is_const() and d.cval() >= 0:
                    res.ok()
                    return
        if allw and buf.kind == 'heap' and isinstance(buf.size, Poly) and not known_atoms(off, ok | lids) and \
                all(known_atoms(x, ok | {l.atom.id for l in loops_of(w[1])}) for w in allw
                    for x in [w[2]] + ([w[3]] if isinstance(w[3], Poly) else [])) and \
                whole(root, rn, e, buf, name, allw, res, key):
            return
        res.und('index depends on data values')
        return
    for p, cx in [(off, ctx)] + [(w[2], w[1]) for w in allw] + [(w[3], w[1]) for w in allw if isinstance(w[3], Poly)]:
        for a in deep_atoms(p):
            if a.kind == 'param':
                pars[a.id] = a
        for l in loops_of(cx):
            if l.hi is not None:
                for q in (l.lo, l.hi):
                    for a in deep_atoms(q):
                        if a.kind == 'param':
                            pars[a.id] = a
    if shares_unknown(ctx, lids):
        res.und('guarded by data values')
        return
    for c, p in guards_of(ctx):
        for a in cond_atoms(c):
            if a.kind == 'param':
                pars[a.id] = a
    pts = list(witness_points(root, list(pars.values()), 12))
    if not pts:
        res.und('no domain known for a parameter')
        return
    need = {a.id for a in deep_atoms(off) if a.kind == 'loop'}
    for c, p in guards_of(ctx):
        need |= {a.id for a in cond_atoms(c) if a.kind == 'loop' and a.id in lids}
    for env in pts:
        cover = set()
        for w in allw:
            s = full_indices(root, w[2], width if not isinstance(w[3], Poly) else None, w[1], env,
                             block=w[3] if isinstance(w[3], Poly) else None)
            if s is None:
                res.und('index set too large')
                return
            cover |= s
        merged = []
        for a, b in sorted(cover):
            if merged and a <= merged[-1][1]:
                merged[-1][1] = max(merged[-1][1], b)
            else:
                merged.append([a, b])
        for e2 in env_boxes(ctx, env, need, 300):
            if not guards_hold(ctx, e2):
                continue
            i = ev(off, e2)
            if i is None:
                res.und('not evaluable')
                return
            if not any(a <= i and i + width <= b for a, b in merged):
                res.bad(key + ':uncovered', 'element %d of %s is read but never set, e.g. %r' % (
                    i // width, name, {Atom.all[k].name: v for k, v in e2.items()}), **where(e))
                return
    res.ok(sample='%s: reads of %s in %s covered by earlier writes' % (rn, name, e.func))


def whole(root, rn, e, buf, name, allw, res, key):
    """a block read at positions known only at run time, set only by counters: those must set all of it"""
    pars = {}
    for p, cx in [(buf.size, ())] + [(w[2], w[1]) for w in allw] + [(w[3], w[1]) for w in allw if isinstance(w[3], Poly)]:
        qs = [p] + [q for l in loops_of(cx) if l.hi is not None for q in (l.lo, l.hi)]
        for q in qs:
            for a in deep_atoms(q):
                if a.kind == 'param':
                    pars[a.id] = a
                elif a.kind in ('unk', 'h', 'ld'):
                    return False
    if any(cond_atoms(c) and any(a.kind not in ('param', 'loop') for a in cond_atoms(c)) for w in allw for c, _ in guards_of(w[1])):
        return False
    pts = list(witness_points(root, list(pars.values()), 24))
    if not pts:
        return False
    for env in pts:
        size = ev(buf.size, env)
        if size is None:
            return False
        cover = set()
        for w in allw:
            s = full_indices(root, w[2], buf.elem or e.width, w[1], env, block=w[3] if isinstance(w[3], Poly) else None)
            if s is None:
                return False
            cover |= s
        at = 0
        for a, b in sorted(cover):
            if a <= at:
                at = max(at, b)
        if at < size:
            res.bad(key + ':part-set', '%s has %d bytes and is read at positions known only at run time, but only its first '
                    '%d bytes are set, e.g. %r' % (name, size, at, {Atom.all[k].name: v for k, v in env.items()}), **where(e))
            return True
    res.ok(sample='%s: all of %s is set before it is used' % (rn, name))
    return True


def complementary(ws, myg):
    cs = set()
    for w in ws:
        g = [(c, p) for c, p in guards_of(w[1]) if (c, p) not in myg]
        if len(g) != 1:
            return True
        cs.add(g[0])
    for c, p in cs:
        if (c, not p) in cs or (cabs.c_not(c), p) in cs:
            return True
    return False


def depends_on(off, l, ctx=()):
    """off varies with l, directly or through the bounds of a loop it varies with"""
    if off is None:
        return False
    seen = {a.id for a in deep_atoms(off)}
    for x in reversed(loops_of(ctx)):
        if x.atom.id in seen:
            for p in (x.lo, x.hi):
                if p is not None:
                    seen |= {a.id for a in deep_atoms(p)}
    return l.atom.id in seen


def is_sum(x, cx, l):
    """x accumulates several contributions into one element within one pass of l"""
    if x.off is None:
        return False
    at = deep_atoms(x.off)
    if any(a.kind in ('unk', 'h', 'ld') for a in at):
        return True
    lps = loops_of(cx)
    if l in lps:
        lps = lps[lps.index(l) + 1:]
    ids = {a.id for a in at}
    return any(i.atom.id not in ids for i in lps)


def carried(root, rn, res, want, prop):
    """accumulators that survive from one iteration of a loop to the next"""
    def rec(evs, loops, path):
        for i, e in enumerate(evs):
            if isinstance(e, Loop):
                if want(e):
                    one(e)
                rec(e.body, loops + [e], path)
            else:
                for k in kids(e):
                    rec(k, loops, path)

    def one(l):
        # allocated anew in every iteration
        inside = {x.buf.id for x, cx in walk(l.body) if isinstance(x, Alloc) and
                  not any(a is l.atom for c, _ in guards_of(cx) for a in cond_atoms(c))}
        acc, reads = {}, {}
        for x, cx in walk(l.body):
            if isinstance(x, Acc) and x.buf.kind == 'heap' and x.buf.id not in inside and not x.alt:
                if x.rw == 'w' and x.rmw and x.type.replace('const', '').strip() in ('float', 'double', '_Complex float'):
                    acc.setdefault(x.buf.id, []).append((x, cx))
        if not acc:
            return
        # plain reads: a read not immediately part of a rmw of the same element
        plain = {}
        evl = list(walk(l.body))
        for j, (x, cx) in enumerate(evl):
            if isinstance(x, Acc) and x.rw == 'r' and x.buf.id in acc:
                if x.own:
                    continue
                nxt = evl[j + 1][0] if j + 1 < len(evl) else None
                if isinstance(nxt, Acc) and nxt.rmw and nxt.buf is x.buf and nxt.off == x.off:
                    continue
                plain.setdefault(x.buf.id, []).append(x)
        for bid, lst in acc.items():
            buf = lst[0][0].buf
            x, cx = lst[0]
            res.count('accumulators in loops')
            if all(depends_on(y.off, l, c2) for y, c2 in lst):
                res.ok()
                continue
            if not any(is_sum(y, c2, l) for y, c2 in lst):
                res.und('element updated once per pass: may be carried on purpose')
                continue
            if bid not in plain:
                res.ok()
                continue
            # reset before the first accumulation in this iteration?
            if reset_before(l.body, buf):
                res.ok(sample='%s: %s reset in each iteration of %s' % (rn, bname(root, buf), l.varname))
                continue
            # an accumulation nested in an inner loop that is consumed only in inner loops is judged there;
            # here the carry over l is real when the first access of the iteration is the accumulation / read
            res.bad('%s:%s:%s:carried' % (rn, x.func, bname(root, buf)),
                    '%s is accumulated and used in each pass of the loop over %s but not reset in it: values of the '
                    'previous pass leak into the next' % (bname(root, buf), l.varname or 'an unnamed counter'), **where(x))
    rec(root.tree, [], ())


def first_use(evs, k, l):
    """how an iteration of l first touches the floating-point variable: w set, r read or accumulated, mix, None"""
    for e in evs:
        if isinstance(e, Scal):
            if e.key == k:
                return 'w' if e.rw == 'w' else 'r'
        elif isinstance(e, (Loop, CallB)):
            r = first_use(e.body, k, l)
            if r:
                return r
        elif isinstance(e, If):
            t, f = first_use(e.then, k, l), first_use(e.els, k, l)
            if not t and not f:
                continue
            if t == f:
                return t
            if t and f:
                return 'mix'
            # touched on one side only
            one, other = (t, e.els) if t else (f, e.then)
            if one == 'r' or jumps(other):
                return one
            if one == 'w' and any(a is l.atom for a in cond_atoms(e.cond)):
                continue                  # set in some iterations only
            return 'mix'
    return None


def carried_scalars(root, rn, res, want, what):
    """floating-point variables whose value survives from one iteration of a loop to the next"""
    for l, ctx in list(walk(root.tree)):
        if not isinstance(l, Loop) or not want(l):
            continue
        ks = {}
        for x, cx in walk(l.body):
            if isinstance(x, Scal):
                ks.setdefault(x.key, []).append(x)
        for k, evs in ks.items():
            if not any(x.rw != 'r' for x in evs):
                continue
            res.count('floating-point variables set in loops')
            if first_use(l.body, k, l) != 'r' or not any(x.rw == 'r' for x in evs):
                res.ok()
                continue
            x = [x for x in evs if x.rw != 'r'][0]
            res.bad('%s:%s:var:%s:carried' % (rn, x.func, x.name),
                    '%s is used in each pass of the loop over %s before it is set there: the value of the previous %s leaks '
                    'into the next' % (x.name, l.varname or 'an unnamed counter', what), **where(x))


def reset_before(evs, buf):
    """on every path a plain write / clear of buf precedes its first accumulation in evs"""
    partial = False
    for e in evs:
        for b, off, w, k in targets(e):
            if b is buf:
                return k != 'rmw'
        if isinstance(e, (Loop, CallB)):
            if touches_w(e.body, buf):
                return reset_before(e.body, buf)
        if isinstance(e, If):
            t, f = touches_w(e.then, buf), touches_w(e.els, buf)
            if t or f:
                rt, rf = reset_before(e.then, buf) if t else None, reset_before(e.els, buf) if f else None
                if rt is False or rf is False:
                    return False
                if rt and (rf or jumps(e.els)):
                    return True
                # reset on one side only: an accumulation that follows is unprotected on the other side
                partial = True
    return partial


def touches_w(evs, buf):
    return any(b is buf for e, _ in walk(evs) for b, *_r in targets(e))


# ================================================================ C06 (native side)
UNSAFE = {'strtok', 'localtime', 'gmtime', 'asctime', 'ctime', 'setlocale', 'drand48', 'lrand48', 'mrand48', 'erand48',
          'srand', 'srandom', 'srand48', 'putenv', 'setenv', 'unsetenv', 'strerror', 'hcreate', 'hsearch', 'tmpnam', 'chdir',
          'signal', 'exit', '_exit', 'abort', 'quick_exit', 'readdir', 'getpwnam', 'ttyname', 'mktemp', 'umask',
          'fftwf_cleanup', 'fftw_cleanup', 'fftwf_plan_with_nthreads', 'fftwf_forget_wisdom', 'fftwf_cleanup_threads',
          'fftwf_import_system_wisdom', 'fftwf_import_wisdom_from_filename', 'lgamma', 'lgammaf'}


def ast_walk(n):
    yield n
    for x in n.get('inner', ()):
        if isinstance(x, dict):
            yield from ast_walk(x)


def strip(n):
    while n.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr') and n.get('inner'):
        n = n['inner'][-1]
    return n


def base_var(n):
    """declaration written by storing to n: (decl dict) when n is v, v[..], v.f, *(v+..) on an array v"""
    while True:
        n = strip(n)
        k = n.get('kind')
        if k == 'DeclRefExpr':
            return n.get('referencedDecl')
        if k in ('ArraySubscriptExpr', 'MemberExpr') and n.get('inner'):
            b = strip(n['inner'][0])
            if k == 'MemberExpr' and n.get('isArrow'):
                return None
            if b.get('kind') == 'DeclRefExpr' and '*' in (b.get('type', {}).get('qualType') or ''):
                return None        # store through a pointer, not into the variable
            n = b
            continue
        return None


def reach_c(model):
    """functions reachable from the exported ones, through calls, addresses and tables of addresses"""
    prog = model.prog
    work = [r.fn for r in model.roots.values()]
    seen = {id(f): f for f in work}
    gseen = set()
    while work:
        f = work.pop()
        roots = [f.body]
        for n in ast_walk(f.body):
            d = n.get('referencedDecl') if n.get('kind') == 'DeclRefExpr' else None
            if not d:
                continue
            if d.get('kind') == 'VarDecl' and d.get('id') in prog.globals and d['id'] not in gseen:
                gseen.add(d['id'])
                roots += prog.globals[d['id']].init or []
        for b in roots:
            for n in ast_walk(b):
                d = n.get('referencedDecl') if n.get('kind') == 'DeclRefExpr' else None
                if d and d.get('kind') == 'FunctionDecl':
                    g = prog.find(d['name'], f.lib, f.file)
                    if g is not None and id(g) not in seen:
                        seen[id(g)] = g
                        work.append(g)
    return list(seen.values())


def c06(model, res):
    res.rule('no native function reachable from an exported one stores to file-scope or static storage')
    res.rule('no call to a library routine with hidden process-wide state; FFT planning only after the planner was made '
             'thread safe on every path')
    prog = model.prog
    fns = reach_c(model)
    res.count('reachable native functions', len(fns))
    for f in fns:
        statics = {n['id']: n for n in ast_walk(f.body) if n.get('kind') == 'VarDecl' and n.get('storageClass') == 'static'
                   and not n.get('tls')}
        bad = None
        lock = 0
        for n in ast_walk(f.body):
            k = n.get('kind')
            tgt = None
            if k == 'BinaryOperator' and n.get('opcode') == '=':
                tgt = base_var(n['inner'][0])
            elif k == 'CompoundAssignOperator':
                tgt = base_var(n['inner'][0])
            elif k == 'UnaryOperator' and n.get('opcode') in ('++', '--'):
                tgt = base_var(n['inner'][0])
            elif k == 'CallExpr':
                c = strip(n['inner'][0])
                nm = (c.get('referencedDecl') or {}).get('name')
                res.count('call sites')
                if nm in UNSAFE:
                    res.bad('%s:calls:%s' % (f.name, nm), 'calls %s, which works on process-wide state: concurrent '
                            'reconstructions interfere' % nm, f.file, n.get('_line'), f.name)
                # writable static storage handed to a callee
                for a in n['inner'][1:]:
                    s = strip(a)
                    if s.get('kind') == 'UnaryOperator' and s.get('opcode') == '&':
                        s = strip(s['inner'][0])
                    if s.get('kind') == 'DeclRefExpr':
                        d = s.get('referencedDecl') or {}
                        g = statics.get(d.get('id'))
                        qt = (d.get('type') or {}).get('qualType') or ''
                        if (g is not None or d.get('id') in prog.globals) and 'const' not in qt and \
                                ('[' in qt or a is not s) and callee_writes(prog, f, nm, n['inner'][1:].index(a)):
                            tgt = d
            if tgt:
                if tgt.get('id') in statics or tgt.get('id') in prog.globals:
                    g = prog.globals.get(tgt['id'])
                    if g is not None and '_Thread_local' in (g.type or ''):
                        continue
                    res.bad('%s:static:%s' % (f.name, tgt['name']), 'stores to %s, which lives longer than the call and is '
                            'shared by concurrent callers' % tgt['name'], f.file, n.get('_line'), f.name)
        res.ok(sample='%s stores only to its own storage' % f.name)
        # pointers to static storage kept in locals
        for n in ast_walk(f.body):
            pass
    for rn, root in model.roots.items():
        # stores through pointers to static arrays
        for e, ctx in walk(root.tree):
            if isinstance(e, Acc) and e.rw == 'w' and e.buf.kind in ('global', 'static'):
                res.bad('%s:static:%s' % (e.func, e.buf.name), 'stores to %s, which lives longer than the call and is shared '
                        'by concurrent callers' % e.buf.name, **where(e))
        plans = [e for e, _ in walk(root.tree) if isinstance(e, Ext) and e.name.startswith(('fftwf_plan_', 'fftw_plan_'))]
        if plans:
            v = planner(root.tree, False)
            res.count('FFT plans', len(plans))
            if v is not True and v is not False:
                res.bad('%s:planner' % rn, 'an FFT plan is made on a path where the planner has not been made thread safe',
                        **where(v))
            else:
                res.ok(len(plans), sample='%s: planner made thread safe before every plan' % rn)


def callee_writes(prog, f, name, i):
    g = prog.find(name, f.lib, f.file) if name else None
    if g is None:
        return name in ('memset', 'memcpy', 'memmove', 'qsort', 'sprintf', 'snprintf', 'strcpy', 'strcat') and i == 0
    return i < len(g.params) and 'const' not in qualt(g.params[i])


def qualt(p):
    return (p.get('type') or {}).get('qualType') or ''


def planner(evs, safe):
    """state after evs, or the offending event"""
    for e in evs:
        if isinstance(e, Ext):
            if 'make_planner_thread_safe' in e.name or e.name in ('pthread_mutex_lock', 'omp_set_lock', 'mtx_lock'):
                safe = True
            elif e.name.startswith(('fftwf_plan_', 'fftw_plan_')) and not safe and not getattr(e, 'crit', False):
                return e
        elif isinstance(e, If):
            a, b = planner(e.then, safe), planner(e.els, safe)
            for x in (a, b):
                if isinstance(x, Ext):
                    return x
            safe = (a or jumps(e.then)) and (b or jumps(e.els))
        elif isinstance(e, (Loop, CallB)):
            r = planner(e.body, safe)
            if isinstance(r, Ext):
                return r
            safe = r if isinstance(e, CallB) else (safe or r)
    return bool(safe)


# ================================================================ C07
EXTRA_DOM = {'radius': (1, 2), 'ratio_radius': (1, 2), 'window_halflength_vertical': (1, 2), 'W_halfsize': (1, 2),
             'stripe_length_min': (2, 4), 'stripe_depth_min': (0, 2, 3), 'stripe_width_min': (2, 3), 'iterations': (1, 2),
             'axis': (0, 1, 2), 'method_type': (0, 1, 2), 'ncores': (0, 2), 'sensitivity': (50,), 'int_mode': (0, 1),
             'dimX': (2, 3), 'dimY': (2, 4), 'dimZ': (0, 1, 3)}


def c07(model, res):
    res.rule('a variable declared outside an OpenMP loop and stored inside it is private, firstprivate or a reduction')
    res.rule('array elements stored in one iteration of an OpenMP loop are neither stored nor read in another '
             '(symbolic index, small-dimension enumeration of the index sets)')
    res.rule('private copies are assigned before they are read')
    for rn, root in model.roots.items():
        for nt in root.it.notes:
            if nt.startswith('OMP'):
                res.und(nt)
        for e, ctx in walk(root.tree):
            if isinstance(e, Loop) and e.omp:
                res.count('OpenMP loops')
                omp_loop(root, rn, e, ctx, res)


def omp_loop(root, rn, L, octx, res):
    depth = len(loops_of(octx))
    prv = set(L.omp['private']) | set(L.omp['firstprivate']) | set(L.omp['reduction'])
    lids = [l for l in loops_of(octx)]
    own = {x.buf.id for x, _ in walk(L.body) if isinstance(x, Alloc)}
    seen = set()
    for x, cx in walk(L.body):
        if isinstance(x, VarEv) and x.rw == 'w':
            if x.depth > depth or x.key in prv:
                continue
            if L.varname == x.name and x.depth <= depth:
                continue
            if x.crit:
                continue
            if x.name in seen:
                continue
            seen.add(x.name)
            res.bad('%s:%s:omp-shared:%s' % (rn, L.func, x.name),
                    '%s is declared outside the parallel loop over %s, is not private or a reduction there, and is stored '
                    'by every thread' % (x.name, L.varname), **where(x))
        elif isinstance(x, Uninit) and x.definite:
            res.bad('%s:%s:omp-private:%s' % (rn, L.func, x.name), 'private copy of %s is read before it is set' % x.name,
                    **where(x))
    res.ok(sample='%s: stores to variables inside the parallel loop over %s in %s' % (rn, L.varname, L.func))
    # arrays
    acc = {}
    for x, cx in walk(L.body):
        if isinstance(x, Acc) and x.buf.id not in own and x.buf.kind not in ('var',):
            acc.setdefault(x.buf.id, []).append((x, (L,) + cx))
        elif isinstance(x, MemOp):
            for p in alts(x.dst):
                if isinstance(p, Ptr) and p.buf.id not in own:
                    y = Acc('w', p.buf, p.off, None, '')
                    y.line, y.func, y.file, y.crit = x.line, x.func, x.file, x.crit
                    y.block = x.size
                    acc.setdefault(p.buf.id, []).append((y, (L,) + cx))
    a = L.atom
    for bid, lst in acc.items():
        ws = [(x, cx) for x, cx in lst if x.rw == 'w' and not x.crit]
        if not ws:
            continue
        buf = ws[0][0].buf
        res.count('shared arrays stored in parallel loops')
        if buf.kind == 'local' and getattr(buf, 'init', None) and False:
            continue
        for x, cx in ws:
            if x.off is None or x.width is None:
                res.und('index unknown')
                continue
            cx = tuple(octx) + cx
            gat = {y.id for c, _ in guards_of(cx) for y in cond_atoms(c)}
            if not depends_on(x.off, L, cx):
                if a.id in gat:
                    res.und('store in selected iterations')
                    continue
                if any(y.kind in ('unk', 'h', 'ld') for y in deep_atoms(x.off)):
                    res.und('index depends on data values')
                    continue
                res.bad('%s:%s:omp-array:%s' % (rn, x.func, bname(root, buf)),
                        'every iteration of the parallel loop over %s stores %s[%r], which does not depend on %s' % (
                            L.varname, bname(root, buf), x.idx(), L.varname), **where(x))
                continue
            for y, cy in lst:
                cy = tuple(octx) + cy
                if y.off is None or y.width is None:
                    res.und('index unknown')
                    continue
                if y is not x and y.off == x.off and injective(x.off, L, cx):
                    res.ok()
                    continue
                v = overlap(root, L, x, cx, y, cy)
                if v == 'ok':
                    res.ok(sample='%s: %s[%r] in the parallel loop over %s' % (rn, bname(root, buf), x.idx(), L.varname))
                elif isinstance(v, str):
                    res.und(v)
                else:
                    res.bad('%s:%s:omp-array:%s' % (rn, x.func, bname(root, buf)),
                            'iterations of the parallel loop over %s collide on %s: one stores element %d, another %s it, '
                            'e.g. %r' % (L.varname, bname(root, buf), v[0], 'stores' if y.rw == 'w' else 'reads', v[1]),
                            **where(x))
                    break


def injective(off, L, ctx):
    return False


def selects(ctx, lids):
    """an integer comparison of a counter with a value only known at run time"""
    for c, pos in guards_of(ctx):
        if c[0] in ('ge0', 'eq0'):
            top = c[1].atoms()
            if any(a.kind == 'loop' and a.id in lids for a in top) and any(a.kind in ('unk', 'h', 'ld') for a in top):
                return True
    return False


def overlap(root, L, x, cx, y, cy):
    ok = {p.id for p in root.p.values()}
    pars = {}
    for p, c in ((x.off, cx), (y.off, cy)):
        lids = {l.atom.id for l in loops_of(c)}
        if not known_atoms(p, ok | lids):
            return 'index depends on data values'
        if selects(c, {a.id for a in deep_atoms(p) if a.kind == 'loop'}):
            return 'guarded by data values'
        dom = {root.p[n].id for n in root.p if n in EXTRA_DOM or n in DIMS}
        at = deep_atoms(p) + [a for cc, _ in guards_of(c) for a in cond_atoms(cc) if a.kind != 'param' or a.id in dom]
        for l in loops_of(c):
            if l.hi is None:
                if any(a is l.atom for a in deep_atoms(p)):
                    return 'loop bound unknown'
                continue
            at += deep_atoms(l.lo) + deep_atoms(l.hi)
        for a in at:
            if a.kind == 'param':
                pars[a.id] = a
    pts = list(witness_points(root, list(pars.values()), 400, extra=EXTRA_DOM))
    if not pts:
        return 'no domain known for a parameter'
    n = good = 0
    for env in pts:
        if n > 40 and good > 5:
            break
        good += n > 0
        sx = per_iter(root, x.off, x.width, cx, env, L)
        sy = per_iter(root, y.off, y.width, cy, env, L) if y is not x else sx
        if sx is None or sy is None:
            return 'index set too large'
        for o, its in sx.items():
            jts = sy.get(o)
            if not jts:
                continue
            n += 1
            if len(its) > 1 or len(jts) > 1 or its != jts:
                return (o // x.width, {Atom.all[k].name: v for k, v in env.items()} | {L.varname: sorted(its | jts)[:2]})
    return 'ok' if n else 'no reachable point'


def per_iter(root, off, width, ctx, env, L, cap=30000):
    """element offset -> set of values of L's counter touching it"""
    lps = loops_of(ctx)
    need = {a.id for a in deep_atoms(off) if a.kind == 'loop'} | {L.atom.id}
    for c, pos in guards_of(ctx):
        need |= {a.id for a in cond_atoms(c) if a.kind == 'loop' and a.id in {l.atom.id for l in lps}}
    for l in reversed(lps):
        if l.atom.id in need and l.hi is not None:
            for p in (l.lo, l.hi):
                need |= {a.id for a in deep_atoms(p) if a.kind == 'loop'}
    sel = [l for l in lps if l.atom.id in need]
    out = {}
    n = [0]

    def rec(i, e):
        if n[0] > cap:
            return False
        if i == len(sel):
            n[0] += 1
            if guards_hold(ctx, e):
                o = ev(off, e)
                if o is None:
                    return False
                out.setdefault(o, set()).add(e[L.atom.id])
            return True
        l = sel[i]
        if l.hi is None:
            return False
        lo, hi = ev(l.lo, e), ev(l.hi, e)
        if lo is None or hi is None:
            return False
        outer = i < sel.index(L)
        for v in range(lo, min(hi, lo + 1) if outer else hi):
            e2 = dict(e)
            e2[l.atom.id] = v
            if not rec(i + 1, e2):
                return False
        return True
    return out if rec(0, env) else None


# ================================================================ C08 (native side)
def c08(model, res):
    res.rule('no native function stores through a parameter that carries caller input')
    for rn, root in model.roots.items():
        ins = {b.id: c for c, b in root.buf.items() if c in INPUTS}
        if not ins:
            continue
        res.count('native input arrays', len(ins))
        hit = set()
        for e, ctx in walk(root.tree):
            for b, off, w, k in targets(e):
                if b.id in ins:
                    if k == 'ext' and not ext_writes(e, b):
                        continue
                    if getattr(e, 'alt', False):
                        continue
                    hit.add(b.id)
                    res.bad('%s:%s:stores:%s' % (rn, e.func, ins[b.id]),
                            'stores into %s, which is the caller\'s input' % ins[b.id], **where(e))
        for i, c in ins.items():
            if i not in hit:
                res.ok(sample='%s never stores into %s' % (rn, c))


def ext_writes(e, b):
    """does a library call store through this argument"""
    W = {'qsort': {0}, 'fread': {0}, 'sprintf': {0}, 'snprintf': {0}, 'strcpy': {0}, 'strcat': {0}, 'bzero': {0},
         'strncpy': {0}, 'fftwf_execute_dft': {1, 2}}
    if getattr(e, 'io', None):
        return True
    for i, a in enumerate(e.args):
        if cabs.is_ptr(a) and any(isinstance(x, Ptr) and x.buf is b for x in alts(a)):
            if i in W.get(e.name, ()):
                return True
    return False


# ================================================================ C09 (native side)
SLICED = [n for n in RECON if n not in ('vector2', 'vector3')] + list(PROJ)
PER_SLICE = {'data': ('dt', 'dx'), 'recon': ('ngridx', 'ngridy'), 'recon1': ('ngridx', 'ngridy'),
             'recon2': ('ngridx', 'ngridy'), 'reg_data': ('ngridx', 'ngridy'),
             'obj': ('ox', 'oz'), 'objx': ('ox', 'oz'), 'objy': ('ox', 'oz'), 'objz': ('ox', 'oz'), 'out': ('dt', 'dx')}


def stride_split(off, width, stride):
    """off = width*(stride*q + r): (q, r) by collecting the monomials divisible by the stride"""
    idx = off.divexact(width)
    if idx is None:
        return None
    (sm, sc), = stride.t.items()
    q, r = {}, {}
    for m, c in idx.t.items():
        l = list(m)
        ok = True
        for i in sm:
            if i in l:
                l.remove(i)
            else:
                ok = False
                break
        if ok and c % sc == 0:
            q[tuple(l)] = q.get(tuple(l), 0) + c // sc
        else:
            r[m] = c
    return Poly(q), Poly(r)


def block_of(size, width, root):
    """elements per slice of a buffer with room for dy blocks; None for another size"""
    n = size.divexact(width)
    if n is None or len(n.t) != 1:
        return None
    (m, c), = n.t.items()
    y = root.p['dy'].id
    if m.count(y) != 1:
        return None
    l = list(m)
    l.remove(y)
    return Poly({tuple(l): c})


def is_dy(p, root):
    if p is None:
        return False
    ok = {root.P('dy').key()}
    if 'oy' in root.p:
        ok.add(root.P('oy').key())
    return p.key() in ok


def slice_loop(l, root):
    """loops over [0,dy) (any step)"""
    if l.hi is None:
        return False
    if l.lo == C0 and is_dy(l.hi, root):
        return True
    if l.lo == C0 and len(l.hi.t) == 1:
        a = l.hi.atoms()
        if len(a) == 1 and a[0].kind == 'ceildiv' and is_dy(a[0].data[0], root):
            return True
    return False


def c09(model, res):
    res.rule('every access to a per-slice array decomposes as slice*stride + offset with 0 <= offset < stride, where slice '
             'is the same expression for all arrays the loop body touches')
    res.rule('the rotation centre read while slice q is processed is center[q]')
    res.rule('scratch accumulated over a slice is reset before the next slice')
    seen_roots = 0
    for rn in SLICED:
        root = model.roots.get(rn)
        if root is None or 'dy' not in root.p:
            continue
        seen_roots += 1
        groups = {}
        cuse = []
        for e, ctx in walk(root.tree):
            if not isinstance(e, Acc) or e.off is None or not e.width:
                continue
            role = getattr(e.buf, 'role', None) if e.buf.kind == 'param' else None
            if e.buf.kind == 'heap' and e.buf.size is not None:
                # scratch with one block per slice
                for nm, dims in (('data', ('dy', 'dt', 'dx')), ('recon', ('dy', 'ngridx', 'ngridy'))):
                    if all(d in root.p for d in dims):
                        s = Poly.const(e.width)
                        for d in dims:
                            s = s * root.P(d)
                        if e.buf.size == s:
                            role = nm
                if role is None:
                    role = block_of(e.buf.size, e.width, root)
            if role == 'center':
                cuse.append((e, ctx))
                continue
            if isinstance(role, Poly):
                stride = role
            elif role not in PER_SLICE or not all(d in root.p for d in PER_SLICE[role]):
                continue
            else:
                stride = C1
                for d in PER_SLICE[role]:
                    stride = stride * root.P(d)
            # a flat sweep over the whole array touches every slice alike
            sp = stride_split(e.off, e.width, stride)
            if sp is None:
                res.und('index unknown')
                continue
            q, r = sp
            lps = loops_of(ctx)
            flat = [l for l in lps if r.has(l.atom) and l.hi is not None and l.hi.has(root.p['dy'])]
            if flat:
                res.ok()
                continue
            # order of loops in layout [p][d][s] instead of [s][p][d]
            sl = [l for l in lps if slice_loop(l, root)]
            wrong = [l for l in sl if r.has(l.atom)]
            if wrong:
                res.bad('%s:%s:stride:%s' % (rn, e.func, bname(root, e.buf)),
                        'slice counter %s enters the index of %s with a step other than the slice size: %r' % (
                            wrong[0].varname, bname(root, e.buf), e.idx()), **where(e))
                continue
            groups.setdefault(sl[-1] if sl else None, []).append((e, ctx, q, role, r, stride))
        # every access in one slice loop uses the loop's slice (or slice+1 for paired slices)
        for l, lst in groups.items():
            for e, ctx, q, role, r, stride in lst:
                res.count('per-slice accesses')
                if l is None:
                    res.und('no slice loop around the access')
                    continue
                paired = abs(getattr(l, 'step', 1)) == 2
                idx = e.idx()
                ex = cabs.expand(idx)
                if len(ex) > 1 and not paired:
                    vs = [(decide_offset(root, x - l.var * stride, stride, ctx), x) for x in ex]
                    bad = [(v, x) for v, x in vs if v[0] == 'bad']
                    if bad:
                        res.bad('%s:%s:offset:%s' % (rn, e.func, bname(root, e.buf)),
                                'element %r of %s lies outside slice %s, which is being processed (slice size %r), e.g. %r' % (
                                    bad[0][1], bname(root, e.buf), l.varname, stride, bad[0][0][1]), **where(e))
                    elif all(v[0] == 'ok' for v, x in vs):
                        res.ok(len(vs), sample='%s: %d neighbours of %s stay in slice' % (rn, len(vs), bname(root, e.buf)))
                    else:
                        res.und('index depends on data values')
                    continue
                verdicts = []
                for q0 in [l.var] + ([l.var + 1] if paired else []):
                    verdicts.append(decide_offset(root, idx - q0 * stride, stride, ctx))
                kinds = [v for v, _ in verdicts]
                d = q - l.var
                near = d.is_const() and abs(d.cval()) <= (2 if paired else 1)
                same_slice = d.is_const() and (d.cval() == 0 or (paired and d.cval() in (0, 1)))
                if 'ok' in kinds:
                    res.ok(sample='%s: %s[%r] stays in slice %r' % (rn, bname(root, e.buf), idx, q))
                elif through_slice(root, e.off, l):
                    res.und('slice depends on data values')
                elif not q.has(l.atom):
                    res.bad('%s:%s:slice:%s' % (rn, e.func, bname(root, e.buf)),
                            'element %r of %s, whichever slice %s is processed' % (idx, bname(root, e.buf), l.varname), **where(e))
                elif 'und' in kinds and same_slice:
                    res.und(verdicts[kinds.index('und')][1])
                elif all(k == 'bad' for k in kinds):
                    res.bad('%s:%s:offset:%s' % (rn, e.func, bname(root, e.buf)),
                            'element %r of %s lies outside slice %s, which is being processed (slice size %r), e.g. %r' % (
                                idx, bname(root, e.buf), l.varname, stride, verdicts[0][1]), **where(e))
                elif d.is_const() and not same_slice and not any(a.kind == 'param' for a in deep_atoms(r)):
                    res.bad('%s:%s:slice:%s' % (rn, e.func, bname(root, e.buf)),
                            'slice %r of %s is touched while slice %s is processed' % (q, bname(root, e.buf), l.varname),
                            **where(e))
                else:
                    res.und('slice depends on data values')
        # centre
        for e, ctx in cuse:
            res.count('centre reads')
            idx = e.idx()
            if idx is None:
                res.und('index unknown')
                continue
            sl = [l for l in loops_of(ctx) if slice_loop(l, root)]
            if not sl:
                res.bad('%s:%s:center' % (rn, e.func), 'center[%r] is used for every slice' % idx, **where(e))
                continue
            l = sl[-1]
            if idx == l.var:
                if abs(getattr(l, 'step', 1)) == 2:
                    other = [1 for x, cx in cuse if x.idx() is not None and x.idx() == l.var + 1]
                    if not other:
                        res.bad('%s:%s:center-pair' % (rn, e.func), 'slices are processed in pairs with the centre of the '
                                'first: center[%r] is used for slice %s+1 too' % (idx, l.varname), **where(e))
                        continue
                res.ok(sample='%s: center[%s] for slice %s' % (rn, l.varname, l.varname))
            elif abs(getattr(l, 'step', 1)) == 2 and idx == l.var + 1:
                res.ok()
            elif any(a.kind in ('unk', 'h', 'ld') for a in deep_atoms(idx)):
                res.und('centre index depends on data values')
            else:
                res.bad('%s:%s:center' % (rn, e.func), 'center[%r] is used while slice %s is processed' % (idx, l.varname),
                        **where(e))
        carried(root, rn, res, lambda l: slice_loop(l, root), 'C09')
        carried_scalars(root, rn, res, lambda l: slice_loop(l, root), 'slice')


def through_slice(root, off, l):
    """an index table read by off may hold values that depend on l"""
    tabs = {a.data[0] for a in deep_atoms(off) if a.kind == 'ld'}
    for a in deep_atoms(off):
        if a.kind in ('unk', 'h'):
            if a.id not in cabs.ORIGIN:
                return True
            tabs.add(cabs.ORIGIN[a.id])
    if not tabs:
        return False
    for e, ctx in walk(root.tree):
        if isinstance(e, Acc) and e.rw == 'w' and e.buf.id in tabs:
            v = e.val
            if not isinstance(v, Poly) or any(a.id == l.atom.id for a in deep_atoms(v)):
                return True
        elif not isinstance(e, Acc):
            for b, off2, w, k in targets(e):
                if b.id in tabs and k in ('ext',):
                    return True
    return False


def decide_offset(root, r, stride, ctx):
    if any(a.kind in ('unk', 'h', 'ld', 'call', 'f2i') for a in deep_atoms(r)):
        return 'und', 'index depends on data values'
    v, w = decide_access(root, r, stride, ctx)
    return ('ok', None) if v.startswith('ok') else (v, w)


# ================================================================ C11 (native side)
def c11(model, res):
    res.rule('the measured rays read (or, when projecting, produced) by one pass are exactly [0,dy)x[0,dt)x[0,dx), each '
             'equally often; with ordered subsets the blocks partition the projections')
    res.rule('no ray is skipped on a condition of its counters alone')
    n = 0
    for rn in RECON + list(PROJ):
        root = model.roots.get(rn)
        if root is None or 'dy' not in root.p:
            continue
        n += 1
        outs = [c for c in root.buf if (c.startswith('data') if rn not in PROJ else c == 'out')]
        for role in outs:
            cover_check(root, rn, role, 'r' if rn not in PROJ else 'w', res)


def unblock(root, p):
    """ind_block is a permutation of the projections: replace ind_block[q] by q"""
    b = root.buf.get('ind_block')
    if b is None:
        return p
    for _ in range(3):
        for a in deep_atoms(p):
            if a.kind == 'ld' and a.data[0] == b.id:
                i = a.data[1].divexact(b.elem or 4)
                if i is not None and p.has(a):
                    p = p.subst(a, i)
                    break
        else:
            break
    # select between ind_block[q] and q
    for a in list(p.atoms()):
        if a.kind == 'ite' and len(a.data) == 3:
            x, y = unblock(root, a.data[1]), unblock(root, a.data[2])
            if x == y:
                p = p.subst(a, x)
            elif x != a.data[1] or y != a.data[2]:
                p = p.subst(a, Poly.of(atom('ite', (a.data[0], x, y))))
    return p


EVAL = {'ld', 'param', 'loop', 'fc', 'fop', 'i2f', 'f2i', 'call', 'ite', 'bool', 'div', 'mod', 'iop'}


def cover_check(root, rn, role, rw, res):
    buf = root.buf[role]
    evs = []
    res.count('ray arrays')
    for e, ctx in walk(root.tree):
        if isinstance(e, Acc) and e.buf is buf and e.rw == rw:
            if e.off is None:
                res.und('index unknown')
                return
            evs.append((e, ctx, unblock(root, e.off)))
        elif isinstance(e, MemOp) and e.src is not None and rw == 'r' and any(isinstance(p, Ptr) and p.buf is buf for p in alts(e.src)):
            res.und('copied as a block')
            return
    if not evs:
        res.bad('%s:%s:unused' % (rn, role), '%s is never %s' % (role, 'read' if rw == 'r' else 'written'),
                root.fn.file, root.fn.line, rn)
        return
    ok = {p.id for p in root.p.values()}
    pars = {}
    for e, ctx, off in evs:
        lids = {l.atom.id for l in loops_of(ctx)}
        if not known_atoms(off, ok | lids):
            res.und('index depends on data values')
            return
        for l in loops_of(ctx):
            if off.has(l.atom) and l.hi is None:
                res.und('loop bound unknown')
                return
        for q in [off] + [x for l in loops_of(ctx) if l.hi is not None for x in (l.lo, l.hi)]:
            for a in deep_atoms(q):
                if a.kind == 'param':
                    pars[a.id] = a
        for c, pos in guards_of(ctx):
            for a in cond_atoms(c):
                if a.kind == 'param' and a.id in {root.p[d].id for d in root.p if d in DIMS}:
                    pars[a.id] = a
    for d in ('dy', 'dt', 'dx'):
        pars[root.p[d].id] = root.p[d]
    one = {'num_iter': (2,), 'dy': (1, 2, 3), 'dt': (2, 5, 7), 'dx': (2, 3), 'num_block': (1, 2, 3, 4), 'ngridx': (2,), 'ngridy': (3,),
           'ox': (2,), 'oz': (3,), 'oy': (1, 2, 3)}
    one.update({k: v for k, v in EXTRA_DOM.items() if k not in one})
    pts = list(witness_points(root, list(pars.values()), 400, extra=one))
    if not pts:
        res.und('no domain known for a parameter')
        return
    w = evs[0][0].width
    npts = skip = 0
    angles = [b.id for c, b in root.buf.items() if c.startswith('theta')]
    on = any(a.kind == 'ld' and a.data[0] in angles for e, ctx, off in evs for c, pos in guards_of(ctx) for a in cond_atoms(c))
    pts = [({**env, **{('ld', i): f for i in angles}}, nm) for env in pts for nm, f in (ANGLES if on else ANGLES[:1])]
    for env, angle in pts:
        cnt = {}
        for e, ctx, off in evs:
            c = count_indices(root, off, ctx, env, angles=angles)
            if c is None:
                cnt = None
                break
            for k, v in c.items():
                cnt[k] = cnt.get(k, 0) + v
        if cnt is None:
            skip += 1
            continue
        npts += 1
        n = env[root.p['dy'].id] * env[root.p['dt'].id] * env[root.p['dx'].id]
        names = {Atom.all[k].name: v for k, v in env.items() if isinstance(k, int)}
        if on:
            names['angles'] = angle
        full = {i * w for i in range(n)}
        miss = sorted(full - set(cnt))
        e0 = evs[0][0]

        def show(o):
            i = o // w
            dt, dx = env[root.p['dt'].id], env[root.p['dx'].id]
            return 'slice %d, projection %d, pixel %d' % (i // (dt * dx), i // dx % dt, i % dx)
        if miss:
            res.bad('%s:%s:skipped' % (rn, role), 'ray (%s) of %s is never %s in a pass, e.g. with %r' % (
                show(miss[0]), role, 'read' if rw == 'r' else 'written', names), **where(e0))
            return
        vals = {v for k, v in cnt.items() if k in full}
        if len(vals) > 1:
            hi = max(cnt, key=lambda k: cnt[k])
            lo = min(cnt, key=lambda k: cnt[k])
            res.bad('%s:%s:uneven' % (rn, role), 'in one pass ray (%s) of %s is used %d times but ray (%s) %d times, e.g. '
                    'with %r' % (show(hi), role, cnt[hi], show(lo), cnt[lo], names), **where(e0))
            return
    if not npts:
        res.und('index set not enumerable')
        return
    res.count('dimension tuples', npts)
    res.ok(sample='%s: %s covered once per pass at %d dimension tuples' % (rn, role, npts))


ANGLES = [('0, 0.3, 0.6, ...', lambda i: 0.3 * i), ('0, 0, ...', lambda i: 0.0), ('-2, -1.3, ...', lambda i: 0.7 * i - 2.0),
          ('7, 6.1, ...', lambda i: 7.0 - 0.9 * i), ('1.5, 1.5, ...', lambda i: 1.5)]


def count_indices(root, off, ctx, env, cap=60000, angles=()):
    """offset -> number of (relevant loop) iterations touching it"""
    lps = loops_of(ctx)
    need = {a.id for a in deep_atoms(off) if a.kind == 'loop'}
    for c, pos in guards_of(ctx):
        need |= {a.id for a in cond_atoms(c) if a.kind == 'loop' and a.id in {l.atom.id for l in lps}}
    for l in lps:
        # counters that repeat the access (iterations, blocks) matter too when bounded by dimensions only
        if l.hi is not None and l.exact:
            need.add(l.atom.id)
    for l in reversed(lps):
        if l.atom.id in need and l.hi is not None:
            for p in (l.lo, l.hi):
                need |= {a.id for a in deep_atoms(p) if a.kind == 'loop'}
    sel = [l for l in lps if l.atom.id in need]
    out = {}
    n = [0]
    geo = [c for c, pos in guards_of(ctx) if any(a.kind == 'ld' and a.data[0] in angles for a in cond_atoms(c)) and
           all(a.kind in EVAL for a in cond_atoms(c))]

    def rec(i, e):
        if n[0] > cap:
            return False
        if i == len(sel):
            n[0] += 1
            if any(ev_cond(c, e) is None for c in geo):
                return False
            if guards_hold(ctx, e):
                o = ev(off, e)
                if o is None:
                    return False
                out[o] = out.get(o, 0) + 1
            return True
        l = sel[i]
        if l.hi is None:
            return rec(i + 1, e)
        lo, hi = ev(l.lo, e), ev(l.hi, e)
        if lo is None or hi is None:
            # bound only known at run time: count it once if the index does not use it
            if off.has(l.atom):
                return False
            return rec(i + 1, e)
        for v in range(lo, hi):
            e2 = dict(e)
            e2[l.atom.id] = v
            if not rec(i + 1, e2):
                return False
        return True
    return out if rec(0, env) else None


# ================================================================ C16 (native side)
# dimensions fixed by the other parameters: the object has one slice per projected slice, the image is square
REDUNDANT = {'project': ('oy',), 'project2': ('oy',), 'project3': ('oy',), 'remove_ring': ('dz',)}
# recon's documentation: "Filtering is not implemented for fbp."
DOCUMENTED = {'fbp': ('name', 'fname', 'filter_par')}


# elements of the regularisation parameters each penalised algorithm documents
REG_ELEMENTS = {'grad': (0,), 'tv': (0,), 'tikh': (0, 1), 'ospml_quad': (0,), 'ospml_hybrid': (0, 1)}


def param_flow(prog, fn, memo):
    """indices of the parameters of fn whose value is used: read other than to hand it to a function that does not use it,
    and not replaced before the first read"""
    key = (fn.file, fn.name)
    if key in memo:
        return memo[key]
    ids = {p['id']: i for i, p in enumerate(fn.params)}
    memo[key] = set(ids.values())         # recursion: taken as used
    used, gone = set(), set()

    def refs(n):
        return {(x.get('referencedDecl') or {}).get('id') for x in ast_walk(n) if x.get('kind') == 'DeclRefExpr'}

    def visit(n):
        k = n.get('kind')
        if k == 'DeclRefExpr':
            d = (n.get('referencedDecl') or {}).get('id')
            if d in ids and d not in gone:
                used.add(ids[d])
            return
        if k == 'CStyleCastExpr' and n.get('castKind') == 'ToVoid' and strip(n).get('kind') == 'DeclRefExpr':
            return
        if k == 'BinaryOperator' and n.get('opcode') == '=' and strip(n['inner'][0]).get('kind') == 'DeclRefExpr':
            visit(n['inner'][1])
            return
        if k == 'CallExpr':
            t = strip(n['inner'][0])
            nm = (t.get('referencedDecl') or {}).get('name') if t.get('kind') == 'DeclRefExpr' else None
            g = prog.find(nm, file=fn.file) if nm else None
            if g is not None:
                live = param_flow(prog, g, memo)
                for i, a in enumerate(n['inner'][1:]):
                    if strip(a).get('kind') == 'DeclRefExpr' and i < len(g.params) and i not in live:
                        continue
                    visit(a)
                return
        for x in n.get('inner', ()):
            if isinstance(x, dict):
                visit(x)

    for st in fn.body.get('inner', ()):
        visit(st)
        b = strip(st)
        if b.get('kind') == 'BinaryOperator' and b.get('opcode') == '=':
            d = (strip(b['inner'][0]).get('referencedDecl') or {}).get('id')
            if d in ids and ids[d] not in used and d not in refs(b['inner'][1]):
                gone.add(d)
    memo[key] = used
    return used


def c16(model, res):
    res.rule('the value of every parameter of an exported native function is read, in the function itself or in the library '
             'function it is handed to, before it is replaced')
    res.rule('every documented element of the regularisation parameters is read')
    memo = {}
    for rn, root in model.roots.items():
        used = param_flow(model.prog, root.fn, memo)
        for i, p in enumerate(root.fn.params):
            role = root.role.get(p.get('name'), p.get('name'))
            res.count('native parameters')
            if i not in used and role in REDUNDANT.get(rn, ()):
                res.count('parameters that restate another one')
                res.ok()
            elif i not in used and role in DOCUMENTED.get(rn, ()):
                res.count('parameters documented as not implemented')
                res.ok()
            elif i not in used:
                res.bad('%s:dead:%s' % (rn, role), 'parameter %s is never used' % role, root.fn.file, root.fn.line, rn)
            else:
                res.ok(sample='%s uses %s' % (rn, role))
        b = root.buf.get('reg_pars')
        if b is None:
            continue
        got = set()
        for e, _ in walk(root.tree):
            if isinstance(e, Acc) and e.buf is b:
                i = e.idx()
                got.add(i.cval() if i is not None and i.is_const() else None)
            elif not isinstance(e, Acc) and any(isinstance(v, Ptr) and v.buf is b for x in
                                                ([e.src] if isinstance(e, MemOp) and e.src is not None else
                                                 e.args if isinstance(e, Ext) else []) if cabs.is_ptr(x) for v in alts(x)):
                got.add(None)
        for i in REG_ELEMENTS.get(rn, ()):
            res.count('regularisation parameters')
            if i in got or None in got:
                res.ok()
            else:
                res.bad('%s:reg_par[%d]' % (rn, i), 'regularisation parameter %d is never read' % i, root.fn.file, root.fn.line, rn)


def count_refs(body, i):
    return sum(1 for n in ast_walk(body) if n.get('kind') == 'DeclRefExpr' and (n.get('referencedDecl') or {}).get('id') == i)


# ================================================================ C19
CHANCE = {'rand': 'random numbers', 'random': 'random numbers', 'rand_r': 'random numbers', 'drand48': 'random numbers',
          'lrand48': 'random numbers', 'mrand48': 'random numbers', 'erand48': 'random numbers', 'arc4random': 'random numbers',
          'getrandom': 'random numbers', 'getentropy': 'random numbers', 'time': 'the clock', 'clock': 'the clock',
          'gettimeofday': 'the clock', 'clock_gettime': 'the clock', 'omp_get_wtime': 'the clock', 'getpid': 'the process identity',
          'gettid': 'the thread identity', 'pthread_self': 'the thread identity', 'getenv': 'the environment',
          'gethostname': 'the machine'}


def division(root, rn, res):
    def chunk(l):
        return l.hi is not None and l.lo == root.P('istart') and l.hi == root.P('iend')
    carried(root, rn, res, chunk, 'C19')
    carried_scalars(root, rn, res, chunk, 'slice')
    buf = root.buf.get('inout')
    axis = {'remove_stripe_sf': 1, 'remove_ring': 0}.get(rn)
    if buf is None or axis is None or not buf.dims or len(buf.dims) != 3:
        return
    for e, ctx in walk(root.tree):
        if not (isinstance(e, Acc) and e.buf is buf):
            continue
        ls = [l for l in loops_of(ctx) if chunk(l)]
        idx = e.idx()
        if not ls or idx is None:
            res.und('slice unknown')
            continue
        l = ls[-1]
        for ix in cabs.expand(idx):
            d = buf.dims
            if axis == 1:
                # element of the block of the slice within its projection
                sp = stride_split(ix * e.width, e.width, d[1] * d[2])
                ix = sp[1] if sp is not None else None
                stride = d[2]
            else:
                stride = d[0] * d[1]      # remove_ring counts the axes backwards
            if ix is None:
                res.und('index unknown')
                continue
            v, w = decide_offset(root, ix - l.var * stride, stride, ctx)
            if v == 'ok':
                res.ok(sample='%s: %s stays in slice %s' % (rn, bname(root, buf), l.varname))
            elif v == 'bad':
                res.bad('%s:%s:slice:%s:%s' % (rn, e.func, bname(root, buf), e.rw),
                        'element %r of %s lies outside slice %s, which is being processed, e.g. %r' % (
                            idx, bname(root, buf), l.varname, w), **where(e))
                break
            else:
                res.und(w)


def c19(model, res):
    res.rule('no native function reachable from an exported one draws random numbers, reads the clock or an identity; the '
             'inpainter does so only for its random method')
    res.rule('no parallel loop sums floating-point numbers in an order that depends on the schedule')
    res.rule('a function that is handed the slices istart..iend carries nothing from one slice to the next and touches no '
             'other slice, so that its result does not depend on how the slices are divided over workers')
    for rn, root in model.roots.items():
        if 'istart' in root.p and 'iend' in root.p:
            division(root, rn, res)
    fns = reach_c(model)
    res.count('reachable native functions', len(fns))
    seen = set()
    for rn, root in model.roots.items():
        mt = root.p.get('method_type')
        for e, ctx in walk(root.tree):
            if not (isinstance(e, Ext) and e.name in CHANCE):
                continue
            if mt is not None and CHANCE[e.name] == 'random numbers':
                ok = True
                for v in (0, 1):
                    if not any(ev_cond(c[0].cond, {mt.id: v}) is (not c[1]) for c in ctx if isinstance(c, tuple)):
                        ok = False
                        break
                if ok:
                    res.ok(sample='%s: %s only in the random method' % (e.func, e.name))
                    continue
                msg = 'draws random numbers (%s) in the mean or median method' % e.name
            else:
                msg = 'the result depends on %s (%s)' % (CHANCE[e.name], e.name)
            k = '%s:%s' % (e.func, e.name)
            if k not in seen:
                seen.add(k)
                res.bad(k, msg, **where(e))
    for f in fns:
        types = {n.get('name'): qualt(n) for n in ast_walk(f.body) if n.get('kind') == 'VarDecl'}
        types.update({p.get('name'): qualt(p) for p in f.params})
        for n in ast_walk(f.body):
            k = n.get('kind') or ''
            if not k.startswith('OMP'):
                continue
            res.count('parallel directives')
            text = n.get('_pragma', '').replace('\\\n', ' ')
            for m in re.finditer(r'\breduction\s*\(\s*([^:)]*):([^)]*)\)', text):
                if m.group(1).strip() in ('max', 'min', '&&', '||', '&', '|', '^'):
                    continue
                for nm in m.group(2).split(','):
                    nm = nm.split('[')[0].strip()
                    if 'float' in types.get(nm, '') or 'double' in types.get(nm, ''):
                        res.bad('%s:reduction:%s' % (f.name, nm), 'the parallel reduction of %s adds floating-point numbers in '
                                'an order that depends on the threads' % nm, f.file, n.get('_line'), f.name)
            if 'Atomic' in k or 'Critical' in k:
                for a in ast_walk(n):
                    if a.get('kind') == 'CompoundAssignOperator' and qualt(a) in ('float', 'double'):
                        res.bad('%s:atomic' % f.name, 'threads add floating-point numbers to one place in the order in which '
                                'they arrive', f.file, a.get('_line') or n.get('_line'), f.name)
                        break
        res.ok()
