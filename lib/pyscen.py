"""Scenarios: which public functions are analysed, with which abstract arguments; and the explorer of their paths."""
import numpy as np

from pyval import *
import pyabs
import pynp

P1 = 'prep.'
M1 = 'misc.'
R1 = 'recon.'
S1 = 'sim.'


class Arr:
    """an array argument: contents unknown, geometry known"""

    def __init__(self, *shape, dt='float32', lay='C', main=False, shared=False, val=None, kind=None,
                 off=None):
        self.off = off
        self.shape, self.dt, self.lay, self.main, self.shared, self.val = shape, dt, lay, main, shared, val
        self.kind = kind

    def but(self, **kw):
        a = Arr(*self.shape, dt=self.dt, lay=self.lay, main=self.main, shared=self.shared, val=self.val, kind=self.kind,
                off=self.off)
        for k, v in kw.items():
            setattr(a, k, v)
        return a

    def build(self, it, name):
        sh, dt = tuple(self.shape), np.dtype(self.dt)
        n = int(np.prod(sh)) if sh else 1
        if self.lay == 'C':
            idx = np.arange(n).reshape(sh)
            tot = n
        elif self.lay == 'F':
            idx = np.arange(n).reshape(sh[::-1]).T
            tot = n
        elif self.lay == 'strided':        # every other column of a wider array
            big = sh[:-1] + (sh[-1] * 2,)
            tot = int(np.prod(big))
            idx = np.arange(tot).reshape(big)[..., ::2]
        elif self.lay == 'sub':            # an inner block of a larger array
            big = tuple(s + 2 for s in sh)
            tot = int(np.prod(big))
            idx = np.arange(tot).reshape(big)[tuple(slice(1, -1) for _ in sh)]
        elif self.lay == 'lead':           # a leading block: contiguous, but not the whole buffer
            big = (sh[0] + 2,) + sh[1:]
            tot = int(np.prod(big))
            idx = np.arange(tot).reshape(big)[1:1 + sh[0]]
        elif self.lay == 'rev':
            idx = np.arange(n).reshape(sh)[..., ::-1]
            tot = n
        else:
            raise KeyError(self.lay)
        r = Root(tot, dt, owner='param:' + name, init=True, src=-1, shared=self.shared, deps=frozenset([name]))
        if self.val is not None:
            v = np.zeros(tot, dt)
            v[idx] = np.asarray(self.val, dt).reshape(sh)
            r.val = v
        r.base = np.arange(tot)
        view = r.base[0:0]
        # rebuild idx as a view of r.base so that views keep numpy's own memory rules
        if self.lay == 'C':
            view = r.base.reshape(sh)
        elif self.lay == 'F':
            view = r.base.reshape(sh[::-1]).T
        elif self.lay == 'strided':
            view = r.base.reshape(sh[:-1] + (sh[-1] * 2,))[..., ::2]
        elif self.lay == 'sub':
            view = r.base.reshape(tuple(s + 2 for s in sh))[tuple(slice(1, -1) for _ in sh)]
        elif self.lay == 'lead':
            view = r.base.reshape((sh[0] + 2,) + sh[1:])[1:1 + sh[0]]
        elif self.lay == 'rev':
            view = r.base.reshape(sh)[..., ::-1]
        if self.main or self.off is not None:
            s = np.full(tot, -2)
            s[idx] = np.arange(n).reshape(sh) + (self.off or 0)
            r.src = s
        if self.shared:
            raw = Nat('raw', root=r)
            r.raw = raw
        return A(r, view)


class Same:
    """the same object as another argument"""

    def __init__(self, name):
        self.name = name


class Fun:
    """a function supplied by the caller, given as source text"""

    def __init__(self, code, name):
        self.code, self.name = code, name

    def build(self, it):
        import ast
        env = pyabs.Env(None, mod='caller', func='<module>')
        env.glob = env
        env.vars['__name__'] = K('caller')
        it.exec_block(ast.parse(self.code).body, env)
        return env.vars[self.name]


class Ref:
    """a function of the package itself"""

    def __init__(self, path):
        self.path = path

    def build(self, it):
        m, n = self.path.rsplit('.', 1)
        return it.getattr(it.load('tomopy.' + m), n, None)

    def __repr__(self):
        return self.path


def build(it, v, name):
    if isinstance(v, (Fun, Ref)):
        return v.build(it)
    if isinstance(v, Arr):
        return v.build(it, name)
    if isinstance(v, Val):
        return v
    if isinstance(v, list):
        return Seq('list', [build(it, x, name) for x in v], owner='param:' + name, deps=frozenset([name]))
    if isinstance(v, tuple):
        return Seq('tuple', [build(it, x, name) for x in v], deps=frozenset([name]))
    if isinstance(v, dict):
        d = Dct({k: build(it, x, name + '.' + str(k) if name else k) for k, x in v.items()}, owner='param:' + name,
                deps=frozenset([name]))
        d.nz = True
        return d
    return K(v, frozenset([name]))


class Scn:
    def __init__(self, fn, args, tags=(), label='', second=None):
        self.fn, self.args, self.tags, self.label = fn, args, frozenset(tags), label
        self.second = second

    def __repr__(self):
        return '%s[%s]' % (self.fn, self.label)


class Out:
    __slots__ = ('kind', 'value', 'exc', 'it', 'params', 'scn', 'choices', 'why', 'fault', 'results', 'hit')

    def __init__(self):
        self.value = self.exc = self.why = None
        self.results = []


_NATOUT = None
ROLES = {}       # native function -> meaning of its parameters where it differs from the canonical order


def nat_outputs():
    global _NATOUT
    if _NATOUT is None:
        import cmodel
        _NATOUT = {}
        for f, c in cmodel.CANON.items():
            o = {}
            for i, r in enumerate(ROLES.get(f) or c.split()):
                if r in cmodel.OUTPUTS:
                    o[i] = 'inout' if r == 'inout' or r.startswith('recon') and f not in ('gridrec', 'fbp') else 'out'
            _NATOUT[f] = o
        for f in ('cxx_mlem', 'cxx_sirt'):
            _NATOUT[f] = {i: 'inout' for i, r in enumerate(ROLES.get(f) or cmodel.ACC_CANON.split()) if r == 'recon'}
    return _NATOUT


def run(repo, scn, choices=None, fault=None, opts=None, calls=1, presets=None):
    o = Out()
    o.scn, o.choices, o.fault = scn, choices, fault
    op = dict(native_outputs=nat_outputs())
    op.update(opts or {})
    it = pyabs.Interp(repo, choices=choices, fault=fault, opts=op)
    o.it = it
    it.environ = dict(op.get('environ0', {}))
    try:
        try:
            modn, fname = scn.fn.rsplit('.', 1)
            mod = it.load('tomopy.' + modn)
            f = it.getattr(mod, fname, None)
            it.phase = 0
        except PyExc as e:
            o.kind, o.exc, o.why = 'noload', e, 'module cannot be loaded: %r %s' % (e.ev, e.ev.args)
            return o
        o.params = None
        for c in range(calls):
            it.phase = c + 1
            it.visits = {}
            built = {}
            a = scn.args
            if c and scn.second is not None:
                if isinstance(scn.second, tuple):
                    modn, fname = scn.second[0].rsplit('.', 1)
                    f = it.getattr(it.load('tomopy.' + modn), fname, None)
                    a = scn.second[1]
                else:
                    a = scn.second
            for k, v in a.items():
                if isinstance(v, Same):
                    built[k] = built[v.name]
                else:
                    built[k] = build(it, v, k if calls == 1 else k)
                    if calls > 1:
                        relabel(built[k], c)
            o.params = built
            pos = [built[k] for k in built if k.startswith('*')]
            kw = {k: v for k, v in built.items() if not k.startswith('*')}
            it.stack = [('<user>', '<user>', None)]
            o.value = o.exc = None
            try:
                o.value = it.call(f, pos, kw, None)
                o.kind = 'return'
            except PyExc as e:
                o.kind, o.exc = 'raise', e
            o.results.append((o.kind, o.value, o.exc))
            if o.kind == 'raise' and calls > 1 and not fault:
                pass
    except Abort as e:
        o.kind, o.why = 'abort', str(e)
    except Hang as e:
        o.kind, o.why = 'hang', str(e)
    except RecursionError:
        o.kind, o.why = 'abort', 'recursion'
    finally:
        it.close()
    return o


def relabel(v, c):
    if isinstance(v, K):
        v.deps = frozenset('%s@%d' % (x, c) for x in v.deps)
    elif isinstance(v, A):
        v.root.deps = frozenset('%s@%d' % (x, c) for x in v.root.deps)
    elif isinstance(v, (Seq, Dct)):
        v.xdeps = frozenset('%s@%d' % (x, c) for x in v.xdeps)
        for x in (v.items if isinstance(v, Seq) else v.items.values()):
            relabel(x, c)


def explore(repo, scn, cap=24, opts=None, calls=1):
    """runs over the undecided conditions: the default path, then each condition flipped alone"""
    first = run(repo, scn, opts=opts, calls=calls)
    outs = [first]
    seen = set()
    todo = [(k, {}) for k in first.it.order]
    while todo and len(outs) < cap:
        k, base = todo.pop(0)
        if k in seen:
            continue
        seen.add(k)
        ch = dict(base)
        ch[k] = not first.it.sites.get(k, True) if k in first.it.sites else False
        o = run(repo, scn, choices=ch, opts=opts, calls=calls)
        outs.append(o)
        for s in o.it.order:
            if s not in seen and s not in ch:
                todo.append((s, ch))
    return outs
