"""Meaning of builtins, numpy, numexpr, scipy, concurrency, ctypes and the native libraries for the abstract interpreter."""
import ast
import ctypes
import math
import operator
import warnings

import numpy as np

from pyval import *
from pyabs import BINOPS, UFUNC, CMPU, CMPOPS, REALEXC, GenObj
import pynp

warnings.simplefilter('ignore')
np.seterr(all='ignore')

BUILTINS = set('''abs all any bool bytes callable chr dict divmod enumerate filter float format frozenset getattr hasattr hash
hex id input int isinstance issubclass iter len list map max min next object open ord pow print property range repr reversed
round set setattr slice sorted staticmethod classmethod str sum super tuple type vars zip locals globals delattr complex
bytearray memoryview'''.split())
MISSING = {'mpi4py', 'tomocuda', 'mkl_fft', 'timemory', 'importlib_metadata', 'netCDF4'}
TYPES = {'int': int, 'float': float, 'bool': bool, 'str': str, 'complex': complex, 'list': list, 'tuple': tuple, 'dict': dict,
         'set': set, 'object': object, 'bytes': bytes, 'type': type, 'slice': slice, 'frozenset': frozenset, 'range': range}


def check_import(it, name, node):
    top = name.split('.')[0]
    if top in MISSING and top not in it.opts.get('present', ()):
        raise it.err(ModuleNotFoundError, name, node)


# ------------------------------------------------------------------ concrete <-> abstract
def conc(v, depth=0):
    """the real Python object behind a completely known value"""
    if isinstance(v, K):
        return v.v
    if isinstance(v, A):
        x = v.val()
        if x is None:
            raise NotConc()
        return x
    if isinstance(v, Seq):
        if v.unk:
            raise NotConc()
        l = [conc(x) for x in v.items]
        return tuple(l) if v.kind == 'tuple' else set(l) if v.kind == 'set' else l
    if isinstance(v, Dct):
        if v.unk:
            raise NotConc()
        if any(isinstance(k, OKey) for k in v.items):
            raise NotConc()
        return {k: conc(x) for k, x in v.items.items()}
    if isinstance(v, X):
        r = realtype(v)
        if r is not None:
            return r
    raise NotConc()


def realtype(v):
    if isinstance(v, K) and isinstance(v.v, (type, np.dtype)):
        return v.v
    if isinstance(v, X):
        p = v.path.split('.')
        if p[0] == 'builtins' and len(p) == 2 and p[1] in TYPES:
            return TYPES[p[1]]
        if p[0] == 'numpy' and len(p) == 2:
            r = getattr(np, p[1], None)
            if isinstance(r, type):
                return r
    return None


def wrap(it, x, deps=E0):
    if isinstance(x, np.ndarray):
        if x.size > 200000:
            raise Abort('large constant array')
        return pynp.from_val(it, x, deps)
    if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
        return Seq(type(x).__name__, [wrap(it, y, deps) for y in x])
    if isinstance(x, tuple):
        return Seq('tuple', [wrap(it, y, deps) for y in x])
    if isinstance(x, (set, frozenset)):
        return Seq('set', [wrap(it, y, deps) for y in x])
    if isinstance(x, dict):
        return Dct({k: wrap(it, y, deps) for k, y in x.items()})
    return K(x, deps)


def hkey(v):
    """dictionary key"""
    if isinstance(v, K):
        try:
            hash(v.v)
            return v.v
        except TypeError:
            return None
    if isinstance(v, Seq) and v.kind == 'tuple':
        l = [hkey(x) for x in v.items]
        if any(x is None and not (isinstance(y, K) and y.v is None) for x, y in zip(l, v.items)):
            return None
        return tuple(l)
    if isinstance(v, (X,)):
        return OKey(v, ('X', v.path))
    if isinstance(v, (Fn, Cls, Obj, Nat)):
        return OKey(v, id(v))
    return None


def mkset(items, unk=False):
    seen, out, vague = set(), [], 0
    for x in items:
        h = hkey(x)
        if h is None and not (isinstance(x, K) and x.v is None):
            vague += 1
        elif h in seen:
            continue
        seen.add(h)
        out.append(x)
    return Seq('set', out, unk=unk or vague > 1)


class OKey:
    """dictionary key that stands for an object compared by identity"""
    __slots__ = ('v', 'k')

    def __init__(self, v, k):
        self.v, self.k = v, k

    def __hash__(self):
        return hash(self.k)

    def __eq__(self, o):
        return isinstance(o, OKey) and o.k == self.k

    def __repr__(self):
        return repr(self.v)


def unkey(k):
    if isinstance(k, OKey):
        return k.v
    if type(k) is tuple and any(isinstance(x, OKey) for x in k):
        return Seq('tuple', [unkey(x) for x in k])
    return K(k)


def havoc(it, v, node):
    """v escapes to code the analysis does not know"""
    if isinstance(v, A):
        it.event('escape', node, root=v.root)
        v.root.init[v.idx] = True
        v.root.src[v.idx] = -2
        v.root.val = None
    elif isinstance(v, Seq):
        for x in v.items:
            havoc(it, x, node)
    elif isinstance(v, Dct):
        for x in v.items.values():
            havoc(it, x, node)


# ------------------------------------------------------------------ operators
def binop(it, a, op, b, node):
    t = type(op)
    d = dep(a, b)
    if isinstance(a, K) and isinstance(b, K):
        try:
            return K(BINOPS[t](a.v, b.v), d)
        except ZeroDivisionError:
            raise it.err(ZeroDivisionError, 'division by zero', node)
        except TypeError as e:
            if isinstance(a.v, str) and t is ast.Mod:
                return U(d, 'str')
            raise it.err(TypeError, str(e), node)
        except (ValueError, OverflowError) as e:
            raise it.err(type(e), str(e), node)
    if isinstance(a, K) and isinstance(a.v, str) and t is ast.Mod and isinstance(b, (A, UA)):
        return U(d, 'str')
    if isinstance(a, (A, UA)) or isinstance(b, (A, UA)):
        if isinstance(a, (Seq,)) or isinstance(b, (Seq,)):
            a, b = pynp.asarr(it, a, node), pynp.asarr(it, b, node)
        return pynp.ufunc(it, UFUNC[t], [a, b], {}, node)
    if isinstance(a, K) and isinstance(a.v, str) and t is ast.Mod:
        it_ = b.items if isinstance(b, Seq) and b.kind == 'tuple' else [b]
        try:
            return K(a.v % (tuple(conc(x) for x in it_) if isinstance(b, Seq) and b.kind == 'tuple' else conc(b)), d)
        except NotConc:
            return U(d, 'str')
        except (TypeError, ValueError):
            return U(d, 'str')
    if isinstance(a, (Fn, Cls, Bound, Partial, Mod)) or isinstance(b, (Fn, Cls, Bound, Partial, Mod)):
        if isinstance(a, (K, Seq)) or isinstance(b, (K, Seq)):
            raise it.err(TypeError, 'unsupported operand types', node)
    if isinstance(a, Seq) and isinstance(b, Seq) and t is ast.Add:
        if a.kind != b.kind:
            raise it.err(TypeError, 'can only concatenate %s (not "%s")' % (a.kind, b.kind), node)
        return Seq(a.kind, a.items + b.items, unk=a.unk or b.unk)
    if isinstance(a, Seq) and t is ast.Mult and isinstance(b, K) and isinstance(b.v, (int, np.integer)):
        return Seq(a.kind, a.items * int(b.v), unk=a.unk)
    if isinstance(b, Seq) and t is ast.Mult and isinstance(a, K) and isinstance(a.v, (int, np.integer)):
        return Seq(b.kind, b.items * int(a.v), unk=b.unk)
    if isinstance(a, Seq) and a.kind == 'set' and isinstance(b, Seq):
        try:
            return wrap(it, BINOPS[t](conc(a), conc(b)), d)
        except Exception:
            return U(d)
    if isinstance(a, Dct) and isinstance(b, Dct) and t is ast.BitOr:
        r = Dct(a.items, unk=a.unk or b.unk)
        r.items.update(b.items)
        return r
    if isinstance(a, Obj) or isinstance(b, Obj):
        nm = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.Div: '__truediv__'}.get(t)
        if nm and isinstance(a, Obj) and a.cls.lookup(nm):
            return it.call(a.cls.lookup(nm), [a, b], {}, node)
        return U(d)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, K) and x.v is None and isinstance(y, (K, Seq, A)):
            raise it.err(TypeError, 'unsupported operand type NoneType', node)
    k = 'num'
    for x in (a, b):
        if isinstance(x, U) and x.kind in (None, 'str'):
            k = x.kind
        elif isinstance(x, K) and isinstance(x.v, str):
            k = 'str'
        elif not isinstance(x, (U, K)):
            k = None
    if k == 'num' and t not in (ast.Div, ast.Pow):
        if all((isinstance(x, U) and x.kind in ('int', 'bool')) or
               (isinstance(x, K) and isinstance(x.v, (int, np.integer))) for x in (a, b)):
            k = 'int'
    return U(d, k)


def inplace(it, a, op, b, node):
    t = type(op)
    if isinstance(a, A):
        return pynp.inplace(it, a, UFUNC[t], b, node)
    if isinstance(a, UA):
        for r in a.roots:
            pynp.maybe_write(it, r, b, node)
        return a
    if isinstance(a, Seq) and a.kind == 'list' and t is ast.Add:
        items = try_items(it, b, node)
        mutated(it, a, node)
        if items is None:
            a.unk = True
            a.xdeps |= b.deps
        else:
            a.items += items
        return a
    if isinstance(a, Seq) and a.kind == 'set' and t is ast.BitOr:
        mutated(it, a, node)
        a.items = mkset(a.items + [x for x in (try_items(it, b, node) or [])]).items
        return a
    if isinstance(a, Dct) and t is ast.BitOr and isinstance(b, Dct):
        mutated(it, a, node)
        a.items.update(b.items)
        return a
    return binop(it, a, op, b, node)


def mutated(it, c, node):
    if c.owner and it.phase:
        it.event('mutate', node, owner=c.owner, nonempty=c.nz, obj=c)


def unary(it, op, v, node):
    if isinstance(op, ast.Not):
        k = it.known_truth(v)
        if k is None:
            return U(v.deps, 'bool') if not isinstance(v, U) or True else v
        return K(not k, v.deps)
    f = {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(op)]
    if isinstance(v, K):
        try:
            return K(f(v.v), v.deps)
        except TypeError as e:
            raise it.err(TypeError, str(e), node)
    if isinstance(v, (A, UA)):
        return pynp.ufunc(it, {ast.USub: 'negative', ast.UAdd: 'positive', ast.Invert: 'invert'}[type(op)], [v], {}, node)
    return U(v.deps, v.kind if isinstance(v, U) else None)


def ident(a, b):
    """a is b: True/False/None"""
    if isinstance(a, K) and isinstance(b, K):
        if a.v is None or b.v is None or isinstance(a.v, bool) or isinstance(b.v, bool):
            if isinstance(a.v, (np.bool_,)) or isinstance(b.v, (np.bool_,)):
                return False
            return a.v is b.v
        if isinstance(a.v, type) and isinstance(b.v, type):
            return a.v is b.v
        if type(a.v) is type(b.v) and a.v == b.v and isinstance(a.v, (str, int)):
            return True
        return False
    if isinstance(a, X) and isinstance(b, X):
        return a.path == b.path
    ra, rb = realtype(a), realtype(b)
    if ra is not None and rb is not None:
        return ra is rb
    for x, y in ((a, b), (b, a)):
        if isinstance(x, K) and (x.v is None or isinstance(x.v, bool)):
            if isinstance(y, (A, Seq, Dct, Fn, Cls, Obj, Bound, Mod, X, EV, Partial, UA)):
                return False
            if isinstance(y, Nat) and y.kind != 'unknown':
                return False
            if isinstance(y, U) and y.kind == 'num' and x.v is None:
                return False
            if isinstance(y, U) and y.kind in ('int', 'str') and x.v is None:
                return False
    if isinstance(a, (A, Seq, Dct, Fn, Cls, Obj, EV)) and isinstance(b, (A, Seq, Dct, Fn, Cls, Obj, EV)):
        if isinstance(a, A) and isinstance(b, A):
            return a is b
        return a is b
    return None


def excuse(it, *keys):
    """values looked up by these keys belong to them, whichever call stored them"""
    if it.phase > 1:
        it.excused |= set(x.rsplit('@', 1)[0] for k in keys for x in dep(k))


def compare(it, a, op, b, node):
    r = compare_(it, a, op, b, node)
    if it.phase > 1 and isinstance(r, K) and isinstance(op, (ast.Eq, ast.NotEq)) and r.v is isinstance(op, ast.Eq):
        if any(x.endswith('@0') for x in r.deps):
            excuse(it, r)
    return r


def compare_(it, a, op, b, node):
    t = type(op)
    d = dep(a, b)
    if t in (ast.Is, ast.IsNot):
        r = ident(a, b)
        if r is None:
            return U(d, 'bool')
        # only the identity, not the contents, was looked at
        if isinstance(a, A) or isinstance(b, A):
            d = E0 if not isinstance(a, K) and not isinstance(b, K) else d
        if any(isinstance(x, K) and x.v is None for x in (a, b)):
            d = E0
        return K(r if t is ast.Is else not r, d)
    if t in (ast.In, ast.NotIn):
        r = contains(it, b, a, node)
        if r is None:
            return U(d, 'bool')
        return K(r if t is ast.In else not r, d)
    if isinstance(a, K) and isinstance(b, K):
        try:
            r = CMPOPS[t](a.v, b.v)
            if isinstance(r, np.bool_):
                r = bool(r)
            return K(r, d)
        except TypeError as e:
            raise it.err(TypeError, str(e), node)
        except Exception:
            return U(d, 'bool')
    ra, rb = realtype(a), realtype(b)
    if t in (ast.Eq, ast.NotEq) and ((ra is not None and isinstance(b, (K, X))) or (rb is not None and isinstance(a, (K, X)))):
        x = ra if ra is not None else getattr(a, 'v', None)
        y = rb if rb is not None else getattr(b, 'v', None)
        try:
            r = bool(x == y)
        except Exception:
            r = False
        return K(r if t is ast.Eq else not r, d)
    if isinstance(a, (A, UA)) or isinstance(b, (A, UA)):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, K) and (x.v is None or isinstance(x.v, str)):
                if t in (ast.Eq, ast.NotEq):
                    return U(d) if isinstance(y, A) and y.idx.size != 1 else K(t is ast.NotEq, d)
                raise it.err(TypeError, 'cannot compare array', node)
        return pynp.ufunc(it, CMPU[t], [a, b], {}, node)
    if isinstance(a, Seq) and isinstance(b, Seq):
        try:
            x, y = conc(a), conc(b)
            r = CMPOPS[t](x, y)
            return K(bool(r), d)
        except NotConc:
            if t in (ast.Eq, ast.NotEq) and len(a.items) != len(b.items) and not a.unk and not b.unk:
                return K(t is ast.NotEq, d)
            return U(d, 'bool')
        except Exception:
            return U(d, 'bool')
    if t in (ast.Eq, ast.NotEq):
        struct = (Seq, Dct, Fn, Cls, Obj, Mod, X, EV)
        if isinstance(a, struct) and isinstance(b, (K,) + struct) or isinstance(b, struct) and isinstance(a, K):
            if isinstance(a, Dct) and isinstance(b, Dct):
                try:
                    r = conc(a) == conc(b)
                    return K(bool(r) if t is ast.Eq else not r, d)
                except Exception:
                    return U(d, 'bool')
            r = a is b
            if isinstance(a, X) and isinstance(b, X):
                r = a.path == b.path
            return K(r if t is ast.Eq else not r, d)
    return U(d, 'bool')


def contains(it, c, x, node):
    if isinstance(c, Dct):
        h = hkey(x)
        if h is None:
            return None
        if h in c.items:
            return True
        return None if c.unk else False
    if isinstance(c, Seq):
        try:
            v = conc(x)
        except NotConc:
            for i in c.items:
                if i is x:
                    return True
            return None
        unk = c.unk
        for i in c.items:
            try:
                if type(conc(i)) is type(v) or not isinstance(v, np.ndarray):
                    r = conc(i) == v
                    if isinstance(r, (bool, np.bool_)):
                        if r:
                            return True
                        continue
                unk = True
            except NotConc:
                if not isinstance(i, (Fn, Cls)):
                    unk = True
        return None if unk else False
    if isinstance(c, K) and isinstance(x, K):
        try:
            return x.v in c.v
        except TypeError:
            raise it.err(TypeError, 'argument is not iterable', node)
    if isinstance(c, Nat) and c.kind == 'environ':
        if isinstance(x, K):
            it.event('env-read', node, key=x.v)
            return x.v in it.environ
        return None
    if isinstance(c, Nat) and c.kind == 'view':
        return contains(it, Seq('list', c.items), x, node)
    if isinstance(c, A) and isinstance(x, K) and c.root.val is not None:
        return x.v in c.val()
    return None


def mkslice(it, p):
    if all(isinstance(x, K) for x in p):
        l = []
        for x in p:
            v = x.v
            if isinstance(v, np.ndarray) and v.ndim == 0:
                v = v[()]
            l.append(v)
        return K(slice(*l), dep(*p))
    l = []
    for x in p:
        if isinstance(x, A) and x.idx.size == 1 and x.root.val is not None and x.idx.ndim == 0:
            x = K(x.val()[()], x.deps)
        l.append(x)
    if all(isinstance(x, K) for x in l):
        return K(slice(*[x.v for x in l]), dep(*l))
    return Nat('uslice', deps=dep(*p), parts=l)


# ------------------------------------------------------------------ items
def elem_of(it, v):
    if isinstance(v, Seq) and v.items:
        return v.items[0]
    if isinstance(v, (UA,)):
        return UA(v.roots, v.deps, v.dt) if v.roots else U(v.deps)
    return U(v.deps)


ORDER = frozenset(['#order'])


def unordered(v):
    """is the order in which v yields its elements arbitrary?"""
    if isinstance(v, Nat):
        return v.kind == 'as_completed' and len(v.items) > 1 or v.kind == 'mapresult' and getattr(v, 'unord', False)
    return isinstance(v, Seq) and (v.kind == 'set' or '#order' in v.xdeps) and len(v.items) > 1 and not all(
        isinstance(x, K) and isinstance(x.v, (int, type(None))) and v.kind == 'set' for x in v.items)


def try_items(it, v, node, lazy=False):
    """list of the elements, or None when unknown"""
    if isinstance(v, Seq):
        if v.unk:
            return None
        return list(v.items) if not lazy else lazy_list(v)
    if isinstance(v, Dct):
        return None if v.unk else [unkey(k) for k in v.items]
    if isinstance(v, K):
        x = v.v
        if isinstance(x, range) and len(x) > 4000:
            # iterations of a loop that is cut off by a condition inside it
            return [K(i, v.deps) for i in x[:3]] if lazy else None
        if isinstance(x, (str, range, bytes)):
            return [K(i, v.deps) for i in x]
        if isinstance(x, (tuple, list)):
            return [wrap(it, i, v.deps) for i in x]
        if isinstance(x, (int, float, type(None), np.generic, slice)):
            raise it.err(TypeError, '%s object is not iterable' % type(x).__name__, node)
        return None
    if isinstance(v, A):
        if v.idx.ndim == 0:
            raise it.err(TypeError, 'iteration over a 0-d array', node)
        return [pynp.index(it, v, K(i), node) for i in range(v.idx.shape[0])]
    if isinstance(v, GenObj):
        if lazy:
            return gen_iter(it, v)
        out = []
        while True:
            k, x = v.resume()
            if k == 'stop':
                return out
            out.append(x)
            if len(out) > 2000:
                raise Abort('endless generator')
    if isinstance(v, Nat):
        if v.kind in ('view', 'iter'):
            if v.kind == 'iter':
                r = v.items[v.pos:]
                v.pos = len(v.items)
                return list(r)
            return list(v.items)
        if v.kind == 'lazymap':
            return lazymap(it, v, node) if lazy else list(lazymap(it, v, node))
        if v.kind == 'mapresult':
            # results of executor.map: a failed task raises when its turn comes
            v.consumed = True
            out = mapresult(it, v, node)
            return out if lazy else list(out)
        if v.kind == 'as_completed':
            it.event('order', node, what='concurrent.futures.as_completed')
            return list(v.items)
        if v.kind == 'np_flat':
            return try_items(it, v.arr, node)
        return None
    if isinstance(v, Obj):
        f = v.cls.lookup('__iter__')
        if f is not None:
            return try_items(it, it.call(f, [v], {}, node), node)
        return None
    return None


def lazy_list(v):
    i = 0
    while i < len(v.items):
        yield v.items[i]
        i += 1
        if i > 5000:
            raise Abort('loop limit')


def gen_iter(it, g):
    n = 0
    while True:
        k, x = g.resume()
        if k == 'stop':
            return
        yield x
        n += 1
        if n > 3000:
            raise Abort('endless generator')


def lazymap(it, v, node):
    if v.its is None:
        yield ('?', it.call(v.fn, [U(v.deps)], {}, node))
        return
    for t in zip(*v.its):
        r = it.call(v.fn, list(t), {}, node)
        if v.filt:
            k = it.known_truth(r)
            if k is False:
                continue
            r = t[0]
        yield r


def pyext_mod():
    import pyext
    return pyext


def mapresult(it, v, node):
    for f in v.futs:
        yield pyext_mod().fut_result(it, f, node)


def getitem(it, o, i, node):
    if isinstance(o, A):
        return pynp.index(it, o, i, node)
    if isinstance(o, UA):
        return UA(o.roots, o.deps | i.deps, o.dt)
    if isinstance(o, Seq):
        if isinstance(i, K):
            x = i.v
            if isinstance(x, slice):
                try:
                    return Seq(o.kind, o.items[x], unk=o.unk, deps=o.xdeps & ORDER)
                except TypeError as e:
                    raise it.err(TypeError, str(e), node)
            if isinstance(x, (int, np.integer)):
                try:
                    v = o.items[int(x)]
                except IndexError:
                    if o.unk:
                        return U(o.deps)
                    raise it.err(IndexError, 'list index out of range', node)
                if o.xdeps & ORDER:
                    v = K(v.v, v.deps | ORDER) if isinstance(v, K) else U(v.deps | ORDER, v.kind) if isinstance(v, U) else v
                return v
            raise it.err(TypeError, '%s indices must be integers or slices, not %s' % (o.kind, type(x).__name__), node)
        if isinstance(i, Seq):
            raise it.err(TypeError, '%s indices must be integers or slices, not tuple' % o.kind, node)
        if isinstance(i, A) and i.idx.ndim == 0 and i.root.val is not None:
            return getitem(it, o, K(i.val()[()], i.deps), node)
        if isinstance(i, Nat) and i.kind == 'uslice':
            return Seq(o.kind, o.items, unk=True)
        if o.items and all(isinstance(x, K) for x in o.items):
            return U(o.deps | i.deps, 'num' if all(isinstance(x.v, (int, float)) for x in o.items) else None)
        return U(o.deps | i.deps)
    if isinstance(o, Dct):
        h = hkey(i)
        if h is None:
            return U(o.deps | i.deps)
        if h in o.items:
            excuse(it, i)
            return o.items[h]
        if o.unk:
            return U(o.deps)
        raise it.err(KeyError, h, node)
    if isinstance(o, K):
        if isinstance(i, K):
            try:
                r = o.v[i.v]
                return wrap(it, r, dep(o, i))
            except Exception as e:
                if type(e).__name__ in REALEXC:
                    raise it.err(type(e), str(e), node)
                return U(dep(o, i))
        if o.v is None or isinstance(o.v, (int, float, np.generic)):
            raise it.err(TypeError, 'object is not subscriptable', node)
        return U(dep(o, i))
    if isinstance(o, X):
        if o.path in ('numpy.s_', 'numpy.index_exp'):
            return i
        if o.path in ('numpy.mgrid', 'numpy.ogrid', 'numpy.r_', 'numpy.c_'):
            it.faultpoint(node, o.path)
            try:
                return wrap(it, getattr(np, o.path.split('.')[1])[conc(i)], i.deps)
            except Exception:
                pass
            if o.path in ('numpy.mgrid', 'numpy.ogrid'):
                return UA((), i.deps)
            return UA((), i.deps)
        return U(dep(o, i))
    if isinstance(o, Nat):
        if o.kind == 'environ':
            return env_get(it, i, None, node, strict=True)
        if o.kind == 'lib':
            if isinstance(i, K):
                return Nat('cfunc', lib=o.name, sym=i.v)
        if o.kind == 'view':
            return getitem(it, Seq('list', o.items), i, node)
        if o.kind == 'np_flat':
            r = pynp.method(it, o.arr, 'ravel', [], {}, node)
            return getitem(it, r, i, node)
        return U(dep(o, i))
    if isinstance(o, Obj):
        f = o.cls.lookup('__getitem__')
        if f is not None:
            return it.call(f, [o, i], {}, node)
    if isinstance(o, (Fn, Bound)):
        raise it.err(TypeError, 'function is not subscriptable', node)
    return U(dep(o, i))


def setitem(it, o, i, v, node):
    if isinstance(o, A):
        pynp.store(it, o, i, v, node)
    elif isinstance(o, UA):
        for r in o.roots:
            pynp.maybe_write(it, r, v, node)
    elif isinstance(o, Seq):
        if o.kind == 'tuple':
            raise it.err(TypeError, "'tuple' object does not support item assignment", node)
        mutated(it, o, node)
        if isinstance(i, K) and isinstance(i.v, (int, np.integer)):
            try:
                o.items[int(i.v)] = v
            except IndexError:
                if not o.unk:
                    raise it.err(IndexError, 'list assignment index out of range', node)
        elif isinstance(i, K) and isinstance(i.v, slice):
            items = try_items(it, v, node)
            if items is None:
                o.unk = True
            else:
                o.items[i.v] = items
        elif isinstance(i, (Seq, K)):
            raise it.err(TypeError, 'list indices must be integers or slices', node)
        else:
            o.unk = True
            o.xdeps |= v.deps
    elif isinstance(o, Dct):
        mutated(it, o, node)
        h = hkey(i)
        if h is None:
            o.unk = True
            o.xdeps |= v.deps
        else:
            o.items[h] = v
    elif isinstance(o, Nat) and o.kind == 'environ':
        env_set(it, i, v, node)
    elif isinstance(o, Nat) and o.kind == 'np_flat':
        setitem(it, o.arr, K(Ellipsis), U(v.deps, 'num'), node)
    elif isinstance(o, Obj):
        f = o.cls.lookup('__setitem__')
        if f is not None:
            it.call(f, [o, i, v], {}, node)
    elif isinstance(o, K):
        raise it.err(TypeError, 'object does not support item assignment', node)
    else:
        it.sink_deps |= v.deps


def delitem(it, o, i, node):
    if isinstance(o, Dct):
        mutated(it, o, node)
        h = hkey(i)
        if h in o.items:
            del o.items[h]
        elif not o.unk and h is not None:
            raise it.err(KeyError, h, node)
    elif isinstance(o, Seq):
        mutated(it, o, node)
        try:
            del o.items[conc(i)]
        except IndexError:
            raise it.err(IndexError, 'list assignment index out of range', node)
        except NotConc:
            o.unk = True
    elif isinstance(o, Nat) and o.kind == 'environ':
        if isinstance(i, K):
            if i.v not in it.environ:
                raise it.err(KeyError, i.v, node)
            it.event('env-write', node, key=i.v, value=None)
            del it.environ[i.v]


# ------------------------------------------------------------------ environment
def env_get(it, key, default, node, strict=False):
    if not isinstance(key, K):
        return U(key.deps)
    it.event('env-read', node, key=key.v)
    if key.v in it.environ:
        return it.environ[key.v]
    if strict:
        raise it.err(KeyError, key.v, node)
    return default if default is not None else K(None)


def env_set(it, key, v, node):
    it.event('env-write', node, key=getattr(key, 'v', None), value=v)
    it.sink_deps |= v.deps
    if isinstance(v, K) and not isinstance(v.v, str):
        raise it.err(TypeError, 'str expected, not %s' % type(v.v).__name__, node)
    if isinstance(key, K):
        it.environ[key.v] = v


# ------------------------------------------------------------------ context managers
def enter(it, cm, node):
    if isinstance(cm, Obj):
        f = cm.cls.lookup('__enter__')
        if f is None:
            raise it.err(AttributeError, '__enter__', node)
        return it.call(f, [cm], {}, node)
    if isinstance(cm, Nat):
        if cm.kind == 'genctx':
            k, v = cm.gen.resume()
            return v if v is not None else K(None)
        if cm.kind in ('executor', 'pool', 'manager'):
            return cm
        if cm.kind == 'lock':
            lock(it, cm, node)
            return K(True)
        if cm.kind == 'closing':
            return cm.obj
        if cm.kind in ('suppress', 'nullctx'):
            return getattr(cm, 'obj', None) or K(None)
        if cm.kind == 'exitstack':
            return cm
        if cm.kind == 'envpatch':
            cm.saved = dict(it.environ)
            for k, v in cm.values.items():
                env_set(it, K(k), v, node)
            return K(None)
    return U(cm.deps)


def exit(it, cm, exc, node):
    """leave a with block; True when the exception is swallowed"""
    if isinstance(cm, Obj):
        f = cm.cls.lookup('__exit__')
        if exc is None:
            a = [K(None)] * 3
        else:
            a = [exc.ev.cls if isinstance(exc.ev.cls, Cls) else K(exc.ev.cls), exc.ev, Nat('traceback')]
        r = it.call(f, [cm] + a, {}, node)
        if exc is None:
            return False
        k = it.known_truth(r)
        return bool(k)
    if isinstance(cm, Nat):
        if cm.kind == 'genctx':
            if exc is None:
                k, v = cm.gen.resume()
                return False
            try:
                k, v = cm.gen.resume(('throw', exc))
            except PyExc as e:
                if e is exc:
                    return False
                raise
            return True     # the generator swallowed it
        if cm.kind == 'lock':
            unlock(it, cm, node)
        elif cm.kind == 'executor':
            cm.closed = True
        elif cm.kind == 'closing':
            call(it, attr(it, cm.obj, 'close', node), [], {}, node)
        elif cm.kind == 'suppress' and exc is not None:
            for t in cm.types:
                if it.exc_is(exc.ev, t):
                    if exc.ev.injected:
                        it.event('handled', node, ev=exc.ev)
                    return True
        elif cm.kind == 'envpatch':
            it.environ = dict(cm.saved)
        elif cm.kind == 'exitstack':
            sw = False
            for fn, a, kw, isexit in reversed(cm.cbs):
                if isexit:
                    if exit(it, fn, exc if not sw else None, node) and exc is not None:
                        sw = True
                else:
                    it.call(fn, a, kw, node)
            return sw
        elif cm.kind in ('pool', 'manager'):
            cm.closed = True
            if cm.kind == 'pool':
                cm.terminated = True
    return False


def lock(it, l, node):
    if l.held:
        raise Hang('lock taken twice')
    l.held = True
    if l not in it.locks:
        it.locks.append(l)


def unlock(it, l, node):
    l.held = False


# ------------------------------------------------------------------ decorators
def decorate(it, d, fn, node):
    p = d.path if isinstance(d, X) else None
    if p == 'contextlib.contextmanager':
        return Nat('ctxfactory', fn=fn)
    if p == 'builtins.staticmethod':
        return Nat('staticmethod', fn=fn)
    if p == 'builtins.classmethod':
        return Nat('classmethod', fn=fn)
    if p == 'builtins.property' or p == 'functools.cached_property':
        return Nat('property', fget=fn)
    if p in ('functools.lru_cache', 'functools.cache'):
        return Nat('cached', fn=fn, store={})
    if isinstance(d, Nat) and d.kind == 'lru_factory':
        return Nat('cached', fn=fn, store={})
    if isinstance(d, Nat) and d.kind == 'wraps':
        return fn
    if isinstance(d, (Fn, Bound, Obj, Partial)):
        return it.call(d, [fn], {}, node)
    return fn


# ------------------------------------------------------------------ attributes
def ext_attr(it, o, name, node):
    path = o.path + '.' + name
    if o.path == 'numpy' or o.path.startswith('numpy.'):
        if path in ('numpy.lib.pad',):
            return X('numpy.pad')
        r = np
        for p in path.split('.')[1:]:
            if not hasattr(r, p):
                raise it.err(AttributeError, "module 'numpy' has no attribute '%s'" % p, node)
            r = getattr(r, p)
        if isinstance(r, (int, float, type(None), np.generic)):
            return K(r)
        if isinstance(r, type) and issubclass(r, (np.generic, np.ndarray, np.dtype)):
            return K(r)
        return X(path)
    if o.path == 'math':
        r = getattr(math, name, None)
        if isinstance(r, float):
            return K(r)
        return X(path)
    if path == 'os.environ':
        return Nat('environ')
    if path == 'os.name':
        return K('posix')
    if path == 'os.sep' or path == 'os.path.sep':
        return K('/')
    if path == 'os.path':
        return X('os.path')
    if path == 'sys.version_info':
        import sys
        return K(tuple(sys.version_info[:3]))
    if path == 'sys.platform':
        return K('linux')
    if o.path == 'ctypes':
        r = getattr(ctypes, name, None)
        if isinstance(r, type):
            return K(r)
        return X(path)
    if o.path == 'concurrent.futures' and name in ('ALL_COMPLETED', 'FIRST_COMPLETED', 'FIRST_EXCEPTION'):
        return K(name)
    if o.path == 'contextlib' and name == 'suppress':
        return X(path)
    if path.startswith('scipy.') and name in ('pi',):
        return K(math.pi)
    return X(path)


def attr(it, o, name, node):
    if isinstance(o, X):
        if name in ('__name__',):
            return K(o.path.rsplit('.', 1)[-1])
        if name == '__module__':
            return K(o.path.rsplit('.', 1)[0])
        return ext_attr(it, o, name, node)
    if isinstance(o, A):
        return pynp.attr(it, o, name, node)
    if isinstance(o, UA):
        if name in ('shape', 'size', 'ndim'):
            return U(o.deps, None if name == 'shape' else 'int')
        if name == 'dtype':
            return K(o.dt) if o.dt is not None else U(E0)
        if name in ('T', 'real', 'imag'):
            return o
        return Nat('method', obj=o, name=name)
    if isinstance(o, K):
        v = o.v
        if v is None:
            raise it.err(AttributeError, "'NoneType' object has no attribute '%s'" % name, node)
        if isinstance(v, type) and name == '__module__':
            return K(v.__module__)
        if isinstance(v, type) and name == '__name__':
            return K(v.__name__)
        if isinstance(v, np.generic) and name in ('shape', 'size', 'ndim', 'dtype', 'T', 'real', 'imag'):
            return wrap(it, getattr(v, name), o.deps) if name != 'dtype' else K(v.dtype)
        if isinstance(v, (str, bytes, int, float, complex, np.generic, np.dtype, slice, range, tuple)):
            if not hasattr(v, name):
                raise it.err(AttributeError, "'%s' object has no attribute '%s'" % (type(v).__name__, name), node)
            a = getattr(v, name)
            if callable(a) and not isinstance(a, type):
                return Nat('method', obj=o, name=name)
            return wrap(it, a, o.deps)
        if isinstance(v, type):
            a = getattr(v, name, None)
            if v is np.ndarray:
                return X('numpy.ndarray.' + name)
            if v in (dict,) and name == 'fromkeys':
                return X('builtins.dict.fromkeys')
            if v in (str, list, dict):
                return Nat('unbound', cls=v, name=name)
            return U()
        return U(o.deps)
    if isinstance(o, (Seq, Dct)):
        cls = {'list': list, 'tuple': tuple, 'set': set}[o.kind] if isinstance(o, Seq) else dict
        if not hasattr(cls, name):
            raise it.err(AttributeError, "'%s' object has no attribute '%s'" % (cls.__name__, name), node)
        return Nat('method', obj=o, name=name)
    if isinstance(o, Fn):
        if name in o.attrs:
            return o.attrs[name]
        if name == '__name__':
            return K(o.name)
        if name == '__module__':
            return K(o.mod)
        if name == '__doc__':
            return K('')
        if name == '__dict__':
            return Dct()
        if name == '__call__':
            return o
        return U()
    if isinstance(o, EV):
        if name == 'args':
            return Seq('tuple', o.args)
        return U(o.deps)
    if isinstance(o, Nat):
        return nat_attr(it, o, name, node)
    if isinstance(o, (Bound, Partial)):
        if name == '__call__':
            return o
        if name == '__name__':
            return U(E0, 'str')
        return U(o.deps)
    if isinstance(o, GenObj):
        return Nat('method', obj=o, name=name)
    return U(o.deps) if not isinstance(o, U) else Nat('method', obj=o, name=name, deps=o.deps)


def nat_attr(it, o, name, node):
    k = o.kind
    if k == 'lib':
        return Nat('cfunc', lib=o.name, sym=name)
    if k == 'type':
        if name == '__module__':
            return K(o.module)
        if name == '__name__':
            return K(o.name)
        return U()
    if k == 'flags':
        n = name.lower()
        f = o.arr.idx.flags
        if n in ('c_contiguous', 'contiguous'):
            return K(bool(f.c_contiguous))
        if n in ('f_contiguous',):
            return K(bool(f.f_contiguous))
        if n == 'forc':
            return K(bool(f.forc))
        if n == 'owndata':
            return K(o.arr.idx.size == o.arr.root.base.size and not o.arr.root.shared)
        if n in ('writeable', 'aligned'):
            return K(True)
        return U()
    if k == 'future':
        if name in ('_exception',):
            return o.exc.ev if o.exc else K(None)
        return Nat('method', obj=o, name=name)
    if k == 'pool' and name == '_pool':
        return Seq('list', [Nat('proc', pool=o, i=i) for i in range(2)])
    if k == 'proc' and name == 'exitcode':
        return K(-9) if it.fault.get('kind') == 'death' and it.fault.get('fired') and o.i else K(None)
    if k == 'super':
        c = o.obj.cls if isinstance(o.obj, Obj) else None
        if c is not None:
            for b in c.bases:
                if isinstance(b, Cls) and b.lookup(name) is not None:
                    return Bound(o.obj, b.lookup(name))
        return X('builtins.object.' + name)
    if k == 'ctypeval' and name == 'value':
        return o.value
    if k == 'ntuple':
        return o.fields.get(name, U())
    if k == 'ctypesarr' and name == '_type_':
        try:
            return K(np.ctypeslib.as_ctypes_type(o.arr.dtype))
        except Exception:
            return U()
    if k == 'npctypes' and name == 'data':
        return Nat('cptr', arr=o.arr, pointee=None, deps=o.deps)
    if k == 'unknown':
        return U(o.deps)
    if k == 'cached' and name in ('cache_clear', 'cache_info'):
        return Nat('method', obj=o, name=name)
    return Nat('method', obj=o, name=name, deps=o.deps)


def setattr_(it, o, name, v, node):
    if isinstance(o, Nat) and o.kind in ('cfunc', 'lib'):
        return
    if isinstance(o, A):
        if name == 'shape':
            try:
                ni = o.idx.reshape(conc(v))
            except Exception:
                return
            o.idx = ni
        elif name in ('real', 'flat'):
            pynp.store(it, o, K(Ellipsis), v, node)
        return
    if isinstance(o, X):
        it.event('ext-setattr', node, path=o.path + '.' + name)
        it.sink_deps |= v.deps
        return
    if isinstance(o, K) and o.v is None:
        raise it.err(AttributeError, name, node)
    it.sink_deps |= v.deps


# ------------------------------------------------------------------ calls
def call(it, f, args, kw, node, env=None):
    if isinstance(f, X):
        hook = it.opts.get('on_ext')
        if hook:
            hook(it, f.path, args, kw, node)
        return ext_call(it, f.path, args, kw, node, env)
    if isinstance(f, K):
        if isinstance(f.v, type):
            return type_call(it, f.v, args, kw, node)
        raise it.err(TypeError, "'%s' object is not callable" % type(f.v).__name__, node)
    if isinstance(f, Nat):
        return nat_call(it, f, args, kw, node, env)
    if isinstance(f, (Fn, Bound, Partial, Cls, Obj)):
        return it.call(f, args, kw, node, env)
    if isinstance(f, (A, Seq, Dct)):
        raise it.err(TypeError, 'object is not callable', node)
    d = dep(f, *args) | dep(*kw.values())
    it.sink_deps |= d
    it.faultpoint(node, 'call of an unknown function')
    it.event('unknown-call', node)
    for a in list(args) + list(kw.values()):
        havoc(it, a, node)
    return U(d)


def type_call(it, t, args, kw, node):
    d = dep(*args) | dep(*kw.values())
    if isinstance(t, type) and issubclass(t, BaseException):
        return EV(t, args, deps=d)
    if t is np.ndarray:
        return pynp.create(it, 'empty', args, kw, node)
    if isinstance(t, type) and issubclass(t, np.generic):
        if args and isinstance(args[0], (A, UA)):
            return pynp.method(it, args[0], 'astype', [K(t)], {}, node) if not (isinstance(args[0], A) and args[0].idx.ndim == 0) \
                else U(d, 'num')
        if args and isinstance(args[0], Seq):
            return pynp.call(it, 'array', args, {'dtype': K(t)}, node)
        try:
            return wrap(it, t(*[conc(a) for a in args]), d)
        except NotConc:
            return U(d, 'num')
        except (TypeError, ValueError) as e:
            raise it.err(type(e), str(e), node)
    if isinstance(t, type) and hasattr(ctypes, t.__name__) and issubclass(t, (ctypes._SimpleCData,)):
        v = args[0] if args else K(0)
        if isinstance(v, A):
            # a whole array where a number is expected
            if v.idx.ndim == 0 or v.idx.size == 1 and False:
                v = K(v.val()[()], v.deps) if v.root.val is not None else U(v.deps, 'num')
            else:
                raise it.err(TypeError, 'an array is not a number', node)
        if isinstance(v, K) and t in (ctypes.c_int, ctypes.c_long, ctypes.c_size_t, ctypes.c_uint) and \
                isinstance(v.v, (float, np.floating, str, type(None))):
            raise it.err(TypeError, 'an integer is required (got type %s)' % type(v.v).__name__, node)
        if isinstance(v, K) and t in (ctypes.c_float, ctypes.c_double) and isinstance(v.v, (str, type(None))):
            raise it.err(TypeError, 'must be real number, not %s' % type(v.v).__name__, node)
        if isinstance(v, Seq):
            raise it.err(TypeError, 'must be a number', node)
        return Nat('cval', deps=d, ctype=t, value=v)
    nm = {v: k for k, v in TYPES.items()}.get(t)
    if nm:
        return ext_call(it, 'builtins.' + nm, args, kw, node, None)
    if t is np.dtype or t is type(None):
        try:
            return K(np.dtype(conc(args[0])), d)
        except Exception:
            return U(d)
    return U(d)


def num_kind(v):
    if isinstance(v, K):
        return isinstance(v.v, (int, float, np.generic, bool))
    return isinstance(v, U) and v.kind in ('num', 'int', 'bool')


def ext_call(it, path, args, kw, node, env):
    top, _, rest = path.partition('.')
    if top == 'builtins':
        return builtin(it, rest, args, kw, node)
    if top == 'numpy':
        if rest == 'random' or rest.startswith('random.'):
            return rng(it, path, args, kw, node)
        return pynp.call(it, rest, args, kw, node)
    if top == 'math':
        return pure(it, getattr(math, rest, None), args, kw, node, 'num' if rest not in ('ceil', 'floor') else 'int')
    import pyext
    return pyext.call(it, path, args, kw, node, env)


def rng(it, path, args, kw, node, gen=None):
    it.faultpoint(node, path)
    d = dep(*args) | dep(*kw.values())
    nm = path.rsplit('.', 1)[1]
    if nm in ('default_rng', 'RandomState', 'Generator', 'SeedSequence', 'PCG64', 'MT19937', 'Random'):
        v = (list(args) + list(kw.values()) + [None])[0]
        if v is not None and not (isinstance(v, K) and v.v is None):
            # a generator with a given seed: as deterministic as the seed
            return Nat('rng', deps=d | getattr(v, 'deps', frozenset()))
    if gen is not None:
        d |= gen
    else:
        it.event('random', node, path=path)
        d |= frozenset(['#random'])
    if '#random' in d and gen is not None:
        it.event('random', node, path=path)
    if nm in ('seed',):
        if gen is None:
            it.event('global-rng-seed', node)
        return K(None)
    if nm in ('default_rng', 'RandomState', 'Generator', 'SeedSequence', 'PCG64', 'MT19937', 'Random', 'SystemRandom'):
        return Nat('rng', deps=d)
    shape = None
    if nm in ('rand', 'randn'):
        shape = args
    else:
        s = kw.get('size')
        if s is None:
            pos = {'normal': 2, 'uniform': 2, 'poisson': 1, 'random': 0, 'random_sample': 0, 'randint': 2, 'permutation': 99,
                   'choice': 1, 'standard_normal': 0, 'binomial': 2, 'exponential': 1}.get(nm, 99)
            s = args[pos] if len(args) > pos else None
        if isinstance(s, K) and s.v is None:
            s = None
        if s is not None:
            shape = s.items if isinstance(s, Seq) else [s]
        else:
            arrs = [a for a in list(args) + list(kw.values()) if isinstance(a, A)]
            if arrs:
                return pynp.fresh_like(it, arrs[0], np.dtype('int64' if nm == 'poisson' else 'float64'), d, src=arrs[0].src())
            if any(isinstance(a, UA) for a in args):
                return UA((), d)
    if nm in ('shuffle',):
        for a in args:
            if isinstance(a, A):
                pynp.write_all(it, a, U(d), node)
        return K(None)
    if shape is None:
        return U(d, 'num')
    try:
        sh = tuple(int(conc(x)) for x in shape)
    except NotConc:
        return UA((), d)
    return pynp.new(it, sh, np.dtype('float64'), deps=d, src=-1)


def pure(it, fn, args, kw, node, kind):
    d = dep(*args) | dep(*kw.values())
    if fn is None:
        return U(d)
    try:
        a = [conc(x) for x in args]
        k = {n: conc(x) for n, x in kw.items()}
    except NotConc:
        return U(d, kind)
    a = [x.item() if isinstance(x, np.ndarray) and x.size == 1 else x for x in a]
    try:
        return wrap(it, fn(*a, **k), d)
    except Exception as e:
        if type(e).__name__ in REALEXC:
            raise it.err(type(e), str(e), node)
        return U(d, kind)


def lengths(it, v, node):
    if isinstance(v, Seq):
        return None if v.unk else len(v.items)
    if isinstance(v, Dct):
        return None if v.unk else len(v.items)
    if isinstance(v, A):
        if v.idx.ndim == 0:
            raise it.err(TypeError, 'len() of unsized object', node)
        return v.idx.shape[0]
    if isinstance(v, K):
        try:
            return len(v.v)
        except TypeError:
            raise it.err(TypeError, "object of type '%s' has no len()" % type(v.v).__name__, node)
    if isinstance(v, Nat) and v.kind in ('view', 'iter'):
        return len(v.items)
    return None


def isinst(it, v, t):
    """True/False/None"""
    if isinstance(t, Seq):
        r = [isinst(it, v, x) for x in t.items]
        return True if True in r else None if None in r else False
    if isinstance(t, Cls):
        if isinstance(v, Obj):
            c = [v.cls]
            while c:
                x = c.pop()
                if x is t:
                    return True
                c += [b for b in x.bases if isinstance(b, Cls)]
            return False
        if isinstance(v, EV):
            return it.exc_is(v, t)
        return None if isinstance(v, U) else False
    rt = realtype(t)
    if rt is None and isinstance(t, X):
        try:
            import collections.abc
            import numbers
            r = {'numbers.Number': numbers.Number, 'numbers.Integral': numbers.Integral, 'numbers.Real': numbers.Real,
                 'collections.abc.Iterable': collections.abc.Iterable, 'collections.abc.Sequence': collections.abc.Sequence,
                 'collections.abc.Callable': collections.abc.Callable, 'collections.abc.Mapping': collections.abc.Mapping
                 }.get(t.path)
        except Exception:
            r = None
        if r is None:
            return None
        rt = r
    if rt is None:
        return None
    if isinstance(rt, np.dtype):
        return None
    if isinstance(v, K):
        return isinstance(v.v, rt)
    if isinstance(v, A) or isinstance(v, UA):
        return issubclass(np.ndarray, rt)
    if isinstance(v, Seq):
        return issubclass({'list': list, 'tuple': tuple, 'set': set}[v.kind], rt)
    if isinstance(v, Dct):
        return issubclass(dict, rt)
    if isinstance(v, (Fn, Bound, Partial, Cls)):
        try:
            return issubclass(type(isinst), rt)
        except TypeError:
            return False
    if isinstance(v, EV):
        return it.exc_is(v, K(rt))
    if isinstance(v, U):
        if v.kind == 'str':
            return issubclass(str, rt)
        if v.kind in ('num', 'int', 'bool') and rt in (str, list, tuple, dict, set, np.ndarray):
            return False
        return None
    if isinstance(v, (Obj, Nat, Mod, X)):
        return False if rt in (str, list, tuple, dict, set, np.ndarray, int, float) else None
    return None


def builtin(it, n, args, kw, node):
    d = dep(*args) | dep(*kw.values())
    a0 = args[0] if args else None
    if n in ('print',):
        return K(None)
    if n == 'len':
        r = lengths(it, a0, node)
        ch = it.chunked.get(id(a0)) if isinstance(a0, A) and it.chunked else None
        return K(r, (pynp.CHUNK if ch and 0 in ch[1] else E0) if isinstance(a0, A) else d - pynp.CHUNK) if r is not None else U(d, 'int')
    if n == 'isinstance':
        r = isinst(it, a0, args[1])
        return K(r, E0) if r is not None else U(d, 'bool')
    if n == 'issubclass':
        try:
            return K(issubclass(conc(a0), conc(args[1])))
        except Exception:
            return U(d, 'bool')
    if n == 'range':
        try:
            v = [conc(x) for x in args]
        except NotConc:
            return U(d)
        v = [x.item() if isinstance(x, np.ndarray) and x.ndim == 0 else x for x in v]
        if any(isinstance(x, (float, np.floating)) for x in v):
            raise it.err(TypeError, "'float' object cannot be interpreted as an integer", node)
        try:
            r = range(*[int(x) for x in v])
        except (TypeError, ValueError) as e:
            raise it.err(type(e), str(e), node)
        it.branch_deps |= d
        return K(r, d - pynp.CHUNK)
    if n in ('list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed', 'iter'):
        if a0 is None:
            return Seq('set' if 'set' in n else n, [])
        items = try_items(it, a0, node)
        if n in ('set', 'frozenset'):
            it.event('order', node, what='set') if False else None
            if items is None:
                return Seq('set', [], deps=d, unk=True)
            return mkset(items)
        if n == 'iter':
            if isinstance(a0, (GenObj,)) or isinstance(a0, Nat) and a0.kind in ('iter', 'lazymap', 'mapresult'):
                return a0
            return Nat('iter', items=items, pos=0, deps=d) if items is not None else U(d)
        kind = 'tuple' if n == 'tuple' else 'list'
        if n == 'sorted':
            d = d - ORDER
        elif items is not None and unordered(a0):
            return Seq(kind, items, deps=ORDER)
        if items is None:
            return Seq(kind, [elem_of(it, a0)], deps=d, unk=True)
        if n == 'sorted':
            try:
                key = kw.get('key')
                ks = [conc(it.call(key, [x], {}, node)) if key is not None and not (isinstance(key, K) and key.v is None)
                      else conc(x) for x in items]
                rev = bool(conc(kw['reverse'])) if 'reverse' in kw else False
                order = sorted(range(len(items)), key=lambda i: ks[i], reverse=rev)
                return Seq('list', [items[i] for i in order])
            except NotConc:
                return Seq('list', [U(d, 'num') for _ in items]) if all(isinstance(x, (K, U)) for x in items) else \
                    Seq('list', items, deps=d, unk=True)
            except TypeError as e:
                raise it.err(TypeError, str(e), node)
        if n == 'reversed':
            items = items[::-1]
        return Seq(kind, items, deps=d & ORDER)
    if n == 'dict':
        r = Dct()
        if a0 is not None:
            if isinstance(a0, Dct):
                r.items.update(a0.items)
                r.unk = a0.unk
            else:
                items = try_items(it, a0, node)
                if items is None:
                    r.unk = True
                    r.xdeps = d
                else:
                    for p in items:
                        q = try_items(it, p, node)
                        h = hkey(q[0]) if q else None
                        if h is None:
                            r.unk = True
                        else:
                            r.items[h] = q[1]
        r.items.update(kw)
        return r
    if n == 'dict.fromkeys':
        r = Dct()
        for x in try_items(it, a0, node) or []:
            h = hkey(x)
            if h is not None:
                r.items[h] = args[1] if len(args) > 1 else K(None)
        return r
    if n in ('enumerate', 'zip', 'map', 'filter'):
        if n in ('map', 'filter'):
            its = [try_items(it, x, node) for x in args[1:]]
            if any(x is None for x in its):
                its = None
            fn = a0
            if n == 'filter' and isinstance(fn, K) and fn.v is None:
                return Seq('list', its[0] if its else [], unk=True)
            return Nat('lazymap', fn=fn, its=its, filt=n == 'filter', deps=d)
        if n == 'enumerate':
            items = try_items(it, a0, node)
            if items is None:
                return Seq('list', [Seq('tuple', [U(d, 'int'), elem_of(it, a0)])], unk=True)
            st = args[1] if len(args) > 1 else kw.get('start', K(0))
            s = st.v if isinstance(st, K) else 0
            od = ORDER if unordered(a0) else E0
            return Seq('list', [Seq('tuple', [K(i + s, od) if isinstance(st, K) else U(d, 'int'), x]) for i, x in enumerate(items)])
        its = [try_items(it, x, node) for x in args]
        if any(x is None for x in its):
            el = [elem_of(it, x) if y is None else (y[0] if y else U(d)) for x, y in zip(args, its)]
            return Seq('list', [Seq('tuple', el)], unk=True)
        if any(unordered(x) for x in args):
            its = [[K(y.v, y.deps | ORDER) if isinstance(y, K) else y for y in ys] for ys in its]
        return Seq('list', [Seq('tuple', list(t)) for t in zip(*its)])
    if n == 'next':
        if isinstance(a0, GenObj):
            k, v = a0.resume()
            if k == 'stop':
                if len(args) > 1:
                    return args[1]
                raise it.err(StopIteration, '', node)
            return v
        if isinstance(a0, Nat) and a0.kind == 'iter':
            if a0.pos < len(a0.items):
                a0.pos += 1
                return a0.items[a0.pos - 1]
            if len(args) > 1:
                return args[1]
            raise it.err(StopIteration, '', node)
        if isinstance(a0, Seq) and not a0.unk:          # generator expression, evaluated eagerly
            if a0.items:
                return a0.items.pop(0)
            if len(args) > 1:
                return args[1]
            raise it.err(StopIteration, '', node)
        return U(d)
    if n in ('min', 'max', 'sum', 'any', 'all'):
        if len(args) == 1 or n in ('sum', 'any', 'all'):
            if isinstance(a0, (A, UA)):
                if isinstance(a0, A) and a0.root.val is None and a0.idx.ndim > 1 and n == 'sum':
                    return UA((), d)
                return pynp.method(it, a0, n, [], {}, node)
            items = try_items(it, a0, node)
        else:
            items = list(args)
        if items is None:
            return U(d, 'num' if n in ('min', 'max', 'sum') else 'bool')
        if n in ('any', 'all'):
            un = False
            for x in items:
                k = it.known_truth(x)
                if k is None:
                    un = True
                elif k == (n == 'any'):
                    return K(k, d)
            return U(d, 'bool') if un else K(n == 'all', d)
        if not items and n in ('min', 'max'):
            if 'default' in kw:
                return kw['default']
            raise it.err(ValueError, '%s() arg is an empty sequence' % n, node)
        if n == 'sum':
            r = args[1] if len(args) > 1 else K(0)
            for x in items:
                r = binop(it, r, ast.Add(), x, node)
            return r
        key = kw.get('key')
        try:
            c = [conc(x) if key is None else conc(it.call(key, [x], {}, node)) for x in items]
            i = min(range(len(c)), key=lambda j: c[j]) if n == 'min' else max(range(len(c)), key=lambda j: c[j])
            r = items[i]
            return K(r.v, d) if isinstance(r, K) else r
        except NotConc:
            if all(num_kind(x) or isinstance(x, A) and x.idx.size == 1 for x in items):
                ints = all(isinstance(x, K) and isinstance(x.v, (int, np.integer)) or isinstance(x, U) and x.kind == 'int'
                           for x in items)
                return U(d, 'int' if ints else 'num')
            return U(d)
        except (TypeError, ValueError) as e:
            raise it.err(TypeError, str(e), node)
    if n in ('int', 'float', 'bool', 'complex', 'str', 'abs', 'round', 'pow', 'divmod', 'repr', 'ord', 'chr', 'hex', 'format',
             'bytes'):
        if n == 'bool' and a0 is not None:
            k = it.known_truth(a0)
            return K(k, d) if k is not None else U(d, 'bool')
        if isinstance(a0, (A, UA)) and n in ('abs', 'pow', 'round'):
            return pynp.call(it, {'abs': 'abs', 'pow': 'power', 'round': 'round'}[n], args, kw, node)
        try:
            v = [conc(x) for x in args]
            k = {x: conc(y) for x, y in kw.items()}
            v = [x.item() if isinstance(x, np.ndarray) and x.size == 1 else x for x in v]
            return wrap(it, TYPES.get(n, getattr(__import__('builtins'), n))(*v, **k), d)
        except NotConc:
            pass
        except Exception as e:
            if type(e).__name__ in REALEXC:
                raise it.err(type(e), str(e), node)
            raise
        if isinstance(a0, A) and n in ('int', 'float') and a0.idx.size > 1:
            raise it.err(TypeError, 'only length-1 arrays can be converted to Python scalars', node)
        if isinstance(a0, (Seq, Dct)) and n in ('int', 'float'):
            raise it.err(TypeError, 'must be a number', node)
        return U(d, {'int': 'int', 'ord': 'int', 'str': 'str', 'repr': 'str', 'hex': 'str', 'chr': 'str', 'format': 'str',
                     'bytes': None, 'divmod': None, 'complex': 'num', 'float': 'num'}.get(
                         n, a0.kind if isinstance(a0, U) else 'num'))
    if n == 'slice':
        p = list(args)
        if len(p) == 1:
            p = [K(None), p[0], K(None)]
        while len(p) < 3:
            p.append(K(None))
        return mkslice(it, p)
    if n == 'type':
        if len(args) == 1:
            return type_of(it, a0)
        return U(d)
    if n == 'callable':
        if isinstance(a0, (Fn, Bound, Partial, Cls)):
            return K(True)
        if isinstance(a0, X):
            return K(True)
        if isinstance(a0, (A, Seq, Dct)) or isinstance(a0, K) and not isinstance(a0.v, type):
            return K(False)
        return U(d, 'bool')
    if n == 'hasattr':
        if isinstance(args[1], K):
            if isinstance(a0, U):
                return U(d, 'bool')
            if args[1].v == '__call__':
                return builtin(it, 'callable', [a0], {}, node)
            if isinstance(a0, X):
                # the same answer wherever one run asks about an external module
                k = (a0.path, args[1].v)
                if k not in it.has:
                    it.has[k] = it.decide(node, U(d, 'bool'))
                return K(it.has[k])
            if isinstance(a0, A):
                return K(hasattr(np.ndarray, args[1].v))
            if isinstance(a0, K) and not isinstance(a0.v, type):
                return K(hasattr(a0.v, args[1].v))
            try:
                it.getattr(a0, args[1].v, node)
                return K(True) if not isinstance(a0, (Nat, X)) else U(d, 'bool')
            except PyExc as e:
                return K(False)
        return U(d, 'bool')
    if n == 'getattr':
        nm = args[1]
        if isinstance(nm, K):
            if not isinstance(nm.v, str):
                raise it.err(TypeError, 'attribute name must be string', node)
            try:
                return it.getattr(a0, nm.v, node)
            except PyExc as e:
                if len(args) > 2 and e.ev.cls is AttributeError:
                    return args[2]
                raise
        return U(d)
    if n == 'setattr':
        if isinstance(args[1], K):
            it.setattr(a0, args[1].v, args[2], node)
        return K(None)
    if n == 'id':
        it.event('identity', node, what='id')
        return U(d | frozenset(['#identity']), 'int')
    if n == 'hash':
        it.event('identity', node, what='hash')
        return U(d | (frozenset(['#identity']) if not isinstance(a0, K) or not isinstance(a0.v, (int, float)) else E0), 'int')
    if n == 'open':
        it.faultpoint(node, 'open')
        m = args[1] if len(args) > 1 else kw.get('mode', K('r'))
        it.event('file', node, path=a0, mode=getattr(m, 'v', None))
        it.sink_deps |= d
        return Nat('file', deps=d)
    if n == 'object':
        return Nat('object')
    if n == 'property':
        return Nat('property', fget=a0)
    if n.startswith('object.'):
        return K(None)
    if n == 'input':
        return U(E0, 'str')
    return U(d)


def type_of(it, v):
    if isinstance(v, K):
        return K(type(v.v))
    if isinstance(v, (A, UA)):
        return K(np.ndarray)
    if isinstance(v, Seq):
        return K({'list': list, 'tuple': tuple, 'set': set}[v.kind])
    if isinstance(v, Dct):
        return K(dict)
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, EV):
        return K(v.cls) if isinstance(v.cls, type) else v.cls
    if isinstance(v, Nat):
        if v.kind == 'raw':
            return Nat('type', module='multiprocessing.sharedctypes', name='c_array', of=v)
        if v.kind == 'cval' and v.ctype is not None:
            return K(v.ctype)
        if v.kind == 'cinst':
            return K(v.ctype)
        return Nat('type', module=v.kind, name=v.kind, of=v)
    if isinstance(v, Fn):
        return K(type(type_of))
    return U(v.deps)


STRK = {'upper': 'str', 'lower': 'str', 'format': 'str', 'join': 'str', 'encode': None, 'strip': 'str', 'replace': 'str',
        'startswith': 'bool', 'endswith': 'bool', 'split': None}


def nat_call(it, f, args, kw, node, env):
    k = f.kind
    d = dep(f, *args) | dep(*kw.values())
    if k == 'method':
        return method(it, f.obj, f.name, args, kw, node, env)
    if k == 'cfunc':
        import pyext
        return pyext.native(it, f, args, kw, node)
    if k == 'ctxfactory':
        g = it.call(f.fn, args, kw, node)
        return Nat('genctx', gen=g, deps=d)
    if k == 'cached':
        key = tuple(hkey(a) for a in args) + tuple((n, hkey(v)) for n, v in sorted(kw.items()))
        if any(x is None and not (isinstance(a, K) and a.v is None) for x, a in zip(key, args)):
            if any(isinstance(a, (A, Seq, Dct)) for a in args):
                raise it.err(TypeError, 'unhashable type', node)
            return it.call(f.fn, args, kw, node)
        if key in f.store:
            excuse(it, *args, *kw.values())
            return f.store[key]
        r = it.call(f.fn, args, kw, node)
        f.store[key] = r
        return r
    if k == 'unbound':
        return method(it, args[0], f.name, args[1:], kw, node, env)
    if k == 'lru_factory' or k == 'wraps':
        return decorate(it, f, args[0], node)
    if k == 'ntfactory':
        fields = dict(zip(f.names, args))
        fields.update(kw)
        return Nat('ntuple', fields=fields, names=f.names, deps=d)
    if k == 'type':
        if getattr(f.of, 'kind', '') == 'cinst':
            return K(0)
        return U(d)
    if k == 'staticmethod':
        return it.call(f.fn, args, kw, node)
    it.sink_deps |= d
    return U(d)


def method(it, o, n, args, kw, node, env=None):
    d = dep(o, *args) | dep(*kw.values())
    if isinstance(o, A):
        return pynp.method(it, o, n, args, kw, node)
    if isinstance(o, UA):
        if n in ('fill', 'sort', 'put', 'resize', 'itemset'):
            for r in o.roots:
                pynp.maybe_write(it, r, args[0] if args else None, node)
            return K(None)
        if n in ('max', 'min', 'sum', 'mean', 'std', 'any', 'all', 'argmax', 'argmin', 'item', 'prod', 'var'):
            return U(d, 'num') if not args and 'axis' not in kw else UA((), d)
        if n == 'copy':
            return UA((), d, o.dt)
        if n == 'astype':
            cp = kw.get('copy', K(True))
            return UA(o.roots if isinstance(cp, K) and not cp.v else (), d)
        if n == 'tolist':
            return Seq('list', [], deps=d, unk=True)
        return UA(o.roots, d)
    if isinstance(o, K):
        v = o.v
        try:
            a = [conc(x) for x in args]
            k = {x: conc(y) for x, y in kw.items()}
            return wrap(it, getattr(v, n)(*a, **k), d)
        except NotConc:
            return U(d, STRK.get(n, 'num' if isinstance(v, (int, float, np.generic)) else None))
        except Exception as e:
            if type(e).__name__ in REALEXC:
                if n == 'format':
                    return U(d, 'str')
                raise it.err(type(e), str(e), node)
            raise
    if isinstance(o, Seq):
        return seq_method(it, o, n, args, kw, node)
    if isinstance(o, Dct):
        return dict_method(it, o, n, args, kw, node)
    if isinstance(o, GenObj):
        if n == 'send':
            return o.resume(('send', args[0]))[1] or K(None)
        if n == 'close':
            return K(None)
        return U(d)
    if isinstance(o, Nat):
        import pyext
        return pyext.obj_method(it, o, n, args, kw, node)
    if isinstance(o, U):
        if o.kind == 'str':
            return U(d, STRK.get(n, None))
        it.sink_deps |= d
        it.faultpoint(node, 'method of an unknown object')
        for a in list(args) + list(kw.values()):
            havoc(it, a, node)
        return U(d, 'num' if o.kind in ('num', 'int') else None)
    it.sink_deps |= d
    return U(d)


def seq_method(it, o, n, args, kw, node):
    d = dep(*args)
    a0 = args[0] if args else None
    MUT = ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'add', 'discard', 'update')
    if n in MUT:
        mutated(it, o, node)
    if it.disorder and o.kind == 'list' and n in ('append', 'extend', 'insert'):
        o.xdeps |= ORDER
    if n == 'append':
        o.items.append(a0)
        return K(None)
    if n in ('extend', 'update'):
        items = try_items(it, a0, node)
        if items is None:
            o.unk = True
            o.xdeps |= d
        else:
            o.items += items
        return K(None)
    if n == 'add':
        h = hkey(a0)
        if h is None or all(hkey(x) != h for x in o.items):
            o.items.append(a0)
        return K(None)
    if n == 'insert':
        if isinstance(a0, K):
            o.items.insert(a0.v, args[1])
        else:
            o.unk = True
        return K(None)
    if n == 'pop':
        if o.unk:
            return U(o.deps)
        i = a0.v if isinstance(a0, K) else -1
        try:
            return o.items.pop(i)
        except IndexError:
            raise it.err(IndexError, 'pop from empty list', node)
    if n in ('remove', 'discard'):
        for i, x in enumerate(o.items):
            try:
                if conc(x) == conc(a0):
                    del o.items[i]
                    return K(None)
            except NotConc:
                if x is a0:
                    del o.items[i]
                    return K(None)
                o.unk = True
        if n == 'remove' and not o.unk:
            raise it.err(ValueError, 'list.remove(x): x not in list', node)
        return K(None)
    if n == 'clear':
        o.items.clear()
        o.unk = False
        return K(None)
    if n == 'reverse':
        o.items.reverse()
        return K(None)
    if n == 'sort':
        r = builtin(it, 'sorted', [o], kw, node)
        o.items = r.items
        o.unk = r.unk
        o.xdeps = o.xdeps - ORDER
        return K(None)
    if n == 'copy':
        return Seq(o.kind, o.items, unk=o.unk, deps=o.xdeps & ORDER)
    if n == 'index':
        for i, x in enumerate(o.items):
            try:
                if conc(x) == conc(a0):
                    return K(i, d)
            except NotConc:
                if x is a0:
                    return K(i)
                return U(o.deps, 'int')
        if o.unk:
            return U(o.deps, 'int')
        raise it.err(ValueError, 'not in list', node)
    if n == 'count':
        try:
            return K(conc(o).count(conc(a0)), d)
        except NotConc:
            return U(o.deps, 'int')
    try:
        r = getattr(conc(o), n)(*[conc(x) for x in args])
        return wrap(it, r, d)
    except NotConc:
        return U(o.deps | d)
    except Exception as e:
        raise it.err(type(e), str(e), node)


def dict_method(it, o, n, args, kw, node):
    a0 = args[0] if args else None
    if n in ('setdefault', 'pop', 'update', 'clear', 'popitem'):
        if n == 'setdefault' and hkey(a0) in o.items:
            excuse(it, a0)
            return o.items[hkey(a0)]
        if not (n == 'pop' and len(args) > 1 and hkey(a0) not in o.items):
            mutated(it, o, node)
    if n == 'get':
        h = hkey(a0)
        if h is None:
            return U(o.deps | a0.deps)
        if h in o.items:
            excuse(it, a0)
            return o.items[h]
        if o.unk:
            return U(o.deps)
        return args[1] if len(args) > 1 else kw.get('default', K(None))
    if n == 'setdefault':
        h = hkey(a0)
        v = args[1] if len(args) > 1 else K(None)
        if h is None:
            o.unk = True
            return U(o.deps)
        o.items[h] = v
        return v
    if n == 'pop':
        h = hkey(a0)
        if h in o.items and h is not None:
            return o.items.pop(h)
        if len(args) > 1:
            return args[1]
        if o.unk or h is None:
            return U(o.deps)
        raise it.err(KeyError, h, node)
    if n == 'update':
        if a0 is not None:
            if isinstance(a0, Dct):
                o.items.update(a0.items)
                o.unk = o.unk or a0.unk
            else:
                b = builtin(it, 'dict', [a0], {}, node)
                o.items.update(b.items)
                o.unk = o.unk or b.unk
        o.items.update(kw)
        return K(None)
    if n == 'clear':
        o.items.clear()
        return K(None)
    if n == 'copy':
        return Dct(o.items, unk=o.unk)
    if o.unk:
        return Seq('list', [Seq('tuple', [U(o.deps), U(o.deps)]) if n == 'items' else U(o.deps)], deps=o.deps, unk=True)
    keys = [unkey(k) for k in o.items]
    if n == 'keys':
        return Nat('view', items=keys)
    if n == 'values':
        return Nat('view', items=list(o.items.values()), deps=o.deps)
    if n == 'items':
        return Nat('view', items=[Seq('tuple', [k, v]) for k, v in zip(keys, o.items.values())], deps=o.deps)
    return U(o.deps)
