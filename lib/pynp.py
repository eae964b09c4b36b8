"""numpy for the abstract interpreter: geometry is computed by numpy itself on position arrays, contents stay abstract."""
import ctypes

import numpy as np

from pyval import *

LIMIT = 3000000


def pm():
    import pymodel
    return pymodel


# ------------------------------------------------------------------ creation
def new(it, shape, dtype, init=True, src=-1, val=None, deps=E0, layout=None, owner='fresh', shared=False):
    shape = tuple(int(s) for s in shape)
    n = 1
    for s in shape:
        if s < 0:
            raise it.err(ValueError, 'negative dimensions are not allowed')
        n *= s
    if n > LIMIT:
        raise Abort('array of %d elements' % n)
    r = Root(n, dtype, owner=owner, deps=deps, shared=shared, site=it.site())
    idx = like_layout(r, layout) if layout is not None else r.base.reshape(shape)
    if not (np.isscalar(init) and init is True):
        r.init[idx] = np.broadcast_to(init, shape)
    if not (np.isscalar(src) and src == -1):
        r.src[idx] = np.broadcast_to(src, shape)
    if val is not None:
        r.val = np.empty(n, r.dtype)
        r.val[idx] = val
    r.tag = (it.tasks[-1] if it.tasks else None)
    r.proc = it.inproc
    it.roots.append(r)
    return A(r, idx)


def from_val(it, x, deps=E0):
    x = np.asarray(x)
    if x.dtype == object:
        return UA((), deps)
    return new(it, x.shape, x.dtype, val=x, deps=deps, layout=x)


def fresh_like(it, a, dtype=None, deps=E0, src=-1, init=True):
    return new(it, a.idx.shape, dtype or a.dtype, deps=deps, src=src, init=init, layout=a.idx)


def asarr(it, v, node, dtype=None):
    """abstract array for any value (no copy for arrays)"""
    if isinstance(v, (A, UA)):
        return v
    if isinstance(v, K):
        if v.v is None:
            return UA((), v.deps)
        try:
            return from_val(it, np.asarray(v.v), v.deps)
        except Exception:
            return UA((), v.deps)
    if isinstance(v, Seq):
        if v.unk:
            return UA((), v.deps)
        try:
            x = np.array(pm().conc(v))
            if x.dtype != object:
                return from_val(it, x, v.deps)
        except NotConc:
            pass
        except ValueError as e:
            raise it.err(ValueError, str(e), node)
        its = [asarr(it, x, node) for x in v.items]
        if all(isinstance(x, A) for x in its) and its:
            if len({x.shape for x in its}) != 1:
                raise it.err(ValueError, 'setting an array element with a sequence: inhomogeneous shape', node)
            return fieldwise(it, lambda f, c: np.stack(f), its, v.deps, np.result_type(*[x.dtype for x in its]))
        return UA((), v.deps)
    if isinstance(v, U) and v.kind in ('num', 'int', 'bool'):
        return new(it, (), {'int': 'int64', 'bool': 'bool'}.get(v.kind, 'float64'), deps=v.deps, src=-2)
    if isinstance(v, Nat) and v.kind == 'iter':
        return asarr(it, Seq('list', v.items), node)
    return UA((), v.deps)


def fieldwise(it, fn, arrs, deps, dtype, padded=False):
    """apply a rearranging function to the per-element facts of several arrays"""
    src = fn([a.src() for a in arrs], -1)
    init = fn([a.init() for a in arrs], True)
    val = None
    if all(a.root.val is not None for a in arrs) and not padded:
        val = fn([a.val() for a in arrs], 0)
    return new(it, src.shape, dtype, init=np.ascontiguousarray(init).astype(bool), src=np.ascontiguousarray(src), val=val,
               deps=deps | dep(*arrs), layout=src)


def gather(it, a, pos, deps=E0, dtype=None):
    """fresh copy of the elements at positions pos of a's block"""
    r = a.root
    val = None
    if r.val is not None:
        val = r.val[pos]
        if dtype is not None:
            try:
                val = val.astype(dtype)
            except Exception:
                val = None
    o = new(it, pos.shape, dtype or r.dtype, init=r.init[pos], src=r.src[pos], val=val, deps=a.deps | deps, layout=pos)
    if r.stale is not None and r.stale[pos].any():
        o.root.stale = np.zeros(o.root.base.size, bool)
        o.root.stale[o.idx] = r.stale[pos]
        o.root.staleof = r.staleof or r
    return o


def viewop(it, a, fn, node, deps=E0):
    """fn rearranges the position array: a view when numpy gives a view, else a copy"""
    try:
        p = fn(a.idx)
    except (ValueError, TypeError, IndexError) as e:
        c = type(e) if type(e) in (ValueError, TypeError, IndexError) else ValueError
        raise it.err(c, str(e), node)
    if p is a.idx:
        return a
    if p.size == 0 or np.may_share_memory(p, a.root.base):
        return A(a.root, p, a.ddeps | deps)
    return gather(it, a, p, deps)


# ------------------------------------------------------------------ stand-ins for shape inference
def dummy(v, elementwise=False):
    m = pm()
    if isinstance(v, A):
        v.touch()
        x = v.val()
        if x is not None:
            return x
        return np.ones_like(v.idx, dtype=v.dtype)
    if isinstance(v, K):
        return v.v
    if isinstance(v, U):
        if v.kind in ('num', 'int', 'bool') and elementwise:
            return {'num': 1.0, 'int': 1, 'bool': True}[v.kind]
        raise NotConc()
    if isinstance(v, Seq):
        if v.unk:
            raise NotConc()
        l = [dummy(x, elementwise) for x in v.items]
        return tuple(l) if v.kind == 'tuple' else l
    if isinstance(v, Dct):
        return {k: dummy(x, elementwise) for k, x in v.items.items()}
    if isinstance(v, X):
        t = m.realtype(v)
        if t is not None:
            return t
        if v.path.startswith('numpy.'):
            r = np
            for p in v.path.split('.')[1:]:
                r = getattr(r, p)
            return r
    raise NotConc()


def combine_src(srcs, shape):
    r = np.full(shape, -1)
    for s, sh in srcs:
        if sh != shape:
            continue
        # -3: elements from different places meet
        apart = (r >= 0) & (s >= 0) | (r == -3) | (s == -3)
        r = np.where(r == -1, s, np.where(s == -1, r, np.where(r == s, r, np.where(apart, -3, -2))))
    return r


def broadcast_init(arrs, shape):
    r = None
    for a in arrs:
        i = a.init()
        if i.all():
            continue
        try:
            i = np.broadcast_to(i, shape)
        except ValueError:
            return False if not i.any() else True
        r = i if r is None else r & i
    return True if r is None else r


def definite(e):
    s = str(e)
    return any(w in s for w in ('broadcast', 'shape', 'mismatch', 'dimension', 'aligned', 'axis', 'axes', 'reshape',
                                'same length', 'divisible', 'equal division'))


def elementwise(it, fn, args, kw, node, name=''):
    """result of an elementwise function"""
    d = dep(*args) | dep(*kw.values())
    out = kw.pop('out', None)
    if isinstance(out, Seq) and len(out.items) == 1:
        out = out.items[0]
    if isinstance(out, K) and out.v is None:
        out = None
    where = kw.get('where')
    args = [asarr(it, a, node) if isinstance(a, Seq) else a for a in args]
    for a in args:
        if isinstance(a, K) and (a.v is None or isinstance(a.v, str)) and name not in ('clip', 'astype'):
            raise it.err(TypeError, 'unsupported operand type(s) for %s: %s' % (name, type(a.v).__name__), node)
        if isinstance(a, (Dct, Fn, Cls, Mod)):
            raise it.err(TypeError, 'unsupported operand type(s) for %s' % name, node)
    res = None
    if any(isinstance(a, UA) for a in args) or any(not isinstance(a, (A, K, U)) or isinstance(a, U) and a.kind not in
                                                   ('num', 'int', 'bool') for a in args):
        res = UA((), d)
    else:
        if all(isinstance(a, K) or isinstance(a, A) and a.root.val is not None for a in args) and out is None:
            try:
                m = pm()
                return m.wrap(it, fn(*[m.conc(a) for a in args], **{k: m.conc(v) for k, v in kw.items()}), d)
            except NotConc:
                pass
            except (TypeError, ValueError) as e:
                raise it.err(type(e) if type(e) in (TypeError, ValueError) else TypeError, str(e), node)
        try:
            k2 = {k: dummy(v, True) for k, v in kw.items()}
            r = fn(*[dummy(a, True) for a in args], **k2)
        except NotConc:
            r = None
        except ValueError as e:
            if definite(e):
                raise it.err(ValueError, str(e), node)
            r = None
        except TypeError as e:
            raise it.err(TypeError, str(e), node)
        except (IndexError, np.exceptions.AxisError) as e:
            raise it.err(IndexError, str(e), node)
        except Exception:
            r = None
        if r is None:
            res = UA((), d)
        elif isinstance(r, tuple):
            arrs = [a for a in args if isinstance(a, A)]
            return Seq('tuple', [new(it, x.shape, x.dtype, deps=d, src=combine_src([(a.src(), a.shape) for a in arrs], x.shape))
                                 if isinstance(x, np.ndarray) else U(d, 'num') for x in r])
        elif isinstance(r, np.ndarray) and (r.ndim or out is not None):
            arrs = [a for a in args if isinstance(a, A)]
            res = new(it, r.shape, r.dtype, deps=d, layout=r, src=combine_src([(a.src(), a.shape) for a in arrs], r.shape),
                      init=broadcast_init(arrs, r.shape))
        else:
            k = getattr(np.asarray(r).dtype, 'kind', 'f')
            res = U(d, 'bool' if k == 'b' else 'int' if k in 'iu' else 'num')
    if out is not None:
        if isinstance(out, A):
            if where is not None and not (isinstance(where, K) and where.v is True):
                maybe_write(it, out, res, node)
            else:
                if isinstance(res, A) and name != 'copyto':
                    if res.shape != out.shape and np.broadcast_shapes(res.shape, out.shape) != out.shape:
                        raise it.err(ValueError, 'non-broadcastable output operand with shape %s' % (out.shape,), node)
                    if not np.can_cast(res.dtype, out.dtype, 'same_kind'):
                        raise it.err(TypeError, 'Cannot cast ufunc output from %s to %s' % (res.dtype, out.dtype), node)
                store(it, out, K(Ellipsis), res, node)
        elif isinstance(out, UA):
            for r in out.roots:
                maybe_write(it, r, res, node)
        return out
    return res


def ufunc(it, name, args, kw, node):
    fn = getattr(np, name)
    return elementwise(it, fn, args, dict(kw), node, name)


def inplace(it, a, name, b, node):
    b = asarr(it, b, node) if isinstance(b, Seq) else b
    r = ufunc(it, name, [a, b], {}, node)
    if isinstance(r, A):
        if r.shape != a.shape:
            raise it.err(ValueError, 'non-broadcastable output operand with shape %s does not match the broadcast shape %s' % (
                a.shape, r.shape), node)
        if not np.can_cast(r.dtype, a.dtype, 'same_kind'):
            raise it.err(TypeError, 'Cannot cast ufunc output from %s to %s' % (r.dtype, a.dtype), node)
    store(it, a, K(Ellipsis), r, node)
    return a


# ------------------------------------------------------------------ indexing
def conv(it, i, node):
    """(python index, status): exact / shape / mask / unknown"""
    if isinstance(i, K):
        v = i.v
        if isinstance(v, (float, np.floating)):
            raise it.err(IndexError, 'only integers, slices, ellipsis, newaxis and integer or boolean arrays are valid indices',
                         node)
        if isinstance(v, str):
            raise it.err(IndexError, 'only integers, slices ... are valid indices', node)
        if isinstance(v, slice):
            for p in (v.start, v.stop, v.step):
                if isinstance(p, (float, np.floating)):
                    raise it.err(TypeError, 'slice indices must be integers or None or have an __index__ method', node)
        return v, 'exact'
    if isinstance(i, Seq):
        parts = [conv(it, x, node) for x in i.items]
        st = 'unknown' if i.unk else 'exact'
        for _, s in parts:
            if s == 'unknown' or (s == 'mask' and st != 'unknown') or (s == 'shape' and st == 'exact'):
                st = s if not (s == 'shape' and st != 'exact') else st
        l = [p for p, _ in parts]
        return (tuple(l) if i.kind == 'tuple' else l), st
    if isinstance(i, A):
        v = i.val()
        if v is not None:
            if v.dtype.kind == 'f':
                raise it.err(IndexError, 'arrays used as indices must be of integer (or boolean) type', node)
            return v, 'exact'
        if i.dtype.kind == 'b':
            return np.ones(i.shape, bool), 'mask'
        if i.dtype.kind in 'iu':
            return np.zeros(i.shape, int), 'shape'
        raise it.err(IndexError, 'arrays used as indices must be of integer (or boolean) type', node)
    if isinstance(i, U) and i.kind in ('int', 'num'):
        return 0, 'shape'
    return None, 'unknown'


def view_unknown(i):
    """index made of unknown slices / scalars only: the result is still a view"""
    if isinstance(i, Seq):
        return all(view_unknown(x) for x in i.items)
    return isinstance(i, Nat) or isinstance(i, K) or isinstance(i, U) and i.kind in ('int', 'num')


def index(it, a, i, node):
    ix, st = conv(it, i, node)
    d = i.deps
    if st == 'exact':
        try:
            r = a.idx[ix]
        except IndexError as e:
            raise it.err(IndexError, str(e), node)
        except (TypeError, ValueError) as e:
            raise it.err(type(e), str(e), node)
        if not isinstance(r, np.ndarray):
            return scalar(it, a, int(r), a.deps | d, node)
        if r.size == 0 or np.may_share_memory(r, a.root.base):
            return A(a.root, r, a.ddeps | d)
        return gather(it, a, r, d)
    if st == 'shape':
        try:
            r = a.idx[ix]
        except IndexError as e:
            if 'too many indices' in str(e) or 'broadcast' in str(e):
                raise it.err(IndexError, str(e), node)
            return UA((a.root,), a.deps | d, a.dtype)
        if not isinstance(r, np.ndarray):
            k = a.dtype.kind
            return U(a.deps | d, 'bool' if k == 'b' else 'int' if k in 'iu' else 'num')
        if np.may_share_memory(r, a.root.base):
            # unknown position: a view of the right shape somewhere in the block
            return UA((a.root,), a.deps | d, a.dtype) if a.root.owner != 'fresh' and False else UAshape(it, a, r, d)
        return new(it, r.shape, a.dtype, deps=a.deps | d, src=-2)
    if st == 'mask':
        return UA((), a.deps | d, a.dtype)
    return UA((a.root,) if view_unknown(i) else (), a.deps | d, a.dtype)


def UAshape(it, a, r, d):
    """view at an unknown position: keep the shape, treat as the one found at position 0"""
    return A(a.root, r, a.ddeps | d)


def scalar(it, a, pos, d, node):
    r = a.root
    a.touch()
    if r.val is not None:
        return K(r.val[pos], d)
    if not r.init[pos]:
        it.event('uninit-use', node, root=r)
    k = r.dtype.kind
    return U(d, 'bool' if k == 'b' else 'int' if k in 'iu' else 'num')


def mark_write(it, root, pos, d, node):
    root.tf = None
    if root.stale is not None:
        root.stale[pos] = False
    site = it.site(node)
    root.written[pos] = True
    root.deps = root.deps | d
    if site not in root.wsites:
        root.wsites[site] = 0
        it.event('write', node, root=root, owner=root.owner)
    root.wsites[site] += 1
    if it.tasks and any(l.held for l in it.locks):
        root.guarded = True
    for t in it.tasks:
        m = root.epoch.get(t)
        if m is None:
            m = root.epoch[t] = np.zeros(root.base.size, bool)
            root.line[t] = it.taskpool.get(t)
        m[pos] = True


def maybe_write(it, target, v, node):
    """a store to unknown elements of an array or block"""
    d = v.deps if v is not None else E0
    if isinstance(target, A):
        root, pos = target.root, target.idx
    else:
        root, pos = target, target.base
    mark_write(it, root, pos, d, node)
    root.init[pos] = True
    root.src[pos] = -2
    root.val = None
    root.maybe = True


def write_all(it, a, v, node, keep_src=False):
    pos = a.idx
    mark_write(it, a.root, pos, v.deps if v is not None else E0, node)
    a.root.init[pos] = True
    if not keep_src:
        a.root.src[pos] = -2
    a.root.val = None


def store(it, a, i, v, node):
    ix, st = conv(it, i, node)
    d = i.deps | v.deps
    root = a.root
    if isinstance(v, (Seq, Nat)):
        v = asarr(it, v, node)
    if isinstance(v, K) and (isinstance(v.v, str) and a.dtype.kind not in 'US' or v.v is None and a.dtype.kind != 'O'):
        raise it.err(TypeError if v.v is None else ValueError, 'cannot store %r in a %s array' % (v.v, a.dtype), node)
    if st == 'exact':
        try:
            pos = a.idx[ix]
        except IndexError as e:
            raise it.err(IndexError, str(e), node)
        except (TypeError, ValueError) as e:
            raise it.err(type(e), str(e), node)
        shape = np.shape(pos)
        vst = None
        if isinstance(v, A):
            if v.shape != shape:
                vs = v.shape
                # numpy drops leading ones of the value
                while len(vs) > len(shape) and vs[0] == 1:
                    vs = vs[1:]
                try:
                    ok = np.broadcast_shapes(vs, shape) == tuple(shape)
                except ValueError:
                    ok = False
                if not ok:
                    raise it.err(ValueError, 'could not broadcast input array from shape %s into shape %s' % (v.shape, shape), node)
                vsrc, vinit = v.root.src[v.idx].reshape(vs), v.init().reshape(vs)
                if v.root.stale is not None:
                    vst = v.root.stale[v.idx].reshape(vs)
                vval = v.val().reshape(vs) if v.root.val is not None else None
                if vs != tuple(shape):
                    vsrc = np.where(vsrc >= 0, -2, vsrc) if v.idx.size > 1 else np.full_like(vsrc, -1)
            else:
                vsrc, vinit = v.root.src[v.idx], v.init()
                vst = None if v.root.stale is None else v.root.stale[v.idx]
                vval = v.val()
        elif isinstance(v, K):
            vsrc, vinit, vval = -1, True, v.v
        elif isinstance(v, U) and v.kind in ('num', 'int', 'bool'):
            vsrc, vinit, vval = -1, True, None
        else:
            vsrc, vinit, vval = -2, True, None
        mark_write(it, root, pos, d, node)
        root.init[pos] = vinit
        root.src[pos] = vsrc
        if vst is not None and vst.any():
            if root.stale is None:
                root.stale = np.zeros(root.base.size, bool)
                root.staleof = v.root.staleof or v.root
            root.stale[pos] = vst
        if root.val is not None:
            if vval is None:
                root.val = None
            else:
                try:
                    root.val[pos] = vval
                except Exception:
                    root.val = None
        return
    if st == 'mask' and not isinstance(v, (K, U)):
        pass
    if st == 'mask' and isinstance(v, (K, U, UA, A)):
        # some elements change in place: positions keep their place
        s = root.src[a.idx]
        maybe_write(it, a, v, node)
        if not isinstance(i, Seq):
            root.src[a.idx] = s
        root.deps = root.deps | i.deps
        return
    if st == 'shape' and isinstance(i, U) and False:
        pass
    # some elements change in place: those with a place keep it
    s = root.src[a.idx]
    maybe_write(it, a, v, node)
    root.src[a.idx] = np.where(s >= 0, s, -2)
    root.deps = root.deps | i.deps


# ------------------------------------------------------------------ attributes and methods
CHUNK = frozenset(['#chunk'])


def attr(it, a, name, node):
    m = pm()
    ch = it.chunked.get(id(a)) if it.chunked else None
    if ch and name in ('shape', 'size'):
        # extents that depend on how the work is divided
        if name == 'size':
            return K(int(a.idx.size), CHUNK)
        return Seq('tuple', [K(int(s), CHUNK if i in ch[1] else E0) for i, s in enumerate(a.shape)])
    if name == 'shape':
        return Seq('tuple', [K(int(s)) for s in a.shape])
    if name == 'ndim':
        return K(a.idx.ndim)
    if name == 'size':
        return K(int(a.idx.size))
    if name == 'dtype':
        return K(a.dtype)
    if name == 'itemsize':
        return K(a.dtype.itemsize)
    if name == 'nbytes':
        return K(a.dtype.itemsize * int(a.idx.size))
    if name == 'strides':
        return Seq('tuple', [K(int(s) // 8 * a.dtype.itemsize) for s in a.idx.strides])
    if name == 'T':
        return viewop(it, a, lambda x: x.T, node)
    if name == 'flags':
        return Nat('flags', arr=a)
    if name == 'ctypes':
        return Nat('npctypes', arr=a, deps=a.deps)
    if name == 'base':
        if a.root.raw is not None:
            return a.root.raw
        if a.idx.size == a.root.base.size:
            return K(None)
        return A(a.root, a.root.base)
    if name in ('real', 'imag'):
        if a.dtype.kind == 'c':
            return gather(it, a, a.idx, dtype=np.dtype('float32' if a.dtype.itemsize == 8 else 'float64'))
        return a if name == 'real' else fresh_like(it, a, deps=a.deps)
    if name == 'flat':
        return Nat('np_flat', arr=a, deps=a.deps)
    if name == 'data':
        return Nat('npdata', arr=a)
    if not hasattr(np.ndarray, name):
        raise it.err(AttributeError, "'numpy.ndarray' object has no attribute '%s'" % name, node)
    return Nat('method', obj=a, name=name)


def getkw(args, kw, pos, name, default=None):
    if name in kw:
        return kw[name]
    if len(args) > pos:
        return args[pos]
    return default


def ints(v):
    m = pm()
    x = m.conc(v)
    if isinstance(x, np.ndarray):
        x = tuple(x.tolist()) if x.ndim else int(x)
    return x


def dtype_of(it, v, node):
    if v is None or isinstance(v, K) and v.v is None:
        return None
    m = pm()
    t = m.realtype(v)
    try:
        if t is not None:
            return np.dtype(t)
        if isinstance(v, K):
            return np.dtype(v.v)
    except TypeError as e:
        raise it.err(TypeError, str(e), node)
    raise NotConc()


def method(it, a, n, args, kw, node):
    m = pm()
    d = dep(a, *args) | dep(*kw.values())
    it.faultpoint(node, 'ndarray.' + n)
    if isinstance(a, UA):
        return m.method(it, a, n, args, kw, node)
    try:
        if n == 'reshape':
            sh = [ints(x) for x in args]
            sh = sh[0] if len(sh) == 1 else tuple(sh)
            order = m.conc(kw['order']) if 'order' in kw else 'C'
            return viewop(it, a, lambda x: x.reshape(sh, order=order), node, d - a.deps)
        if n in ('transpose', 'swapaxes', 'squeeze', 'ravel', 'diagonal'):
            p = [ints(x) for x in args]
            k = {x: ints(y) for x, y in kw.items()}
            return viewop(it, a, lambda x: getattr(x, n)(*p, **k), node)
        if n in ('flatten', 'copy'):
            p = [m.conc(x) for x in args]
            k = {x: m.conc(y) for x, y in kw.items()}
            return gather(it, a, getattr(a.idx, n)(*p, **k))
        if n == 'astype':
            dt = dtype_of(it, getkw(args, kw, 0, 'dtype'), node)
            cp = kw.get('copy', K(True))
            order = kw.get('order', K('K'))
            if isinstance(cp, K) and not cp.v and dt == a.dtype:
                o = order.v if isinstance(order, K) else 'K'
                if o == 'K' or o == 'C' and a.idx.flags.c_contiguous or o == 'A':
                    return a
            return gather(it, a, np.array(a.idx, order=order.v if isinstance(order, K) else 'K', copy=True), d, dt)
        if n == 'view':
            if not args and not kw:
                return A(a.root, a.idx, a.ddeps)
            dt = dtype_of(it, getkw(args, kw, 0, 'dtype'), node)
            if dt == a.dtype or m.realtype(args[0]) is np.ndarray:
                return A(a.root, a.idx, a.ddeps)
            if dt.itemsize == a.dtype.itemsize:
                return UA((a.root,), d, dt)
            return UA((a.root,), d, dt)
        if n in ('repeat', 'take'):
            return call(it, n, [a] + list(args), kw, node, fp=False)
    except NotConc:
        return UA((a.root,) if n not in ('copy', 'flatten') else (), d)
    if n == 'fill':
        store(it, a, K(Ellipsis), args[0], node)
        return K(None)
    if n == 'sort':
        write_all(it, a, U(d), node)
        return K(None)
    if n in ('partition', 'put', 'itemset', 'setfield', 'byteswap'):
        maybe_write(it, a, U(d), node)
        return K(None)
    if n == 'resize':
        a2 = args[0] if len(args) == 1 else Seq('tuple', args)
        try:
            sh = ints(a2)
        except NotConc:
            return K(None)
        sz = int(np.prod(sh))
        r = new(it, (sz,) if np.isscalar(sh) else sh, a.dtype, deps=d, src=-2)
        a.root, a.idx = r.root, r.idx
        return K(None)
    if n == 'tolist':
        v = a.val()
        if v is not None:
            return m.wrap(it, v.tolist(), d)
        if a.idx.ndim == 1:
            return Seq('list', [scalar(it, a, int(p), d, node) for p in a.idx])
        if a.idx.ndim == 0:
            return scalar(it, a, int(a.idx), d, node)
        return Seq('list', [method(it, A(a.root, a.idx[i], a.ddeps), 'tolist', [], {}, node) for i in range(a.shape[0])])
    if n == 'item':
        if a.idx.size == 1 and not args:
            return scalar(it, a, int(a.idx.reshape(-1)[0]), d, node)
        if not args:
            raise it.err(ValueError, 'can only convert an array of size 1 to a Python scalar', node)
        return U(d, 'num')
    if n in ('clip', 'round', 'conj', 'conjugate'):
        return call(it, n if n != 'conjugate' else 'conj', [a] + list(args), kw, node, fp=False)
    if n == '__array__':
        return a
    if n in ('tofile', 'dump', 'tobytes', 'dumps'):
        it.sink_deps |= d
        return U(d)
    if n in ('__len__',):
        return K(a.shape[0])
    if n in ('min', 'max', 'sum', 'mean', 'std', 'any', 'all', 'argmax', 'argmin', 'argsort', 'cumsum', 'prod', 'var', 'dot',
             'searchsorted', 'nonzero', 'ptp', 'trace', 'cumprod', 'compress', 'choose'):
        return call(it, n, [a] + list(args), kw, node, fp=False)
    return UA((a.root,), d)


CREATE_LIKE = {'zeros_like': 'zeros', 'ones_like': 'ones', 'empty_like': 'empty', 'full_like': 'full'}


def create(it, name, args, kw, node):
    m = pm()
    d = dep(*args) | dep(*kw.values())
    fill = None
    try:
        shape = ints(getkw(args, kw, 0, 'shape'))
        if isinstance(shape, (float, np.floating)) or isinstance(shape, (tuple, list)) and any(
                isinstance(s, (float, np.floating)) for s in shape):
            raise it.err(TypeError, "'float' object cannot be interpreted as an integer", node)
        if name == 'full':
            fill = getkw(args, kw, 1, 'fill_value')
            dt = getkw(args, kw, 2, 'dtype')
        else:
            dt = getkw(args, kw, 1, 'dtype')
        dt = dtype_of(it, dt, node)
    except NotConc:
        return UA((), d)
    order = kw.get('order')
    order = order.v if isinstance(order, K) else 'C'
    if np.isscalar(shape):
        shape = (int(shape),)
    shape = tuple(int(s) for s in shape)
    if dt is None:
        dt = np.dtype('float64')
        if name == 'full' and isinstance(fill, K):
            dt = np.asarray(fill.v).dtype
    n = int(np.prod(shape)) if shape else 1
    if n > LIMIT:
        raise Abort('array of %d elements' % n)
    lay = np.empty(shape, order='F') if order == 'F' else None
    val = None
    if n <= 20000 and name != 'empty':
        if name == 'full':
            if isinstance(fill, K):
                val = np.full(shape, fill.v, dt)
        else:
            val = np.full(shape, 0 if name == 'zeros' else 1, dt)
    return new(it, shape, dt, init=name != 'empty', val=val, deps=dep(*args[1:]) | dep(*[v for k, v in kw.items() if k != 'shape'])
               | (args[0].deps if args else E0), layout=lay)


REARRANGE = {'concatenate', 'stack', 'vstack', 'hstack', 'dstack', 'column_stack', 'row_stack'}
VIEWF = {'swapaxes', 'transpose', 'reshape', 'squeeze', 'expand_dims', 'ravel', 'moveaxis', 'rollaxis', 'flipud', 'fliplr',
         'flip', 'rot90', 'broadcast_to', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'diagonal'}
ELEMENTWISE = {'clip', 'where', 'abs', 'absolute', 'around', 'round', 'nan_to_num', 'isclose', 'real_if_close', 'angle', 'conj',
               'fix', 'sinc', 'i0', 'unwrap', 'isreal', 'iscomplex', 'heaviside'}
SHAPEVAL = {'nonzero', 'argwhere', 'flatnonzero', 'unique', 'extract', 'trim_zeros', 'setdiff1d', 'intersect1d', 'union1d',
            'compress', 'delete', 'histogram_bin_edges'}
SAMESHAPE_SRC = {'fft.fft', 'fft.ifft', 'fft.fft2', 'fft.ifft2', 'fft.fftn', 'fft.ifftn'}


def resolve(name):
    r = np
    for p in name.split('.'):
        r = getattr(r, p, None)
        if r is None:
            return None
    return r


def call(it, name, args, kw, node, fp=True):
    m = pm()
    if fp:
        it.faultpoint(node, 'numpy.' + name)
    d = dep(*args) | dep(*kw.values())
    a0 = args[0] if args else None
    fn = resolve(name)
    kw = dict(kw)
    if name in ('zeros', 'ones', 'empty', 'full', 'ndarray'):
        return create(it, 'empty' if name == 'ndarray' else name, args, kw, node)
    if name in CREATE_LIKE:
        a = asarr(it, a0 if a0 is not None else kw.pop('a', kw.pop('prototype', None)), node)
        if isinstance(a, UA):
            return UA((), d, a.dt)
        try:
            p = 1
            fill = None
            if name == 'full_like':
                fill = getkw(args, kw, 1, 'fill_value')
                p = 2
            dt = dtype_of(it, getkw(args, kw, p, 'dtype'), node) or a.dtype
            k2 = {}
            for q, nm in ((p + 1, 'order'), (p + 3, 'shape')):
                v = getkw(args, kw, q, nm)
                if v is not None:
                    k2[nm] = ints(v)
            lay = np.empty_like(a.idx, **k2)
        except NotConc:
            return UA((), d)
        val = None
        if name != 'empty_like' and lay.size <= 20000:
            if name == 'full_like':
                if isinstance(fill, K):
                    val = np.full(lay.shape, fill.v, dt)
            else:
                val = np.full(lay.shape, 0 if name == 'zeros_like' else 1, dt)
        return new(it, lay.shape, dt, init=name != 'empty_like', val=val, layout=lay,
                   deps=dep(*args[1:]) | dep(*kw.values()))
    if name in ('array', 'asarray', 'ascontiguousarray', 'asfortranarray', 'asanyarray', 'require', 'copy'):
        return convert(it, name, args, kw, node)
    if name in VIEWF:
        a = asarr(it, a0 if a0 is not None else kw.pop('a', kw.pop('m', U())), node)
        if isinstance(a, UA):
            return UA(a.roots, d, a.dt)
        try:
            p = [ints(x) for x in args[1:]]
            k = {x: ints(y) for x, y in kw.items()}
        except NotConc:
            return UA((a.root,), d)
        return viewop(it, a, lambda x: fn(x, *p, **k), node)
    if name in ('split', 'array_split', 'hsplit', 'vsplit'):
        a = asarr(it, a0, node)
        try:
            p = [ints(x) for x in args[1:]]
            k = {x: ints(y) for x, y in kw.items()}
            if isinstance(a, UA):
                raise NotConc()
            return Seq('list', [A(a.root, x, a.ddeps) for x in fn(a.idx, *p, **k)])
        except NotConc:
            return Seq('list', [UA(getattr(a, 'roots', ()) or (a.root,), d)], unk=True)
        except ValueError as e:
            raise it.err(ValueError, str(e), node)
    if name in REARRANGE:
        out = kw.pop('out', None)
        items = m.try_items(it, a0, node)
        if items is None:
            return UA((), d)
        arrs = [asarr(it, x, node) for x in items]
        if any(isinstance(x, UA) for x in arrs):
            r = UA((), d)
        else:
            try:
                p = [ints(x) for x in args[1:]]
                k = {x: ints(y) for x, y in kw.items() if x == 'axis'}
                r = fieldwise(it, lambda f, c: fn(f, *p, **k), arrs, d, np.result_type(*[x.dtype for x in arrs]))
            except NotConc:
                r = UA((), d)
            except ValueError as e:
                raise it.err(ValueError, str(e), node)
            except np.exceptions.AxisError as e:
                raise it.err(ValueError, str(e), node)
        if out is not None and isinstance(out, A):
            store(it, out, K(Ellipsis), r, node)
            return out
        return r
    if name in ('tile', 'repeat', 'roll', 'take', 'resize', 'append'):
        a = asarr(it, a0, node)
        if isinstance(a, UA):
            return UA((), d)
        try:
            if name == 'append':
                b = asarr(it, args[1], node)
                if isinstance(b, UA):
                    raise NotConc()
                k = {x: ints(y) for x, y in kw.items()}
                p = [ints(x) for x in args[2:]]
                return fieldwise(it, lambda f, c: np.append(f[0], f[1], *p, **k), [a, b], d, np.result_type(a.dtype, b.dtype))
            p = [ints(x) for x in args[1:]]
            k = {x: ints(y) for x, y in kw.items()}
            return fieldwise(it, lambda f, c: fn(f[0], *p, **k), [a], d, a.dtype)
        except NotConc:
            if name == 'roll':
                return fresh_like(it, a, deps=d, src=-2)
            return UA((), d)
        except (ValueError, TypeError, IndexError) as e:
            raise it.err(ValueError, str(e), node)
    if name == 'pad':
        return do_pad(it, args, kw, node, d)
    if name in ('copyto', 'place', 'putmask', 'put', 'fill_diagonal'):
        dst = a0
        src = args[1] if len(args) > 1 else kw.get('src', U())
        if isinstance(dst, A):
            w = getkw(args, kw, 3, 'where')
            if name == 'copyto' and w is None:
                s = asarr(it, src, node) if isinstance(src, Seq) else src
                store(it, dst, K(Ellipsis), s, node)
            else:
                s = dst.src()
                maybe_write(it, dst, U(d), node)
                dst.root.src[dst.idx] = s
        elif isinstance(dst, UA):
            for r in dst.roots:
                maybe_write(it, r, src, node)
        return K(None)
    if name in ('may_share_memory', 'shares_memory'):
        x, y = args[0], args[1]
        if isinstance(x, A) and isinstance(y, A):
            if x.root is not y.root:
                return K(False)
            if name == 'may_share_memory':
                return K(bool(np.may_share_memory(x.idx, y.idx)))
            return K(bool(np.isin(x.idx, y.idx).any()))
        return U(d, 'bool')
    if name == 'frombuffer':
        dt = np.dtype('float64')
        try:
            t = dtype_of(it, getkw(args, kw, 1, 'dtype'), node)
            dt = t or dt
        except NotConc:
            return UA((), d)
        if isinstance(a0, Nat) and a0.kind == 'raw':
            r = a0.root
            if r.dtype == dt:
                return A(r, r.base)
            it.event('reinterpret', node, root=r, dtype=dt)
            if r.dtype.itemsize == dt.itemsize:
                return UA((r,), d, dt)
            return UA((r,), d, dt)
        if isinstance(a0, K) and a0.v is None:
            raise it.err(TypeError, 'a bytes-like object is required', node)
        if isinstance(a0, A) and a0.dtype == dt:
            return A(a0.root, a0.idx.reshape(-1))
        return UA((), d, dt)
    if name == 'ctypeslib.as_ctypes':
        if isinstance(a0, A):
            return Nat('ctypesarr', arr=a0)
        return U(d)
    if name in ('ctypeslib.as_ctypes_type',):
        try:
            return K(np.ctypeslib.as_ctypes_type(dtype_of(it, a0, node)))
        except Exception:
            return U(d)
    if name == 'ctypeslib.as_array':
        if isinstance(a0, Nat) and a0.kind == 'raw':
            return A(a0.root, a0.root.base)
        if isinstance(a0, Nat) and a0.kind in ('ctypesarr', 'cptr'):
            return a0.arr
        return UA((), d)
    if name in ('shape', 'ndim', 'size'):
        a = asarr(it, a0, node) if not isinstance(a0, (A, UA)) else a0
        if isinstance(a, UA):
            return U(d, None if name == 'shape' else 'int')
        if name == 'size' and (len(args) > 1 or 'axis' in kw):
            ax = getkw(args, kw, 1, 'axis')
            if isinstance(ax, K):
                try:
                    return K(a.shape[ax.v])
                except IndexError:
                    raise it.err(IndexError, 'tuple index out of range', node)
            return U(d, 'int')
        return attr(it, a, name, node)
    if name in ('real', 'imag'):
        a = asarr(it, a0, node)
        return attr(it, a, name, node) if isinstance(a, A) else UA(a.roots, d)
    if name == 'where' and len(args) == 1 and not kw or name == 'nonzero':
        a = asarr(it, a0, node)
        if isinstance(a, A) and a.root.val is not None:
            return m.wrap(it, np.nonzero(a.val()), d)
        n = a.idx.ndim if isinstance(a, A) else None
        if n is None:
            return Seq('tuple', [UA((), d)], unk=True)
        return Seq('tuple', [UA((), d, np.dtype('int64')) for _ in range(n)])
    if name in ('apply_along_axis',):
        return along(it, args, kw, node, d)
    if name == 'vectorize':
        return Nat('vectorize', fn=a0, deps=d)
    if name in ('errstate', 'printoptions'):
        return Nat('nullctx')
    if name in ('seterr', 'set_printoptions'):
        it.event('ext-setattr', node, path='numpy.' + name)
        return Dct(unk=True)
    if name in ('save', 'savetxt', 'savez'):
        it.sink_deps |= d
        it.event('file', node, path=a0, mode='w')
        return K(None)
    if name in ('load', 'loadtxt', 'genfromtxt', 'fromfile'):
        it.event('file', node, path=a0, mode='r')
        return UA((), d)
    if name in ('iterable',):
        return U(d, 'bool') if not isinstance(a0, (A, Seq, Dct)) else K(True)
    if name in ('isscalar',):
        if isinstance(a0, K):
            return K(np.isscalar(a0.v))
        if isinstance(a0, (A, UA, Seq)):
            return K(False)
        return K(True) if isinstance(a0, U) and a0.kind else U(d, 'bool')
    if name in ('s_', 'dtype'):
        try:
            return K(dtype_of(it, a0, node))
        except NotConc:
            return U(d)
    if name in ('add.outer', 'multiply.outer', 'subtract.outer'):
        pass
    if name == 'nditer' or name == 'ndindex' or name == 'ndenumerate':
        try:
            if name == 'ndindex':
                return Seq('list', [Seq('tuple', [K(i) for i in t]) for t in np.ndindex(*[ints(x) for x in args])])
        except NotConc:
            pass
        return U(d)
    if fn is None:
        raise it.err(AttributeError, "module 'numpy' has no attribute '%s'" % name, node)
    if isinstance(fn, np.ufunc) or name in ELEMENTWISE:
        a = list(args)
        if name == 'clip':
            nm = ['a', 'a_min', 'a_max', 'out']
            bound = dict(zip(nm, a))
            for k in list(kw):
                if k in ('min', 'a_min'):
                    bound['a_min'] = kw.pop(k)
                elif k in ('max', 'a_max'):
                    bound['a_max'] = kw.pop(k)
                elif k in ('a', 'out'):
                    bound[k] = kw.pop(k)
            if 'out' in bound:
                kw['out'] = bound.pop('out')
            a = [bound.get(x, K(None)) for x in nm[:3]]
        elif isinstance(fn, np.ufunc) and len(a) > fn.nin:
            kw['out'] = a[fn.nin]
            a = a[:fn.nin]
        elif name in ('around', 'round') and len(a) > 2:
            kw['out'] = a[2]
            a = a[:2]
        if name == 'nan_to_num':
            cp = kw.get('copy', a[1] if len(a) > 1 else K(True))
            if isinstance(cp, K) and not cp.v and isinstance(a[0], A):
                s = a[0].src()
                maybe_write(it, a[0], U(d), node)
                a[0].root.src[a[0].idx] = s
                return a[0]
        if name in ('abs', 'absolute') and isinstance(a[0], Seq):
            a[0] = asarr(it, a[0], node)
        return elementwise(it, fn, a, kw, node, name)
    return generic(it, name, fn, args, kw, node, d)


AXPOS = {'percentile': 2, 'quantile': 2, 'nanpercentile': 2, 'nanquantile': 2, 'linalg.norm': 2, 'diff': 2, 'trapz': 3}
MIXLAST = {'sort', 'argsort', 'partition', 'diff', 'trapz', 'gradient'}
MIXALL = {'mean', 'sum', 'max', 'min', 'amax', 'amin', 'median', 'std', 'var', 'average', 'prod', 'nanmean', 'nanmedian', 'nanmax',
          'nanmin', 'nansum', 'nanstd', 'nanvar', 'ptp', 'argmax', 'argmin', 'cumsum', 'cumprod', 'percentile', 'quantile',
          'nanpercentile', 'nanquantile', 'linalg.norm', 'histogram', 'any', 'all'}


def mixed(it, name, args, kw, node):
    """label of an operation in which elements of the first argument along some axes influence each other"""
    a = args[0] if args else kw.get('a', kw.get('arr', kw.get('input')))
    if not isinstance(a, A) or not a.idx.ndim:
        return E0
    nd = a.idx.ndim
    if name.startswith('fft.') and 'shift' not in name and 'freq' not in name:
        it.parallel = True
        two = name.endswith('2') or name.endswith('n')
        ax = getkw(args, kw, 2, 'axes' if two else 'axis')
        dflt = tuple(range(nd)) if name.endswith('n') else (-2, -1) if two else (-1,)
    elif name in MIXALL or name in MIXLAST:
        ax = getkw(args, kw, AXPOS.get(name, 1), 'axis')
        dflt = tuple(range(nd)) if name in MIXALL else (-1,)
    else:
        return E0
    if ax is None or isinstance(ax, K) and ax.v is None:
        ax = dflt
    else:
        try:
            ax = ints(ax)
        except NotConc:
            return note_mix(it, a, None, node)
    ax = (ax,) if np.isscalar(ax) else tuple(ax)
    if not all(isinstance(x, (int, np.integer)) for x in ax):
        ax = None
    return note_mix(it, a, ax, node)


def note_mix(it, a, axes, node):
    site = it.site(node)
    lab = '#mix:%s:%s:%d' % (site[0], site[1], site[2])
    nd = a.idx.ndim
    s = a.src()
    if axes is None or any(not -nd <= x < nd for x in axes) or (s == -2).any() or s.size > 60000:
        it.mixes[lab] = None
        return frozenset([lab])
    if it.mixes.get(lab, ()) is None:
        return frozenset([lab])
    axes = sorted(set(x % nd for x in axes))
    rest = [i for i in range(nd) if i not in axes]
    t = np.transpose(s, rest + axes).reshape(int(np.prod([s.shape[i] for i in rest], dtype=int)), -1)
    g = it.mixes.setdefault(lab, set())
    if t.shape[1] > 1 and len(g) < 20000:
        for row in t:
            f = frozenset(row[row >= 0].tolist())
            if len(f) > 1:
                g.add(f)
    return frozenset([lab])


def generic(it, name, fn, args, kw, node, d):
    m = pm()
    if it.mixes is not None:
        d = d | mixed(it, name, args, kw, node)
    out = kw.pop('out', None)
    if isinstance(out, K) and out.v is None:
        out = None
    res = None
    try:
        a = [m.conc(x) for x in args]
        k = {n: m.conc(x) for n, x in kw.items()}
        if out is None and not name.startswith('random'):
            r = fn(*a, **k)
            return m.wrap(it, r, d)
    except NotConc:
        pass
    except Exception as e:
        if isinstance(e, (ValueError, TypeError, IndexError, ZeroDivisionError)):
            c = ValueError if isinstance(e, ValueError) else TypeError if isinstance(e, TypeError) else IndexError
            raise it.err(c, str(e), node)
        return U(d)
    for x in list(args) + list(kw.values()):
        if isinstance(x, A) and x.root.val is None and x.idx.size and not x.init().any():
            it.event('uninit-use', node, root=x.root)
    if name in SHAPEVAL:
        return UA((), d)
    try:
        r = fn(*[dummy(x) for x in args], **{n: dummy(x) for n, x in kw.items()})
    except NotConc:
        res = U(d) if not any(isinstance(x, (A, UA, Seq)) for x in args) else UA((), d)
        if res.__class__ is UA and name in ('mean', 'sum', 'max', 'min', 'amax', 'amin', 'std', 'median', 'var') and \
                len(args) == 1 and not kw:
            res = U(d, 'num')
        r = None
    except TypeError as e:
        if 'unexpected keyword' in str(e) or 'positional argument' in str(e):
            raise it.err(TypeError, str(e), node)
        return UA((), d)
    except ValueError as e:
        if definite(e):
            raise it.err(ValueError, str(e), node)
        return UA((), d)
    except (IndexError,) as e:
        raise it.err(IndexError, str(e), node)
    except Exception:
        return UA((), d)
    if res is None:
        arrs = [x for x in list(args) + list(kw.values()) if isinstance(x, A)]
        src = -1 if arrs and all((x.src() == -1).all() for x in arrs) and not any(isinstance(x, (UA, U, Seq)) for x in args) else -2
        if name in SAMESHAPE_SRC or name in ('cumsum', 'gradient'):
            x = args[0]
            if isinstance(x, A) and isinstance(r, np.ndarray) and r.shape == x.shape:
                src = x.src()
        res = wrap_shape(it, r, d, src)
    if out is not None:
        if isinstance(out, A):
            store(it, out, K(Ellipsis), res, node)
        elif isinstance(out, UA):
            for r in out.roots:
                maybe_write(it, r, res, node)
        return out
    return res


def wrap_shape(it, r, d, src=-2):
    if isinstance(r, np.ndarray) and r.ndim:
        if r.dtype == object:
            return UA((), d)
        return new(it, r.shape, r.dtype, deps=d, layout=r, src=src)
    if isinstance(r, tuple):
        return Seq('tuple', [wrap_shape(it, x, d) for x in r])
    if isinstance(r, list):
        return Seq('list', [wrap_shape(it, x, d) for x in r])
    if isinstance(r, (bool, np.bool_)):
        return U(d, 'bool')
    if isinstance(r, (int, np.integer)):
        return U(d, 'int')
    if isinstance(r, (float, complex, np.generic, np.ndarray)):
        return U(d, 'num')
    return U(d)


def convert(it, name, args, kw, node):
    m = pm()
    d = dep(*args) | dep(*kw.values())
    a0 = args[0] if args else kw.get('a', kw.get('object', kw.get('obj')))
    try:
        dt = dtype_of(it, getkw(args, kw, 1, 'dtype'), node) if name != 'copy' else None
    except NotConc:
        return UA((), d)
    was = a0
    a = asarr(it, a0, node)
    if isinstance(a, UA):
        cp = name in ('array', 'copy') and not (isinstance(kw.get('copy'), K) and not kw['copy'].v)
        return UA(() if cp else a.roots, d, dt or a.dt)
    order = kw.get('order')
    order = order.v if isinstance(order, K) else None
    copy = False
    if name == 'array':
        c = kw.get('copy', K(True))
        copy = not (isinstance(c, K) and not c.v)
        order = order or 'K'
        nd = kw.get('ndmin')
        if isinstance(nd, K) and nd.v > a.idx.ndim:
            a = A(a.root, np.array(a.idx, copy=False, ndmin=nd.v), a.ddeps)
    elif name == 'copy':
        copy = True
        order = order or 'K'
    elif name == 'ascontiguousarray':
        order = 'C'
    elif name == 'asfortranarray':
        order = 'F'
    elif name == 'require':
        req = getkw(args, kw, 2, 'requirements')
        flags = set()
        if req is not None and isinstance(req, K) and isinstance(req.v, str):
            flags = set(req.v.upper()) if not req.v.upper() in ('C_CONTIGUOUS', 'CONTIGUOUS') else {'C'}
        elif isinstance(req, Seq):
            for x in req.items:
                if isinstance(x, K):
                    flags.add({'C_CONTIGUOUS': 'C', 'CONTIGUOUS': 'C', 'F_CONTIGUOUS': 'F', 'ALIGNED': 'A', 'WRITEABLE': 'W',
                               'OWNDATA': 'O'}.get(str(x.v).upper(), str(x.v).upper()))
        order = 'C' if 'C' in flags else 'F' if 'F' in flags else None
        if 'O' in flags and (a.idx.size != a.root.base.size or a.root.raw is not None):
            copy = True
    if not copy and (dt is None or dt == a.dtype):
        x = a.idx
        if order in (None, 'K', 'A') or (order == 'C' and x.flags.c_contiguous) or (order == 'F' and x.flags.f_contiguous):
            if name == 'ascontiguousarray' and x.ndim == 0:
                return A(a.root, x.reshape(1), a.ddeps)
            return a
    return gather(it, a, np.array(a.idx, order=order or 'K', copy=True), dep(*args[1:]) | dep(*kw.values()), dt)


def do_pad(it, args, kw, node, d):
    m = pm()
    a = asarr(it, args[0], node)
    if isinstance(a, UA):
        return UA((), d)
    try:
        pw = m.conc(getkw(args, kw, 1, 'pad_width'))
        mode = getkw(args, kw, 2, 'mode')
        mode = m.conc(mode) if mode is not None else 'constant'
    except NotConc:
        return UA((), d)
    pw = np.asarray(pw)
    if pw.dtype.kind == 'f':
        raise it.err(TypeError, '`pad_width` must be of integral type.', node)
    smode = mode if mode in ('edge', 'reflect', 'symmetric', 'wrap') else 'constant'
    if not isinstance(mode, str):
        smode = 'constant'
    elif mode not in ('constant', 'edge', 'reflect', 'symmetric', 'wrap', 'linear_ramp', 'maximum', 'mean', 'median', 'minimum',
                      'empty'):
        raise it.err(ValueError, "mode '%s' is not supported" % mode, node)

    def f(x, c):
        if smode == 'constant':
            return np.pad(x[0], pw, mode='constant', constant_values=c)
        return np.pad(x[0], pw, mode=smode)
    try:
        return fieldwise(it, f, [a], d, a.dtype, padded=True)
    except ValueError as e:
        raise it.err(ValueError, str(e), node)


def along(it, args, kw, node, d):
    fn, ax, arr = args[0], args[1], args[2]
    if not (isinstance(arr, A) and isinstance(ax, K)):
        it.m.havoc(it, arr, node)
        return UA((), d)
    ix = [0] * arr.idx.ndim
    try:
        ix[ax.v] = slice(None)
    except IndexError:
        raise it.err(ValueError, 'axis out of bounds', node)
    row = gather(it, arr, arr.idx[tuple(ix)])
    r = it.call(fn, [row] + list(args[3:]), kw, node)
    if isinstance(r, A):
        sh = list(arr.shape)
        sh[ax.v:ax.v + 1 if ax.v != -1 else None] = list(r.shape)
        if tuple(sh) == arr.shape:
            return new(it, sh, r.dtype, deps=d | r.deps, src=arr.src())
        return new(it, sh, r.dtype, deps=d | r.deps, src=-2)
    if isinstance(r, (K, U)):
        sh = list(arr.shape)
        del sh[ax.v]
        return new(it, sh, 'float64', deps=d | r.deps, src=-2)
    return UA((), d)
