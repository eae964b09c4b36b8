"""Library models other than numpy: numexpr, scipy, concurrency, ctypes, native libraries, process state."""
import ast
import ctypes
import math

import numpy as np

from pyval import *
from pyabs import GenObj
import pynp
from pynp import UA, A


def pm():
    import pymodel
    return pymodel


IGNORED = ('logging.', 'warnings.', 'timemory.', 'sys.stdout', 'sys.stderr', 'traceback.')
CLOCK = ('time.', 'datetime.', 'timeit.')
SAME = {'gaussian_filter', 'median_filter', 'uniform_filter', 'sobel', 'prewitt', 'laplace', 'gaussian_laplace',
        'gaussian_gradient_magnitude', 'gaussian_filter1d', 'uniform_filter1d', 'maximum_filter', 'minimum_filter', 'rank_filter',
        'percentile_filter', 'generic_filter', 'convolve', 'correlate', 'convolve1d', 'correlate1d', 'grey_dilation',
        'grey_erosion', 'grey_opening', 'grey_closing', 'binary_dilation', 'binary_erosion', 'binary_opening', 'binary_closing',
        'shift', 'spline_filter', 'median', 'medfilt', 'medfilt2d', 'wiener', 'savgol_filter', 'detrend', 'binary_fill_holes'}
OUTPOS = {'gaussian_filter': 3, 'median_filter': 3, 'uniform_filter': 2, 'sobel': 2, 'prewitt': 2, 'laplace': 1,
          'maximum_filter': 3, 'minimum_filter': 3, 'gaussian_filter1d': 4, 'uniform_filter1d': 3, 'convolve': 2,
          'correlate': 2, 'shift': 2, 'rank_filter': 4, 'percentile_filter': 4, 'generic_filter': 4, 'spline_filter': 2}
FILTERLEN = {'haar': 2, 'db': 2, 'sym': 2, 'coif': 6}


def call(it, path, args, kw, node, env):
    m = pm()
    d = dep(*args) | dep(*kw.values())
    a0 = args[0] if args else None
    top = path.split('.')[0]
    if path.startswith(IGNORED):
        if path == 'logging.getLogger':
            return Nat('logger')
        if path == 'warnings.catch_warnings':
            return Nat('nullctx')
        if path in ('warnings.simplefilter', 'warnings.filterwarnings'):
            return K(None)
        return K(None) if path.startswith(('warnings.', 'logging.')) else U(d)
    if path.startswith(CLOCK):
        if not path.startswith('time.sleep'):
            it.event('clock', node, path=path)
        return U(frozenset(['#clock']), 'num')
    last = path.rsplit('.', 1)[-1]
    if top in ('os', 'posixpath', 'pathlib', 'shutil', 'tempfile', 'sys', 'platform', 'socket', 'uuid', 'secrets', 'glob'):
        return os_call(it, path, args, kw, node, d)
    if top == 'numexpr':
        if last == 'evaluate':
            return numexpr(it, args, kw, node, env)
        if last == 'set_num_threads':
            old = it.ne_threads
            it.sink_deps |= d
            it.event('ne-threads', node, value=a0)
            if isinstance(a0, K):
                if a0.v is None or isinstance(a0.v, (float, str)):
                    raise it.err(TypeError, 'an integer is required', node)
                if a0.v < 1:
                    raise it.err(ValueError, 'The number of threads must be greater than 0', node)
            it.ne_threads = it.ne_init if (a0 is it.ne_init) else a0
            return old
        if last in ('detect_number_of_cores', 'detect_number_of_threads'):
            return K(it.cpu)
        return U(d)
    if top in ('concurrent', 'multiprocessing', 'threading', 'queue', '_thread'):
        return conc_call(it, path, last, args, kw, node, d)
    if top == 'ctypes':
        return ctypes_call(it, path, last, args, kw, node, d)
    if top == 'copy':
        if last == 'copy':
            return shallow(it, a0, node)
        if last == 'deepcopy':
            return deep(it, a0, {})
    if top == 'functools':
        if last == 'partial':
            return Partial(a0, args[1:], kw)
        if last == 'reduce':
            items = m.try_items(it, args[1], node)
            if items is None:
                return U(d)
            r = args[2] if len(args) > 2 else None
            for x in items:
                r = x if r is None else it.call(a0, [r, x], {}, node)
            return r if r is not None else U(d)
        if last in ('lru_cache', 'cache'):
            if args and isinstance(a0, Fn):
                return Nat('cached', fn=a0, store={})
            return Nat('lru_factory')
        if last == 'wraps':
            return Nat('wraps')
        return U(d)
    if top == 'contextlib':
        if last == 'closing':
            return Nat('closing', obj=a0, deps=d)
        if last == 'suppress':
            return Nat('suppress', types=list(args))
        if last == 'nullcontext':
            return Nat('nullctx', obj=a0)
        if last == 'ExitStack':
            return Nat('exitstack', cbs=[])
        if last == 'contextmanager':
            return Nat('ctxfactory', fn=a0)
        return U(d)
    if path in ('unittest.mock.patch.dict', 'mock.patch.dict'):
        if isinstance(a0, Nat) and a0.kind == 'environ':
            v = args[1] if len(args) > 1 else kw.get('values', Dct())
            return Nat('envpatch', values=dict(v.items) if isinstance(v, Dct) else {})
    if top == 'itertools':
        return itertools_call(it, last, args, kw, node, d)
    if top == 'collections':
        if last == 'namedtuple':
            n = args[1]
            try:
                names = m.conc(n)
                names = names.replace(',', ' ').split() if isinstance(names, str) else list(names)
                return Nat('ntfactory', names=names)
            except NotConc:
                return U(d)
        if last in ('OrderedDict', 'defaultdict', 'Counter'):
            r = m.builtin(it, 'dict', [x for x in args if not isinstance(x, (X, Fn, K))], kw, node)
            if last == 'defaultdict':
                r.unk = True
            return r
        if last == 'deque':
            return Seq('list', m.try_items(it, a0, node) or [] if a0 is not None else [])
        return U(d)
    if top == 'operator':
        if last in ('itemgetter', 'attrgetter'):
            return U(d)
        op = {'add': ast.Add, 'sub': ast.Sub, 'mul': ast.Mult, 'truediv': ast.Div, 'floordiv': ast.FloorDiv}.get(last)
        if op:
            return m.binop(it, args[0], op(), args[1], node)
        return U(d)
    if path in ('random.Random', 'random.SystemRandom'):
        return m.rng(it, path, args, kw, node)
    if top in ('random', 'secrets'):
        it.event('random', node, path=path)
        return U(d | frozenset(['#random']), 'num')
    if top == 'importlib':
        if last == 'import_module' and isinstance(a0, K):
            if a0.v.startswith('tomopy'):
                return it.load(a0.v)
            m.check_import(it, a0.v, node)
            return X(a0.v)
        return U(d)
    if top == 'scipy':
        r = scipy_call(it, path, last, args, kw, node, d)
        if r is not None:
            return r
    if top == 'pywt':
        r = wavelet(it, last, args, kw, node, d)
        if r is not None:
            return r
    if top == 'skimage':
        it.faultpoint(node, path)
        if last == 'warp' and isinstance(a0, A) and 'output_shape' not in kw:
            return pynp.fresh_like(it, a0, np.dtype('float64'), d, src=-2)
        if last == 'rotate' and isinstance(a0, A):
            return pynp.fresh_like(it, a0, np.dtype('float64'), d, src=-2)
        if last == 'resize' and isinstance(a0, A) and len(args) > 1:
            try:
                return pynp.new(it, tuple(int(x) for x in m.conc(args[1])), np.dtype('float64'), deps=d, src=-2)
            except (NotConc, TypeError):
                return UA((), d)
    if top in ('tifffile', 'PIL', 'pylab', 'matplotlib', 'imageio', 'dxchange', 'h5py'):
        it.faultpoint(node, path)
        it.sink_deps |= d
        it.event('file', node, path=a0, mode='w' if last in ('imsave', 'imwrite', 'save') else 'r')
        return UA((), d) if last in ('imread',) else U(d)
    if path == 'json.dumps':
        return U(d, 'str')
    # anything else: unknown
    it.faultpoint(node, path)
    it.sink_deps |= d
    it.event('unknown-call', node, path=path)
    for a in list(args) + list(kw.values()):
        if isinstance(a, (Fn, Bound, Partial)):
            try:
                it.call(a, [U() for _ in range(npos(a))], {}, node)
            except (PyExc, Abort):
                pass
        if top not in ('scipy', 'skimage', 'pywt'):
            m.havoc(it, a, node)
    if any(isinstance(a, (A, UA)) for a in args) and top in ('scipy', 'skimage', 'pywt'):
        return UA((), d) if False else U(d)
    return U(d)


def npos(f):
    n = 0
    while isinstance(f, (Bound, Partial)):
        n -= 1 if isinstance(f, Bound) else len(f.args)
        f = f.fn
    if isinstance(f, Fn):
        a = f.node.args
        n += len(a.posonlyargs) + len(a.args) - len(f.defaults)
    return max(n, 0)


def shallow(it, v, node):
    if isinstance(v, Seq):
        return Seq(v.kind, v.items, unk=v.unk) if v.kind != 'tuple' else v
    if isinstance(v, Dct):
        return Dct(v.items, unk=v.unk)
    if isinstance(v, A):
        return pynp.gather(it, v, np.array(v.idx, order='K', copy=True))
    if isinstance(v, Obj):
        o = Obj(v.cls)
        o.attrs = dict(v.attrs)
        return o
    return v


def deep(it, v, memo, keep_shared=False):
    """deep copy; with keep_shared shared-memory blocks stay shared (inheritance by a forked worker)"""
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, Seq):
        r = Seq(v.kind, [deep(it, x, memo, keep_shared) for x in v.items], unk=v.unk)
    elif isinstance(v, Dct):
        r = Dct({k: deep(it, x, memo, keep_shared) for k, x in v.items.items()}, unk=v.unk)
    elif isinstance(v, A):
        if keep_shared and v.root.shared:
            return v
        r = pynp.gather(it, v, np.array(v.idx, order='K', copy=True))
        r.root.copied_from = v.root
    elif isinstance(v, UA):
        r = UA((), v.deps, v.dt)
    elif isinstance(v, Obj):
        r = Obj(v.cls)
        memo[id(v)] = r
        r.attrs = {k: deep(it, x, memo, keep_shared) for k, x in v.attrs.items()}
    elif isinstance(v, Partial):
        r = Partial(v.fn, [deep(it, x, memo, keep_shared) for x in v.args],
                    {k: deep(it, x, memo, keep_shared) for k, x in v.kw.items()})
    else:
        return v
    memo[id(v)] = r
    return r


def itertools_call(it, last, args, kw, node, d):
    m = pm()
    its = [m.try_items(it, a, node) for a in args]
    import itertools as itl
    if any(x is None for x in its) and last not in ('repeat', 'count', 'islice', 'cycle'):
        return U(d)
    if last == 'product':
        return Seq('list', [Seq('tuple', list(t)) for t in itl.product(*its)])
    if last == 'chain':
        return Seq('list', [x for l in its for x in l])
    if last in ('combinations', 'permutations'):
        pass
    if last == 'zip_longest':
        return Seq('list', [Seq('tuple', list(t)) for t in itl.zip_longest(*its, fillvalue=kw.get('fillvalue', K(None)))])
    if last == 'repeat' and len(args) > 1 and isinstance(args[1], K):
        return Seq('list', [args[0]] * int(args[1].v))
    if last == 'repeat':
        return Seq('list', [args[0]] * 64)
    if last == 'islice' and its[0] is not None:
        try:
            return Seq('list', its[0][slice(*[m.conc(x) for x in args[1:]])])
        except NotConc:
            pass
    return U(d)


def os_call(it, path, args, kw, node, d):
    m = pm()
    a0 = args[0] if args else None
    if path in ('os.getenv',):
        return m.env_get(it, a0, args[1] if len(args) > 1 else kw.get('default'), node)
    if path in ('os.putenv',):
        m.env_set(it, a0, args[1], node)
        return K(None)
    if path == 'os.unsetenv':
        it.environ.pop(getattr(a0, 'v', None), None)
        return K(None)
    if path in ('os.cpu_count',):
        return K(it.cpu)
    if path in ('os.getpid', 'os.getppid', 'uuid.uuid4', 'os.urandom', 'socket.gethostname', 'os.times'):
        it.event('identity', node, what=path)
        return U(frozenset(['#identity']), 'int')
    if path == 'os.sched_getaffinity':
        return Seq('set', [K(i) for i in range(it.cpu)])
    if path.startswith('os.path.') or path.startswith('posixpath.'):
        import os.path as osp
        n = path.rsplit('.', 1)[1]
        if n in ('join', 'basename', 'dirname', 'splitext', 'split', 'normpath'):
            return m.pure(it, getattr(osp, n), args, kw, node, 'str')
        if n in ('exists', 'isfile', 'isdir'):
            return U(d, 'bool')
        return U(d, 'str')
    if path in ('sys.exit',):
        raise it.err(SystemExit, '', node)
    it.faultpoint(node, path)
    it.sink_deps |= d
    if path in ('os.makedirs', 'os.mkdir', 'os.remove', 'os.unlink', 'os.rename', 'shutil.rmtree'):
        it.event('file', node, path=a0, mode='w')
        return K(None)
    return U(d)


# ------------------------------------------------------------------ numexpr
NEKIND = {'b': 0, 'i': 1, 'u': 1, 'f': 3, 'c': 5}


def nekind(v):
    if isinstance(v, A):
        k = v.dtype.kind
        s = v.dtype.itemsize
    elif isinstance(v, K):
        x = np.asarray(v.v)
        k, s = x.dtype.kind, x.dtype.itemsize
        if isinstance(v.v, int) and not isinstance(v.v, bool):
            s = 4
    else:
        return None
    if k == 'b':
        return 0
    if k in 'iu':
        return 1 if s <= 4 else 2
    if k == 'f':
        return 3 if s <= 4 else 4
    return 5


NETYPE = ['bool', 'int32', 'int64', 'float32', 'float64', 'complex128']


def numexpr(it, args, kw, node, env):
    m = pm()
    it.faultpoint(node, 'numexpr.evaluate')
    ex = args[0]
    out = kw.get('out')
    if isinstance(out, K) and out.v is None:
        out = None
    ld = args[1] if len(args) > 1 else kw.get('local_dict')
    d = dep(*args) | dep(*kw.values())
    if not isinstance(ex, K) or not isinstance(ex.v, str):
        if isinstance(out, A):
            pynp.maybe_write(it, out, U(d), node)
            return out
        return UA((), d)
    try:
        tree = ast.parse(ex.v.strip(), mode='eval').body
    except SyntaxError:
        raise it.err(SyntaxError, ex.v, node)
    used = []

    def name(n):
        if isinstance(ld, Dct):
            if n in ld.items:
                return ld.items[n]
            if not ld.unk:
                raise it.err(KeyError, n, node)
            return U(ld.deps, 'num')
        e = env
        while e is not None:
            if n in e.vars:
                return e.vars[n]
            if e.locs is not None:
                break
            e = e.parent
        if env is not None and n in env.glob.vars:
            return env.glob.vars[n]
        raise it.err(KeyError, n, node)

    def ev(n):
        if isinstance(n, ast.Constant):
            return K(n.value)
        if isinstance(n, ast.Name):
            v = name(n.id)
            if isinstance(v, Seq):
                v = pynp.asarr(it, v, node)
            used.append(v)
            return v
        if isinstance(n, ast.UnaryOp):
            return m.unary(it, n.op, ev(n.operand), node)
        if isinstance(n, ast.BinOp):
            return m.binop(it, ev(n.left), n.op, ev(n.right), node)
        if isinstance(n, ast.Compare):
            return m.compare(it, ev(n.left), n.ops[0], ev(n.comparators[0]), node)
        if isinstance(n, ast.BoolOp):
            r = None
            for x in n.values:
                v = ev(x)
                r = v if r is None else m.binop(it, r, ast.BitAnd(), v, node)
            return r
        if isinstance(n, ast.Call):
            a = [ev(x) for x in n.args]
            f = getattr(n.func, 'id', '?')
            if f in ('sum', 'prod', 'min', 'max'):
                return pynp.call(it, f, a, {}, node, fp=False)
            f = {'arcsin': 'arcsin', 'abs': 'abs', 'conj': 'conj', 'complex': 'add', 'fmod': 'fmod'}.get(f, f)
            if not hasattr(np, f):
                raise it.err(NameError, f, node)
            return pynp.call(it, f, a, {}, node, fp=False)
        raise Abort('numexpr ' + type(n).__name__)

    def kinds(n):
        if isinstance(n, ast.Constant):
            return nekind(K(n.value)) if not isinstance(n.value, float) else 4
        if isinstance(n, ast.Name):
            v = name(n.id)
            return nekind(v)
        if isinstance(n, ast.Call):
            k = [kinds(x) for x in (n.args[1:] if getattr(n.func, 'id', '') == 'where' else n.args)]
            if None in k or not k:
                return None
            return max(max(k), 0 if getattr(n.func, 'id', '') in ('where', 'abs', 'sum', 'min', 'max') else 3)
        if isinstance(n, (ast.Compare, ast.BoolOp)):
            return 0
        k = [kinds(x) for x in ast.iter_child_nodes(n) if isinstance(x, ast.expr)]
        if None in k or not k:
            return None
        r = max(k)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Div) and r < 3:
            r = 4
        return r
    r = ev(tree)
    d |= dep(*used)
    k = kinds(tree)
    if isinstance(r, A) and k is not None:
        r.root.dtype = np.dtype(NETYPE[k])
        r.root.val = None
    if out is not None:
        if isinstance(out, A):
            if isinstance(r, A) and r.shape != out.shape:
                try:
                    ok = np.broadcast_shapes(r.shape, out.shape) == out.shape
                except ValueError:
                    ok = False
                if not ok:
                    raise it.err(ValueError, 'output of shape %s does not match %s' % (out.shape, r.shape), node)
            pynp.store(it, out, K(Ellipsis), r, node)
        elif isinstance(out, UA):
            for x in out.roots:
                pynp.maybe_write(it, x, r, node)
        return out
    if isinstance(r, A) and r in used:
        return pynp.gather(it, r, r.idx)
    return r


# ------------------------------------------------------------------ scipy, pywt
def reach(it, last, a, args, kw):
    """the axes along which a filter looks at neighbours, None when unknown"""
    m = pm()
    nd = a.idx.ndim
    if kw.get('axes') is not None or kw.get('structure') is not None:
        return None
    if last in ('gaussian_filter1d', 'uniform_filter1d', 'convolve1d', 'correlate1d'):
        ax = kw.get('axis', args[2] if len(args) > 2 else K(-1))
        return (ax.v,) if isinstance(ax, K) and isinstance(ax.v, int) else None
    if last == 'savgol_filter':
        ax = kw.get('axis', K(-1))
        return (ax.v,) if isinstance(ax, K) and isinstance(ax.v, int) else None
    if last in ('sobel', 'prewitt', 'laplace', 'gaussian_laplace', 'gaussian_gradient_magnitude', 'medfilt2d', 'wiener',
                'spline_filter', 'binary_fill_holes'):
        return tuple(range(nd))
    if last in ('gaussian_filter', 'median_filter', 'uniform_filter', 'maximum_filter', 'minimum_filter', 'medfilt'):
        foot = kw.get('footprint')
        if foot is not None and not (isinstance(foot, K) and foot.v is None):
            sz = list(foot.shape) if isinstance(foot, A) else None
        else:
            v = kw.get('sigma', kw.get('size', kw.get('kernel_size', args[1] if len(args) > 1 else None)))
            try:
                sz = m.conc(v) if v is not None else 3
            except NotConc:
                if isinstance(v, Seq) and not v.unk and len(v.items) == nd:
                    sz = [x.v if isinstance(x, K) else 9 for x in v.items]
                else:
                    return None if not isinstance(v, U) else tuple(range(nd))
        if sz is None:
            return None
        sz = list(np.ravel(sz)) if not np.isscalar(sz) else [sz] * nd
        if len(sz) != nd:
            return None
        one = 0 if last == 'gaussian_filter' else 1
        return tuple(i for i in range(nd) if sz[i] is not None and sz[i] > one)
    return None


def scipy_call(it, path, last, args, kw, node, d):
    m = pm()
    a0 = args[0] if args else kw.get('input')
    if last in SAME and ('ndimage' in path or 'signal' in path):
        it.faultpoint(node, path)
        a = pynp.asarr(it, a0, node)
        if last == 'generic_filter' and len(args) > 1 and isinstance(args[1], (Fn, Bound)):
            it.call(args[1], [UA((), d)], {}, node)
        out = kw.get('output', args[OUTPOS[last]] if last in OUTPOS and len(args) > OUTPOS[last] else None)
        dt = None
        if isinstance(a, A):
            dt = a.dtype
            if last.startswith('binary'):
                dt = np.dtype(bool)
            elif last in ('savgol_filter', 'wiener', 'detrend') and dt.kind != 'f':
                dt = np.dtype('float64')
            elif last == 'savgol_filter' and dt == np.float32:
                dt = np.dtype('float32')
            for nm in ('size', 'kernel_size'):
                s = kw.get(nm, args[1] if len(args) > 1 and (nm == 'size' and 'median' in last or nm == 'kernel_size' and
                                                           'medfilt' in last) else None)
                if isinstance(s, Seq) and not s.unk and len(s.items) != a.idx.ndim and last in (
                        'median_filter', 'uniform_filter', 'maximum_filter', 'minimum_filter', 'medfilt'):
                    raise it.err(RuntimeError if 'filter' in last else ValueError, 'sequence argument must have length equal to '
                                 'input rank', node)
                if last.startswith('medfilt') and isinstance(s, (K, Seq)):
                    try:
                        ks = np.asarray(m.conc(s))
                        if (ks % 2 != 1).any():
                            raise it.err(ValueError, 'Each element of kernel_size should be odd.', node)
                    except (NotConc, TypeError):
                        pass
            if last == 'medfilt2d' and a.idx.ndim != 2:
                raise it.err(ValueError, 'object too deep for desired array', node)
            ax = kw.get('axis')
            if isinstance(ax, K) and isinstance(ax.v, int) and not -a.idx.ndim <= ax.v < a.idx.ndim:
                raise it.err(ValueError, 'invalid axis', node)
        if isinstance(a, A) and a.idx.size and a.root.val is None and not a.init().any():
            it.event('uninit-use', node, root=a.root)
        if it.mixes is not None and isinstance(a, A):
            d = d | pynp.note_mix(it, a, reach(it, last, a, args, kw), node)
        res = pynp.fresh_like(it, a, dt, d, src=a.src() if last != 'shift' else -2) if isinstance(a, A) else UA((), d)
        if isinstance(out, A):
            if isinstance(a, A) and out.shape != a.shape:
                raise it.err(RuntimeError, 'output shape not correct', node)
            pynp.store(it, out, K(Ellipsis), res, node)
            return out
        if isinstance(out, UA):
            for r in out.roots:
                pynp.maybe_write(it, r, res, node)
            return out
        if out is not None and isinstance(res, A):
            try:
                t = pynp.dtype_of(it, out, node)
                if t is not None:
                    res.root.dtype = t
            except (NotConc, PyExc):
                pass
        return res
    if last == 'map_coordinates':
        it.faultpoint(node, path)
        c = args[1] if len(args) > 1 else kw.get('coordinates')
        c = pynp.asarr(it, c, node)
        a = pynp.asarr(it, a0, node)
        if isinstance(c, A) and isinstance(a, A):
            if c.shape[0] != a.idx.ndim:
                raise it.err(RuntimeError, 'invalid shape for coordinate array', node)
            return pynp.new(it, c.shape[1:], a.dtype, deps=d, src=-2)
        return UA((), d)
    if path.startswith(('scipy.fft.', 'scipy.fftpack.')) and hasattr(np.fft, last):
        return pynp.call(it, 'fft.' + last, args, kw, node)
    if last in ('minimize', 'minimize_scalar', 'fmin', 'root', 'least_squares', 'curve_fit', 'brute', 'differential_evolution'):
        it.faultpoint(node, path)
        fn = args[0]
        if not isinstance(fn, (Fn, Bound, Partial)):
            it.sink_deps |= d
        else:
            if last == 'curve_fit':
                p0 = kw.get('p0', args[3] if len(args) > 3 else None)
                n = len(p0.items) if isinstance(p0, Seq) else max(npos(fn) - 1, 1)
                it.call(fn, [args[1]] + [U(d, 'num') for _ in range(n)], {}, node)
            else:
                # what the objective does with its further arguments decides whether they matter
                d = dep(*args[:2], *args[3:]) | dep(*[v for k, v in kw.items() if k != 'args'])
                ex = kw.get('args', args[2] if len(args) > 2 else None)
                ex = ex.items if isinstance(ex, Seq) else [] if ex is None else [ex]
                x0 = args[1] if len(args) > 1 else kw.get('x0')
                x = pynp.asarr(it, x0, node) if x0 is not None else U(d, 'num')
                x = pynp.new(it, x.shape or (1,), 'float64', deps=d | dep(x), src=-2) if isinstance(x, A) else UA((), d)
                d = d | dep(it.call(fn, [x] + list(ex), {}, node))
        return Seq('tuple', [UA((), d), UA((), d)]) if last == 'curve_fit' else U(d)
    if last in ('gaussian',) and 'windows' in path:
        try:
            return pynp.new(it, (int(m.conc(args[0])),), 'float64', deps=d)
        except NotConc:
            return UA((), d)
    if last == 'lstsq':
        it.faultpoint(node, path)
        return Seq('tuple', [UA((), d), UA((), d), U(d, 'int'), UA((), d)])
    return None


def wavelen(w):
    if not isinstance(w, K) or not isinstance(w.v, str):
        return None
    n = w.v
    if n == 'haar':
        return 2
    for p, c in (('db', 2), ('sym', 2), ('coif', 6)):
        if n.startswith(p) and n[len(p):].isdigit():
            return c * int(n[len(p):])
    return None


def wavelet(it, last, args, kw, node, d):
    it.faultpoint(node, 'pywt.' + last)
    w = args[1] if len(args) > 1 else kw.get('wavelet')
    L = wavelen(w)
    if last == 'dwt2':
        a = args[0]
        if isinstance(a, A) and L and a.idx.ndim == 2:
            sh = tuple((s + L - 1) // 2 for s in a.shape)
            dt = a.dtype if a.dtype in (np.float32, np.float64) else np.dtype('float64')
            mk = lambda: pynp.new(it, sh, dt, deps=d, src=-2)
            c = mk()
            c.root.tf = (a.src(), a.root.tf, c.idx)
            return Seq('tuple', [c, Seq('tuple', [mk(), mk(), mk()])])
        return Seq('tuple', [UA((), d), Seq('tuple', [UA((), d), UA((), d), UA((), d)])])
    if last == 'idwt2':
        c = args[0]
        try:
            arrs = [c.items[0]] + c.items[1].items
        except (AttributeError, IndexError):
            return UA((), d)
        arrs = [x for x in arrs if isinstance(x, A)]
        if arrs and L:
            if len({x.shape for x in arrs}) != 1:
                raise it.err(ValueError, 'Coefficients arrays must have the same shape', node)
            res = pynp.new(it, tuple(2 * s - L + 2 for s in arrs[0].shape), arrs[0].dtype, deps=d, src=-2)
            a = c.items[0]
            tf = a.root.tf if isinstance(a, A) else None
            if tf is not None and all(x <= y for x, y in zip(a.shape, tf[2].shape)) and (
                    a.idx == tf[2][:a.shape[0], :a.shape[1]]).all():
                # the synthesis undoes the analysis: every element is back at its place
                n, k = (min(x, y) for x, y in zip(tf[0].shape, res.shape))
                s = tf[0][:n, :k]
                res.root.src[res.idx[:n, :k]] = np.where(s == -1, -2, s)
                if tf[1] is not None:
                    res.root.tf = tf[1][:2] + (res.idx,)
            return res
        return UA((), d)
    if last == 'dwt_max_level':
        return U(d, 'int')
    if last == 'wavelist':
        return Seq('list', [], unk=True)
    return None


# ------------------------------------------------------------------ ctypes
def ctypes_call(it, path, last, args, kw, node, d):
    a0 = args[0] if args else None
    if last == 'find_library':
        return K('lib%s.so' % a0.v) if isinstance(a0, K) else U(d)
    if last in ('LoadLibrary', 'CDLL', 'PyDLL'):
        it.faultpoint(node, path)
        if isinstance(a0, K) and isinstance(a0.v, str):
            n = a0.v.split('/')[-1]
            n = n[3:] if n.startswith('lib') else n
            return Nat('lib', name=n[:-3] if n.endswith('.so') else n)
        return U(d)
    if last == 'POINTER':
        if isinstance(a0, K) and isinstance(a0.v, type):
            try:
                return K(ctypes.POINTER(a0.v))
            except TypeError:
                return U(d)
        return U(d)
    if last == 'cast':
        if isinstance(a0, Nat) and a0.kind == 'cptr' and len(args) > 1 and isinstance(args[1], K):
            return Nat('cptr', arr=a0.arr, pointee=getattr(args[1].v, '_type_', None), deps=d)
        return U(d)
    if last in ('byref', 'pointer', 'addressof'):
        return Nat('cref', of=a0, deps=d)
    if last == 'sizeof':
        return U(d, 'int')
    return U(d)


def native(it, f, args, kw, node):
    """a call into compiled code"""
    d = dep(*args) | dep(*kw.values())
    it.faultpoint(node, 'native %s' % f.sym, kind='native')
    it.sink_deps |= d
    outs = it.opts.get('native_outputs', {}).get(f.sym)
    snap, ad, srcs = [], [], []
    for a in args:
        snap.append(a)
        v = dep(a)
        if isinstance(a, Nat) and isinstance(getattr(a, 'arr', None), (A, UA)):
            v = v | a.arr.deps
        ad.append(v)
        srcs.append(a.arr.src().copy() if isinstance(a, Nat) and a.kind == 'cptr' and isinstance(a.arr, A) else None)
    e = it.event('native', node, lib=f.lib, sym=f.sym, args=snap, adeps=ad, srcs=srcs, kw=list(kw),
                 initbad=[i for i, a in enumerate(args) if isinstance(a, Nat) and a.kind == 'cptr' and isinstance(a.arr, A)
                          and not a.arr.init().all()])
    inp = None
    for i, a in enumerate(args):
        if isinstance(a, Nat) and a.kind == 'cptr' and isinstance(a.arr, A) and inp is None:
            inp = a.arr
    for i, a in enumerate(args):
        if not (isinstance(a, Nat) and a.kind == 'cptr'):
            continue
        isout = outs is None or i in outs
        if not isout:
            continue
        if isinstance(a.arr, A):
            arr = a.arr
            src = arr.src()
            pynp.write_all(it, arr, U(d), node)
            if outs is not None and outs.get(i) == 'inout':
                arr.root.src[arr.idx] = src
            elif inp is not None and inp is not arr and inp.shape == arr.shape:
                arr.root.src[arr.idx] = inp.src()
        elif isinstance(a.arr, UA):
            for r in a.arr.roots:
                pynp.maybe_write(it, r, U(d), node)
    hook = it.opts.get('native_hook')
    if hook:
        hook(it, e)
    return U(E0)


# ------------------------------------------------------------------ concurrency
def conc_call(it, path, last, args, kw, node, d):
    m = pm()
    a0 = args[0] if args else None
    if last in ('ThreadPoolExecutor', 'ProcessPoolExecutor', 'ThreadPool'):
        it.faultpoint(node, path)
        it.sink_deps |= d
        n = a0 if a0 is not None else kw.get('max_workers', kw.get('processes'))
        if isinstance(n, K) and n.v is not None:
            if isinstance(n.v, (int, np.integer)) and n.v <= 0:
                raise it.err(ValueError, 'max_workers must be greater than 0', node)
        it.event('pool', node, n=n, what=last)
        if last == 'ThreadPool':
            return Nat('pool', proc=False, closed=False, terminated=False, init=None, n=n)
        init = kw.get('initializer')
        return Nat('executor', proc=last.startswith('Process'), closed=False, n=n, init=init,
                   initargs=kw.get('initargs'), started=False)
    if last in ('wait',):
        fs = m.try_items(it, a0, node) or []
        rw = kw.get('return_when', args[2] if len(args) > 2 else K('ALL_COMPLETED'))
        # what is done is a set: its order is arbitrary
        return Seq('tuple', [Seq('set', list(reversed(fs)) if it.opts.get('rev', True) else fs), Seq('set', [])])
    if last == 'as_completed':
        fs = m.try_items(it, a0, node) or []
        return Nat('as_completed', items=list(reversed(fs)) if it.opts.get('rev', True) else fs, deps=d)
    if last == 'cpu_count':
        return K(it.cpu)
    if last == 'Pool':
        it.faultpoint(node, path)
        it.sink_deps |= d
        n = a0 if a0 is not None else kw.get('processes')
        if isinstance(n, K) and isinstance(n.v, (int, np.integer)) and n.v < 1:
            raise it.err(ValueError, 'Number of processes must be at least 1', node)
        it.event('pool', node, n=n, what='Pool')
        p = Nat('pool', proc=True, closed=False, terminated=False, n=n,
                init=args[1] if len(args) > 1 else kw.get('initializer'),
                initargs=args[2] if len(args) > 2 else kw.get('initargs'))
        it.pools.append(p)
        return p
    if last == 'Manager':
        it.faultpoint(node, path)
        return Nat('manager', closed=False)
    if last in ('Queue', 'SimpleQueue', 'LifoQueue', 'JoinableQueue'):
        return Nat('queue', items=[])
    if last in ('Lock', 'RLock', 'Semaphore', 'BoundedSemaphore', 'Condition'):
        l = Nat('lock', held=False)
        it.locks.append(l)
        return l
    if last in ('RawArray', 'Array'):
        it.faultpoint(node, path)
        t, n = args[0], args[1]
        try:
            ct = t.v if isinstance(t, K) else None
            if isinstance(ct, str):
                dt = np.dtype(ct)
            else:
                dt = np.dtype(ct)
            n = int(m.conc(n))
        except (NotConc, TypeError):
            return U(d)
        a = pynp.new(it, (n,), dt, shared=True, owner='shared', deps=E0)
        raw = Nat('raw', root=a.root)
        a.root.raw = raw
        return raw
    if last in ('RawValue', 'Value'):
        return Nat('cval', ctype=None, value=args[1] if len(args) > 1 else K(0))
    if last in ('Thread', 'Process'):
        return Nat('thread', proc=last == 'Process', target=kw.get('target', args[1] if len(args) > 1 else None),
                   args=kw.get('args', args[3] if len(args) > 3 else Seq('tuple', [])), kw=kw.get('kwargs', Dct()), started=False,
                   exc=None)
    if last in ('get_ident', 'current_thread', 'current_process', 'get_native_id'):
        it.event('identity', node, what=path)
        return U(frozenset(['#identity']), 'int')
    if last == 'get_context':
        return X('multiprocessing')
    if last in ('Event', 'Barrier'):
        return Nat('object')
    if last == 'local':
        return Nat('object')
    return U(d)


def run_task(it, fn, args, kw, node, proc=False, pool=None, batch=False):
    """run one unit of work; returns a future"""
    it.ntask += 1
    tid = it.ntask
    fut = Nat('future', exc=None, value=K(None), checked=False, tid=tid, cb=[], proc=proc, ispool=False, dead=False)
    it.futures.append(fut)
    it.taskpool[tid] = id(pool) if pool is not None else 0
    if not isinstance(fn, (Fn, Bound, Partial)):
        it.sink_deps |= dep(*args) | dep(*kw.values())
    f = it.fault
    saved = None
    if proc:
        memo = {}
        args = [deep(it, a, memo) for a in args]
        kw = {k: deep(it, v, memo) for k, v in kw.items()}
        if batch:
            # the jobs of one map are pickled in groups: an array that several of them get is one object in the worker
            for a in memo.values():
                if isinstance(a, A) and getattr(a.root, 'copied_from', None) is not None:
                    prev = it.shipped.setdefault(id(a.root.copied_from), (a.root.copied_from, []))[1]
                    ws = [r.epoch[t] for t, r in prev if t in r.epoch and r.base.shape == a.root.base.shape]
                    if ws:
                        a.root.stale = np.logical_or.reduce(ws)
                    prev.append((tid, a.root))
        saved = {n: dict(mm.env.vars) for n, mm in it.mods.items()}
        env0 = dict(it.environ)
        gw = dict(it.globw)
        ne0 = it.ne_threads
    it.tasks.append(tid)
    it.event('task', node, tid=tid, fn=fn, args=args, proc=proc, pooled=pool is not None)
    if proc:
        it.inproc += 1
    try:
        if proc and pool is not None and pool.init is not None and not (isinstance(pool.init, K) and pool.init.v is None):
            ia = pool.initargs
            ia = m_items(it, ia, node)
            memo = {}
            it.call(pool.init, [deep(it, x, memo, keep_shared=True) for x in ia], {}, node)
        if f and f.get('kind') == 'task' and not f.get('done') and f.get('n') == it.ntask:
            f['done'] = True
            raise PyExc(EV(f.get('cls', FaultError), [K('injected')], injected=True), it.site(node))
        if f and f.get('kind') == 'death' and not f.get('done') and proc and f.get('n') == it.ntask:
            f['done'] = f['fired'] = True
            fut.dead = True
            return fut
        fut.value = it.call(fn, args, kw, node)
    except PyExc as e:
        fut.exc = e
    finally:
        it.tasks.pop()
        if proc:
            it.inproc -= 1
            for n, vs in saved.items():
                it.mods[n].env.vars.clear()
                it.mods[n].env.vars.update(vs)
            it.environ = env0
            it.globw = gw
            it.ne_threads = ne0
            if fut.exc is None:
                fut.value = deep(it, fut.value, {})
    return fut


def m_items(it, v, node):
    if v is None:
        return []
    return pm().try_items(it, v, node) or []


def fut_result(it, fut, node):
    fut.checked = True
    if getattr(fut, 'dead', False):
        if fut.ispool:
            raise Hang('result of a worker that died')
        raise it.err(RuntimeError, 'BrokenProcessPool', node, injected=True)
    if fut.exc is not None:
        raise PyExc(fut.exc.ev, fut.exc.site)
    return fut.value


def obj_method(it, o, n, args, kw, node):
    m = pm()
    k = o.kind
    a0 = args[0] if args else None
    d = dep(o, *args) | dep(*kw.values())
    if k == 'logger':
        return K(None)
    if k == 'executor':
        if n == 'submit':
            return run_task(it, a0, args[1:], kw, node, o.proc, o)
        if n == 'map':
            its = [m.try_items(it, x, node) for x in args[1:]]
            if any(x is None for x in its):
                f = run_task(it, a0, [U(d) for _ in args[1:]], {}, node, o.proc, o)
                return Nat('mapresult', futs=[f], consumed=False, deps=d)
            return Nat('mapresult', futs=[run_task(it, a0, list(t), {}, node, o.proc, o) for t in zip(*its)], consumed=False,
                       deps=d)
        if n == 'shutdown':
            o.closed = True
            return K(None)
        return U(d)
    if k == 'future':
        if n == 'result':
            return fut_result(it, o, node)
        if n == 'exception':
            o.checked = True
            if getattr(o, 'dead', False):
                return EV(RuntimeError, injected=True)
            return o.exc.ev if o.exc is not None else K(None)
        if n == 'add_done_callback':
            it.call(a0, [o], {}, node)
            return K(None)
        if n in ('done',):
            return K(True)
        if n in ('running', 'cancelled', 'cancel'):
            return K(False)
        return U(d)
    if k == 'pool':
        if n in ('map', 'map_async', 'imap', 'imap_unordered', 'starmap', 'starmap_async'):
            its = m.try_items(it, args[1], node)
            star = n.startswith('starmap')
            futs = []
            for x in its if its is not None else [U(d)]:
                f = run_task(it, a0, m_items(it, x, node) if star else [x], {}, node, o.proc, o, batch=True)
                f.ispool = True
                futs.append(f)
            if n == 'imap_unordered':
                it.event('order', node, what='imap_unordered')
                if it.opts.get('rev', True):
                    futs.reverse()
            if n.endswith('async'):
                return Nat('async', futs=futs, polls=0, pool=o, single=False)
            if n.startswith('imap'):
                return Nat('mapresult', futs=futs, consumed=False, unord=n == 'imap_unordered' and len(futs) > 1)
            return Seq('list', [fut_result(it, f, node) for f in futs])
        if n in ('apply', 'apply_async'):
            ar = args[1] if len(args) > 1 else kw.get('args', Seq('tuple', []))
            kd = args[2] if len(args) > 2 else kw.get('kwds', Dct())
            f = run_task(it, a0, m_items(it, ar, node), dict(kd.items) if isinstance(kd, Dct) else {}, node, o.proc, o)
            f.ispool = True
            if n == 'apply':
                return fut_result(it, f, node)
            return Nat('async', futs=[f], polls=0, pool=o, single=True)
        if n == 'terminate':
            o.terminated = True
            return K(None)
        if n == 'close':
            o.closed = True
            return K(None)
        if n == 'join':
            if any(getattr(f, 'dead', False) for f in it.futures) and not o.terminated:
                raise Hang('joining a pool with lost work')
            return K(None)
        return U(d)
    if k == 'async':
        dead = any(getattr(f, 'dead', False) for f in o.futs)
        if n == 'get':
            if dead:
                if args or 'timeout' in kw:
                    raise it.err(TimeoutError, '', node, injected=True)
                raise Hang('waiting for the result of a worker that died')
            for f in o.futs:
                f.checked = True
            for f in o.futs:
                if f.exc is not None:
                    raise PyExc(f.exc.ev, f.exc.site)
            return o.futs[0].value if o.single else Seq('list', [f.value for f in o.futs])
        if n == 'ready':
            o.polls += 1
            if dead:
                if o.polls > 6:
                    raise Hang('polling for the result of a worker that died')
                return K(False)
            return K(o.polls > 1)
        if n == 'wait':
            if dead and not args and 'timeout' not in kw:
                raise Hang('waiting for a worker that died')
            o.polls += 1
            return K(None)
        if n == 'successful':
            return K(all(f.exc is None for f in o.futs))
        return U(d)
    if k == 'thread':
        if n == 'start':
            o.started = True
            f = run_task(it, o.target, m_items(it, o.args, node), dict(o.kw.items) if isinstance(o.kw, Dct) else {}, node, o.proc)
            o.fut = f
            return K(None)
        if n == 'is_alive':
            return K(False)
        return K(None)
    if k == 'manager':
        if n == 'shutdown':
            return K(None)
        return conc_call(it, 'multiprocessing.' + n, n, args, kw, node, d) if n in ('Queue', 'Lock') else \
            Seq('list', list(args)) if n == 'list' else Dct() if n == 'dict' else U(d)
    if k == 'queue':
        if n in ('put', 'put_nowait'):
            o.items.append(a0)
            return K(None)
        if n in ('get', 'get_nowait'):
            if o.items:
                return o.items.pop(0)
            raise it.err(Exception, 'Empty', node)
        if n == 'empty':
            return K(not o.items)
        if n == 'qsize':
            return K(len(o.items))
        return K(None)
    if k == 'lock':
        if n == 'acquire':
            m.lock(it, o, node)
            return K(True)
        if n == 'release':
            m.unlock(it, o, node)
            return K(None)
        if n == 'locked':
            return K(o.held)
        return K(None)
    if k == 'environ':
        if n == 'get':
            return m.env_get(it, a0, args[1] if len(args) > 1 else kw.get('default'), node)
        if n == 'pop':
            if isinstance(a0, K):
                if a0.v in it.environ:
                    it.event('env-write', node, key=a0.v, value=None)
                    return it.environ.pop(a0.v)
                if len(args) > 1:
                    return args[1]
                raise it.err(KeyError, a0.v, node)
            return U(d)
        if n == 'setdefault':
            if isinstance(a0, K) and a0.v not in it.environ:
                m.env_set(it, a0, args[1], node)
            return it.environ.get(getattr(a0, 'v', None), U(d))
        if n == 'update':
            if isinstance(a0, Dct):
                for x, v in a0.items.items():
                    m.env_set(it, K(x), v, node)
            for x, v in kw.items():
                m.env_set(it, K(x), v, node)
            return K(None)
        if n == 'copy':
            return Dct(dict(it.environ))
        if n in ('items', 'keys', 'values'):
            return U(d)
        if n == 'clear':
            it.environ = {}
            return K(None)
        return U(d)
    if k == 'npctypes':
        if n == 'data_as':
            pt = getattr(a0.v, '_type_', None) if isinstance(a0, K) else None
            return Nat('cptr', arr=o.arr, pointee=pt, ptype=getattr(a0, 'v', None), deps=d)
        return U(d)
    if k == 'exitstack':
        if n == 'callback':
            o.cbs.append((a0, args[1:], kw, False))
            return a0
        if n == 'enter_context':
            v = m.enter(it, a0, node)
            o.cbs.append((a0, None, None, True))
            return v
        if n == 'close':
            m.exit(it, o, None, node)
            o.cbs = []
            return K(None)
        return U(d)
    if k == 'ntuple':
        return U(d)
    if k == 'rng':
        return m.rng(it, 'numpy.random.' + n, args, kw, node, gen=o.deps)
    if k == 'file':
        it.faultpoint(node, 'file.' + n)
        it.sink_deps |= d
        return U(d, 'str' if n == 'read' else None)
    if k == 'cached':
        return K(None)
    if k == 'flags':
        return U()
    if k == 'iter':
        return U(d)
    it.sink_deps |= d
    return U(d)
