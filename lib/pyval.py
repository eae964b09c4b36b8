"""Abstract values of the Python analysis.

An array is abstract in its contents and concrete in its geometry: A(root, idx) where idx is a real numpy view of
root.base (the flat positions 0..n-1 of the block), so slicing, transposing, reshaping, contiguity and copy-or-view
follow numpy's own rules.  Per position a block keeps: was it ever set (init), from which element of the main input it
stems (src; -1 neutral, -2 unknown), was it stored to.  Nothing of /repo is executed.
"""
import numpy as np

E0 = frozenset()


class Val:
    deps = E0


class K(Val):
    """a known constant"""
    __slots__ = ('v', 'deps')

    def __init__(self, v, deps=E0):
        self.v, self.deps = v, deps

    def __repr__(self):
        return 'K(%r)' % (self.v,)


class U(Val):
    """an unknown value; kind in None,'num','int','bool','str'"""
    __slots__ = ('deps', 'kind')

    def __init__(self, deps=E0, kind=None):
        self.deps, self.kind = deps, kind

    def __repr__(self):
        return 'U(%s)' % (self.kind,)


class Root:
    """one block of array memory"""
    count = 0

    def __init__(self, n, dtype, owner='fresh', init=True, src=-1, val=None, shared=False, deps=E0, site=None):
        Root.count += 1
        self.id = Root.count
        self.base = np.arange(n)
        self.dtype = np.dtype(dtype)
        self.owner = owner
        self.init = np.full(n, bool(init)) if np.isscalar(init) or init is None else np.asarray(init).reshape(-1)
        self.src = np.full(n, src) if np.isscalar(src) else np.asarray(src).reshape(-1)
        self.val = val
        self.shared = shared
        self.deps = deps
        self.written = np.zeros(n, bool)
        self.wsites = {}
        self.site = site
        self.raw = None
        self.guarded = False     # some store is made under a lock
        self.line = {}           # task -> the pool it runs in
        self.epoch = {}          # task -> mask of positions written by it
        self.readonly = False
        self.tag = None
        self.stale = None        # positions an earlier job of the same worker stored to and this one has not
        self.staleread = False
        self.staleof = None
        self.tf = None           # wavelet approximation of an array: (places, same of that array, positions)


class A(Val):
    __slots__ = ('root', 'idx', 'ddeps', 'fl')

    def __init__(self, root, idx, ddeps=E0):
        self.root, self.idx, self.ddeps = root, idx, ddeps

    @property
    def deps(self):
        return self.root.deps | self.ddeps

    @property
    def shape(self):
        return self.idx.shape

    @property
    def dtype(self):
        return self.root.dtype

    def src(self):
        if self.root.stale is not None:
            self.touch()
        return self.root.src[self.idx]

    def touch(self):
        """the elements are read"""
        r = self.root
        if r.stale is not None and not r.staleread and r.stale[self.idx].any():
            (r.staleof or r).staleread = r.staleread = True

    def init(self):
        return self.root.init[self.idx]

    def val(self):
        return None if self.root.val is None else self.root.val[self.idx]

    def __repr__(self):
        return 'A(%s,%s,%s)' % (self.root.owner, self.idx.shape, self.root.dtype)


class UA(Val):
    """an array of unknown shape, possibly a view of some blocks"""
    __slots__ = ('roots', 'deps', 'dt')

    def __init__(self, roots=(), deps=E0, dt=None):
        self.roots, self.deps, self.dt = tuple(roots), deps, dt

    def __repr__(self):
        return 'UA'


class Seq(Val):
    __slots__ = ('kind', 'items', 'owner', 'xdeps', 'unk', 'nz')

    def __init__(self, kind, items, owner=None, deps=E0, unk=False):
        self.kind, self.items, self.owner, self.xdeps, self.unk = kind, list(items), owner, deps, unk
        self.nz = False

    @property
    def deps(self):
        d = self.xdeps
        for i in self.items[:200]:
            d = d | i.deps
        return d

    def __repr__(self):
        return '%s%r' % (self.kind, self.items[:6])


class Dct(Val):
    __slots__ = ('items', 'owner', 'xdeps', 'unk', 'nz')

    def __init__(self, items=None, owner=None, deps=E0, unk=False):
        self.items, self.owner, self.xdeps, self.unk = dict(items or {}), owner, deps, unk
        self.nz = False

    @property
    def deps(self):
        d = self.xdeps
        for v in self.items.values():
            d = d | v.deps
        return d

    def __repr__(self):
        return 'dict%r' % (list(self.items)[:8],)


class Fn(Val):
    __slots__ = ('node', 'env', 'mod', 'name', 'defaults', 'kwdefaults', 'isgen', 'attrs', 'cls')

    def __init__(self, node, env, mod, name, defaults, kwdefaults):
        self.node, self.env, self.mod, self.name = node, env, mod, name
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.attrs = {}
        self.cls = None

    def __repr__(self):
        return 'Fn(%s.%s)' % (self.mod, self.name)


class Cls(Val):
    def __init__(self, name, bases, attrs, mod):
        self.name, self.bases, self.attrs, self.mod = name, bases, attrs, mod

    def lookup(self, n):
        if n in self.attrs:
            return self.attrs[n]
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.lookup(n)
                if r is not None:
                    return r
        return None

    def realbase(self):
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.realbase()
                if r is not None:
                    return r
            elif isinstance(b, K) and isinstance(b.v, type):
                return b.v
        return None


class Obj(Val):
    def __init__(self, cls):
        self.cls, self.attrs = cls, {}

    @property
    def deps(self):
        d = E0
        for v in self.attrs.values():
            d = d | v.deps if not isinstance(v, Obj) else d
        return d


class Bound(Val):
    __slots__ = ('self', 'fn')

    def __init__(self, s, fn):
        self.self, self.fn = s, fn

    @property
    def deps(self):
        return self.self.deps


class Partial(Val):
    __slots__ = ('fn', 'args', 'kw')

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw

    @property
    def deps(self):
        d = self.fn.deps
        for a in list(self.args) + list(self.kw.values()):
            d = d | a.deps
        return d


class Mod(Val):
    __slots__ = ('name', 'env')

    def __init__(self, name, env):
        self.name, self.env = name, env


class X(Val):
    """something of an external library, by dotted path"""
    __slots__ = ('path', 'deps')

    def __init__(self, path, deps=E0):
        self.path, self.deps = path, deps

    def __repr__(self):
        return 'X(%s)' % self.path


class Nat(Val):
    """a modelled object: kind + data"""

    def __init__(self, kind, deps=E0, **kw):
        self.kind, self.deps = kind, deps
        self.__dict__.update(kw)

    def __repr__(self):
        return 'Nat(%s)' % self.kind


class EV(Val):
    """an exception object"""
    auto = False

    def __init__(self, cls, args=(), injected=False, deps=E0):
        self.cls, self.args, self.injected, self.deps = cls, list(args), injected, deps

    def __repr__(self):
        return 'EV(%s)' % getattr(self.cls, '__name__', getattr(self.cls, 'name', self.cls))


class FaultError(Exception):
    """the failure the analysis injects"""


class PyExc(Exception):
    def __init__(self, ev, site=None):
        self.ev, self.site = ev, site
        Exception.__init__(self, repr(ev))


class Abort(Exception):
    """the analysis cannot follow this path any further"""


class Hang(Exception):
    """the path waits for something that cannot happen"""


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class NotConc(Exception):
    pass


def dep(*vs):
    d = E0
    for v in vs:
        if v is not None:
            x = v.deps
            if x:
                d = d | x
    return d


def layout(shape, order=None):
    n = 1
    for s in shape:
        n *= s
    return n


def like_layout(root, example):
    """idx of the whole root with the memory order of the numpy array `example`"""
    shape = example.shape
    if example.ndim < 2 or example.size == 0:
        return root.base.reshape(shape)
    st = [abs(s) for s in example.strides]
    order = sorted(range(example.ndim), key=lambda i: (-st[i], i) if shape[i] != 1 else (-st[i], i))
    perm = root.base.reshape([shape[i] for i in order])
    inv = [0] * len(order)
    for k, i in enumerate(order):
        inv[i] = k
    return perm.transpose(inv)
