"""Abstract interpreter for the Python layer (syntax tree level; /repo's code is never imported or run)."""
import ast
import builtins
import operator
import os
import threading

import numpy as np

from pyval import *

BINOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
          ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitAnd: operator.and_,
          ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
          ast.MatMult: operator.matmul}
UFUNC = {ast.Add: 'add', ast.Sub: 'subtract', ast.Mult: 'multiply', ast.Div: 'true_divide', ast.FloorDiv: 'floor_divide',
         ast.Mod: 'mod', ast.Pow: 'power', ast.BitAnd: 'bitwise_and', ast.BitOr: 'bitwise_or', ast.BitXor: 'bitwise_xor',
         ast.MatMult: 'matmul', ast.LShift: 'left_shift', ast.RShift: 'right_shift'}
CMPU = {ast.Eq: 'equal', ast.NotEq: 'not_equal', ast.Lt: 'less', ast.LtE: 'less_equal', ast.Gt: 'greater',
        ast.GtE: 'greater_equal'}
CMPOPS = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt,
          ast.GtE: operator.ge}
REALEXC = {n: getattr(builtins, n) for n in dir(builtins)
           if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}

_TREES = {}


def tree_of(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    t = _TREES.get(key)
    if t is None:
        with open(path, 'rb') as f:
            t = ast.parse(f.read(), path)
        _TREES[key] = t
    return t


_LOCALS = {}


def fn_info(node):
    """(locals assigned in the body, globals declared, is generator)"""
    r = _LOCALS.get(id(node))
    if r is not None and r[3] is node:
        return r
    loc, glo, nonl, gen = set(), set(), set(), [False]

    def tgt(t):
        if isinstance(t, ast.Name):
            loc.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def visit(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
            loc.add(n.name)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    tgt(c.target)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
            tgt(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                loc.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, ast.Global):
            glo.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                tgt(t)
        for c in ast.iter_child_nodes(n):
            visit(c)

    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        visit(s)
    a = node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(p.arg)
    if a.vararg:
        loc.add(a.vararg.arg)
    if a.kwarg:
        loc.add(a.kwarg.arg)
    r = (frozenset(loc - glo - nonl), frozenset(glo), gen[0], node, frozenset(nonl))
    _LOCALS[id(node)] = r
    return r


class Env:
    __slots__ = ('vars', 'parent', 'glob', 'locs', 'globs', 'mod', 'func', 'cur', 'comp', 'nonl')

    def __init__(self, glob, parent=None, locs=None, globs=frozenset(), mod=None, func=None, comp=False, nonl=frozenset()):
        self.vars = {}
        self.glob, self.parent, self.locs, self.globs, self.mod, self.func = glob, parent, locs, globs, mod, func
        self.comp = comp
        self.nonl = nonl
        self.cur = None


class GenObj(Val):
    """interpreted generator: the body runs in a helper thread, strictly alternating with its consumer"""

    def __init__(self, it, fn, env):
        self.it, self.fn, self.env = it, fn, env
        self.started = self.done = False
        self.inq = self.outq = None
        self.a, self.b = threading.Semaphore(0), threading.Semaphore(0)
        self.msg = None
        self.th = None
        self.kill = False

    def _run(self):
        self.a.acquire()
        try:
            if not self.kill:
                try:
                    self.it.exec_block(self.fn.node.body, self.env)
                    self.outq = ('stop', None)
                except Ret as r:
                    self.outq = ('stop', r.v)
            else:
                self.outq = ('stop', None)
        except BaseException as e:
            self.outq = ('exc', e)
        self.done = True
        self.b.release()

    def yield_(self, v):
        self.outq = ('val', v)
        self.b.release()
        self.a.acquire()
        if self.kill:
            raise Abort('generator closed')
        m, self.inq = self.inq, None
        if m and m[0] == 'throw':
            raise m[1]
        return m[1] if m else K(None)

    def resume(self, m=None):
        if self.done:
            return ('stop', None)
        if not self.started:
            self.started = True
            self.th = threading.Thread(target=self._run, daemon=True)
            threading.stack_size(64 * 1024 * 1024)
            self.th.start()
            self.it.gens.append(self)
        self.inq = m
        st = self.it.stack
        self.it.stack = list(st)
        self.a.release()
        self.b.acquire()
        self.it.stack = st
        k, v = self.outq
        if k == 'exc':
            raise v
        return k, v

    def close(self):
        if self.started and not self.done:
            self.kill = True
            self.a.release()
            self.th.join(5)


def limit(node):
    """a comparison with a fixed number other than 0 and 1"""
    return any(isinstance(c, ast.Compare) and any(isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) and x.value > 1
               for x in [c.left] + c.comparators) for c in ast.walk(node.test if isinstance(node, (ast.If, ast.While, ast.IfExp)) else node))


def bdeps(v):
    """what the truth of a value depends on: of a container, not its items"""
    return v.xdeps if isinstance(v, (Seq, Dct)) else v.deps


def lean(t, want):
    """outcome of an unknown test on the path that is looked at first"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        lean(t.operand, not want)
    elif isinstance(t, ast.BoolOp):
        for x in t.values:
            lean(x, want)
    t._lean = want


class Interp:
    MAXSTEPS = 600000

    def __init__(self, repo, choices=None, fault=None, opts=None):
        import pymodel
        self.m = pymodel
        self.repo = repo
        self.src = os.path.join(repo, 'source')
        self.mods = {}
        self.loading = []
        self.steps = 0
        self.stack = []            # (module, function name, node)
        self.choices = dict(choices or {})
        self.sites = {}            # decision site -> (count, default)
        self.order = []
        self.visits = {}
        self.fault = fault or {}
        self.opts = opts or {}
        self.events = []
        self.shipped = {}           # arrays sent to jobs of a process pool: id -> (array, [(job, its copy)])
        self.parallel = False       # numexpr, native code or a transform has run
        self.branch_deps = set()
        self.chunked = {}           # arrays whose extents depend on the division of the work
        self.has = {}
        self.excused = set()
        self.taskpool = {}
        self.disorder = 0
        self.sink_deps = set()
        self.mixes = {} if opts.get('mixes') else None
        self.faultsites = {}
        self.nfault = 0
        self.environ = {}
        self.envlog = []
        self.ne_threads = K(4)
        self.ne_init = self.ne_threads
        self.locks = []
        self.tasks = []            # stack of running task ids
        self.ntask = 0
        self.pools = []
        self.gens = []
        self.globw = {}            # (mod, name) -> phase of last rebinding
        self.globread = []
        self.phase = 0             # 0 while modules load, then 1, 2, ... per call
        self.executed = set()
        self.imprecise = []
        self.roots = []
        self.futures = []
        self.calls = []
        self.lost = []
        self.excs_dropped = []
        self.inproc = 0
        self.cpu = self.opts.get('cpu', 4)
        self.files = []

    # ------------------------------------------------------------ bookkeeping
    def site(self, node=None):
        for mod, fn, n in reversed(self.stack):
            nd = node if node is not None else n
            return (mod.replace('.', '/') if mod else '?', fn, getattr(nd, 'lineno', 0))
        return ('?', '?', getattr(node, 'lineno', 0))

    def event(self, kind, node=None, **kw):
        e = dict(kind=kind, site=self.site(node), task=self.tasks[-1] if self.tasks else None, phase=self.phase,
                 locked=any(l.held for l in self.locks), inproc=bool(self.inproc),
                 stack=[(m, f) for m, f, _ in self.stack], **kw)
        self.events.append(e)
        return e

    def err(self, cls, msg='', node=None, **kw):
        e = EV(cls, [K(msg)], **kw)
        e.auto = True           # raised by an operation, not by a raise statement
        return PyExc(e, self.site(node))

    def faultpoint(self, node, what, kind='ext'):
        """an external operation that may fail"""
        if kind == 'native' or what.startswith('numexpr'):
            self.parallel = True
        if self.phase == 0:
            return
        key = (self.site(node), getattr(node, 'col_offset', 0), what)
        n = self.faultsites.get(key)
        if n is None:
            self.faultsites[key] = dict(dirty=self.dirty(), task=bool(self.tasks), kind=kind, what=what)
        elif not n['dirty'] and self.dirty():
            n['dirty'] = True
        f = self.fault
        if f and not f.get('done'):
            if f.get('key') == key and (not f.get('task') or self.tasks) and (not f.get('dirty') or self.dirty()):
                f['done'] = True
                f['site'] = key
                raise PyExc(EV(f.get('cls', FaultError), [K('injected')], injected=True), key[0])

    def dirty(self):
        if self.ne_threads is not self.ne_init:
            return True
        e0 = self.opts.get('environ0', {})
        if set(self.environ) != set(e0) or any(self.environ[k] is not e0[k] for k in e0):
            return True
        return any(l.held for l in self.locks)

    # ------------------------------------------------------------ decisions
    def decide(self, node, v, default=True, loop=False):
        """outcome of a condition the analysis does not know"""
        self.branch_deps |= v.deps
        default = getattr(node, '_lean', default)
        key = (self.site(node), getattr(node, 'col_offset', 0))
        n = self.visits.get(key, 0)
        self.visits[key] = n + 1
        if key not in self.sites:
            self.sites[key] = default
            self.order.append(key)
        c = self.choices.get(key, default)
        if loop:
            if c and n >= 2:
                return False
            return c
        return c

    def truth(self, v, node, loop=False):
        t = self.known_truth(v)
        if self.chunked and isinstance(v, K) and '#chunk' in v.deps and limit(node):
            self.event('chunk-branch', node)
        if t is None:
            return self.decide(node, v, loop=loop)
        self.branch_deps |= bdeps(v)
        return t

    def known_truth(self, v):
        if isinstance(v, K):
            try:
                return bool(v.v)
            except Exception:
                return None
        if isinstance(v, Seq):
            return None if v.unk else bool(v.items)
        if isinstance(v, Dct):
            return None if v.unk else bool(v.items)
        if isinstance(v, A):
            if v.idx.size == 1 and v.root.val is not None:
                return bool(v.val().reshape(-1)[0])
            if v.idx.size > 1:
                raise self.err(ValueError, 'The truth value of an array with more than one element is ambiguous')
            return None
        if isinstance(v, (Fn, Cls, Obj, Bound, Partial, Mod, EV, GenObj)):
            return True
        if isinstance(v, Nat):
            return None if v.kind in ('unknown',) else True
        if isinstance(v, X):
            return True
        return None

    # ------------------------------------------------------------ modules
    def modpath(self, name):
        p = os.path.join(self.src, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py'):
            return p + '.py', False
        return None, False

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        path, pkg = self.modpath(name)
        if path is None:
            raise self.err(ModuleNotFoundError, name)
        env = Env(None, mod=name, func='<module>')
        env.glob = env
        m = Mod(name, env)
        self.mods[name] = m
        env.vars['__name__'] = K(name)
        env.vars['__file__'] = K(path)
        if name == 'tomopy' or name in ('tomopy.misc', 'tomopy.prep', 'tomopy.recon', 'tomopy.sim', 'tomopy.util',
                                         'tomopy.data'):
            env.vars['__lazy__'] = K(True)
            return m
        self.exec_module(m, path)
        return m

    def exec_module(self, m, path):
        t = tree_of(path)
        ph, self.phase = self.phase, 0
        st, self.stack = self.stack, [(m.name, '<module>', t)]
        try:
            self.exec_block(t.body, m.env)
        finally:
            self.stack = st
            self.phase = ph
        for k, v in m.env.vars.items():
            self.tag_owner(v, 'module:%s.%s' % (m.name, k), set())

    def tag_owner(self, v, owner, seen):
        if id(v) in seen:
            return
        seen.add(id(v))
        if isinstance(v, (Seq, Dct)):
            if v.owner is None:
                v.owner = owner
                v.nz = bool(v.items)
            for x in (v.items if isinstance(v, Seq) else v.items.values()):
                self.tag_owner(x, owner, seen)
        elif isinstance(v, A) and v.root.owner == 'fresh':
            v.root.owner = owner

    def pkg_of(self, mod):
        path, pkg = self.modpath(mod)
        return mod if pkg else mod.rsplit('.', 1)[0]

    def import_from(self, modname, name, node):
        if modname == 'tomopy' or modname.startswith('tomopy.'):
            p, _ = self.modpath(modname + '.' + name)
            if modname == 'tomopy' and name == 'fft_impl':
                return K('numpy.fft')
            if p is not None:
                return self.load(modname + '.' + name)
            return self.getattr(self.load(modname), name, node)
        self.m.check_import(self, modname, node)
        return self.m.ext_attr(self, X(modname), name, node)

    def do_import(self, n, env):
        if isinstance(n, ast.Import):
            for a in n.names:
                top = a.name.split('.')[0]
                if top == 'tomopy':
                    m = self.load(a.name)
                    self.store_name(a.asname or 'tomopy', m if a.asname else self.load('tomopy'), env, n)
                else:
                    self.m.check_import(self, a.name, n)
                    self.store_name(a.asname or top, X(a.name if a.asname else top), env, n)
            return
        mod = n.module or ''
        if n.level:
            base = self.pkg_of(env.mod)
            for _ in range(n.level - 1):
                base = base.rsplit('.', 1)[0]
            mod = base + ('.' + mod if mod else '')
        for a in n.names:
            if a.name == '*':
                if mod.startswith('tomopy'):
                    m = self.load(mod)
                    al = m.env.vars.get('__all__')
                    names = [x.v for x in al.items] if isinstance(al, Seq) else \
                        [k for k in m.env.vars if not k.startswith('_')]
                    for k in names:
                        if k in m.env.vars:
                            self.store_name(k, m.env.vars[k], env, n)
                continue
            self.store_name(a.asname or a.name, self.import_from(mod, a.name, n), env, n)

    # ------------------------------------------------------------ names
    def load_name(self, name, env, node):
        e = env
        while e is not None:
            if e.locs is not None and name in e.locs:
                if name in e.vars:
                    return e.vars[name]
                if e is env or env.comp:
                    raise self.err(UnboundLocalError, name, node)
                raise self.err(NameError, name, node)
            if e.locs is None and not e.comp and e is not e.glob and name in e.vars:   # class bodies
                return e.vars[name]
            if e.comp and name in e.vars:
                return e.vars[name]
            if name in e.globs:
                break
            e = e.parent
        g = env.glob
        if name in g.vars:
            w = self.globw.get((g.mod, name))
            if w is not None and self.phase and w != self.phase:
                self.event('stale-global', node, name=name, mod=g.mod)
            if self.inproc and w is not None:
                pass
            return g.vars[name]
        if name in REALEXC:
            return K(REALEXC[name])
        if name in self.m.BUILTINS:
            return X('builtins.' + name)
        if hasattr(builtins, name):
            return X('builtins.' + name)
        raise self.err(NameError, "name '%s' is not defined" % name, node)

    def store_name(self, name, v, env, node):
        e = env
        while e.comp and isinstance(node, ast.NamedExpr):
            e = e.parent
        if name in e.nonl:
            p = e.parent
            while p is not None:
                if p.locs is not None and name in p.locs:
                    p.vars[name] = v
                    return
                p = p.parent
        if name in e.globs or e is e.glob:
            if self.phase:
                self.globw[(e.glob.mod, name)] = self.phase
                self.event('global-write', node, name=name, mod=e.glob.mod, value=v)
            e.glob.vars[name] = v
            return
        e.vars[name] = v

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for s in body:
            self.exec_stmt(s, env)

    def exec_stmt(self, s, env):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Abort('step limit')
        if self.stack:
            m, f, _ = self.stack[-1]
            self.stack[-1] = (m, f, s)
        t = type(s)
        if t is ast.Expr:
            self.ev(s.value, env)
        elif t is ast.Assign:
            v = self.ev(s.value, env)
            for tg in s.targets:
                self.assign(tg, v, env, s)
        elif t is ast.AugAssign:
            self.augassign(s, env)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env, s)
        elif t is ast.Return:
            raise Ret(self.ev(s.value, env) if s.value is not None else K(None))
        elif t is ast.If:
            if not s.orelse and isinstance(s.body[-1], (ast.Raise, ast.Return, ast.Continue, ast.Break)):
                lean(s.test, False)      # the ordinary path goes on
            if self.truth(self.ev(s.test, env), s.test):
                self.exec_block(s.body, env)
            else:
                self.exec_block(s.orelse, env)
        elif t is ast.For:
            self.exec_for(s, env)
        elif t is ast.While:
            self.exec_while(s, env)
        elif t is ast.With:
            self.exec_with(s.items, s.body, env)
        elif t is ast.Try:
            self.exec_try(s, env)
        elif t is ast.Raise:
            self.exec_raise(s, env)
        elif t in (ast.FunctionDef,):
            self.store_name(s.name, self.make_fn(s, env), env, s)
        elif t is ast.ClassDef:
            self.make_class(s, env)
        elif t in (ast.Import, ast.ImportFrom):
            self.do_import(s, env)
        elif t is ast.Delete:
            for tg in s.targets:
                self.delete(tg, env)
        elif t is ast.Assert:
            v = self.ev(s.test, env)
            k = self.known_truth(v)
            self.branch_deps |= v.deps
            if k is False:
                raise self.err(AssertionError, '', s)
        elif t in (ast.Pass, ast.Global, ast.Nonlocal):
            pass
        elif t is ast.Break:
            raise Brk()
        elif t is ast.Continue:
            raise Cont()
        else:
            raise Abort('statement ' + t.__name__)

    def exec_for(self, s, env):
        itv = self.ev(s.iter, env)
        if self.m.unordered(itv):
            self.disorder += 1
            try:
                self.exec_for_(s, env, itv)
            finally:
                self.disorder -= 1
        else:
            self.exec_for_(s, env, itv)

    def exec_for_(self, s, env, itv):
        broke = False
        for x in self.iterate(itv, s.iter):
            if isinstance(x, tuple):          # ('?', value): may or may not happen
                if not self.decide(s, x[1]):
                    break
                x = x[1]
            self.steps += 1
            if self.steps > self.MAXSTEPS:
                raise Abort('step limit')
            self.assign(s.target, x, env, s)
            try:
                self.exec_block(s.body, env)
            except Brk:
                broke = True
                break
            except Cont:
                continue
        if not broke:
            self.exec_block(s.orelse, env)

    def exec_while(self, s, env):
        n = 0
        while True:
            n += 1
            if n > 3000:
                raise Abort('loop limit')
            if not self.truth(self.ev(s.test, env), s.test, loop=True):
                self.exec_block(s.orelse, env)
                return
            try:
                self.exec_block(s.body, env)
            except Brk:
                return
            except Cont:
                continue

    def exec_with(self, items, body, env):
        if not items:
            self.exec_block(body, env)
            return
        it = items[0]
        cm = self.ev(it.context_expr, env)
        v = self.m.enter(self, cm, it.context_expr)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env, it.context_expr)
        try:
            self.exec_with(items[1:], body, env)
        except PyExc as e:
            if not self.m.exit(self, cm, e, it.context_expr):
                raise
            return
        except (Ret, Brk, Cont):
            self.m.exit(self, cm, None, it.context_expr)
            raise
        self.m.exit(self, cm, None, it.context_expr)

    def exec_try(self, s, env):
        try:
            try:
                self.exec_block(s.body, env)
            except PyExc as e:
                for h in s.handlers:
                    if self.match(h, e, env):
                        if e.ev.injected:
                            self.event('handled', h, ev=e.ev)
                        old = getattr(self, 'handling', None)
                        self.handling = e
                        if h.name:
                            self.store_name(h.name, e.ev, env, h)
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self.handling = old
                            if h.name:
                                env.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, env)
        except (Abort, Hang):
            raise
        except BaseException:
            self.exec_block(s.finalbody, env)
            raise
        self.exec_block(s.finalbody, env)

    def match(self, h, e, env):
        if h.type is None:
            return True
        tv = self.ev(h.type, env)
        lst = tv.items if isinstance(tv, Seq) else [tv]
        for t in lst:
            if self.exc_is(e.ev, t):
                return True
        return False

    def exc_is(self, ev, t):
        c = ev.cls
        if isinstance(t, K) and isinstance(t.v, type):
            if isinstance(c, type):
                return issubclass(c, t.v)
            if isinstance(c, Cls):
                rb = c.realbase()
                return rb is not None and issubclass(rb, t.v)
            return False
        if isinstance(t, Cls):
            while isinstance(c, Cls):
                if c is t:
                    return True
                c = c.bases[0] if c.bases else None
            return False
        return False

    def exec_raise(self, s, env):
        if s.exc is None:
            h = getattr(self, 'handling', None)
            if h is None:
                raise self.err(RuntimeError, 'No active exception', s)
            raise h
        v = self.ev(s.exc, env)
        if s.cause is not None:
            self.ev(s.cause, env)
        if isinstance(v, (Cls,)) or (isinstance(v, K) and isinstance(v.v, type) and issubclass(v.v, BaseException)):
            v = self.call(v, [], {}, s)
        if isinstance(v, EV):
            raise PyExc(v, self.site(s))
        if isinstance(v, Obj):
            raise PyExc(EV(v.cls), self.site(s))
        if isinstance(v, K):
            raise self.err(TypeError, 'exceptions must derive from BaseException', s)
        raise PyExc(EV(Exception), self.site(s))

    def make_fn(self, n, env):
        a = n.args
        defaults = [self.ev(d, env) for d in a.defaults]
        kwd = [self.ev(d, env) if d is not None else None for d in a.kw_defaults]
        name = getattr(n, 'name', '<lambda>')
        f = Fn(n, env, env.mod, name, defaults, kwd)
        pos = a.posonlyargs + a.args
        for p, d in list(zip(pos[len(pos) - len(defaults):], defaults)) + list(zip(a.kwonlyargs, kwd)):
            if d is not None:
                self.tag_owner(d, 'default:%s.%s' % (name, p.arg), set())
        v = f
        for d in reversed(getattr(n, 'decorator_list', [])):
            dv = self.ev(d, env)
            v = self.m.decorate(self, dv, v, d)
        return v

    def make_class(self, n, env):
        bases = [self.ev(b, env) for b in n.bases]
        ce = Env(env.glob, parent=env, mod=env.mod, func=n.name)
        ce.vars = {}
        self.exec_block(n.body, ce)
        c = Cls(n.name, bases, ce.vars, env.mod)
        v = c
        for d in reversed(n.decorator_list):
            v = self.m.decorate(self, self.ev(d, env), v, d)
        self.store_name(n.name, v, env, n)

    def delete(self, t, env):
        if isinstance(t, ast.Name):
            if t.id in env.vars:
                del env.vars[t.id]
            elif t.id in env.glob.vars:
                del env.glob.vars[t.id]
            else:
                raise self.err(NameError, t.id, t)
        elif isinstance(t, ast.Subscript):
            self.m.delitem(self, self.ev(t.value, env), self.ev(t.slice, env), t)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if isinstance(o, Obj):
                o.attrs.pop(t.attr, None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.delete(e, env)

    def assign(self, t, v, env, node):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, env, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, env, node)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            i = self.ev(t.slice, env)
            self.m.setitem(self, o, i, v, node)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, Seq('list', list(self.items_of(v, node))), env, node)
        else:
            raise Abort('assign target')

    def unpack(self, t, v, env, node):
        items = self.m.try_items(self, v, node)
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if items is None:
            for e in t.elts:
                self.assign(e, U(v.deps), env, node)
            return
        if star:
            i = star[0]
            if len(items) < n - 1:
                raise self.err(ValueError, 'not enough values to unpack', node)
            tail = n - 1 - i
            for e, x in zip(t.elts[:i], items[:i]):
                self.assign(e, x, env, node)
            self.assign(t.elts[i].value, Seq('list', items[i:len(items) - tail]), env, node)
            for e, x in zip(t.elts[i + 1:], items[len(items) - tail:]):
                self.assign(e, x, env, node)
            return
        if len(items) != n:
            raise self.err(ValueError, 'cannot unpack %d values into %d' % (len(items), n), node)
        for e, x in zip(t.elts, items):
            self.assign(e, x, env, node)

    def augassign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load_name(t.id, env, t)
            rhs = self.ev(s.value, env)
            v = self.m.inplace(self, old, s.op, rhs, s)
            if self.disorder and isinstance(v, K):
                v = K(v.v, v.deps | self.m.ORDER)
            elif self.disorder and isinstance(v, U):
                v = U(v.deps | self.m.ORDER, v.kind)
            self.store_name(t.id, v, env, s)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            i = self.ev(t.slice, env)
            old = self.m.getitem(self, o, i, s)
            rhs = self.ev(s.value, env)
            new = self.m.inplace(self, old, s.op, rhs, s)
            if isinstance(old, A) and new is old and isinstance(o, A) and old.root is o.root:
                return
            self.m.setitem(self, o, i, new, s)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            old = self.getattr(o, t.attr, s)
            rhs = self.ev(s.value, env)
            self.setattr(o, t.attr, self.m.inplace(self, old, s.op, rhs, s), s)

    # ------------------------------------------------------------ expressions
    def ev(self, n, env):
        self.steps += 1
        t = type(n)
        if t is ast.Name:
            return self.load_name(n.id, env, n)
        if t is ast.Constant:
            return K(n.value)
        if t is ast.Attribute:
            return self.getattr(self.ev(n.value, env), n.attr, n)
        if t is ast.Call:
            return self.ev_call(n, env)
        if t is ast.BinOp:
            return self.m.binop(self, self.ev(n.left, env), n.op, self.ev(n.right, env), n)
        if t is ast.Subscript:
            return self.m.getitem(self, self.ev(n.value, env), self.ev(n.slice, env), n)
        if t is ast.Tuple:
            return Seq('tuple', self.elts(n.elts, env))
        if t is ast.List:
            return Seq('list', self.elts(n.elts, env))
        if t is ast.Set:
            return self.m.mkset(self.elts(n.elts, env))
        if t is ast.Slice:
            p = [self.ev(x, env) if x is not None else K(None) for x in (n.lower, n.upper, n.step)]
            return self.m.mkslice(self, p)
        if t is ast.UnaryOp:
            return self.m.unary(self, n.op, self.ev(n.operand, env), n)
        if t is ast.Compare:
            l = self.ev(n.left, env)
            res = None
            for op, c in zip(n.ops, n.comparators):
                r = self.ev(c, env)
                v = self.m.compare(self, l, op, r, n)
                if len(n.ops) == 1:
                    return v
                kt = self.known_truth(v)
                if kt is False:
                    return v
                res = v if res is None or kt is None else K(True, dep(res, v)) if isinstance(res, K) else res
                l = r
            return res
        if t is ast.BoolOp:
            isand = isinstance(n.op, ast.And)
            last = None
            unk = None
            for x in n.values:
                v = self.ev(x, env)
                if unk is None and x is n.values[-1]:
                    return v
                kt = self.known_truth(v)
                if kt is None:
                    # explore: does evaluation stop here?
                    tv = self.decide(x, v)
                    if tv != isand:
                        return K(tv, v.deps)
                    last = v
                    continue
                self.branch_deps |= bdeps(v)
                if kt != isand:
                    return v
                last = v
            return last
        if t is ast.IfExp:
            if self.truth(self.ev(n.test, env), n.test):
                return self.ev(n.body, env)
            return self.ev(n.orelse, env)
        if t is ast.Dict:
            d = Dct()
            for k, v in zip(n.keys, n.values):
                if k is None:
                    o = self.ev(v, env)
                    if isinstance(o, Dct):
                        d.items.update(o.items)
                        d.unk = d.unk or o.unk
                    else:
                        d.unk = True
                    continue
                kv, vv = self.ev(k, env), self.ev(v, env)
                h = self.m.hkey(kv)
                if h is None:
                    d.unk = True
                else:
                    d.items[h] = vv
            return d
        if t is ast.Lambda:
            return self.make_fn(n, env)
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp):
            out = []
            unk = [False, False]
            self.comp(n.generators, 0, env, lambda e: out.append(self.ev(n.elt, e)), unk)
            if t is ast.SetComp:
                return self.m.mkset(out, unk[0])
            return Seq({'ListComp': 'list', 'GeneratorExp': 'list'}[t.__name__], out, unk=unk[0],
                       deps=frozenset(['#order']) if unk[1] and t is not ast.SetComp and len(out) > 1 else E0)
        if t is ast.DictComp:
            d = Dct()
            unk = [False, False]

            def put(e):
                h = self.m.hkey(self.ev(n.key, e))
                v = self.ev(n.value, e)
                if h is None:
                    d.unk = True
                else:
                    d.items[h] = v
            self.comp(n.generators, 0, env, put, unk)
            d.unk = d.unk or unk[0]
            return d
        if t is ast.JoinedStr:
            parts, deps, ok = [], E0, True
            for x in n.values:
                v = self.ev(x, env)
                deps |= v.deps
                if isinstance(v, K):
                    parts.append(str(v.v))
                else:
                    ok = False
            return K(''.join(parts), deps) if ok else U(deps, 'str')
        if t is ast.FormattedValue:
            v = self.ev(n.value, env)
            if isinstance(v, K) and n.format_spec is None:
                return K(str(v.v), v.deps)
            return U(v.deps, 'str')
        if t is ast.Starred:
            return self.ev(n.value, env)
        if t is ast.NamedExpr:
            v = self.ev(n.value, env)
            self.store_name(n.target.id, v, env, n)
            return v
        if t is ast.Yield:
            g = env
            while g is not None and g.func != '<gen>':
                g = g.parent
            v = self.ev(n.value, env) if n.value is not None else K(None)
            return g.vars['<genobj>'].yield_(v)
        if t is ast.YieldFrom:
            g = env
            for x in self.iterate(self.ev(n.value, env), n):
                g.vars['<genobj>'].yield_(x if not isinstance(x, tuple) else x[1])
            return K(None)
        raise Abort('expression ' + t.__name__)

    def elts(self, lst, env):
        out = []
        for e in lst:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, env)
                it = self.m.try_items(self, v, e)
                if it is None:
                    out.append(U(v.deps))
                else:
                    out += it
            else:
                out.append(self.ev(e, env))
        return out

    def comp(self, gens, i, env, put, unk):
        if i == len(gens):
            put(env)
            return
        g = gens[i]
        itv = self.ev(g.iter, env)
        if self.m.unordered(itv):
            unk[1] = True
        for x in self.iterate(itv, g.iter):
            if isinstance(x, tuple):
                unk[0] = True
                x = x[1]
            e = Env(env.glob, parent=env, mod=env.mod, func=env.func, comp=True)
            self.assign(g.target, x, e, g.iter)
            ok = True
            for c in g.ifs:
                v = self.ev(c, e)
                kt = self.known_truth(v)
                if kt is None:
                    unk[0] = True
                elif not kt:
                    ok = False
                    break
            if ok:
                self.comp(gens, i + 1, e, put, unk)

    def iterate(self, v, node):
        items = self.m.try_items(self, v, node, lazy=True)
        if items is None:
            return [('?', self.m.elem_of(self, v)), ]
        return items

    def items_of(self, v, node):
        items = self.m.try_items(self, v, node)
        if items is None:
            return [U(v.deps)]
        return items

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, node):
        if isinstance(o, Mod):
            return self.mod_attr(o, name, node)
        if isinstance(o, Obj):
            if name in o.attrs:
                return o.attrs[name]
            v = o.cls.lookup(name)
            if v is None:
                if name == '__class__':
                    return o.cls
                raise self.err(AttributeError, name, node)
            return self.bind(o, v, node)
        if isinstance(o, Cls):
            v = o.lookup(name)
            if v is not None:
                return v
            if name == '__name__':
                return K(o.name)
            if name == '__module__':
                return K(o.mod)
            raise self.err(AttributeError, name, node)
        return self.m.attr(self, o, name, node)

    def bind(self, o, v, node):
        if isinstance(v, Fn):
            return Bound(o, v)
        if isinstance(v, Nat) and v.kind == 'property':
            return self.call(v.fget, [o], {}, node)
        if isinstance(v, Nat) and v.kind == 'staticmethod':
            return v.fn
        if isinstance(v, Nat) and v.kind == 'classmethod':
            return Bound(o.cls, v.fn)
        return v

    def mod_attr(self, o, name, node):
        if name in o.env.vars:
            w = self.globw.get((o.name, name))
            if w is not None and self.phase and w != self.phase:
                self.event('stale-global', node, name=name, mod=o.name)
            return o.env.vars[name]
        p, _ = self.modpath(o.name + '.' + name)
        if p is not None:
            return self.load(o.name + '.' + name)
        if '__lazy__' in o.env.vars:
            if o.name == 'tomopy':
                if name == 'fft_impl':
                    return K('numpy.fft')
                t = tree_of(self.modpath('tomopy')[0])
                for s in t.body:
                    if isinstance(s, ast.ImportFrom) and s.names[0].name == '*' and s.module and \
                            s.module.startswith('tomopy'):
                        m = self.load(s.module)
                        al = m.env.vars.get('__all__')
                        if isinstance(al, Seq) and any(isinstance(x, K) and x.v == name for x in al.items) and \
                                name in m.env.vars:
                            return m.env.vars[name]
                    elif isinstance(s, ast.ImportFrom) and s.module and s.module.startswith('tomopy'):
                        for al in s.names:
                            if (al.asname or al.name) == name:
                                return self.import_from(s.module, al.name, node)
            else:
                p, _ = self.modpath(o.name)
                del o.env.vars['__lazy__']
                self.exec_module(o, p)
                if name in o.env.vars:
                    return o.env.vars[name]
        raise self.err(AttributeError, 'module %s has no attribute %s' % (o.name, name), node)

    def setattr(self, o, name, v, node):
        if isinstance(o, Obj):
            o.attrs[name] = v
        elif isinstance(o, Mod):
            self.globw[(o.name, name)] = self.phase
            self.event('global-write', node, name=name, mod=o.name, value=v)
            o.env.vars[name] = v
        elif isinstance(o, Cls):
            o.attrs[name] = v
        elif isinstance(o, Fn):
            if self.phase:
                self.globw[('fn:' + o.name, name)] = self.phase
            o.attrs[name] = v
        else:
            self.m.setattr_(self, o, name, v, node)

    # ------------------------------------------------------------ calls
    def ev_call(self, n, env):
        f = self.ev(n.func, env)
        args = []
        kw = {}
        unk = E0
        bad = False
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                it = self.m.try_items(self, v, a)
                if it is None:
                    bad = True
                    unk |= v.deps
                else:
                    args += it
            else:
                args.append(self.ev(a, env))
        for k in n.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if isinstance(v, Dct):
                    for kk, vv in v.items.items():
                        if kk in kw:
                            raise self.err(TypeError, 'multiple values for keyword', n)
                        kw[kk] = vv
                    bad = bad or v.unk
                else:
                    bad = True
                unk |= v.deps
            else:
                if k.arg in kw:
                    raise self.err(TypeError, 'multiple values for keyword %s' % k.arg, n)
                kw[k.arg] = v
        if bad:
            self.event('imprecise', n, what='unknown arguments')
            d = unk | dep(*args) | dep(*kw.values())
            self.sink_deps |= d
            for a in list(args) + list(kw.values()):
                self.m.havoc(self, a, n)
            return U(d)
        if isinstance(f, X) and f.path in ('builtins.locals', 'builtins.vars', 'builtins.globals') and not args:
            e = env.glob if f.path.endswith('globals') else env
            return Dct(dict(e.vars))
        if isinstance(f, X) and f.path == 'builtins.super':
            return Nat('super', obj=env.vars.get('self'))
        return self.call(f, args, kw, n, env)

    def call(self, f, args, kw, node, env=None):
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw, node)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self] + list(args), kw, node, env)
        if isinstance(f, Partial):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.fn, list(f.args) + list(args), k, node, env)
        if isinstance(f, Cls):
            rb = f.realbase()
            if rb is not None and issubclass(rb, BaseException):
                return EV(f, args, deps=dep(*args))
            o = Obj(f)
            init = f.lookup('__init__')
            if init is not None:
                self.call(init, [o] + list(args), kw, node)
            return o
        if isinstance(f, Obj):
            c = f.cls.lookup('__call__')
            if c is not None:
                return self.call(c, [f] + list(args), kw, node)
            raise self.err(TypeError, 'object is not callable', node)
        if isinstance(f, Mod):
            raise self.err(TypeError, 'module is not callable', node)
        return self.m.call(self, f, args, kw, node, env)

    def bindargs(self, f, args, kw, node):
        a = f.node.args
        pos = a.posonlyargs + a.args
        out = {}
        args = list(args)
        kw = dict(kw)
        for p, v in zip(pos, args):
            out[p.arg] = v
        if len(args) > len(pos):
            if a.vararg is None:
                raise self.err(TypeError, '%s() takes %d positional arguments but %d were given' % (
                    f.name, len(pos), len(args)), node)
        if a.vararg is not None:
            out[a.vararg.arg] = Seq('tuple', args[len(pos):])
        nd = len(f.defaults)
        names = {p.arg for p in a.args + a.kwonlyargs}
        extra = {}
        for k, v in kw.items():
            if k in names:
                if k in out:
                    raise self.err(TypeError, '%s() got multiple values for argument %s' % (f.name, k), node)
                out[k] = v
            else:
                extra[k] = v
        if a.kwarg is not None:
            out[a.kwarg.arg] = Dct(extra)
        elif extra:
            raise self.err(TypeError, '%s() got an unexpected keyword argument %s' % (f.name, sorted(map(str, extra))[0]),
                           node)
        for i, p in enumerate(pos):
            if p.arg not in out:
                j = i - (len(pos) - nd)
                if j < 0:
                    raise self.err(TypeError, '%s() missing argument %s' % (f.name, p.arg), node)
                out[p.arg] = f.defaults[j]
        for p, d in zip(a.kwonlyargs, f.kwdefaults):
            if p.arg not in out:
                if d is None:
                    raise self.err(TypeError, '%s() missing argument %s' % (f.name, p.arg), node)
                out[p.arg] = d
        return out

    def call_fn(self, f, args, kw, node):
        if len(self.stack) > 60:
            raise Abort('recursion depth')
        bound = self.bindargs(f, args, kw, node)
        loc, glo, gen, _, nonl = fn_info(f.node)
        e = Env(f.env.glob, parent=f.env, locs=loc, globs=glo, mod=f.mod, func=f.name, nonl=nonl)
        e.vars.update(bound)
        hook = self.opts.get('on_call')
        if hook:
            hook(self, f, bound, node)
        if gen:
            g = GenObj(self, f, e)
            e.func = '<gen>'
            e.vars['<genobj>'] = g
            # run inside the function's own stack entry
            real = g._run

            def run():
                self.stack = self.stack + [(f.mod, f.name, f.node)]
                real()
            g._run = run
            return g
        self.stack.append((f.mod, f.name, f.node))
        self.executed.add((f.mod, f.name))
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, e)
            try:
                self.exec_block(f.node.body, e)
            except Ret as r:
                return r.v
            return K(None)
        finally:
            self.stack.pop()

    def close(self):
        for g in self.gens:
            g.close()
