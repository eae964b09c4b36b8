"""Abstract interpreter for libtomo's C functions -> structured event trees.

No solver and no concrete execution: integers are polynomials, loops are kept symbolic.
"""
import re
from poly import Atom, Poly, atom, fresh, pdiv, pmod, C0, C1
from cfront import qual, elem_size, pointee, fields, layout

UNINIT = 'UNINIT'
TOP = 'TOP'


class Buf:
    n = 0

    def __init__(self, kind, name, size, site, func, init=None, elem=None):
        Buf.n += 1
        self.id = Buf.n
        self.kind = kind          # param heap local var str global plan
        self.name = name
        self.size = size          # bytes, Poly or None
        self.site = site          # line
        self.func = func
        self.init = init          # malloc / calloc / uninit / given
        self.elem = elem
        self.stores = []          # pointer contents [(off, val)]
        self.loopdepth = ()
        self.elems = None
        self.elemtype = None
        self.const = False
        self.ghost = False        # made while the changes of a loop were being discovered
        self.at = None            # allocation site

    def __repr__(self):
        return '%s:%s' % (self.kind, self.name)


class SV:
    """the value of a structure"""
    def __init__(self, t, vals):
        self.t, self.vals = t, vals

    def __eq__(self, o):
        return isinstance(o, SV) and self.t == o.t and self.vals.keys() == o.vals.keys() and \
            all(same(v, o.vals[k]) for k, v in self.vals.items())

    __hash__ = None


class Ptr:
    __slots__ = ('buf', 'off')

    def __init__(self, buf, off):
        self.buf = buf
        self.off = off            # bytes Poly or None (unknown)

    def __repr__(self):
        return '&%r+%r' % (self.buf, self.off)

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.buf is self.buf and o.off == self.off

    def __hash__(self):
        return hash((id(self.buf), self.off))


class Null:
    def __repr__(self):
        return 'NULL'

    def __eq__(self, o):
        return isinstance(o, Null)

    def __hash__(self):
        return 7


NULL = Null()


class FuncRef:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, FuncRef) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Phi:
    """Alternative of two values selected by a condition (None: unknown)."""
    __slots__ = ('cond', 'a', 'b')

    def __init__(self, cond, a, b):
        self.cond = cond
        self.a = a
        self.b = b

    def alts(self):
        for x in (self.a, self.b):
            if isinstance(x, Phi):
                yield from x.alts()
            else:
                yield x

    def key(self):
        return ('phi', self.cond, vkey(self.a), vkey(self.b))

    def __eq__(self, o):
        return isinstance(o, Phi) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return 'phi(%r,%r)' % (self.a, self.b)


def vkey(v):
    if isinstance(v, Phi):
        return v.key()
    return v


def alts(v):
    return list(v.alts()) if isinstance(v, Phi) else [v]


# ---------------------------------------------------------------- events
class Ev:
    line = 0
    func = ''


class Acc(Ev):
    def __init__(self, rw, buf, off, width, typ):
        self.rw, self.buf, self.off, self.width, self.type = rw, buf, off, width, typ
        self.val = None
        self.rmw = False
        self.alt = False          # one of several possible targets
        self.own = False          # a read that is part of an update of the same element

    def idx(self):
        return self.off.divexact(self.width) if self.off is not None else None

    def __repr__(self):
        i = self.idx()
        return '%s %s[%r]%s @%s:%d' % (self.rw, self.buf, i if i is not None else self.off,
                                      ' rmw' if self.rmw else '', self.func, self.line)


class Loop(Ev):
    def __init__(self):
        self.atom = None
        self.lo = C0
        self.hi = None
        self.exact = True
        self.body = []
        self.omp = None
        self.var = None           # poly of the program variable
        self.simd = False
        self.varname = None

    def __repr__(self):
        return 'loop %r in [%r,%r)%s%s' % (self.atom, self.lo, self.hi, '' if self.exact else ' early',
                                           ' OMP' if self.omp else '')


class If(Ev):
    def __init__(self, cond):
        self.cond = cond
        self.then = []
        self.els = []

    def __repr__(self):
        return 'if %s' % cshow(self.cond)


class Alloc(Ev):
    def __init__(self, buf):
        self.buf = buf

    def __repr__(self):
        return 'alloc %r size=%r @%d' % (self.buf, self.buf.size, self.line)


class Free(Ev):
    def __init__(self, val, api):
        self.val = val
        self.api = api

    def __repr__(self):
        return 'free %r @%d' % (self.val, self.line)


class MemOp(Ev):
    """memset / memcpy"""

    def __init__(self, name, dst, src, size, val=None):
        self.name, self.dst, self.src, self.size, self.val = name, dst, src, size, val

    def __repr__(self):
        return '%s %r %r size=%r @%d' % (self.name, self.dst, self.src, self.size, self.line)


class Ext(Ev):
    def __init__(self, name, args):
        self.name, self.args = name, args

    def __repr__(self):
        return 'ext %s%r @%d' % (self.name, self.args, self.line)


class CallB(Ev):
    """inlined call: Return inside leaves this block"""

    def __init__(self, name):
        self.name = name
        self.body = []

    def __repr__(self):
        return 'call %s @%d' % (self.name, self.line)


class Jump(Ev):
    def __init__(self, kind, val=None):
        self.kind = kind          # return break continue
        self.val = val

    def __repr__(self):
        return self.kind


class VarEv(Ev):
    """access to a scalar variable (emitted inside OpenMP regions)"""

    def __init__(self, rw, key, name, declared_in):
        self.rw, self.key, self.name, self.depth = rw, key, name, declared_in

    def __repr__(self):
        return 'var%s %s' % (self.rw, self.name)


def bare(x):
    while x.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr') and x.get('inner'):
        x = x['inner'][-1]
    return x


def terms(rhs):
    """operands of the arithmetic of an expression"""
    st = [rhs]
    while st:
        x = bare(st.pop())
        if x.get('kind') == 'BinaryOperator' and x.get('opcode') in ('+', '-', '*', '/'):
            st += x['inner']
        else:
            yield x


def same_ast(a, b):
    a, b = bare(a), bare(b)
    if a.get('kind') != b.get('kind') or a.get('opcode') != b.get('opcode') or a.get('name') != b.get('name') or \
            a.get('value') != b.get('value'):
        return False
    if a.get('kind') == 'DeclRefExpr':
        return a['referencedDecl']['id'] == b['referencedDecl']['id']
    x, y = a.get('inner', ()), b.get('inner', ())
    if a.get('kind') == 'CallExpr' or not x and a.get('kind') != 'IntegerLiteral':
        return False
    return len(x) == len(y) and all(same_ast(u, v) for u, v in zip(x, y))


class Scal(Ev):
    """access to a floating-point variable: r read, w assignment, a accumulation (x += ..., x = x + ...)"""

    def __init__(self, rw, key, name):
        self.rw, self.key, self.name = rw, key, name

    def __repr__(self):
        return 'scal%s %s' % (self.rw, self.name)


class Uninit(Ev):
    def __init__(self, name, definite, cond):
        self.name, self.definite, self.cond = name, definite, cond

    def __repr__(self):
        return 'uninit %s def=%s' % (self.name, self.definite)


# ---------------------------------------------------------------- conditions
def c_ge0(p):
    if p.is_const():
        return ('const', p.cval() >= 0)
    return ('ge0', p)


def c_eq0(p):
    if p.is_const():
        return ('const', p.cval() == 0)
    k = p.key()
    if k[-1][1] < 0:
        p = -p
    return ('eq0', p)


def c_not(c):
    if c[0] == 'const':
        return ('const', not c[1])
    if c[0] == 'not':
        return c[1]
    if c[0] == 'ge0':
        return ('ge0', -c[1] - 1)
    return ('not', c)


def cshow(c):
    if c is None:
        return '?'
    if c[0] == 'ge0':
        return '%r>=0' % (c[1],)
    if c[0] == 'eq0':
        return '%r==0' % (c[1],)
    if c[0] == 'not':
        return '!(%s)' % cshow(c[1])
    if c[0] in ('and', 'or'):
        return '(%s %s %s)' % (cshow(c[1]), c[0], cshow(c[2]))
    return repr(c)


def conjuncts(c, pos=True):
    """list of (cond, bool) implied by c being pos"""
    if c[0] == 'not':
        return conjuncts(c[1], not pos)
    if c[0] == 'and' and pos:
        return conjuncts(c[1], True) + conjuncts(c[2], True)
    if c[0] == 'or' and not pos:
        return conjuncts(c[1], False) + conjuncts(c[2], False)
    if c[0] == 'ge0' and not pos:
        return [(c_not(c), True)]
    return [(c, pos)]


def cond_atoms(c, seen=None):
    if c is None:
        return []
    if c[0] in ('ge0', 'eq0'):
        return deep_atoms(c[1], seen)
    if c[0] == 'not':
        return cond_atoms(c[1], seen)
    if c[0] in ('and', 'or'):
        return cond_atoms(c[1], seen) + cond_atoms(c[2], seen)
    if c[0] == 'fcmp':
        return deep_atoms(c[2], seen) + deep_atoms(c[3], seen)
    return []


def deep_atoms(p, seen=None):
    if seen is None:
        seen = set()
    out = []
    for a in p.atoms():
        if a.id in seen:
            continue
        seen.add(a.id)
        out.append(a)
        d = a.data
        if isinstance(d, tuple):
            for x in d:
                if isinstance(x, Poly):
                    out += deep_atoms(x, seen)
                elif isinstance(x, tuple) and x and isinstance(x[0], str):
                    out += cond_atoms(x, seen)
    return out


def dsub(p, mp):
    """p with the atoms of mp (id -> Poly) replaced everywhere; None when one sits where it cannot be replaced"""
    r = C0
    for m, c in p.t.items():
        q = Poly.const(c)
        for i in m:
            if i in mp:
                q = q * mp[i]
                continue
            a = Atom.all[i]
            if not isinstance(a.data, tuple) or not any(x.id in mp for x in deep_atoms(Poly.of(a)) if x is not a):
                q = q * Poly.of(a)
                continue
            if a.kind not in ('div', 'mod', 'ceildiv', 'min', 'max', 'ite', 'bool', 'iop', 'sum', 'bnot'):
                return None
            nd = []
            for x in a.data:
                if isinstance(x, Poly):
                    x = dsub(x, mp)
                    if x is None:
                        return None
                elif isinstance(x, tuple):
                    x = dsub_cond(x, mp)
                    if x is None:
                        return None
                nd.append(x)
            if a.kind == 'div':
                q = q * pdiv(*nd)
            elif a.kind == 'mod':
                q = q * pmod(*nd)
            else:
                q = q * Poly.of(atom(a.kind, tuple(nd), '%s(%s)' % (a.kind, ','.join(map(repr, nd)))[:80]))
        r = r + q
    return r


def dsub_cond(c, mp):
    if c[0] in ('ge0', 'eq0'):
        x = dsub(c[1], mp)
        return None if x is None else (c[0], x)
    if c[0] in ('not', 'and', 'or'):
        xs = [dsub_cond(x, mp) for x in c[1:]]
        return None if any(x is None for x in xs) else (c[0],) + tuple(xs)
    if c[0] == 'const':
        return c
    return None if any(a.id in mp for a in cond_atoms(c)) else c


def psum(d, j, n):
    """sum of d over j = 0 .. n-1"""
    if not any(a is j for a in deep_atoms(d)):
        return d * n
    return Poly.of(atom('sum', (d, j, n), 'sum[%s<%r](%r)' % (j.name, n, d)))


MATH = {'sqrt', 'sqrtf', 'cos', 'cosf', 'sin', 'sinf', 'tan', 'tanf', 'exp', 'expf', 'fabs', 'fabsf', 'floor', 'floorf',
        'ceil', 'ceilf', 'round', 'roundf', 'pow', 'powf', 'log', 'logf', 'log2', 'log2f', 'fmod', 'fmodf', 'atan2', 'atan2f', 'atan',
        'atanf', 'acos', 'asin', 'abs', 'labs', 'cexp', 'cexpf', 'cabs', 'cabsf', 'creal', 'crealf', 'cimag',
        'cimagf', 'fmax', 'fmaxf', 'fmin', 'fminf', 'rint', 'rintf', 'lround', 'lroundf', 'isnan', 'isinf',
        'strcmp', 'strncmp', 'strlen', 'trunc', 'truncf', 'copysign', 'hypot', 'hypotf', '__builtin_expect',
        'lrintf', 'conj', 'conjf', '__builtin_isnan', '__builtin_isinf', 'isfinite', 'signbit', 'fma', 'fmaf',
        'expm1', 'cbrt', 'sinh', 'cosh', 'tanh'}
ALLOCS = {'malloc': 0, 'fftwf_malloc': 0, 'fftw_malloc': 0, '_mm_malloc': 0, 'valloc': 0}
FREES = {'free', 'fftwf_free', 'fftw_free', '_mm_free', '_aligned_free'}
IGNORED = {'printf', 'fprintf', 'puts', 'fflush', 'putchar', '__assert_fail', 'perror', 'omp_set_num_threads',
           'omp_set_dynamic', 'omp_set_nested', 'omp_get_num_threads', 'omp_get_max_threads',
           'omp_get_thread_num', 'omp_get_num_procs', '__builtin_unreachable'}


class State:
    __slots__ = ('env', 'dead', 'cells')

    def __init__(self, env, cells=None):
        self.env = env
        self.dead = False
        self.cells = dict(cells or {})    # buf id -> {const byte offset: value}, replaced never mutated

    def copy(self):
        s = State(dict(self.env), self.cells)
        s.dead = self.dead
        return s


class Frame:
    n = 0

    def __init__(self, func):
        Frame.n += 1
        self.id = Frame.n
        self.func = func
        self.returns = []
        self.ng = 0


class Interp:
    def __init__(self, prog):
        self.prog = prog
        self.ev = []
        self.frames = []
        self.st = None
        self.discover = 0
        self.written = None
        self.guards = []
        self.stack = []
        self.loops = []
        self.brk = []
        self.conts = []
        self.omp_depth = 0
        self.cw = None
        self.crit = 0
        self.vardecl = {}         # var key -> (name, type, loop depth at declaration, static)
        self.globals_written = []
        self.lost = []            # values stored where the analysis cannot follow
        self.collapsed = {}
        self.nloops = 0
        self.notes = []
        self.quiet = []           # variables whose reads belong to an update of themselves
        self.asg = {}             # loop statement -> ids of the variables it assigns
        self.varbufs = {}
        self.truncated = 0
        self.steps = 0

    # ------------------------------------------------------------ entry
    def run(self, func, sizes=None):
        self.func = func
        fr = Frame(func)
        self.frames.append(fr)
        self.st = State({})
        self.pbufs = {}
        self.pints = {}
        for p in func.params:
            t = qual(p['type'])
            k = (fr.id, p['id'])
            nm = p.get('name', '?')
            pe = pointee(t)
            self.vardecl[k] = (nm, t, 0, False)
            if pe is not None:
                b = Buf('param', nm, None, func.line, func.name, 'given')
                b.elem = elem_size(pe)
                b.elemtype = pe
                b.const = 'const' in pe
                self.pbufs[nm] = b
                self.st.env[k] = Ptr(b, C0)
            else:
                a = atom('param', (func.name, nm), nm)
                self.pints[nm] = a
                self.st.env[k] = Poly.of(a)
        root = []
        self.ev = root
        self.stack.append(func.name)
        self.stmt(func.body)
        self.frames.pop()
        return root

    # ------------------------------------------------------------ helpers
    def emit(self, e, n=None):
        if self.discover:
            return e
        e.line = n.get('_line', 0) if n else 0
        e.func = self.frames[-1].func.name
        e.file = self.frames[-1].func.file
        e.crit = self.crit > 0
        self.ev.append(e)
        return e

    def key(self, declid):
        for f in reversed(self.frames):
            k = (f.id, declid)
            if k in self.vardecl:
                return k
        return None

    def resolve(self, v):
        """resolve Phi under current guards"""
        while isinstance(v, Phi) and v.cond is not None:
            hit = None
            for c, pos in reversed(self.guards):
                if c == v.cond:
                    hit = pos
                    break
                if c_not(c) == v.cond:
                    hit = not pos
                    break
            if hit is None:
                break
            v = v.a if hit else v.b
        return v

    def rd_var(self, k, n):
        v = self.st.env.get(k, UNINIT)
        if isinstance(v, tuple) and v and v[0] == 'STRUCT':
            return self.struct_get(k, v[1])
        v = self.resolve(v)
        name = self.vardecl[k][0]
        if v is UNINIT or v == UNINIT:
            if not self.discover:
                self.emit(Uninit(name, True, None), n)
            return self.unk(self.vardecl[k][1], name)
        if isinstance(v, Phi) and any(x is UNINIT for x in v.alts()):
            if not self.discover:
                self.emit(Uninit(name, False, v.cond), n)
            v = strip_uninit(v)
        if isinstance(v, Phi) and all(isinstance(x, Poly) for x in v.alts()):
            v = self.phi_poly(v)
        if self.omp_depth and not self.discover:
            self.emit(VarEv('r', k, name, self.vardecl[k][2]), n)
        if not self.discover and k not in self.quiet and is_float(self.vardecl[k][1]):
            self.emit(Scal('r', k, name), n)
        return v

    def phi_poly(self, v):
        if isinstance(v, Poly):
            return v
        a, b = self.phi_poly(v.a), self.phi_poly(v.b)
        if a == b:
            return a
        cond = v.cond
        if cond is None:
            cond = ('unk', fresh('c').id)
        return Poly.of(atom('ite', (cond, a, b), 'ite(%s)' % (repr(a) + ',' + repr(b))[:60]))

    def wr_var(self, k, v, n, rmw=False):
        cur = self.st.env.get(k)
        if isinstance(cur, tuple) and cur and cur[0] == 'STRUCT':
            self.struct_set(k, cur[1], v, n)
            return
        self.st.env[k] = v
        if self.written is not None:
            self.written.add(k)
        if self.vardecl[k][3] and not self.discover:
            self.globals_written.append((self.vardecl[k][0], n.get('_line', 0), self.frames[-1].func))
        if self.omp_depth and not self.discover:
            self.emit(VarEv('w', k, self.vardecl[k][0], self.vardecl[k][2]), n)
        if not self.discover and is_float(self.vardecl[k][1]):
            self.emit(Scal('a' if rmw else 'w', k, self.vardecl[k][0]), n)
        if isinstance(v, Ptr) and v.buf.kind in ('heap', 'plan') and v.buf.name is None:
            v.buf.name = self.vardecl[k][0]

    # ------------------------------------------------------------ structures
    def fields(self, t):
        return fields(self.frames[-1].func.tu, t) if t else None

    def struct_new(self, k, t, n, static=False):
        """every member of a structure is a variable of its own"""
        nm, _t, dep, _s = self.vardecl[k]
        self.st.env[k] = ('STRUCT', t)
        if self.written is not None:
            self.written.add(k)
        for f, ft in self.fields(t):
            kk = k + (f,)
            self.vardecl[kk] = (nm + '.' + f, ft, dep, static)
            if self.fields(ft):
                self.struct_new(kk, ft, n, static)
                continue
            m = re.match(r'^(.*?)\s*((?:\[\d+\])+)$', ft)
            if m and '(' not in ft:
                es = elem_size(m.group(1))
                size = Poly.const(es) if es else None
                for dm in re.findall(r'\[(\d+)\]', m.group(2)) if size is not None else ():
                    size = size * int(dm)
                b = Buf('local', nm + '.' + f, size, n.get('_line', 0), self.frames[-1].func.name, 'given' if static else 'uninit')
                b.elem, b.elemtype, b.static, b.depth = es, m.group(1), static, len(self.loops)
                self.st.env[kk] = ('ARR', b)
                self.emit(Alloc(b), n)
            else:
                self.st.env[kk] = self.unk(ft, f) if static else UNINIT
            if self.written is not None:
                self.written.add(kk)

    def struct_get(self, k, t):
        out = {}
        for f, ft in self.fields(t) or ():
            v = self.st.env.get(k + (f,), UNINIT)
            out[f] = self.struct_get(k + (f,), v[1]) if isinstance(v, tuple) and v and v[0] == 'STRUCT' else v
        return SV(t, out)

    def struct_set(self, k, t, v, n):
        for f, ft in self.fields(t) or ():
            cur = self.st.env.get(k + (f,))
            x = v.vals.get(f) if isinstance(v, SV) else None
            if isinstance(cur, tuple) and cur and cur[0] == 'STRUCT':
                self.struct_set(k + (f,), cur[1], x, n)
            elif isinstance(cur, tuple) and cur and cur[0] == 'ARR':
                cur[1].init = 'given'       # contents not followed
            elif k + (f,) in self.vardecl:
                self.wr_var(k + (f,), self.unk(ft, f) if x is None else x, n)

    def unk(self, t=None, name=None):
        if t is not None and (pointee(t) is not None):
            return TOP
        return Poly.of(fresh('unk', (name + "'") if name else None))

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            if self.st.dead:
                # declarations after a jump are still unreachable
                break
            self.stmt(s)

    def stmt(self, n):
        k = n.get('kind')
        if not k or self.st.dead:
            return
        self.steps += 1
        if k == 'CompoundStmt':
            self.block(n.get('inner', ()))
        elif k == 'DeclStmt':
            for d in n.get('inner', ()):
                if d.get('kind') == 'VarDecl':
                    self.decl(d)
        elif k == 'IfStmt':
            self.if_(n)
        elif k == 'ForStmt':
            i = n['inner']
            # init, condvar, cond, inc, body
            if i[0]:
                self.stmt(i[0])
            self.loop(n, i[2], i[3], i[4], False, omp=self.collapsed.get(id(n)))
        elif k == 'WhileStmt':
            i = n['inner']
            self.loop(n, i[0], None, i[-1], False)
        elif k == 'DoStmt':
            i = n['inner']
            self.loop(n, i[1], None, i[0], True)
        elif k == 'ReturnStmt':
            v = None
            if n.get('inner'):
                v = self.expr(n['inner'][0])
            self.emit(Jump('return', v), n)
            self.frames[-1].returns.append((self.st.copy(), v, list(self.guards[self.frames[-1].ng:])))
            self.st.dead = True
        elif k == 'BreakStmt':
            self.emit(Jump('break'), n)
            if self.brk:
                self.brk[-1].append(self.st.copy())
            self.st.dead = True
        elif k == 'ContinueStmt':
            self.emit(Jump('continue'), n)
            if self.conts:
                self.conts[-1].append(self.st.copy())
            self.st.dead = True
        elif k in ('NullStmt', 'LabelStmt'):
            for x in n.get('inner', ()):
                self.stmt(x)
        elif k == 'SwitchStmt':
            self.switch(n)
        elif k.startswith('OMP'):
            self.omp(n)
        elif k in ('CapturedStmt',):
            self.stmt(captured(n))
        elif k in ('CaseStmt', 'DefaultStmt'):
            self.stmt(n['inner'][-1])
        elif k == 'AttributedStmt':
            self.stmt(n['inner'][-1])
        else:
            self.expr(n)

    def decl(self, d):
        k = (self.frames[-1].id, d['id'])
        t = qual(d['type'])
        static = d.get('storageClass') == 'static'
        self.vardecl[k] = (d['name'], t, len(self.loops), static)
        init = None
        for x in d.get('inner', ()):
            if x.get('kind') and not x['kind'].endswith('Attr') and not x['kind'].endswith('Comment'):
                init = x
        m = re.match(r'^(.*?)\s*((?:\[[^\]]*\])+)$', t)
        if m and '(' not in t:
            es = elem_size(m.group(1))
            size = Poly.const(es) if es else None
            known = True
            exprs = [x for x in d.get('inner', ()) if x.get('kind')]
            dims = re.findall(r'\[([^\]]*)\]', m.group(2))
            if size is not None:
                for dm in dims:
                    if dm.isdigit():
                        size = size * int(dm)
                    else:
                        size = None
                        break
            if size is None and not all(x.isdigit() for x in dims):
                # VLA: the size expressions are not in the JSON; re-evaluate by name
                size = self.vla_size(es, dims)
            b = Buf('local', d['name'], size, d.get('_line', 0), self.frames[-1].func.name,
                    'given' if (init is not None and init['kind'] == 'InitListExpr') or static else 'uninit')
            b.elem = es
            b.elemtype = m.group(1)
            b.static = static
            b.depth = len(self.loops)
            if init is not None and init['kind'] not in ('InitListExpr', 'StringLiteral', 'ImplicitCastExpr'):
                pass
            if init is not None and init['kind'] == 'InitListExpr':
                self.expr_sink(init)
            self.st.env[k] = ('ARR', b)
            e = Alloc(b)
            self.emit(e, d)
            if self.written is not None:
                self.written.add(k)
            return
        if self.fields(t):
            self.struct_new(k, t, d, static)
            if init is not None and not static:
                self.struct_set(k, t, self.expr(init), d)
            return
        if init is not None and not static:
            v = self.expr(init)
            self.wr_var(k, v, d)
        elif static:
            self.st.env[k] = self.unk(t, d['name'])
        else:
            self.st.env[k] = UNINIT
            if self.written is not None:
                self.written.add(k)

    def vla_size(self, es, dims):
        if es is None:
            return None
        size = Poly.const(es)
        for dm in dims:
            if dm.isdigit():
                size = size * int(dm)
                continue
            v = None
            for kk, (nm, _t, _d, _s) in self.vardecl.items():
                if nm == dm.strip() and kk[0] == self.frames[-1].id:
                    v = self.st.env.get(kk)
            if not isinstance(v, Poly):
                return None
            size = size * v
        return size

    def expr_sink(self, n):
        for x in n.get('inner', ()):
            if x.get('kind') == 'InitListExpr':
                self.expr_sink(x)
            elif x.get('kind') and x['kind'] != 'ImplicitValueInitExpr':
                self.expr(x)

    def if_(self, n):
        i = n['inner']
        c = self.cond(i[0])
        if c[0] == 'const' and not self.discover:
            br = i[1] if c[1] else (i[2] if len(i) > 2 else None)
            if br:
                self.stmt(br)
            return
        self.fork(c, (lambda: self.stmt(i[1])), (lambda: self.stmt(i[2])) if len(i) > 2 else None, n)

    def fork(self, c, then, els, n):
        node = If(c)
        self.emit(node, n)
        save = self.ev
        s0 = self.st
        s1, s2 = s0.copy(), s0.copy()
        ng = len(self.guards)
        self.guards += conjuncts(c, True)
        self.ev = node.then
        self.st = s1
        r1 = then()
        s1 = self.st
        del self.guards[ng:]
        self.guards += conjuncts(c, False)
        self.ev = node.els
        self.st = s2
        r2 = els() if els else None
        s2 = self.st
        del self.guards[ng:]
        self.ev = save
        if s1.dead and s2.dead:
            s1.dead = True
            self.st = s1
        elif s1.dead:
            self.st = s2
            self.guards_after(c, False)
        elif s2.dead:
            self.st = s1
            self.guards_after(c, True)
        else:
            self.st = self.merge(c, s1, s2)
        return r1, r2

    def guards_after(self, c, pos):
        # remaining statements of this frame run under this assumption
        self.guards += conjuncts(c, pos)

    def merge(self, c, s1, s2):
        r = State({})
        for k in s1.env.keys() | s2.env.keys():
            a = s1.env.get(k, UNINIT)
            b = s2.env.get(k, UNINIT)
            if same(a, b):
                r.env[k] = a
            elif k not in s1.env:
                r.env[k] = b
            elif k not in s2.env:
                r.env[k] = a
            else:
                r.env[k] = mkphi(c, a, b)
        for b, m1 in s1.cells.items():
            m2 = s2.cells.get(b)
            if m2 is m1:
                r.cells[b] = m1
            elif m2:
                m = {o: v for o, v in m1.items() if o in m2 and same(v, m2[o])}
                if m:
                    r.cells[b] = m
        return r

    def switch(self, n):
        i = n['inner']
        v = self.expr(i[0])
        body = i[-1]
        self.brk.append([])
        s0 = self.st
        outs = []
        cases = []
        has_default = False
        cur = None

        def flat(st):
            nonlocal cur, has_default
            k = st.get('kind')
            if k in ('CaseStmt', 'DefaultStmt'):
                if k == 'DefaultStmt':
                    has_default = True
                cur = []
                cases.append((st, cur))
                sub = st['inner'][-1]
                if sub.get('kind') in ('CaseStmt', 'DefaultStmt'):
                    flat(sub)
                else:
                    cur.append(sub)
            elif cur is not None:
                cur.append(st)
        for s in body.get('inner', ()):
            flat(s)
        save = self.ev
        for ci, (cs, _) in enumerate(cases):
            node = If(('switch', vkey(v) if not isinstance(v, Poly) else v, cs['id']))
            self.ev = save
            self.emit(node, cs)
            self.ev = node.then
            self.st = s0.copy()
            for (_c, body2) in cases[ci:]:
                self.block(body2)
                if self.st.dead:
                    break
            if not self.st.dead:
                outs.append(self.st)
        self.ev = save
        outs += self.brk.pop()
        if not has_default:
            outs.append(s0.copy())
        self.st = self.merge_all(outs, s0)

    def merge_all(self, outs, s0):
        if not outs:
            s = s0.copy()
            s.dead = True
            return s
        r = outs[0].copy()
        r.dead = False
        for o in outs[1:]:
            r = self.merge(None, r, o)
        return r

    # ------------------------------------------------------------ loops
    def loop(self, n, cond, inc, body, post, omp=None, simd=False):
        ng = len(self.guards)
        entry = self.st.copy()
        # --- discovery: which variables change, and how
        W, prev = set(), self.written
        CW, cprev = set(), self.cw
        nested = self.discover > 0
        self.discover += 1
        sv = (self.st, self.ev)
        solve = nested and self.plain(n)
        if solve:
            W |= {k for k in self.assigned(n) if k in entry.env}
        stable = not nested
        for _round in range(1 if nested and not solve else 4 if nested else 2):
            self.written = set()
            self.cw = set()
            self.st = entry.copy()
            for bid in CW:
                self.st.cells.pop(bid, None)
            fresh_atoms = {}
            for k in W:
                self.st.env[k] = self.havoc(k, entry.env.get(k), fresh_atoms)
            if omp and _round == 1:
                for k in omp['private']:
                    pass
            self.brk.append([])
            self.conts.append([])
            frs = [len(f.returns) for f in self.frames]
            c = None
            if cond and not post:
                c = self.cond(cond)
                ngc = len(self.guards)
                self.guards += conjuncts(c, True) if c[0] != 'const' else []
            at_head = dict(self.st.env)
            self.loops.append(None)
            self.stmt(body)
            self.loops.pop()
            cs = self.conts.pop()
            outs = ([self.st] if not self.st.dead else []) + cs
            brks = self.brk.pop()
            early = bool(brks)
            for f, m in zip(self.frames, frs):
                if len(f.returns) > m:
                    early = True
                    del f.returns[m:]
            self.st = self.merge_all(outs, self.st)
            nocont = not cs
            dead = self.st.dead
            self.st.dead = False
            if inc:
                self.expr(inc)
            if post and cond:
                c = self.cond(cond)
            end = self.st
            del self.guards[ng:]
            new = {k for k in self.written if k in entry.env or k in self.vardecl}
            if solve and _round and new <= W and self.cw <= CW:
                stable = True
                break
            if solve and not _round:
                # variables of the body itself do not carry values into the next pass
                if {k for k in new if k in entry.env} <= W and self.cw <= CW:
                    W |= new
                    stable = True
                    break
            if nested or _round == 0:
                W |= new
                CW |= self.cw
        self.discover -= 1
        self.written = prev
        self.cw = cprev
        if prev is not None:
            prev |= W
        if cprev is not None:
            cprev |= CW
        self.st, self.ev = sv
        # --- induction variables
        ind = {}
        for k in W if stable else ():
            h = fresh_atoms.get(k)
            if h is None:
                continue
            e = end.env.get(k)
            e0 = entry.env.get(k)
            if isinstance(e0, Poly) and isinstance(e, Poly):
                d = e - Poly.of(h)
                if not d.has(h) and not any(d.has(x) for x in fresh_atoms.values()) and inv(d, fresh_atoms) and d.t:
                    ind[k] = d
            elif isinstance(e0, Ptr) and isinstance(e, Ptr) and e.buf is e0.buf and e.off is not None and e0.off is not None:
                d = e.off - (e0.off + Poly.of(h))
                if not any(d.has(x) for x in fresh_atoms.values()) and inv(d, fresh_atoms) and d.t:
                    ind[k] = d
        # increments that follow from the induction variables (sums)
        sums = {}
        if stable and not early and nocont:
            jb = None
            for k in W:
                h = fresh_atoms.get(k)
                e, e0 = end.env.get(k), entry.env.get(k)
                if k in ind or h is None or not isinstance(e, Poly) or not isinstance(e0, Poly):
                    continue
                d = e - Poly.of(h)
                dep = [a for a in deep_atoms(d) if any(a is x for x in fresh_atoms.values())]
                if not d.t or not dep or is_float(self.vardecl[k][1]):
                    continue
                names = {x.id: kk for kk, x in fresh_atoms.items()}
                if any(names[a.id] not in ind or not isinstance(entry.env.get(names[a.id]), Poly) for a in dep):
                    continue
                if jb is None:
                    jb = fresh('bound', 'j')
                d2 = dsub(d, {a.id: entry.env[names[a.id]] + ind[names[a.id]] * Poly.of(jb) for a in dep})
                if d2 is not None:
                    sums[k] = d2
        lp = Loop()
        lp.simd = simd
        lp.omp = omp
        lp.exact = not early
        # --- bound from the condition
        prim, hi = None, None
        if c is not None and c[0] != 'const' and not post:
            cj = conjuncts(c, True)
            for (cc, pos) in cj:
                r = self.bound(cc, pos, ind, fresh_atoms, entry)
                if r and prim is None:
                    prim, hi = r
                    if len(cj) > 1:
                        lp.exact = False
                else:
                    lp.exact = False
            if prim is None:
                lp.exact = False
        elif not cond or not cond.get('kind'):
            lp.exact = False
        else:
            lp.exact = False
        if not nested:
            self.nloops += 1
        name = None
        if prim is not None:
            name = self.vardecl[prim][0]
            lo = entry.env[prim]
            step = ind[prim].cval()
            lp.varname = name
            a = fresh('loop', name)
            lp.atom = a
            if step == 1:
                lp.lo, lp.hi = lo, hi            # v in [lo, hi)
                lp.var = Poly.of(a)
                count = hi - lo
                it = Poly.of(a) - lo
            elif step == -1:
                lp.lo, lp.hi = hi, lo + 1        # v in [hi, lo]
                lp.var = Poly.of(a)
                count = lo + 1 - hi
                it = lo - Poly.of(a)
            else:
                d = hi - lo
                if step < 0:
                    d = -d
                if d.is_const():
                    count = Poly.const(-((-d.cval()) // abs(step)))
                else:
                    count = Poly.of(atom('ceildiv', (d, Poly.const(abs(step))), 'ceil(%r/%d)' % (d, abs(step))))
                lp.lo, lp.hi = C0, count
                it = Poly.of(a)
                lp.var = lo + Poly.of(a) * step
            lp.step = step
        else:
            a = fresh('loop', 'it%d' % self.nloops)
            lp.atom = a
            lp.lo, lp.hi = C0, None
            it = Poly.of(a)
            count = None
            lp.step = 1
            lp.exact = False
        lp.info = None
        final = None
        if count is not None and count.is_const() and 0 < count.cval() <= 8 and lp.exact and not omp and not early and not post \
                and self.plain(n) == 1:
            final = self.unroll(entry, cond, inc, body, int(count.cval()))
        if nested:
            self.st = self.after_loop(entry, end, W, CW, lp, ind, sums, jb if sums else None, prim, hi, count, c, early, final)
            return
        self.emit(lp, n)
        # --- real body
        st = entry.copy()
        for bid in CW:
            st.cells.pop(bid, None)
        for k in W:
            if k == prim:
                st.env[k] = lp.var
            elif k in ind:
                e0 = entry.env[k]
                if isinstance(e0, Ptr):
                    st.env[k] = Ptr(e0.buf, e0.off + ind[k] * it)
                else:
                    st.env[k] = e0 + ind[k] * it
            elif k in sums:
                st.env[k] = entry.env[k] + psum(sums[k], jb, it)
            else:
                st.env[k] = self.havoc2(k, entry.env.get(k), end.env.get(k))
        if omp:
            for k in omp['private']:
                if k != prim:
                    st.env[k] = UNINIT
            for k in omp['reduction']:
                st.env[k] = self.unk(None, self.vardecl[k][0])
        save = self.ev
        if not self.discover:
            self.ev = lp.body
        self.st = st
        self.brk.append([])
        self.conts.append([])
        if cond and cond.get('kind') and not post:
            cc = self.cond(cond)
            if cc[0] != 'const':
                self.guards += conjuncts(cc, True)
        if omp:
            self.omp_depth += 1
        self.loops.append(lp)
        self.stmt(body)
        outs = ([self.st] if not self.st.dead else []) + self.conts.pop()
        brks = self.brk.pop()
        self.st = self.merge_all(outs, self.st)
        self.st.dead = False
        if inc:
            self.expr(inc)
        if post and cond:
            self.cond(cond)
        self.loops.pop()
        if omp:
            self.omp_depth -= 1
        del self.guards[ng:]
        self.ev = save
        self.st = self.after_loop(entry, end, W, CW, lp, ind, sums, jb if sums else None, prim, hi, count, c, early, final)

    def unroll(self, entry, cond, inc, body, count):
        """the state after a short loop of known length; None when it may be left early"""
        save = (self.st, self.ev, self.written, self.cw, self.globals_written, self.lost)
        ng = len(self.guards)
        self.discover += 1
        self.written, self.cw = set(), set()
        self.ev, self.globals_written, self.lost = [], [], []
        frs = [len(f.returns) for f in self.frames]
        self.st = entry.copy()
        ok = True
        for _ in range(count):
            self.brk.append([])
            self.conts.append([])
            if cond:
                self.cond(cond)
            self.loops.append(None)
            self.stmt(body)
            self.loops.pop()
            cs = self.conts.pop()
            outs = ([self.st] if not self.st.dead else []) + cs
            if self.brk.pop() or any(len(f.returns) > m for f, m in zip(self.frames, frs)):
                ok = False
            self.st = self.merge_all(outs, self.st)
            self.st.dead = False
            if inc:
                self.expr(inc)
            if not ok:
                break
        for f, m in zip(self.frames, frs):
            del f.returns[m:]
        del self.guards[ng:]
        self.discover -= 1
        r = self.st
        for k, v in r.env.items():
            if isinstance(v, Phi) and k in entry.env and not any(x is UNINIT for x in v.alts()):
                r.env[k] = self.num(v)
        self.st, self.ev, self.written, self.cw, self.globals_written, self.lost = save
        return r if ok else None

    def plain(self, n):
        """a loop whose counters are worth solving while an enclosing loop is explored:
        calls no function of the library and nests at most two more loops"""
        r = self.asg.get(('plain', id(n)))
        if r is None:
            def depth(x):
                if not isinstance(x, dict):
                    return 0
                k = x.get('kind')
                d = 1 if k in ('ForStmt', 'WhileStmt', 'DoStmt') else 0
                if k == 'CallExpr':
                    t = x['inner'][0]
                    while t.get('kind') in ('ParenExpr', 'ImplicitCastExpr'):
                        t = t['inner'][0]
                    if t.get('kind') == 'DeclRefExpr' and self.prog.find(t['referencedDecl'].get('name', '')):
                        return 9
                return d + max([depth(y) for y in x.get('inner', ())] or [0])
            d = depth(n)
            r = self.asg[('plain', id(n))] = d if d <= 3 else 0
        return r

    def assigned(self, n):
        """keys of the current frame's variables that the loop's own statements assign"""
        ids = self.asg.get(id(n))
        if ids is None:
            ids = set()
            st = [n]
            while st:
                x = st.pop()
                if not isinstance(x, dict):
                    continue
                k = x.get('kind')
                if k in ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator') and \
                        (k == 'CompoundAssignOperator' or x.get('opcode') in ('=', '++', '--', '&')):
                    t = x['inner'][0]
                    while t.get('kind') == 'ParenExpr':
                        t = t['inner'][0]
                    if t.get('kind') == 'DeclRefExpr':
                        ids.add(t['referencedDecl']['id'])
                st += x.get('inner', ())
            self.asg[id(n)] = ids
        return {self.key(i) for i in ids}

    def after_loop(self, entry, end, W, CW, lp, ind, sums, jb, prim, hi, count, c, early, final=None):
        out = entry.copy()
        for bid in CW:
            out.cells.pop(bid, None)
            if final is not None and bid in final.cells:
                out.cells[bid] = final.cells[bid]
        for k in W:
            if k not in entry.env:
                continue
            if k in ind and lp.exact and count is not None:
                e0 = entry.env[k]
                if isinstance(e0, Ptr):
                    out.env[k] = Ptr(e0.buf, e0.off + ind[k] * count)
                elif prim == k and lp.step in (1,):
                    out.env[k] = hi
                elif prim == k and lp.step == -1:
                    out.env[k] = hi - 1
                else:
                    out.env[k] = e0 + ind[k] * count
            elif k in sums and lp.exact and count is not None:
                out.env[k] = entry.env[k] + psum(sums[k], jb, count)
            elif final is not None and isinstance(final.env.get(k), Poly) and sizeof_poly(final.env[k]) < 60:
                out.env[k] = final.env[k]
            else:
                out.env[k] = self.havoc2(k, entry.env.get(k), end.env.get(k))
        if c == ('const', True) and not early:
            out.dead = True
        return out

    def havoc(self, k, v0, atoms):
        h = fresh('h', self.vardecl[k][0] + '~')
        atoms[k] = h
        if isinstance(v0, Ptr) and v0.off is not None:
            return Ptr(v0.buf, v0.off + Poly.of(h))
        if isinstance(v0, (Ptr, Null, Phi)) or v0 is TOP or pointee(self.vardecl[k][1]) is not None:
            return v0 if v0 is not None else TOP
        if isinstance(v0, tuple) and v0[0] in ('ARR', 'STRUCT'):
            return v0
        return Poly.of(h)

    def havoc2(self, k, v0, v1):
        if isinstance(v0, tuple) and v0 and v0[0] in ('ARR', 'STRUCT'):
            return v0
        t = self.vardecl[k][1]
        if pointee(t) is not None or isinstance(v0, (Ptr, Null)):
            al = []
            for x in alts(v0) + alts(v1):
                if x is UNINIT or x is None:
                    continue
                if isinstance(x, Ptr):
                    # offset may have moved
                    x = Ptr(x.buf, x.off if (not isinstance(x.off, Poly) or not any(a.kind == 'h' for a in x.off.atoms())) else None)
                if not any(same(x, y) for y in al):
                    al.append(x)
            if not al:
                return TOP
            r = al[0]
            for x in al[1:]:
                r = Phi(None, r, x)
            return r
        return Poly.of(fresh('unk', self.vardecl[k][0] + "'"))

    def bound(self, c, pos, ind, fa, entry):
        """variable bound from one conjunct -> (key, hi) with hi exclusive (lo inclusive for step -1)"""
        if c[0] == 'ge0' and pos:
            p = c[1]
        elif c[0] == 'eq0' and not pos:
            p = None
        else:
            return None
        for k, d in ind.items():
            if not d.is_const() or not isinstance(entry.env.get(k), Poly):
                continue
            h = fa[k]
            s = d.cval()
            if p is None:
                q = c[1]
                if not q.has(h):
                    continue
                co, rest = q.coef(h)
                if not co.is_const() or abs(co.cval()) != 1 or not inv(rest, fa):
                    continue
                v = rest * (-co.cval())          # h == v ends the loop
                if s == 1:
                    return k, v
                if s == -1:
                    return k, v + 1
                continue
            if not p.has(h):
                continue
            co, rest = p.coef(h)
            if not co.is_const() or not inv(rest, fa):
                continue
            if co.cval() == -1 and s > 0:
                return k, rest + 1               # rest - h >= 0  -> h < rest+1
            if co.cval() == 1 and s < 0:
                return k, -rest                  # h + rest >= 0 -> h >= -rest
        return None

    # ------------------------------------------------------------ OpenMP
    def omp(self, n):
        kind = n['kind']
        body = None
        for x in n.get('inner', ()):
            if x.get('kind') in ('CapturedStmt', 'ForStmt', 'CompoundStmt', 'AttributedStmt') or \
                    (x.get('kind') or '').startswith('OMP'):
                body = x
        if body is None:
            self.notes.append('OMP directive without body: %s' % kind)
            return
        while body.get('kind') == 'CapturedStmt':
            body = captured(body)
        text = n.get('_pragma', '').replace('\\\n', ' ')
        info = {'kind': kind, 'private': [], 'reduction': [], 'firstprivate': [], 'text': text, 'line': n.get('_line')}
        for m in re.finditer(r'\b(private|firstprivate|lastprivate|linear|reduction)\s*\(([^)]*)\)', text):
            names = m.group(2)
            if ':' in names:
                names = names.split(':')[1] if m.group(1) == 'reduction' else names.split(':')[0]
            for nm in [x.strip() for x in names.split(',') if x.strip()]:
                for kk in list(self.vardecl):
                    if kk[0] == self.frames[-1].id and self.vardecl[kk][0] == nm and kk in self.st.env:
                        tgt = {'private': 'private', 'lastprivate': 'private', 'reduction': 'reduction'}.get(m.group(1), 'firstprivate')
                        info[tgt].append(kk)
        m = re.search(r'collapse\s*\(\s*(\d+)', text)
        info['collapse'] = int(m.group(1)) if m else 1
        # the counters of a collapsed nest are private, and every level of it runs in parallel
        nest, inner = body, []
        while nest.get('kind') == 'ForStmt' and len(inner) < info['collapse'] - 1:
            nest = nest['inner'][4]
            while nest.get('kind') == 'CompoundStmt' and len(nest.get('inner', ())) == 1:
                nest = nest['inner'][0]
            if nest.get('kind') != 'ForStmt':
                break
            inner.append(nest)
            i0 = nest['inner'][0]
            if i0 and i0.get('kind') == 'BinaryOperator' and i0['inner'][0].get('kind') == 'DeclRefExpr':
                lv = self.lval(i0['inner'][0])
                if lv[0] == 'var':
                    info['private'].append(lv[1])
        sub = dict(info, private=[], firstprivate=info['firstprivate'] + info['private'], collapse=1)
        for x in inner:
            self.collapsed[id(x)] = sub
        par = 'Parallel' in kind or 'TeamsDistribute' in kind or 'Taskloop' in kind
        if body.get('kind') == 'ForStmt' and 'For' in kind and (par or self.omp_depth):
            i = body['inner']
            if i[0]:
                self.stmt(i[0])
            self.loop(body, i[2], i[3], i[4], False, omp=info)
        elif body.get('kind') == 'ForStmt' and 'Simd' in kind:
            i = body['inner']
            if i[0]:
                self.stmt(i[0])
            self.loop(body, i[2], i[3], i[4], False, simd=True)
        else:
            if par:
                self.notes.append('OMP region %s not a canonical loop (line %s)' % (kind, n.get('_line')))
            sync = 'Critical' in kind or 'Atomic' in kind or 'Ordered' in kind
            self.crit += sync
            self.stmt(body)
            self.crit -= sync

    # ------------------------------------------------------------ conditions
    def cond(self, n):
        k = n.get('kind')
        if k in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr', 'ConstantExpr') and len(n.get('inner', ())) == 1:
            if k == 'ImplicitCastExpr' and n.get('castKind') in ('LValueToRValue',):
                pass
            elif k == 'CStyleCastExpr':
                pass
            else:
                return self.cond(n['inner'][0])
        if k == 'UnaryOperator' and n['opcode'] == '!':
            return c_not(self.cond(n['inner'][0]))
        if k == 'BinaryOperator' and n['opcode'] in ('&&', '||'):
            a = self.cond(n['inner'][0])
            isand = n['opcode'] == '&&'
            if a[0] == 'const':
                if a[1] != isand:
                    return a
                return self.cond(n['inner'][1])
            box = {}

            def rhs():
                box['c'] = self.cond(n['inner'][1])
            if isand:
                self.fork(a, rhs, None, n)
            else:
                self.fork(a, lambda: None, rhs, n)
            b = box['c']
            if b[0] == 'const':
                if b[1] == isand:
                    return a
                return b
            return ('and' if isand else 'or', a, b)
        if k == 'BinaryOperator' and n['opcode'] in ('<', '>', '<=', '>=', '==', '!='):
            a = self.expr(n['inner'][0])
            b = self.expr(n['inner'][1])
            op = n['opcode']
            if is_ptr(a) or is_ptr(b):
                if isinstance(b, Null) or isinstance(a, Null) or (isinstance(b, Poly) and b.is_const()) \
                        or (isinstance(a, Poly) and a.is_const()):
                    p = a if is_ptr(a) and not isinstance(a, Null) else b
                    c = self.nullcond(p)
                    return c if op == '==' else c_not(c)
                return ('unk', fresh('c').id)
            if isinstance(a, Phi):
                a = self.unk()
            if isinstance(b, Phi):
                b = self.unk()
            if not isinstance(a, Poly) or not isinstance(b, Poly):
                return ('unk', fresh('c').id)
            if is_float(qual(n['inner'][0].get('type'))) or is_float(qual(n['inner'][1].get('type'))):
                if op in ('>', '>='):
                    a, b, op = b, a, {'>': '<', '>=': '<='}[op]
                if op == '!=':
                    return ('not', ('fcmp', '==', a, b))
                return ('fcmp', op, a, b)
            if op == '<':
                return c_ge0(b - a - 1)
            if op == '<=':
                return c_ge0(b - a)
            if op == '>':
                return c_ge0(a - b - 1)
            if op == '>=':
                return c_ge0(a - b)
            if op == '==':
                return c_eq0(a - b)
            return c_not(c_eq0(a - b))
        v = self.expr(n)
        if is_ptr(v):
            return c_not(self.nullcond(v))
        if isinstance(v, Phi):
            v = self.num(v)
        if isinstance(v, Poly):
            if is_float(qual(n.get('type'))):
                return ('not', ('fcmp', '==', v, C0))
            if len(v.t) == 1 and v.atoms():
                a = v.atoms()[0]
                if v == Poly.of(a) and a.kind == 'bool':
                    return a.data[0]
                if v == Poly.of(a) and a.kind == 'ite' and a.data[0] is not None and len(a.data) == 3:
                    x, y = a.data[1], a.data[2]
                    if x.is_const() and y.is_const():
                        if x.cval() and not y.cval():
                            return a.data[0]
                        if y.cval() and not x.cval():
                            return c_not(a.data[0])
            return c_not(c_eq0(v))
        return ('unk', fresh('c').id)

    def nullcond(self, p):
        p = self.resolve(p)
        if isinstance(p, Null):
            return ('const', True)
        if isinstance(p, Ptr):
            if p.buf.kind in ('heap', 'plan'):
                return ('allocfail', p.buf.id)
            if p.buf.kind == 'param':
                return ('nullparam', p.buf.name)
            return ('const', False)
        if isinstance(p, Phi):
            al = list(p.alts())
            if len(al) == 2 and p.cond is not None:
                if isinstance(p.a, Null) and isinstance(p.b, Ptr):
                    return p.cond
                if isinstance(p.b, Null) and isinstance(p.a, Ptr):
                    return c_not(p.cond)
        return ('unk', fresh('c').id)

    # ------------------------------------------------------------ expressions
    def expr(self, n):
        k = n.get('kind')
        m = getattr(self, 'e_' + k, None) if k else None
        if m:
            return m(n)
        # unknown expression: evaluate children for their effects
        for x in n.get('inner', ()):
            if x.get('kind'):
                if x['kind'].endswith('Stmt'):
                    self.stmt(x)
                else:
                    self.expr(x)
        return self.unk(qual(n.get('type')))

    def e_ParenExpr(self, n):
        return self.expr(n['inner'][0])

    e_ConstantExpr = e_ParenExpr

    def e_IntegerLiteral(self, n):
        return Poly.const(int(n['value']))

    def e_CharacterLiteral(self, n):
        return Poly.const(int(n['value']))

    def e_FloatingLiteral(self, n):
        return Poly.of(atom('fc', str(n['value']), str(n['value'])))

    def e_ImaginaryLiteral(self, n):
        return Poly.of(atom('fc', 'I', 'I'))

    def e_StringLiteral(self, n):
        b = Buf('str', n.get('value', ''), None, 0, '')
        return Ptr(b, C0)

    def e_UnaryExprOrTypeTraitExpr(self, n):
        t = n.get('argType')
        if t is None and n.get('inner'):
            t = n['inner'][0].get('type')
        s = elem_size(qual(t)) if t else None
        return Poly.const(s) if s else self.unk()

    def lval(self, n):
        k = n.get('kind')
        if k in ('ParenExpr', 'ConstantExpr') or (k == 'ImplicitCastExpr' and n.get('castKind') not in ('LValueToRValue',)):
            return self.lval(n['inner'][0])
        if k == 'DeclRefExpr':
            rd = n['referencedDecl']
            kk = self.key(rd['id'])
            if kk is None:
                return ('glob', rd)
            return ('var', kk)
        t = qual(n.get('type'))
        w = elem_size(t)
        if k == 'ArraySubscriptExpr':
            base = self.expr(n['inner'][0])
            idx = self.expr(n['inner'][1])
            if not is_ptr(base) and is_ptr(idx):
                base, idx = idx, base
            if isinstance(idx, Phi):
                idx = self.phi_poly(idx) if all(isinstance(x, Poly) for x in idx.alts()) else self.unk()
            return ('mem', self.padd(base, idx, w), w, t)
        if k == 'UnaryOperator' and n['opcode'] == '*':
            return ('mem', self.expr(n['inner'][0]), w, t)
        if k == 'UnaryOperator' and n['opcode'] in ('__real', '__imag', '__extension__'):
            lv = self.lval(n['inner'][0])
            if lv[0] == 'mem':
                p = lv[1]
                if n['opcode'] == '__imag' and isinstance(p, Ptr) and p.off is not None:
                    p = Ptr(p.buf, p.off + 4)
                return ('mem', p, w, t)
            return ('part', lv)
        if k == 'MemberExpr':
            x = n['inner'][0]
            if n.get('isArrow'):
                st = pointee(qual(x.get('type'))) or ''
                p = self.resolve(self.expr(x))
                if isinstance(p, Phi):
                    al = [y for y in p.alts() if not isinstance(y, Null)]
                    p = al[0] if len(al) == 1 else TOP
                base = ('mem', p)
                if isinstance(p, Ptr) and p.buf.kind == 'var' and p.off == C0:
                    base = ('var', p.buf.varkey)
            else:
                st = qual(x.get('type'))
                base = self.lval(x)
            if base[0] == 'var':
                kk = base[1] + (n.get('name'),)
                return ('var', kk) if kk in self.vardecl else ('unk', t)
            if base[0] == 'mem' and isinstance(base[1], Ptr):
                off = layout(self.frames[-1].func.tu, st)[2].get(n.get('name'))
                if off is not None:
                    return ('mem', self.padd(base[1], Poly.const(off), 1), w, t)
            if base[0] == 'val' and isinstance(base[1], SV):
                return ('val', base[1].vals.get(n.get('name'), self.unk(t)))
            return ('unk', t)
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            self.expr(n)
            return self.lval(n['inner'][0])
        v = self.expr(n)
        return ('val', v)

    def padd(self, base, idx, w):
        if isinstance(base, Phi):
            return Phi(base.cond, self.padd(base.a, idx, w), self.padd(base.b, idx, w))
        if isinstance(base, Ptr):
            if base.off is None or w is None or not isinstance(idx, Poly):
                return Ptr(base.buf, None)
            return Ptr(base.buf, base.off + idx * w)
        if isinstance(base, Null):
            return NULL
        return TOP

    def load(self, lv, n):
        if lv[0] == 'var':
            kk = lv[1]
            v = self.st.env.get(kk, UNINIT)
            if isinstance(v, tuple) and v[0] == 'ARR':
                return Ptr(v[1], C0)
            return self.rd_var(kk, n)
        if lv[0] == 'glob':
            rd = lv[1]
            if rd['kind'] == 'FunctionDecl':
                return FuncRef(rd['name'])
            if rd['kind'] == 'EnumConstantDecl':
                return Poly.of(atom('enum', rd['name'], rd['name']))
            g = self.prog.globals.get(rd['id'])
            if g is not None and '[' in g.type:
                b = Buf('global', rd['name'], None, 0, '')
                return Ptr(b, C0)
            return self.unk(qual(rd.get('type')), rd['name'])
        if lv[0] == 'mem':
            return self.load_mem(self.resolve(lv[1]), lv[2], lv[3], n)
        if lv[0] == 'part':
            self.load(lv[1], n)
            return self.unk()
        if lv[0] == 'val':
            return lv[1]
        return self.unk(lv[1] if len(lv) > 1 else None)

    def load_mem(self, p, w, t, n):
        if isinstance(p, Phi):
            vs = []
            for x in p.alts():
                if isinstance(x, Ptr):
                    vs.append(self.load_mem(x, w, t, n))
                    if not self.discover and self.ev and isinstance(self.ev[-1], Acc):
                        self.ev[-1].alt = True
            if vs and all(is_ptr(x) for x in vs):
                r = vs[0]
                for x in vs[1:]:
                    if not same(r, x):
                        r = Phi(None, r, x)
                return r
            return self.unk(t)
        if not isinstance(p, Ptr):
            return self.unk(t)
        b = p.buf
        if b.kind == 'var':
            return self.rd_var(b.varkey, n)
        if b.kind == 'str':
            return self.unk(t)
        if '[' in t and '(' not in t:     # sub-array decays
            return p
        self.emit(Acc('r', b, p.off, w, t), n)
        if pointee(t) is not None:
            return self.load_ptr(b, p.off)
        if b.kind == 'param' and p.off is not None and b.const is not None:
            # value of an input element: structural, so equal loads agree (kept as an opaque atom)
            if not getattr(b, 'writ', False):
                i = p.off.divexact(w) if w else None
                return Poly.of(atom('ld', (b.id, p.off), '%s[%r]' % (b.name, i)))
        if is_float(t) or not w:
            return self.unk(t)
        m = self.st.cells.get(b.id)
        if m and p.off is not None:
            if p.off.is_const() and p.off.cval() in m:
                return m[p.off.cval()]
            r = unify(p.off, Poly.const(0))
            la = [x for x in p.off.atoms()]
            if len(la) == 1 and la[0].kind == 'loop' and p.off.degree_in(la[0]) == 1:
                co, rest = p.off.coef(la[0])
                lp = [x for x in self.loops if x is not None and x.atom is la[0]]
                if lp and co.is_const() and rest.is_const() and lp[0].hi is not None and lp[0].lo.is_const() and lp[0].hi.is_const() \
                        and 0 < lp[0].hi.cval() - lp[0].lo.cval() <= 32:
                    offs = [co.cval() * i + rest.cval() for i in range(lp[0].lo.cval(), lp[0].hi.cval())]
                    if all(o in m for o in offs):
                        f = fresh('unk', '%s[%r]' % (b.name, p.off.divexact(w)))
                        CANDS[f.id] = [m[o] for o in offs]
                        return Poly.of(f)
        f = fresh('unk')
        ORIGIN[f.id] = b.id
        return Poly.of(f)

    def load_ptr(self, b, off):
        c = []
        # row table built by a recurrence a[L] = a[L-1] + c with a[lo-1] known
        if off is not None and not self.discover:
            for lp in self.loops:
                if lp is None or lp.hi is None or lp.step != 1:
                    continue
                if off == (Poly.of(lp.atom) - 1) * 8:
                    for (o, v) in b.stores:
                        if o is not None and o == (lp.lo - 1) * 8 and isinstance(v, Ptr) and v.off is not None:
                            return Ptr(v.buf, v.off + Poly.of(atom('rec', (b.id, lp.atom.id), 'rec')))
        sts = b.stores
        for (o, v) in sts:
            if o is not None and o == off:
                return v
        pats = [(o, v) for (o, v) in sts if o is not None and isinstance(v, Ptr) and v.off is not None
                and len([a for a in o.atoms() if a.kind == 'loop']) == 1]
        if pats:
            # a constant entry that the row formula already gives adds nothing
            def covered(o2, v2):
                for o, v in pats:
                    if o2 is o or o2 is None or not isinstance(v2, Ptr):
                        continue
                    r = unify(o, o2)
                    if r is not None and subst_val(v, r) == v2:
                        return True
                return False
            sts = [(o, v) for (o, v) in sts if not covered(o, v)]
        for (o, v) in sts:
            if o is not None and off is not None:
                r = unify(o, off)
                if r is not None:
                    c.append(subst_val(v, r))
                    continue
            c.append(generic(v))
        if b.kind == 'param':
            key = (b.id, off)
            sub = getattr(b, 'subs', None)
            if sub is None:
                b.subs = sub = {}
            if 'x' not in sub:
                nb = Buf('param', b.name + '[]', None, b.site, b.func, 'given')
                nb.elem = 4
                sub['x'] = nb
            return Ptr(sub['x'], C0)
        if not c:
            return TOP
        r = c[0]
        for v in c[1:]:
            if not same(r, v):
                r = Phi(None, r, v)
        return r

    def store(self, lv, v, n, rmw=False):
        if lv[0] == 'var':
            self.wr_var(lv[1], v, n, rmw)
        elif lv[0] == 'glob':
            if not self.discover:
                self.globals_written.append((lv[1]['name'], n.get('_line', 0), self.frames[-1].func))
                self.lost.append(v)
        elif lv[0] == 'mem':
            self.store_mem(self.resolve(lv[1]), lv[2], lv[3], v, n, rmw)
        elif lv[0] == 'part':
            if lv[1][0] == 'var':
                self.wr_var(lv[1][1], self.unk(), n)
            self.lost.append(v)
        else:
            self.lost.append(v)

    def store_mem(self, p, w, t, v, n, rmw, alt=False):
        if isinstance(p, Phi):
            for x in p.alts():
                if isinstance(x, Ptr):
                    self.store_mem(x, w, t, v, n, rmw, True)
            return
        if not isinstance(p, Ptr):
            self.lost.append(v)
            return
        b = p.buf
        if b.kind == 'var':
            if alt:
                v = mkphi(None, v, self.st.env.get(b.varkey, UNINIT))
            self.wr_var(b.varkey, v, n, rmw)
            return
        if self.cw is not None:
            self.cw.add(b.id)
        if w and not alt and p.off is not None and p.off.is_const() and isinstance(v, Poly) and not is_float(t) \
                and b.kind in ('local', 'heap') and not p.off.cval() % w:
            m = dict(self.st.cells.get(b.id) or {})
            m[p.off.cval()] = v
            self.st.cells[b.id] = m
        else:
            self.st.cells.pop(b.id, None)
        a = Acc('w', b, p.off, w, t)
        a.val = v
        a.rmw = rmw
        a.alt = alt
        b.writ = True
        self.emit(a, n)
        if isinstance(v, Ptr) and v.off is not None and p.off is not None:
            for ra in v.off.atoms():
                if ra.kind == 'rec' and ra.data[0] == b.id:
                    la = Atom.all[ra.data[1]]
                    lp = [x for x in self.loops if x is not None and x.atom is la]
                    co, rest = v.off.coef(ra)
                    if lp and p.off == Poly.of(la) * 8 and co == C1 and not rest.has(la):
                        base = [x for (o, x) in b.stores if o == (lp[0].lo - 1) * 8]
                        if base:
                            st = rest - base[0].off
                            v = Ptr(v.buf, base[0].off + st * (Poly.of(la) - lp[0].lo + 1))
                            a.val = v
        if is_ptr(v):
            if isinstance(v, Ptr) and v.buf.kind == 'heap' and v.buf.name is None:
                v.buf.name = (b.name or '?') + '[]'
            if not self.discover:
                b.stores = [(o, x) for (o, x) in b.stores if o != p.off] + [(p.off, v)]

    def e_DeclRefExpr(self, n):
        lv = self.lval(n)
        if lv[0] == 'glob':
            return self.load(lv, n)
        v = self.st.env.get(lv[1])
        if isinstance(v, tuple) and v and v[0] == 'ARR':
            return Ptr(v[1], C0)
        return self.rd_var(lv[1], n)

    def e_ImplicitCastExpr(self, n):
        ck = n.get('castKind')
        x = n['inner'][0]
        if ck == 'LValueToRValue':
            return self.load(self.lval(x), n)
        if ck == 'ArrayToPointerDecay':
            lv = self.lval(x) if x.get('kind') not in ('StringLiteral',) else None
            if lv is None:
                return self.expr(x)
            if lv[0] == 'var':
                v = self.st.env.get(lv[1])
                if isinstance(v, tuple) and v and v[0] == 'ARR':
                    return Ptr(v[1], C0)
                return TOP
            if lv[0] == 'mem':
                return lv[1]
            if lv[0] == 'val':
                return lv[1]
            return self.load(lv, n) if lv[0] == 'glob' else TOP
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            r = x
            while r.get('kind') == 'ParenExpr':
                r = r['inner'][0]
            if r.get('kind') == 'DeclRefExpr' and r['referencedDecl']['kind'] == 'FunctionDecl':
                return FuncRef(r['referencedDecl']['name'])
            return self.expr(x)
        return self.cast(self.expr(x), ck, n, qual(x.get('type')))

    def e_CStyleCastExpr(self, n):
        x = n['inner'][0]
        return self.cast(self.expr(x), n.get('castKind'), n, qual(x.get('type')))

    def cast(self, v, ck, n, src):
        t = qual(n.get('type'))
        if ck == 'NullToPointer':
            return NULL
        if ck in ('BitCast', 'NoOp', 'LValueBitCast'):
            return v
        if ck == 'ToVoid':
            return None
        if isinstance(v, Phi):
            if all(isinstance(x, Poly) for x in v.alts()):
                v = self.phi_poly(v)
            else:
                return v if is_ptr(v) else self.unk(t)
        if not isinstance(v, Poly):
            return v
        if ck == 'IntegralCast':
            return v
        if ck == 'IntegralToFloating':
            return Poly.of(atom('i2f', (v,), '(float)%r' % v))
        if ck == 'FloatingToIntegral':
            return Poly.of(atom('f2i', (v,), '(int)%r' % v))
        if ck == 'FloatingCast':
            return v
        if ck == 'IntegralToPointer':
            return NULL if v.is_const() and v.cval() == 0 else TOP
        return Poly.of(atom('cast', (ck, v), '%s(%r)' % (ck, v)))

    def num(self, v):
        if isinstance(v, Phi) and all(isinstance(x, Poly) for x in v.alts()):
            return self.phi_poly(v)
        return v

    def e_UnaryOperator(self, n):
        op = n['opcode']
        x = n['inner'][0]
        if op == '&':
            y = x
            while y.get('kind') == 'ParenExpr':
                y = y['inner'][0]
            lv = self.lval(y)
            if lv[0] == 'var':
                kk = lv[1]
                v = self.st.env.get(kk)
                if isinstance(v, tuple) and v and v[0] == 'ARR':
                    return Ptr(v[1], C0)
                if kk not in self.varbufs:
                    b = Buf('var', self.vardecl[kk][0], None, 0, '')
                    b.varkey = kk
                    self.varbufs[kk] = b
                return Ptr(self.varbufs[kk], C0)
            if lv[0] == 'mem':
                return lv[1]
            if lv[0] == 'glob':
                return Ptr(Buf('global', lv[1]['name'], None, 0, ''), C0)
            return TOP
        if op == '*':
            return self.load(self.lval(n), n)
        if op in ('++', '--'):
            lv = self.lval(x)
            v = self.num(self.load(lv, n))
            d = 1 if op == '++' else -1
            if isinstance(v, Poly):
                nv = v + d
            elif is_ptr(v):
                pe = pointee(qual(x.get('type')))
                nv = self.padd(v, Poly.const(d), elem_size(pe) if pe else None)
            else:
                nv = self.unk()
            self.store(lv, nv, n, True)
            return v if n.get('isPostfix') else nv
        if op == '!':
            c = self.cond(x)
            if c[0] == 'const':
                return Poly.const(0 if c[1] else 1)
            return Poly.of(atom('bool', (c_not(c),)))
        v = self.num(self.expr(x))
        if op == '-' and isinstance(v, Poly):
            if is_float(qual(n.get('type'))):
                return Poly.of(atom('fop', ('neg', v)))
            return -v
        if op == '+':
            return v
        if op == '~':
            if isinstance(v, Poly):
                return -v - 1                    # two's complement
            return self.unk()
        if op in ('__real', '__imag', '__extension__'):
            return Poly.of(atom('fop', (op, v))) if isinstance(v, Poly) else v
        return self.unk(qual(n.get('type')))

    def e_BinaryOperator(self, n):
        op = n['opcode']
        if op == '=':
            lhs, rhs = n['inner']
            own = self.own_var(lhs, rhs)
            if own is not None:
                self.quiet.append(own)
            v = self.expr(rhs)
            if own is not None:
                self.quiet.pop()
            lv = self.lval(lhs)
            rmw = own is not None
            if not rmw and lv[0] == 'mem' and is_float(lv[3] or ''):
                rmw = any(same_ast(x, lhs) for x in terms(rhs))
                if rmw and isinstance(lv[1], Ptr):
                    for e in reversed(self.ev[-12:]):
                        if isinstance(e, Acc) and e.rw == 'r' and e.buf is lv[1].buf and e.off == lv[1].off:
                            e.own = True
                            break
            self.store(lv, v, n, rmw)
            return v
        if op == ',':
            self.expr(n['inner'][0])
            return self.expr(n['inner'][1])
        if op in ('&&', '||', '<', '>', '<=', '>=', '==', '!='):
            c = self.cond(n)
            if c[0] == 'const':
                return Poly.const(1 if c[1] else 0)
            return Poly.of(atom('bool', (c,), cshow(c)[:60]))
        a = self.num(self.expr(n['inner'][0]))
        b = self.num(self.expr(n['inner'][1]))
        return self.binop(op, a, b, n, qual(n.get('type')), n['inner'])

    def own_var(self, lhs, rhs):
        """key of the floating-point variable x in x = x + ..., x = ... - x, ..."""
        while lhs.get('kind') == 'ParenExpr':
            lhs = lhs['inner'][0]
        if lhs.get('kind') != 'DeclRefExpr' or not is_float(qual(lhs.get('type'))):
            return None
        i = lhs['referencedDecl']['id']
        if any(x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['id'] == i for x in terms(rhs)):
            return self.key(i)
        return None

    def binop(self, op, a, b, n, t, inner):
        if is_ptr(a) or is_ptr(b):
            if op in ('+', '-') and not (is_ptr(a) and is_ptr(b)):
                if is_ptr(b):
                    a, b = b, a
                    pe = pointee(qual(inner[1].get('type')))
                else:
                    pe = pointee(qual(inner[0].get('type')))
                w = elem_size(pe) if pe else None
                if isinstance(b, Poly):
                    return self.padd(a, b if op == '+' else -b, w)
                return TOP
            return self.unk()
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            return self.unk(t)
        if is_float(t):
            if op in ('+', '*') and a.key() > b.key():
                a, b = b, a
            return Poly.of(atom('fop', (op, a, b)))
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            if len(a.t) * len(b.t) > 60:
                return self.unk(t)
            return a * b
        if op == '/':
            return pdiv(a, b)
        if op == '%':
            return pmod(a, b)
        if op == '<<' and b.is_const() and 0 <= b.cval() < 31:
            return a * (1 << b.cval())
        if op == '>>' and b.is_const() and 0 <= b.cval() < 31:
            return pdiv(a, Poly.const(1 << b.cval()))
        return Poly.of(atom('iop', (op, a, b), '(%r%s%r)' % (a, op, b)))

    def e_CompoundAssignOperator(self, n):
        lhs, rhs = n['inner']
        v = self.num(self.expr(rhs))
        lv = self.lval(lhs)
        own = lv[1] if lv[0] == 'var' else lv[1].buf.varkey if lv[0] == 'mem' and isinstance(lv[1], Ptr) and \
            lv[1].buf.kind == 'var' else None
        self.quiet.append(own)
        old = self.num(self.load(lv, n))
        self.quiet.pop()
        op = n['opcode'][:-1]
        t = qual(n.get('computeResultType') or n.get('type'))
        nv = self.binop(op, old, v, n, t, [lhs, rhs])
        self.store(lv, nv, n, True)
        return nv

    def e_ConditionalOperator(self, n):
        c = self.cond(n['inner'][0])
        if c[0] == 'const' and not self.discover:
            return self.expr(n['inner'][1 if c[1] else 2])
        a, b = self.fork(c, lambda: self.expr(n['inner'][1]), lambda: self.expr(n['inner'][2]), n)
        if same(a, b):
            return a
        if isinstance(a, Poly) and isinstance(b, Poly):
            mm = minmax(c, a, b)
            if mm is not None:
                return mm
        return mkphi(c, a, b)

    def e_CompoundLiteralExpr(self, n):
        return self.expr(n['inner'][0])

    def e_ImplicitValueInitExpr(self, n):
        t = qual(n.get('type'))
        if self.fields(t):
            return SV(t, {f: self.e_ImplicitValueInitExpr({'type': {'qualType': ft}}) for f, ft in self.fields(t)})
        if '[' in t:
            return None
        return NULL if pointee(t) is not None else C0

    def e_InitListExpr(self, n):
        t = qual(n.get('type'))
        if self.fields(t) and not n.get('array_filler'):
            out = {}
            for (f, ft), x in zip(self.fields(t), n.get('inner', ())):
                v = self.expr(x)
                out[f] = v if '[' not in ft else None
            return SV(t, out)
        self.expr_sink(n)
        return self.unk(qual(n.get('type')))

    def e_MemberExpr(self, n):
        return self.load(self.lval(n), n)

    # ------------------------------------------------------------ calls
    def e_CallExpr(self, n):
        callee = self.expr(n['inner'][0])
        argn = n['inner'][1:]
        args = [self.expr(a) for a in argn]
        t = qual(n.get('type'))
        if not isinstance(callee, FuncRef):
            for a in alts(callee):
                pass
            self.emit(Ext('<indirect>', args), n)
            return self.unk(t)
        name = callee.name
        cur = self.frames[-1].func
        fn = self.prog.find(name, cur.lib, cur.file)
        if fn is not None and name not in self.stack and len(self.stack) < 12:
            return self.inline(fn, args, n, t)
        return self.external(name, args, n, t, fn)

    def inline(self, fn, args, n, t):
        fr = Frame(fn)
        blk = CallB(fn.name)
        blk.args = args
        self.emit(blk, n)
        save, ng = self.ev, len(self.guards)
        if not self.discover:
            self.ev = blk.body
        for p, a in zip(fn.params, args):
            k = (fr.id, p['id'])
            self.vardecl[k] = (p.get('name', '?'), qual(p['type']), len(self.loops), False)
            self.frames.append(fr)
            if self.fields(qual(p['type'])):
                self.struct_new(k, qual(p['type']), n)
                self.struct_set(k, qual(p['type']), a, n)
                self.frames.pop()
                continue
            self.frames.pop()
            self.st.env[k] = a
            if is_ptr(a) and isinstance(a, Ptr) and a.buf.name is None and a.buf.kind == 'heap':
                pass
        fr.ng = ng
        self.frames.append(fr)
        self.stack.append(fn.name)
        sb, sc = self.brk, self.conts
        self.brk, self.conts = [], []
        self.stmt(fn.body)
        self.brk, self.conts = sb, sc
        outs = list(fr.returns)
        if not self.st.dead:
            outs.append((self.st, None, None))
        self.frames.pop()
        self.stack.pop()
        del self.guards[ng:]
        self.ev = save
        if not outs:
            self.st.dead = True
            return self.unk(t)
        st, rv, _g = outs[-1]
        st = st.copy()
        st.dead = False
        for s2, v2, g2 in reversed(outs[:-1]):
            pc = None
            if g2:
                for gc, pos in g2:
                    gc = gc if pos else c_not(gc)
                    pc = gc if pc is None else ('and', pc, gc)
                if len(g2) > 4:
                    pc = None
            st = self.merge(pc, s2, st)
            if v2 is not None and not same(rv, v2):
                rv = mkphi(pc, v2, rv)
        self.st = st
        for k in [k for k in self.st.env if k[0] == fr.id]:
            del self.st.env[k]
        if t == 'void':
            return None
        if rv is None:
            return self.unk(t)
        return rv

    def newheap(self, size, n, init, kind='heap'):
        b = Buf(kind, None, size, n.get('_line', 0), self.frames[-1].func.name, init)
        b.ghost = self.discover > 0
        b.at = (n.get('id'), len(self.frames))
        b.loops = tuple(x.atom if x else None for x in self.loops)
        self.emit(Alloc(b), n)
        return Ptr(b, C0)

    def external(self, name, args, n, t, fn):
        isp = [a for a in args if is_ptr(a)]
        if name == '__builtin_expect':
            return args[0]
        if name in MATH:
            ks = []
            for a in args:
                a = self.num(a)
                ks.append(a if isinstance(a, Poly) else repr(a))
            return Poly.of(atom('call', (name,) + tuple(ks), '%s(..)' % name))
        if name in ALLOCS:
            s = args[0] if args and isinstance(args[0], Poly) else None
            return self.newheap(s, n, 'malloc')
        if name == 'aligned_alloc' or name == 'memalign':
            s = args[1] if isinstance(args[1], Poly) else None
            return self.newheap(s, n, 'malloc')
        if name == 'calloc':
            s = None
            if isinstance(args[0], Poly) and isinstance(args[1], Poly):
                s = args[0] * args[1]
            return self.newheap(s, n, 'calloc')
        if name == 'realloc':
            old = args[0]
            s = args[1] if isinstance(args[1], Poly) else None
            self.emit(Free(old, 'realloc'), n)
            return self.newheap(s, n, 'realloc')
        if name == 'posix_memalign':
            p = self.newheap(args[2] if isinstance(args[2], Poly) else None, n, 'malloc')
            a0 = args[0]
            if isinstance(a0, Ptr):
                if a0.buf.kind == 'var':
                    self.wr_var(a0.buf.varkey, p, n)
                else:
                    a0.buf.stores.append((a0.off, p))
            return Poly.of(fresh('unk', 'posix_memalign'))
        if name in FREES:
            self.emit(Free(self.resolve(args[0]), name), n)
            return None
        if name in ('fftwf_destroy_plan', 'fftw_destroy_plan'):
            self.emit(Free(self.resolve(args[0]), name), n)
            return None
        if name.startswith(('fftwf_plan', 'fftw_plan')):
            p = self.newheap(None, n, 'calloc', 'plan')
            p.buf.io = isp
            self.emit(Ext(name, args), n)
            return p
        if name in ('fftwf_execute', 'fftw_execute'):
            e = Ext(name, args)
            e.io = []
            for a in alts(args[0]):
                if isinstance(a, Ptr):
                    e.io += getattr(a.buf, 'io', [])
            self.emit(e, n)
            return None
        if name in ('memset', '__builtin_memset'):
            self.emit(MemOp('memset', self.resolve(args[0]), None, args[2] if isinstance(args[2], Poly) else None,
                            args[1]), n)
            for x in alts(args[0]):
                if isinstance(x, Ptr) and x.buf.kind == 'var' and isinstance(self.st.env.get(x.buf.varkey), tuple) \
                        and self.st.env[x.buf.varkey][0] == 'STRUCT':
                    ft = self.st.env[x.buf.varkey][1]
                    self.wr_var(x.buf.varkey, self.e_ImplicitValueInitExpr({'type': {'qualType': ft}}) if args[1] == C0 else None, n)
            mark_written(args[0])
            kill_cells(self, args[0])
            return args[0]
        if name in ('memcpy', 'memmove', '__builtin_memcpy'):
            self.emit(MemOp(name, self.resolve(args[0]), self.resolve(args[1]),
                            args[2] if isinstance(args[2], Poly) else None), n)
            mark_written(args[0])
            kill_cells(self, args[0])
            return args[0]
        if name in IGNORED:
            self.emit(Ext(name, args), n)
            return self.unk(t) if t != 'void' else None
        self.emit(Ext(name, args), n)
        for a in isp:
            for x in alts(a):
                if isinstance(x, Ptr):
                    if x.buf.kind == 'var':
                        self.wr_var(x.buf.varkey, self.unk(self.vardecl[x.buf.varkey][1]), n)
                    x.buf.writ = True
            kill_cells(self, a)
        return self.unk(t) if t != 'void' else None


CANDS = {}       # opaque atom id -> the values it takes (one per iteration of a constant loop)
ORIGIN = {}      # opaque atom id -> integer array it was loaded from


def expand(p, cap=40):
    """p with every table-lookup atom replaced by each value it takes"""
    out = [p]
    for _ in range(2):
        nxt = []
        for q in out:
            hit = [a for a in q.atoms() if a.id in CANDS]
            if not hit:
                nxt.append(q)
            else:
                nxt += [q.subst(hit[0], v) for v in CANDS[hit[0].id]]
        out = nxt
        if len(out) > cap:
            return [p]
    return out


# ---------------------------------------------------------------- small helpers
def captured(n):
    d = n['inner'][0]
    if d.get('kind') == 'CapturedDecl':
        return d['inner'][0]
    return d


def is_float(t):
    t = t.replace('const', '').replace('volatile', '').strip()
    return t in ('float', 'double', 'long double', '_Complex float', '_Complex double', '_Float32')


def is_ptr(v):
    if isinstance(v, Phi):
        return any(is_ptr(x) for x in v.alts())
    return isinstance(v, (Ptr, Null)) or v is TOP


def same(a, b):
    if a is b:
        return True
    try:
        return type(a) is type(b) and a == b
    except Exception:
        return False


def mkphi(c, a, b):
    # if c: a else b ; collapse nested phi on the same condition
    if isinstance(a, Phi) and c is not None and a.cond == c:
        a = a.a
    if isinstance(b, Phi) and c is not None and b.cond == c:
        b = b.b
    if same(a, b):
        return a
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.buf.ghost != b.buf.ghost and a.off == b.off and \
            a.buf.at is not None and a.buf.at == b.buf.at:
        # the block of the previous iteration and that of this one
        return b if a.buf.ghost else a
    if depth(a) + depth(b) > 12:
        return TOP if (is_ptr(a) or is_ptr(b)) else (Poly.of(fresh('unk')) if a is not UNINIT and b is not UNINIT else Phi(None, UNINIT, Poly.of(fresh('unk'))))
    return Phi(c, a, b)


def sizeof_poly(p):
    return len(p.t) + len(deep_atoms(p))


def depth(v):
    return 1 + depth(v.a) + depth(v.b) if isinstance(v, Phi) else 0


def strip_uninit(v):
    if isinstance(v, Phi):
        a, b = strip_uninit(v.a), strip_uninit(v.b)
        if a is UNINIT:
            return b
        if b is UNINIT:
            return a
        if same(a, b):
            return a
        return Phi(v.cond, a, b)
    return v


def inv(p, fa):
    ids = {x.id for x in fa.values()}
    return not any(a.id in ids for a in deep_atoms(p))


def minmax(c, a, b):
    """c ? a : b with c comparing a and b"""
    if c[0] != 'ge0':
        return None
    p = c[1]
    if p == b - a or p == b - a - 1:
        return Poly.of(atom('min', (a, b), 'min(%r,%r)' % (a, b)))
    if p == a - b or p == a - b - 1:
        return Poly.of(atom('max', (a, b), 'max(%r,%r)' % (a, b)))
    return None


def kill_cells(it, v):
    for x in alts(v):
        if isinstance(x, Ptr):
            it.st.cells.pop(x.buf.id, None)
            if it.cw is not None:
                it.cw.add(x.buf.id)


def mark_written(v):
    for x in alts(v):
        if isinstance(x, Ptr):
            x.buf.writ = True


def unify(pat, tgt):
    """pat = c*L + k over one loop atom L, solve pat == tgt"""
    la = [a for a in pat.atoms() if a.kind == 'loop']
    if len(la) != 1 or pat.degree_in(la[0]) != 1:
        return None
    co, rest = pat.coef(la[0])
    if not co.is_const() or not co.cval():
        return None
    d = (tgt - rest).divexact(co.cval())
    if d is None:
        return None
    return la[0], d


def subst_val(v, r):
    a, p = r
    if isinstance(v, Ptr) and v.off is not None:
        return Ptr(v.buf, v.off.subst(a, p))
    return generic(v)


def generic(v):
    if isinstance(v, Ptr):
        return Ptr(v.buf, None)
    return v


# ---------------------------------------------------------------- tree utilities
def walk(evs, ctx=()):
    """yield (event, ctx) ; ctx = tuple of enclosing Loop / (If, bool) / CallB"""
    for e in evs:
        yield e, ctx
        if isinstance(e, Loop):
            yield from walk(e.body, ctx + (e,))
        elif isinstance(e, If):
            yield from walk(e.then, ctx + ((e, True),))
            yield from walk(e.els, ctx + ((e, False),))
            # the rest of the list runs only when the branch that leaves was not taken
            if e.then and isinstance(e.then[-1], Jump):
                ctx = ctx + ((e, False),)
            elif e.els and isinstance(e.els[-1], Jump):
                ctx = ctx + ((e, True),)
        elif isinstance(e, CallB):
            yield from walk(e.body, ctx + (e,))


def dump(evs, ind=0, out=None):
    out = [] if out is None else out
    for e in evs:
        out.append('  ' * ind + repr(e))
        if isinstance(e, (Loop, CallB)):
            dump(e.body, ind + 1, out)
        elif isinstance(e, If):
            dump(e.then, ind + 1, out)
            if e.els:
                out.append('  ' * ind + 'else')
                dump(e.els, ind + 1, out)
    return out
