"""Integer polynomials over interned atoms."""


class Atom:
    __slots__ = ('id', 'kind', 'data', 'name')
    table = {}
    all = []

    def __repr__(self):
        return self.name


def atom(kind, data, name=None):
    k = (kind, data)
    a = Atom.table.get(k)
    if a is None:
        a = Atom()
        a.id = len(Atom.all)
        a.kind = kind
        a.data = data
        a.name = name or '%s%s' % (kind, a.id)
        Atom.all.append(a)
        Atom.table[k] = a
    return a


_n = [0]


def fresh(kind='unk', name=None):
    _n[0] += 1
    return atom(kind, _n[0], name or '%s%d' % (kind, _n[0]))


class Poly:
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = t
        self._h = None

    @staticmethod
    def const(c):
        return Poly({(): c}) if c else Poly({})

    @staticmethod
    def of(a):
        return Poly({(a.id,): 1})

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.t.items()))
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __add__(self, o):
        if isinstance(o, int):
            o = Poly.const(o)
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if isinstance(o, int):
            o = Poly.const(o)
        return self + (-o)

    def __mul__(self, o):
        if isinstance(o, int):
            if o == 0:
                return Poly({})
            return Poly({m: c * o for m, c in self.t.items()})
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = tuple(sorted(m1 + m2))
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return Poly(r)

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), 0)

    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return [Atom.all[i] for i in sorted(s)]

    def has(self, a):
        return any(a.id in m for m in self.t)

    def degree_in(self, a):
        return max([m.count(a.id) for m in self.t] or [0])

    def coef(self, a):
        """(coefficient poly, rest) when linear in a."""
        co, rest = {}, {}
        for m, c in self.t.items():
            n = m.count(a.id)
            if n == 0:
                rest[m] = c
            else:
                l = list(m)
                l.remove(a.id)
                co[tuple(l)] = co.get(tuple(l), 0) + c
        return Poly(co), Poly(rest)

    def subst(self, a, p):
        if not self.has(a):
            return self
        r = Poly({})
        for m, c in self.t.items():
            n = m.count(a.id)
            q = Poly({tuple(x for x in m if x != a.id): c})
            for _ in range(n):
                q = q * p
            r = r + q
        return r

    def divexact(self, k):
        if all(c % k == 0 for c in self.t.values()):
            return Poly({m: c // k for m, c in self.t.items()})
        return None

    def evalat(self, env):
        """env: atom id -> int; None if some atom is missing."""
        tot = 0
        for m, c in self.t.items():
            v = c
            for i in m:
                x = env.get(i)
                if x is None:
                    x = atom_eval(Atom.all[i], env)
                    if x is None:
                        return None
                v *= x
            tot += v
        return tot

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: (-len(x[0]), x[0])):
            s = '*'.join(Atom.all[i].name for i in m)
            if not m:
                out.append('%+d' % c)
            elif c == 1:
                out.append('+' + s)
            elif c == -1:
                out.append('-' + s)
            else:
                out.append('%+d*%s' % (c, s))
        r = ''.join(out)
        return r[1:] if r.startswith('+') else r


def atom_eval(a, env):
    if a.kind in ('div', 'mod'):
        x = a.data[0].evalat(env)
        y = a.data[1].evalat(env)
        if x is None or y is None or y == 0:
            return None
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return q if a.kind == 'div' else x - q * y
    if a.kind == 'ceildiv':
        x = a.data[0].evalat(env)
        y = a.data[1].evalat(env)
        if x is None or y is None or y == 0:
            return None
        return -((-x) // y)
    if a.kind in ('min', 'max'):
        x = a.data[0].evalat(env)
        y = a.data[1].evalat(env)
        if x is None or y is None:
            return None
        return min(x, y) if a.kind == 'min' else max(x, y)
    return None


def pdiv(x, y):
    if y.is_const() and y.cval() == 1:
        return x
    if x.is_const() and y.is_const() and y.cval():
        q = abs(x.cval()) // abs(y.cval())
        if (x.cval() < 0) != (y.cval() < 0):
            q = -q
        return Poly.const(q)
    if y.is_const() and y.cval():
        d = x.divexact(y.cval())
        if d is not None:
            return d
    if len(y.t) == 1:
        (m, c), = y.t.items()
        r = {}
        ok = True
        for m2, c2 in x.t.items():
            l = list(m2)
            for i in m:
                if i in l:
                    l.remove(i)
                else:
                    ok = False
                    break
            if not ok or c2 % c:
                ok = False
                break
            r[tuple(l)] = r.get(tuple(l), 0) + c2 // c
        if ok and x.t:
            return Poly(r)
    return Poly.of(atom('div', (x, y), '(%r/%r)' % (x, y)))


def pmod(x, y):
    if x.is_const() and y.is_const() and y.cval():
        return x - pdiv(x, y) * y
    return Poly.of(atom('mod', (x, y), '(%r%%%r)' % (x, y)))


C0 = Poly({})
C1 = Poly.const(1)
