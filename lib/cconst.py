"""Constant propagation through small C functions that map names to functions or numbers (no memory, no side effects)."""


class Unknown(Exception):
    pass


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


SKIP = ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr', 'ConstantExpr', 'ExprWithCleanups')


class Const:
    def __init__(self, prog, fuel=20000):
        self.prog, self.fuel = prog, fuel

    def call(self, fn, args):
        env = {}
        for p, v in zip(fn.params, args):
            env[p.get('id') or p.get('name')] = v
            env[p.get('name')] = v
        try:
            self.stmt(fn.body, env)
        except _Ret as r:
            return r.v
        return None

    def stmts(self, n, env):
        for c in n.get('inner', []):
            self.stmt(c, env)

    def stmt(self, n, env):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unknown('too long')
        if not isinstance(n, dict) or not n.get('kind'):
            return
        k = n['kind']
        inner = n.get('inner', [])
        if k == 'CompoundStmt':
            self.stmts(n, env)
        elif k == 'DeclStmt':
            for d in inner:
                if d.get('kind') == 'VarDecl':
                    i = [x for x in d.get('inner', []) if isinstance(x, dict) and x.get('kind') and 'Attr' not in x['kind']]
                    env[d['name']] = self.ev(i[-1], env) if i else None
        elif k == 'ReturnStmt':
            raise _Ret(self.ev(inner[0], env) if inner else None)
        elif k == 'IfStmt':
            c = inner
            if self.truth(self.ev(c[0], env)):
                self.stmt(c[1], env)
            elif len(c) > 2:
                self.stmt(c[2], env)
        elif k == 'ForStmt':
            init, _, cond, inc, body = inner
            self.stmt(init, env)
            while not cond.get('kind') or self.truth(self.ev(cond, env)):
                try:
                    self.stmt(body, env)
                except _Brk:
                    break
                except _Cont:
                    pass
                if inc.get('kind'):
                    self.ev(inc, env)
        elif k in ('WhileStmt', 'DoStmt'):
            cond, body = (inner[0], inner[1]) if k == 'WhileStmt' else (inner[1], inner[0])
            first = k == 'DoStmt'
            while first or self.truth(self.ev(cond, env)):
                first = False
                self.fuel -= 1
                if self.fuel < 0:
                    raise Unknown('too long')
                try:
                    self.stmt(body, env)
                except _Brk:
                    break
                except _Cont:
                    pass
        elif k == 'BreakStmt':
            raise _Brk()
        elif k == 'ContinueStmt':
            raise _Cont()
        elif k == 'NullStmt':
            pass
        else:
            self.ev(n, env)

    def truth(self, v):
        if isinstance(v, (int, bool)):
            return bool(v)
        if isinstance(v, (str, tuple, list, dict)):
            return True
        if v is None:
            return False
        raise Unknown('condition')

    def ev(self, n, env):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unknown('too long')
        k = n.get('kind')
        inner = n.get('inner', [])
        if k in SKIP:
            if n.get('castKind') == 'NullToPointer':
                return None
            return self.ev(inner[-1], env)
        if k == 'StringLiteral':
            return n['value'].strip('"')
        if k in ('IntegerLiteral', 'CharacterLiteral'):
            return int(n['value'])
        if k == 'InitListExpr':
            q = (n.get('type') or {}).get('qualType', '')
            vals = [self.ev(x, env) for x in (n.get('inner') or n.get('array_filler') or [])]
            return vals
        if k == 'DeclRefExpr':
            d = n.get('referencedDecl') or {}
            nm = d.get('name')
            if nm in env:
                return env[nm]
            if d.get('kind') == 'FunctionDecl':
                return ('fn', nm)
            if d.get('kind') == 'EnumConstantDecl':
                raise Unknown('enum')
            g = self.prog.globals.get(d.get('id'))
            if g is not None and g.init is not None:
                return self.ev(g.init, env)
            for g in self.prog.globals.values():
                if g.name == nm and g.init is not None:
                    return self.ev(g.init, env)
            raise Unknown('variable %s' % nm)
        if k == 'ArraySubscriptExpr':
            a, i = self.ev(inner[0], env), self.ev(inner[1], env)
            if isinstance(a, str) and isinstance(i, int):
                if i == len(a):
                    return 0
                if 0 <= i < len(a):
                    return ord(a[i])
            if isinstance(a, list) and isinstance(i, int) and 0 <= i < len(a):
                return a[i]
            raise Unknown('subscript')
        if k == 'MemberExpr':
            o = self.ev(inner[0], env)
            if isinstance(o, list):
                i = self.field(n, inner[0])
                if i < len(o):
                    return o[i]
                return 0
            raise Unknown('member')
        if k == 'UnaryOperator':
            op = n['opcode']
            if op in ('++', '--'):
                x = inner[0]
                while x.get('kind') in SKIP:
                    x = x['inner'][-1]
                nm = (x.get('referencedDecl') or {}).get('name')
                v = env.get(nm)
                if not isinstance(v, int):
                    raise Unknown('counter')
                env[nm] = v + (1 if op == '++' else -1)
                return v if n.get('isPostfix') else env[nm]
            v = self.ev(inner[0], env)
            if op == '!':
                return int(not self.truth(v))
            if op == '-' and isinstance(v, int):
                return -v
            if op in ('&', '*', '+'):
                return v
            raise Unknown('operator')
        if k == 'BinaryOperator':
            op = n['opcode']
            if op == '&&':
                return int(self.truth(self.ev(inner[0], env)) and self.truth(self.ev(inner[1], env)))
            if op == '||':
                return int(self.truth(self.ev(inner[0], env)) or self.truth(self.ev(inner[1], env)))
            if op == '=':
                x = inner[0]
                while x.get('kind') in SKIP:
                    x = x['inner'][-1]
                nm = (x.get('referencedDecl') or {}).get('name')
                if x.get('kind') != 'DeclRefExpr':
                    raise Unknown('store')
                env[nm] = self.ev(inner[1], env)
                return env[nm]
            a, b = self.ev(inner[0], env), self.ev(inner[1], env)
            if op == ',':
                return b
            if op in ('==', '!='):
                if isinstance(a, str) and isinstance(b, str):
                    raise Unknown('pointer comparison')
                return int((a == b) == (op == '=='))
            if not (isinstance(a, int) and isinstance(b, int)):
                raise Unknown('operands')
            f = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '<': lambda: int(a < b), '>': lambda: int(a > b),
                 '<=': lambda: int(a <= b), '>=': lambda: int(a >= b), '/': lambda: a // b if b else None}.get(op)
            if f is None:
                raise Unknown('operator')
            return f()
        if k == 'ConditionalOperator':
            return self.ev(inner[1] if self.truth(self.ev(inner[0], env)) else inner[2], env)
        if k == 'UnaryExprOrTypeTraitExpr':
            return self.sizeof(n)
        if k == 'CallExpr':
            f = self.ev(inner[0], env)
            a = [self.ev(x, env) for x in inner[1:]]
            nm = f[1] if isinstance(f, tuple) else None
            if nm in ('strcmp', 'strncmp', 'strcasecmp', 'strncasecmp') and isinstance(a[0], str) and isinstance(a[1], str):
                x, y = a[0], a[1]
                if 'case' in nm:
                    x, y = x.lower(), y.lower()
                if nm.startswith('strn'):
                    if not isinstance(a[2], int):
                        raise Unknown('length')
                    x, y = x[:a[2]], y[:a[2]]
                return 0 if x == y else -1 if x < y else 1
            if nm == 'strlen' and isinstance(a[0], str):
                return len(a[0])
            g = self.prog.find(nm) if nm else None
            if g is None:
                raise Unknown('call of %s' % nm)
            return self.call(g, a)
        raise Unknown(str(k))

    def sizeof(self, n):
        import re
        t = (n.get('argType') or {}).get('qualType')
        if t is None and n.get('inner'):
            x = n['inner'][0]
            while x.get('kind') in ('ParenExpr',):
                x = x['inner'][0]
            t = (x.get('type') or {}).get('qualType')
        m = re.search(r'\[(\d+)\]', t or '')
        # sizes are counted in elements: only the quotient of two sizes is meaningful
        return int(m.group(1)) if m else 1

    def field(self, n, base):
        """position of a member, from the record's declaration"""
        mid = n.get('referencedMemberDecl')
        for fs in self.records():
            for i, (fid, nm) in enumerate(fs):
                if fid == mid:
                    return i
        for fs in self.records():
            names = [nm for _, nm in fs]
            if n.get('name') in names:
                return names.index(n['name'])
        raise Unknown('member %s' % n.get('name'))

    _recs = None

    def records(self):
        if self._recs is None:
            out = []

            def walk(x):
                if isinstance(x, dict):
                    if x.get('kind') == 'RecordDecl':
                        out.append([(y.get('id'), y.get('name')) for y in x.get('inner', []) if y.get('kind') == 'FieldDecl'])
                    for c in x.get('inner', []) or []:
                        walk(c)
            for f in self.prog.defs():
                walk(f.body)
            for r in (self.prog.records.values() if isinstance(self.prog.records, dict) else ()):
                if isinstance(r, dict):
                    walk(r)
                elif isinstance(r, (list, tuple)):
                    out.append([(None, x[0] if isinstance(x, (list, tuple)) else x) for x in r])
            self._recs = out
        return self._recs
