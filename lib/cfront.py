"""Parse libtomo's C sources with clang and keep the functions defined in /repo."""
import json
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
STUBS = os.path.join(HERE, '..', 'stubs')


class AnalysisBroken(Exception):
    pass


class Func:
    __slots__ = ('name', 'params', 'body', 'file', 'line', 'static', 'ret', 'lib', 'proto', 'tu')

    def __repr__(self):
        return 'Func(%s)' % self.name


class GVar:
    __slots__ = ('id', 'name', 'type', 'file', 'line', 'static', 'init', 'lib')


class CProgram:
    def __init__(self):
        self.funcs = {}      # name -> list[Func] (definitions)
        self.protos = {}     # name -> list[Func] (declarations in headers)
        self.globals = {}    # decl id -> GVar
        self.files = []
        self.records = {}
        self.text = {}

    def find(self, name, lib=None, file=None):
        c = self.funcs.get(name, [])
        if file:
            for f in c:
                if f.file == file:
                    return f
        if lib:
            for f in c:
                if f.lib == lib and not (f.static and file and f.file != file):
                    return f
        for f in c:
            if not f.static:
                return f
        return None

    def defs(self):
        for l in self.funcs.values():
            for f in l:
                yield f


def qual(t):
    if t is None:
        return ''
    return t.get('desugaredQualType') or t.get('qualType') or ''


def locfile_walk(n, st):
    """Carry clang's 'file' field (only printed on change) in printing order."""
    for key in ('loc', 'range'):
        v = n.get(key)
        if not v:
            continue
        if key == 'range':
            for b in ('begin', 'end'):
                _loc(v.get(b), st)
        else:
            _loc(v, st)
            n['_file'] = st[0]
    for x in n.get('inner', ()):
        locfile_walk(x, st)


def _loc(l, st):
    if not l:
        return
    if 'spellingLoc' in l:
        _loc(l['spellingLoc'], st)
        _loc(l['expansionLoc'], st)
    elif 'file' in l:
        st[0] = l['file']


def offset_of(n):
    r = n.get('range', {}).get('begin', {})
    if 'expansionLoc' in r:
        r = r['expansionLoc']
    return r.get('offset')


def end_offset_of(n):
    r = n.get('range', {}).get('end', {})
    if 'expansionLoc' in r:
        r = r['expansionLoc']
    return r.get('offset')


class LineMap:
    def __init__(self, path):
        with open(path, 'rb') as f:
            self.data = f.read()
        self.starts = [0]
        for i, b in enumerate(self.data):
            if b == 10:
                self.starts.append(i + 1)

    def line(self, off):
        import bisect
        return bisect.bisect_right(self.starts, off)


def c_files(repo):
    out = []
    for d in ('recon', 'gridrec', 'misc', 'prep'):
        p = os.path.join(repo, 'source', 'libtomo', d)
        if not os.path.isdir(p):
            continue
        for f in sorted(os.listdir(p)):
            if f.endswith('.c'):
                out.append((os.path.join(p, f), 'tomo-' + d))
    return out


def load(repo):
    prog = CProgram()
    files = c_files(repo)
    if not files:
        raise AnalysisBroken('no C sources found under source/libtomo')
    incs = ['-I' + os.path.abspath(STUBS), '-I' + os.path.join(repo, 'include')]
    for d in ('recon', 'gridrec', 'misc', 'prep'):
        incs.append('-I' + os.path.join(repo, 'source', 'libtomo', d))

    def run(fl):
        f, lib = fl
        cmd = ['clang', '-fsyntax-only', '-std=gnu11', '-w', '-fopenmp', '-DTOMOPY_USE_FFTW',
               '-DNDEBUG', *incs, '-Xclang', '-ast-dump=json', f]
        p = subprocess.run(cmd, capture_output=True)
        if p.returncode != 0 or not p.stdout:
            raise AnalysisBroken('clang cannot parse %s: %s' % (f, p.stderr.decode()[:400]))
        return p.stdout

    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(run, files))
    for (f, lib), out in zip(files, outs):
        # clang's node ids are addresses: keep those of different files apart
        tu = json.loads(out.replace(b'"0x', b'"%d.0x' % len(prog.files)))
        st = [None]
        for d in tu.get('inner', ()):
            locfile_walk(d, st)
        _collect(prog, tu, f, lib, repo)
        prog.files.append(os.path.relpath(f, repo))
    return prog


def _collect(prog, tu, f, lib, repo):
    maps = {}
    _records(prog, tu, f)

    def lm(path):
        if path not in maps:
            maps[path] = LineMap(path)
        return maps[path]

    for d in tu.get('inner', ()):
        if d['kind'] == 'TypedefDecl':
            t = qual(d.get('type'))
            if t and t != d.get('name'):
                TYPEDEFS[d['name']] = t
        file = d.get('_file')
        if not file:
            continue
        ap = os.path.abspath(file)
        if not ap.startswith(os.path.abspath(repo) + os.sep):
            continue
        rel = os.path.relpath(ap, repo)
        off = offset_of(d)
        line = lm(ap).line(off) if off is not None else 0
        if d['kind'] == 'FunctionDecl':
            fn = Func()
            fn.name = d['name']
            fn.params = [x for x in d.get('inner', ()) if x.get('kind') == 'ParmVarDecl']
            fn.body = None
            for x in d.get('inner', ()):
                if x.get('kind') == 'CompoundStmt':
                    fn.body = x
            fn.file = rel
            fn.line = line
            fn.static = d.get('storageClass') == 'static'
            fn.ret = qual(d.get('type')).split('(')[0].strip()
            fn.lib = lib
            fn.tu = f
            fn.proto = fn.body is None
            if fn.body is not None:
                _lines(fn.body, lm(ap))
                if not any(g.file == rel and g.line == line for g in prog.funcs.get(fn.name, [])):
                    prog.funcs.setdefault(fn.name, []).append(fn)
                elif fn.static:
                    prog.funcs[fn.name].append(fn)
            else:
                prog.protos.setdefault(fn.name, []).append(fn)
        elif d['kind'] == 'VarDecl':
            _gvar(prog, d, rel, line, lib)
        elif d['kind'] == 'RecordDecl':
            prog.records[d.get('name')] = d


def _records(prog, tu, f):
    """the members of the structures a file declares, by structure name and by typedef name"""
    byid = {}

    def walk(n):
        k = n.get('kind')
        if k == 'RecordDecl' and n.get('tagUsed') == 'struct' and n.get('completeDefinition'):
            fl = [(x.get('name'), qual(x.get('type'))) for x in n.get('inner', ()) if x.get('kind') == 'FieldDecl']
            byid[n['id']] = fl
            if n.get('name'):
                RECORDS[(f, 'struct ' + n['name'])] = fl
        elif k == 'TypedefDecl':
            for x in n.get('inner', ()):
                i = (x.get('ownedTagDecl') or {}).get('id')
                if i in byid:
                    RECORDS[(f, n['name'])] = RECORDS[(f, 'struct ' + n['name'])] = byid[i]
        for x in n.get('inner', ()):
            if isinstance(x, dict):
                walk(x)
    for d in tu.get('inner', ()):
        walk(d)
    for (g, t), fl in list(RECORDS.items()):
        if g == f:
            lay = layout(f, t)
            RECSIZE[t] = lay[0] if RECSIZE.get(t, lay[0]) == lay[0] else None


RECORDS, RECSIZE = {}, {}


def fields(tu, t):
    t = re.sub(r'\b(const|volatile)\b', '', t).strip()
    if (tu, t) in RECORDS:
        return RECORDS[(tu, t)]
    u = TYPEDEFS.get(t)
    return RECORDS.get((tu, u)) if u else None


def layout(tu, t, _d=0):
    """(size, alignment, {member: offset}) of a structure"""
    fl = fields(tu, t)
    if fl is None or _d > 6:
        return None, 1, {}
    off, al, out = 0, 1, {}
    for n, ft in fl:
        m = re.match(r'^(.*?)\s*((?:\[\d+\])*)$', ft)
        base = m.group(1) if m and '(' not in ft else ft
        if fields(tu, base) is not None:
            s, a, _ = layout(tu, base, _d + 1)
        else:
            s = a = elem_size(base)
        if s is None or off is None:
            off = None
            continue
        for x in re.findall(r'\[(\d+)\]', m.group(2)) if base is not ft else ():
            s *= int(x)
        a = min(a or 1, 16)
        off = -(-off // a) * a
        out[n] = off
        off += s
        al = max(al, a)
    return (None if off is None else -(-off // al) * al), al, out


def _gvar(prog, d, rel, line, lib):
    g = GVar()
    g.id = d['id']
    g.name = d['name']
    g.type = qual(d.get('type'))
    g.file = rel
    g.line = line
    g.static = d.get('storageClass') == 'static'
    g.init = d.get('inner')
    g.lib = lib
    prog.globals[d['id']] = g


def _lines(n, m):
    off = offset_of(n)
    n['_line'] = m.line(off) if off is not None else 0
    if n.get('kind', '').startswith('OMP'):
        e = end_offset_of(n)
        n['_pragma'] = m.data[off:e].decode('utf8', 'replace') if e and off is not None else ''
    for x in n.get('inner', ()):
        _lines(x, m)


TYPEDEFS = {}


def elem_size(t, _d=0):
    t = t.replace('const', '').replace('volatile', '').replace('restrict', '').strip()
    if t.endswith('*') or '(*)' in t:
        return 8
    m = re.match(r'^(.*?)\s*\[(\d+)\]$', t)
    if m:
        s = elem_size(m.group(1))
        return s * int(m.group(2)) if s else None
    t = t.strip()
    if RECSIZE.get(t):
        return RECSIZE[t]
    if t in TYPEDEFS and _d < 8:
        return elem_size(TYPEDEFS[t], _d + 1)
    return {'float': 4, 'double': 8, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8,
            'char': 1, 'unsigned char': 1, 'signed char': 1, 'short': 2, 'unsigned short': 2,
            '_Complex float': 8, '_Complex double': 16, 'long long': 8, '_Bool': 1, 'bool': 1,
            'unsigned long long': 8, 'fftwf_complex': 8}.get(t)


def pointee(t):
    t = t.strip()
    t = re.sub(r'\*\s*(const|restrict|volatile|__restrict)(\s+(const|restrict|volatile|__restrict))*$', '*', t)
    m = re.match(r'^(.*?)\s*\[([^\[\]]*)\]((?:\[[^\]]*\])*)$', t)
    if m and '(' not in t:
        return (m.group(1) + m.group(3)).strip()
    if t.endswith('*'):
        return t[:-1].strip()
    return None
