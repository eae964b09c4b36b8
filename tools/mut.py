"""mut.py <file> [name...]: development aid; applies each listed change to a scratch copy of /repo and runs the checks on it.
The file defines M = [(name, 'C01,C09' expected to report | '' expected quiet, [(path, old, new), ...], [also run])]."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
ALLP = os.environ.get('PROPS', '').split(',') if os.environ.get('PROPS') else None
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(m):
    name, exp, edits = m[:3]
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        for s in ('source', 'include'):
            shutil.copytree('/repo/' + s, d + '/' + s)
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p, newline='').read()
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if s.count(old) < 1:
                return '%s: NO MATCH %r in %s' % (name, old[:50], f)
            open(p, 'w', newline='').write(s.replace(old, new, 1))
        res = []
        want = set(x for x in exp.split(',') if x)
        props = sorted(want | set(m[3].replace(',', ' ').split() if len(m) > 3 else ())) or ALLP or []
        for p in ALLP or props:
            env = dict(os.environ, VERIF_REPO=d, VERIF_JOBS="4", VERIF_EVIDENCE=d + '/ev')
            r = subprocess.run([sys.executable, V + '/check.py', p], capture_output=True, text=True, env=env)
            lines = [l for l in r.stdout.splitlines() if not l.startswith('KNOWN') and not l.startswith('VIOL')]
            tag = 'ok ' if (r.returncode == 1) == (p in want) else 'XX '
            res.append('   %s%s rc=%d %s' % (tag, p, r.returncode, ('\n        ' + '\n        '.join(x[:230] for x in lines[:3]))
                                           if r.returncode else ''))
            if r.returncode not in (0, 1):
                res.append(r.stderr[-600:])
        return name + '\n' + '\n'.join(res)
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(4) as ex:
    for t in ex.map(one, [m for m in ns['M'] if not only or m[0] in only]):
        print(t, flush=True)
