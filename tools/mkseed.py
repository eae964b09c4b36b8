"""mkseed.py <spec.py>: turn seed specifications into seeded/<id>/, checking each one on /repo.

A spec file defines SEEDS = [dict(id=, prop=, edits=[(file, old, new), ...], needs=, breaks=, demo=python source)].
With --check <id>..., only re-validates (apply, build, tests, demo, check) existing seeds.
"""
import json, os, subprocess, sys, tempfile
REPO = '/repo'
V = '/verif'
DEMO_SH = '''#!/bin/bash
# exit 0: behaviour as promised; nonzero: broken
export LD_LIBRARY_PATH=/opt/tomopy-build MKL_THREADING_LAYER=SEQUENTIAL PYTHONDONTWRITEBYTECODE=1
D=$(cd "$(dirname "$0")" && pwd)
exec timeout 250 /opt/venv/bin/python "$D/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def clean():
    sh('git -C /repo checkout -- .')


def build(spec):
    d = os.path.join(V, 'seeded', spec['id'])
    os.makedirs(d, exist_ok=True)
    clean()
    for f, old, new in spec['edits']:
        p = os.path.join(REPO, f)
        s = open(p, newline='').read()
        if '\r\n' in s:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        n = s.count(old)
        if n != 1:
            clean()
            raise SystemExit('%s: %d matches of %r in %s' % (spec['id'], n, old[:60], f))
        open(p, 'w', newline='').write(s.replace(old, new))
    diff = subprocess.run('git -C /repo diff', shell=True, capture_output=True).stdout
    open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    clean()
    if spec.get('demo'):
        open(os.path.join(d, 'demo.py'), 'w').write(spec['demo'].lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write(spec.get('sh', DEMO_SH))
    for n, t in spec.get('files', {}).items():
        open(os.path.join(d, n), 'w').write(t)
    json.dump({'property': spec['prop'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def validate(i, full=True):
    d = os.path.join(V, 'seeded', i)
    prop = json.load(open(d + '/meta.json'))['property']
    clean()
    out = {}
    if full:
        sh('bash /opt/vp/build.sh')
        r = sh('bash %s/demo.sh' % d, cwd=REPO)
        out['demo clean'] = r.returncode
        if r.returncode:
            print(r.stdout[-800:], r.stderr[-800:])
    r = sh('git -C /repo apply %s/patch.diff' % d)
    if r.returncode:
        print(i, 'DOES NOT APPLY', r.stderr)
        return
    try:
        if full:
            r = sh('bash /opt/vp/test.sh /tmp/seedout.json')
            out['tests'] = r.stdout.strip().splitlines()[-1]
            r = sh('bash %s/demo.sh' % d, cwd=REPO)
            out['demo patched'] = r.returncode
        r = sh('python3 check.py %s' % prop, cwd=V)
        out['check'] = r.returncode
        lines = [l for l in r.stdout.splitlines() if not l.startswith('KNOWN')]
    finally:
        clean()
    ok = out['check'] == 1 and (not full or (out['demo clean'] == 0 and out['demo patched'] != 0 and ' 0 failed' in out['tests']))
    print('OK  ' if ok else 'BAD ', i, prop, out)
    for l in lines[:3]:
        print('      ', l[:220])
    if r.returncode not in (0, 1):
        print(r.stderr[-1500:])
    if full:
        sh('bash /opt/vp/build.sh')


if __name__ == '__main__':
    a = sys.argv[1:]
    full = True
    if '--fast' in a:
        a.remove('--fast')
        full = False
    if a and a[0] == '--check':
        ids = a[1:] or sorted(os.listdir(V + '/seeded'))
    else:
        ns = {}
        exec(open(a[0]).read(), ns)
        ids = []
        for s in ns['SEEDS']:
            build(s)
            ids.append(s['id'])
    for i in ids:
        validate(i, full)
