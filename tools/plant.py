"""Development tool: plants a bug in a private copy of /repo, confirms it, and stores it in /verif/seeded/<id>.

usage: plant.py BUGS.py [id...]   (BUGS.py defines BUGS = {id: dict(property, edits=[(file, old, new)], files={name: text}, demo, needs, breaks)})
       plant.py --catch id...     runs the property's quick check against the stored patches
Everything happens in a private mount namespace where the copy lies at /repo.
"""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'c2d1466'
CDEMO = '''#!/bin/sh
set -e
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
gcc -std=gnu99 -O1 -w -I emlearn "$(dirname "$0")/demo.c" -o "$d/demo" -lm
timeout 60 "$d/demo"
'''
PYDEMO = '''#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
repo=$(pwd)
cd "$d"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$repo" timeout 200 /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def inns(work, cmd, verif=None):
    m = 'mount --bind %s /repo' % work
    if verif:
        m += ' && mount --bind %s /verif' % verif
    return subprocess.run(['unshare', '-m', 'bash', '-c', m + ' && cd /repo && ' + cmd], capture_output=True, text=True)


def make(i, b):
    w = '/tmp/plant/' + i
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs('/tmp/plant', exist_ok=True)
    sh('cp -a /repo %s' % w)
    d = os.path.join(V, 'seeded', i)
    os.makedirs(d, exist_ok=True)
    for n, t in b.get('files', {}).items():
        open(os.path.join(d, n), 'w').write(t)
    demo = b.get('demo') or (CDEMO if 'demo.c' in b['files'] else PYDEMO)
    open(os.path.join(d, 'demo.sh'), 'w').write(demo)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    out = []
    r = inns(w, 'bash /opt/vp/build.sh >/dev/null 2>&1; bash %s/demo.sh' % d)
    if r.returncode != 0:
        return i, 'demo fails unpatched: ' + (r.stdout + r.stderr)[-800:]
    for f, old, new in b['edits']:
        p = os.path.join(w, f)
        t = open(p).read()
        if t.count(old) != 1:
            return i, 'old text found %d times in %s' % (t.count(old), f)
        open(p, 'w').write(t.replace(old, new))
    p = sh('git -C %s diff' % w).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(p)
    base = ''.join(sh('git -C %s show %s:%s' % (w, BASE, f)).stdout for f, _, _ in b['edits'])
    lines = set(x.strip() for x in base.split('\n'))
    removed = [x[1:].strip() for x in p.split('\n') if x.startswith('-') and not x.startswith('---')]
    own = [x for x in removed if x and x not in lines]
    if own:
        out.append('NOT BASE LINES: %r' % own[:3])
    if not removed:
        out.append('only additions')
    r = inns(w, 'bash /opt/vp/build.sh')
    if r.returncode:
        return i, 'build fails: ' + (r.stdout + r.stderr)[-800:]
    r = inns(w, 'bash %s/demo.sh' % d)
    if r.returncode == 0:
        return i, 'demo passes with the patch'
    out.append('demo rc %d: %s' % (r.returncode, (r.stdout + r.stderr).strip()[-150:]))
    inns(w, 'bash /opt/vp/test.sh /tmp/plant/%s.json' % i)
    j = json.load(open('/tmp/plant/%s.json' % i))
    stable = json.load(open('/opt/vp/BASELINE.json'))
    bad = failing(j, stable)
    out.append('tests: %s' % ('pass' if not bad else 'FAIL %s' % bad[:3]))
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    if bad or own:
        out.append('NOT KEPT')
    else:
        out.append(catch(i)[1])
    sh('rm -rf %s' % w)
    return i, '; '.join(out)


def failing(j, stable):
    def passed(x):
        for k in ('passed', 'pass', 'stable'):
            if isinstance(x, dict) and k in x:
                return set(x[k])
        if isinstance(x, dict) and 'tests' in x:
            return set(t for t, s in x['tests'].items() if s in ('passed', 'pass', True))
        return set(x)
    return sorted(passed(stable) - passed(j))


def catch(i, tier='quick', props=None):
    w, v = '/tmp/plant/c-' + i, '/tmp/plant/v-' + i
    for x in (w, v):
        shutil.rmtree(x, ignore_errors=True)
    sh('mkdir -p /tmp/plant; cp -a /repo %s; mkdir %s; cd /verif; tar c --exclude=.git --exclude=./out --exclude=./evidence --exclude=./seeded . | tar x -C %s; mkdir -p %s/out %s/evidence' % (w, v, v, v, v))
    d = os.path.join(V, 'seeded', i)
    r = sh('git -C %s apply %s/patch.diff' % (w, d))
    if r.returncode:
        return i, 'patch does not apply'
    prop = json.load(open(d + '/meta.json'))['property']
    res = []
    for p in props or [prop]:
        r = inns(w, 'cd /verif; VERIF_SEED=1 timeout 900 ./run.py %s %s' % (p, tier), verif=v)
        vio = [x for x in r.stdout.split('\n') if x.startswith('VIOLATION')]
        res.append('%s rc=%d %s' % (p, r.returncode, ('CAUGHT ' + vio[0][:150]) if r.returncode == 1 and vio else 'MISSED ' + (r.stdout + r.stderr)[-300:]))
    sh('rm -rf %s %s' % (w, v))
    return i, '; '.join(res)


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == '--catch':
        ids = a[1:] or sorted(os.listdir(os.path.join(V, 'seeded')))
        with ThreadPoolExecutor(2) as ex:
            for i, t in ex.map(catch, ids):
                print(i, '|', t, flush=True)
    else:
        g = {}
        exec(open(a[0]).read(), g)
        ids = a[1:] or list(g['BUGS'])
        with ThreadPoolExecutor(3) as ex:
            for i, t in ex.map(lambda i: make(i, g['BUGS'][i]), ids):
                print(i, '|', t, flush=True)
