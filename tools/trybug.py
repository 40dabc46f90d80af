"""Development tool: runs quick checks against bugs (or, to see that they stay quiet, refactorings) of a BUGS.py without confirming them (see plant.py).

usage: trybug.py [-j N] BUGS.py [id...]
"""
import os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
workers = 3
if args[0] == '-j':
    workers = int(args[1])
    args = args[2:]
ns = {}
exec(open(args[0]).read(), ns)
BUGS = ns['BUGS']


def flexible(old):
    # blank lines do not count
    lines = [l for l in old.split('\n') if l.strip()]
    return re.compile(r'\n(?:[ \t]*\n)*'.join(re.escape(l) for l in lines) + (r'\n' if old.endswith('\n') else ''))


def one(i):
    b, w = BUGS[i], '/tmp/trybug/' + i
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w, ignore=shutil.ignore_patterns('.git', 'build', 'tmp', 'docs', 'platform_examples'))
    try:
        for f, old, new in b['edits']:
            p = os.path.join(w, f)
            t = open(p).read()
            t2, n = flexible(old).subn(lambda m: new, t)
            if n != 1:
                return i, 'old text found %d times in %s: %s' % (n, f, old[:50])
            open(p, 'w').write(t2)
        t0 = time.time()
        r = subprocess.run(['/opt/venv/bin/python', os.path.join(V, 'run.py'), b['property'], 'quick'], cwd=V, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w, VERIF_SEED='1', VERIF_TIER='quick'))
        ok = r.returncode == 1 and 'VIOLATION property=' + b['property'] in r.stdout
        return i, ('caught' if ok else 'quiet' if r.returncode == 0 else 'MISSED rc=%d %s' % (r.returncode, (r.stdout + r.stderr)[-300:])) + ' %.0f s' % (time.time() - t0)
    finally:
        shutil.rmtree(w, ignore_errors=True)


with ThreadPoolExecutor(workers) as ex:
    for i, m in ex.map(one, args[1:] or BUGS):
        print(i, m, flush=True)
