"""dev: time one harness. tools/tryjob.py c04.c 'HARD=1,NN=3' unwind [cbmc args...]"""
import sys, time
sys.path.insert(0, '/verif')
from vlib import cbmc
src, d, u, *extra = sys.argv[1:]
replace = [tuple(x[2:].split(':')) for x in extra if x.startswith('R=')]
extra = [x for x in extra if not x.startswith('R=')]
defs = dict((x.split('=', 1) + ['1'])[:2] for x in d.split(',') if x)
t = time.time()
try:
    i = cbmc.run_job(cbmc.Job(src, defines=defs, unwind=int(u), timeout=900, solver=extra, replace=replace))
    print(d, extra, 'unwind', i['unwind'], 'props', len(i['result']), 'viol', i['violation'] and {k: v for k, v in i['violation'].items()}, 'inc', i['inconclusive'], i['reach'], '%.1fs' % (time.time() - t))
except Exception as e:
    print(d, extra, 'EXC', str(e)[:1500], '%.1fs' % (time.time() - t))
