"""Writes MANIFEST.json from the properties, the checks that exist, and the table below."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CBMC = 'bounded model checking (CBMC, SAT) of the real C headers'
SYM = 'symbolic execution of the LLVM IR of the real code, Z3'
PY = 'symbolic execution of the real Python code, Z3'
TECH = {}
NA = {}
exec(open(os.path.join(V, 'tools', 'manifest_table.py')).read())
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    f = os.path.join(V, 'checks', i.lower() + '.py')
    if os.path.exists(f) and i in TECH:
        level = 'other'
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'LEVEL':
                level = ast.literal_eval(n.value)
        technique, note = TECH[i]
        checks.append(dict(property=i, quick_cmd='./run.py %s quick' % i, thorough_cmd='./run.py %s thorough' % i,
                           technique=technique, level=level, level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='Solver-based checking of the real code; see DESIGN.md. No hooks are needed in /repo.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable:', [x['property'] for x in na])
