#!/opt/venv/bin/python
"""dev: tools/tryll.py file.c [DEFINE...]: one Engine B harness"""
import sys
sys.path.insert(0, '/verif')
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from vlib import ll
j = ll.LLJob(sys.argv[1], open(sys.argv[1]).read(), defines=sys.argv[2:], cxx=sys.argv[1].endswith("pp"))
o = ll.execute(j)
for k, v in o.items():
    print(k, ':', str(v)[:3000])
