"""Runs Engine B jobs: compile, execute symbolically, replay counterexamples natively, report."""
import concurrent.futures
import copy
import os
import re
import shutil
import subprocess
import tempfile
import time
import traceback

from . import core, twice
from .core import CheckError

HARNESS = os.path.join(core.VERIF, 'harness')


class LLJob:
    """source: C text that includes "vh.h" and defines void harness(void)"""

    def __init__(self, name, source, key=None, defines=(), time_limit=300, max_steps=12000000, timeout_ms=60000, max_paths=200000, reach=True,
                 files=None, tactic=None, cflags=(), entry='harness', replace=None, fallback=(), cxx=False, history=False):
        self.name = name
        self.source, self.defines = core.own_macros(source, list(defines) + list(fallback))
        self.key = key or name
        fallback = self.defines[len(list(defines)):]
        self.defines = self.defines[:len(self.defines) - len(fallback)]
        self.time_limit = time_limit
        self.max_steps = max_steps
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.reach = reach
        self.files = files or {}        # further files, by name, next to the source
        self.tactic = tactic
        self.cflags = list(cflags)
        self.entry = entry
        self.cxx = cxx
        self.history = history          # generated code keeps state as well
        self.replace = dict(replace or {})
        self.fallback = list(fallback)  # further defines, tried when a counterexample is not one of the real code (facts about uninterpreted functions)


def native(job, values, timeout=30):
    """(reproduced, text): the same harness as an ordinary program, with sanitizers, on the given input values"""
    d = tempfile.mkdtemp(prefix='vf-replay-')
    try:
        for n, t in job.files.items():
            open(os.path.join(d, n), 'w').write(t)
        src = os.path.join(d, 'h.c')
        open(src, 'w').write(job.source)
        vf = os.path.join(d, 'values.txt')
        open(vf, 'w').write(''.join('%d\n' % v for v in values))
        exe = os.path.join(d, 'h')
        cmd = (['g++', '-x', 'c++', '-std=c++17', '-nostdinc++'] if job.cxx else ['gcc', '-std=gnu11']) + ['-g', '-O1', '-w', '-DVH_REPLAY', '-fsanitize=address,undefined', '-fsanitize=float-cast-overflow', '-fno-sanitize-recover=all',
               '-ffp-contract=off', '-I', core.INCLUDE, '-I', HARNESS, '-I', d] + (['-I', os.path.join(HARNESS, 'py'), '-I', os.path.join(core.REPO, 'bindings')] if job.cxx else []) + ['-D' + x for x in job.defines] + job.cflags + [src, '-o', exe, '-lm'] + (['-lstdc++'] if job.cxx else [])
        c = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if c.returncode:
            raise CheckError('replay does not compile: %s\n%s' % (' '.join(cmd), c.stdout[-2000:]))
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0')
        try:
            p = subprocess.run([exe, vf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=d, preexec_fn=_unlimit)
        except subprocess.TimeoutExpired:
            return True, 'does not terminate (stopped after %d s)' % timeout
        text = p.stdout.decode('utf8', 'replace')
        if 'ReserveShadowMemoryRange failed' in text or 'AddressSanitizer failed to allocate' in text:
            raise CheckError('replay cannot run: ' + text[-500:])
        return p.returncode not in (0, 78), 'exit status %d\n%s' % (p.returncode, text[-3000:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def execute(job):
    """runs in a worker process; returns a plain dict"""
    from . import llsym
    t = time.time()
    out = dict(name=job.name, error=None, violation=None, violations=0)
    d = tempfile.mkdtemp(prefix='vf-ll-')
    try:
        for n, text in job.files.items():
            open(os.path.join(d, n), 'w').write(text)
        try:
            m = llsym.compile_ir(job.source, d, includes=[d] + ([os.path.join(HARNESS, 'py'), os.path.join(core.REPO, 'bindings')] if job.cxx else []), defines=job.defines, cxx=job.cxx)
        except CheckError as e:
            # only the code generated by emlearn is to blame
            at = re.search(r'^(\S+?):\d+:\d+: (?:fatal )?error: (.*)', str(e), re.M)
            if at and os.path.basename(at.group(1)) in list(job.files) + ['generated-code.h']:
                try:
                    native(job, [])
                except CheckError as e2:
                    if 'does not compile' in str(e2):
                        out['violation'] = dict(kind='compiler', text='the generated code is refused: ' + at.group(2), values=[], where=os.path.basename(at.group(1)), native=str(e2))
                        return out
            raise
        out['ir'] = m.text
        ex = llsym.Exec(m, max_steps=job.max_steps, timeout_ms=job.timeout_ms, max_paths=job.max_paths, time_limit=job.time_limit, tactic=job.tactic)
        ex.replace = job.replace
        try:
            ex.run(job.entry)
            ex.check_exhaustive()
        except llsym.Unsupported as e:
            out['error'] = 'not encodable: %s' % e
        except CheckError as e:
            out['error'] = str(e)
        out.update(paths=ex.paths, infeasible=ex.infeasible, queries=ex.solver.queries, solver=ex.solver.seconds, asserts=ex.asserts,
                   fast=ex.fast_asserts, exhaustive=ex.exhaustive, reached=sorted(ex.reached), steps=ex.total_steps, violations=ex.violating,
                   functions=sorted(f for f in ex.funcs_run if f != job.entry and not f.startswith('ref_')))
        tried = []
        for kind, text, values, where in ex.violations:
            ok, nat = native(job, values)
            tried.append((kind, text, values[:40], nat[-400:]))
            if ok:
                out['violation'] = dict(kind=kind, text=text, values=values, where=where, native=nat)
                out['error'] = None
                break
        if ex.violations and not out['violation']:
            out['error'] = 'counterexamples do not reproduce natively: %r' % (tried[:4],)
        if not ex.violations and not out['error'] and job.reach and not ex.reached:
            out['error'] = 'vacuous: no VH_REACH label reached'
    except CheckError as e:
        out['error'] = str(e)
    except Exception:
        out['error'] = traceback.format_exc()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    second_call(job, out)
    out['wall'] = time.time() - t
    if job.fallback and out['error'] and 'do not reproduce' in out['error']:
        again = copy.copy(job)
        again.defines = job.defines + job.fallback
        again.fallback = []
        return execute(again)
    return out


def second_call(job, out):
    """where the code keeps something from one call to the next, the harness is run twice as well; left open if that is too much"""
    if out['violation'] or out['error'] or not out.get('ir') or job.cxx or job.entry != 'harness':
        out.pop('ir', None)
        return
    text = twice.again(job.source, out.pop('ir'), job.files.values(), job.history)
    if not text:
        return
    j = copy.copy(job)
    j.source, j.entry, j.fallback = text, 'vh_twice', []
    j.defines = job.defines + ['VH_ENTRY=vh_twice']
    j.time_limit = min(job.time_limit, 120)
    o = execute(j)
    out['twice'] = 'violated' if o['violation'] else 'open: ' + o['error'][:200] if o['error'] else 'held'
    for k in ('queries', 'solver', 'asserts', 'paths'):
        out[k] = out.get(k, 0) + (o.get(k) or 0)
    if o['violation']:
        out['violation'] = o['violation']
        out['violation']['text'] += ' (in the second of two calls)'
        out['violation']['harness'] = text


def _limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))


def _unlimit():
    """for the replay: the address sanitizer reserves a lot of address space"""
    import resource
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


def run_jobs(r, jobs, workers=None):
    problems = []
    with concurrent.futures.ProcessPoolExecutor(workers or core.CORES, initializer=_limit) as ex:
        futs = {ex.submit(execute, j): j for j in jobs}
        for f in core.completed(r, ex, futs, problems):
            j = futs[f]
            try:
                o = f.result()
            except Exception as e:
                problems.append('%s: %r' % (j.name, e))
                continue
            absorb(r, j, o, problems)
    if problems:
        raise CheckError('\n'.join(problems))


def absorb(r, j, o, problems):
    r.programs += 1
    r.queries += o.get('queries', 0)
    r.solver_s += o.get('solver', 0)
    r.disagreements += o.get('asserts', 0)
    r.obligations += o.get('asserts', 0)
    if not o['violation'] and not o['error']:
        r.discharged += o.get('asserts', 0)
    r.functions.update(re.sub(r'\d+$', 'N', f) if f.startswith('model') else f for f in o.get('functions', []))
    r.vacuity += ['%s: %s' % (j.name, k) for k in o.get('reached', [])]
    if os.environ.get("VH_TIMES"):
        print(j.name, round(o.get("wall", 0), 1))
    r.sample({'job': j.name, 'paths': o.get('paths'), 'assertions': o.get('asserts'), 'queries': o.get('queries'), 'seconds': round(o.get('wall', 0), 1)})
    cov = r.coverage
    cov['jobs_with_paths_shown_exhaustive_by_z3'] = cov.get('jobs_with_paths_shown_exhaustive_by_z3', 0) + (1 if o.get('exhaustive') else 0)
    if o.get('twice'):
        cov.setdefault('run_twice', {})[j.name] = o['twice']
    cov['paths'] = cov.get('paths', 0) + (o.get('paths') or 0)
    if o['violation']:
        v = o['violation']
        files = {'inputs in order': '\n'.join(str(x) for x in v['values']), 'native replay': v['native'], 'harness': v.get('harness', j.source)}
        files.update(j.files)
        r.violation(j.key, '%s: %s: %s (in %s)' % (j.name, v['kind'], v['text'], v['where']), files)
    elif o['error']:
        problems.append('%s: %s' % (j.name, o['error']))
