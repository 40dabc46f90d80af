"""Engine A: bounded model checking of the real C headers with CBMC, counterexamples replayed natively."""
import concurrent.futures
import copy
import ctypes
import json
import os
import re
import subprocess
import threading
import time

from . import core, twice
from .core import CheckError

_libc = ctypes.CDLL(None)
HARNESS = os.path.join(core.VERIF, 'harness')

CHECKS = ['--bounds-check', '--pointer-check', '--div-by-zero-check', '--signed-overflow-check',
          '--undefined-shift-check', '--unwinding-assertions']


class Job:
    def __init__(self, source, name=None, defines=None, unwind=8, unwindset=None, timeout=300, checks=None,
                 extra=None, key=None, solver=None, escalate=2, cflags=None, reach=True, replace=None):
        self.source = source
        self.defines = dict(defines or {})
        self.name = name or (source.rsplit('.', 1)[0] + ''.join('-%s%s' % (k, v) for k, v in sorted(self.defines.items())))
        self.unwind = unwind
        self.unwindset = unwindset or []
        self.timeout = timeout
        self.checks = CHECKS if checks is None else checks
        self.extra = extra or []
        self.key = key or self.name
        self.solver = solver or []
        self.escalate = escalate
        self.cflags = cflags or []
        self.reach = reach
        self.replace = replace or []
        self._goto = None
        self.entry = 'harness'
        self.history = False
        self.text = None


def _cbmc_cmd(job, src, unwind):
    if job._goto is None:
        # goto-cc, so that macros and flags are those of a real build
        d = core.scratch('goto')
        job._goto = os.path.join(d, 'h.gb')
        cc = ['goto-cc', '-I', core.INCLUDE, '-I', HARNESS, '--function', job.entry, src, '-o', job._goto]
        cc += ['-D' + x for x in job.macros] + job.cflags
        c = subprocess.run(cc, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if c.returncode:
            raise CheckError('harness does not compile: %s\n%s' % (' '.join(cc), c.stdout[-2000:]))
        for old, new in job.replace:
            nxt = job._goto + 'r'
            c = subprocess.run(['goto-instrument', '--replace-calls', '%s:%s' % (old, new), job._goto, nxt],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if c.returncode:
                # no such function (any more): the real code is used throughout
                continue
            job._goto = nxt
    cmd = ['cbmc', job._goto, '--json-ui', '--no-standard-checks', '--no-malloc-may-fail', '--unwind', str(unwind), '--drop-unused-functions', '--object-bits', '12']
    cmd += job.checks + job.extra + job.solver
    for u in job.unwindset:
        cmd += ['--unwindset', u]
    return cmd


def _limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    os.setpgrp()
    _libc.prctl(1, 9)       # ended together with this check


_report = None


def _run(cmd, timeout):
    import signal
    t = time.time()
    timeout = min(timeout, _report.deadline() - t) if _report else timeout
    if timeout <= 0:
        raise CheckError('out of time')
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=_limit)
    while True:
        try:
            out, err = p.communicate(timeout=5)
            break
        except subprocess.TimeoutExpired:
            if time.time() - t > timeout or (_report and time.time() > _report.deadline()):
                os.killpg(p.pid, signal.SIGKILL)
                p.communicate()
                raise CheckError('timeout after %ds: %s' % (time.time() - t, ' '.join(cmd)))
    return p.returncode, out, err, time.time() - t


def _parse(out, err, job):
    try:
        msgs = json.loads(out)
    except ValueError:
        raise CheckError('cbmc output not parsable for %s: %s %s' % (job.name, out[-800:], err[-800:]))
    result = None
    errors = []
    for m in msgs:
        if 'result' in m:
            result = m['result']
        if m.get('messageType') == 'ERROR':
            errors.append(m.get('messageText', ''))
    if result is None:
        raise CheckError('cbmc gave no verdict for %s: %s' % (job.name, '; '.join(errors)[-1500:]))
    return result


def _classify(result):
    reach, unwind, real, unknown = {}, [], [], []
    for p in result:
        d = p.get('description', '')
        st = p.get('status')
        if d.startswith('REACH '):
            # a label may be instantiated several times, one reachable instance is enough
            reach[d] = reach.get(d, False) or (st == 'FAILURE')
        elif st == 'SUCCESS':
            pass
        elif st == 'FAILURE':
            (unwind if '.unwind.' in p['property'] or 'unwinding assertion' in d or '.recursion' in p['property'] else real).append(p)
        else:
            # what follows a failed check is left open
            unknown.append('property %s has status %s' % (p['property'], st))
    if unknown and not real and not unwind:
        raise CheckError(unknown[0])
    return reach, unwind, real


def _inputs_of(trace):
    vals = []
    for s in trace:
        if s.get('stepType') == 'input':
            for v in s.get('values', []):
                b = v.get('binary')
                if b is None:
                    # pointers and such are not used as inputs
                    d = v.get('data', '0')
                    vals.append(1 if d in ('TRUE', 'true') else int(d) if d.lstrip('-').isdigit() else 0)
                else:
                    vals.append(int(b, 2))
    return vals


def replay(job, src, values, timeout=20):
    """Run the harness as a normal program on the counterexample. Returns (reproduced, text)"""
    d = core.scratch('replay')
    vf = os.path.join(d, 'values.txt')
    with open(vf, 'w') as f:
        f.write(''.join('%d\n' % v for v in values))
    exe = os.path.join(d, 'h')
    cmd = ['gcc', '-g', '-O1', '-w', '-DVH_REPLAY', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
           '-I', core.INCLUDE, '-I', HARNESS] + ['-D' + x for x in job.macros] + job.cflags + [src, '-o', exe, '-lm']
    c = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if c.returncode != 0:
        raise CheckError('replay does not compile: %s\n%s' % (' '.join(cmd), c.stdout[-2000:]))
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0')
    try:
        p = subprocess.run([exe, vf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=d)
    except subprocess.TimeoutExpired:
        return True, 'does not terminate (stopped after %d s)' % timeout
    text = p.stdout.decode('utf8', 'replace')
    if p.returncode == 0 or p.returncode == 78:
        return False, text
    return True, 'exit status %d\n%s' % (p.returncode, text[-3000:])


def run_job(job):
    if job.text is None:
        job.text, job.macros = core.own_macros(open(os.path.join(HARNESS, job.source)).read(), ['%s=%s' % kv for kv in job.defines.items()])
    text = job.text
    src = os.path.join(core.scratch('src'), job.source)
    with open(src, 'w') as f:
        f.write(text)
    unwind = job.unwind
    spent = 0.0
    queries = 0
    for attempt in range(job.escalate + 1):
        while True:
            rc, out, err, dt = _run(_cbmc_cmd(job, src, unwind), job.timeout)
            spent += dt
            # loops that do not exist (any more) have no bound of their own
            gone = [u for u in job.unwindset if re.search(r'loop identifier %s .*unwindset' % re.escape(u.split(':')[0]), out + err)]
            if not gone:
                break
            job.unwindset = [u for u in job.unwindset if u not in gone]
        result = _parse(out, err, job)
        queries += len(result)
        reach, unw, real = _classify(result)
        if real or not unw:
            break
        unwind *= 2
        job.unwindset = ['%s:%d' % (u.split(':')[0], 2 * int(u.split(':')[1])) for u in job.unwindset]
    info = dict(job=job, result=result, reach=reach, seconds=spent, unwind=unwind, queries=queries, violation=None, inconclusive=None)
    failures = real or unw
    if failures:
        # every failing property is replayed on the real code until one reproduces
        tried = []
        for p in failures[:6]:
            rc, out, err, dt = _run(_cbmc_cmd(job, src, unwind) + ['--trace', '--property', p['property']], job.timeout)
            spent += dt
            for q in _parse(out, err, job):
                if q['property'] == p['property'] and 'trace' in q:
                    values = _inputs_of(q['trace'])
                    ok, text = replay(job, src, values)
                    tried.append((p['property'], p.get('description'), values[:60], text[-600:]))
                    if ok:
                        info['violation'] = dict(property=p['property'], description=p.get('description'),
                            location=p.get('sourceLocation') or q.get('sourceLocation') or {}, values=values, text=text)
                        break
            if info['violation']:
                break
        if not info['violation']:
            info['inconclusive'] = 'counterexamples do not reproduce natively: %r' % (tried,)
        info['seconds'] = spent
    if job.reach and not failures:
        bad = [k for k, v in reach.items() if not v]
        if bad:
            info['inconclusive'] = 'vacuous: %s not reachable' % bad
        if not reach:
            info['inconclusive'] = 'no reachability witness in the harness'
    if not failures and not info['inconclusive'] and job.entry == 'harness':
        _second_call(job, src, info)
    return info


def _second_call(job, src, info):
    """where the code keeps something from one call to the next, the harness is run twice as well; left open if that is too much"""
    ir = src + '.ll'
    cmd = ['clang-18', '-S', '-emit-llvm', '-O0', '-w', '-DVH_REPLAY', '-I', core.INCLUDE, '-I', HARNESS] + ['-D' + x for x in job.macros] + [x for x in job.cflags if x.startswith(('-D', '-I', '-std', '-include'))] + [src, '-o', ir]
    if subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
        return
    text = twice.again(job.text, open(ir).read(), history=job.history)
    if not text:
        return
    j = copy.copy(job)
    j.text, j.entry, j._goto, j.macros = text, 'vh_twice', None, job.macros + ['VH_ENTRY=vh_twice']
    j.timeout, j.escalate, j.reach = min(job.timeout, 150), 0, False
    j.unwindset = list(job.unwindset)
    j.unwind = info['unwind']
    try:
        i = run_job(j)
    except CheckError as e:
        info['twice'] = 'open: ' + str(e)[:200]
        return
    info['twice'] = 'violated' if i['violation'] else 'open: ' + i['inconclusive'][:200] if i['inconclusive'] else 'held'
    info['seconds'] += i['seconds']
    info['queries'] += i['queries']
    if i['violation']:
        info['violation'] = i['violation']
        info['violation']['description'] = '%s (in the second of two calls)' % i['violation']['description']


def run_jobs(r, jobs, workers=None):
    """Runs all jobs, records evidence in r. Raises CheckError if something stays undecided (and nothing was violated)."""
    global _report
    _report = r
    problems = []
    with concurrent.futures.ThreadPoolExecutor(workers or core.CORES) as ex:
        futs = {ex.submit(run_job, j): j for j in jobs}
        for f in core.completed(r, ex, futs, problems):
            j = futs[f]
            try:
                i = f.result()
            except CheckError as e:
                problems.append('%s: %s' % (j.name, e))
                continue
            r.queries += i['queries']
            r.solver_s += i['seconds']
            n = sum(1 for p in i['result'] if not p.get('description', '').startswith('REACH '))
            r.obligations += n
            r.discharged += sum(1 for p in i['result'] if p['status'] == 'SUCCESS' and not p.get('description', '').startswith('REACH '))
            for p in i['result']:
                loc = p.get('sourceLocation', {})
                if '/emlearn/' in loc.get('file', '') and loc.get('function'):
                    r.functions.add(loc['function'])
            r.vacuity += ['%s: %s' % (j.name, k) for k, v in i['reach'].items() if v]
            if i.get('twice'):
                r.coverage.setdefault('run_twice', {})[j.name] = i['twice']
            r.sample({'job': j.name, 'unwind': i['unwind'], 'properties': n, 'seconds': round(i['seconds'], 1)})
            if i['violation']:
                v = i['violation']
                loc = v['location']
                r.violation(j.key, '%s: %s violated in %s line %s (%s)' % (j.name, v['description'], loc.get('file'), loc.get('line'), loc.get('function')),
                    {'inputs in order': '\n'.join(str(x) for x in v['values']), 'native replay': v['text'],
                     'harness': j.source + ' ' + json.dumps(j.defines)})
            elif i['inconclusive']:
                problems.append('%s: %s' % (j.name, i['inconclusive']))
    if problems:
        raise CheckError('\n'.join(problems))
