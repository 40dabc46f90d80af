"""Shared plumbing of all checks: scratch space, known findings, evidence, reporting."""
import atexit
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
INCLUDE = os.path.join(REPO, 'emlearn')
CORES = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    """The check itself could not reach an answer. Never reported as a pass or a violation."""


def scratch(prefix='vf'):
    d = tempfile.mkdtemp(prefix=prefix + '-')
    atexit.register(shutil.rmtree, d, ignore_errors=True)
    return d


class Report:
    def __init__(self, prop, tier, level):
        self.prop = prop
        self.tier = tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.level = level
        self.t0 = time.time()
        self.violations = []      # (key, replay path, text)
        self.known_hit = []
        self.coverage = {}
        self.assumptions = []
        self.functions = set()
        self.bounds = []
        self.queries = 0
        self.solver_s = 0.0
        self.vacuity = []
        self.samples = []
        self.obligations = 0
        self.discharged = 0
        self.programs = 0
        self.disagreements = 0
        self.known = load_known(prop)

    def deadline(self):
        """when to stop waiting: there is always an answer within the time a check is given, and soon after the first violation"""
        d = self.t0 + (660 if self.tier == 'quick' else 6 * 3600)
        return min(d, self.first_violation + (60 if self.tier == 'quick' else 600)) if self.violations else d

    def elapsed(self):
        return time.time() - self.t0

    def log(self, *a):
        print('[%s %6.1fs]' % (self.prop, self.elapsed()), *a, flush=True)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def bound(self, text):
        if text not in self.bounds:
            self.bounds.append(text)

    def sample(self, obj):
        if len(self.samples) < 12:
            self.samples.append(obj)

    def violation(self, key, text, replay_files):
        """key identifies the failing site/input. replay_files: dict name -> content"""
        for k in self.known:
            if k['key'] == key:
                if key not in self.known_hit:
                    self.known_hit.append(key)
                return
        d = os.path.join(VERIF, 'out', 'replay', self.prop)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s.txt' % ''.join(c if c.isalnum() or c in '-_.' else '_' for c in key)[:100])
        with open(path, 'w') as f:
            f.write('property: %s\nkey: %s\n%s\n' % (self.prop, key, text))
            for name, content in (replay_files or {}).items():
                f.write('\n===== %s =====\n%s\n' % (name, content))
        if not self.violations:
            self.first_violation = time.time()
        self.violations.append((key, path, text))

    def finish(self):
        cov = dict(self.coverage)
        cov.setdefault('functions_encoded', sorted(self.functions))
        cov['bounds'] = self.bounds
        cov['queries_discharged'] = self.queries
        cov['solver_seconds'] = round(self.solver_s, 2)
        cov['vacuity_witnesses'] = self.vacuity
        cov['samples'] = self.samples or ['none']
        if self.level == 'translation_validation':
            cov['programs'] = self.programs
            cov['disagreements_checked'] = self.disagreements
        elif self.level == 'other':
            cov.setdefault('explanation', 'Bounded symbolic checking of the real code with an SMT/SAT solver; '
                           'every obligation is decided for all inputs within the stated bounds.')
            cov['obligations'] = self.obligations
            cov['discharged'] = self.discharged
        elif self.level == 'proof':
            cov['obligations'] = self.obligations
            cov['discharged'] = self.discharged
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
            'coverage': cov, 'assumptions': self.assumptions,
            'wall_s': round(self.elapsed(), 2), 'violations': len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known:
            if k['key'] in self.known_hit:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['text']))
        for key, path, text in self.violations:
            print('%s' % text.strip().splitlines()[0][:300])
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        self.log('done: %d obligations, %d discharged, %d queries, %d violations, %.1fs solver' % (
            self.obligations, self.discharged, self.queries, len(self.violations), self.solver_s))
        sys.stdout.flush()
        return 1 if self.violations else 0


def completed(r, ex, futs, problems):
    """the futures, as they complete, until the report's deadline"""
    import concurrent.futures
    waiting = set(futs)
    while waiting:
        left = r.deadline() - time.time()
        if left <= 0:
            for f in waiting:
                f.cancel()
            for p in list((getattr(ex, '_processes', None) or {}).values()):
                p.kill()
            problems.append('out of time with %d jobs left' % len(waiting))
            return
        done, waiting = concurrent.futures.wait(waiting, timeout=min(left, 5), return_when=concurrent.futures.FIRST_COMPLETED)
        for f in done:
            yield f


def all_of(r, *parts):
    """runs every part, also when one of them stays undecided"""
    problems = []
    for f in parts:
        try:
            f()
        except CheckError as e:
            problems.append(str(e))
    if problems:
        raise CheckError('\n'.join(problems))


def load_known(prop):
    """known-findings.txt: 'finding: property=C01 key=<key> <text>' / 'fixed: property=C01 <commit> <text>'"""
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith('finding:'):
                continue
            parts = line[len('finding:'):].split(None, 2)
            kv = dict(x.split('=', 1) for x in parts[:2])
            if kv.get('property') == prop:
                out.append({'key': kv['key'], 'text': parts[2] if len(parts) > 2 else kv['key']})
    return out


def raised_by_emlearn(e):
    """the function of emlearn in which e arose, called with concrete arguments by a check (None: elsewhere, or it may be due to a stand-in)"""
    if isinstance(e, (CheckError, AttributeError, ImportError)):
        return None
    where = None
    for f in traceback.extract_tb(e.__traceback__):
        path = os.path.realpath(f.filename)
        if path.startswith(os.path.realpath(VERIF) + os.sep):
            where = None
            if os.path.basename(path) in ('pysym.py', 'llsym.py'):
                return None
        elif path.startswith(os.path.realpath(REPO) + os.sep + 'emlearn' + os.sep):
            where = '%s:%d %s' % (os.path.relpath(path, os.path.realpath(REPO)), f.lineno, f.name)
    return where


def run_check(prop, tier, level, func):
    r = Report(prop, tier, level)
    try:
        func(r)
    except Exception as e:
        traceback.print_exc()
        where = raised_by_emlearn(e)
        if where:
            r.violation('raises', 'emlearn fails on a valid model: %r in %s' % (e, where), {'traceback': traceback.format_exc()})
        if r.violations:
            # what was already found and replayed stands on its own
            code = r.finish()
            sys.exit(code)
        print('CHECK-ERROR property=%s' % prop)
        sys.exit(2)
    sys.exit(r.finish())


def own_macros(text, defines):
    """(text, defines): macros of a harness get names of their own, as the headers may use the same names for something else"""
    import re
    names = sorted({re.match(r'\w+', d).group() for d in defines if not re.match(r'(EML|EMTREES|VH_|_)', d)}, key=len, reverse=True)
    if not names:
        return text, list(defines)
    pat = re.compile(r'\b(%s)\b' % '|'.join(names))
    lines = [l if re.match(r'\s*#\s*include', l) else pat.sub(r'VH_D_\1', l) for l in text.split('\n')]
    return '\n'.join(lines), [d if '=' not in d and d not in names else '='.join([pat.sub(r'VH_D_\1', d.split('=')[0])] + [pat.sub(r'VH_D_\1', x) for x in d.split('=')[1:]]) for d in defines]
