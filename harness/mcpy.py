"""Bounded exhaustive exploration of Python code: the counterpart of mc.hpp.

A harness enumerates a finite, stated set of cases; they are split over forked
worker processes, each case runs the repository's script and compares what it
did with a reference model.  The evidence file and the VIOLATION lines have the
same form as those of the C++ harnesses.
"""
import argparse
import hashlib
import json
import os
import pickle
import signal
import sys
import time
import traceback


class Late(Exception):
    pass


def late(*a):
    raise Late('a case did not end within 200 s')


class Ctx:
    def __init__(self, known, scratch, thorough):
        self.key = ''
        self.states = set()
        self.transitions = self.traces = self.evaluations = 0
        self.counters = {}
        self.samples = []
        self.violations = []
        self.known = known
        self.scratch = scratch
        self.thorough = thorough

    def Key(self, key):
        self.key = key

    def State(self, *what):
        self.states.add(hashlib.blake2b(repr(what).encode(), digest_size=8).digest())

    def Transition(self, n=1):
        self.transitions += n

    def Trace(self):
        self.traces += 1

    def Eval(self, n=1):
        self.evaluations += n

    def Count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def Sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(text)

    def Fail(self, what):
        if len(self.violations) < 200 and not any(k == self.key for k, _ in self.violations):
            self.violations.append((self.key, what))

    def Check(self, ok, what):
        if not ok:
            self.Fail(what)
        return bool(ok)


class Runner:
    def __init__(self, pid):
        p = argparse.ArgumentParser()
        p.add_argument('--tier', default='quick')
        p.add_argument('--seed', type=int, default=1)
        p.add_argument('--scratch', default='.')
        p.add_argument('--only', default='')
        a = p.parse_args()
        self.id, self.tier, self.seed, self.only = pid, a.tier, a.seed, a.only
        self.scratch = os.path.abspath(a.scratch)
        self.thorough = a.tier == 'thorough'
        self.verif = os.environ.get('VERIF_DIR', '/verif')
        self.rule = ''
        self.bounds = {}
        self.assumptions = []
        self.cases = 0
        self.t0 = time.time()
        self.known = []
        with open(os.path.join(self.verif, 'known_findings.txt')) as f:
            for line in f:
                head = f'finding: property={pid} key='
                if line.startswith(head) and ' :: ' in line:
                    key, text = line[len(head):].rstrip('\n').split(' :: ', 1)
                    self.known.append((key, text))
        self.total = Ctx(self.known, self.scratch, self.thorough)
        self.phase = 0

    def Bound(self, name, value):
        self.bounds[name] = str(value)

    def Selected(self, key):
        return not self.only or self.only == key

    def Parallel(self, n, fn):
        """fn(i, ctx) for i < n, in forked workers with a directory each."""
        self.cases += n
        self.phase += 1
        workers = max(1, min(8, os.cpu_count() or 1, n))
        sys.stdout.flush()
        sys.stderr.flush()
        pids = []
        for w in range(workers):
            base = os.path.join(self.scratch, f'p{self.phase}_{w}')
            os.mkdir(base)
            pid = os.fork()
            if pid == 0:
                c = Ctx(self.known, base, self.thorough)
                os.chdir(base)
                if not os.environ.get('MC_STDERR'):
                    null = os.open('/dev/null', os.O_WRONLY)
                    os.dup2(null, 1)
                    os.dup2(null, 2)
                try:
                    for i in range(w, n, workers):
                        try:
                            signal.signal(signal.SIGALRM, late)
                            signal.alarm(200)
                            fn(i, c)
                        except Exception:
                            c.Fail('unexpected error: ' + traceback.format_exc()[-1500:])
                        finally:
                            signal.alarm(0)
                    c.known = None
                    with open(base + '.out', 'wb') as f:
                        pickle.dump(c, f)
                    os._exit(0)
                except BaseException:
                    traceback.print_exc()
                    os._exit(9)
            pids.append((pid, base))
        t = self.total
        for pid, base in pids:
            _, st = os.waitpid(pid, 0)
            if st != 0:
                t.violations.append(('worker', f'a worker process ended with status {st}'))
                continue
            with open(base + '.out', 'rb') as f:
                c = pickle.load(f)
            t.states |= c.states
            t.transitions += c.transitions
            t.traces += c.traces
            t.evaluations += c.evaluations
            t.violations += c.violations
            for k, v in c.counters.items():
                t.counters[k] = t.counters.get(k, 0) + v
            t.samples += c.samples

    def Finish(self):
        t = self.total
        fresh, seen = [], {}
        for key, what in t.violations:
            for k, text in self.known:
                if key == k or (k.endswith('*') and key.startswith(k[:-1])):
                    seen[text] = 1
                    break
            else:
                fresh.append((key, what))
        for text in seen:
            print(f'KNOWN-FINDING: property={self.id} {text}')
        wall = time.time() - self.t0
        if not self.only:
            ev = {
                'property': self.id, 'tier': self.tier, 'seed': self.seed,
                'level': 'model_checking',
                'coverage': {
                    'states': len(t.states), 'transitions': t.transitions,
                    'traces_validated_against_impl': t.traces, 'evaluations': t.evaluations,
                    'cases': self.cases, 'exhaustive': True, 'rule': self.rule,
                    'bounds': self.bounds, 'counters': t.counters, 'samples': t.samples[:8]},
                'assumptions': self.assumptions, 'wall_s': wall, 'violations': len(fresh)}
            with open(os.path.join(self.verif, 'evidence', self.id + '.json'), 'w') as f:
                json.dump(ev, f, indent=1)
        print(f'{self.id} [{self.tier}] states={len(t.states)} transitions={t.transitions} '
              f'traces={t.traces} evaluations={t.evaluations} cases={self.cases} wall={wall:.1f}s')
        if not fresh:
            return 0
        path = os.path.join(self.verif, 'replays', f'{self.id}.txt')
        with open(path, 'w') as f:
            for key, what in fresh[:40]:
                f.write(f'case: {key}\n{what}\nreplay: bash {self.verif}/check.sh {self.id} '
                        f"{self.tier} --only '{key}'\n\n")
        key, what = fresh[0]
        print(f'first of {len(fresh)}: {key}: {what[:600]}')
        print(f'VIOLATION property={self.id} replay={path}')
        return 1
