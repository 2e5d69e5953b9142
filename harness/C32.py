"""C32: the run tools simulate exactly the configurations asked for.

The real scripts (eval/evaluate.py, which chains run.py and stats.py) are run on
a copy of eval/ in a scratch workspace.  The simulator is a stand-in that notes
how it was called and writes small logs with an error of its own per run.
"""
# stand-ins: py_stub
import copy
import itertools
import os
import runpy
import shutil
import sys

import mcpy
import yaml

R = mcpy.Runner('C32')

SIM = r'''#!/bin/sh
n=${1##*/}
d=no
[ -d "$2" ] && d=yes
echo "$1|$2|$#|$d" >> "$SIM_CTL/calls"
b=fine
[ -f "$SIM_CTL/how/$n" ] && read -r b < "$SIM_CTL/how/$n"
case "$b" in *out*) echo "words of $n";; esac
case "$b" in *err*) echo "trouble of $n" >&2;; esac
if [ -f "$SIM_CTL/state/$n" ]; then
  cp "$SIM_CTL/state/$n" "$2/body_state.csv"
  cp "$SIM_CTL/truth" "$2/body_truth.csv"
fi
case "$b" in *exit*) exit 3;; *kill*) kill -9 $$;; esac
exit 0
'''

VEC = ['body_pos', 'body_vel', 'body_acc', 'body_ang_vel', 'body_ang_acc']
HEAD = ['time'] + [f'{v}_{i}' for v in VEC for i in range(3)] + \
    [f'body_ang_pos_{i}' for i in range(4)]


def csv(shift, extra=''):
    """Two rows of zeros, the position moved by shift along x."""
    h = ','.join(HEAD) + (',state_size' if extra else '') + '\n'
    for t in (0, 1):
        row = [t] + [shift if c == 'body_pos_0' else 1 if c == 'body_ang_pos_0' else 0
                     for c in HEAD[1:]]
        h += ','.join(str(x) for x in row) + extra + '\n'
    return h


class Pool:
    """Stand-in for multiprocessing.Pool: one process, any order of completion."""

    order = None
    made = []

    def __init__(self, processes=None, *a, **k):
        if processes is not None and processes < 1:
            raise ValueError('Number of processes must be at least 1')
        Pool.made.append(processes)
        self.jobs = []
        self.open = True

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        assert self.open
        self.jobs.append((func, args, kwds or {}, callback, error_callback))

    def apply(self, func, args=(), kwds=None):
        return func(*args, **(kwds or {}))

    def map(self, func, items, chunksize=None):
        items = list(items)
        out = [None] * len(items)
        for i in (Pool.order or range)(len(items)):
            out[i] = func(items[i])
        return out

    imap = imap_unordered = map

    def map_async(self, func, items, *a, **k):
        for i in items:
            self.apply_async(func, (i,))

    def starmap(self, func, items, chunksize=None):
        return self.map(lambda a: func(*a), items)

    def close(self):
        self.open = False

    def terminate(self):
        self.jobs, self.open = [], False

    def join(self):
        assert not self.open
        for i in (Pool.order or range)(len(self.jobs)):
            func, args, kwds, done, failed = self.jobs[i]
            try:
                value = func(*args, **kwds)
                if done:
                    done(value)
            except Exception as e:
                if failed:
                    failed(e)
        self.jobs = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


def workspace(c):
    """The layout of a workspace: src/ekf_cal/eval and build/ekf_cal/sim."""
    ws = os.path.join(c.scratch, 'ws')
    if not os.path.isdir(ws):
        os.makedirs(os.path.join(ws, 'src', 'ekf_cal'))
        os.makedirs(os.path.join(ws, 'build', 'ekf_cal'))
        shutil.copytree('/repo/eval', os.path.join(ws, 'src', 'ekf_cal', 'eval'),
                        ignore=shutil.ignore_patterns('__pycache__'))
        sim = os.path.join(ws, 'build', 'ekf_cal', 'sim')
        with open(sim, 'w') as f:
            f.write(SIM)
        os.chmod(sim, 0o755)
    return ws


def fresh(path):
    if os.path.isdir(path):
        shutil.rmtree(path)
    os.makedirs(path)
    return path


def top_config(number, seed, start):
    return {'/EkfCalNode': {'ros__parameters': {
        'debug_log_level': 2, 'imu_list': ['imu_1'], 'camera_list': [], 'gps_list': [],
        'process_noise': {'pos': 0.5},
        'imu': {'imu_1': {'rate': 400.0, 'variance': [0.1] * 12, 'sim_params': {'seed': 9}}},
        'sim_params': {'seed': seed, 'max_time': 10.0, 'number_of_runs': number,
                       'run_number': start, 'truth_type': 'cyclic', 'positions': [1.0, 2.0]}}}}


def run_script(ws, argv, order=None, pool=True, cores=8):
    """Run evaluate.py as a user would; False if it died."""
    import multiprocessing
    keep = (sys.argv, multiprocessing.Pool, multiprocessing.cpu_count, list(sys.path), os.cpu_count)
    e = os.path.join(ws, 'src', 'ekf_cal', 'eval')
    for m in [m for m, v in sys.modules.items() if (getattr(v, '__file__', '') or '').startswith(e)]:
        del sys.modules[m]
    Pool.order, Pool.made = order, []
    try:
        sys.argv = [os.path.join(e, 'evaluate.py')] + argv
        sys.path.insert(0, e)
        multiprocessing.cpu_count = os.cpu_count = lambda: cores
        if pool:
            multiprocessing.Pool = Pool
        runpy.run_path(sys.argv[0], run_name='__main__')
        return ''
    except SystemExit as x:
        return '' if not x.code else f'exit status {x.code}'
    except Exception as x:
        return f'{type(x).__name__}: {x}'
    finally:
        sys.argv, multiprocessing.Pool, multiprocessing.cpu_count, sys.path[:], os.cpu_count = keep


class Job:
    """One evaluation: inputs, options, behaviour of the simulator, and the oracle."""

    def __init__(self, c, inputs, runs=None, time=None, jobs=None, how=None, logs=True,
                 relative=False, order=None, pool=True, cores=8, missing=False, keep=False):
        self.__dict__.update(locals())
        self.ws = workspace(c)
        self.cfg = os.path.join(c.scratch, 'cfg')
        if not keep:
            fresh(self.cfg)
        self.ctl = fresh(os.path.join(c.scratch, 'ctl'))
        os.environ['SIM_CTL'] = self.ctl

    def count(self, config):
        return self.runs or config['/EkfCalNode']['ros__parameters']['sim_params']['number_of_runs']

    def paths(self, name, config):
        """The configurations simulated for one input, in order."""
        n = self.count(config)
        base = os.path.join(self.cfg, name)
        if n == 1:
            return [base + '.yaml'], base
        leaf = os.path.basename(name)
        digits = len(str(n - 1))
        return [os.path.join(base, 'runs', f'{leaf}_{i:0{digits}d}.yaml') for i in range(n)], base

    def go(self):
        c = self.c
        fresh(os.path.join(self.ctl, 'how'))
        fresh(os.path.join(self.ctl, 'state'))
        with open(os.path.join(self.ctl, 'truth'), 'w') as f:
            f.write(csv(0))
        for name, config in self.inputs:
            p = os.path.join(self.cfg, name + '.yaml')
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if not self.keep:
                with open(p, 'w') as f:
                    yaml.dump(config, f)
            for i, q in enumerate(self.paths(name, config)[0]):
                leaf = os.path.basename(q)
                if self.logs:
                    with open(os.path.join(self.ctl, 'state', leaf), 'w') as f:
                        f.write(csv(self.error(i), ',7,5\n'[:2]))
                if self.how and self.how[i % len(self.how)] != 'fine':
                    with open(os.path.join(self.ctl, 'how', leaf), 'w') as f:
                        f.write(self.how[i % len(self.how)] + '\n')
        argv = [os.path.join(self.cfg, n + '.yaml') for n, _ in self.inputs]
        here = os.getcwd()
        if self.relative:
            os.chdir(self.cfg)
            argv = [n + '.yaml' for n, _ in self.inputs]
        for flag, v in (('-n', self.runs), ('-t', self.time), ('-j', self.jobs)):
            if v is not None:
                argv += [flag, str(v)]
        sim = os.path.join(self.ws, 'build', 'ekf_cal', 'sim')
        if self.missing:
            os.rename(sim, sim + '.away')
        try:
            died = run_script(self.ws, argv + ['--no_plot'], self.order, self.pool, self.cores)
        finally:
            os.chdir(here)
            if self.missing:
                os.rename(sim + '.away', sim)
        c.Eval()
        if not c.Check(not died, f'the evaluation died: {died}'):
            return
        self.check()

    @staticmethod
    def error(i):
        return 0.5 * (i + 1) ** 2

    def check(self):
        c = self.c
        calls = []
        if os.path.exists(os.path.join(self.ctl, 'calls')):
            with open(os.path.join(self.ctl, 'calls')) as f:
                calls = [x.rstrip('\n').split('|') for x in f]
        expected = []
        self.seeds = {}
        for name, config in self.inputs:
            paths, base = self.paths(name, config)
            expected += paths
            with open(os.path.join(self.cfg, name + '.yaml')) as f:
                c.Check(yaml.safe_load(f) == config, 'the configuration given was changed')
            seeds = []
            for i, p in enumerate(paths):
                if not c.Check(os.path.isfile(p), f'no configuration {p} for run {i}'):
                    return
                with open(p) as f:
                    got = yaml.safe_load(f)
                want = copy.deepcopy(config)
                s = want['/EkfCalNode']['ros__parameters']['sim_params']
                try:
                    g = got['/EkfCalNode']['ros__parameters']['sim_params']
                except (KeyError, TypeError):
                    c.Fail(f'{p} is no configuration')
                    return
                if len(paths) > 1:
                    s['number_of_runs'] = 1
                    s['run_number'] += i
                    if s['seed']:
                        seeds.append(g.get('seed'))
                        s['seed'] = g.get('seed')
                if self.time and len(paths) > 1:
                    s['max_time'] = self.time
                c.Check(got == want, f'run {i} of {len(paths)}: sim_params {g} expected {s}')
                c.Transition()
            self.seeds[name] = seeds
            c.Check(all(isinstance(x, int) and x > 0 for x in seeds) and len(set(seeds)) == len(seeds),
                    f'runs share a random seed or have none: {seeds}')
            self.results(paths, base)
        if self.missing:
            return
        ran = sorted(os.path.abspath(x[0]) for x in calls)
        c.Check(ran == sorted(expected),
                f'simulated {[os.path.basename(x) for x in ran]} '
                f'expected {[os.path.basename(x) for x in expected]}')
        for x in calls:
            c.Check(len(x) == 4 and x[2] == '2' and x[3] == 'yes' and
                    os.path.abspath(x[1]) == x[0][:-len('.yaml')] and x[1].endswith('/'),
                    f'the simulator was called with {x}')
            c.Trace()
        if self.time and len(expected) == len(self.inputs):
            key, c.key = c.key, 'time limit of a single run'
            for x in calls:
                with open(x[0]) as f:
                    got = yaml.safe_load(f)['/EkfCalNode']['ros__parameters']['sim_params']
                c.Check(got['max_time'] == self.time,
                        f"time limit {self.time}, simulated for {got['max_time']} ({key})")
            c.key = key

    def results(self, paths, base):
        c = self.c
        for i, p in enumerate(paths):
            b = self.how[i % len(self.how)] if self.how and not self.missing else 'fine'
            for word, leaf, text in (('out', 'sim.stdout', 'words of '), ('err', 'sim.stderr', 'trouble of ')):
                f = os.path.join(p[:-len('.yaml')], leaf)
                got = open(f).read() if os.path.exists(f) else ''
                want = text + os.path.basename(p) + '\n' if word in b else ''
                c.Check(got == want, f'{leaf} of run {i}: {got!r} expected {want!r}')
        if not self.logs or self.missing:
            return
        e = [self.error(i) for i in range(len(paths))]
        mean = sum(e) / len(e)
        dev = (sum((x - mean) ** 2 for x in e) / len(e)) ** 0.5
        f = os.path.join(base, 'stats.txt')
        if not c.Check(os.path.exists(f), f'no statistics in {base}'):
            return
        rows = dict(x.strip().split(': ') for x in open(f) if ': ' in x)
        got = [float(x) for x in rows.get('body_0_err_pos', 'nan,nan').split(',')]
        c.Check(abs(got[0] - mean) < 1e-3 and abs(got[1] - dev) < 1e-3,
                f'statistics over {len(paths)} runs: {got} expected {[mean, dev]}')
        c.State('stats', len(paths), self.runs, self.time, self.how, self.order and tuple(self.order(len(paths))))


CASES = []


def case(key, **kw):
    if R.Selected(key):
        CASES.append((key, kw))


def one(number=3, seed=1, start=0, name='exp'):
    return [(name, top_config(number, seed, start))]


class Order:
    def __init__(self, perm):
        self.perm = perm

    def __call__(self, n):
        return self.perm if len(self.perm) == n else range(n)


# every combination of the configuration's counters and the command line's
for number, runs, time, seed, start in itertools.product(
        (1, 2, 3, 9, 10, 11) + ((12, 99, 100, 101) if R.thorough else ()),
        (None, 1, 2, 10) + ((11,) if R.thorough else ()), (None, 2.5), (0, 1, 5), (0, 4)):
    case(f'number={number} runs={runs} time={time} seed={seed} start={start}',
         inputs=one(number, seed, start), runs=runs, time=time)
# every order of completion, every behaviour of every run
HOW = ('fine', 'out', 'err exit', 'out err kill')
M = 4 if R.thorough else 3
for perm in itertools.permutations(range(M)):
    for how in itertools.product(HOW, repeat=M):
        case(f'order={perm} how={"/".join(how)}', inputs=one(M), how=how, order=Order(perm))
for how in HOW:
    case(f'alone how={how}', inputs=one(1), how=(how,))
# inputs: several, in folders, with dots in the name, given by relative path
SETS = {
    'two single': [('a', top_config(1, 1, 0)), ('b', top_config(1, 2, 0))],
    'single and many': [('a', top_config(1, 1, 0)), ('b', top_config(3, 2, 5))],
    'many and many': [('a', top_config(2, 1, 0)), ('b', top_config(3, 1, 5))],
    'three': [('a', top_config(2, 1, 0)), ('b', top_config(1, 1, 0)), ('c', top_config(2, 7, 1))],
    'folders': [('x/a', top_config(2, 1, 0)), ('y/b', top_config(2, 2, 0))],
    'dots': [('a.b', top_config(2, 1, 0)), ('c-1.0', top_config(1, 2, 0))],
    'spaces': [('a b', top_config(2, 1, 0)), ('c d', top_config(1, 2, 0))],
}
for (name, inputs), relative, runs in itertools.product(SETS.items(), (False, True), (None, 2)):
    case(f'inputs={name} relative={relative} runs={runs}', inputs=inputs, relative=relative, runs=runs)
# real worker processes
for jobs, cores, number in itertools.product((None, 1, 2, 5), (1, 2, 8), (1, 3)):
    case(f'processes jobs={jobs} cores={cores} number={number}', inputs=one(number), jobs=jobs,
         cores=cores, pool=False, how=('out', 'fine', 'err exit')[:number])
for cores in (1, 2, 8):
    case(f'cores={cores}', inputs=one(2), cores=cores)
for number in (1, 3):
    case(f'no simulator number={number}', inputs=one(number), missing=True, logs=False, how=('fine',))
# running again, with fewer runs, with other behaviour
for first, then in itertools.product((None, 1, 2, 11), (None, 1, 2, 11)):
    case(f'again {first} then {then}', inputs=one(3), runs=first, then=then)
for first, then in itertools.product(HOW, repeat=2):
    for number in (1, 2):
        case(f'again number={number} {first} then {then}', inputs=one(number), how=(first,),
             then=number, how2=(then,))
case('same seed, same runs', inputs=one(5), twice=True)


def run(i, c):
    key, kw = CASES[i]
    c.Key(key)
    kw = dict(kw)
    then = kw.pop('then', 'no')
    twice = kw.pop('twice', False)
    how2 = kw.pop('how2', None)
    j = Job(c, **kw)
    j.go()
    c.State(key)
    if i < 2:
        c.Sample(f'{key}: {[os.path.basename(p) for n, f in j.inputs for p in j.paths(n, f)[0]]}')
    if then != 'no':
        kw['runs'] = then
        kw['how'] = how2 or kw.get('how')
        Job(c, keep=True, **kw).go()
    if twice:
        a = j.seeds['exp']
        k = Job(c, **kw)
        k.go()
        c.Check(k.seeds['exp'] == a, 'the same configuration gave other seeds')
        other = Job(c, inputs=one(5, 2))
        other.go()
        c.Check(not set(other.seeds['exp']) & set(a), 'another seed gave the same runs')


R.Parallel(len(CASES), run)
R.rule = 'every combination of run count, command-line run count, time limit, seed and start ' \
    'number; every order in which three (thorough: four) runs can finish times every way each ' \
    'can end (well, with output, failing, killed); sets of inputs, paths, cores, workers, reruns'
R.Bound('runs', 'up to 11; thorough 101')
R.Bound('orders', '3! (thorough 4!) x 4 behaviours per run')
R.assumptions = [
    'multiprocessing.Pool is replaced by a one-process pool with a chosen order of completion, '
    'except in the cases named processes',
    'pandas and bokeh are stand-ins (harness/py_stub); the simulator is a recording script']
sys.exit(R.Finish())
