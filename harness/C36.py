"""C36: the animation replays the logged paths.

The real script (eval/animate.py) is run on logs made here, for every set of runs
and log lengths listed; figures only note what each frame draws, which is
compared with the rows of the logs.
"""
# stand-ins: py_stub
import itertools
import math
import os
import runpy
import shutil
import sys

import mcpy
import yaml

R = mcpy.Runner('C36')
EVAL = '/repo/eval'


def rows(n, run):
    """n rows of a path that never passes a point twice."""
    out = []
    for i in range(n):
        out.append((round(3 * math.sin(0.7 * i + run) + 0.01 * i, 6), round(0.5 * run - 0.002 * i, 6),
                    round(-2 * math.cos(0.3 * i) + run, 6)))
    return out


def write(path, path_rows, cut):
    """A body state log; the last row may be cut short, as if the run were killed."""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write('time,body_vel_0,body_pos_0,body_pos_1,body_pos_2,state_size\n')
        for i, p in enumerate(path_rows):
            f.write(f'{i * 0.1},{i * 7},{p[0]},{p[1]},{p[2]},18\n')
        if cut:
            f.write('1e3,5')


def animate(argv):
    import matplotlib.animation as animation
    import matplotlib.pyplot as pyplot
    animation.saved.clear()
    pyplot.made.clear()
    keep = (sys.argv, list(sys.path))
    for m in [m for m, v in sys.modules.items() if (getattr(v, '__file__', '') or '').startswith(EVAL)]:
        del sys.modules[m]
    try:
        sys.argv = [os.path.join(EVAL, 'animate.py')] + argv
        sys.path.insert(0, EVAL)
        runpy.run_path(sys.argv[0], run_name='__main__')
        return '', list(animation.saved)
    except SystemExit as x:
        return '' if not x.code else f'exit status {x.code}', list(animation.saved)
    except Exception as x:
        return f'{type(x).__name__}: {x}', list(animation.saved)
    finally:
        sys.argv, sys.path[:] = keep


def movie(c, m, runs):
    """One saved animation against the rows of its runs, in their order."""
    runs = [r for r in runs if r is not None]
    n = len(m.frames)
    seconds = n * m.interval / 1000
    if not c.Check(n > 0 and abs(seconds - 5) < 0.05, f'{n} frames that take {seconds} s'):
        return
    share = 1 / seconds   # the part of the log shown as a tail
    before = [0] * len(runs)
    for t, frame in enumerate(m.frames):
        c.Transition()
        if not c.Check(len(frame) == 1 and len(frame[0][0]) == len(runs),
                       f'frame {t} draws {[len(f[0]) for f in frame]} paths of {len(runs)} runs'):
            return
        lines, limits = frame[0]
        for axis in range(3):
            want = (min(p[axis] for r in runs for p in r), max(p[axis] for r in runs for p in r))
            got = limits.get('xyz'[axis])
            if not c.Check(got is not None and max(abs(a - b) for a, b in zip(got, want)) < 1e-9,
                           f'frame {t}: limits {got} of axis {axis} instead of {want}'):
                return
        for k, (line, r) in enumerate(zip(lines, runs)):
            shown = list(zip(*line)) if len(line) == 3 and len({len(p) for p in line}) == 1 else None
            if not c.Check(shown is not None and len(shown) > 0, f'frame {t}: run {k} shows no path'):
                return
            c.Eval()
            s = r.index(shown[0]) if shown[0] in r else -1
            e = s + len(shown)
            if not c.Check(s >= 0 and shown == r[s:e], f'frame {t}: run {k} shows positions not logged, or out of order'):
                return
            ok = e >= before[k] and abs(e - len(r) * (t + 1) / n) <= 1.001
            if not c.Check(ok, f'frame {t} of {n}: run {k} has reached row {e} of {len(r)}'):
                return
            before[k] = e
            tail = len(r) * share
            ok = len(shown) <= max(1, tail + 1.001) and (s == 0 or len(shown) >= tail - 1.001)
            if not c.Check(ok, f'frame {t}: run {k} shows {len(shown)} rows of {len(r)}'):
                return
    c.Check(before == [len(r) for r in runs], 'the last frame does not show the last position')


LENGTHS = [1, 2, 3, 7, 30, 74, 75, 76, 149, 150, 151, 200, 299, 300, 301, 449, 450, 1000]
FEW = [1, 40, 149, 150, 160, 301]
if R.thorough:
    LENGTHS = sorted(set(LENGTHS + list(range(1, 460)) + [600, 900, 1500, 2999, 3000]))
    FEW = [1, 2, 40, 149, 150, 151, 160, 299, 301, 450, 700]
cases = []   # per input: number of runs (None: option -n), lengths (None: no log), cut
for n in LENGTHS:
    for cut in (False, True):
        cases.append(([(1, [n])], None, cut))
for a, b in itertools.product(FEW, FEW):
    cases.append(([(2, [a, b])], None, False))
    cases.append(([(1, [a]), (1, [b])], None, True))
for a, b in itertools.product(FEW[:3] + [None], FEW[1:4] + [None]):
    if a or b:
        cases.append(([(1, [a, 160, b])], 3, False))
        cases.append(([(1, [a, b]), (5, [b, a])], 2, False))
cases.append(([(11, [30 + i for i in range(11)])], None, False))
cases.append(([(1, [30 + i for i in range(10)])], 10, False))


def one(i, c):
    inputs, option, cut = cases[i]
    key = 'runs ' + ' + '.join(f'{n}:{",".join(map(str, ls))}' for n, ls in inputs) + \
        (f' -n {option}' if option else '') + (' cut' if cut else '')
    if not R.Selected(key):
        return
    c.Key(key)
    top = os.path.join(c.scratch, 'a')
    if os.path.isdir(top):
        shutil.rmtree(top)
    os.makedirs(top)
    argv, want = [], []
    for k, (n, lengths) in enumerate(inputs):
        name = f'cfg{k}'
        f = os.path.join(top, name + '.yaml')
        with open(f, 'w') as out:
            yaml.dump({'/EkfCalNode': {'ros__parameters': {'sim_params': {'number_of_runs': n}}}}, out)
        argv.append(f)
        runs = option or n
        base = os.path.join(top, name)
        digits = len(str(runs - 1))
        dirs = [base] if runs == 1 else \
            [os.path.join(base, 'runs', f'{name}_{j:0{digits}d}') for j in range(runs)]
        logged = []
        for j, d in enumerate(dirs):
            if lengths[j] is None:
                logged.append(None)
                continue
            logged.append(rows(lengths[j], j + 20 * k))
            write(os.path.join(d, 'body_state.csv'), logged[-1], cut)
        want.append((os.path.join(base, name + '.gif'), logged))
        if all(x is None for x in logged):
            os.makedirs(base, exist_ok=True)
    died, saved = animate(argv + (['-n', str(option)] if option else []))
    if not c.Check(not died, f'animate.py died: {died}'):
        return
    c.Trace()
    if not c.Check([os.path.normpath(m.path) for m in saved] == [w[0] for w in want],
                   f'saved {[os.path.relpath(m.path, top) for m in saved]}'):
        return
    for m, (_, logged) in zip(saved, want):
        movie(c, m, logged)
        c.State(key, m.path[len(top):])
        c.Count('frames', len(m.frames))
    c.Sample(key)


R.rule = 'every log length listed, alone and cut short; every pair of lengths as two runs and as two ' \
    'configurations; runs without a log; number of runs from the configuration and from -n'
R.assumptions = ['matplotlib and pandas are stand-ins that note what is drawn',
                 'the tail of a path is one second of the five the replay takes']
R.Bound('log lengths', len(LENGTHS))
R.Bound('sets of runs', len(cases))
R.Parallel(len(cases), one)
sys.exit(R.Finish())
