"""C33: the statistics and the report say what the logs say.

The real eval/stats.py and eval/report.py are run on folders of logs: enumerated
small ones written here, and ones the real sim wrote.  An oracle of its own reads
the same files and says what every statistic, drawn curve, limit and histogram
has to be.
"""
# needs: sim
# stand-ins: py_stub
import csv
import itertools
import math
import os
import runpy
import shutil
import subprocess
import sys
import warnings

import bokeh.plotting
import mcpy
import numpy as np
import yaml
from scipy.stats import chi2

warnings.simplefilter('ignore')
EVAL = '/repo/eval'
R = mcpy.Runner('C33')


# ---------------------------------------------------------------- quaternions
def qmul(a, b):
    w, x, y, z = a
    W, X, Y, Z = b
    return np.array([w * W - x * X - y * Y - z * Z, w * X + x * W + y * Z - z * Y,
                     w * Y - x * Z + y * W + z * X, w * Z + x * Y - y * X + z * W])


def unit(q):
    q = np.array(q, dtype=float)
    return q / np.linalg.norm(q)


def conj(q):
    return q * np.array([1, -1, -1, -1])


def euler(q):
    """Angles a, b, g with q = rotation about x, then new y, then new z."""
    w, x, y, z = unit(q)
    a = math.atan2(2 * (w * x - y * z), 1 - 2 * (x * x + y * y))
    b = math.asin(max(-1.0, min(1.0, 2 * (x * z + w * y))))
    g = math.atan2(2 * (w * z - x * y), 1 - 2 * (y * y + z * z))
    return np.array([a, b, g])


CONV = [lambda e, t: qmul(t, conj(e)), lambda e, t: qmul(e, conj(t)),
        lambda e, t: qmul(conj(t), e), lambda e, t: qmul(conj(e), t)]


# ---------------------------------------------------------------- logs
class Log:
    """One CSV file; rows that were not written to their end are left out."""

    def __init__(self, path):
        with open(path, newline='') as f:
            table = [r for r in csv.reader(f) if r]
        self.names = table[0] if table else []
        rows = [[float(x) for x in r] for r in table[1:]
                if len(r) == len(self.names) and all(x.strip() for x in r)]
        self.col = {n: np.array([r[i] for r in rows]) for i, n in enumerate(self.names)}
        self.n = len(rows)

    def __getitem__(self, name):
        return self.col[name]

    def has(self, name):
        return name in self.col

    def vec(self, prefix, n=3):
        return np.array([self[f'{prefix}_{i}'] for i in range(n)])


def at(t, grid, values):
    """Straight line between the samples, the first and last held outside."""
    out = []
    for x in t:
        k = 0
        while k < len(grid) and grid[k] <= x:
            k += 1
        if k == 0:
            out.append(values[0])
        elif k == len(grid):
            out.append(values[-1])
        else:
            s = (x - grid[k - 1]) / (grid[k] - grid[k - 1])
            out.append(values[k - 1] + s * (values[k] - values[k - 1]))
    return np.array(out)


def logs(dirs, prefix):
    """{identifier: [(run, log)]} for the files prefix.csv and prefix_<id>.csv."""
    out = {}
    for i, d in enumerate(dirs):
        if not os.path.isdir(d):
            continue
        for leaf in os.listdir(d):
            if not leaf.endswith('.csv'):
                continue
            stem = leaf[:-4]
            if stem == prefix:
                out.setdefault(0, []).append((i, Log(os.path.join(d, leaf))))
            elif stem.startswith(prefix + '_') and stem[len(prefix) + 1:].isdigit():
                out.setdefault(int(stem[len(prefix) + 1:]), []).append(
                    (i, Log(os.path.join(d, leaf))))
    return out


def err(log, est, truth, tru):
    """Estimate minus truth at the times of the estimates, one row per axis."""
    return np.array([log[f'{est}_{i}'] - at(log['time'], truth['time'], truth[f'{tru}_{i}'])
                     for i in range(3)])


def ang_err(log, est, truth, tru, way):
    q = log.vec(est, 4).T
    t = np.array([at(log['time'], truth['time'], truth[f'{tru}_{i}']) for i in range(4)]).T
    if len(q) == 0:
        return np.zeros((3, 0))
    return np.array([euler(CONV[way](unit(a), unit(b))) for a, b in zip(q, t)]).T


class Turned:
    """Three curves that have to be angles about x, y and z of these attitudes."""

    def __init__(self, log, name):
        self.t = log['time']
        self.q = [unit(q) for q in log.vec(name, 4).T]

    def match(self, x, y, z):
        if not all(len(v) == len(self.q) for v in (x, y, z)):
            return False
        for q, a in zip(self.q, zip(x, y, z)):
            r = np.array([1.0, 0, 0, 0])
            for k in range(3):
                turn = np.zeros(4)
                turn[0], turn[1 + k] = math.cos(a[k] / 2), math.sin(a[k] / 2)
                r = qmul(r, turn)
            if abs(abs(float(r @ q)) - 1) > 1e-9:
                return False
        return True


def rms(e):
    return math.sqrt(np.mean((e * e).sum(axis=0))) if e.size else math.nan


# ---------------------------------------------------------------- oracle
class Want:
    """What has to be reported for the runs in dirs."""

    def __init__(self, dirs):
        self.dirs = dirs
        self.truth = dict((logs(dirs, 'body_truth').get(0, [])))
        self.stats = {}     # key: list of alternatives, each a list over the runs
        self.figs = {}      # (tab, figure): list of alternatives, each a list of curves
        self.nees = {}      # (tab): (degrees of freedom)
        self.hist = {}      # tab: durations
        self.bands = {}
        self.tabs = []
        self.two_boards = False
        self.build()

    def stat(self, key, per_run):
        self.stats[key] = per_run

    def fig(self, tab, title, *alternatives):
        self.figs[(tab, title)] = alternatives

    def curves(self, found, values):
        """X, Y, Z curves of every run."""
        return [('XYZ'[k], lg['time'], v[k]) for i, lg in found for v in [values(i, lg)]
                for k in range(3)]

    def simple(self, tab, title, found, cols):
        self.fig(tab, title, [(n, lg['time'], lg[c]) for i, lg in found for n, c in cols])

    def xyz(self, tab, title, found, prefix, first=0, scale=1.0):
        self.fig(tab, title, [('XYZ'[k], lg['time'], lg[f'{prefix}_{first + k}'] * scale)
                              for i, lg in found for k in range(3)])

    def error(self, tab, title, found, est, tru, scale=1.0):
        self.fig(tab, title, self.curves(
            found, lambda i, lg: err(lg, est, self.truth[i], tru) * scale))

    def turn(self, tab, title, found, est, tru, scale=1.0):
        self.fig(tab, title, *[self.curves(
            found, lambda i, lg, w=w: ang_err(lg, est, self.truth[i], tru, w) * scale)
            for w in range(4)])

    def attitude(self, tab, title, found, name):
        self.fig(tab, title, [Turned(lg, name) for i, lg in found])

    def duration(self, tab, found):
        self.hist[tab] = np.concatenate([lg['duration_0'] for i, lg in found])

    def normalised(self, tab, found, parts, dof):
        """parts(i, log, way) gives errors and variances, one row per state."""
        alt = []
        for w in range(4):
            curves = []
            for i, lg in found:
                e, v = parts(i, lg, w)
                with np.errstate(all='ignore'):
                    curves.append((None, lg['time'], (e * e / v).sum(axis=0)))
            alt.append(curves)
        self.fig(tab, 'Normalized Estimation Error Squared', *alt)
        self.nees[tab] = dof

    def build(self):
        d, truth = self.dirs, self.truth
        body = logs(d, 'body_state').get(0, [])
        aug = logs(d, 'aug_state').get(0, [])
        if body:
            self.body(body, aug)
        for k, found in sorted(logs(d, 'imu').items()):
            self.imu(k, found)
        tri, feat = logs(d, 'triangulation'), logs(d, 'feature_points')
        for k, found in sorted(logs(d, 'msckf').items()):
            self.camera('MSCKF', k, found)
            self.msckf(k, found, dict(tri.get(k, [])), dict(feat.get(0, [])))
        boards = dict(logs(d, 'board_truth').get(0, []))
        for k, found in sorted(logs(d, 'fiducial').items()):
            self.camera('Fiducial', k, found)
            self.board(k, found, boards)
        for k, found in sorted(logs(d, 'gps').items()):
            self.gps(k, found)

    def body(self, found, aug):
        T = self.truth
        self.tabs.append('Body')
        for s, name, unit_name in (('pos', 'Position', 0), ('vel', 'Velocity', 3),
                                   ('acc', 'Acceleration', 6), ('ang_vel', 'Angular Velocity', 12),
                                   ('ang_acc', 'Angular Acceleration', 15)):
            self.stat(f'body_0_err_{s}',
                      [[rms(err(lg, f'body_{s}', T[i], f'body_{s}')) for i, lg in found]])
            self.xyz('Body', f'Body {name}', found, f'body_{s}')
            self.error('Body', f'Body {name} Error', found, f'body_{s}', f'body_{s}')
            cov = name.replace('Angular Velocity', 'Angular Rate')
            self.xyz('Body', f'Body {cov} Covariance', found, 'body_cov', unit_name)
        q = 'body_ang_pos'
        self.stat('body_0_err_ang_pos', [[rms(ang_err(lg, q, T[i], q, w)) for i, lg in found]
                                         for w in range(4)])
        self.stat('body_0_states', [[np.mean(lg['state_size']) for i, lg in found]])
        self.attitude('Body', 'Body Angle', found, q)
        self.turn('Body', 'Body Angular Error', found, q, q)
        self.xyz('Body', 'Body Angular Covariance', found, 'body_cov', 9)
        self.fig('Body', 'State Size', [(None, lg['time'], lg['state_size']) for i, lg in found])
        self.duration('Body', found)

        def parts(i, lg, w):
            e = [err(lg, f'body_{s}', T[i], f'body_{s}') for s in ('pos', 'vel', 'acc')]
            e += [ang_err(lg, q, T[i], q, w)]
            e += [err(lg, f'body_{s}', T[i], f'body_{s}') for s in ('ang_vel', 'ang_acc')]
            return np.vstack(e), lg.vec('body_cov', 18)
        self.normalised('Body', found, parts, 18)
        if aug:
            self.xyz('Body', 'Augmented State Position', aug, 'aug_pos')
            self.attitude('Body', 'Augmented State Orientation', aug, 'aug_ang')

    def imu(self, k, found):
        T, tab = self.truth, f'IMU {k}'
        self.tabs.append(tab)
        self.stat(f'imu_{k}_err_pos',
                  [[rms(err(lg, 'imu_pos', T[i], f'imu_pos_{k}')) for i, lg in found]])
        self.stat(f'imu_{k}_err_ang',
                  [[rms(ang_err(lg, 'imu_ang_pos', T[i], f'imu_ang_pos_{k}', w))
                    for i, lg in found] for w in range(4)])
        for b, title in (('acc', 'Accelerometer Bias Error'), ('gyr', 'Gyroscope Bias Error')):
            self.stat(f'imu_{k}_err_{b}_bias',
                      [[rms(err(lg, f'imu_{b}_bias', T[i], f'imu_{b}_bias_{k}'))
                        for i, lg in found]])
        self.stat(f'imu_{k}_duration', [[np.mean(lg['duration_0']) for i, lg in found]])
        self.xyz(tab, 'Acceleration Measurements', found, 'acc')
        self.xyz(tab, 'Angular Rate Measurements', found, 'omg')
        self.xyz(tab, 'Acceleration Residuals', found, 'residual', 0)
        self.xyz(tab, 'Angular Rate Residuals', found, 'residual', 3)
        self.simple(tab, 'Is Stationary', found,
                    (('Is Stationary', 'stationary'), ('Chi^2 Score', 'score')))
        self.duration(tab, found)
        ext = found[0][1].has('imu_ext_cov_0')
        intr = found[0][1].has('imu_int_cov_0')
        if ext:
            self.xyz(tab, 'Position Covariance', found, 'imu_ext_cov', 0)
            self.xyz(tab, 'Angle Covariance', found, 'imu_ext_cov', 3)
            self.error(tab, 'Extrinsic Position Error', found, 'imu_pos', f'imu_pos_{k}', 1e3)
            self.turn(tab, 'Extrinsic Angle Error', found, 'imu_ang_pos', f'imu_ang_pos_{k}', 1e3)
        if intr:
            self.xyz(tab, 'Accelerometer Bias Covariance', found, 'imu_int_cov', 0)
            self.xyz(tab, 'Gyroscope Bias Covariance', found, 'imu_int_cov', 3)
            self.error(tab, 'Accelerometer Bias Error', found, 'imu_acc_bias', f'imu_acc_bias_{k}')
            self.error(tab, 'Gyroscope Bias Error', found, 'imu_gyr_bias', f'imu_gyr_bias_{k}')

        def parts(i, lg, w):
            e, v = [], []
            if ext:
                e += [err(lg, 'imu_pos', T[i], f'imu_pos_{k}'),
                      ang_err(lg, 'imu_ang_pos', T[i], f'imu_ang_pos_{k}', w)]
                v.append(lg.vec('imu_ext_cov', 6))
            if intr:
                e += [err(lg, f'imu_{b}_bias', T[i], f'imu_{b}_bias_{k}') for b in ('acc', 'gyr')]
                v.append(lg.vec('imu_int_cov', 6))
            return np.vstack(e), np.vstack(v)
        if ext or intr:
            self.normalised(tab, found, parts, 6 * ext + 6 * intr)

    def camera(self, kind, k, found):
        T, tab = self.truth, f'{kind} {k}'
        self.tabs.append(tab)
        if kind == 'MSCKF':
            self.stat(f'mskcf_{k}_err_pos',
                      [[rms(err(lg, 'cam_pos', T[i], f'cam_pos_{k}')) for i, lg in found]])
            self.stat(f'mskcf_{k}_err_ang',
                      [[rms(ang_err(lg, 'cam_ang_pos', T[i], f'cam_ang_pos_{k}', w))
                        for i, lg in found] for w in range(4)])
        self.duration(tab, found)
        if found[0][1].has('cam_cov_0'):
            more = '' if kind == 'MSCKF' else 'Camera '
            self.xyz(tab, 'Camera Position', found, 'cam_pos')
            self.attitude(tab, 'Camera Orientation', found, 'cam_ang_pos')
            self.error(tab, 'Camera Extrinsic Position Error', found, 'cam_pos', f'cam_pos_{k}', 1e3)
            self.turn(tab, 'Camera Extrinsic Angle Error', found, 'cam_ang_pos',
                      f'cam_ang_pos_{k}', 1e3)
            self.xyz(tab, more + 'Position Covariance', found, 'cam_cov', 0)
            self.xyz(tab, more + 'Angle Covariance', found, 'cam_cov', 3)

    def msckf(self, k, found, tri, feat):
        T, tab = self.truth, f'MSCKF {k}'
        self.simple(tab, 'Track Counts', found, (('Track Count', 'FeatureTracks'),))
        if found[0][1].has('cam_cov_0'):
            self.normalised(tab, found, lambda i, lg, w: (np.vstack(
                [err(lg, 'cam_pos', T[i], f'cam_pos_{k}'),
                 ang_err(lg, 'cam_ang_pos', T[i], f'cam_ang_pos_{k}', w)]),
                lg.vec('cam_cov', 6)), 6)
        miss = {}
        for i, t in tri.items():
            where = {f: n for n, f in enumerate(feat[i]['Feature'])} if i in feat else {}
            for n in range(t.n):
                f = where[t['feature'][n]]
                miss.setdefault(t['time'][n], []).append(
                    [t[a][n] - feat[i][a][f] for a in 'xyz'])
        times = sorted(miss)
        mean = np.array([np.mean(miss[t], axis=0) for t in times]).reshape(-1, 3)
        dev = np.array([np.std(miss[t], axis=0) for t in times]).reshape(-1, 3)
        self.fig(tab, 'MSCKF Triangulation Error',
                 [('XYZ'[a], np.array(times), mean[:, a]) for a in range(3)])
        self.bands[(tab, 'MSCKF Triangulation Error')] = \
            [(np.array(times), mean[:, a] - dev[:, a], mean[:, a] + dev[:, a]) for a in range(3)]

    def board(self, k, found, boards):
        tab = f'Fiducial {k}'
        self.xyz(tab, 'Fiducial Position in Camera Frame', found, 'board_meas_pos')
        self.attitude(tab, 'Fiducial Angle in Camera Frame', found, 'board_meas_ang')

        def parts(i, lg, w):
            b = boards[i]
            row = 0
            if b.n > 1:
                self.two_boards = True
                row = list(b['board']).index(lg['board'][0])
            p = [lg[f'fid_pos_{a}'] - b['pos_' + 'xyz'[a]][row] for a in range(3)]
            q = unit([b['quat_' + a][row] for a in 'wxyz'])
            r = np.array([euler(CONV[w](unit(x), q)) for x in lg.vec('fid_ang', 4).T])
            return np.vstack([p, r.reshape(-1, 3).T]), lg.vec('fid_cov', 6)
        if found[0][1].has('fid_cov_0'):
            self.normalised(tab, found, parts, 6)

    def gps(self, k, found):
        T, tab = self.truth, f'GPS {k}'
        self.tabs.append(tab)
        pos, ang, count = [], [], []
        for i, lg in found:
            on = [n for n in range(lg.n) if lg['is_initialized'][n]]
            count.append(lg.n - len(on))
            if on and on[0] + 1 < lg.n:
                n = on[0] + 1
                pos.append(math.sqrt(sum((lg[c][n] - T[i][c][0]) ** 2
                                         for c in ('ref_lat', 'ref_lon', 'ref_alt'))))
                h = lg['ref_heading'][n] - T[i]['ref_heading'][0]
                ang.append(math.atan2(math.sin(h), math.cos(h)))
        self.stat(f'gps_{k}_err_init_pos', [pos])
        self.stat(f'gps_{k}_err_init_ang', [ang, [-x for x in ang]])
        self.stat(f'gps_{k}_init_count', [count])
        self.fig(tab, 'GPS Measurements', [(c.upper(), lg['time'], lg[c])
                                           for i, lg in found for c in 'xyz'])
        self.xyz(tab, 'GPS Residuals', found, 'residual')
        self.duration(tab, found)
        if found[0][1].has('gps_cov_0'):
            self.error(tab, 'GPS Antenna Position Error', found, 'ant_pos', f'gps_pos_{k}', 1e3)
            self.xyz(tab, 'GPS Antenna Position Covariance', found, 'gps_cov', 0, 1e3)
            self.normalised(tab, found, lambda i, lg, w: (
                err(lg, 'ant_pos', T[i], f'gps_pos_{k}'), lg.vec('gps_cov', 3)), 3)


# ---------------------------------------------------------------- comparison
def close(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    with np.errstate(all='ignore'):
        return bool(np.all((np.abs(a - b) <= 1e-7 + 1e-6 * np.abs(b)) | (a == b) |
                           (np.isnan(a) & np.isnan(b))))


def brief(v):
    v = np.asarray(v, dtype=float)
    return np.array2string(v[:6], precision=6) + ('...' if len(v) > 6 else '')


def differ(drawn, want):
    """'' if the drawn curves are the wanted ones, in any order."""
    left = [(x, y, lab) for kind, x, y, lab, kw in drawn]
    if want and isinstance(want[0], Turned):
        if len(left) != 3 * len(want):
            return f'{len(left)} curves drawn, expected {3 * len(want)}'
        axis = [[g for n, g in enumerate(left) if (g[2] or 'XYZ'[n % 3]) == a] for a in 'XYZ']
        for w in want:
            hit = next((g for g in zip(*axis) if all(close(v[0], w.t) for v in g) and
                        w.match(*[v[1] for v in g])), None)
            if hit is None:
                return f'no angles of {[brief(q) for q in w.q[:4]]}; drawn ' + ', '.join(
                    brief(v[1]) for g in zip(*axis) for v in g)
        return ''
    if len(left) != len(want):
        return f'{len(left)} curves drawn, expected {len(want)}'
    for lab, x, y in want:
        for n, (gx, gy, gl) in enumerate(left):
            if (lab is None or gl is None or gl == lab) and close(gx, x) and close(gy, y):
                del left[n]
                break
        else:
            near = [g for g in left if close(g[0], x) and (g[2] == lab or g[2] is None)] or left
            return f'no curve {lab} x={brief(x)} y={brief(y)}; drawn ' \
                f'{near[0][2]} x={brief(near[0][0])} y={brief(near[0][1])}'
    return ''


def figures(obj, seen=None):
    out = []
    if isinstance(obj, bokeh.plotting.figure):
        return [obj]
    for name in ('child', 'children', 'args'):
        v = getattr(obj, name, None)
        for x in (v if isinstance(v, (list, tuple)) else [] if v is None else [v]):
            if hasattr(x, '__dict__'):
                out += figures(x)
    return out


def tabs_of(obj):
    return list(getattr(obj, 'tabs', None) or (obj.args[0] if obj.args else []))


def check_stats(c, w, path):
    if not c.Check(os.path.isfile(path), 'no statistics were written'):
        return
    got = {}
    with open(path) as f:
        for line in f:
            if ': ' in line:
                k, v = line.strip().split(': ', 1)
                got[k] = [float(x) for x in v.split(',')]
    for key, alternatives in w.stats.items():
        if not c.Check(key in got, f'no statistic {key}'):
            continue
        good, shown = False, []
        for vals in alternatives:
            v = np.array(vals, dtype=float)
            mean = v.mean() if v.size else math.nan
            dev = math.sqrt(np.mean((v - mean) ** 2)) if v.size else math.nan
            shown.append((mean, dev))
            good = good or all(
                (math.isnan(a) and math.isnan(b)) or abs(a - b) <= 0.501e-4 + 1e-7 * abs(b)
                for a, b in zip(got[key], (mean, dev)))
        c.Check(good, f'statistic {key}: {got[key]} expected {shown[0]}')
        c.Eval()


def check_report(c, w, saved, light):
    if not c.Check(len(saved) == 1, f'{len(saved)} reports written'):
        return
    tabs = {}
    for t in tabs_of(saved[0][1]):
        c.Check(t.title not in tabs, f'two tabs {t.title}')
        tabs[t.title] = {}
        for f in figures(t):
            tabs[t.title].setdefault(f.title.text, []).append(f)
    c.Check(sorted(tabs) == sorted(w.tabs), f'tabs {sorted(tabs)} expected {sorted(w.tabs)}')
    for (tab, title), alternatives in w.figs.items():
        figs = tabs.get(tab, {}).get(title, [])
        if not c.Check(len(figs) == 1, f'{tab}: {len(figs)} figures "{title}"'):
            continue
        key = c.key
        if w.two_boards and tab.startswith('Fiducial') and title.startswith('Normalized'):
            c.key = 'two boards, normalised error of the second'
        why = [differ(figs[0].drawn, a) for a in alternatives]
        c.Check('' in why, f'{tab}, {title}: {why[0]}')
        c.key = key
        c.Eval()
        if title.startswith('Normalized'):
            want = [chi2.ppf(p, df=w.nees[tab]) for p in (0.025, 0.975)]
            c.Check(close(sorted(figs[0].spans), want),
                    f'{tab}: limits {sorted(figs[0].spans)} expected {want}')
        if (tab, title) in w.bands:
            got = []
            for b in figs[0].layouts:
                if type(b).__name__ == 'Band':
                    s = b.source.data
                    got.append([np.asarray(s[getattr(b, n)], dtype=float)
                                for n in ('base', 'lower', 'upper')])
            left = list(w.bands[(tab, title)])
            for g in got:
                n = next((n for n, x in enumerate(left) if all(close(p, q) for p, q in zip(g, x))),
                         None)
                if n is None:
                    c.Fail(f'{tab}, {title}: band {brief(g[1])} to {brief(g[2])}')
                else:
                    del left[n]
            c.Check(not left, f'{tab}, {title}: {len(left)} bands missing')
    for tab, d in w.hist.items():
        found = [f for t, fs in tabs.get(tab, {}).items() for f in fs if f.quads]
        if not c.Check(len(found) == 1 and len(found[0].quads) == 1, f'{tab}: no histogram'):
            continue
        q = found[0].quads[0]
        n = len(q['top'])
        if not c.Check(len(q['left']) == len(q['right']) == n > 0, f'{tab}: histogram without bins'):
            continue
        c.Check(close(q['left'][1:], q['right'][:-1]) and np.all(q['left'] < q['right']),
                f'{tab}: bins do not touch')
        for b in range(n):
            s = 1e-9 * max(1.0, abs(q['right'][b]))
            inner = np.sum((d > q['left'][b] + s) & (d < q['right'][b] - s))
            outer = np.sum((d >= q['left'][b] - s) & (d <= q['right'][b] + s))
            c.Check(inner <= q['top'][b] <= outer,
                    f"{tab}: {q['top'][b]} updates of {q['left'][b]}..{q['right'][b]} us, "
                    f'logged {inner}')
        c.Check(q['top'].sum() == len(d), f"{tab}: {q['top'].sum()} updates of {len(d)} counted")
        c.Check(np.all(q.get('bottom', np.zeros(1)) == 0), f'{tab}: bars float')
        c.Eval()


def run_tool(name, argv):
    keep = (sys.argv, list(sys.path))
    try:
        sys.argv = [os.path.join(EVAL, name)] + argv
        sys.path.insert(0, EVAL)
        runpy.run_path(sys.argv[0], run_name='__main__')
        return ''
    except SystemExit as x:
        return '' if not x.code else f'exit status {x.code}'
    except Exception as x:
        import traceback
        return f'{type(x).__name__}: {x} at ' + traceback.format_exc().strip().split('\n')[-3].strip()
    finally:
        sys.argv, sys.path[:] = keep


def judge(c, config, dirs, top, runs, light):
    """Run both tools on a folder of logs and compare."""
    argv = [config] + (['-n', str(runs)] if runs else []) + (['--light'] if light else [])
    w = Want(dirs)
    died = run_tool('stats.py', argv)
    if c.Check(not died, f'stats.py died: {died}'):
        check_stats(c, w, os.path.join(top, 'stats.txt'))
    bokeh.plotting.SAVED.clear()
    died = run_tool('report.py', argv)
    if c.Check(not died, f'report.py died: {died}'):
        check_report(c, w, bokeh.plotting.SAVED, light)
    c.Trace()
    c.Transition(2)
    return w


# ---------------------------------------------------------------- written logs
class Values:
    """Deterministic numbers, different in every place."""

    def __init__(self, seed):
        self.s = seed * 2654435761 % 4294967296 or 1

    def __call__(self, lo=-1.0, hi=1.0):
        self.s = (self.s * 1664525 + 1013904223) % 4294967296
        return float(f'{lo + (hi - lo) * ((self.s >> 8) % 65536) / 65536:.6f}')

    def quat(self, near=None, size=0.3):
        q = unit([1] + [self(-size, size) for _ in range(3)])
        if near is not None:
            q = qmul(unit(near), q)
        return [float(f'{x:.9f}') for x in q]


def enum(prefix, n):
    return [f'{prefix}_{i}' for i in range(n)]


def write(path, names, rows, cut=False):
    """cut: the last row stops in the middle, as when the run was ended."""
    with open(path, 'w') as f:
        f.write(','.join(names) + '\n')
        for n, r in enumerate(rows):
            assert len(r) == len(names), (path, len(r), len(names))
            line = ','.join(repr(x) if isinstance(x, float) else str(x) for x in r)
            f.write(line + '\n')
        if cut:
            f.write(','.join(str(x) for x in (rows[-1] if rows else [0.0])[:max(1, len(names) // 2)]))


BODY = enum('body_pos', 3) + enum('body_vel', 3) + enum('body_acc', 3) + enum('body_ang_pos', 4) + \
    enum('body_ang_vel', 3) + enum('body_ang_acc', 3)

# when the estimates and the truth were logged
GRIDS = {
    'aligned': lambda n, m: ([0.5 * i for i in range(n)], [0.5 * i for i in range(m)]),
    'between': lambda n, m: ([0.25 + 0.5 * i for i in range(n)], [0.5 * i for i in range(m)]),
    'sparse truth': lambda n, m: ([0.3 * i for i in range(n)], [1.0 * i for i in range(m)]),
    'outside': lambda n, m: ([-0.7 + 1.1 * i for i in range(n)], [0.2 * i for i in range(m)]),
    'uneven': lambda n, m: ([0.1 * i * i for i in range(n)], [0.13 * i * (i + 1) for i in range(m)]),
}


def build(d, seed, spec, grid, n, m, cut, init):
    """One run's folder of logs."""
    os.makedirs(d)
    v = Values(seed)
    et, tt = GRIDS[grid](n, m)
    imus, cams, fids, gpss = (spec.get(k, {}) for k in ('imu', 'cam', 'fid', 'gps'))
    # truth: positions move, attitudes turn a little
    head = ['time'] + BODY
    fixed = []
    for k in imus:
        head += enum(f'imu_pos_{k}', 3) + enum(f'imu_ang_pos_{k}', 4) + \
            enum(f'imu_acc_bias_{k}', 3) + enum(f'imu_gyr_bias_{k}', 3)
    for k in sorted(set(cams) | set(fids)):
        head += enum(f'cam_pos_{k}', 3) + enum(f'cam_ang_pos_{k}', 4)
    for k in gpss:
        head += enum(f'gps_pos_{k}', 3)
    if gpss:
        head += ['ref_lat', 'ref_lon', 'ref_alt', 'ref_heading']
    sensors = {k: (v.quat(), v.quat()) for k in list(imus) + list(set(cams) | set(fids))}
    ref = [v(30, 31), v(-90, -89), v(100, 101), spec.get('heading', v(-0.5, 0.5))]
    base = v.quat()
    rows = []
    for t in tt:
        r = [t] + [v() for _ in range(9)] + v.quat(base, 0.1) + [v() for _ in range(6)]
        for k in imus:
            r += [v() for _ in range(3)] + v.quat(sensors[k][0], 0.05) + \
                [v(-0.2, 0.2) for _ in range(6)]
        for k in sorted(set(cams) | set(fids)):
            r += [v() for _ in range(3)] + v.quat(sensors[k][0], 0.05)
        for k in gpss:
            r += [v() for _ in range(3)]
        rows.append(r + (ref if gpss else []))
    write(os.path.join(d, 'body_truth.csv'), head, rows, cut == 'truth')
    late = cut == 'estimates'
    names = ['time'] + BODY + enum('body_cov', 18) + ['state_size', 'duration_0']
    write(os.path.join(d, 'body_state.csv'), names,
          [[t] + [v() for _ in range(9)] + v.quat(base, 0.2) + [v() for _ in range(6)] +
           [v(0.01, 0.5) for _ in range(18)] + [18 + 3 * i, int(v(10, 400))]
           for i, t in enumerate(et)], late)
    if spec.get('aug'):
        write(os.path.join(d, 'aug_state.csv'), ['time'] + enum('aug_pos', 3) + enum('aug_ang', 4),
              [[t] + [v() for _ in range(3)] + v.quat(base) for t in et for _ in range(2)], late)
    for k, (ext, intr) in imus.items():
        names = ['time', 'stationary', 'score'] + enum('imu_pos', 3) + enum('imu_ang_pos', 4) + \
            enum('imu_acc_bias', 3) + enum('imu_gyr_bias', 3) + enum('acc', 3) + enum('omg', 3) + \
            enum('residual', 6) + (enum('imu_ext_cov', 6) if ext else []) + \
            (enum('imu_int_cov', 6) if intr else []) + ['duration_0']
        write(os.path.join(d, f'imu_{k}.csv'), names,
              [[t, i % 2, v(0, 1)] + [v() for _ in range(3)] + v.quat(sensors[k][0], 0.1) +
               [v() for _ in range(18)] + [v(0.01, 0.5) for _ in range(6 * ext + 6 * intr)] +
               [int(v(10, 400))] for i, t in enumerate(et)], late)
    if cams:
        write(os.path.join(d, 'feature_points.csv'), ['Feature', 'x', 'y', 'z'],
              [[i] + [v(-5, 5) for _ in range(3)] for i in range(6)])
    for k, ext in cams.items():
        names = ['time'] + enum('cam_pos', 3) + enum('cam_ang_pos', 4) + ['FeatureTracks'] + \
            (enum('cam_cov', 6) if ext else []) + ['duration_0']
        write(os.path.join(d, f'msckf_{k}.csv'), names,
              [[t] + [v() for _ in range(3)] + v.quat(sensors[k][0], 0.1) + [i + seed % 3] +
               [v(0.01, 0.5) for _ in range(6 * ext)] + [int(v(10, 400))]
               for i, t in enumerate(et)], late)
        write(os.path.join(d, f'triangulation_{k}.csv'), ['time', 'feature', 'x', 'y', 'z'],
              [[t, (3 * i + j + seed) % 6] + [v(-5, 5) for _ in range(3)]
               for i, t in enumerate(et) for j in range(1 + (i + seed) % 3)], late)
    boards = spec.get('boards', 1)
    if fids:
        write(os.path.join(d, 'board_truth.csv'),
              ['board'] + enum('pos', 0) + ['pos_x', 'pos_y', 'pos_z', 'quat_w', 'quat_x',
                                           'quat_y', 'quat_z'],
              [[b + 1] + [v() for _ in range(3)] + v.quat(sensors[min(fids)][1], 0.05)
               for b in range(boards)])
    for j, (k, (fe, ce)) in enumerate(fids.items()):
        names = ['time', 'board'] + enum('board_meas_pos', 3) + enum('board_meas_ang', 4) + \
            (enum('fid_pos', 3) + enum('fid_ang', 4) if fe else []) + enum('cam_pos', 3) + \
            enum('cam_ang_pos', 4) + enum('residual', 6) + (enum('cam_cov', 6) if ce else []) + \
            (enum('fid_cov', 6) if fe else []) + ['duration_0']
        write(os.path.join(d, f'fiducial_{k}.csv'), names,
              [[t, 1 + j if boards > 1 else 0] + [v() for _ in range(3)] + v.quat() +
               ([v() for _ in range(3)] + v.quat(sensors[k][1], 0.1) if fe else []) +
               [v() for _ in range(3)] + v.quat(sensors[k][0], 0.1) + [v() for _ in range(6)] +
               [v(0.01, 0.5) for _ in range(6 * ce + 6 * fe)] + [int(v(10, 400))]
               for t in et], late)
    for k, ext in gpss.items():
        names = ['time', 'lat', 'lon', 'alt', 'x', 'y', 'z', 'ref_lat', 'ref_lon', 'ref_alt',
                 'ref_heading', 'is_initialized'] + \
            (enum('ant_pos', 3) + enum('gps_cov', 3) if ext else []) + enum('residual', 3) + \
            ['duration_0']
        # the reference is logged from the row after the one that reports it was found
        est = [r + v(-0.2, 0.2) for r in ref]
        if 'turned' in spec:
            est[3] = spec['turned'] + v(-0.01, 0.01)
        rows = []
        for i, t in enumerate(et):
            r = est if i > init else [0.0, 0.0, 0.0, 0.0]
            rows.append([t] + [v() for _ in range(6)] + r + [1 if i >= init else 0] +
                        ([v() for _ in range(3)] + [v(0.01, 0.5) for _ in range(3)] if ext else []) +
                        [v() for _ in range(3)] + [int(v(10, 400))])
        write(os.path.join(d, f'gps_{k}.csv'), names, rows, late)


YES, NO = True, False
WORLDS = {'body': {}, 'clones': {'aug': True}}
for e, i in itertools.product((NO, YES), repeat=2):
    WORLDS[f'imu ext={e} int={i}'] = {'imu': {1: (e, i)}}
    WORLDS[f'imu {"ext " * e}{"int " * i}ids 9 and 10'] = {'imu': {9: (e, i), 10: (i, e)}}
    WORLDS[f'board fid={e} cam={i}'] = {'fid': {2: (e, i)}}
    WORLDS[f'camera and board {e} {i}'] = {'cam': {3: i}, 'fid': {3: (e, i)}}
for e in (NO, YES):
    WORLDS[f'camera ext={e}'] = {'cam': {2: e}, 'aug': True}
    WORLDS[f'cameras 2 and 12 ext={e}'] = {'cam': {2: e, 12: YES}}
    WORLDS[f'gps ext={e}'] = {'gps': {3: e}}
    WORLDS[f'gps 1 and 11 ext={e}'] = {'gps': {1: e, 11: NO}}
WORLDS['everything'] = {'aug': True, 'imu': {1: (YES, YES), 12: (NO, YES)}, 'cam': {2: YES, 10: NO},
                        'fid': {2: (YES, YES)}, 'gps': {3: YES, 21: NO}}
WORLDS['other start'] = {'imu': {1: (YES, NO), 11: (YES, YES)}}
HEADINGS = {'heading past half a turn': {'gps': {2: YES}, 'heading': 3.1, 'turned': -3.1},
            'heading past minus half a turn': {'gps': {2: NO}, 'heading': -3.13, 'turned': 3.05},
            'heading': {'gps': {2: NO}, 'heading': 1.0, 'turned': 1.2}}
# rows logged per run
LENGTHS = [(3,), (1,), (4, 4), (2, 4), (4, 1), (3, 3, 3), (2, 4, 3), (4, 2, 1)]
if R.thorough:
    LENGTHS = sorted({p for n in (1, 2, 3) for p in itertools.product((1, 2, 3, 4), repeat=n)})
CUTS = ('no', 'estimates', 'truth')
CASES = []


def case(key, **kw):
    if R.Selected(key):
        CASES.append((key, kw))


for (name, spec), grid, lengths in itertools.product(WORLDS.items(), GRIDS, LENGTHS):
    for cut in CUTS:
        if R.thorough and cut != 'no' and len(lengths) == 3 and lengths[0] != 2:
            continue
        case(f'{name}, {grid}, rows={lengths}, cut={cut}', spec=spec, grid=grid, lengths=lengths,
             cut=cut)
# when each run finds its GPS reference (row 0 to 3, last, never)
for name in ('gps ext=True', 'gps 1 and 11 ext=False', 'everything'):
    for n in (1, 2, 3):
        for inits in itertools.product((0, 1, 3, 4, 9), repeat=n):
            case(f'{name}, reference found at {inits}', spec=WORLDS[name], grid='between',
                 lengths=(5,) * n, inits=inits)
for (name, spec), n in itertools.product(HEADINGS.items(), (1, 2, 3)):
    case(f'{name}, runs={n}', spec=spec, grid='aligned', lengths=(4,) * n, inits=(1,) * n)
# colours, a run that never happened, two boards
for name, spec in WORLDS.items():
    case(f'{name}, light', spec=spec, grid='between', lengths=(3, 4), light=True)
    for gone in itertools.product((NO, YES), repeat=3):
        if any(gone) and not all(gone):
            case(f'{name}, gone={gone}', spec=spec, grid='between', lengths=(3, 4, 2), gone=gone)
# logs are opened with their first row: a run in which a sensor never reports has no log of it
for name, spec in WORLDS.items():
    leaves = ['body_state'] + ['aug_state'] * ('aug' in spec)
    for kind, prefixes in (('imu', ('imu',)), ('cam', ('msckf', 'triangulation')),
                           ('fid', ('fiducial',)), ('gps', ('gps',))):
        leaves += [f'{p}_{k}' for p in prefixes for k in spec.get(kind, {})]
    for leaf in leaves:
        optional = leaf.startswith(('aug', 'triang', 'imu', 'msckf', 'fiducial', 'gps'))
        for n in (1, 2, 3):
            for off in itertools.product((NO, YES), repeat=n):
                if any(off) and (optional or not all(off)):
                    case(f'{name}, no {leaf} in {[j for j in range(n) if off[j]]} of {n}',
                         spec=spec, grid='between', lengths=(3, 4, 2)[:n], without=(leaf, off))
for n in (1, 2):
    case(f'two boards, runs={n}', spec={'fid': {2: (YES, YES), 3: (YES, NO)}, 'boards': 2},
         grid='between', lengths=(3,) * n)


def top_config(n):
    return {'/EkfCalNode': {'ros__parameters': {'sim_params': {'number_of_runs': n}}}}


def run(i, c):
    key, kw = CASES[i]
    c.Key(key)
    work = os.path.join(c.scratch, 'w')
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    n = len(kw['lengths'])
    config = os.path.join(work, 'exp.yaml')
    with open(config, 'w') as f:
        yaml.dump(top_config(n if i % 2 else n + 2), f)
    top = os.path.join(work, 'exp')
    dirs = [top] if n == 1 else [os.path.join(top, 'runs', f'exp_{j}') for j in range(n)]
    gone = kw.get('gone', (False,) * n)
    for j, d in enumerate(dirs):
        if not gone[j]:
            rows = kw['lengths'][j]
            build(d, 100 * i + j + 1, kw['spec'], kw['grid'], rows, max(2, 5 - rows),
                  kw.get('cut', 'no'), kw.get('inits', (1,) * n)[j])
            leaf, off = kw.get('without', ('', ()))
            if leaf and off[j]:
                os.unlink(os.path.join(d, leaf + '.csv'))
    w = judge(c, config, dirs, top, None if i % 2 else n, kw.get('light', False))
    c.State(key)
    c.Count('statistics', len(w.stats))
    c.Count('figures', len(w.figs))
    if i < 1:
        c.Sample(f'{key}: {len(w.stats)} statistics, {len(w.figs)} figures')


R.Parallel(len(CASES), run)

# ---------------------------------------------------------------- real logs
SIM = os.path.join(R.verif, 'build', 'sim')


REAL = {}
for folder in ('/repo/config', '/repo/config/regression'):
    for leaf in sorted(os.listdir(folder)):
        if leaf.endswith('.yaml'):
            REAL[leaf[:-5]] = os.path.join(folder, leaf)


def short(config, name):
    """The configuration, for a second or two of simulated time, logging all it can."""
    with open(config) as f:
        y = yaml.safe_load(f)
    p = y['/EkfCalNode']['ros__parameters']
    p['data_logging_on'] = True
    p['sim_params'].update(max_time=5.0 if R.thorough else 2.0, number_of_runs=1, seed=3)
    if p['sim_params'].get('stationary_time', 0) > 1:
        p['sim_params']['stationary_time'] = 0.5
    on = name.endswith('extrinsic')
    for kind in ('imu', 'camera', 'gps', 'fiducial'):
        for s in (p.get(kind) or {}).values():
            s['is_extrinsic'] = on
            if kind == 'imu':
                s['is_intrinsic'] = on
                s['variance'] = (list(s['variance']) + [0.1] * 12)[:12]
    p['gps_init_type'] = 0
    return y


JOBS = [(f'real {leaf}{more}', p) for leaf, p in sorted(REAL.items())
        for more in ('', ' extrinsic') if R.Selected(f'real {leaf}{more}')]


def real(i, c):
    key, p = JOBS[i]
    c.Key(key)
    work = os.path.join(c.scratch, f'r{i}')
    os.makedirs(os.path.join(work, 'exp'))
    config = os.path.join(work, 'exp.yaml')
    with open(config, 'w') as f:
        yaml.dump(short(p, key), f)
    top = os.path.join(work, 'exp')
    r = subprocess.run([SIM, config, top + '/'], stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, timeout=600)
    if r.returncode != 0 or not os.path.isfile(os.path.join(top, 'body_state.csv')):
        c.Count('configurations the simulator does not run')
        c.Sample(f'the simulator does not run {key}: status {r.returncode}')
        return
    w = judge(c, config, [top], top, None, False)
    c.Count('real statistics', len(w.stats))
    c.Count('real figures', len(w.figs))
    c.State(key, len(w.stats), len(w.figs))


R.Parallel(len(JOBS), real)
R.rule = 'every set of sensors, flags and identifiers listed x every relation between the times of ' \
    'estimates and truth x every number of rows per run x where a log was cut short; every row at ' \
    'which each run can find its GPS reference; every set of runs that left no logs, or no log of one kind; and the logs ' \
    'the real simulator writes for the repository configurations'
R.Bound('runs', '1 to 3, of 1 to 5 rows')
R.Bound('sensors', f'{len(WORLDS)} sets')
R.assumptions = [
    'pandas and bokeh are stand-ins (harness/py_stub): tables read from CSV, figures that note '
    'what is drawn',
    'a rotation error is the XYZ angles of estimate and truth apart, taken either way round']
sys.exit(R.Finish())
