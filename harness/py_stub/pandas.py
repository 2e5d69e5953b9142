"""Stand-in for the part of pandas the evaluation scripts use.

Tables of numbers read from CSV: columns are labelled series, missing cells are
NaN, dropna drops rows and keeps the labels of the others, [i] goes by label.
"""
import csv
import numpy as np


class Series(np.ndarray):
    def __new__(cls, values, labels):
        o = np.array(values, dtype=float).view(cls)
        o.labels = labels
        return o

    def __array_finalize__(self, other):
        self.labels = getattr(other, 'labels', None)

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        if arr.ndim == 0:
            return arr[()]
        return super().__array_wrap__(arr, context, return_scalar)

    def __getitem__(self, key):
        if isinstance(key, (int, np.integer)) and self.labels is not None:
            hit = np.flatnonzero(self.labels == key)
            if hit.size == 0:
                raise KeyError(key)
            return float(np.asarray(self)[hit[0]])
        out = np.asarray(self)[key]
        if isinstance(out, np.ndarray) and self.labels is not None:
            return Series(out, self.labels[key])
        return out

    def __iter__(self):
        return iter(np.asarray(self).tolist())

    def to_list(self):
        return np.asarray(self).tolist()

    tolist = to_list

    def to_numpy(self):
        return np.asarray(self).copy()

    @property
    def values(self):
        return np.asarray(self)

    @property
    def index(self):
        return self.labels

    @property
    def iloc(self):
        return np.asarray(self)

    @property
    def loc(self):
        return self

    @property
    def empty(self):
        return len(self) == 0

    def reset_index(self, drop=True):
        return Series(np.asarray(self), np.arange(len(self)))


class _Loc:
    """Rows by label (loc) or by position (iloc), then columns."""

    def __init__(self, table, by_label):
        self.table, self.by_label = table, by_label

    def __getitem__(self, key):
        t = self.table
        rows, cols = key if isinstance(key, tuple) else (key, None)
        if isinstance(rows, (int, np.integer)):
            if self.by_label:
                hit = np.flatnonzero(t.labels == rows)
                if hit.size == 0:
                    raise KeyError(rows)
                rows = hit[0]
            row = t.rows[rows]
            if cols is None:
                return dict(zip(t.names, row.tolist()))
            if isinstance(cols, str):
                return float(row[t.names.index(cols)])
            if isinstance(cols, int):
                return float(row[cols])
            return row[[t.names.index(c) for c in cols]]
        if isinstance(rows, slice) and self.by_label and rows != slice(None):
            raise NotImplementedError('label slices')
        out = DataFrame(t.names, t.rows[rows], t.labels[rows])
        out.attrs = dict(t.attrs)
        if cols is None:
            return out
        if isinstance(cols, int):
            cols = t.names[cols]
        if isinstance(cols, slice):
            cols = t.names[cols]
        return out[cols]


class DataFrame:
    def __init__(self, names, rows, labels):
        self.names = list(names)
        self.rows = np.array(rows, dtype=float).reshape(len(rows), len(self.names))
        self.labels = np.array(labels, dtype=int)
        self.attrs = {}

    def dropna(self, axis=0, how='any', **kw):
        gaps = np.isnan(self.rows)
        keep = ~(gaps.all(axis=1) if how == 'all' else gaps.any(axis=1))
        out = DataFrame(self.names, self.rows[keep], self.labels[keep])
        out.attrs = dict(self.attrs)
        return out

    def reset_index(self, drop=True):
        out = DataFrame(self.names, self.rows, range(len(self.rows)))
        out.attrs = dict(self.attrs)
        return out

    @property
    def columns(self):
        return list(self.names)

    @property
    def index(self):
        return self.labels

    @property
    def empty(self):
        return len(self.rows) == 0

    @property
    def shape(self):
        return self.rows.shape

    def keys(self):
        return list(self.names)

    def __contains__(self, name):
        return name in self.names

    def __iter__(self):
        return iter(self.names)

    def __len__(self):
        return len(self.rows)

    @property
    def loc(self):
        return _Loc(self, True)

    @property
    def iloc(self):
        return _Loc(self, False)

    @property
    def values(self):
        return self.rows

    def __getattr__(self, name):
        if not name.startswith('_') and name in self.__dict__.get('names', ()):
            return self[name]
        raise AttributeError(name)

    def get(self, name, default=None):
        return self[name] if name in self.names else default

    def copy(self):
        out = DataFrame(self.names, self.rows, self.labels)
        out.attrs = dict(self.attrs)
        return out

    def __getitem__(self, name):
        if isinstance(name, np.ndarray) and name.dtype == bool:
            return self.iloc[np.asarray(name)]
        if isinstance(name, list):
            out = DataFrame(name, self.rows[:, [self.names.index(n) for n in name]], self.labels)
            out.attrs = dict(self.attrs)
            return out
        if name not in self.names:
            raise KeyError(name)
        return Series(self.rows[:, self.names.index(name)], self.labels)

    def to_numpy(self):
        return self.rows.copy()


def read_csv(path, *args, **kw):
    with open(path, newline='') as f:
        table = list(csv.reader(f))
    if not table:
        raise ValueError('No columns to parse from file')
    names = table[0]
    rows = []
    for cells in table[1:]:
        if not cells:
            continue
        if len(cells) > len(names):
            raise ValueError('too many fields')
        row = [float(c) if c.strip() else float('nan') for c in cells]
        rows.append(row + [float('nan')] * (len(names) - len(row)))
    return DataFrame(names, rows, range(len(rows)))
