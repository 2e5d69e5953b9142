import numpy as np
from bokeh.models import _Obj, ColumnDataSource  # noqa: F401

SAVED = []


def _nums(v):
    return np.array(list(v) if hasattr(v, '__iter__') else v, dtype=float).ravel()


class figure:
    def __init__(self, **kw):
        self.kw = kw
        title = kw.get('title', '')
        self.title = title if hasattr(title, 'text') else _Obj(text=title)
        self.xaxis = _Obj()
        self.yaxis = _Obj()
        self.drawn = []      # (kind, x, y, legend, keywords)
        self.spans = []
        self.layouts = []
        self.quads = []
        self.toolbar = _Obj()
        self.tools = []
        self.x_range = self.y_range = None
        self.legend = _Obj()

    def _draw(self, kind, x, y, kw):
        src = kw.get('source')
        if src is not None:
            data = getattr(src, 'data', src)
            x = data[x] if isinstance(x, str) else x
            y = data[y] if isinstance(y, str) else y
        self.drawn.append((kind, _nums(x), _nums(y), kw.get('legend_label'), kw))

    def line(self, x=None, y=None, **kw):
        self._draw('line', x, y, kw)

    def scatter(self, x=None, y=None, **kw):
        self._draw('scatter', x, y, kw)

    circle = scatter

    def multi_line(self, xs, ys, **kw):
        for x, y in zip(xs, ys):
            self._draw('line', x, y, kw)

    def quad(self, **kw):
        n = {k: _nums(v) for k, v in kw.items() if k in ('top', 'bottom', 'left', 'right')}
        self.quads.append(n)

    def hspan(self, y, **kw):
        for v in _nums(y):
            self.spans.append(float(v))

    def vspan(self, *a, **kw):
        pass

    def add_layout(self, obj, *a, **kw):
        if type(obj).__name__ == 'Span' and getattr(obj, 'dimension', '') == 'width':
            self.spans.append(float(obj.location))
        self.layouts.append(obj)

    def __getattr__(self, name):
        """Any other glyph or setter draws nothing that is looked at."""
        if name.startswith('_'):
            raise AttributeError(name)
        return lambda *a, **kw: None


class _Doc:
    theme = None

    def __getattr__(self, name):
        return lambda *a, **kw: None


_doc = _Doc()


def curdoc():
    return _doc


def save(obj, filename=None, **kw):
    SAVED.append((filename, obj))
    with open(filename, 'w') as f:
        f.write('report')


def output_file(*a, **kw):
    pass
