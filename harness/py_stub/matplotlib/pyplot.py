made = []


class Quiet:
    """Accepts any further call on a figure or axes."""

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None


def pair(a, k, low, high):
    """The limits given as a pair, two values or by name."""
    if len(a) == 1 and hasattr(a[0], '__len__'):
        return tuple(float(v) for v in a[0])
    v = list(a) + [k[n] for n in (low, high) if n in k]
    return tuple(float(x) for x in v)


class Axes(Quiet):
    def __init__(self):
        self.lines = []
        self.limits = {}

    def cla(self):
        self.lines = []
        self.limits = {}

    clear = cla

    def plot(self, *a, **k):
        self.lines.append([[float(v) for v in part] for part in a[:3]])
        return [Quiet()]

    plot3D = plot

    def set_xlim(self, *a, **k):
        self.limits['x'] = pair(a, k, 'left', 'right')

    def set_ylim(self, *a, **k):
        self.limits['y'] = pair(a, k, 'bottom', 'top')

    def set_zlim(self, *a, **k):
        self.limits['z'] = pair(a, k, 'bottom', 'top')

    set_xlim3d, set_ylim3d, set_zlim3d = set_xlim, set_ylim, set_zlim

    def set(self, **k):  # noqa: A003
        for axis in 'xyz':
            if axis + 'lim' in k:
                self.limits[axis] = tuple(float(v) for v in k[axis + 'lim'])


class Figure(Quiet):
    def __init__(self):
        self.axes = []
        made.append(self)

    def add_subplot(self, *a, **k):
        self.axes.append(Axes())
        return self.axes[-1]

    add_axes = add_subplot


def figure(*a, **k):
    return Figure()


def subplots(*a, **k):
    f = Figure()
    return f, f.add_subplot()


def axes(*a, **k):
    return made[-1].add_subplot()


def gcf():
    return made[-1]


def close(*a, **k):
    pass


def show(*a, **k):
    pass
