saved = []


class Movie:
    """One saved animation: per frame, the paths and limits of its axes."""

    def __init__(self, path, interval, frames):
        self.path, self.interval, self.frames = path, interval, frames


class FuncAnimation:
    def __init__(self, fig, func, frames=None, init_func=None, fargs=None, interval=200, **k):
        self.fig, self.func, self.frames = fig, func, frames
        self.init, self.args, self.interval = init_func, tuple(fargs or ()), interval

    def save(self, filename, *a, **k):
        frames = self.frames() if callable(self.frames) else self.frames
        frames = range(frames) if isinstance(frames, int) else list(frames)
        if self.init:
            self.init()
        elif len(frames):
            self.func(frames[0], *self.args)   # as matplotlib does before the first frame
        shown = []
        for t in frames:
            self.func(t, *self.args)
            shown.append([([[list(p) for p in line] for line in ax.lines], dict(ax.limits))
                          for ax in self.fig.axes])
        saved.append(Movie(str(filename), self.interval, shown))


class PillowWriter:
    def __init__(self, *a, **k):
        pass


FFMpegWriter = ImageMagickWriter = PillowWriter
