class _Obj:
    def __init__(self, *a, **kw):
        self.args = a
        self.__dict__.update(kw)


def __getattr__(name):
    """Any other model: an object that keeps what it was made of."""
    if name.startswith('__'):
        raise AttributeError(name)
    made = type(name, (_Obj,), {})
    globals()[name] = made
    return made


class ColumnDataSource:
    def __init__(self, data=None, **kw):
        self.data = dict(data if data is not None else kw)
