from bokeh.models import _Obj


class _Box(_Obj):
    def __init__(self, children):
        super().__init__()
        self.children = children


def row(*children, **kw):
    if len(children) == 1 and isinstance(children[0], (list, tuple)):
        children = children[0]
    return _Box(list(children))


column = row


def layout(*rows, **kw):
    if len(rows) == 1 and isinstance(rows[0], (list, tuple)):
        rows = rows[0]
    return _Box([row(*r) if isinstance(r, (list, tuple)) else r for r in rows])


gridplot = layout
