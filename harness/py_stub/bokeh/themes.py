class Theme:
    def __init__(self, filename=None, **kw):
        self.filename = filename
