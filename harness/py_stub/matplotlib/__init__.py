"""Stand-in for matplotlib: figures that note what is drawn (see C36.py)."""


def use(*a, **k):
    pass
