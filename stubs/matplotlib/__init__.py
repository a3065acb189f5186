"""Stand-in for matplotlib: sumo.metrics.utils asks for the TkAgg backend when imported,
which needs a tkinter that is not installed.  Only plotting helpers use it."""


def use(backend, **kw):
    pass
