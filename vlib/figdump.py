"""What a matplotlib figure shows, as plain data."""
import contextlib

import numpy as np
from matplotlib.figure import Figure


def line(l):
    return {'label': str(l.get_label()), 'gid': l.get_gid(), 'x': np.asarray(l.get_xdata(), float),
            'y': np.asarray(l.get_ydata(), float), 'ls': l.get_linestyle(), 'marker': l.get_marker()}


def axes(ax):
    lg = ax.get_legend()
    return {'title': ax.get_title(), 'xlabel': ax.get_xlabel(), 'ylabel': ax.get_ylabel(), 'xscale': ax.get_xscale(),
            'yscale': ax.get_yscale(), 'xlim': sorted(ax.get_xlim()), 'ylim': sorted(ax.get_ylim()), 'lines': [line(l) for l in ax.lines],
            'legend': None if lg is None else [t.get_text() for t in lg.get_texts()]}


def figure(fig):
    return [axes(a) for a in fig.axes]


@contextlib.contextmanager
def fast():
    """Leave out matplotlib's slow automatic layout, which draws the whole figure."""
    keep = Figure.tight_layout
    Figure.tight_layout = lambda self, *a, **k: None
    try:
        yield
    finally:
        Figure.tight_layout = keep
