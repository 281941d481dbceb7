"""Axis ticks and their labels: every range, size, font, rotation and pruning of a grid, on real matplotlib axes."""
import itertools
import warnings

import numpy as np

from mc.core import Enum, require

PROPERTY = 'C39'
LEVEL = 'model_checking'
RULE = ('ticks: every combination of axis, length, font size, label rotation, pruning, number of ticks, centre, width and position of the range; history: every sequence of ranges, pruning and lengths up to the depth on one axis, each compared with a fresh axis; '
        'labels: every number with up to four digits in every decade formatted with full scientific notation')
ASSUMPTIONS = ['widths of text as measured by matplotlib with its default font', 'labels in full scientific notation (vertical axes of very large or small numbers) are not claimed not to overlap']


def plotter():
    from getdist import plots
    if 'g' not in _c:
        _c['g'] = plots.get_subplot_plotter()
    return _c['g']


_c = {}
_tx = {}


def axes(size):
    from matplotlib.figure import Figure
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    fig = Figure(figsize=(size, size))
    FigureCanvasAgg(fig)
    return fig.add_axes([0.2, 0.2, 0.7, 0.7])


def setup(ax, x, rot, fs, prune, nbins):
    g = plotter()
    axis = ax.xaxis if x else ax.yaxis
    g.settings.axis_tick_max_labels = nbins
    axis.set_tick_params(which='major', labelrotation=rot, labelsize=fs)
    g._auto_ticks(axis, prune=prune)
    return axis


def limits(ax, axis, x, lo, hi):
    (ax.set_xlim if x else ax.set_ylim)(lo, hi)
    plotter()._set_axis_formatter(axis, x)
    with warnings.catch_warnings():
        warnings.simplefilter('error', RuntimeWarning)
        return np.array(list(axis.get_majorticklocs()))


def number(label):
    for a, b in (('$', ''), ('\\mathdefault', ''), ('\u2212', '-'), ('{\\times}10^', 'e'), ('\\times10^', 'e'), ('\\times', ''), ('10^', '1e'), ('{', ''), ('}', '')):
        label = label.replace(a, b)
    if label.startswith('e'):
        label = '1' + label
    return float(label)


def extent(label, fs, fig):
    """width and height in points at this font size"""
    if label not in _tx:
        from matplotlib.text import Text
        t = Text(0, 0, label, fontsize=10)
        t.set_figure(fig)
        b = t.get_window_extent(fig.canvas.get_renderer())
        _tx[label] = (b.width * 7.2 / fig.dpi, b.height * 7.2 / fig.dpi)
    return [v * fs for v in _tx[label]]


CENTRES = [0, 0.0222, 0.963, 1., 67.3, -1.13, 3e5 + 7, 2.1e-9, 500., -0.35]
POS = [0.43, 0., 0.9]


def gen_ticks(tier):
    def gen():
        sizes = (1.2, 2., 3.5, 6.) if tier == 'quick' else (1.2, 1.6, 2., 2.7, 3.5, 6., 9.)
        fonts = (8, 12) if tier == 'quick' else (6, 8, 10, 12, 16)
        for k, (size, x, prune, rot, fs, nb, c) in enumerate(itertools.product(sizes, (True, False), (True, False), (0, 90) if tier == 'quick' else (0, 45, 90), fonts, ('auto', 4), CENTRES)):
            if tier == 'quick' and nb == 4 and k % 3:
                continue
            for dec in range(-4, 3):
                yield [size, x, prune, rot, fs, nb, c, dec]
    return gen


def chk_ticks(ctx, case):
    from matplotlib.ticker import ScalarFormatter
    size, x, prune, rot, fs, nb, c, dec = case
    key = (size,)
    if key not in _c:
        _c[key] = axes(size)
    ax = _c[key]
    axis = setup(ax, x, rot, fs, prune, nb)
    out = []
    for n, (m, f) in enumerate(itertools.product((1., 1.37, 2.2, 3.14, 4.9, 7.3), POS)):
        if n % 3 and (n + dec) % 2:
            continue
        w = m * 10. ** dec * (abs(c) if c else 1)
        lo, hi = c - w * f, c + w * (1 - f)
        if hi <= lo:
            continue
        where = 'range %.10g to %.10g' % (lo, hi)
        L = limits(ax, axis, x, lo, hi)
        ctx.step()
        out.append(len(L))
        eps = 1e-9 * (hi - lo) + 1e-13 * max(abs(lo), abs(hi))
        require(len(L) > 0, 'no ticks for %s', where)
        require(L[0] >= lo - eps and L[-1] <= hi + eps, 'ticks %s outside the %s', L.tolist(), where)
        require(nb == 'auto' or len(L) <= nb, '%s ticks for at most %s', len(L), nb)
        d = np.diff(L)
        if len(L) > 1:
            require(d.min() > 0 and d.max() - d.min() < 1e-6 * d.max(), 'ticks %s are not evenly spaced', L.tolist())
            require(max(L[0] - lo, hi - L[-1]) <= 1.5 * d[0], 'ticks %s leave a gap at the end of the %s', L.tolist(), where)
        form = axis.get_major_formatter()
        labels = form.format_ticks(L)
        off = form.get_offset()
        vals = np.array([number(l) for l in labels]) * (number(off) if off else 1)
        require(np.all(np.abs(vals - L) <= 1e-6 * (hi - lo) + 1e-9 * np.abs(L)), 'labels %s of ticks %s', labels, L.tolist())
        require(len(set(labels)) == len(labels), 'labels %s are not distinct', labels)
        px = (ax.bbox.width if x else ax.bbox.height) * 72 / ax.figure.dpi
        pos = (L - lo) / (hi - lo) * px
        along = x == (rot == 0)
        if rot in (0, 90):
            ext = np.array([extent(l, fs, ax.figure)[0 if along else 1] for l in labels])
            if isinstance(form, ScalarFormatter) or not along:
                if len(L) > 1:
                    require(np.all(np.diff(pos) >= 0.85 * (ext[1:] + ext[:-1]) / 2), 'labels %s overlap', labels)
                if prune and size >= 2 and len(L) > 1:
                    require(pos[0] >= ext[0] * 0.375 and px - pos[-1] >= ext[-1] * 0.375, 'labels %s overlap the end of the axis', labels)
                if size >= 6 and fs <= 12 and (hi - lo) >= 0.02 * max(abs(lo), abs(hi)) and nb == 'auto':
                    require(len(L) >= 2, 'only ticks %s for %s', L.tolist(), where)
    return str(sorted(set(out)))


VIEWS = [(0., 1., 2., True), (66.3, 68.5, 2., True), (-2.3e-3, 1.1e-3, 3.5, False), (3e5, 3.001e5, 2., False), (1.0073e-2, 1.0833e-2, 1.2, False), (-1.4, -0.7, 3.5, True)]


def gen_history(tier):
    def gen():
        for n in range(2, 4 if tier == 'quick' else 5):
            for seq in itertools.product(range(len(VIEWS)), repeat=n):
                for x in (True, False):
                    for fs in (8, 12):
                        yield [list(seq), x, fs]
    return gen


def chk_history(ctx, case):
    seq, x, fs = case
    ax = axes(2.)
    axis = setup(ax, x, 0, fs, True, 'auto')
    for k in seq:
        lo, hi, size, prune = VIEWS[k]
        ax.figure.set_size_inches(size, size)
        axis.get_major_locator().bounded_prune = prune
        got = limits(ax, axis, x, lo, hi)
        ctx.step()
        if (k, x, fs) not in _c:
            bx = axes(size)
            _c[k, x, fs] = limits(bx, setup(bx, x, 0, fs, prune, 'auto'), x, lo, hi)
        require(np.array_equal(got, _c[k, x, fs]), 'ticks %s after %s, of a fresh axis %s', got.tolist(), seq, _c[k, x, fs].tolist())
    return str(len(set(seq)))


def gen_labels(tier):
    def gen():
        for m in range(1, 10000, 7 if tier == 'quick' else 1):
            yield m
    return gen


def chk_labels(ctx, m):
    from getdist.matplotlib_ext import SciFuncFormatter
    f = SciFuncFormatter()
    for e in range(-14, 13):
        for sign in ('', '-'):
            v = float('%s%de%d' % (sign, m, e))
            s = f(v)
            ctx.step()
            require(s.startswith('$') and s.endswith('$') and abs(number(s) - v) <= 1e-10 * abs(v), 'label %s of %s', s, v)
            require(len(s) < 30 and '10^{0}' not in s and 'e' not in s.replace('\\times', ''), 'label %s of %s', s, v)
    require(f(0.) == '$0$', 'label of zero')
    return 'ok'


def scenarios(tier):
    return [Enum('ticks', gen_ticks(tier), chk_ticks), Enum('history', gen_history(tier), chk_history), Enum('labels', gen_labels(tier), chk_labels)]
