"""Contents of figures: every subplot shows exactly the densities, contours or samples requested, and is labelled with them."""
import copy
import itertools
import logging
import os
import warnings

import numpy as np

from mc.core import Enum, require
from mc.gridlib import quiet
import matplotlib
matplotlib.use('agg')
from matplotlib import colors as mcolors
from matplotlib import pyplot as plt
from getdist import plots
from getdist.mcsamples import MCSamples
from getdist.paramnames import ParamInfo

PROPERTY = 'C30'
LEVEL = 'model_checking'
RULE = ('every combination of roots (1 or 2 of 4 sample sets with different parameter orders, missing and renamed parameters), parameter lists and orders, kinds (lines, filled, mixed), colours, markers, limits, legends and layouts of the alphabet for plots_1d, '
        'plots_2d, triangle_plot (with upper triangle), rectangle_plot and scatter plots, subsets by list file, shared axes, limits, markers, triplets and axes found by position or parameters; each subplot compared line by line with densities computed by a separate sample object and contours traced at their levels')
ASSUMPTIONS = ['matplotlib agg backend', 'matplotlib draws the lines, contours and points it is given']

logging.disable(logging.WARNING)
_rng = np.random.default_rng
# unseeded draws (scatter points) are made repeatable
np.random.default_rng = lambda seed=None: _rng(1 if seed is None else seed)
SET = dict(ignore_rows=0, fine_bins=100, fine_bins_2D=40, smooth_scale_1D=0.3, smooth_scale_2D=0.4, max_scatter_points=40)
NAMES = {'A': ['x', 'y', 'z'], 'B': ['w', 'z', 'x', 'y'], 'C': ['y', 'x'], 'D': ['x', 'yy', 'z']}
LABEL = {'x': 'X', 'y': 'Y_1', 'z': r'\zeta', 'w': 'W', 'yy': 'Y_2'}


def mk(k):
    names = NAMES[k]
    r = np.random.RandomState(ord(k))
    n = 150
    x = r.standard_normal((n, 4)).dot(np.array([[1, .5, 0, .2], [0, 1, .3, 0], [0, 0, 1, .4], [0, 0, 0, 1]])) + 0.3 * (ord(k) - 65)
    x[:, 2] = np.abs(x[:, 2])
    ix = {'x': 0, 'y': 1, 'yy': 1, 'z': 2, 'w': 3}
    w = 1. + np.arange(n) % 3
    with quiet():
        s = MCSamples(samples=x[:, [ix[q] for q in names]], weights=w, loglikes=np.sum(x ** 2, axis=1) / 2, names=[q + '*' * (q == 'z') for q in names], labels=[LABEL[q] for q in names],
                      ranges={'z': [0, None]} if 'z' in names else None, label='Root ' + k, name_tag='t' + k, settings=SET, sampler='uncorrelated')
    if k == 'D':
        for p in s.paramNames.names:
            if p.name == 'yy':
                p.renames = ['y']
    return s


_S, _R = {}, {}


def S(k):
    if k not in _S:
        _S[k] = mk(k)
    return _S[k]


def own(k, p):
    """name in root k of the parameter called p"""
    if p in NAMES[k]:
        return p
    return {'y': 'yy'}.get(p) if k == 'D' else None


def ref1(k, p):
    key = (k, p)
    if key not in _R:
        with quiet():
            s = mk(k)
            d = s.get1DDensityGridData(own(k, p))
            n = mk(k).get1DDensity(own(k, p))
            n.normalize()
            _R[key] = (np.array(d.x), np.array(d.P), np.array(n.P), d.bounds())
    return _R[key]


def ref2(k, p, q, nc=2):
    key = (k, p, q, nc)
    if key not in _R:
        with quiet():
            d = mk(k).get2DDensityGridData(own(k, p), own(k, q), num_plot_contours=nc)
            _R[key] = (np.array(d.x), np.array(d.y), np.array(d.P), np.array(d.contours), d.bounds())
    return _R[key]


def paths(cs):
    """vertices of each level"""
    return [[np.array(p.vertices) for p in c.get_paths() if len(p.vertices)] for c in cs]


def ref_paths(k, p, q, nc, filled):
    key = ('paths', k, p, q, nc, filled)
    if key not in _R:
        x, y, P, cont, _ = ref2(k, p, q, nc)
        fig = plt.figure()
        ax = fig.add_subplot(111)
        if filled:
            n = ax.contourf(x, y, P, sorted(list(cont) + [P.max() + 1]))
        else:
            n = ax.contour(x, y, P, sorted(cont))
        _R[key] = paths(ax.collections)
        require(len(_R[key]) == len(cont), 'number of contour levels')
        plt.close(fig)
    return _R[key]


def same_paths(a, b):
    return len(a) == len(b) and all(len(u) == len(v) and np.allclose(u, v, rtol=1e-6, atol=1e-8) for u, v in zip(a, b))


def rgb(c):
    return tuple(np.round(mcolors.to_rgb(c), 4))


def curves(ax):
    return [l for l in ax.lines if len(l.get_xdata()) > 5]


def vmarks(ax):
    return [l for l in ax.lines if len(l.get_xdata()) == 2]


def check_1d(ax, roots, p, cols=None, normalized=False, where=''):
    have = [(i, k) for i, k in enumerate(roots) if own(k, p)]
    ls = curves(ax)
    require(len(ls) == len(have), '%s: %s lines for %s in roots %s', where, len(ls), p, roots)
    out = {}
    for l, (i, k) in zip(ls, have):
        x, P, N, b = ref1(k, p)
        require(len(l.get_xdata()) == len(x) and np.allclose(l.get_xdata(), x, rtol=1e-6, atol=1e-9), '%s: line %s is not on the density grid of %s of %s', where, i, p, k)
        require(np.allclose(l.get_ydata(), N if normalized else P, rtol=1e-5, atol=1e-8), '%s: line %s is not the density of %s of %s', where, i, p, k)
        out[i] = rgb(l.get_color())
        if cols and i < len(cols):
            require(out[i] == rgb(cols[i]), '%s: line %s is drawn in %s, not %s', where, i, l.get_color(), cols[i])
    return out


def shading(k, p, q, nsh, scale):
    key = ('shade', k, p, q)
    if key not in _R:
        x, y, P = ref2(k, p, q)[:3]
        fig = plt.figure()
        ax = fig.add_subplot(111)
        ax.contourf(x, y, P, levels=np.linspace(0, 1, nsh) ** scale)
        _R[key] = paths(ax.collections)
        plt.close(fig)
    return _R[key]


def check_2d(ax, roots, p, q, filled, cols=None, nc=2, where='', shaded=None, styles=None):
    """filled: list of bools"""
    colls = [c for c in ax.collections if type(c).__name__ in ('PathCollection', 'LineCollection') and not c.get_offsets().any()]
    pos = 0
    if shaded:
        want = shading(roots[0], p, q, shaded.num_shades, shaded.shade_level_scale)
        require(len(colls) > len(want) and all(same_paths(u, v) for u, v in zip(paths(colls), want)), '%s: the shading is not the density of %s, %s of %s', where, p, q, roots[0])
        colls = colls[-nc * len([k for k in roots if own(k, p) and own(k, q)]):]
    out = {}
    for i, k in enumerate(roots):
        if not (own(k, p) and own(k, q)):
            continue
        n = nc
        got = colls[pos:pos + n]
        require(len(got) == n, '%s: contours of %s missing', where, k)
        want = ref_paths(k, p, q, nc, bool(filled[i]))
        for lev, (c, w) in enumerate(zip(paths(got), want)):
            require(same_paths(c, w), '%s: contour %s of root %s (%s) is not that of the density of %s, %s', where, lev, i, k, p, q)
        if filled[i]:
            face = [rgb(c.get_facecolor()[0]) for c in got]
            out[i] = face[-1]
            require(len(set(face)) == n, '%s: filled contours of %s have colours %s', where, k, face)
            pos += n
            edge = colls[pos]
            require(same_paths(paths([edge])[0], ref_paths(k, p, q, nc, False)[0]), '%s: outline of %s is not its outer contour', where, k)
            pos += 1
        else:
            line = [rgb(c.get_edgecolor()[0]) for c in got]
            require(len(set(line)) == 1, '%s: contours of %s have colours %s', where, k, line)
            out[i] = line[0]
            if styles and i < len(styles):
                for c in got:
                    st = ('-' if c.get_linestyle()[0][1] is None else '--', float(c.get_linewidth()[0]))
                    require((st[0] == '-') == (styles[i][0] == '-') and st[1] == styles[i][1], '%s: contours %s are drawn in style %s, not %s', where, i, st, styles[i])
            pos += n
        if cols and i < len(cols):
            require(out[i] == rgb(cols[i]), '%s: contours %s are drawn in %s, not %s', where, i, out[i], cols[i])
    require(pos == len(colls), '%s: %s more contours than requested', where, len(colls) - pos)
    return out


def handle_col(h):
    return rgb(h.get_facecolor()) if hasattr(h, 'get_facecolor') else rgb(h.get_color())


def check_legend(g, labels, cols, order=None):
    """cols: {index of root: colour}"""
    if not labels:
        require(not g.fig.legends, 'unexpected legend %s', g.fig.legends and [t.get_text() for t in g.fig.legends[0].get_texts()])
        return
    require(len(g.fig.legends) == 1, '%s figure legends', len(g.fig.legends))
    leg = g.fig.legends[0]
    ix = list(range(len(labels)))
    if order == -1:
        ix = ix[::-1]
    elif order:
        ix = list(order)
    require([t.get_text() for t in leg.get_texts()] == [labels[i] for i in ix], 'legend says %s for labels %s in order %s', [t.get_text() for t in leg.get_texts()], labels, ix)
    hs = leg.legend_handles if hasattr(leg, 'legend_handles') else leg.legendHandles
    for h, i in zip(hs, ix):
        if i in cols:
            require(handle_col(h) == cols[i], 'legend shows %s for root %s, which is drawn in %s', handle_col(h), i, cols[i])


def lab(p):
    return '$' + LABEL[p] + '$'


def check_lims(lim, want, what):
    require(np.allclose(lim, want, rtol=1e-9, atol=1e-9), '%s is %s, expected %s', what, lim, want)


def default_lims(roots, p):
    """range covering the densities of all roots, within the prior of the first root that has the parameter"""
    bs = [ref1(k, p)[3] for k in roots if own(k, p)]
    lo, hi = min(b[0] for b in bs), max(b[1] for b in bs)
    return (max(lo, 0) if p == 'z' else lo, hi)


def plotter(**kw):
    g = plots.get_subplot_plotter(**kw)
    return g


class figure(object):
    def __enter__(self):
        self.w = warnings.catch_warnings()
        self.w.__enter__()
        warnings.simplefilter('ignore')
        self.q = quiet()
        self.q.__enter__()

    def __exit__(self, *a):
        plt.close('all')
        self.q.__exit__(*a)
        self.w.__exit__(*a)


COLS = [None, ['red', 'blue', 'green']]


# ---------------------------------------------------------------- 1D arrays
def gen_1d():
    for roots in ('A', 'AB', 'BA', 'AC', 'AD', 'BAD'):
        for params in (['x'], ['x', 'y'], ['y', 'x'], ['z', 'x', 'y'], ['y', 'z', 'x']):
            for nx in (None, 1, 2):
                for opt in ('plain', 'colors', 'norm', 'marks', 'xlims', 'legend', 'share', 'title'):
                    yield [roots, params, nx, opt]


def chk_1d(ctx, case):
    roots, params, nx, opt = case
    kw = {}
    cols = None
    if opt == 'colors':
        cols = ['red', 'blue', 'green'][:len(roots)]
        kw.update(colors=cols, ls=['-', '--', ':'], lws=[1.5, 2.5, 3.5])
    elif opt == 'norm':
        kw.update(normalized=True)
    elif opt == 'marks':
        kw.update(markers={p: 0.1 + i for i, p in enumerate(params) if p != 'x'} if nx else [0.1 + i if i != 1 else None for i in range(len(params))])
    elif opt == 'xlims':
        kw.update(xlims=[[-1 - i, 2 + i] for i in range(len(params))])
    elif opt == 'legend':
        kw.update(legend_labels=['l%s' % i for i in range(len(roots))], label_order=[-1, list(range(len(roots)))[1:] + [0]][nx == 2])
    elif opt == 'share':
        kw.update(share_y=True)
    elif opt == 'title':
        kw.update(title_limit=1)
    with figure():
        g = plotter()
        ret = g.plots_1d([S(k) for k in roots] if len(roots) > 1 else S(roots), list(params), nx=nx, **kw)
        ctx.step()
        ncol = nx or (len(params) if opt == 'share' else None)
        if ncol:
            require(ret[0] == ncol and ret[1] == -(-len(params) // ncol), 'layout is %s', ret)
        require(ret[0] * ret[1] >= len(params), 'layout %s has no room for %s plots', ret, len(params))
        require(len(g.fig.axes) == len(params), '%s subplots for %s', len(g.fig.axes), params)
        drawn = {}
        for i, p in enumerate(params):
            ax = g.subplots[i // ret[0], i % ret[0]]
            w = 'subplot %s' % i
            drawn.update(check_1d(ax, roots, p, cols, opt == 'norm', w))
            require(ax.get_xlabel() == lab(p), '%s is labelled %s', w, ax.get_xlabel())
            check_lims(ax.get_xlim(), kw['xlims'][i] if opt == 'xlims' else default_lims(roots, p), w + ' range')
            top = max(l.get_ydata().max() for l in curves(ax))
            require(ax.get_ylim()[0] == 0 and ax.get_ylim()[1] >= top, '%s: vertical range %s cuts the density (%s)', w, ax.get_ylim(), top)
            m = [list(l.get_xdata()) for l in vmarks(ax)]
            if opt == 'marks':
                want = kw['markers'].get(p) if isinstance(kw['markers'], dict) else kw['markers'][i]
                require(m == ([] if want is None else [[want, want]]), '%s: marker at %s, expected %s', w, m, want)
            else:
                require(m == [], '%s: unexpected marker', w)
            if opt == 'colors':
                for l, (k, s_, lw) in zip(curves(ax), [t for t in zip(roots, kw['ls'], kw['lws']) if own(t[0], p)]):
                    require(l.get_linestyle() in (s_,) or s_ != '-' and l.get_linestyle() == '--', '%s: line of %s has style %s', w, k, l.get_linestyle())
                    require(abs(l.get_linewidth() - lw) < 1e-6, '%s: line of %s has width %s', w, k, l.get_linewidth())
            if opt == 'title':
                k = roots[0]
                t = mk(k).getInlineLatex(own(k, p), limit=1)
                require(ax.get_title() == '$' + t + '$', '%s: title %s, the limit is %s', w, ax.get_title(), t)
        if opt == 'legend':
            check_legend(g, kw['legend_labels'], drawn, kw['label_order'])
        else:
            check_legend(g, ['Root ' + k for k in roots] if len(roots) > 1 else [], drawn)
        for p in params:
            ax = g.get_axes_for_params(p)
            i = params.index(p)
            require(ax is g.subplots[i // ret[0], i % ret[0]], 'get_axes_for_params(%s) gives another subplot', p)
        return (roots, opt, len(params))


# ---------------------------------------------------------------- roots per parameter, renames, lists of names
def gen_1dp():
    for sets in itertools.product(['A', 'AB', 'BC', 'D'], repeat=2):
        for params in (['x', 'y'], ['y', 'x']):
            yield ['per', list(sets), params]
    for roots in ('AD', 'A', 'DA'):
        for params in (['x', 'q'], ['q'], ['q', 'z']):
            yield ['ren', roots, params]
    for roots in ('A', 'B', 'AB'):
        for given in (None, '*', ['x', 'z*'], ['?'], 'obj'):
            yield ['names', roots, given]


def chk_1dp(ctx, case):
    kind, roots, params = case
    with figure():
        g = plotter()
        if kind == 'per':
            g.plots_1d([[S(k) for k in r] for r in roots], list(params), roots_per_param=True, nx=2, legend_labels=[])
            for i, p in enumerate(params):
                check_1d(g.subplots[0, i], roots[i], p, where='subplot %s' % i)
                q = own(roots[i][0], p)
                require(g.subplots[0, i].get_xlabel() == lab(q), 'subplot %s labelled %s', i, g.subplots[0, i].get_xlabel())
        elif kind == 'ren':
            # q is how the caller calls y
            ren = {'q': ['y', 'yy']}
            g.plots_1d([S(k) for k in roots], list(params), param_renames=ren, nx=3)
            for i, p in enumerate(params):
                p = 'y' if p == 'q' else p
                check_1d(g.subplots[0, i], roots, p, where='subplot %s' % i)
        else:
            if params is None or params == '*':
                want = NAMES[roots[0]]
            elif params == ['x', 'z*']:
                want = ['x', 'z']
            elif params == ['?']:
                want = NAMES[roots[0]]
            else:
                params = [S(roots[0]).paramNames.parWithName('y'), 'x']
                want = ['y', 'x']
            g.plots_1d([S(k) for k in roots], params, nx=4)
            require(len(g.fig.axes) == len(want), '%s subplots for %s', len(g.fig.axes), want)
            for i, p in enumerate(want):
                check_1d(g.subplots[0, i], roots, p, where='subplot %s' % i)
                require(g.subplots[0, i].get_xlabel() == lab(p), 'subplot %s labelled %s', i, g.subplots[0, i].get_xlabel())
        ctx.step()
    return kind


# ---------------------------------------------------------------- 2D arrays
def fills(spec, n):
    return [spec] * n if isinstance(spec, bool) else list(spec)


def gen_2d():
    for roots in ('A', 'AB', 'BA', 'AC', 'CA', 'AD', 'ABC'):
        for pairs in ([['x', 'y']], [['y', 'x']], [['x', 'y'], ['y', 'x']], [['z', 'x'], ['x', 'y'], ['z', 'y']]):
            if roots[0] == 'C' and any('z' in p for p in pairs):
                continue
            for filled in (False, True, 'mixed'):
                if filled == 'mixed' and len(roots) < 2:
                    continue
                for opt in ('plain', 'colors', 'nc1', 'nc3', 'lims', 'legend', 'x'):
                    yield [roots, pairs, filled, opt]


def chk_2d(ctx, case):
    roots, pairs, filled, opt = case
    f = [True, False, True][:len(roots)] if filled == 'mixed' else filled
    kw, cols, nc = {}, None, 2
    g = None
    with figure():
        g = plotter()
        if opt == 'colors':
            cols = ['red', 'blue', 'green'][:len(roots)]
            kw.update(colors=cols)
        elif opt in ('nc1', 'nc3'):
            nc = int(opt[2])
            g.settings.num_plot_contours = nc
            if nc == 3 and filled is not False:
                kw.update(colors=['red', 'blue', 'green'])
        elif opt == 'lims':
            kw.update(lims=[-1, 2, -3, 4])
        elif opt == 'legend':
            kw.update(legend_labels=['l%s' % i for i in range(len(roots))], label_order=-1 if filled else list(range(len(roots)))[1:] + [0])
        rt = [S(k) for k in roots]
        if opt == 'x' and all(p[0] == pairs[0][0] for p in pairs):
            ret = g.plots_2d(rt, pairs[0][0], [p[1] for p in pairs], filled=f, nx=2, **kw)
        else:
            ret = g.plots_2d(rt, param_pairs=pairs, filled=f, nx=2, **kw)
        ctx.step()
        require(ret[0] == 2 and ret[1] == -(-len(pairs) // 2), 'layout %s', ret)
        require(len(g.fig.axes) == len(pairs), '%s subplots for %s', len(g.fig.axes), pairs)
        drawn = {}
        for i, (p, q) in enumerate(pairs):
            ax = g.subplots[i // 2, i % 2]
            w = 'subplot %s' % i
            drawn.update(check_2d(ax, roots, p, q, fills(f, len(roots)), cols, nc, w))
            require(ax.get_xlabel() == lab(p) and ax.get_ylabel() == lab(q), '%s labelled %s, %s', w, ax.get_xlabel(), ax.get_ylabel())
            if opt == 'lims':
                check_lims(ax.get_xlim() + ax.get_ylim(), kw['lims'], w + ' range')
            else:
                for j, (n, lim) in enumerate(((p, ax.get_xlim()), (q, ax.get_ylim()))):
                    bs = [ref2(k, p, q, nc)[4][j] for k in roots if own(k, p) and own(k, q)]
                    lo, hi = min(b[0] for b in bs), max(b[1] for b in bs)
                    if n == 'z':
                        lo = max(lo, 0)
                    check_lims(lim, (lo, hi), '%s range of %s' % (w, n))
            require(g.get_axes_for_params(p, q) is ax, 'get_axes_for_params(%s, %s) gives another subplot', p, q)
        p0 = pairs[0]
        if all(own(k, p0[0]) and own(k, p0[1]) for k in roots):
            if opt == 'legend':
                check_legend(g, kw['legend_labels'], drawn, kw['label_order'])
            else:
                check_legend(g, ['Root ' + k for k in roots] if len(roots) > 1 else [], drawn)
        return (roots, str(filled), opt, len(pairs))


# ---------------------------------------------------------------- triangles
def gen_tri():
    for roots, upper in (('A', None), ('AB', None), ('BA', None), ('CA', None), ('AC', None), ('AD', None), ('A', 'B'), ('AB', 'A'), ('A', 'BD'), ('BA', 'AC')):
        for params in (['x', 'y'], ['y', 'x', 'z'], ['z', 'x', 'y']):
            if roots[0] == 'C' and 'z' in params:
                continue
            for filled in (False, True, 'mixed'):
                if filled == 'mixed' and len(roots) < 2:
                    continue
                for opt in ('plain', 'colors', 'limits', 'marks', 'legend', 'shaded', 'nolabels', 'styles', 'upargs', 'upcols', 'upstyles'):
                    if opt[:2] == 'up' and not upper:
                        continue
                    if opt == 'shaded' and filled:
                        continue
                    yield [roots, upper, params, filled, opt]


def chk_tri(ctx, case):
    roots, upper, params, filled, opt = case
    f = [True, False, True][:len(roots)] if filled == 'mixed' else filled
    kw, cols, ucols = {}, None, None
    uf = f
    if upper:
        kw['upper_roots'] = [S(k) for k in upper]
        if filled == 'mixed':
            uf = True
            kw['upper_kwargs'] = {'filled': True}
    show1d = True
    if opt == 'colors':
        cols = ['red', 'blue', 'green']
        kw.update(contour_colors=cols)
        ucols = ['red', 'blue', 'green'][:len(upper or '')]
    elif opt == 'limits':
        kw.update(param_limits={'x': (-1.5, 2.5), 'z': (0.25, 3)})
    elif opt == 'marks':
        kw.update(markers={'x': 0.3, 'z': 1.1})
    elif opt == 'legend':
        kw.update(legend_labels=['lab%s' % i for i in range(len(roots) + len([k for k in upper or '' if k not in roots]))], label_order=-1)
    elif opt == 'shaded':
        kw.update(shaded=True)
    elif opt == 'upargs':
        show1d = False
        ucols = ['magenta', 'cyan'][:len(upper)]
        kw['upper_kwargs'] = dict(kw.get('upper_kwargs', {}), contour_colors=ucols, show_1d=False)
    elif opt == 'upcols':
        cols = ['red', 'blue', 'green']
        ucols = ['magenta', 'cyan'][:len(upper)]
        kw.update(contour_colors=cols)
        kw['upper_kwargs'] = dict(kw.get('upper_kwargs', {}), contour_colors=ucols)
    styles, ustyles = None, None
    if opt in ('styles', 'upstyles'):
        styles = [('-', 2.5), ('--', 0.5), (':', 3.5)]
        kw.update(contour_ls=[u for u, _ in styles], contour_lws=[u for _, u in styles])
        ustyles = styles
    if opt == 'upstyles':
        ustyles = [('--', 4.5), ('-', 5.5)]
        kw['upper_kwargs'] = dict(kw.get('upper_kwargs', {}), contour_ls=[u for u, _ in ustyles], contour_lws=[u for _, u in ustyles])
    with figure():
        g = plotter()
        if opt == 'nolabels':
            g.settings.no_triangle_axis_labels = False
        g.triangle_plot([S(k) for k in roots] if len(roots) > 1 else S(roots), list(params), filled=f, **kw)
        ctx.step()
        n = len(params)
        roots1 = list(roots) + [k for k in upper or '' if show1d and k not in roots]
        lims = {}
        for p in params:
            lims[p] = kw['param_limits'][p] if opt == 'limits' and p in kw['param_limits'] else default_lims(roots1, p)
        c1, c2, cu = {}, {}, {}
        marks = kw.get('markers', {})
        for i, j in itertools.product(range(n), repeat=2):
            ax = g.subplots[i, j]
            w = 'row %s column %s' % (i, j)
            if j > i and not upper:
                require(ax is None, '%s is not empty', w)
                continue
            if i == j:
                c1.update(check_1d(ax, roots1, params[i], None, False, w))
            elif j < i:
                c2.update(check_2d(ax, roots, params[j], params[i], fills(f, len(roots)), cols, 2, w, g.settings if opt == 'shaded' else None, styles))
            else:
                cu.update(check_2d(ax, upper, params[j], params[i], fills(uf, len(upper)), ucols, 2, w, g.settings if opt == 'shaded' else None, ustyles))
            check_lims(ax.get_xlim(), lims[params[j]], '%s: range of %s' % (w, params[j]))
            if i != j:
                check_lims(ax.get_ylim(), lims[params[i]], '%s: range of %s' % (w, params[i]))
                require(g.get_axes_for_params(params[j], params[i]) is ax, '%s: not found by its parameters', w)
                vm = sorted([list(l.get_xdata()) for l in vmarks(ax) if l.get_xdata()[0] == l.get_xdata()[1]])
                hm = sorted([list(l.get_ydata()) for l in vmarks(ax) if l.get_ydata()[0] == l.get_ydata()[1]])
                wv = [[marks[params[j]]] * 2] if params[j] in marks else []
                wh = [[marks[params[i]]] * 2] if params[i] in marks else []
                require(vm == wv and hm == wh, '%s: markers at x %s and y %s, expected %s and %s', w, vm, hm, wv, wh)
            else:
                m = [list(l.get_xdata()) for l in vmarks(ax)]
                require(m == ([[marks[params[i]]] * 2] if params[i] in marks else []), '%s: markers at %s', w, m)
            # labels: bottom row and left column only
            if i == n - 1:
                require(ax.get_xlabel() == lab(params[j]), '%s: x label %r', w, ax.get_xlabel())
            elif opt != 'nolabels':
                require(ax.get_xlabel() == '', '%s: x label %r', w, ax.get_xlabel())
            if j == 0 and i > 0:
                require(ax.get_ylabel() == lab(params[i]), '%s: y label %r', w, ax.get_ylabel())
            elif j != i and opt != 'nolabels':
                require(ax.get_ylabel() == '', '%s: y label %r', w, ax.get_ylabel())
        for i in range(len(roots)):
            if i in c2:
                require(c1[i] == c2[i] or opt in ('colors', 'upcols') and fills(f, len(roots))[i] and c1[i] == rgb(cols[i]), 'root %s is drawn in %s in 1D and %s in 2D', i, c1[i], c2[i])
        for q, k in enumerate(roots1[len(roots):]):
            u = list(upper).index(k)
            if ucols and u in cu and not fills(uf, len(upper))[u]:
                require(c1[len(roots) + q] == cu[u], 'upper root %s is drawn in %s in 1D and %s in 2D', u, c1[len(roots) + q], cu[u])
        have_all = all(own(k, params[0]) and own(k, params[1]) for k in list(roots) + list(upper or ''))
        if have_all and (not upper or show1d):
            drawn = dict(c2)
            for q, k in enumerate(roots1[len(roots):]):
                drawn[len(roots) + q] = cu[list(upper).index(k)]
            check_legend(g, kw.get('legend_labels', ['Root ' + k for k in roots1] if len(roots1) > 1 else []), drawn, kw.get('label_order'))
        return (roots, upper, str(filled), opt, n)


# ---------------------------------------------------------------- rectangles
def gen_rect():
    for mode in ('roots', 'yroots', 'plot_roots'):
        for roots in ('A', 'AB', 'BA', 'AD'):
            for xs, ys in ((['x'], ['y']), (['x', 'y'], ['z']), (['x'], ['y', 'z']), (['z', 'y'], ['x', 'y']), (['y', 'x'], ['z', 'x'])):
                for filled in (False, True):
                    for opt in ('plain', 'colors', 'limits', 'marks', 'legend', 'texts'):
                        yield [mode, roots, xs, ys, filled, opt]


def chk_rect(ctx, case):
    mode, roots, xs, ys, filled, opt = case
    if any(x == y for x in xs for y in ys):
        # a parameter against itself is not a 2D density
        xs, ys = [x for x in xs if x not in ys] or ['w'], ys
        if xs == ['w']:
            return None
    kw, cols = {}, None
    if opt == 'colors':
        cols = ['red', 'blue'][:len(roots)]
        kw.update(colors=cols)
    elif opt == 'limits':
        kw.update(param_limits={'x': (-1.5, 2.5), 'z': (0.25, 3)})
    elif opt == 'marks':
        kw.update(xmarkers={p: 0.1 + i for i, p in enumerate(xs)}, ymarkers=[1.1 + i for i in range(len(ys))])
    elif opt == 'legend':
        kw.update(legend_labels=['l%s' % i for i in range(len(roots))], label_order=-1)
    elif opt == 'texts':
        kw.update(plot_texts=[['t%s%s' % (x, y) if (x, y) != (xs[0], ys[0]) else None for y in ys] for x in xs])
    cell = {}
    for ix, iy in itertools.product(range(len(xs)), range(len(ys))):
        turn = {'roots': 0, 'yroots': iy, 'plot_roots': ix + iy}[mode] % len(roots)
        cell[ix, iy] = roots[turn:] + roots[:turn]
    with figure():
        g = plotter()
        objs = lambda r: [S(k) for k in r]
        if mode == 'roots':
            kw['roots'] = objs(roots)
        elif mode == 'yroots':
            kw['yroots'] = [objs(cell[0, iy]) for iy in range(len(ys))]
        else:
            kw['plot_roots'] = [[objs(cell[ix, iy]) for iy in range(len(ys))] for ix in range(len(xs))]
        axs = g.rectangle_plot(list(xs), list(ys), filled=filled, **kw)
        ctx.step()
        require(len(g.fig.axes) == len(xs) * len(ys), '%s subplots for %s, %s', len(g.fig.axes), xs, ys)
        drawn = {}
        lims = {}
        for (ix, iy), rr in cell.items():
            for k in rr:
                b = ref2(k, xs[ix], ys[iy])[4]
                for p, q in ((xs[ix], b[0]), (ys[iy], b[1])):
                    lims[p] = (min(lims[p][0], q[0]), max(lims[p][1], q[1])) if p in lims else tuple(q)
        lims.update(kw.get('param_limits', {}))
        for (ix, iy), rr in cell.items():
            ax = g.subplots[iy, ix]
            w = 'row %s column %s' % (iy, ix)
            require(axs[ix][iy] is ax, '%s is not the subplot returned', w)
            d = check_2d(ax, rr, xs[ix], ys[iy], [filled] * len(rr), cols, 2, w)
            if (ix, iy) == (0, 0):
                drawn = d
            check_lims(ax.get_xlim(), lims[xs[ix]], '%s: range of %s' % (w, xs[ix]))
            check_lims(ax.get_ylim(), lims[ys[iy]], '%s: range of %s' % (w, ys[iy]))
            require(ax.get_xlabel() == (lab(own(rr[0], xs[ix])) if iy == len(ys) - 1 else ''), '%s: x label %r', w, ax.get_xlabel())
            require(ax.get_ylabel() == (lab(own(rr[0], ys[iy])) if ix == 0 else ''), '%s: y label %r', w, ax.get_ylabel())
            vm = [list(l.get_xdata()) for l in vmarks(ax) if l.get_xdata()[0] == l.get_xdata()[1]]
            hm = [list(l.get_ydata()) for l in vmarks(ax) if l.get_ydata()[0] == l.get_ydata()[1]]
            wv = [[0.1 + ix] * 2] if opt == 'marks' else []
            wh = [[1.1 + iy] * 2] if opt == 'marks' else []
            require(np.allclose(vm, wv) and np.allclose(hm, wh) and len(vm) == len(wv) and len(hm) == len(wh), '%s: markers %s, %s', w, vm, hm)
            texts = [t.get_text() for t in ax.texts]
            want = kw['plot_texts'][ix][iy] if opt == 'texts' else None
            require(texts == ([want] if want else []), '%s: text %s, expected %s', w, texts, want)
        if opt == 'legend':
            check_legend(g, kw['legend_labels'], drawn, -1)
        elif mode == 'roots':
            check_legend(g, ['Root ' + k for k in roots] if len(roots) > 1 else [], drawn)
        else:
            check_legend(g, [], drawn)
        return (mode, roots, filled, opt)


# ---------------------------------------------------------------- scatter plots
def gen_sc():
    for roots in ('A', 'B', 'AB', 'BD'):
        for params in (['x', 'y', 'z'], ['z', 'x', 'y'], ['y', 'z', 'x']):
            if roots[0] == 'D':
                continue
            for kind in ('3d', '2d', '3ds', 'tri'):
                for alpha in (False, True):
                    for opt in ('plain', 'lims', 'colors'):
                        if kind == 'tri' and (alpha or opt == 'lims'):
                            continue
                        yield [roots, params, kind, alpha, opt]


def rows_of(k, ps):
    s = mk(k)
    ix = [s.paramNames.numberOfName(own(k, p)) for p in ps]
    return s.samples[:, ix]


def chk_sc(ctx, case):
    roots, params, kind, alpha, opt = case
    kw = {}
    if opt == 'lims':
        kw['lims'] = [-1, 2, -3, 4]
    cols = None
    if opt == 'colors':
        kw['contour_colors' if kind == 'tri' else 'colors'] = cols = ['red']
    with figure():
        g = plotter()
        rt = [S(k) for k in roots]
        if kind == '3d':
            g.plot_3d(rt, list(params), alpha_samples=alpha, **kw)
            axes = [(g.subplots[0, 0], params)]
        elif kind == '2d':
            g.plot_2d_scatter(rt, params[0], params[1], color='green', alpha_samples=alpha, **kw)
            axes = [(g.subplots[0, 0], params[:2])]
        elif kind == '3ds':
            sets = [list(params), [params[1], params[0], params[2]]]
            g.plots_3d(rt, sets, nx=2, alpha_samples=alpha, **kw)
            axes = [(g.subplots[0, i], s) for i, s in enumerate(sets)]
        else:
            g.triangle_plot(rt, params[:2], plot_3d_with_param=params[2], **kw)
            axes = [(g.subplots[1, 0], params)]
            for i in (0, 1):
                check_1d(g.subplots[i, i], roots, params[i], None, False, 'diagonal %s' % i)
        ctx.step()
        for ax, ps in axes:
            sc = [c for c in ax.collections if c.get_offsets().any()]
            require(len(sc) == 1, '%s scatters', len(sc))
            off = np.asarray(sc[0].get_offsets())
            R = rows_of(roots[0], ps)
            where = []
            for o in off:
                m = np.flatnonzero(np.all(np.abs(R[:, :2] - o) < 1e-9, axis=1))
                require(len(m) == 1, 'point %s of %s is not a sample of %s', o, ps, roots[0])
                where.append(m[0])
            w = mk(roots[0]).weights
            if alpha:
                require(set(where) == set(range(len(R))), 'not all samples are shown: %s of %s', len(set(where)), len(R))
                a = np.zeros(len(R))
                np.add.at(a, where, sc[0].get_facecolors()[:, 3])
                require(np.allclose(a / a.max(), w / w.max(), rtol=1e-5), 'total opacity of the samples is not proportional to their weight')
            else:
                require(5 <= len(where) <= 150, '%s points, about 40 requested', len(where))
            if len(ps) == 3:
                if alpha:
                    nrm = mcolors.Normalize(R[:, 2].min(), R[:, 2].max())
                    want = matplotlib.colormaps[g.settings.colormap_scatter](nrm(R[where, 2])) if isinstance(g.settings.colormap_scatter, str) else g.settings.colormap_scatter(nrm(R[where, 2]))
                    require(np.allclose(sc[0].get_facecolors()[:, :3], want[:, :3], atol=1e-6), 'points are not coloured by %s', ps[2])
                else:
                    require(np.allclose(sc[0].get_array(), R[where, 2], rtol=1e-9), 'points are not coloured by %s', ps[2])
            else:
                require(all(rgb(c[:3]) == rgb('green') for c in sc[0].get_facecolors()), 'points are not drawn in the colour asked for')
            # further roots: contours
            cc = [c for c in ax.collections if not c.get_offsets().any()]
            if len(roots) > 1:
                got = paths(cc)
                want = ref_paths(roots[1], ps[0], ps[1], 2, False)
                require(len(got) == 2 and all(same_paths(u, v) for u, v in zip(got, want)), 'contours of %s are not those of %s, %s', roots[1], ps[0], ps[1])
                if cols:
                    require(all(rgb(c.get_edgecolor()[0]) == rgb(cols[0]) for c in cc), 'contours drawn in %s', [c.get_edgecolor() for c in cc])
            else:
                require(not cc, 'unexpected contours')
            require(ax.get_xlabel() == lab(ps[0]) and ax.get_ylabel() == lab(ps[1]), 'labels %s, %s', ax.get_xlabel(), ax.get_ylabel())
            if 'lims' in kw:
                check_lims(ax.get_xlim() + ax.get_ylim(), kw['lims'], 'range')
            elif kind != 'tri':
                for j, lim in enumerate((ax.get_xlim(), ax.get_ylim())):
                    lo, hi = off[:, j].min(), off[:, j].max()
                    require(lim[0] <= lo and lim[1] >= hi, 'range %s cuts points from %s to %s', lim, lo, hi)
                    if ps[j] == 'z':
                        require(lim[0] >= 0, 'range %s of %s exceeds the prior', lim, ps[j])
        if kind in ('3d', 'tri'):
            cb = g.last_colorbar if kind == '3d' else None
            if cb is not None:
                require(cb.ax.get_ylabel() == lab(params[2]), 'colour bar labelled %s', cb.ax.get_ylabel())
            else:
                require(any(a.get_ylabel() == lab(params[2]) for a in g.fig.axes[3:]), 'colour bar not labelled')
        return (roots, kind, alpha, opt)


# ---------------------------------------------------------------- line styles
DEFAULT_STYLES = ['k', 'r', 'b']
ATTR = {'colors': [['red', 'blue'], ['red', None], ['green'], [None, '#123456']], 'ls': [['-', '--'], [None, ':'], '-.', ['--']], 'lws': [[1.5, 2.5], 2.25, [None, 3.5], [0.5]], 'alphas': [[.3, .6], [None, .5], .4, [.8]],
        'line_args': [{'color': 'orange', 'lw': 4, 'alpha': .7}, [{'color': 'cyan', 'ls': '--'}], [{}, {'ls': '-.', 'lw': 1.25, 'color': 'brown'}], [{'alpha': .2, 'lw': 3}, {'color': 'purple'}]],
        'plot_args': [{'color': 'magenta', 'ls': ':', 'lw': 5.5, 'alpha': .9}, [{'lw': 2.75, 'alpha': .35}], [None, {'color': 'gold', 'ls': '--'}], [{'ls': '-.'}, {'lw': 1.75, 'alpha': .45}]]}


def gen_style():
    for kind in ('1d', '2d', 'filled', 'mixed'):
        for roots in ('AB', 'ABC', 'A'):
            for n in (0, 1, 2):
                for ks in itertools.combinations(sorted(ATTR), n):
                    for vs in itertools.product(range(4), repeat=n):
                        if roots != 'AB' and n == 2 and sum(vs) % 4:
                            continue
                        yield [kind, roots, dict(zip(ks, vs))]


def style_for(i, n, settings, a):
    d = {}
    pa = a.get('plot_args')
    if isinstance(pa, dict):
        d.update(pa)
    elif pa and i < len(pa):
        d.update(pa[i] or {})
    own_ = {}
    la = a.get('line_args')
    if isinstance(la, dict):
        own_.update(la)
    elif la and i < len(la):
        own_.update(la[i])
    for k, tag in (('colors', 'color'), ('ls', 'ls'), ('lws', 'lw'), ('alphas', 'alpha')):
        v = a.get(k)
        if v is not None:
            v = v if isinstance(v, list) else [v] * n
            if i < len(v) and v[i] is not None:
                own_[tag] = v[i]
    return dict(d, **own_), own_


def chk_style(ctx, case):
    kind, roots, ks = case
    a = {k: copy.deepcopy(ATTR[k][v]) for k, v in ks.items()}
    keep = copy.deepcopy(a)
    with figure():
        g = plotter()
        if 'plot_args' in a:
            g.settings.plot_args = a['plot_args']
        g.make_figure(1)
        args = {k: v for k, v in a.items() if k != 'plot_args'}
        if kind == '1d':
            g.plot_1d([S(k) for k in roots], 'x', **args)
        else:
            f = {'2d': [False] * 3, 'filled': [True] * 3, 'mixed': [True, False, True]}[kind][:len(roots)]
            g.plot_2d([S(k) for k in roots], 'x', 'y', filled=f if kind == 'mixed' else kind == 'filled', **args)
        ctx.step()
        require(a == keep, 'arguments changed')
        ax = g.subplots[0, 0]
        st = g.settings
        if kind == '1d':
            check_1d(ax, roots, 'x')
            items = [(i, l.get_color(), l.get_linewidth(), l.get_alpha(), l.get_linestyle(), l._unscaled_dash_pattern[1]) for i, l in enumerate(curves(ax))]
        else:
            check_2d(ax, roots, 'x', 'y', f)
            items, pos = [], 0
            for i in range(len(roots)):
                c = ax.collections[pos:pos + 2]
                if f[i]:
                    items.append((i, c[1].get_facecolor()[0], None, c[1].get_alpha(), None, None))
                    require(c[0].get_alpha() == c[1].get_alpha(), 'levels of root %s have opacities %s', i, [x.get_alpha() for x in c])
                    pos += 3
                else:
                    items.append((i, c[0].get_edgecolor()[0], float(c[0].get_linewidth()[0]), c[0].get_alpha(), None, c[0]._us_linestyles[0][1]))
                    require(c[0]._us_linestyles[0][1] == c[1]._us_linestyles[0][1] and float(c[1].get_linewidth()[0]) == items[-1][2] and rgb(c[1].get_edgecolor()[0]) == rgb(items[-1][1]) and c[0].get_alpha() == c[1].get_alpha(),
                            'levels of root %s are drawn differently', i)
                    pos += 2
        for i, col, lw, alpha, ls, dashes in items:
            d, mine = style_for(i, len(roots), st, a)
            fil = kind != '1d' and f[i]
            if fil:
                solid = st.solid_colors[len(roots) - i - 1]
                want = mine.get('color') or (solid if mcolors.is_color_like(solid) else solid[-1])
                walpha = d.get('alpha', 1 if i == 0 else st.alpha_filled_add)
            else:
                name = DEFAULT_STYLES[i]
                want = d.get('color') or name
                walpha = d.get('alpha', None if kind == '1d' else 1)
                wls = d.get('ls', '-')
                wd = {'-': None, '--': st.line_dash_styles['--'], '-.': st.line_dash_styles['-.']}.get(wls, ())
                require(abs(lw - d.get('lw', g._scaled_linewidth(st.linewidth))) < 1e-9, 'width of line %s is %s, expected %s', i, lw, d.get('lw'))
                require((dashes is None) == (wls == '-'), 'line %s of style %s has dashes %s', i, wls, dashes)
                if wd:
                    require(tuple(dashes) == tuple(wd), 'line %s of style %s has dashes %s, expected %s', i, wls, dashes, wd)
            require(rgb(col) == rgb(want), 'root %s is drawn in %s, expected %s', i, rgb(col), want)
            require(alpha == walpha, 'root %s is drawn with opacity %s, expected %s', i, alpha, walpha)
    return '%s %s %s' % (kind, len(roots), sorted(ks))


# ---------------------------------------------------------------- subsets, shared axes, limits, axes by position
def gen_arr():
    for roots in ('A', 'B', 'AB', 'DA', 'AC'):
        names = NAMES[roots[0]]
        for wanted in itertools.chain.from_iterable(itertools.combinations(names, n) for n in range(1, len(names) + 1)):
            for order in (1, -1):
                yield ['list', roots, list(wanted)[::order], None]
    for roots in ('A', 'AB'):
        for wanted in (['x'], ['q'], ['x', 'q'], ['z', 'y', 'x']):
            for params in (['q', 'x'], ['x', 'z', 'q'], ['z', 'x']):
                yield ['listren', roots, wanted, params]
    for roots in ('A', 'AB', 'BA'):
        for n in (2, 3):
            for nx in (1, 2, 3):
                for norm in (False, True):
                    for share in (True, False):
                        yield ['share', roots, n, nx, norm, share]
    for roots in ('A', 'AB'):
        for lims in itertools.product(([0, 2], [-1, 0], [-0.5, 1.5]), repeat=3):
            yield ['xlims', roots, [list(l) for l in lims]]
    for roots in ('A', 'AB'):
        for markers in itertools.product((None, 0, 0.4), repeat=3):
            for n in (1, 2, 3):
                yield ['markers', roots, list(markers[:n]), n % 2]
    for first, second in itertools.permutations('ABCD', 2):
        for pats in (['x', 'y'], ['*'], ['z', 'w', 'y'], ['y', 'yy', 'x']):
            yield ['p2', first + second, pats]
    for trip in itertools.product([('A', 'x', 'y'), ('B', 'w', 'z'), ('D', 'yy', 'x'), ('C', 'x', 'y')], repeat=2):
        for filled in (False, True):
            for lim in (None, [-1, 0]):
                yield ['trip', [list(t) for t in trip], filled, lim]
    for nx in (1, 2, 3):
        for pairs in itertools.permutations([['x', 'y'], ['y', 'x'], ['z', 'x'], ['x', 'x']], 3):
            yield ['find', nx, [list(p) for p in pairs]]


def chk_arr(ctx, case):
    kind, roots = case[:2]
    with figure():
        g = plotter()
        ctx.step()
        if kind in ('list', 'listren'):
            wanted, params = case[2:]
            fn = os.path.join(ctx.newdir('w'), 'wanted.paramnames')
            with open(fn, 'w') as f:
                f.write(''.join('%s\t%s\n' % (w, LABEL.get(w, 'Q')) for w in wanted))
            S_ = [S(k) for k in roots]
            if kind == 'list':
                g.plots_1d(S_, param_list=fn, nx=2)
                want = [p for p in NAMES[roots[0]] if p in wanted]
            else:
                kept = [p for p in params if p in wanted or p == 'q' and 'y' in wanted or p == 'y' and 'q' in wanted]
                if not kept:
                    return 'none'
                g.plots_1d(S_, params, param_list=fn, nx=2, param_renames={'y': 'q'})
                want = ['y' if p == 'q' else p for p in kept]
            require(len(g.fig.axes) == len(want), '%s subplots for %s', len(g.fig.axes), want)
            for i, p in enumerate(want):
                check_1d(g.subplots[i // g.plot_col, i % g.plot_col], roots, 'y' if p == 'yy' else p, where='subplot %s' % i)
        elif kind == 'share':
            n, nx, norm, share = case[2:]
            params = ['x', 'y', 'z'][:n]
            g.plots_1d([S(k) for k in roots], params, nx=nx, share_y=share, normalized=norm)
            axs = [g.subplots[i // nx, i % nx] for i in range(n)]
            for i, (p, ax) in enumerate(zip(params, axs)):
                check_1d(ax, roots, p, None, norm, 'subplot %s' % i)
                top = max(l.get_ydata().max() for l in curves(ax))
                require(ax.get_ylim()[0] == 0 and ax.get_ylim()[1] >= top, 'subplot %s: range %s cuts the density (%s)', i, ax.get_ylim(), top)
                if share:
                    require(norm or ax is axs[0] or ax in axs[0].get_shared_y_axes().get_siblings(axs[0]), 'subplot %s does not share the axis', i)
                    require(norm or np.allclose(ax.get_ylim(), axs[0].get_ylim()), 'subplots with shared axis have ranges %s', [a.get_ylim() for a in axs])
                    axs[i].figure.canvas.draw()
                    shown = [t.get_text() for t in ax.get_yticklabels() if t.get_visible() and t.get_text()] + [ax.get_ylabel()] * bool(ax.get_ylabel())
                    require(i % nx == 0 or not shown, 'subplot %s has vertical labels %s', i, shown)
        elif kind == 'xlims':
            g.plots_1d([S(k) for k in roots], ['x', 'y', 'z'], nx=2, xlims=case[2])
            for i, p in enumerate('xyz'):
                ax = g.subplots[i // 2, i % 2]
                check_1d(ax, roots, p)
                check_lims(ax.get_xlim(), case[2][i], 'range of subplot %s' % i)
        elif kind == 'markers':
            marks, asdict = case[2:]
            g.plots_1d([S(k) for k in roots], ['x', 'y', 'z'], nx=2, markers={p: m for p, m in zip('xyz', marks)} if asdict else marks)
            for i, p in enumerate('xyz'):
                ax = g.subplots[i // 2, i % 2]
                m = [list(l.get_xdata()) for l in vmarks(ax)]
                want = marks[i] if i < len(marks) else None
                require(m == ([] if want is None else [[want, want]]), 'subplot %s: marker at %s, expected %s', i, m, want)
        elif kind == 'p2':
            pats = case[2]
            first = NAMES[roots[0]]
            if pats == ['*']:
                want = list(first)
            else:
                want = []
                for p in pats:
                    q = own(roots[0], p)
                    if q is None:
                        return 'missing'
                    want.append(q)
            want = [p for p in want if p != 'x']
            if not want or len(set(want)) < len(want):
                return 'none'
            for asx in (True, False):
                g = plotter()
                if asx:
                    g.plots_2d([S(k) for k in roots], 'x', pats, nx=2)
                else:
                    g.plots_2d([S(k) for k in roots], param_pairs=[['x', p] for p in want], nx=2)
                require(len(g.fig.axes) == len(want), '%s subplots for %s', len(g.fig.axes), want)
                for i, p in enumerate(want):
                    ax = g.subplots[i // 2, i % 2]
                    check_2d(ax, roots, 'x', 'y' if p == 'yy' else p, [False] * 2, where='subplot %s' % i)
                    require(ax.get_xlabel() == lab('x') and ax.get_ylabel() == lab(p), 'subplot %s labelled %s, %s', i, ax.get_xlabel(), ax.get_ylabel())
        elif kind == 'trip':
            trip, filled, lim = case[1:]
            g.plots_2d_triplets([(S(k), p, q) for k, p, q in trip], nx=2, filled=filled, x_lim=lim)
            require(len(g.fig.axes) == len(trip), '%s subplots', len(g.fig.axes))
            for i, (k, p, q) in enumerate(trip):
                ax = g.subplots[0, i]
                check_2d(ax, k, 'y' if p == 'yy' else p, q, [filled], where='subplot %s' % i)
                require(ax.get_xlabel() == lab(p) and ax.get_ylabel() == lab(q), 'subplot %s labelled %s, %s', i, ax.get_xlabel(), ax.get_ylabel())
                if lim:
                    check_lims(ax.get_xlim(), lim, 'range of subplot %s' % i)
        else:
            nx, pairs = case[1:]
            pairs = [p for p in pairs if p[0] != p[1]] + ([] if all(p[0] != p[1] for p in pairs) else [['z', 'y']])
            g.plots_2d(S('A'), param_pairs=pairs, nx=nx)
            for i, (p, q) in enumerate(pairs):
                ax = g.subplots[i // nx, i % nx]
                for how, got in (('number', g.get_axes(i)), ('position', g.get_axes((i // nx, i % nx))), ('parameters', g.get_axes((p, q))), ('parameters', g.get_axes_for_params(p, q))):
                    require(got is ax, 'axes found by %s of subplot %s are those of another', how, i)
                    require(g.get_axes() is ax, 'the last axes used are not those of subplot %s, found by %s', i, how)
                found = g.get_axes_for_params(q, p, ordered=False)
                require(sorted(getattr(a, 'name', a) for a in found.getdist_params) == sorted([p, q]), 'unordered (%s, %s) finds %s', q, p, found.getdist_params)
                a = g.get_axes_for_params(q, p)
                j = pairs.index([q, p]) if [q, p] in pairs else None
                require(a is (None if j is None else g.subplots[j // nx, j % nx]), 'axes for (%s, %s)', q, p)
            h = plotter()
            h.plots_3d(S('A'), [['x', 'y', 'z']], nx=1)
            require(h.get_axes_for_params('z', 'x', 'y', ordered=False) is h.subplots[0, 0] and h.get_axes_for_params('x', 'y', 'z') is h.subplots[0, 0] and h.get_axes_for_params('z', 'x', 'y') is None, 'axes of a 3D plot not found')
            require(g.get_axes_for_params('x') is None and g.get_axes_for_params('x', 'y', 'z') is None, 'axes of other parameters found')
    return kind


def scenarios(tier):
    return [Enum('triangle', gen_tri, chk_tri, timeout=120), Enum('rectangle', gen_rect, chk_rect, timeout=120), Enum('array2d', gen_2d, chk_2d, timeout=120),
            Enum('styles', gen_style, chk_style, timeout=120), Enum('arrays', gen_arr, chk_arr, timeout=120), Enum('array1d', gen_1d, chk_1d, timeout=120), Enum('names1d', gen_1dp, chk_1dp, timeout=120), Enum('scatter', gen_sc, chk_sc, timeout=120)]
