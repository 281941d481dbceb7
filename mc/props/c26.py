"""Reuse: any history of requests to one plotter, analyser or sample object gives the results of a fresh one."""
import copy
import itertools
import os
import warnings

import numpy as np

from mc.core import Bfs, Enum, require
from mc.gridlib import quiet, write
import matplotlib
matplotlib.use('agg')
from matplotlib import pyplot as plt
import getdist
from getdist import plots
from getdist.mcsamples import MCSamples
import logging

PROPERTY = 'C26'
LEVEL = 'model_checking'
RULE = ('plotter: every sequence of 2 (thorough: 3) plots from an alphabet of plot calls (kinds, normalisation, shading, shared argument lists and dictionaries, temporary settings) on one plotter, for samples given as objects or root '
        'names and every form of plot_args, the figure of the last one compared element by element with that of a fresh plotter, and arguments, settings and samples compared before and after; analyser: explicit-state search of all histories of requests, '
        'reloads, removals, resets, new settings and changed files; samples: every sequence of queries and setting changes on one object, all queries compared with a fresh object; settings: every sequence of up to 2 (thorough: 3) of 14 changes of settings, directly, between queries or on copies, compared with an object created with the resulting settings, and with the original of the copies; ini: every list of contours and two-tail fractions in both forms')
ASSUMPTIONS = ['objects returned are not modified by the caller', 'samples given as objects are not changed while a plotter uses them', 'matplotlib agg backend']

logging.disable(logging.WARNING)
_rng = np.random.default_rng
# unseeded draws (scatter points) are made repeatable, so that two requests can be compared
np.random.default_rng = lambda seed=None: _rng(1 if seed is None else seed)
SET = dict(ignore_rows=0, fine_bins=200, fine_bins_2D=64, smooth_scale_1D=0.3, smooth_scale_2D=0.3, max_scatter_points=40)


def data(k, n=300, version=0):
    r = np.random.RandomState(k + 50 * version)
    x = r.standard_normal((n, 3)).dot(np.array([[1, .5, 0], [0, 1, .3], [0, 0, 1]])) + 0.2 * k
    x[:, 2] = np.abs(x[:, 2])
    w = 1. + np.arange(n) % 3
    ll = np.sum(x ** 2, axis=1) / 2
    return x, w, ll


def mk(k, split=False, **kw):
    x, w, ll = data(k)
    if split:
        x, w, ll = [[a[:170], a[170:]] for a in (x, w, ll)]
    with quiet():
        return MCSamples(samples=x, weights=w, loglikes=ll, names=['x', 'y', 'z'], labels=['X', 'Y_1', r'\zeta'], ranges={'z': [0, None]}, label='L%s' % k, name_tag='t%s' % k, settings=dict(SET, **kw), sampler='uncorrelated')


def files(d, version=0, mtime=None):
    for k in (0, 1):
        x, w, ll = data(k, version=version)
        root = os.path.join(d, 'r%s' % k)
        np.savetxt(root + '.txt', np.column_stack([w, ll, x]), fmt='%.10e')
        write(root + '.paramnames', 'x X\ny Y_1\nz \\zeta\n')
        write(root + '.ranges', 'z 0 N\n')
        write(root + '.properties.ini', 'label = L%s\nsampler = uncorrelated\n' % k)
        if mtime:
            for e in ('.txt', '.paramnames', '.ranges', '.properties.ini'):
                os.utime(root + e, (mtime, mtime))


# ---- figures
def num(a):
    return np.asarray(a, dtype=float)


def elements(fig):
    """everything drawn, as (key, value) with arrays"""
    out = []
    for i, ax in enumerate(fig.axes):
        key = 'axes%s' % i
        out.append((key, (ax.get_xlabel(), ax.get_ylabel(), ax.get_title())))
        out.append((key + ' limits', num(list(ax.get_xlim()) + list(ax.get_ylim()))))
        out.append((key + ' texts', [t.get_text() for t in ax.texts]))
        for j, l in enumerate(ax.lines):
            k = '%s line%s' % (key, j)
            out.append((k + ' style', (matplotlib.colors.to_hex(l.get_color()), l.get_linestyle(), round(l.get_linewidth(), 6), l.get_alpha(), str(getattr(l, '_unscaled_dash_pattern', '')))))
            out.append((k, num(l.get_xydata())))
        for j, c in enumerate(ax.collections):
            k = '%s collection%s' % (key, j)
            out.append((k + ' style', (type(c).__name__, num(c.get_facecolor()).round(6).tolist(), num(c.get_edgecolor()).round(6).tolist(), num(c.get_linewidth()).round(6).tolist(), c.get_alpha(), str(c.get_linestyle()))))
            ps = c.get_paths()
            out.append((k, np.concatenate([num(p.vertices) for p in ps]) if len(ps) else np.zeros((0, 2))))
            out.append((k + ' offsets', num(c.get_offsets())))
    for j, leg in enumerate(fig.legends + [a.get_legend() for a in fig.axes if a.get_legend()]):
        out.append(('legend%s' % j, [t.get_text() for t in leg.get_texts()]))
        for h in leg.legend_handles:
            c = h.get_facecolor() if hasattr(h, 'get_facecolor') else h.get_color()
            out.append(('legend%s handle' % j, (matplotlib.colors.to_hex(c), h.get_linestyle(), round(h.get_linewidth(), 6))))
    out.append(('size', num(fig.get_size_inches())))
    return out


def compare(a, b, what):
    require([k for k, _ in a] == [k for k, _ in b], '%s: elements drawn differ: %r', what, sorted(set(k for k, _ in a) ^ set(k for k, _ in b))[:6])
    for (k, v), (_, v2) in zip(a, b):
        if isinstance(v, np.ndarray):
            require(v.shape == v2.shape and np.allclose(v, v2, rtol=1e-7, atol=1e-9, equal_nan=True), '%s: %s differs (by %s)', what, k, np.max(np.abs(v - v2)) if v.shape == v2.shape and v.size else 'shape')
        else:
            require(v == v2, '%s: %s is %r, with a fresh object %r', what, k, v, v2)


class Args(object):
    """argument objects shared by all plots of one history"""

    def __init__(self):
        self.line = [{'lw': 2}, {'ls': '--'}]
        self.line1 = [{'lw': 3}]
        self.cont = [{'alpha': .5}, {}]
        self.colors = ['red', 'green']
        self.params = ['x', 'y']
        self.labels = ['one', 'two']
        self.markers = {'x': 0.5}
        self.upper = {'filled': False, 'contour_colors': ['m', 'c']}
        self.limits = {'x': (-2, 2)}


def with_settings(g, call, **st):
    old = {k: getattr(g.settings, k) for k in st}
    for k, v in st.items():
        setattr(g.settings, k, v)
    try:
        return call()
    finally:
        for k, v in old.items():
            setattr(g.settings, k, v)


REQ = {
    'd1': lambda g, r, a: g.plot_1d(r, 'x'),
    'd1norm': lambda g, r, a: g.plot_1d(r, 'x', normalized=True),
    'd1lines': lambda g, r, a: g.plot_1d(r, 'x', line_args=a.line),
    'd1linescol': lambda g, r, a: g.plot_1d(r, 'x', line_args=a.line, colors=a.colors, ls=[':', '-']),
    'd1short': lambda g, r, a: g.plot_1d(r, 'y', line_args=a.line1, marker=0.3),
    'd1col': lambda g, r, a: g.plot_1d(r[1], 'z', colors=a.colors, title_limit=1),
    'ds1': lambda g, r, a: g.plots_1d(r, a.params, legend_labels=a.labels, markers=a.markers, nx=2),
    'ds1likes': lambda g, r, a: with_settings(g, lambda: g.plots_1d(r, a.params, nx=2), plot_meanlikes=True),
    'd2': lambda g, r, a: g.plot_2d(r, 'x', 'y'),
    'd2fill': lambda g, r, a: g.plot_2d(r, a.params, filled=True),
    'd2one': lambda g, r, a: with_settings(g, lambda: g.plot_2d(r, a.params, contour_args=a.cont), num_plot_contours=1),
    'd2shade': lambda g, r, a: g.plot_2d(r[0], 'x', 'y', shaded=True),
    'ds2': lambda g, r, a: g.plots_2d(r, 'x', ['y', 'z'], nx=2, colors=a.colors),
    'tri': lambda g, r, a: g.triangle_plot(r, ['x', 'y', 'z'], legend_labels=a.labels, contour_colors=a.colors),
    'trifill': lambda g, r, a: g.triangle_plot(r, a.params, filled=True, contour_args=a.cont, markers=a.markers, param_limits=a.limits),
    'triupper': lambda g, r, a: g.triangle_plot([r[0]], a.params, filled=True, contour_args=a.cont, upper_roots=r, upper_kwargs=a.upper),
    'rect': lambda g, r, a: g.rectangle_plot(['x'], ['y', 'z'], roots=r, filled=True),
    'd3': lambda g, r, a: g.plot_3d(r, ['x', 'y', 'z']),
    'scatter': lambda g, r, a: g.plot_2d_scatter(r, 'x', 'z', color='b'),
}
PLOT_ARGS = {'none': None, 'dict': {'alpha': 0.6}, 'list': [{'color': 'g'}, None], 'ls': {'ls': '--'}}


def fingerprint(s):
    return [np.array(s.samples).tobytes(), np.array(s.weights).tobytes(), [p.label for p in s.paramNames.names], str(s.ranges.lower), str(s.ranges.upper)]


def request(name, kind, pa, roots, d, g=None, args=None):
    args = args or Args()
    if g is None:
        g = plots.get_subplot_plotter(chain_dir=d if kind == 'names' else None, subplot_size=2, analysis_settings=SET if kind == 'names' else None)
        g.settings.plot_args = copy.deepcopy(PLOT_ARGS[pa])
    np.random.seed(1)
    g.new_plot(close_existing=True)
    REQ[name](g, roots, args)
    out = elements(g.fig)
    return g, out


_fresh = {}


def plot_gen(depth, kinds, full):
    def gen():
        for kind, pa in kinds:
            for seq in itertools.product(list(REQ), repeat=depth):
                if not full and kind + pa not in ('objectsnone', 'namesnone') and not all(r.startswith('d1') or r == 'tri' for r in seq):
                    continue  # plot_args concern the line plots
                yield [kind, pa, list(seq)]
    return gen


def plot_check(ctx, case):
    kind, pa, seq = case
    warnings.simplefilter('ignore')
    d = os.path.join(ctx.scratch, 'plotfiles%s' % os.getpid())
    if not os.path.isdir(d):
        os.makedirs(d)
        files(d)
    roots = ['r0', 'r1'] if kind == 'names' else [mk(0), mk(1)]
    with quiet():
        last = (kind, pa, seq[-1])
        if last not in _fresh:
            g, out = request(seq[-1], kind, pa, list(roots), d)
            plt.close('all')
            _fresh[last] = out
            roots = ['r0', 'r1'] if kind == 'names' else [mk(0), mk(1)]
        args = Args()
        g = None
        before = None
        for name in seq:
            ctx.step()
            g, out = request(name, kind, pa, roots, d, g, args)
            require(roots == (['r0', 'r1'] if kind == 'names' else roots) and len(roots) == 2, 'list of roots changed by %s', name)
            require(vars(args) == vars(Args()), '%s changed its arguments: %r', name, {k: v for k, v in vars(args).items() if v != vars(Args())[k]})
            sets = {k: repr(v) for k, v in vars(g.settings).items()}
            require(g.settings.plot_args == PLOT_ARGS[pa], '%s changed settings.plot_args to %r', name, g.settings.plot_args)
            if before is not None:
                require(sets == before, '%s changed the settings: %r', name, [k for k in sets if sets[k] != before.get(k)])
            before = sets
            if kind != 'names':
                for k, s in enumerate(roots):
                    require(fingerprint(s) == fingerprint(mk(k)) and s.label == 'L%s' % k, '%s changed the samples', name)
        plt.close('all')
    compare(out, _fresh[last], '%s after %s' % (seq[-1], seq[:-1]))
    return seq[-1]


# ---- analyser
def dens(dn, likes=False):
    return None if dn is None else [num(dn.x), num(dn.P), num(dn.view_ranges)] + ([num(dn.likes)] if likes else [])


def dens2(dn, likes=False):
    return None if dn is None else [num(dn.x), num(dn.y), num(dn.P), num(dn.view_ranges), num(dn.contours)] + ([num(dn.likes)] if likes else [])


def same(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-12)
    if isinstance(a, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-9 * (abs(a) + abs(b)) or (a != a and b != b)
    return a == b


def labels(an, root, lab):
    return [(p.name, p.label, p.isDerived) for p in an.params_for_root(root, label_params=lab).names]


def par(an, root, name):
    return an.params_for_root(root).parWithName(name)


QUERY = {
    'x': lambda an, d: dens(an.get_density('r0', 'x')),
    'x info': lambda an, d: dens(an.get_density('r0', par(an, 'r0', 'x'))),
    'x likes': lambda an, d: dens(an.get_density('r0', 'x', likes=True), True),
    'r1 x': lambda an, d: dens(an.get_density('r1', 'x')),
    'missing': lambda an, d: dens(an.get_density('r0', 'nothing')),
    'xy': lambda an, d: dens2(an.get_density_grid('r0', par(an, 'r0', 'x'), par(an, 'r0', 'y'))),
    'yx': lambda an, d: dens2(an.get_density_grid('r0', par(an, 'r0', 'y'), par(an, 'r0', 'x'))),
    'xy 1': lambda an, d: dens2(an.get_density_grid('r0', par(an, 'r0', 'x'), par(an, 'r0', 'y'), conts=1)),
    'xy likes': lambda an, d: dens2(an.get_density_grid('r0', par(an, 'r0', 'x'), par(an, 'r0', 'y'), likes=True), True),
    'single': lambda an, d: num(an.load_single_samples('r0')),
    'labels': lambda an, d: labels(an, 'r0', None),
    'new labels': lambda an, d: labels(an, 'r0', os.path.join(d, 'other.paramnames')),
    'bounds': lambda an, d: [an.bounds_for_root('r0').getLower('z'), an.bounds_for_root('r0').getUpper('z'), an.bounds_for_root('r0').getLower('x')],
    'samples': lambda an, d: num(an.samples_for_root('r0').samples),
    'marge': lambda an, d: [num([p.mean, p.err] + [l.lower for l in p.limits] + [l.upper for l in p.limits]) for p in an.samples_for_root('r0').getMargeStats().names],
}
NEWSET = dict(SET, smooth_scale_1D=0.6, fine_bins_2D=48)
RELOAD = {'smooth_scale_1D': 0.15}
CHANGE = [['reset'], ['reset', 1], ['remove', 'r0'], ['remove', 'r1'], ['reload', 'r0'], ['reload+', 'r0'], ['files', 'reset'], ['files', 'remove'], ['files', 'reload'], ['add']]
_an_fresh = {}


def an_dir(ctx, version):
    d = os.path.join(ctx.scratch, 'an%s_%s' % (os.getpid(), version))
    if not os.path.isdir(d):
        os.makedirs(d)
        files(d, version=version)
        write(os.path.join(d, 'other.paramnames'), 'x X_{new}\nz* Z_{new}\n')
    return d


def an_fresh(ctx, st):
    """answers of a new analyser for each query in the state (files version, settings per root)"""
    key = repr(st)
    if key not in _an_fresh:
        d = an_dir(ctx, st['v'])
        _an_fresh[key] = {}
        for q, f in QUERY.items():
            an = plots.MCSampleAnalysis(d, settings=NEWSET if st['s'] else SET)
            for r in ('r0', 'r1'):
                if st['x'][r]:
                    an.samples_for_root(r, settings=RELOAD)
            np.random.seed(1)
            _an_fresh[key][q] = f(an, d)
    return _an_fresh[key]


def an_build(ctx, config, hist):
    st = dict(v=0, s=0, x={'r0': 0, 'r1': 0}, loaded=[])
    d = ctx.newdir('h')
    with quiet():
        files(d, mtime=1.5e9)
        write(os.path.join(d, 'other.paramnames'), 'x X_{new}\nz* Z_{new}\n')
        an = plots.MCSampleAnalysis(d, settings=dict(SET))
        for n, op in enumerate(hist):
            ctx.step()
            if op[0] == 'q':
                np.random.seed(1)
                got = QUERY[op[1]](an, d)
                exp = an_fresh(ctx, {k: st[k] for k in 'vsx'})[op[1]]
                require(same(got, exp), '%r differs from the answer of a fresh analyser', op[1])
                r = 'r1' if op[1] == 'r1 x' else 'r0'
                if r not in st['loaded']:
                    st['loaded'] = sorted(st['loaded'] + [r])
                continue
            if op[0] == 'add':
                an.add_root(os.path.join(d, 'r1'))
                an.add_chain_dir(d)
                st['loaded'] = sorted(set(st['loaded'] + ['r1']))
                continue
            if op[0] == 'files':
                st['v'] += 1
                files(d, version=st['v'], mtime=1.5e9 + 100 * st['v'])
                if op[1] == 'reset':
                    an.reset(dict(NEWSET if st['s'] else SET))
                else:
                    for r in ('r0', 'r1'):
                        if op[1] == 'remove':
                            an.remove_root(r)
                        else:
                            an.samples_for_root(r, cache=False)
                st['x'] = {'r0': 0, 'r1': 0}
                st['loaded'] = ['r0', 'r1'] if op[1] == 'reload' else []
            elif op[0] == 'reset':
                if len(op) > 1:
                    an.reset(dict(NEWSET))
                    st['s'] = 1
                else:
                    an.reset(dict(SET))
                    st['s'] = 0
                st['x'] = {'r0': 0, 'r1': 0}
                st['loaded'] = []
            elif op[0] == 'remove':
                an.remove_root(op[1])
                st['x'][op[1]] = 0
                st['loaded'] = [r for r in st['loaded'] if r != op[1]]
            elif op[0] in ('reload', 'reload+'):
                an.samples_for_root(op[1], cache=False, settings=dict(RELOAD) if op[0] == 'reload+' else None)
                st['x'][op[1]] = int(op[0] == 'reload+')
                st['loaded'] = sorted(set(st['loaded'] + [op[1]]))
        import shutil
        shutil.rmtree(d)
    # which answers were asked since their cache was last cleared determines what may be stale
    asked = []
    for op in hist:
        asked = asked + [op[1]] if op[0] == 'q' else (asked if op[0] in ('add',) else asked + ['!' + ' '.join(map(str, op))])
    return dict(st=st, asked=sorted(set(asked)) + asked[-2:], v=st['v'], n=len(hist))


def an_events(depth):
    def events(st):
        ev = [['q', q] for q in QUERY]
        if st['n'] < depth - 1:  # a change that nothing is asked after is of no interest
            ev += [c for c in CHANGE if c[0] != 'files' or st['v'] < 1]
        return ev
    return events


def an_key(st):
    return dict(st, n=0)


# ---- sample objects: queries are pure
def marge(s):
    return [[p.name] + num([p.mean, p.err]).tolist() + [[l.lower, l.upper, l.onetail_lower, l.onetail_upper] for l in p.limits] for p in s.getMargeStats().names]


def lstats(s):
    m = s.getLikeStats()
    return [float(m.logLike_sample), float(m.logMeanLike), float(m.complexity), int(m.ND_cont1), int(m.ND_cont2)] + [num(p.ND_limit_bot).tolist() + [float(p.bestfit_sample)] for p in m.names]


SQ = {
    'x': lambda s: dens(s.get1DDensity('x')),
    'z': lambda s: dens(s.get1DDensity('z')),
    'x smooth': lambda s: dens(s.get1DDensity('x', smooth_scale_1D=0.5, fine_bins=100)),
    'x grid likes': lambda s: dens(s.get1DDensityGridData('x', meanlikes=True), True),
    'xy': lambda s: [num(a) for a in (lambda q: (q.x, q.y, q.P))(s.get2DDensity('x', 'y'))],
    'xy norm': lambda s: [num(a) for a in (lambda q: (q.x, q.y, q.P))(s.get2DDensity('x', 'y', normalized=True))],
    'xz likes': lambda s: dens2(s.get2DDensityGridData('x', 'z', meanlikes=True, num_plot_contours=1), True),
    'marge': marge,
    'likes': lstats,
    'latex': lambda s: [s.getInlineLatex('x'), s.getInlineLatex('z', limit=2), s.getLatex(limit=2, err_sig_figs=1)],
    'table': lambda s: s.getTable(limit=1).tableTex(),
    'converge': lambda s: s.getConvergeTests(),
    'pca': lambda s: s.PCA(['x', 'y'], param_map='NN'),
    'cov': lambda s: [num(s.getCov()), num(s.getCorrelationMatrix()), num(s.cov(['x', 'z']))],
    'stats': lambda s: [num(s.mean(['x', 'z'])), num(s.std('y')), num(s.confidence('x', .1)), num(s.twoTailLimits('y', .9)), float(s.get_norm()), float(s.getEffectiveSamples(1))],
    'neff': lambda s: [float(s.getEffectiveSamplesGaussianKDE('x')), float(s.getEffectiveSamplesGaussianKDE_2d('x', 'y')), float(s.getCorrelationLength('x'))],
    'corr plots': lambda s: s.getCorrelatedVariable2DPlots(),
    'dict': lambda s: [sorted(s.getParamSampleDict(3).items()), sorted(s.getParamBestFitDict(best_sample=True).items())],
    'bounds': lambda s: [sorted((p.name, s.getLower(p.name), s.getUpper(p.name)) for p in s.paramNames.names), sorted(s.getBounds().lower.items()), sorted(s.getBounds().upper.items())],
    'numbers': lambda s: [l for l in s.getNumSampleSummaryText().splitlines() if 'corr length' not in l],  # given once convergence tests were done
    'summary': lambda s: [s.getLabel(), s.getName()],
    'chains': lambda s: [num(c.samples) for c in s.getSeparateChains()],
}
SM = {
    'smooth': lambda s: s.updateSettings({'smooth_scale_1D': 0.5}),
    'auto': lambda s: s.updateSettings({'smooth_scale_1D': -1, 'smooth_scale_2D': -1}),
    'contours': lambda s: s.updateSettings({'contours': '0.5 0.8 0.9'}),
    'copy': lambda s: s.copy(settings={'fine_bins': 150}),
    'range': lambda s: s.setRanges({'x': [float(min(s['x'])), 6]}),
    'unit': lambda s: s.reweightAddingLogLikes(0.3 * s['x'] ** 2),
    'derived': lambda s: s.addDerived(s['x'] + s['y'] ** 2, 'd', label='D', range=[None, 60]),
    'cut': lambda s: s.filter(s['x'] > -1),
}


def sam_build(ctx, config, hist, record=None):
    warnings.simplefilter('ignore')
    with quiet():
        s = mk(0, split=True)
        for op in hist:
            ctx.step()
            if op in SQ:
                SQ[op](s)
            else:
                r = SM[op](s)
                if op == 'copy':
                    s = r
    return s


_sam = {}


def sam_gen(seqs):
    def gen():
        for seq in seqs():
            yield seq
    return gen


def sam_seqs(depth):
    """all sequences ending in queries: depth-1 operations, then a query; at most two changes"""
    def gen():
        ops = list(SQ) + list(SM)
        for seq in itertools.product(ops, repeat=depth - 1):
            if len(set(x for x in seq if x in SM)) == len([x for x in seq if x in SM]):
                yield list(seq)
    return gen


def sam_check(ctx, case):
    """after the history, every query is answered as by an object on which only the changes were made, and the earlier objects are unaffected by changes to copies"""
    with quiet():
        muts = [op for op in case if op in SM]
        key = repr(muts)
        if key not in _sam:
            _sam[key] = {}
            for q in SQ:
                s = sam_build(ctx, None, muts)
                _sam[key][q] = SQ[q](s)
        s = sam_build(ctx, None, case)
        for q in SQ:
            got = SQ[q](s)
            require(same(got, _sam[key][q]), '%s after %r differs from that of a fresh object', q, case)
    return key


# ---- settings: any sequence of updates gives the object that has the resulting settings from the start
ST = {
    'smooth': {'smooth_scale_1D': 0.5}, 'auto': {'smooth_scale_1D': -1, 'smooth_scale_2D': -1}, 'contours': {'contours': '0.5 0.8 0.9'}, 'contours2': {'contours': [0.3, 0.95]},
    'marker': {'marker[x]': 0.5, 'marker[z]': 1}, 'nomarker': {'marker[x]': ''}, 'limits': {'limits[x]': '-6 6', 'limits[y]': 'N 5'}, 'limits2': {'limits[x]': '-5 7'},
    'order': {'boundary_correction_order': 0, 'mult_bias_correction_order': 0}, 'bins': {'fine_bins': 150, 'fine_bins_2D': 50, 'num_bins': 30}, 'twotail': {'force_twotail': True},
    'ranges': {'!': {'x': [-3.5, 6], 'y': (None, 4.5)}}, 'ranges2': {'!': [[-4, 5], [-5, 6], [0, 7]]},
    'frac': {'max_frac_twotail1': 2, 'credible_interval_threshold': 0.5}, 'range': {'range_ND_contour': 1, 'range_confidence': 0.02}, 'scatter': {'max_scatter_points': 7, 'converge_test_limit': 0.8},
}
STQ = ['x', 'z', 'x smooth', 'xz likes', 'marge', 'likes', 'latex', 'converge', 'bounds', 'corr plots']


def st_answers(s):
    np.random.seed(1)
    return [SQ[q](s) for q in STQ] + [sorted(s.markers.items()), num(s.contours), num(s.max_frac_twotail), float(s.converge_test_limit), num(s.makeSingleSamples(random_state=3))]


def st_gen(depth):
    def gen():
        for r in range(1, depth + 1):
            for seq in itertools.permutations(ST, r):
                if r > 2 and not ('limits' in seq or 'marker' in seq or 'contours' in seq):
                    continue
                for how in ('update', 'query', 'copy', 'later') if r <= 2 else ('query',):
                    yield [list(seq), how]
    return gen


def st_check(ctx, case):
    seq, how = case
    warnings.simplefilter('ignore')
    merged = {}
    with quiet():
        s = mk(0, split=True)
        first = s
        asked = st_answers(s) if how in ('query', 'copy') else None
        for k in seq:
            ctx.step()
            given = dict(ST[k])
            if '!' in given:
                rng = copy.deepcopy(given['!'])
                s = s.copy() if how == 'copy' else s
                s.setRanges(rng)
                require(rng == given['!'], 'the ranges given were changed to %r', rng)
                merged['!' + k] = rng
                if how == 'query':
                    st_answers(s)
                continue
            if how == 'copy':
                s = s.copy(settings=given)
            elif how == 'later':
                s.updateSettings(given, doUpdate=False)
            else:
                s.updateSettings(given)
            require(given == ST[k], 'the settings given were changed to %r', given)
            merged.update(ST[k])
            if how == 'query':
                st_answers(s)
        if how == 'later':
            s.updateBaseStatistics()
        rngs = [(k, merged.pop(k)) for k in list(merged) if k[0] == '!']
        if rngs:
            fresh = mk(0, split=True, **{k: v for k, v in merged.items() if not k.startswith('limits')})
            for k in seq:  # in the order given, on a new object that has answered nothing
                if '!' in ST[k]:
                    fresh.setRanges(ST[k]['!'])
                else:
                    fresh.updateSettings({q: v for q, v in ST[k].items() if q.startswith('limits')}, doUpdate=False)
                    fresh._initLimits(fresh.ini)
            fresh.updateSettings(merged)
        else:
            fresh = mk(0, split=True, **merged)
        want = st_answers(fresh)
        got = st_answers(s)
        for q, a, b in zip(STQ + ['markers', 'contours', 'max_frac_twotail', 'converge_test_limit', 'single samples'], got, want):
            require(same(a, b), '%s after settings %r (%s) differs from that of an object created with these settings', q, seq, how)
        require(s.markers == {k[7:-1]: float(v) for k, v in merged.items() if k.startswith('marker') and v != ''}, 'markers %r with %r', s.markers, merged)
        if 'contours' in merged:
            c = merged['contours']
            require(np.allclose(s.contours, [float(v) for v in c.split()] if isinstance(c, str) else c), 'contours %r', s.contours)
        if how == 'copy':
            for q, a, b in zip(STQ, asked, st_answers(first)):
                require(same(a, b), '%s of the original is changed by settings %r for a copy', q, seq)
            # changes to the copy leave the original alone, and the other way round
            names = first.paramNames.list()
            s.addDerived(s['x'] * 2, 'new', label='N')
            s.setRanges({'y': [-9, 9]})
            s.paramNames.parWithName('x').label = 'changed'
            s.weights[3] *= 2
            s.samples[4, 1] += 1
            s.filter(s['x'] > 0)
            first.updateBaseStatistics()
            require(first.paramNames.list() == names and first.paramNames.parWithName('x').label == 'X', 'the names or labels of the original follow those of the copy')
            for q, a, b in zip(STQ, asked, st_answers(first)):
                require(same(a, b), '%s of the original is changed by changes to its copy', q)
    return repr(seq)


def ini_gen():
    for n in (1, 2, 3):
        for vals in itertools.product(['0.4', '0.68', '0.9'], repeat=n):
            if list(vals) == sorted(set(vals)):
                for form in ('num', 'list'):
                    for frac in itertools.product([None, 0.3], repeat=n):
                        yield [list(vals), form, list(frac)]


def ini_check(ctx, case):
    """contours of a settings file, in both forms"""
    vals, form, frac = case
    from getdist.inifile import IniFile
    fn = os.path.join(ctx.scratch, 'set%s.ini' % os.getpid())
    lines = ['ignore_rows = 0'] + (['contours = ' + ' '.join(vals)] if form == 'list' else ['num_contours = %s' % len(vals)] + ['contour%s = %s' % (i + 1, v) for i, v in enumerate(vals)])
    lines += ['max_frac_twotail%s = %s' % (i + 1, f) for i, f in enumerate(frac) if f is not None]
    write(fn, '\n'.join(lines) + '\n')
    from scipy.stats import norm
    want = [f if f is not None else float(np.exp(-norm.ppf((1 - float(v)) / 2) ** 2 / 2)) for f, v in zip(frac, vals)]
    x, w, ll = data(0)
    with quiet():
        for ini in (fn, IniFile(fn)):
            s = MCSamples(samples=x, weights=w, names=['x', 'y', 'z'], ini=ini)
            ctx.step()
            require(np.allclose(s.contours, [float(v) for v in vals]), 'contours %r from %r', s.contours, lines)
            require(np.allclose(s.max_frac_twotail, want), 'fractions for two-tail limits %r from %r', s.max_frac_twotail, lines)
            require(not isinstance(ini, IniFile) or sorted(ini.params) == sorted(l.split(' = ')[0] for l in lines), 'the settings object was changed')
            require(len(s.getMargeStats().names[0].limits) == len(vals), 'number of limits')
    return repr(vals)


def scenarios(tier):
    deep = tier == 'thorough'
    kinds = [('objects', 'none'), ('names', 'none'), ('objects', 'dict'), ('objects', 'list')] + ([('names', 'ls')] if deep else [])
    sc = [
        Enum('plots', plot_gen(2, kinds, deep), plot_check, timeout=120),
        Bfs('analyser', lambda: [0], an_build, an_events(4 if deep else 3), an_key, 4 if deep else 3, timeout=120),
        Enum('settings', st_gen(3 if deep else 2), st_check, timeout=120),
        Enum('ini', ini_gen, ini_check, timeout=120),
        Enum('samples', sam_gen(sam_seqs(4 if deep else 3)), sam_check, timeout=120),
    ]
    return sc
