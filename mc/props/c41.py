"""Planck-style plotters and tables: samples, best fits and items found by tags, output files, settings whatever was made before, and table layout."""
import copy
import itertools
import logging
import os
import re

import numpy as np

from mc.core import Enum, require
from mc.gridlib import quiet, write
import matplotlib
matplotlib.use('agg')
from getdist.types import BestFit, MargeStats, NoLineTableFormatter, ResultTable
from getdist.paramnames import ParamInfo
from mc.props import c35, c16

PROPERTY = 'C41'
LEVEL = 'model_checking'
RULE = ('roots: every order of every set of model and data tags against the items of a grid, by name and by tags; history: every sequence of plotter constructors up to the depth, the settings of each compared with those made first; '
        'tables: every number of parameters, results, columns, limits and best fits; export: every name, directory and tag')
ASSUMPTIONS = ['matplotlib does not run LaTeX (text.usetex is switched off before saving)', 'the grid is that of C35']
logging.disable(logging.WARNING)
_c = {}


def style():
    import planckStyle
    return planckStyle


def world(ctx):
    if 'w' not in _c:
        d, items = c35.world(ctx, 'none', True)
        for i, it in enumerate(items):
            write(it['chainRoot'] + '.minimum', ' -log(Like) = %s\n chi-sq = %s\n\n 1  %s  pa  A\n 2 %s pb B\n\n' % (5 + i, 10 + 2 * i, 0.5 * i, i - 3))
            write(it['chainRoot'] + '.minimum.theory_cl', '# L TT TE EE\n2 %s 2 3\n3 4 5 6\n' % i)
        _c['w'] = d, items
        s = style()
        s.rootdir = d
        with quiet():
            _c['g'] = s.getPlotter(chain_dir=d)
    return _c['w'] + (_c['g'],)


def gen_roots():
    for n in range(3):
        for pt in itertools.permutations(['nnu', 'mnu', 'w'], n):
            for m in range(1, 4):
                for dt in itertools.permutations(['D1', 'D2', 'D3', 'D4', 'D0'], m):
                    for form in ('string', 'list'):
                        yield [list(pt), list(dt), form]


def chk_roots(ctx, case):
    pt, dt, form = case
    d, items, g = world(ctx)
    want = [it for it in items if sorted(it['name'].replace('_post', '').split('_')) == sorted(['base'] + pt + dt)]
    tag = '_'.join(pt) if form == 'string' else list(pt)
    with quiet():
        for data in ('_'.join(dt),) + (('_'.join(dt[:-1]) + '_post_' + dt[-1],) if len(dt) > 1 else ()):
            ctx.step()
            try:
                got = g.getRoot(tag, data)
                item = g.getRoot(tag, data, returnJobItem=True)
            except Exception as e:
                require(not want and 'No match' in str(e), 'no run found for %s, %s: %s', pt, data, e)
                continue
            require(len(want) == 1, '%s found for %s, %s', got, pt, data)
            it = want[0]
            require(got == item.name == it['name'], '%s found for %s, %s', got, pt, data)
            require(os.path.normpath(item.chainRoot) == os.path.normpath(it['chainRoot']), 'root %s', item.chainRoot)
            i = items.index(it)
            for root in (it['name'], '_'.join(['base'] + sorted(pt) + sorted(dt))):
                b = g.bestfit(root)
                require(b is not None and [b.parWithName(p).best_fit for p in ('pa', 'pb')] == [0.5 * i, i - 3] and b.logLike == 5 + i, 'best fit of %s', root)
                cl = g.bestFitCls(root)
                require(cl is not None and list(cl.get((0, 0))[2:]) == [i, 4], 'best-fit spectra of %s', root)
            for smp in (g.getSamples(tag, data), g.getSamples(it['name'])):
                r = np.random.RandomState(i)
                x = np.vstack([np.column_stack([r.rand(40), r.standard_normal((40, 3)) + i])[0 if '_post_' in it['name'] else 12:, 1:] for k in (1, 2)])
                require(os.path.normpath(smp.root) == os.path.normpath(it['chainRoot']) and np.allclose(smp.samples[:, :3], x), 'samples of %s', it['name'])
            j = g.getJobItem(tag, data)
            require(j.name == it['name'] and j.result_bestfit.logLike == 5 + i, 'results of %s', it['name'])
        require(g.bestfit('base_zz') is None and g.bestFitCls('base_zz') is None, 'best fit of a run that does not exist')
    return str((len(want), form))


MAKE = {'sub': ('getSubplotPlotter', {}), 'sub3': ('getSubplotPlotter', {'subplot_size': 3}), 'single': ('getSinglePlotter', {}), 'single5': ('getSinglePlotter', {'width_inch': 5, 'ratio': 1.}),
        'w1': ('getPlotterWidth', {}), 'w3': ('getPlotterWidth', {'size': 3}), 'w100': ('getPlotterWidth', {'size': 100, 'axes_fontsize': 7}), 'wsub': ('getPlotterWidth', {'subplot_size': 4}), 'plain': ('getPlotter', {})}


def gen_history(tier):
    def gen():
        for n in range(1, 4 if tier == 'quick' else 5):
            for h in itertools.product(MAKE, repeat=n):
                yield list(h)
    return gen


def settings(g):
    return {k: copy.deepcopy(v) for k, v in vars(g.settings).items()}


def chk_history(ctx, h):
    from matplotlib import pyplot as plt
    s = style()
    if 's0' not in _c:
        _c['s0'] = copy.deepcopy(vars(s.s))
        _c['first'] = {}

    def make(k):
        name, kw = MAKE[k]
        with quiet():
            g = getattr(s, name)(**dict(kw, chain_dir=ctx.scratch) if 'Width' not in name else kw)
        plt.close('all')
        return g
    for k in h:
        if k not in _c['first']:
            vars(s.s).clear()
            vars(s.s).update(copy.deepcopy(_c['s0']))
            _c['first'][k] = settings(make(k))
    vars(s.s).clear()
    vars(s.s).update(copy.deepcopy(_c['s0']))
    made = []
    for k in h:
        g = make(k)
        ctx.step()
        made.append((k, g))
        for kk, gg in made:
            now, want = settings(gg), _c['first'][kk]
            bad = sorted(q for q in want if now.get(q) != want[q])
            require(not bad and set(now) == set(want), 'settings %s of the plotter made by %s in %s are %s, made alone %s', bad, kk, h, [now.get(q) for q in bad], [want[q] for q in bad])
        require(type(g) is s.planckPlotter and s.plotter is g, 'plotter')
    for k, want in (('single', 3.464), ('single5', 5), ('w1', 88 / 25.4), ('w3', 180 / 25.4), ('w100', 100 / 25.4), ('sub', None), ('sub3', None)):
        for kk, gg in made:
            if kk == k:
                w = gg.settings.fig_width_inch
                require(w is None if want is None else abs(w - want) < 1e-6, 'width %s of %s', w, k)
    return str(len(set(h)))


def gen_tables():
    for npar in range(1, 7):
        for ncol in (1, 2, 3):
            if ncol > npar:
                continue
            for limit in (1, 2):
                for bf in (0, 1):
                    for nres in (1, 2, 3, 4):
                        for titles in (0, 1):
                            yield [npar, ncol, limit, bf, nres, titles]


def split_cells(line):
    return [c.strip() for c in line.split('&')]


def chk_tables(ctx, case):
    npar, ncol, limit, bf, nres, titles = case
    tags = ([0, 1, 2, 3, 0] * 2)[:npar]
    fn = os.path.join(ctx.newdir('t'), 't.margestats')
    res = []
    for k in range(nres):
        c16.mk(list(range(npar)), tags if k else [0] * npar, 2, 1. + k / 2.).saveAsText(fn)
        res.append(MargeStats(fn))
    if bf:
        best = BestFit()
        best.logLike = 3.5
        for i in range(npar):
            p = ParamInfo(name=c16.FORMS[i][0], derived=c16.FORMS[i][2])
            p.best_fit = 1.3 + i
            best.names.append(p)
        for m in res:
            m.addBestFit(best)
    f = style().planckStyleTableFormatter()
    names = ['T_%d' % i for i in range(nres)] if titles else None
    t = ResultTable(ncol, res, formatter=f, titles=names, limit=limit)
    text = t.tableTex()
    ctx.step()
    require(text.count('{') == text.count('}'), 'unbalanced braces')
    pre, rest = text.split(r'\halign{', 1)
    require(rest.rstrip().endswith(r'\endgroup') and r'\endPlancktable' in rest, 'table is not closed')
    preamble, body = rest.split(r'\cr', 1)
    body = body.split('} % close halign')[0]
    width = preamble.count('&') + 1
    cols = (1 + nres * (1 + bf)) * ncol
    rows = []
    for line in body.split(r'\cr'):
        line = re.sub(r'\\noalign\{(?:[^{}]|\{[^{}]*\})*\}', '', line).strip()
        if line and 'hrulefill' not in line:
            rows.append(split_cells(line))
    data = [r for r in rows if 'multispan' not in ''.join(r) and 'omit' not in ''.join(r)]
    plain = NoLineTableFormatter()
    want = []
    for i in range(npar):
        vals = [res[0].parWithName(c16.FORMS[i][0]).getLabel()]
        for m in res:
            v = m.texValues(plain, c16.FORMS[i][0], limit=limit)
            vals += list(v[1:]) + [v[0]]
        want.append([x for x in vals])
    ns = -(-npar // ncol)
    dots = lambda x: x.replace(plain.noConstraint, r'\dots') if x == plain.noConstraint else x
    require(len(data) == ns, '%s rows for %s parameters in %s columns: %s', len(data), npar, ncol, data)
    if ncol == 1:
        require(width == cols, 'the preamble has %s columns, the rows %s', width, cols)
    for r, row in enumerate(data):
        require(len(row) <= cols, 'row %s has %s cells, expected %s', row, len(row), cols)
        exp = []
        for c in range(ncol):
            k = r + c * ns
            if k < npar:
                exp += [dots(x) for x in want[k]]
        got = [re.sub(r'\\boldmath|[{}$\s]', '', x) for x in row]
        while len(got) > len(exp) and not got[-1]:
            got.pop()
        require(got == [re.sub(r'\\boldmath|[{}$\s]', '', x) for x in exp], 'row %s, expected %s', row, exp)
    return str((ncol, nres, bf))


def gen_export():
    for fname in (None, 'fig', 'fig.png', 'sub/fig.pdf', 'a.b.png'):
        for tag in (None, 'x'):
            for how in ('export', 'extra', 'do', 'dodir', 'dopath', 'doexist', 'dorel'):
                yield [fname, tag, how]


def chk_export(ctx, case):
    fname, tag, how = case
    s = style()
    import getdist
    from matplotlib import pyplot as plt
    base = ctx.newdir('e')
    cwd = os.getcwd()
    os.chdir(base)
    try:
        out = s.output_base_dir = ctx.newdir('o')
        with quiet():
            g = s.getSinglePlotter(chain_dir=ctx.scratch)
        matplotlib.rcParams['text.usetex'] = False
        kw = {'tag': tag} if how != 'extra' else {}
        saved = []
        g.fig.savefig = lambda fn, **k: saved.append((fn, os.path.isdir(os.path.dirname(fn) or '.')))
        if how == 'export':
            g.export(fname, **kw)
            adir = out + '/outputs'
        elif how == 'extra':
            g.exportExtra(fname)
            adir = out + '/plots'
        elif how == 'do':
            g.doExport(fname, **kw)
            adir = ''
        elif how == 'dodir':
            g.doExport(fname, 'mine', **kw)
            adir = out + '/mine'
        elif how == 'doexist':
            os.mkdir('there')
            g.doExport(fname, 'there', **kw)
            adir = out + '/there'
        elif how == 'dorel':
            g.doExport(fname, './p/q', **kw)
            adir = base + '/p/q'
        else:
            g.doExport(fname, base + '/p/q', **kw)
            adir = base + '/p/q'
        ctx.step()
        import sys
        f = fname or os.path.basename(sys.argv[0]).replace('.py', '')
        if tag and how != 'extra':
            f += '_' + tag
        if '.' not in f:
            f += '.' + getdist.default_plot_output
        want = f if '/' in f else os.path.join(adir, f)
        require(len(saved) == 1 and os.path.abspath(saved[0][0]) == os.path.abspath(want) and saved[0][1], 'saved as %s, expected %s', saved, want)
    finally:
        os.chdir(cwd)
        plt.close('all')
    return how


def scenarios(tier):
    return [Enum('roots', gen_roots, chk_roots, timeout=120), Enum('history', gen_history(tier), chk_history, timeout=120), Enum('tables', gen_tables, chk_tables), Enum('export', gen_export, chk_export)]
