"""Plot script for grids: every figure requested, of exactly the selected runs, in its own file."""
import contextlib
import inspect
import itertools
import os
import shutil

import numpy as np

from mc import gridlib
from mc.core import Enum, require
from mc.gridlib import quiet, write
import matplotlib
matplotlib.use('agg')
import matplotlib.pyplot as plt
from getdist import plots
from paramgrid import batchjob

PROPERTY = 'C35'
LEVEL = 'model_checking'
RULE = ('plots: every comparison mode x kind of figure x selection of runs x missing chains in the alphabet, and every pair of further options (output types and tags, labels, columns, sizes), on a grid with three models and five data combinations: '
        'the sequence of figures (runs in order, parameters, options, output file) requested from the plotter is compared with a plain statement of the option meanings; real: figures made from real chains for every mode and kind')
ASSUMPTIONS = ['the contents of each figure are those of the plotting functions (C30)']

SPEC = {'groups': [{'name': 'main', 'params': [[], ['nnu'], ['mnu', 'nnu']], 'data': [[['D1'], None, None], [['D2'], None, None], [['D2', 'D1'], None, None], [['D0'], None, None]],
                    'imp': [{'names': ['D3'], 'inis': ['d3.ini'], 'form': 'setting', 'want': ['data', 'D2'], 'dist': {}, 'min': True},
                            {'names': ['D4'], 'inis': ['d4.ini'], 'form': 'setting', 'want': ['data', 'D1'], 'dist': {}, 'min': True}]}]}
LACKS = {'none': [], 'some': ['base_D1', 'base_nnu_D2', 'base_D2_post_D3', 'base_mnu_nnu_D1_post_D4'], 'more': ['base_D2', 'base_nnu_D1', 'base_nnu_D2_D1_post_D3', 'base_mnu_nnu_D2', 'base_mnu_nnu_D2_D1']}


def world(ctx, lack, real=False):
    d = ctx.scratch + '/grid/'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + 'config')
    b = batchjob.batchJob(d, 'ini/')
    with quiet():
        b.makeItems(gridlib.mk_settings(SPEC))
    b.save()
    items = list(gridlib.walk(gridlib.ref_expand(SPEC, d)))
    for i, it in enumerate(items):
        it['normed'] = '_'.join(sorted(it['names']))
        it['exists'] = it['name'] not in LACKS[lack]
        if not it['exists']:
            continue
        write(it['chainRoot'] + '.paramnames', 'pa A\npb B\npc* C\n')
        if real:
            r = np.random.RandomState(i)
            for k in (1, 2):
                np.savetxt(it['chainRoot'] + '_%d.txt' % k, np.column_stack([np.ones(40), r.rand(40), r.standard_normal((40, 3)) + i]))
        else:
            write(it['chainRoot'] + '_1.txt', '1 2 3 4 5\n')
    write(ctx.scratch + '/list.paramnames', 'pb x\npc y\n')
    return d, items


MODES = {'single': [], 'alldata': ['--compare_alldata'], 'data2': ['--compare_data', 'D1', 'D2'], 'data_order': ['--compare_data', 'D1_D2', 'D2', 'D9'], 'data_post': ['--compare_data', 'D2', 'D2_post_D3', 'D1_D3_D2'],
         'repl': ['--compare_replacing', 'D1', 'D2'], 'repl3': ['--compare_replacing', 'D2', 'D1', ''], 'repl_new': ['--compare_replacing', 'D3', 'D4', 'D2'], 'repl_del': ['--compare_replacing', 'D2', ''], 'imp': ['--compare_importance'], 'imp_tag': ['--compare_importance', 'D4'], 'imp_both': ['--compare_importance', 'D3', 'D4'],
         'par': ['--compare_paramtag', 'base_nnu'], 'par2': ['--compare_paramtag', 'base_nnu', 'base'], 'par_order': ['--compare_paramtag', 'base_nnu', 'base_mnu_nnu', 'base_w']}
KINDS = {'1d': [], '2d': ['--D2_param', 'pa'], '2dy': ['--D2_param', 'pa', '--D2_y_params', 'pc', 'pb'], 'tri': ['--tri_params', 'pb', 'pa'], 'list': ['--param_list', '@list.paramnames']}
SELS = {'all': [], 'noimp': ['--noimportance'], 'D2': ['--data', 'D2'], 'D1D3': ['--data', 'D1', 'D3'], 'nnu': ['--param', 'nnu'], 'tag': ['--paramtag', 'base_nnu', 'base'], 'skip': ['--skip_data', 'D1'], 'imponly': ['--importance', 'D3']}
EXTRA = {'filled': ['--filled'], 'nx': ['--nx', '3'], 'labels': ['--legend_labels', 'one', 'two words'], 'ncol': ['--legend_ncol', '3'], 'out2': ['--outputs', 'png', 'pdf'], 'tag': ['--outtag', 'T_1'], 'size': ['--size_inch', '3.25'], 'allhave': ['--allhave'], 'sub': []}


def plot_gen(tier):
    def gen():
        for mode, kind, sel, lack in itertools.product(MODES, KINDS, SELS, LACKS):
            if tier == 'quick' and kind in ('2dy', 'list') and (sel != 'all' or lack == 'more'):
                continue
            yield [mode, kind, sel, lack, []]
        for mode, kind in itertools.product(MODES, KINDS):
            for n in (1, 2):
                for ex in itertools.combinations(EXTRA, n):
                    if tier == 'quick' and n == 2 and kind in ('2dy', 'list'):
                        continue
                    for sel, lack in [('all', 'none'), ('D2', 'some')] if n == 1 or tier != 'quick' else [('D2', 'some')]:
                        yield [mode, kind, sel, lack, list(ex)]
    return gen


def selected(it, sel, mode):
    names = it['names']
    if not it['exists']:
        return False
    data = {'D2': ['D2'], 'D1D3': ['D1', 'D3']}.get(sel)
    if mode.startswith('repl'):
        data = (data or []) + MODES[mode][1:]
    if data and not set(data) & set(names):
        return False
    if sel == 'noimp':
        return not it['imp']
    if sel == 'nnu':
        return 'nnu' in it['params']
    if sel == 'tag':
        return it['paramtag'] in ('base_nnu', 'base')
    if sel == 'skip':
        return 'D1' not in names
    if sel == 'imponly':
        return it['imp'] and 'D3' in it['names']
    return True


def norm_tag(tag):
    return '_'.join(sorted(x for x in tag.split('_') if x != 'post'))


def expected(items, mode, kind, sel, extra):
    """list of (runs, output file without extension)"""
    tp = ''
    if sel == 'D2':
        tp = '_D2'
    if 'tag' in extra:
        tp = '_T_1' + tp
    if kind in ('2d', '2dy'):
        tp = '_pa_2D' + tp
    elif kind == 'tri':
        tp = '_tri' + tp
    allhave = 'allhave' in extra
    sel = [it for it in items if selected(it, sel, mode)]
    out = []
    for tag in sorted(set(it['paramtag'] for it in sel)):
        here = [it for it in sel if it['paramtag'] == tag]

        def find(tags):
            return [it for t in tags for it in here if it['datatag'] == t or it['normed'] == norm_tag(t)]
        opt = MODES[mode][1:]
        if mode == 'single':
            out += [([it['name']], it['name'] + tp) for it in here]
        elif mode == 'alldata':
            out.append(([it['name'] for it in here], tag + tp))
        elif mode.startswith('data'):
            got = find(opt)
            if got and not (allhave and len(got) != len(opt)):
                out.append(([it['name'] for it in got], tag + tp))
        elif mode.startswith('repl'):
            for it in here:
                if opt[0] not in it['names']:
                    continue
                tags = [it['datatag']] + ['_'.join(sorted(x for x in [r if n == opt[0] else n for n in it['names']] if x)) for r in opt[1:]]
                got = find(tags)
                if len(got) > 1 and not (allhave and len(got) != len(opt)):
                    out.append(([g['name'] for g in got], it['name'] + '-vs-' + '-'.join(opt[1:]) + tp))
        elif mode.startswith('imp'):
            for it in here:
                if not it['imp']:
                    out.append(([it['name']] + [c['name'] for c in it['children'] if c['exists'] and (not opt or c['importanceTag'] in opt)], it['name'] + tp))
        else:
            for it in here:
                if it['paramtag'] in opt:
                    continue
                got = [x for t in opt for x in items if x['paramtag'] == t and x['normed'] == it['normed'] and x['exists']]
                if got:
                    out.append(([it['name']] + [g['name'] for g in got], it['name'] + '-vs-' + '-'.join(opt) + tp))
    return out


@contextlib.contextmanager
def recording(log, real=False):
    cls = plots.GetDistPlotter
    names = ['plots_1d', 'plots_2d', 'triangle_plot', 'export']
    keep = {n: cls.__dict__[n] for n in names}

    def wrap(n):
        orig = keep[n]
        sig = inspect.signature(orig)

        def f(self, *a, **kw):
            b = sig.bind(self, *a, **kw)
            args = {k: v for k, v in b.arguments.items() if k != 'self'}
            args.update(args.pop('kwargs', {}))
            if real:
                res = orig(self, *a, **kw)
                log.append((n, args, self.chain_dir, np.count_nonzero(self.subplots) if n != 'export' else 0))
                return res
            log.append((n, args, self.chain_dir, dict(self.settings.__dict__)))
        return f
    try:
        for n in names:
            setattr(cls, n, wrap(n))
        yield
    finally:
        for n in names:
            setattr(cls, n, keep[n])
        plt.close('all')


def arguments(ctx, d, case):
    mode, kind, sel, lack, extra = case
    out = ctx.scratch + ('/sub/dir/out' if 'sub' in extra else '/out')
    shutil.rmtree(ctx.scratch + '/out', ignore_errors=True)
    shutil.rmtree(ctx.scratch + '/sub', ignore_errors=True)
    args = [d, out] + MODES[mode] + [x.replace('@', ctx.scratch + '/') for x in KINDS[kind]] + SELS[sel] + [x for e in extra for x in EXTRA[e]]
    return args, out


def check_figs(log, case, d, want, out, exts):
    mode, kind, sel, lack, extra = case
    figs, cur = [], None
    for n, a, chain_dir, st in log:
        if n == 'export':
            require(cur is not None, 'exported %r before any plot', a)
            cur[2].append(os.path.abspath(a['fname']))
        else:
            cur = (n, a, [], chain_dir, st)
            figs.append(cur)
    require([list(f[1]['roots']) for f in figs] == [list(w[0]) for w in want], 'figures of the runs %r, expected %r', [f[1]['roots'] for f in figs], [w[0] for w in want])
    for (n, a, files, chain_dir, st), (roots, f) in zip(figs, want):
        require(files == [os.path.join(out, f + '.' + e) for e in exts], 'figure of %r written to %r, expected %r with %r', roots, files, f, exts)
        require(os.path.normpath(chain_dir) == os.path.normpath(d), 'chains from %r', chain_dir)
        require(n == {'1d': 'plots_1d', 'list': 'plots_1d', 'tri': 'triangle_plot'}.get(kind, 'plots_2d'), 'figure made by %s', n)
        labels = ['one', 'two words'] if 'labels' in extra else None
        require(a.get('legend_labels') == labels, 'legend labels %r', a.get('legend_labels'))
        ncol = 3 if 'ncol' in extra else 2 if len(roots) > 2 else 1
        if n != 'triangle_plot':
            require(a.get('legend_ncol') == ncol and a.get('nx') == (3 if 'nx' in extra else None), 'legend columns %r, subplots per row %r', a.get('legend_ncol'), a.get('nx'))
        if n == 'plots_1d':
            require(a.get('params') is None, 'parameters %r', a.get('params'))
            p = a.get('param_list') or a.get('paramList')
            require((p is not None) == (kind == 'list') and (p is None or p.endswith('/list.paramnames')), 'list of parameters %r', p)
        elif n == 'plots_2d':
            require(a.get('param1') == 'pa' and a.get('params2') == (['pc', 'pb'] if kind == '2dy' else None) and bool(a.get('filled')) == ('filled' in extra), '2D figure with %r', a)
        else:
            require(a.get('params') == ['pb', 'pa'] and bool(a.get('filled') or a.get('filled_compare')) == ('filled' in extra), 'triangle figure with %r', a)


def plot_check(ctx, case):
    mode, kind, sel, lack, extra = case
    if getattr(ctx, '_lack', None) != (lack, False):
        ctx._grid = world(ctx, lack)
        ctx._lack = (lack, False)
    d, items = ctx._grid
    args, out = arguments(ctx, d, case)
    log = []
    ctx.step()
    with recording(log):
        gridlib.run_script('makePlots.py', args, ctx.scratch)
    want = expected(items, mode, kind, sel, extra)
    require(os.path.isdir(out) or not want, 'no output directory')
    check_figs(log, case, d, want, out, ['png', 'pdf'] if 'out2' in extra else ['pdf'])
    if 'size' in extra and log:
        ref = plots.GetDistPlotSettings()
        ref.set_with_subplot_size(3.25)
        for x in log:
            require(repr(sorted(x[3].items())) == repr(sorted(ref.__dict__.items())), 'settings are not those for the subplot size asked for')
    return len(want), repr(want)


def real_gen(tier):
    def gen():
        for i, mode in enumerate(MODES):
            for j, kind in enumerate(KINDS):
                if tier != 'quick' or (i + j) % len(KINDS) == 0:
                    yield [mode, kind, 'all', 'some', []]
        yield ['imp', '2d', 'D2', 'more', ['out2', 'filled', 'nx']]
        yield ['par2', 'tri', 'D2', 'more', ['out2', 'filled']]
        yield ['repl', 'list', 'all', 'none', ['size', 'tag']]
    return gen


def real_check(ctx, case):
    mode, kind, sel, lack, extra = case
    if getattr(ctx, '_lack', None) != (lack, True):
        ctx._grid = world(ctx, lack, True)
        ctx._lack = (lack, True)
    d, items = ctx._grid
    args, out = arguments(ctx, d, case)
    if kind == '1d' and sel == 'all':
        args += ['--data', 'D1']
        sel = 'x'
        items = [it for it in items if 'D1' in it['names'] or mode.startswith('repl')]
    log = []
    ctx.step()
    with recording(log, True), quiet():
        gridlib.run_script('makePlots.py', args, ctx.scratch)
    want = expected(items, mode, kind, sel, extra)
    if sel == 'x':
        want = [(r, f.split('_tri')[0]) for r, f in want]
        want = [(r, f + '_D1') for r, f in want]
    exts = ['png', 'pdf'] if 'out2' in extra else ['pdf']
    check_figs(log, case, d, want, out, exts)
    for x in log:
        n = {'1d': 3, 'list': 2, 'tri': 3, '2d': 2, '2dy': 2}[kind]
        require(x[0] == 'export' or x[3] == n, '%s subplots in a figure, expected %s', x[3], n)
    files = sorted(os.listdir(out)) if os.path.isdir(out) else []
    require(files == sorted(f + '.' + e for _, f in want for e in exts), 'files made: %r, expected %r', files, want)
    for f in files:
        with open(os.path.join(out, f), 'rb') as h:
            head = h.read(8)
        require(head.startswith(b'%PDF') if f.endswith('pdf') else head[1:4] == b'PNG', 'file %s', f)
    return files


def scenarios(tier):
    return [Enum('plots', plot_gen(tier), plot_check, timeout=60), Enum('real', real_gen(tier), real_check, timeout=120)]
