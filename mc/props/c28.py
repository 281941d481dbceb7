"""The command-line analysis: files written, rows used and numbers, against the library on the expected rows and plain numpy."""
import itertools
import logging
import os
import shutil
import warnings

import numpy as np

from mc.core import Enum, require
from mc.gridlib import quiet, write
import matplotlib
matplotlib.use('agg')
import getdist
from getdist import command_line, plots
from getdist.mcsamples import MCSamples

PROPERTY = 'C28'
LEVEL = 'model_checking'
RULE = ('burn: every combination of ignore_rows in the settings file, on the command line and in the chain properties, for each chain file layout; options: a base configuration and every pair of changes to the settings that select chains, cool, thin, '
        'choose outputs, plots and parameters; forms: every way of giving the root (argument, .txt, settings file, pattern, default settings, template settings, Cobaya descriptions, roots with dots); the set of files written is compared with that requested, every statistics file with the library on '
        'the rows a reference selects, means, deviations and covariances with plain numpy, and every plot script is executed against a recording plotter')
ASSUMPTIONS = ['no make_plots (plot scripts are executed with a plotter that records the requests)']
logging.disable(logging.WARNING)

NROW = {0: 41, 1: 60, 2: 47, 3: 53}
NAMES = ['x', 'y', 'z', 'f', 'd']
ANALYSIS = {'contours': '0.68 0.95 0.99', 'fine_bins': '128', 'fine_bins_2D': '64', 'num_bins': '40', 'num_bins_2D': '20'}


def chain(k):
    r = np.random.RandomState(k)
    n = NROW[k]
    x = r.standard_normal((n, 3)).dot(np.array([[1, .6, 0], [0, 1, .3], [0, 0, 1]])) + 6
    x[:5] += 3
    w = 1. + r.randint(0, 4, n)
    ll = np.sum((x - 6) ** 2, axis=1) / 2 + 10
    full = np.column_stack([w, ll, x, np.full(n, 3.5), x[:, 0] ** 2 + 2 * x[:, 1] * np.sin(x[:, 2]), np.sum((x[:, 1:] - 6) ** 2, axis=1) + 3])
    return np.array([[float('%.8e' % v) for v in row] for row in full])


CH = {k: chain(k) for k in NROW}


def make_chains(d, name, fmt, prop='none', skip=0):
    for k, c in CH.items():
        if fmt == 'one':
            fn = name + '.txt'
            if k != 1:
                continue
        elif k == 0:
            fn = name + '.txt'
            if fmt != 'zero':
                continue
        else:
            fn = '%s%s%s.txt' % (name, '_' if fmt == 'zero' else fmt, k)
        np.savetxt(os.path.join(d, fn), c[:, skip:], fmt='%.8e')
    write(os.path.join(d, name + '.paramnames'), 'x X\ny Y_1\nz \\zeta\nf F\nd* D\nchi2_A* \chi^2_A\n')
    write(os.path.join(d, name + '.ranges'), 'x 0 12\nz 3 N\nf 3.5 3.5\n')
    if prop != 'none':
        write(os.path.join(d, name + '.properties.ini'), {'removed': 'burn_removed = T\n', 'half': 'ignore_rows = 0.5\n', 'three': 'ignore_rows = 3\n'}[prop])


def rows(c, burn):
    if burn >= 1:
        return c[int(burn):]
    return c[int(round(len(c) * burn)):] if burn else c


def expected_burn(inival, cmd, prop):
    if prop == 'removed':
        return 0
    if prop == 'half':
        return 0.5
    if prop == 'three':
        return 3
    if cmd is not None:
        return float(cmd)
    return float(inival or 0)


def reference(chains, settings, cool=1., labels=None, plain=False):
    s = MCSamples(samples=[c[:, 2:] for c in chains], weights=None if plain else [c[:, 0] for c in chains], loglikes=None if plain else [c[:, 1] for c in chains], names=['x', 'y', 'z', 'f', 'd*', 'chi2_A*'], labels=labels or ['X', 'Y_1', r'\zeta', 'F', 'D', r'\chi^2_A'],
                  ranges={'x': [0, 12], 'z': [3, None], 'f': [3.5, 3.5]}, settings=dict(settings, ignore_rows=0))
    if cool != 1:
        s.cool(cool)
    s.updateBaseStatistics()
    return s


def text_of(obj, d):
    f = os.path.join(d, 'ref.tmp')
    obj.saveAsText(f)
    with open(f) as h:
        out = h.read()
    os.remove(f)
    return out


def read(f):
    with open(f) as h:
        return h.read()


def close_text(a, b):
    """same text, numbers equal up to rounding"""
    la, lb = a.splitlines(), b.splitlines()
    if len(la) != len(lb):
        return False
    for x, y in zip(la, lb):
        tx, ty = x.split(), y.split()
        if len(tx) != len(ty):
            return False
        for u, v in zip(tx, ty):
            if u == v:
                continue
            try:
                fu, fv = float(u), float(v)
            except ValueError:
                return False
            mant = u.lower().split('e')[0]
            digit = 10. ** -len(mant.split('.')[1]) if '.' in mant else 1.
            if 'e' in u.lower():
                digit *= 10. ** int(u.lower().split('e')[1])
            if not abs(fu - fv) <= max(1.5 * digit, 1e-7 * abs(fu)):
                return False
    return True


class Recorder(object):
    def __init__(self, log, chain_dir=None, **kw):
        self.log = log
        self.settings = self
        log.append(('dir', chain_dir))

    def set_with_subplot_size(self, *a):
        pass

    def plots_1d(self, roots, params=None, markers=None, **kw):
        self.log.append(('1d', roots, params, markers))

    def plots_2d(self, roots, param_pairs=None, **kw):
        self.log.append(('2d', roots, param_pairs))

    def triangle_plot(self, roots, params=None, **kw):
        self.log.append(('tri', roots, params))

    def plots_3d(self, roots, sets=None, **kw):
        self.log.append(('3d', roots, sets))

    def export(self, f, **kw):
        self.log.append(('export', f))


def run_script(f):
    log = []
    keep = plots.GetDistPlotter, plots.get_subplot_plotter
    try:
        plots.GetDistPlotter = plots.get_subplot_plotter = lambda *a, **kw: Recorder(log, *a, **kw)
        exec(compile(read(f), f, 'exec'), {})
    finally:
        plots.GetDistPlotter, plots.get_subplot_plotter = keep
    return log


def tree(d):
    out = {}
    for base, _, fs in os.walk(d):
        for f in fs:
            out[os.path.relpath(os.path.join(base, f), d)] = read(os.path.join(base, f))
    return out


def in_dir(d, func):
    old = os.getcwd()
    os.chdir(d)
    try:
        with quiet():
            return func()
    finally:
        os.chdir(old)


DEFAULT = dict(fmt='_', inival=None, cmd=None, prop='none', exclude='', first='', num='', cool='1', thin='', thincool='', no_tests='', plots_only='', pca='', pca_func='', pca_norm='', out_dir='out', out_root='', no_plots='T', plot_params='', plot2d='', tri='', p3d='',
               names='', chains='', contours='', root='arg', finish='', extra='', markers='', name='run')
DEV = [('fmt', '.'), ('fmt', 'one'), ('exclude', '2'), ('exclude', '1 3'), ('first', '2'), ('num', '2'), ('num', '1'), ('cool', '1.3'), ('cool', '0.9'), ('thin', '2'), ('thin', '3'), ('thincool', '0.7'), ('no_tests', 'T'), ('plots_only', 'T'), ('pca', 'x y'), ('pca', 'all'), ('pca', 'x y d'),
       ('pca_func', 'LNL'), ('pca_norm', 'y'), ('out_dir', ''), ('out_dir', None), ('out_root', 'other'), ('no_plots', ''), ('plot_params', 'y'), ('plot_params', 'z* x missing'), ('plot_params', '0'), ('plot2d', 'y'), ('plot2d', 'corr'), ('plot2d', 'custom'), ('tri', 'all'),
       ('tri', 'x y'), ('tri', 'x'), ('p3d', '2'), ('names', 'alt'), ('chains', 'F'), ('contours', '0.5 0.9'), ('root', 'ini'), ('root', 'txt'), ('finish', 'T'), ('inival', '0.3'), ('inival', '6'), ('prop', 'removed'), ('markers', 'T'), ('fmt', 'zero'), ('name', 'run.v1'), ('name', 'my_run-2.txt.x'), ('inival', '0.1'), ('out_dir', 'sub/out'), ('out_dir', 'sub'), ('plot_params', 'chi2* d?'), ('tri', 'c* x'), ('pca', 'x y z d chi2_A')]
PLOTDEV = ('plot_params', 'plot2d', 'tri', 'p3d', 'markers')


def configs(depth):
    for n in range(depth + 1):
        for devs in itertools.combinations(DEV, n):
            if len(set(k for k, _ in devs)) < n:
                continue
            o = dict(DEFAULT, **dict(devs))
            if o['thin'] and o['cool'] != '1' or o['chains'] and (o['cool'] != '1' or o['thin']):
                continue  # refused: thinning needs integer weights, cooling likelihoods
            if o['pca'] in ('all', 'x y z d chi2_A') and o['pca_func']:
                o['pca_func'] = 'LNLNN'
            if 'no_plots' not in dict(devs) and any(k in PLOTDEV for k, _ in devs):
                o['no_plots'] = ''
            yield o


def opt_gen(depth):
    def gen():
        for o in configs(depth):
            yield {k: v for k, v in o.items() if v != DEFAULT[k]}
    return gen


def burn_gen():
    for fmt, inival, cmd, prop in itertools.product(['_', '.', 'one'], [None, '0', '0.3', '1', '5', '0.6', '0.05'], [None, '0', '0.25', '4', '0.1', '1'], ['none', 'removed', 'half', 'three']):
        yield dict(fmt=fmt, inival=inival, cmd=cmd, prop=prop)


def settings_file(o, f, root):
    lines = []
    an = dict(ANALYSIS)
    if o['contours']:
        an['contours'] = o['contours']
    lines += ['%s = %s' % kv for kv in an.items()]

    def add(key, val):
        if val:
            lines.append('%s = %s' % (key, val))
    if o['inival'] is not None:
        lines.append('ignore_rows = ' + o['inival'])
    for key, name in dict(exclude='exclude_chain', first='first_chain', num='chain_num', cool='cool', thin='thin_factor', thincool='thin_cool', no_tests='no_tests', plots_only='plots_only', pca='PCA_params', pca_func='PCA_func',
                          pca_norm='PCA_normparam', no_plots='no_plots', plot_params='plot_params', chains='samples_are_chains', out_root='out_root').items():
        add(name, o[key])
    if o['out_dir'] is not None:
        lines.append('out_dir = ' + o['out_dir'])
    if o['plot2d'] == 'custom':
        lines += ['plot_2D_num = 3', 'plot1 = x y', 'plot2 = y missing', 'plot3 = d x']
    elif o['plot2d']:
        lines.append('plot_2D_param = ' + o['plot2d'])
    if o['tri']:
        lines += ['triangle_plot = T'] + ([] if o['tri'] == 'all' else ['triangle_params = ' + o['tri']])
    if o['p3d']:
        lines += ['num_3D_plots = 2', '3D_plot1 = x missing d', '3D_plot2 = x z d']
    if o['names']:
        lines.append('parameter_names = alt.paramnames')
    if o['finish']:
        lines.append('finish_run_command = echo %ROOTNAME% > fin.tmp')
    if o['root'] == 'ini':
        lines.append('file_root = ' + root)
    if o['markers']:
        lines.append('marker[x] = 6.5')
    write(f, '\n'.join(lines) + '\n')
    return an


def used_chains(o):
    if o['fmt'] == 'one':
        ks = [0]
    elif o['fmt'] == 'zero':
        ks = [0, 1, 2, 3]
    else:
        ks = [1, 2, 3]
    ex = [int(k) for k in o['exclude'].split()]
    ks = [k for k in ks if k not in ex and k >= int(o['first'] or 0) and (not o['num'] or k <= int(o['num']))]
    return [1 if o['fmt'] == 'one' else k for k in ks]


def weighted(chains, cool):
    a = np.concatenate(chains)
    w = a[:, 0] * np.exp(-(cool - 1) * (a[:, 1] - a[:, 1].min()))
    return a, w


def options_check(ctx, case):
    o = dict(DEFAULT, **case)
    warnings.simplefilter('ignore')
    ks = used_chains(o)
    if not ks:
        return 'none'
    d = ctx.newdir('c')
    try:
        os.mkdir(os.path.join(d, 'chains'))
        make_chains(os.path.join(d, 'chains'), o['name'], o['fmt'], o['prop'], 2 if o['chains'] else 0)
        if (o['out_dir'] or '')[:3] == 'sub':
            os.mkdir(os.path.join(d, 'sub'))
        if o['names']:
            write(os.path.join(d, 'alt.paramnames'), 'x X\ny Y_1\nz Z\nf F\nd* Dee\nchi2_A* C_A\n')
        an = settings_file(o, os.path.join(d, 'set.ini'), 'chains/' + o['name'])
        argv = ['set.ini'] + {'arg': ['chains/' + o['name']], 'txt': ['chains/%s.txt' % o['name']], 'ini': []}[o['root']] + ([] if o['cmd'] is None else ['--ignore_rows', o['cmd']])
        before = tree(d)
        ctx.step()
        out = in_dir(d, lambda: command_line.getdist_command(argv))
        after = tree(d)
        require(all(after.get(f) == v for f, v in before.items()), 'input files changed')
        new = sorted(set(after) - set(before))
        check_output(ctx, o, d, ks, an, new, out)
    finally:
        shutil.rmtree(d)
    return repr(new)


def check_output(ctx, o, d, ks, an, new, out):
    burn = expected_burn(o['inival'], o['cmd'], o['prop'])
    cool = float(o['cool'])
    chains = [rows(CH[k], burn) for k in ks]
    chains = [c for c in chains if len(c)]
    outdir = o['out_dir'] or '.'
    name = o['out_root'] or o['name']
    root = os.path.normpath(os.path.join(outdir, name))
    stats = not o['plots_only']
    want = ['.covmat', '.corr'] + (['.margestats'] + ([] if o['chains'] else ['.likestats']) if stats else []) + (['.converge'] if stats and not o['no_tests'] else [])
    if o['thin']:
        want.append('_thin.txt')
    if o['pca'] and stats:
        want.append('.PCA')
    doplot = not o['no_plots']
    if doplot:
        want.append('.py')
        if o['plot2d']:
            want.append('_2D.py')
        if o['tri'] and o['tri'] != 'x':
            want.append('_tri.py')
        if o['p3d']:
            want.append('_3D.py')
    expect = sorted([root + e for e in want] + (['fin.tmp'] if o['finish'] else []))
    require(new == expect, 'files written %r, requested %r', new, expect)
    with quiet():
        ref = reference(chains, an, cool, ['X', 'Y_1', 'Z', 'F', 'Dee', 'C_A'] if o['names'] else None, bool(o['chains']))
        if not o['no_tests'] and stats:
            conv = ref.getConvergeTests(0.95)
            require(close_text(read(os.path.join(d, root + '.converge')), conv), 'convergence tests differ from those of the library on the same rows')
        require('using %s rows' % sum(map(len, chains)) in out, 'number of rows reported differs from %s: %s', sum(map(len, chains)), out[:300])
        a, w = weighted(chains, cool)
        if o['chains']:
            w = np.ones(len(a))
        p = [2, 3, 4, 6, 7]
        mean = np.average(a[:, p], axis=0, weights=w)
        diff = a[:, p] - mean
        cov = (diff * w[:, None]).T.dot(diff) / w.sum()
        sd = np.sqrt(np.diag(cov))
        cm = read(os.path.join(d, root + '.covmat')).splitlines()
        require(cm[0].replace('#', '').split() == ['x', 'y', 'z'], 'covariance matrix for %s', cm[0])
        got = np.loadtxt(cm[1:])
        require(got.shape == (3, 3) and np.allclose(got, cov[:3, :3], rtol=1e-5, atol=1e-6 * np.max(cov[:3, :3])), 'covariance matrix written is not that of the rows used:\n%s\n%s', got, cov[:3, :3])
        corr = np.loadtxt(os.path.join(d, root + '.corr'))
        require(corr.shape == (5, 5) and np.allclose(corr, cov / np.outer(sd, sd), atol=2e-6), 'correlation matrix written is not that of the rows used')
        if stats:
            marge = read(os.path.join(d, root + '.margestats'))
            require(close_text(marge, text_of(ref.getMargeStats(), d)), 'marginalized statistics differ from those of the library on the same rows')
            tab = [l.split() for l in marge.splitlines()[3:]]
            require([t[0] for t in tab] == ['x', 'y', 'z', 'd*', 'chi2_A*'] and np.allclose([float(t[1]) for t in tab], mean, rtol=1e-5) and np.allclose([float(t[2]) for t in tab], sd, rtol=1e-5), 'means or deviations written are not those of the rows used')
            if o['chains']:
                like = None
            else:
                like = read(os.path.join(d, root + '.likestats'))
            require(like is None or close_text(like, text_of(ref.getLikeStats(), d)), 'likelihood statistics differ from those of the library on the same rows')
            best = np.argmin(a[:, 1])
            for i, row in zip([4, 3, 2, 1, 0], (like or '').splitlines()[::-1]):
                require(abs(float(row.split()[1]) - a[best, p[i]]) < 1e-5 * abs(a[best, p[i]]), 'best-fit sample in %r', row)
        if '.PCA' in want:
            params = ['x', 'y', 'z', 'd', 'chi2_A'] if o['pca'] == 'all' else o['pca'].split()
            if o['pca'] == 'all':
                require(close_text(read(os.path.join(d, root + '.PCA')), ref.PCA(params, o['pca_func'] or 'NNNNN', o['pca_norm'] or None)), 'PCA differs from that of the library')
            else:
                require(close_text(read(os.path.join(d, root + '.PCA')), ref.PCA(params, o['pca_func'] or 'NNNNN', o['pca_norm'] or None)), 'PCA differs from that of the library')
        if o['thin']:
            tc = float(o['thincool'] or 1)
            ix = ref.thin_indices(int(o['thin']))
            th = np.loadtxt(os.path.join(d, root + '_thin.txt'), ndmin=2)
            keep = a[ix]
            require(th.shape == (len(ix), 7) and np.allclose(th[:, 2:], keep[:, p], rtol=1e-6), 'thinned rows differ')
            L = keep[:, 1] * cool
            require(np.allclose(th[:, 1], L * tc, rtol=1e-6), 'likelihoods of thinned rows differ')
            lw = -(tc - 1) * L
            require(np.allclose(np.log(th[:, 0]) - np.log(th[0, 0]), lw - lw[0], atol=1e-5), 'weights of thinned rows differ')
    if o['finish']:
        require(read(os.path.join(d, 'fin.tmp')).strip() == name, 'finish command was given another root name')
    if doplot:
        scripts(o, d, outdir, name, root, ref, new)
    ctx.outcome(repr(new))


def scripts(o, d, outdir, name, root, ref, new):
    ps = ref.paramNames.list()

    def script(tag):
        log = run_script(os.path.join(d, root + tag + '.py'))
        require(len(log) == 3 and log[0][0] == 'dir' and log[2][0] == 'export', 'plot script%s: %r', tag, log)
        require(len(log[1][1]) == 1 and os.path.normpath(os.path.join(log[0][1], log[1][1][0])) == os.path.normpath('chains/' + o['name']), 'plot script%s plots %r from %r, the chains are chains/%s', tag, log[1][1], log[0][1], o['name'])
        require(os.path.normpath(log[2][1]).rsplit('.', 1)[0] == root + tag, 'plot script%s writes %s', tag, log[2][1])
        return log[1]
    one = script('')
    want = {'y': ['y'], 'z* x missing': ['z', 'x'], 'chi2* d?': ['chi2_A']}.get(o['plot_params'], None)
    require(one[0] == '1d' and (one[2] or None) == want and one[3] == ({'x': 6.5} if o['markers'] else None), '1D plot script plots %r with markers %r', one[2], one[3])
    if o['plot2d']:
        got = [tuple(x) for x in script('_2D')[2]]
        if o['plot2d'] == 'custom':
            exp = [('d', 'x'), ('x', 'y')]
        elif o['plot2d'] == 'corr':
            with quiet():
                exp = [tuple(x) for x in ref.getCorrelatedVariable2DPlots()]
        else:
            exp = [(q, 'y') for q in ps if q != 'y']
        require(sorted(got) == sorted(exp), '2D plot script plots %r, requested %r', got, exp)
    if root + '_tri.py' in new:
        got = script('_tri')[2]
        require(got == (ps if o['tri'] == 'all' else o['tri'].replace('c*', 'chi2_A').split()), 'triangle plot script plots %r', got)
    if o['p3d']:
        require(script('_3D')[2] == [['x', 'z', 'd']], '3D plot script plots %r', script('_3D')[2])


def forms_gen():
    for what in ('default', 'default_txt', 'dot', 'dot_txt', 'ini_txt', 'pattern', 'pattern_ini', 'pattern_txt', 'yaml', 'yaml_full', 'yaml_pattern', 'yaml_both_pattern', 'template', 'template_pattern'):
        for fmt in ('_', '.'):
            for cmd in (None, '0', '5'):
                yield [what, fmt, cmd]


YAML = """likelihood: {A: null}
params:
  x: {prior: [0, 12], latex: X}
  y: {prior: {dist: norm, loc: 6, scale: 2}, latex: Y_1}
  z: {prior: {min: 3}, latex: '\\zeta'}
  f: {prior: {min: 3.5, max: 3.5}, latex: F}
  d: {latex: D}
sampler: {mcmc: null}
"""


def forms_check(ctx, case):
    """every way of naming the chains gives the same output as naming them explicitly with the same settings"""
    what, fmt, cmd = case
    warnings.simplefilter('ignore')
    d = ctx.newdir('f')
    names = ['run1', 'run2', 'run3.x', 'run_4'] if 'pattern' in what else ['run.v1'] if 'dot' in what else ['run1']
    flags = [] if cmd is None else ['--ignore_rows', cmd]
    ini = what in ('pattern_ini', 'ini_txt', 'pattern_txt')
    try:
        c = os.path.join(d, 'chains')
        os.mkdir(c)
        for i, n in enumerate(names):
            make_chains(c, n, fmt, 'three' if n == 'run2' else 'none')
            if 'yaml' in what and not ('both' in what and i % 2):
                os.remove(os.path.join(c, n + '.ranges'))
                os.remove(os.path.join(c, n + '.paramnames'))
                write(os.path.join(c, n + ('__full.yaml' if 'full' in what else '.updated.yaml')), YAML)
                for k in (1, 2, 3):
                    # columns of the sampled parameters, those derived, prior and likelihoods
                    a = CH[k]
                    np.savetxt(os.path.join(c, '%s%s%s.txt' % (n, fmt, k)), np.column_stack([a[:, :7], a[:, 2] * 0 + np.arange(len(a)), a[:, 3] * 0 + np.arange(len(a)), a[:, 7], a[:, 7]]), fmt='%.8e')
        make_chains(c, 'other', fmt)
        if what.startswith('template'):
            in_dir(d, lambda: command_line.getdist_command(['--make_param_file', 'set.ini']))
        else:
            write(os.path.join(d, 'set.ini'), read(getdist.default_getdist_settings).replace('ignore_rows', 'ignore_rows = 0.2\n#') + '\nno_plots = T\nno_tests = T\n')
        one = 'chains/' + names[0]
        argv = {'default': [one], 'default_txt': [one + '.txt'], 'dot': [one], 'dot_txt': [one + '.txt'], 'ini_txt': ['set.ini', one + '.txt'], 'pattern': ['chains/run*'], 'pattern_ini': ['set.ini', 'chains/run*'], 'pattern_txt': ['set.ini', 'chains/run*.txt'],
                'yaml': [one], 'yaml_full': [one], 'yaml_pattern': ['chains/run*'], 'yaml_both_pattern': ['chains/run*'], 'template': ['set.ini', one], 'template_pattern': ['set.ini', 'chains/run*']}[what]
        before = tree(d)
        ctx.step()
        in_dir(d, lambda: command_line.getdist_command(argv + flags))
        after = tree(d)
        require(all(after.get(f) == v for f, v in before.items()), 'input files changed')
        new = {f: v for f, v in after.items() if f not in before}
        ends = ['.covmat', '.corr', '.margestats', '.likestats'] + ([] if ini else ['.converge'])
        require(sorted(new) == sorted(n + e for n in names for e in ends), 'files written: %r', sorted(new))
        with quiet():
            for i, n in enumerate(names):
                burn = expected_burn('0.2' if ini else '0.3', cmd, 'three' if n == 'run2' else 'none')
                chains = [rows(CH[k], burn) for k in (1, 2, 3)]
                ref = reference(chains, {})
                if 'yaml' in what and not ('both' in what and i % 2):
                    a = np.concatenate(chains)
                    mean = np.average(a[:, [2, 3, 4, 6]], axis=0, weights=a[:, 0])
                    tab = [l.split() for l in new[n + '.margestats'].splitlines()[3:]]
                    require([t[0] for t in tab] == ['x', 'y', 'z', 'd*', 'minuslogprior*', 'minuslogprior__0*', 'chi2*', 'chi2__A*'] and np.allclose([float(t[1]) for t in tab[:4]], mean, rtol=1e-5), 'means of %s: %r, expected %r', n, [t[:2] for t in tab], mean)
                    ref = text_of(ref.getMargeStats(), d).splitlines()[3:7]
                    require(all(close_text(' '.join(x.split()[3:-1]), ' '.join(y.split()[3:-1])) for x, y in zip(new[n + '.margestats'].splitlines()[3:7], ref)), 'limits of %s differ from those of the library on the same rows', n)
                    continue
                require(close_text(new[n + '.margestats'], text_of(ref.getMargeStats(), d)), 'statistics of %s differ from those of the library on the same rows', n)
                require(close_text(new[n + '.likestats'], text_of(ref.getLikeStats(), d)), 'likelihood statistics of %s differ from those of the library on the same rows', n)
                if '.converge' in ends:
                    require(close_text(new[n + '.converge'], ref.getConvergeTests(0.95)), 'convergence tests of %s differ', n)
    finally:
        shutil.rmtree(d)
    return what


def scenarios(tier):
    deep = tier == 'thorough'
    return [
        Enum('burn', burn_gen, options_check, timeout=120),
        Enum('options', opt_gen(3 if deep else 2), options_check, timeout=120),
        Enum('forms', forms_gen, forms_check, timeout=300),
    ]
