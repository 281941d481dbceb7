"""Grid tables and reports: makeTables, makeLatex, runningJobs and best-fit extraction on grids written by the harness."""
import contextlib
import io
import itertools
import os
import shutil

import numpy as np

from mc import gridlib
from mc.core import Enum, require
from mc.fakequeue import FakeQueue
from paramgrid import batchjob, jobqueue

PROPERTY = 'C34'
LEVEL = 'model_checking'
RULE = ('every combination of table options, existing result files and output location in the alphabet on a grid with two models and four data combinations (one importance sampled); '
        'every selection of running and queued jobs for the job report; every best-fit file form for the extraction script; every limit, parameter selection and output form of latex snippets')
ASSUMPTIONS = ['converting to PDF is replaced by a stand-in that leaves the files pdflatex would', 'the table of one result is that of the library (C16)']

SPEC = {'groups': [{'name': 'main', 'params': [[], ['nnu']], 'data': [[['D1'], None, None], [['D2'], None, None], [['D2', 'D1'], None, None]],
                    'imp': [{'names': ['D3'], 'inis': ['d3.ini'], 'form': 'setting', 'want': ['data', 'D2'], 'dist': {}, 'min': True}]}]}
_margs = {}


def marg(i):
    """text of the result files of item i"""
    if i not in _margs:
        from getdist import MCSamples, chains
        chains.print_load_details = False
        r = np.random.RandomState(i)
        x = r.standard_normal((150, 4)) * [1, 0.1, 30, 2] + [i, 0.5 + 0.02 * i, -20, 7]
        s = MCSamples(samples=x, loglikes=r.rand(150) * 4 + 10 + i, names=['pa', 'pb', 'pc*', 'pd*'], labels=['A_1', 'B', r'\Gamma', 'D'], settings={'ignore_rows': 0})
        s.updateBaseStatistics()
        _margs[i] = str(s.getMargeStats())
    return _margs[i]


LIKE = lambda i: 20.25 + 3.5 * i
MEAN = lambda i: 24.125 + 1.375 * i
CHI = lambda i, k: 5.5 + 2.25 * i + 7 * k


def minimum(i):
    L = ['-log(Like) = %s' % LIKE(i), 'chi-sq    = %s' % (2 * LIKE(i)), '']
    L += ['    1  %.7E   pa    A_1' % (0.3 * i), '    2  %.7E   pb    B' % (0.5 + 0.01 * i), '', '    3  1.0000000E+00   fixd    F', '', '    4  %.7E   pc    \\Gamma' % (-10. - i), '']
    L += [' -log(Like)  chi-sq   data', '     1.0   %.3f   CMB: plik_lite = Plik_A' % CHI(i, 0)]
    if i % 3 != 2:
        L += ['     1.0   %.3f   BAO: sdss' % CHI(i, 1)]
    L += ['     1.0   %.3f   prior' % CHI(i, 2)]
    return '\n'.join(L) + '\n'


def rfile(i):
    return 'Variance test convergence stats\nvar(mean)/mean(var), remaining chains, worst e-value: R-1\n  1 0.0100\n  2 %.4f\n\n' % (0.05 + 0.1 * (i % 3))


def world(ctx, lack, results=True):
    """lack: dict of item name -> set of missing kinds"""
    d = ctx.scratch + '/grid/'
    os.makedirs(d + 'config', exist_ok=True)
    b = batchjob.batchJob(d, 'ini/')
    with gridlib.quiet():
        b.makeItems(gridlib.mk_settings(SPEC))
    b.save()
    full = gridlib.ref_expand(SPEC, d)
    items = list(gridlib.walk(full))
    for i, it in enumerate(items):
        it['i'] = i
        it['normed'] = '_'.join(sorted(it['names']))
        it['lack'] = lack.get(it['name'], '')
        w = lambda fn, text: gridlib.write(fn, text)
        if not results and not lack:
            continue
        if 'chain' not in it['lack']:
            w(it['chainRoot'] + '_1.txt', '1 2 3 4\n')
        w(it['chainRoot'] + '.paramnames', 'pa\n')
        if 'min' not in it['lack']:
            w(it['chainRoot'] + '.minimum', minimum(i))
        os.makedirs(os.path.dirname(it['distRoot']), exist_ok=True)
        if 'dist' not in it['lack']:
            w(it['distRoot'] + '.margestats', marg(i))
            w(it['distRoot'] + '.likestats', 'Best fit sample -log(Like) = %f\nLn(mean 1/like) = 3\nmean(-Ln(like)) = %f\n-Ln(mean like)  = 2\n\n' % (LIKE(i) + 1, MEAN(i)))
            w(it['distRoot'] + '.converge', rfile(i))
    w(ctx.scratch + '/lab.paramnames', 'pa  new_A\npc  new_C\n')
    w(ctx.scratch + '/list.paramnames', 'pb  x\npc  y\n')
    w(ctx.scratch + '/head.tex', 'THE HEADER')
    return d, items


OPTS = {
    'plain': [], 'limit1': ['--limit', '1'], 'all': ['--all_limits'], 'nobest': ['--nobestfit'], 'bestonly': ['--bestfitonly'], 'nodelta': ['--no_delta_chisq'],
    'deltatag': ['--delta_chisq_paramtag', 'base_nnu'], 'fromdata': ['--changes_from_datatag', 'D1_D2'], 'fromdata2': ['--changes_from_datatag', 'D2_D1'], 'fromparam': ['--changes_from_paramtag', 'base_nnu'], 'frombase': ['--changes_from_paramtag', 'base'],
    'adding': ['--changes_adding_data', 'D1'], 'addingonly': ['--changes_adding_data', 'D1', '--changes_only'], 'replacing': ['--changes_replacing', 'D1', 'D2'], 'replonly': ['--changes_replacing', 'D2', 'D1', '--changes_only'],
    'indep': ['--changes_from_datatag', 'D1', '--shift_sigma_indep'], 'subset': ['--changes_from_datatag', 'D1', '--shift_sigma_subset'],
    'converge': ['--converge', '0.1'], 'labels': ['--paramNameFile', '@lab.paramnames'], 'list': ['--paramList', '@list.paramnames'], 'separate': ['--separate_tex'], 'header': ['--header_tex', '@head.tex'],
    'columns': ['--columns', '2'], 'noimp': ['--noimportance'], 'data': ['--data', 'D2'], 'tag': ['--paramtag', 'base_nnu'], 'compare': ['--compare', 'D1', 'D1_D2'], 'titles': ['--compare', 'D2', 'D1', '--titles', 'one;two'], 'ignore': ['--changes_data_ignore', 'D3'],
}
LACKS = {'none': {}, 'min': {'base_D1': 'min', 'base_nnu_D2': 'min'}, 'dist': {'base_D2': 'dist', 'base_nnu_D1': 'dist'}, 'chain': {'base_D2_D1': 'chain', 'base_nnu_D1': 'chain dist min'},
         'nnu': {'base_nnu_' + x: 'chain dist min' for x in ('D1', 'D2', 'D2_D1', 'D2_post_D3', 'D2_D1_post_D3')}}


def tab_gen(tier):
    def gen():
        pairs = [(a,) for a in OPTS]
        for a, b in itertools.combinations(OPTS, 2):
            if any(x in (a, b) for x in ('compare', 'titles')) and not set((a, b)) & set(('limit1', 'labels', 'list', 'nobest', 'all', 'noimp', 'tag', 'header')):
                continue
            ka, kb = set(x for x in OPTS[a] if x[:2] == '--'), set(x for x in OPTS[b] if x[:2] == '--')
            ch = [x for x in sorted(ka) + sorted(kb) if x.startswith('--changes_') and x not in ('--changes_data_ignore', '--changes_only')]
            if ka & kb or len(ch) > 1 or 'all' in (a, b) and 'limit1' in (a, b):
                continue
            if ch and set((a, b)) & set(('nodelta', 'deltatag', 'ignore')) or 'ignore' in (a, b) and set((a, b)) & set(('nodelta',)) or set((a, b)) == {'nodelta', 'deltatag'}:
                continue
            if ch and 'data' in (a, b) or 'bestonly' in (a, b) and set((a, b)) & set(('nobest', 'converge')):
                continue
            pairs.append((a, b))
        for p in pairs:
            for lack in LACKS:
                for loc in ('out', 'sub/out.tex', '@abs/out'):
                    if loc != 'out' and len(p) > 1 and 'all' not in p and 'separate' not in p:
                        continue
                    if tier == 'quick' and len(p) > 1 and (lack == 'min' or lack == 'nnu'):
                        continue
                    yield [list(p), lack, loc]
    return gen


def esc(s):
    return s.replace('_', '{\\textunderscore}')


def tab_check(ctx, case):
    opts, lackname, loc = case
    from getdist import types
    from getdist.paramnames import ParamNames
    for x in ('work', 'grid'):
        shutil.rmtree(ctx.scratch + '/' + x, ignore_errors=True)
    d, items = world(ctx, LACKS[lackname])
    on = set(opts)
    args = [x.replace('@', ctx.scratch + '/') for o in opts for x in OPTS[o]]
    has = lambda *x: bool(on & set(x))
    if not has('labels'):
        gridlib.write(ctx.scratch + '/work/clik_latex.paramnames', 'pb  default_B\n')
    else:
        os.makedirs(ctx.scratch + '/work', exist_ok=True)
    labels = ctx.scratch + ('/lab.paramnames' if has('labels') else '/work/clik_latex.paramnames')
    out = loc.replace('@', ctx.scratch + '/work/')
    before = gridlib.tree(d)
    # ---- run
    calls = []

    def system(cmd):
        calls.append((os.getcwd(), cmd))
        root = os.path.splitext(cmd.split()[-1])[0]
        for e in ('aux', 'log', 'out', 'toc', 'pdf'):
            open(root + '.' + e, 'w').close()
        return 0

    old, cwd = os.system, os.getcwd()
    try:
        os.system = system
        os.chdir(ctx.scratch + '/work')
        text = gridlib.run_script('makeTables.py', [d, out] + args, ctx.scratch)
    finally:
        os.system = old
        os.chdir(cwd)
    ctx.step()
    # ---- what should be there
    sel = [it for it in items if ('chain' not in it['lack'] or has('bestonly'))]
    if has('noimp'):
        sel = [it for it in sel if not it['imp']]
    if has('data'):
        sel = [it for it in sel if 'D2' in it['names']]
    if has('tag'):
        sel = [it for it in sel if it['paramtag'] == 'base_nnu']
    mcache = {}

    def mrg(it, best):
        if 'dist' in it['lack']:
            return None
        m = types.MargeStats(it['distRoot'] + '.margestats', labels)
        if best and 'min' not in it['lack']:
            m.addBestFit(types.BestFit(it['chainRoot'] + '.minimum', labels))
        return m

    def table(content, ref, limit):
        return types.ResultTable(2 if has('columns') else 3, [content], limit=limit, paramList=ParamNames(ctx.scratch + '/list.paramnames') if has('list') else None, refResults=ref,
                                 shiftSigma_indep=has('indep'), shiftSigma_subset=has('subset')).lines

    def find(section, normed):
        for it in section:
            if it['normed'] == normed:
                return it

    tags = sorted(set(it['paramtag'] for it in sel))
    expect = {}
    sep = {}
    for limit in ([1, 2, 3] if has('all') else [1] if has('limit1') else [2]):
        lines = ['THE HEADER'] if has('header') else []
        lines.append('\\tableofcontents')
        for tag in tags:
            sec = [it for it in sel if it['paramtag'] == tag]
            title = '\\newpage\\section{ ' + ('Baseline model' if tag == 'base' else 'nnu') + '}'
            if has('compare', 'titles'):
                want = ['D1', 'D1_D2'] if has('compare') else ['D2', 'D1']
                got = [find(sec, w) for w in want]
                if None in got:
                    continue
                lines.append(title)
                ok = [it for it in got if 'dist' not in it['lack']]
                tt = [it['datatag'] for it in ok] if has('compare') else ['one', 'two']
                lines += types.ResultTable(1, [mrg(it, not has('nobest')) for it in ok], limit=limit, titles=tt, paramList=ParamNames(ctx.scratch + '/list.paramnames') if has('list') else None).lines
                continue
            lines.append(title)
            here = sec
            if has('converge'):
                here = [it for it in here if 'dist' not in it['lack'] and 0.05 + 0.1 * (it['i'] % 3) <= 0.1]
            for it in here:
                dref = sref = None   # references for chi-squared differences and for parameter shifts
                if has('adding', 'addingonly'):
                    if 'D1' in it['names']:
                        dref = sref = find(here, '_'.join(sorted(x for x in it['names'] if x != 'D1')))
                    if has('addingonly') and sref is None:
                        continue
                elif has('replacing', 'replonly'):
                    x, y = ('D1', 'D2') if has('replacing') else ('D2', 'D1')
                    if y in it['names']:
                        dref = sref = find([q for q in here if x in q['names']], '_'.join(sorted(x if n == y else n for n in it['names'])))
                    if has('replonly') and sref is None:
                        continue
                else:
                    norm = '_'.join(sorted(n for n in it['names'] if n != 'D3')) if has('ignore') else it['normed']
                    if not has('nodelta'):
                        rt = 'base_nnu' if has('deltatag', 'fromparam') else 'base'
                        dref = find([q for q in sel if q['paramtag'] == rt], norm)
                    if has('fromparam', 'frombase'):
                        sref = dref
                    elif has('fromdata', 'fromdata2', 'indep', 'subset'):
                        sref = find(here, 'D1_D2' if has('fromdata', 'fromdata2') else 'D1')
                if dref is it:
                    dref = None
                if sref is it or sref is not None and not has('fromparam', 'frombase') and sref['normed'] == it['normed']:
                    sref = None
                cap = []
                bf = 'min' not in it['lack']
                if bf:
                    cap.append(' Best-fit $\\chi^2_{\\rm eff} = %.2f$' % (2 * LIKE(it['i'])))
                    if dref and 'min' not in dref['lack']:
                        cap.append('$\\Delta \\chi^2_{\\rm eff} = %.2f$' % (2 * (LIKE(it['i']) - LIKE(dref['i']))))
                t = []
                if has('bestonly'):
                    if bf:
                        t += table(types.BestFit(it['chainRoot'] + '.minimum', labels), None, limit)
                else:
                    if 'dist' not in it['lack']:
                        cap.append('$\\bar{\\chi}^2_{\\rm eff} = %.2f$' % (2 * MEAN(it['i'])))
                    if dref and 'dist' not in it['lack'] and 'dist' not in dref['lack']:
                        cap.append('$\\Delta\\bar{\\chi}^2_{\\rm eff} = %.2f$' % (2 * (MEAN(it['i']) - MEAN(dref['i']))))
                    if 'dist' not in it['lack']:
                        cap.append('$R-1 =%.4f$' % (0.05 + 0.1 * (it['i'] % 3)))
                        t += table(mrg(it, not has('nobest')), mrg(sref, has('fromparam', 'frombase')) if sref else None, limit)
                t += ['', '; '.join(cap)]
                if bf:
                    t += ['', '$\\chi^2_{\\rm eff}$:']
                    parts = [('', 'prior', 2)] + ([('BAO', 'sdss', 1)] if it['i'] % 3 != 2 else []) + [('CMB', 'Plik_A', 0)]
                    for kind, name, k in parts:
                        t.append(kind + ' - ')
                        l = '  ' + esc(name) + ': %.2f ' % CHI(it['i'], k)
                        if dref and 'min' not in dref['lack'] and not (k == 1 and dref['i'] % 3 == 2):
                            l += '($\\Delta$ %.2f) ' % (CHI(it['i'], k) - CHI(dref['i'], k))
                        t.append(l)
                lines += ['\\subsection{ ' + esc(it['name']) + '}'] + t
                sep[os.path.relpath(it['distRoot'] + '.tex', d)] = '\n'.join(t)
        lines.append('\\end{document}')
        base = out[:-4] if out.endswith('.tex') else out
        expect[os.path.relpath(os.path.join(ctx.scratch, 'work', (out if has('all') else base) + ('_limit%d' % limit if has('all') else '') + '.tex'), ctx.scratch + '/work')] = lines
    # ---- compare
    require('ERROR' not in text, 'errors reported: %s', text[-300:])
    got = gridlib.tree(ctx.scratch + '/work')
    files = sorted(f for f, v in got.items() if v != 'dir')
    want = sorted(['clik_latex.paramnames'] * (not has('labels')) + list(expect) + [f[:-4] + '.pdf' for f in expect])
    require(files == want, 'files made %s, expected %s', files, want)
    for f, lines in expect.items():
        g = got[f].decode().split('\n')
        g = g[[i for i, l in enumerate(g) if l in ('THE HEADER', '\\tableofcontents')][0]:]
        exp = '\n'.join(lines).split('\n')
        for i, (u, v) in enumerate(itertools.zip_longest(g, exp)):
            require(u == v, '%s line %s: %r, expected %r (after %r)', f, i, u, v, exp[max(0, i - 3):i])
    require(len(calls) == 3 * len(expect), 'converted %s', calls)
    for (c, cmd) in calls:
        require(os.path.relpath(os.path.join(c, cmd.split()[-1]), os.path.realpath(ctx.scratch + '/work')) in expect, 'converted %s in %s', cmd, c)
    after = gridlib.tree(d)
    new = {f: v for f, v in after.items() if before.get(f) != v}
    require(all(f in after for f in before), 'files of the grid were removed')
    want = {f: t.encode() for f, t in sep.items()} if has('separate') and not has('compare', 'titles') else {}
    require(set(new) == set(want), 'files of the grid changed: %s, expected %s', sorted(new), sorted(want))
    if not has('all'):
        for f in want:
            require(new[f] == want[f], '%s is not the table of that run', f)
    return repr((sorted(on), lackname, hash(str(expect)) % 10 ** 8))



# ---------------------------------------------------------------- running jobs
JOBS = [('base_D1', ['base_D1']), ('both', ['base_D2', 'base_nnu_D2']), ('base_nnu_D1_minimize', ['base_nnu_D1_minimize']), ('base_D2_post_D3', ['base_D2_post_D3']), ('alien', ['alien_D1'])]
JSEL = {'': [], 'queued': ['--queued'], 'running': ['--running'], 'tag': ['--paramtag', 'base_nnu'], 'noimp': ['--noimportance'], 'name': ['--name', 'base_D1'], 'imponly': ['--importance', 'D3', '--data', 'D2']}


def jobs_gen(tier):
    def gen():
        for fmt in ('pbs', 'showq') + (('moab', 'ogs') if tier != 'quick' else ()):
            for st in itertools.product(('', 'qw', 'r'), repeat=len(JOBS)):
                if fmt != 'pbs' and tier == 'quick' and st.count('') > 1:
                    continue
                for s in JSEL:
                    if tier == 'quick' and s not in ('', 'running', 'tag') and st.count('') not in (0, 4):
                        continue
                    yield [fmt, list(st), s, True]
                    if s in ('', 'queued', 'running'):
                        yield [fmt, list(st), s, False]
    return gen


def jobs_check(ctx, case):
    fmt, st, s, grid = case
    for x in ('work', 'grid'):
        shutil.rmtree(ctx.scratch + '/' + x, ignore_errors=True)
    env, cwd = dict(os.environ), os.getcwd()
    d, items = world(ctx, {}, False)
    R = {}
    for i, it in enumerate(items):
        if i % 3:
            R[it['name']] = 0.125 * i
            gridlib.write(it['chainRoot'] + '.converge_stat', '%s\n' % R[it['name']] + 'Done\n' * (i % 2))
    os.makedirs(ctx.scratch + '/work/scripts')
    try:
        os.chdir(ctx.scratch + '/work')
        fq = FakeQueue(ctx.scratch + '/bin34', ctx.scratch + '/work/fq', fmt)
        gridlib.write(ctx.scratch + '/work/job_script', '#!/bin/sh\n##DEFAULT_nodes: 1##\n##DEFAULT_chainsPerNode: 1##\n##DEFAULT_coresPerNode: 8##\n##COMMAND##\n')
        with gridlib.quiet():
            for name, roots in JOBS:
                jobqueue.submitJob(name, [r + '.ini' for r in roots], batchPath=d if grid else None)
        fq.set_jobs([[j[0], st[i], j[2]] for i, j in enumerate(fq.jobs()) if st[i]])
        before = gridlib.tree(ctx.scratch)
        text = gridlib.run_script('runningJobs.py', ([d] if grid else []) + JSEL[s], ctx.scratch)
        ctx.step()
        require(gridlib.tree(ctx.scratch) == before, 'files changed')
    finally:
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(env)
    sel = [it for it in items if not (s == 'tag' and it['paramtag'] != 'base_nnu') and not (s == 'noimp' and it['imp']) and not (s == 'name' and it['name'] != 'base_D1')
           and not (s == 'imponly' and ('D2' not in it['names'] or not it['imp']))]
    names = set(it['name'] for it in sel)
    r = lambda n: ['%.3f' % R[n]] if grid and n in names and n in R else []
    exp = []
    for i, (job, roots) in enumerate(JOBS):
        if not st[i] or s == 'queued' and st[i] == 'r' or s == 'running' and st[i] == 'qw':
            continue
        if grid and not names & set(x.replace('_minimize', '') for x in roots):
            continue
        exp.append((str(101 + i), [job] if len(roots) > 1 else r(job) + [job]))
        if len(roots) > 1:
            exp += [('>>', r(x) + [x]) for x in roots]
    got = []
    for line in text.splitlines():
        if ' | ' in line:
            a, b = line.rsplit(' | ', 1)
            got.append((a.split()[0].replace('Moab.', '').split('.')[0], b.split()))
        elif '>>' in line:
            got.append(('>>', line.split()[1:]))
    require(got == exp, 'listed %s, should be %s', got, exp)
    return repr(exp)


# ---------------------------------------------------------------- best fits, single chains
def bf_gen(tier):
    def gen():
        for opt in itertools.product((0, 1, 2, 3), repeat=3 if tier == 'quick' else 4):    # absent, sampled, fixed, derived
            for nl in ('T', 'F', None):
                for how in ('camb', 'params'):
                    if how == 'camb' or nl == 'T':
                        yield [how, list(opt), nl]
        for rows in (2, 3, 5):
            for ncol in (1, 2, 4):
                for p in range(ncol):
                    for index in (None, 1, 2, 11):
                        yield ['peek', [rows, ncol, p], index]
    return gen


CAMB = [('omegabh2', 'ombh2', 0.0221), ('omegach2', 'omch2', 0.118), ('omeganuh2', 'omnuh2', 0.00064), ('H0', 'hubble', 67.25), ('A', 'scalar_amp(1)', 2.125), ('ns', 'scalar_spectral_index(1)', 0.965), ('r', 'initial_ratio(1)', 0.25),
        ('tau', 're_optical_depth', 0.0625), ('nnu', 'massless_neutrinos', 3.5)]
OPTP = [('w', 'w', -0.875), ('yheused', 'helium_fraction', 0.246), ('nrun', 'scalar_nrun(1)', -0.03), ('deltazrei', 're_delta_redshift', 0.5)]
WHERE = {'omegabh2': 1, 'omegach2': 1, 'omeganuh2': 3, 'H0': 3, 'A': 3, 'ns': 1, 'r': 2, 'tau': 1, 'nnu': 2}


def bf_check(ctx, case):
    how, opt, nl = case
    shutil.rmtree(ctx.scratch + '/work', ignore_errors=True)
    os.makedirs(ctx.scratch + '/work')
    root = ctx.scratch + '/work/base.x_D1'
    if how == 'peek':
        rows, ncol, p = opt
        gridlib.write(root + '.paramnames', ''.join('p%s  l\n' % i for i in range(ncol)))
        for k in (1, 2, 11):
            gridlib.write('%s_%s.txt' % (root, k), ''.join(' '.join(str(x) for x in [1, 2] + [1000 * k + 10 * j + i for i in range(ncol)]) + '\n' for j in range(rows)))
        text = gridlib.run_script('chainPeek.py', [root, 'p%s' % p] + ([] if nl is None else [nl]), ctx.scratch)
        ctx.step()
        got = [float(x) for x in text.replace('[', ' ').replace(']', ' ').split()]
        exp = [1000. * (nl or 1) + 10 * j + p for j in range(rows)]
        require(got == exp, 'printed %s, should be %s', got, exp)
        return repr(exp)
    where = dict(WHERE)
    pars = list(CAMB)
    for (o, x) in zip(OPTP, opt):
        if x:
            pars.append(o)
            where[o[0]] = x
    L = ['-log(Like) = 10.5', 'chi-sq    = 21', '']
    n, text = 0, {}
    for w in (1, 2, 3):
        for a, b, v in pars:
            if where[a] == w:
                n += 1
                text[a] = '%.7E' % v
                L.append('%5d  %s   %s    L_%s' % (n, text[a], a, n))
        L.append('')
    L += [' -log(Like)  chi-sq   data', '     1.0   2.000   CMB: x = y', '']
    gridlib.write(root + '.minimum', '\n'.join(L))
    gridlib.write(root + '.paramnames', ''.join(a + '*' * (where[a] == 3) + '  L\n' for w in (1, 3) for a, b, v in pars if where[a] == w))
    gridlib.write(root + '.inputparams', 'x = 1\n' + ('' if nl is None else 'use_nonlinear_lensing = %s\n' % nl))
    if how == 'params':
        out = gridlib.run_script('extractBestFitParams.py', [root + '.minimum'], ctx.scratch).split('\n')
        ctx.step()
        exp = ['param[%s]=%s' % (a, text[a]) for a, b, v in pars if where[a] == 1]
        require([x for x in out if x] == exp, 'printed %s, should be %s', out, exp)
        return repr(exp)
    gridlib.run_script('extractBestFitCAMB.py', [root, ctx.scratch + '/work/o.ini'], ctx.scratch)
    ctx.step()
    exp = {b: v for a, b, v in pars}
    exp['scalar_amp(1)'] /= 1e9
    exp['massless_neutrinos'] -= 3.046 / 3
    exp.update({'massive_neutrinos': 1, 'nu_mass_degeneracies': 3.046 / 3, 'share_delta_neff': 'F', 're_use_optical_depth': 'T', 'temp_cmb': 2.7255, 'CMB_outputscale': 2.7255e6 ** 2, 'tensor_spectral_index(1)': -0.25 / 8})
    if nl != 'F':
        exp['do_nonlinear'] = 3
    lines = [l.strip() for l in open(ctx.scratch + '/work/o.ini') if l.strip()]
    require(lines.count('DEFAULT(params.ini)') == 1, 'no default file in %s', lines)
    got = dict([x.strip() for x in l.split('=', 1)] for l in lines if not l.startswith('DEFAULT'))
    require(set(got) == set(exp), 'settings %s, expected %s', sorted(got), sorted(exp))
    for k, v in exp.items():
        require(got[k] == v if isinstance(v, str) else abs(float(got[k]) - v) <= 1e-6 * abs(v), '%s is %s, should be %s', k, got[k], v)
    return repr(sorted(got.items()))


# ---------------------------------------------------------------- latex snippets and one-parameter comparisons
def snip_gen(tier):
    def gen():
        for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
            for pars in [None] + [list(x) for x in itertools.permutations(('pa', 'pb', 'pc', 'pd'), n)]:
                if pars is None and n > 1:
                    continue
                for limit in (None, 1, 2, 3):
                    for form in ('', 'tabular', 'dir'):
                        for lab in (0, 1):
                            for i in (0, 3):
                                yield ['snip', pars, limit, form, lab, i]
        for par in ('pa', 'pb', 'pc'):
            for comp in (None, ['D1'], ['D2', 'D1'], ['D1_D2', 'D1', 'D2'], ['D1', 'D2_D1']):
                for single in (0, 1):
                    for nobest in (0, 1):
                        for limit in (None, 1):
                            for math in (0, 1):
                                for lack in LACKS:
                                    for out in ('out', '@sub/dir/o.tex'):
                                        if tier == 'quick' and nobest + math + (limit or 0) > 1:
                                            continue
                                        yield ['comp', par, comp, single, nobest, limit, math, lack, out]
    return gen


def snip_check(ctx, case):
    from getdist import types
    for x in ('work', 'grid'):
        shutil.rmtree(ctx.scratch + '/' + x, ignore_errors=True)
    os.makedirs(ctx.scratch + '/work')
    cwd = os.getcwd()
    if case[0] == 'snip':
        _, pars, limit, form, lab, i = case
        root = ctx.scratch + '/work/ch_%s' % i
        gridlib.write(root + '.margestats', marg(i))
        labels = {'pa': 'A_1', 'pb': 'B', 'pc': r'\Gamma', 'pd': 'D'}
        gridlib.write(ctx.scratch + '/work/clik_latex.paramnames', 'pb  default_B\n')
        gridlib.write(ctx.scratch + '/lab.paramnames', 'pa  new_A\npc  new_C\n')
        labels.update({'pa': 'new_A', 'pc': 'new_C'} if lab else {'pb': 'default_B'})
        args = [root] + (['--params'] + pars if pars else []) + ([] if limit is None else ['--limit', limit]) + {'': [], 'tabular': ['--tabular'], 'dir': ['--tex_snippet_dir', ctx.scratch + '/work/new/snip']}[form]
        try:
            os.chdir(ctx.scratch + '/work')
            text = gridlib.run_script('makeLatex.py', args + (['--paramNameFile', ctx.scratch + '/lab.paramnames'] if lab else []), ctx.scratch)
        finally:
            os.chdir(cwd)
        ctx.step()
        m = types.MargeStats(root + '.margestats', ctx.scratch + '/lab.paramnames' if lab else ctx.scratch + '/work/clik_latex.paramnames')
        ps = pars or ['pa', 'pb', 'pc', 'pd']
        vals = [m.texValues(types.NoLineTableFormatter(), p, limit=limit or 1)[0] for p in ps]
        if form == 'dir':
            got = {f: open(ctx.scratch + '/work/new/snip/' + f).read() for f in os.listdir(ctx.scratch + '/work/new/snip')}
            exp = {'ch_%s-%s_sig%s.tex' % (i, p, limit or 1): v for p, v in zip(ps, vals)}
            require(got == exp, 'snippets %s, should be %s', got, exp)
            return repr(exp)
        strip = lambda x: x.replace(' ', '')
        if form == 'tabular':
            exp = ['$%s$&$%s$\\\\' % (strip(labels[p]), strip(v)) if v != '---' else '$%s$&%s\\\\' % (strip(labels[p]), strip(v)) for p, v in zip(ps, vals)]
        else:
            exp = [strip(labels[p]) + strip(v) for p, v in zip(ps, vals)]
        require([strip(x) for x in text.splitlines() if x.strip()] == exp, 'printed %s, should be %s', text.splitlines(), exp)
        return repr(exp)
    _, par, comp, single, nobest, limit, math, lack, out = case
    d, items = world(ctx, LACKS[lack])
    args = [d, '--params', par, '--latex_filename', out.replace('@', ctx.scratch + '/work/')] + (['--compare'] + comp if comp else []) + ['--single_extparam', '--chain_name_params', 'nnu'] * single + ['--nobestfits'] * nobest + ['--mathColumns'] * math
    args += [] if limit is None else ['--limit', limit]
    gridlib.write(ctx.scratch + '/work/clik_latex.paramnames', 'pa  la\npb  lb\npc  lc\n')
    try:
        os.chdir(ctx.scratch + '/work')
        gridlib.run_script('makeParamCompare.py', args, ctx.scratch)
    finally:
        os.chdir(cwd)
    ctx.step()
    mm = (lambda x: '$' + x + '$') if math else (lambda x: x)
    sel = [it for it in items if 'dist' not in it['lack'] and not (single and it['paramtag'] == 'base')]
    norm = [c if c != 'D2_D1' else 'D1_D2' for c in comp] if comp else None
    sel = [it for it in sel if not norm or it['normed'] in norm]
    lines = []
    for tag in ('base', 'base_nnu'):
        its = [it for it in sel if it['paramtag'] == tag]
        if norm:
            its = sorted(its, key=lambda it: norm.index(it['normed']))
        if not its:
            continue
        cols = [mm('l' + par[1])]
        for it in its:
            m = types.MargeStats(it['distRoot'] + '.margestats')
            if 'min' not in it['lack'] and not nobest:
                m.addBestFit(types.BestFit(it['chainRoot'] + '.minimum'))
            res = m.texValues(types.TableFormatter(), par, limit=limit or 2)
            if 'min' not in it['lack'] and not nobest:
                cols.append(mm(res[1]))
            cols.append(mm(res[0]) if res[0] != '---' else res[0])
        lines.append(' & '.join(cols) + '\\cr')
    got = open(ctx.scratch + '/work/' + (out[1:] if out[0] == '@' else out + '.tex')).read().split('\n')
    require([x for x in got if x] == lines, 'wrote %s, should be %s', got, lines)
    return repr(lines)


# ---------------------------------------------------------------- adding a grid to a grid
def add_gen(tier):
    def gen():
        datas = [['D1'], ['D2'], ['D1', 'D3'], ['D2', 'D3'], ['D1', 'D3', 'D4']]
        for n in range(1, 4 if tier == 'quick' else 6):
            for sub in itertools.combinations(range(5), n):
                for params in ([[]], [['nnu']], [[], ['nnu']]):
                    for split in (0, 1):
                        if split and n == 1:
                            continue
                        yield [[datas[i] for i in sub], params, split]
    return gen


def add_check(ctx, case):
    datas, params, split = case
    for x in ('grid', 'grid0', 'grid1'):
        shutil.rmtree(ctx.scratch + '/' + x, ignore_errors=True)
    imp = lambda names, want=None: {'names': names, 'inis': [x.lower() + '.ini' for x in names], 'form': 'setting', 'want': want, 'dist': {}, 'min': True}
    spec = {'groups': [{'name': 'main', 'params': [[], ['nnu']], 'data': [[['D1'], None, None], [['D2'], None, None]], 'imp': [imp(['D3']), imp(['D3', 'D4'])]}]}
    groups = [datas[:1], datas[1:]] if split else [datas]
    specs = [spec] + [{'groups': [{'name': 'extra', 'params': params, 'data': [[n, None, None] for n in g], 'imp': []}]} for g in groups]
    paths = [ctx.scratch + '/grid/'] + [ctx.scratch + '/grid%s/' % i for i in range(len(groups))]
    for p, sp in zip(paths, specs):
        os.makedirs(p + 'config')
        b = batchjob.batchJob(p, 'ini/')
        with gridlib.quiet():
            b.makeItems(gridlib.mk_settings(sp))
        b.save()
    full = [list(gridlib.walk(gridlib.ref_expand(sp, p))) for p, sp in zip(paths, specs)]
    for it in full[0]:
        gridlib.write(it['chainRoot'] + '_1.txt', it['name'])
    before = gridlib.tree(ctx.scratch)
    with gridlib.quiet():
        gridlib.run_script('addGridBatch.py', paths, ctx.scratch)
    ctx.step()
    after = gridlib.tree(ctx.scratch)
    require(sorted(after) == sorted(before), 'files appeared or went')
    require([k for k in after if after[k] != before[k]] in ([], ['grid/batch.pyobj']), 'files changed: %s', [k for k in after if after[k] != before[k]])
    mains = set(it['name'] for f in full for it in f if not it['imp'])
    exp = sorted(it['name'] for it in full[0] if not it['imp'] or it['name'].replace('_post', '') not in mains) + sorted(it['name'] for f in full[1:] for it in f)
    b = batchjob.readobject(paths[0])
    got = [it.name for it in b.items(wantImportance=True)]
    require(sorted(got) == sorted(exp), 'items %s, expected %s', got, exp)
    where = {it['name']: it['chainRoot'] for f in reversed(full) for it in f}
    for it in b.items(wantImportance=True):
        if it.name not in set(x['name'] for x in full[0]) or it.isImportanceJob:
            require(it.chainRoot == where[it.name], '%s: chain root %s, should be %s', it.name, it.chainRoot, where[it.name])
    own = sorted(it.name for it in b.items(wantSubItems=False, wantImportance=True))
    mine = sorted(it['name'] for it in full[0] if not it['imp'] or it['name'].replace('_post', '') not in mains)
    require(own == mine, 'own items %s, should be %s', own, mine)
    return repr(got)


def scenarios(tier):
    return [Enum('tables', tab_gen(tier), tab_check), Enum('jobs', jobs_gen(tier), jobs_check), Enum('bestfit', bf_gen(tier), bf_check), Enum('latex', snip_gen(tier), snip_check), Enum('addgrid', add_gen(tier), add_check)]
