"""Adding plik foreground parameters to chains: every layout, repeated runs, and runs killed at every file operation."""
import contextlib
import io
import itertools
import os
import re
import shutil
import sys
import tempfile
import types

import numpy as np

from mc.core import Enum, require
from mc import faults

PROPERTY = 'C38'
LEVEL = 'fault_enumeration'
RULE = ('layout: every arrangement of sampled, fixed and chi-squared parameters, chains, components, source of the fixed values and tag, run twice; crash: the run on each of a set of layouts is killed before each file operation and after every torn prefix of each write '
        '(first, last and each 16th byte of writes over 200 bytes in the quick tier) and fails at each operation, and is run again; spectra: every sequence of components; script: every mixture of jobs of a small grid')
ASSUMPTIONS = ['clik is replaced by a stand-in with linear components', 'crash = process death: completed writes are visible, in order', 'numbers in chains have the seven digits CosmoMC writes', 'one process at a time works on a chain']
LLP = 2000 * 2001 / 2 / np.pi
KEYS = ['A_cib', 'A_sz', 'gal', 'ps']          # names in the likelihood file
NAMES = ['acib', 'asz', 'gal545', 'aps']       # names in the chains, in the same order
COMP = {'cib': (['A_cib'], 3, 1.), 'sz': (['A_sz', 'A_cib'], 3, 0.5), 'dust': (['gal'], 6, 0.2), 'psrc': (['ps', 'gal'], 3, 2.)}


class Component(object):
    def __init__(self, name, lmin, lmax):
        self.name, self.lmin, self.lmax = name, lmin, lmax
        self.varpar, self.n, self.fac = COMP[name]

    def __call__(self, pars):
        L = np.arange(self.lmin, self.lmax + 1.)
        v = self.fac * sum((k + 1) * float(p) for k, p in enumerate(pars))
        return v * (1 + np.add.outer(np.arange(self.n), np.arange(self.n)) * 0.1)[None] * (1 + 0.01 * L[:, None, None])


CONF = {'comps': ['cib', 'sz'], 'lmax0': 2508}


def stubs():
    if 'clik' in sys.modules:
        return
    clik = types.ModuleType('clik')
    smh = types.ModuleType('clik.smicahlp')

    class Likelihood(object):
        def __init__(self, fn):
            self.lmax = (CONF['lmax0'], -1)

        def get_extra_parameter_names(self):
            return list(KEYS)
    clik.clik = Likelihood
    clik.smicahlp = smh
    smh.parametric_from_smica = lambda fn, lmin=0, lmax=0: [Component(c, lmin, lmax) for c in CONF['comps']]
    sys.modules['clik'] = clik
    sys.modules['clik.smicahlp'] = smh


def pp():
    stubs()
    from planck import plik_postprocess
    return plik_postprocess


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


LAYOUTS = [['omb', 'acib', 'asz', 'gal545', 'aps', 'H0*', 'chi2_plik*', 'chi2_lowl*'], ['aps', 'omb', 'asz', 'acib', 'gal545', 'chi2_plik*', 'chi2_x*'], ['acib', 'omb', 'aps', 'H0*', 'chi2_plik*'], ['omb', 'asz', 'acib', 'aps', 'gal545', 'H0*'],
           ['gal545', 'acib', 'asz', 'aps', 'chi2_a*', 'H0*', 'chi2_b*'], ['omb', 'tau', 'H0*', 'chi2_plik*'], ['acib', 'asz', 'gal545', 'aps']]
ALLFIX = {'acib': 67.25, 'asz': 5.5, 'gal545': 7.125, 'aps': 250.}


def values(names, chain, row):
    r = np.random.RandomState(len(names) * 1000 + chain * 50 + row)
    return [float('%.6E' % v) for v in [1 + row % 3, 5600 + 10 * r.rand()] + list(10 * r.rand(len(names)) - 2)]


def num(v):
    return '  %.7E' % v


def write(d, layout, rows, blanks=False, source='ranges'):
    os.makedirs(d, exist_ok=True)
    names = LAYOUTS[layout]
    with open(d + '/x.paramnames', 'w') as f:
        f.write('\n'.join('%s\tl_{%s}' % (n, n.strip('*')) for n in names) + ('\n\n\n' if blanks else '\n' if layout % 2 else ''))
    with open(d + '/clik.paramnames', 'w') as f:
        f.write(''.join('%s   L_%s\n' % (n, n) for n in NAMES))
    with open(d + '/x.ranges', 'w') as f:
        for n in names:
            if not n.endswith('*'):
                f.write('%22s %17s %17s\n' % (n, 'N' if n == 'tau' or n == 'aps' else -10., 'N' if n != 'omb' else 20.))
        for n in NAMES:
            if n not in names:
                f.write('%22s %17.7E %17.7E\n' % (n, ALLFIX[n], ALLFIX[n]))
    for k, m in enumerate(rows):
        with open('%s/x_%d.txt' % (d, k + 1), 'w') as f:
            for i in range(m):
                f.write(''.join(num(v) for v in values(names, k, i)) + '\n')
    if source == 'minimum':
        with open(d + '/x.minimum', 'w') as f:
            f.write(minimum(names, False))
    return names


def minimum(names, done, comps=None):
    out = [' -log(Like) =    5634.0861', '  chi-sq    =   11268.172', '']
    v = values([n for n in names], 9, 0)[2:]
    vals = dict(zip([n.strip('*') for n in names], v))
    line = lambda k, x, n, l: '%5d  %14.7E   %-22s %s' % (k, x, n, l)
    k = 0
    for n in names:
        if not n.endswith('*'):
            k += 1
            out.append(line(k, vals[n], n, 'l_{%s}' % n))
    out.append('')
    for n in NAMES:
        if n not in names:
            k += 1
            out.append(line(k, ALLFIX[n], n, 'l_{%s}' % n))
    out.append('')
    first = True
    for n in names:
        if n.endswith('*'):
            if n.startswith('chi2_') and first and done:
                f = fg(dict(ALLFIX, **vals), comps)
                for x, nn, l in zip(f, ('f2000_143', 'f2000_x', 'f2000_217'), ('f_{2000}^{143}', 'f_{2000}^{143\\times217}', 'f_{2000}^{217}')):
                    k += 1
                    out.append((k, x, nn, l))
            first = first and not n.startswith('chi2_')
            k += 1
            out.append(line(k, vals[n.strip('*')], n.strip('*'), 'l_{%s}' % n.strip('*')))
    out += ['', ' -log(Like)     chi-sq   data ', '   5246.234  10492.468    CMB: lowl', '   387.8521    775.704    CMB: plik']
    return out if done else '\n'.join(out) + '\n'


def fg(pars, comps):
    r = np.zeros((3, 3))
    for c in comps:
        p = Component(c, 2000, 2000)
        r = r + p([pars[NAMES[KEYS.index(k)]] for k in p.varpar])[0, :3, :3]
    return [r[1, 1] * LLP, r[1, 2] * LLP, r[2, 2] * LLP]


def new_names(names):
    i = next((k for k, n in enumerate(names) if n.startswith('chi2_')), len(names))
    return names[:i] + ['f2000_143*', 'f2000_x*', 'f2000_217*'] + names[i:], i


def verify(d, layout, rows, comps, source, tag=''):
    names = LAYOUTS[layout]
    new, at = new_names(names)
    lab = ['f_{2000}^{143}', 'f_{2000}^{143\\times217}', 'f_{2000}^{217}']
    with open('%s/x%s.paramnames' % (d, tag)) as f:
        got = [tuple(x.split()) for x in f.read().split('\n') if x.strip()]
    labels = ['l_{%s}' % n.strip('*') for n in names]
    require(got == list(zip(new, labels[:at] + lab + labels[at:])), 'parameter names: %s', got)
    fixed = {n: ALLFIX[n] for n in NAMES if n not in names}
    if source == 'minimum':
        want = minimum(names, any(n.startswith('chi2_') for n in names), comps)
        with open('%s/x%s.minimum' % (d, tag)) as f:
            text = f.read().split('\n')
        require(text[-1] == '' and len(text) - 1 == len(want), 'minimum file: %s lines, expected %s', len(text) - 1, len(want))
        for a, b in zip(text, want):
            if isinstance(b, tuple):
                x = a.split()
                require(len(x) == 4 and x[0] == str(b[0]) and x[2:] == list(b[2:]) and abs(float(x[1]) - b[1]) <= 2e-6 * abs(b[1]), 'minimum file: %r, expected %s', a, b)
            else:
                require(a == b.rstrip(), 'minimum file: %r, expected %r', a, b)
    for k, m in enumerate(rows):
        with open('%s/x%s_%d.txt' % (d, tag, k + 1)) as f:
            lines = f.read().split('\n')
        require(lines[-1] == '' and len(lines) == m + 1, 'chain %s has %s rows, expected %s', k + 1, len(lines) - 1, m)
        for i in range(m):
            old = values(names, k, i)
            pars = dict(fixed, **{n: v for n, v in zip(names, old[2:])})
            got = [float(x) for x in lines[i].split()]
            want = old[:at + 2] + fg(pars, comps) + old[at + 2:]
            require(len(got) == len(want), 'row %s of chain %s has %s numbers, expected %s', i, k + 1, len(got), len(want))
            for j, (a, b) in enumerate(zip(got, want)):
                require(abs(a - b) <= (2e-6 * abs(b) if at + 2 <= j < at + 5 else 0), 'row %s of chain %s, column %s: %s, expected %s', i, k + 1, j, a, b)


COMPS = [['cib', 'sz'], ['dust', 'psrc', 'cib'], ['psrc'], ['cib', 'dust', 'sz', 'psrc'], []]


def call(d, rows, comps, source, tag=''):
    CONF['comps'] = comps
    with quiet():
        pp().main_fg2000(['', 'plik.clik', d + '/clik.paramnames', d + '/x.' + source, d + '/x.paramnames'] + ['%s/x_%d.txt' % (d, k + 1) for k in range(len(rows))], *([tag] if tag else []))


def snapshot(d):
    out = {}
    for f in sorted(os.listdir(d)):
        with open(os.path.join(d, f)) as g:
            out[f] = g.read()
    return out


def gen_layout():
    for layout in range(len(LAYOUTS)):
        for rows in ([], [1], [3], [2, 4], [1, 0, 2]):
            for comps in COMPS[:4]:
                for source in ('ranges', 'minimum'):
                    for tag in ('', '_fg'):
                        for blanks in (False, True):
                            yield [layout, rows, comps, source, tag, blanks]


def chk_layout(ctx, case):
    layout, rows, comps, source, tag, blanks = case
    if 0 in rows:
        rows = [max(r, 1) for r in rows]
    chi = any(n.startswith('chi2_') for n in LAYOUTS[layout])
    d = ctx.newdir()
    write(d, layout, rows, blanks, source)
    before = snapshot(d)
    if source == 'minimum' and not chi:
        try:
            call(d, rows, comps, source, tag)
        except AssertionError:
            pass
        else:
            require(False, 'minimum file without chi2 parameters accepted')
        require(snapshot(d) == before, 'files changed by a run that failed')
        shutil.rmtree(d)
        return 'refused'
    call(d, rows, comps, source, tag)
    ctx.step()
    verify(d, layout, rows, comps, source, tag)
    after = snapshot(d)
    changed = ['x%s.paramnames' % tag] + ['x%s_%d.txt' % (tag, k + 1) for k in range(len(rows))] + (['x%s.minimum' % tag] if source == 'minimum' else [])
    require(all(after.get(f) == before[f] for f in before if f not in changed), 'other files changed')
    require(set(after) == set(before) | set(changed), 'files %s', sorted(after))
    if not tag:
        from getdist import loadMCSamples, ParamNames
        if sum(rows) > 2 and layout != 5:
            s = loadMCSamples(d + '/x', no_cache=True, settings={'ignore_rows': 0})
            require([p.name for p in s.paramNames.names] == [n.strip('*') for n in new_names(LAYOUTS[layout])[0]], 'parameters of the loaded chains')
            i = s.index['f2000_x']
            want = [fg(dict({n: ALLFIX[n] for n in NAMES}, **{n: v for n, v in zip(LAYOUTS[layout], values(LAYOUTS[layout], k, j)[2:])}), comps)[1] for k, m in enumerate(rows) for j in range(m)]
            require(np.allclose(s.samples[:, i], want, rtol=1e-5), 'loaded foreground parameter')
        if source == 'minimum':
            from getdist.types import BestFit
            b = BestFit(d + '/x.minimum', want_fixed=True)
            require(b.parWithName('f2000_217') is not None and b.parWithName('f2000_217').label == 'f_{2000}^{217}', 'best fit read back')
    call(d, rows, comps, source, tag)
    require(snapshot(d) == after, 'a second run changed files')
    shutil.rmtree(d)
    return '%s %s' % (layout, source)


CRASH = [(0, [2, 1], COMPS[0], 'ranges'), (0, [1, 2, 1], COMPS[1], 'minimum'), (3, [1, 1], COMPS[0], 'ranges'), (2, [2], COMPS[3], 'minimum')]


def gen_crash(tier):
    def gen():
        d = tempfile.mkdtemp(prefix='c38g')
        for k, (layout, rows, comps, source) in enumerate(CRASH):
            e = d + '/%d' % k
            write(e, layout, rows, False, source)
            pp()
            res, text, ops = faults.run(e, lambda: call(e, rows, comps, source))
            yield [k, None]
            if res != 'ok':
                continue
            for p in faults.points(ops):
                size = ops[p['n']][1]
                if tier == 'quick' and size > 200 and p['keep'] % 16 and 1 < p['keep'] < size - 1:
                    continue
                yield [k, p]
            for i in range(len(ops)):
                for err in (28, 5):
                    for sticky in (0, 1):
                        yield [k, dict(n=i, keep=0, err=err, sticky=sticky)]
        shutil.rmtree(d)
    return gen


def chk_crash(ctx, case):
    k, fault = case
    layout, rows, comps, source = CRASH[k]
    d = ctx.newdir()
    write(d, layout, rows, False, source)
    pp()
    start = snapshot(d)
    act = lambda: call(d, rows, comps, source)
    res, text, ops = faults.run(d, act, **(fault or {}))
    if fault is None:
        require(res == 'ok' and ops, 'run failed: %s', text)
    mid = snapshot(d)
    for f in start:
        require(mid.get(f), '%s lost after an interrupted run', f)
    with quiet():
        try:
            call(d, rows, comps, source)
        except Exception as e:
            require(False, 'second run after an interrupted one failed: %s: %s', type(e).__name__, e)
    ctx.step()
    verify(d, layout, rows, comps, source)
    extra = set(os.listdir(d)) - set(start)
    require(all(not re.match(r'.*(\.txt|\.paramnames|\.minimum|\.ranges)$', f) for f in extra), 'stray files %s', sorted(extra))
    shutil.rmtree(d)
    return '%s %s' % (k, res)


def gen_spectra():
    for n in range(0, 4):
        for comps in itertools.permutations(sorted(COMP), n):
            for lmax0 in (2508, -1):
                if lmax0 == -1 and any(COMP[c][1] == 6 for c in comps):
                    continue
                yield [list(comps), lmax0]


def chk_spectra(ctx, case):
    comps, lmax0 = case
    d = ctx.newdir()
    names = write(d, 0, [1], False, 'minimum')
    P = pp()
    P.cache.clear()
    CONF.update(comps=comps, lmax0=lmax0)
    with quiet():
        P.main_fgfile(['', 'a%s.clik' % lmax0, d + '/clik.paramnames', d + '/x.minimum', d + '/x.minimum.plik_foregrounds'])
    P.cache.clear()
    CONF['lmax0'] = 2508
    ctx.step()
    vals = dict(zip([n.strip('*') for n in names], values(names, 9, 0)[2:]))
    pars = dict(ALLFIX, **vals)
    with open(d + '/x.minimum.plik_foregrounds') as f:
        lines = f.read().split('\n')
    require(lines[0].split()[1:] == ['l'] + 'TT100x100 TT143X143 TT143X217 TT217X217 EE100X100 EE100X143 EE100X217 EE143X143 EE143X217 EE217X217 TE100X100 TE100X143 TE100X217 TE143X143 TE143X217 TE217X217'.split(), 'header %s', lines[0])
    data = np.array([[float(x) for x in l.split()] for l in lines[2:] if l.strip()])
    require(data.shape == (2998, 17) and np.array_equal(data[:, 0], np.arange(2, 3000)), 'multipoles')
    L = data[:, 0]
    tot = np.zeros((2998, 6, 6))
    for c in comps:
        p = Component(c, 2, 2999)
        r = p([pars[NAMES[KEYS.index(k)]] for k in p.varpar])
        if p.n == 6:
            tot += r
        elif lmax0 == -1:
            tot[:, 3:, 3:] += r
        else:
            tot[:, :3, :3] += r
    tot *= (L * (L + 1) / 2 / np.pi)[:, None, None]
    for j, (a, b) in enumerate([(0, 0), (1, 1), (1, 2), (2, 2), (3, 3), (3, 4), (3, 5), (4, 4), (4, 5), (5, 5), (0, 3), (0, 4), (0, 5), (1, 4), (1, 5), (2, 5)]):
        require(np.allclose(data[:, j + 1], tot[:, a, b], rtol=2e-6, atol=0), 'foreground column %s', lines[0].split()[j + 2])
    shutil.rmtree(d)
    return str(len(comps))


JOBS = [('plik', 'TT', 0), ('plik', 'TE', 0), ('plik', 'EE', 2), ('camspec', 'TT', 0), ('plik', 'TT', 'min'), ('plik', 'TT', 'done'), ('plik', 'TT', 'nochain'), ('plik', 'TE', 'min')]
SETTINGS = '''
from paramgrid import batchjob
ini_dir = ''
defaults = []
importanceRuns = []
g = batchjob.jobGroup('main')
g.params = [[]]
g.datasets = [batchjob.dataSet(n) for n in %r]
groups = [g]
'''


def gen_script():
    for n in range(1, 4):
        for jobs in itertools.combinations(range(len(JOBS)), n):
            for opt in ([], ['--finished'], ['--data', 'd%d' % jobs[0]]):
                yield [list(jobs), opt]


@contextlib.contextmanager
def grid(d, jobs):
    from paramgrid import gridconfig, batchjob
    pp()
    g = d + '/grid'
    names = ['%s_%s' % ('plik' if JOBS[j][0] == 'plik' else 'camspec', 'd%d' % j) for j in jobs]
    with open(d + '/sett.py', 'w') as f:
        f.write(SETTINGS % (names,))
    cwd, argv, path = os.getcwd(), sys.argv, list(sys.path)
    os.chdir(d)
    try:
        CONF['comps'] = COMPS[0]
        sys.path.insert(0, d)
        sys.modules.pop('sett', None)
        with quiet():
            gridconfig.makeGrid(g, 'sett', interactive=False, settings=__import__('sett'))
        batch = batchjob.readobject(g)
        info = {}
        os.makedirs(d + '/data')
        for j, item in zip(jobs, batch.items(wantSubItems=False)):
            kind, spec, state = JOBS[j]
            root = item.chainRoot
            os.makedirs(os.path.dirname(root), exist_ok=True)
            t = d + '/tmp%d' % j
            rows = [2, 1]
            write(t, 0, rows, False, 'minimum' if state == 'min' else 'ranges')
            for f in os.listdir(t):
                if f == 'clik.paramnames':
                    shutil.copy(t + '/' + f, d + '/data/')
                elif not (state == 'nochain' and f != 'x.ranges'):
                    shutil.copy(t + '/' + f, root + f[1:])
            key = {'TT': 'plik', 'TE': 'plikTE', 'EE': 'plikEE'}[spec]
            with open(root + '.inputparams', 'w') as f:
                f.write('clik_data_%s = %%DATASETDIR%%p.clik\nclik_params_%s = %%DATASETDIR%%clik.paramnames\n' % (key, key))
            if state == 'done':
                p = item.propertiesIni()
                p.params['plik_foregrounds'] = True
                p.saveFile()
            if j % 2 == 0:
                with open(root + '.converge_stat', 'w') as f:
                    f.write(' 0.01\nDone\n')
            info[j] = (item, rows, snapshot(os.path.dirname(root)))
        yield g, names, info
    finally:
        os.chdir(cwd)
        sys.argv, sys.path[:] = argv, path
        sys.modules.pop('sett', None)


def run_script(g, opts):
    import runpy
    sys.argv = ['plikParams.py', g] + opts
    with quiet():
        runpy.run_module('planck.plikParams', run_name='__main__')


def verify_grid(d, info, selected):
    for j, (item, rows, before) in info.items():
        kind, spec, state = JOBS[j]
        run = selected(j, item) and kind == 'plik' and state not in ('done', 'nochain')
        now = snapshot(os.path.dirname(item.chainRoot))
        require(item.propertiesIni().bool('plik_foregrounds', False) == (run or state == 'done'), 'record of the foregrounds of %s', item.name)
        base = os.path.basename(item.chainRoot)
        if not run:
            require(now == before, 'files of %s changed', item.name)
        elif spec != 'TT':
            allow = {base + '.properties.ini'} | ({base + '.minimum.plik_foregrounds'} if state == 'min' else set())
            require({k: v for k, v in now.items() if k not in allow} == {k: v for k, v in before.items() if k not in allow}, 'files of %s changed', item.name)
        else:
            t = d + '/chk%d' % j
            shutil.rmtree(t, ignore_errors=True)
            os.makedirs(t)
            for f in now:
                if f.startswith(base):
                    shutil.copy(os.path.join(os.path.dirname(item.chainRoot), f), t + '/x' + f[len(base):])
            verify(t, 0, rows, COMPS[0], 'minimum' if state == 'min' else 'ranges')
        if run:
            require(os.path.exists(item.chainRoot + '.minimum.plik_foregrounds') == (state == 'min'), 'foreground spectra of %s', item.name)


def chk_script(ctx, case):
    jobs, opt = case
    d = ctx.newdir()
    with grid(d, jobs) as (g, names, info):
        for again in range(2):
            run_script(g, ['--data', names[0]] if '--data' in opt else opt)
            ctx.step()
            verify_grid(d, info, lambda j, item: ('--finished' not in opt or item.chainFinished()) and ('--data' not in opt or j == jobs[0]))
    shutil.rmtree(d)
    return str(len(jobs))


SCRASH = [[0], [4], [0, 3], [0, 4], [1, 0]]


def gen_scrash(tier):
    def gen():
        for k, jobs in enumerate(SCRASH):
            d = tempfile.mkdtemp(prefix='c38s')
            with grid(d, jobs) as (g, names, info):
                res, text, ops = faults.run(g, lambda: run_script(g, []))
            shutil.rmtree(d)
            yield [k, None]
            if res != 'ok':
                continue
            step = 40 if tier == 'quick' else 1
            for i in range(len(ops)):
                if step == 1 or ops[i][0] != 'w' or i % step == k or i < 12 or i > len(ops) - 20:
                    yield [k, dict(n=i, keep=0, err=0, sticky=0)]
    return gen


def chk_scrash(ctx, case):
    k, fault = case
    d = ctx.newdir()
    with grid(d, SCRASH[k]) as (g, names, info):
        res, text, ops = faults.run(g, lambda: run_script(g, []), **(fault or {}))
        if fault is None:
            require(res == 'ok' and ops, 'run failed: %s', text)
        with quiet():
            try:
                run_script(g, [])
            except Exception as e:
                require(False, 'second run after an interrupted one failed: %s: %s', type(e).__name__, e)
        ctx.step()
        verify_grid(d, info, lambda j, item: True)
    shutil.rmtree(d)
    return '%s %s' % (k, res)


def scenarios(tier):
    return [Enum('layout', gen_layout, chk_layout), Enum('crash', gen_crash(tier), chk_crash), Enum('spectra', gen_spectra, chk_spectra), Enum('script', gen_script, chk_script), Enum('script_crash', gen_scrash(tier), chk_scrash)]
