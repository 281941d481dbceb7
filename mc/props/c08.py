"""Saving and reloading samples; which files make up a chain root; how many rows are ignored."""
import itertools
import logging
import os
import shutil

import numpy as np
from mc.core import Enum, require
import getdist
from getdist import MCSamples, loadMCSamples, chains, IniFile
from getdist.chains import chainFiles, Chains, WeightedSamples

logging.disable(logging.CRITICAL)
chains.print_load_details = False

PROPERTY = 'C08'
LEVEL = 'model_checking'
RULE = ('roundtrip: every combination of chain count/lengths, likelihoods, labels, derived flags, ranges, sampler, label, saved precision and the way of saving (chains, single file, second generation), over a directory '
        'that has or has not older files of the same root; files: every subset of 12 candidate file names in a directory x numbering options; load: every pair/triple of such files loaded through '
        'loadMCSamples; ignore: every combination of chain lengths, ignored rows or fraction, and where that setting comes from (settings, ini, properties, argument, burn_removed); meta: every combination of properties files, keyword arguments and burn-in settings, then saved and read again with other settings; job: the same for runs of a grid')
ASSUMPTIONS = ['labels contain no #, ! or surrounding blanks', 'chain files contain no comment lines']


def wipe(ctx, name):
    d = os.path.join(ctx.scratch, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def val(c, i, j):
    k = c * 17 + i * 5 + j * 3
    return [(-1) ** k * (k % 7 + 0.123456789 * (k % 5)) * 10 ** ((k % 4) - 2), 3.25 + 0.1234567891 * k, -1e-7 * (k + 1), 5e6 + k][j]


# ---------------------------------------------------------------- save / reload
def rt_gen():
    lens = [[2], [4], [3, 2], [2, 3, 4], [1, 3]]
    for lengths, like, meta, how, old in itertools.product(lens, (True, False), range(5), ('chains', 'single', 'index', 'again', 'txt'), (False, True)):
        if len(lengths) == 1 and how in ('chains', 'again'):
            continue
        yield dict(lengths=lengths, like=like, meta=meta, how=how, old=old)


META = [
    dict(names=['a', 'b', 'c*', 'd*'], labels=['A', r'\Omega_b h^2', 'C_{10}^{\\rm x}', 'D'], ranges={}, kw={}),
    dict(names=['omegabh2', 'x_2', 'y3*', 'zz*'], labels=None, ranges={'omegabh2': [-500, None], 'x_2': [None, 3e8], 'zz': [1.5e6, 2.25e7]}, kw=dict(label='my label', sampler='nested')),
    dict(names=['p.q', 'chi2_a', 'r*', 's'], labels=['\\alpha', '\\chi^2_{\\rm a}', 'R r', ''], ranges={'p.q': [-600.125, 6e4], 'other': [0, 1], 'fixedpar': [0.5, 0.5]}, kw=dict(sampler='uncorrelated')),
    dict(names=['n1', 'n2', 'n3', 'n4'], labels=['N', 'M', 'L', 'K'], ranges={'n4': [None, None], 'n1': [None, 5e5]}, kw=dict(label='x=y z')),
    dict(names=['a_parameter_with_a_name_longer_than_any_column', 'b', 'c', 'd*'], labels=['long', 'B', 'C', 'D'], ranges={'a_parameter_with_a_name_longer_than_any_column': [-1.25e5, 2.5e5], 'b': [-3.5, 1e9]}, kw={}),
]


def rt_check(ctx, case):
    d = wipe(ctx, 'rt')
    root = os.path.join(d, 'sub', 'test.v1_root')
    os.makedirs(os.path.dirname(root))
    m = META[case['meta']]
    lengths = case['lengths']
    arrs = [np.array([[val(c, i, j) for j in range(4)] for i in range(n)]) for c, n in enumerate(lengths)]
    ws = [np.array([1.0 + (i + c) % 3 if case['meta'] % 2 else 0.5 + 0.25 * ((i * 3 + c) % 4) for i in range(n)]) for c, n in enumerate(lengths)]
    ls = [np.array([1234.5678 + 0.01 * (i * 7 + c) for i in range(n)]) for c, n in enumerate(lengths)]
    single = case['how'] in ('single', 'txt')
    s = MCSamples(samples=arrs if len(lengths) > 1 else arrs[0], weights=ws if len(lengths) > 1 else ws[0],
                  loglikes=None if not case['like'] else ls if len(lengths) > 1 else ls[0], names=m['names'], labels=m['labels'],
                  ranges=m['ranges'] or None, settings={'ignore_rows': 0}, **m['kw'])
    require(list(s.paramNames.list()) == [n.rstrip('*') for n in m['names']], 'names %s', s.paramNames.list())
    if case['old']:
        # an unrelated neighbour, and metadata of an earlier save of the same root
        with open(root + '_x_1.txt', 'w') as f:
            f.write('9 9 9 9 9 9\n' * 4)
        with open(root + '.ranges', 'w') as f:
            f.write('a -77 77\nb N 1\n')
        with open(root + '.paramnames', 'w') as f:
            f.write('q1\nq2\n')
    if case['how'] == 'chains':
        s.saveChainsAsText(root, properties={'sampler': m['kw'].get('sampler', 'mcmc'), 'extra': 'e x'})
    elif case['how'] == 'single':
        s.saveAsText(root)
    elif case['how'] == 'txt':
        WeightedSamples.saveAsText(s, root + '.txt')
        s.saveTextMetadata(root)
    elif case['how'] == 'index':
        if len(lengths) == 1:
            s.saveAsText(root, 0)
        else:
            for i, c in enumerate(s.getSeparateChains()):
                c.saveAsText(root, i)
            s.saveTextMetadata(root)
    else:
        s.saveChainsAsText(root + '_first')
        s2 = loadMCSamples(root + '_first', settings={'ignore_rows': 0}, no_cache=True)
        s2.saveChainsAsText(root)
    expected = ['test.v1_root.txt'] if single else ['test.v1_root_%d.txt' % (i + 1) for i in range(len(lengths))]
    got = sorted(f for f in os.listdir(os.path.dirname(root)) if f.startswith('test.v1_root') and f.endswith('.txt') and not '_x_' in f and not '_first' in f)
    require(got == expected, 'files written: %s, expected %s', got, expected)
    t = loadMCSamples(root, settings={'ignore_rows': 0}, no_cache=True)
    ctx.step()
    tol = 1.5e-8
    W, X, Lk = np.concatenate(ws), np.vstack(arrs), np.concatenate(ls)

    def eq(a, b, what):
        a, b = np.asarray(a), np.asarray(b)
        require(a.shape == b.shape and np.all(np.abs(a - b) <= tol * np.abs(b) + 1e-300), '%s reloaded as %s, saved %s', what, a, b)

    eq(t.weights, W, 'weights')
    eq(t.samples, X, 'samples')
    eq(t.loglikes, Lk if case['like'] else Lk * 0, 'likelihoods')
    if not single:
        if len(lengths) > 1:
            require([c.numrows for c in t.getSeparateChains()] == lengths, 'chain lengths %s', [c.numrows for c in t.getSeparateChains()])
    require(t.paramNames.list() == s.paramNames.list(), 'names reloaded as %s', t.paramNames.list())
    require([p.isDerived for p in t.paramNames.names] == [n.endswith('*') for n in m['names']], 'derived flags changed')
    labels = m['labels'] or [''] * 4
    require([p.label for p in t.paramNames.names] == labels, 'labels reloaded as %s, saved %s', [p.label for p in t.paramNames.names], labels)
    for p in set(list(m['ranges']) + s.paramNames.list()):
        lo, hi = m['ranges'].get(p, [None, None])
        g = (t.ranges.getLower(p), t.ranges.getUpper(p))
        require(all(x is None and y is None or x is not None and y is not None and abs(x - y) <= 1e-7 * abs(y) for x, y in zip(g, (lo, hi))),
                'range of %s reloaded as %s, saved %s', p, g, (lo, hi))
    require(t.ranges.fixedValueDict() == {p: r[0] for p, r in m['ranges'].items() if r[0] is not None and r[0] == r[1]}, 'fixed values %s', t.ranges.fixedValueDict())
    require(t.label == m['kw'].get('label'), 'label reloaded as %r', t.label)
    if case['how'] == 'chains':
        require(t.sampler == m['kw'].get('sampler', 'mcmc'), 'sampler %s', t.sampler)
        require(t.properties.string('extra') == 'e x', 'properties %s', t.properties.params)
    if case['old']:
        with open(root + '_x_1.txt') as f:
            require(f.read() == '9 9 9 9 9 9\n' * 4, 'an unrelated file was changed')
    return case['how'], len(W)


# ---------------------------------------------------------------- which files
CANDIDATES = ['r.txt', 'r_1.txt', 'r_2.txt', 'r_3.txt', 'r_10.txt', 'r.1.txt', 'r.2.txt', 'rx_1.txt', 'r_x_1.txt', 'r_1.txt.bak', 'ar_1.txt', 'r_1_2.txt']
OPTIONS = [dict(), dict(chain_exclude=[2]), dict(chain_exclude=[1, 10]), dict(first_chain=2), dict(last_chain=2), dict(first_chain=2, last_chain=3, chain_exclude=[3]), dict(chain_indices=[1, 10]),
           dict(separator='.'), dict(separator='.', last_chain=1)]


def number(f, sep):
    if f == 'r.txt':
        return 0
    if f.startswith('r' + sep) and f.endswith('.txt') and f[2:-4].isdigit():
        return int(f[2:-4])
    return None


def files_gen():
    for mask in range(1 << len(CANDIDATES)):
        yield mask


def files_check(ctx, mask):
    d = wipe(ctx, 'files')
    present = [f for i, f in enumerate(CANDIDATES) if mask >> i & 1]
    for f in present:
        open(os.path.join(d, f), 'w').close()
    for opt in OPTIONS:
        sep = opt.get('separator', '_')
        exp = []
        for f in present:
            n = number(f, sep)
            if n is None or n in opt.get('chain_exclude', []) or n < opt.get('first_chain', 0) or 0 <= opt.get('last_chain', -1) < n or \
                    'chain_indices' in opt and n not in opt['chain_indices']:
                continue
            exp.append((n, f))
        exp = [os.path.join(d, f) for _, f in sorted(exp)]
        got = chainFiles(os.path.join(d, 'r'), **opt)
        require([os.path.normpath(f) for f in got] == exp, 'files of root r with options %s: %s, expected %s (directory: %s)', opt, [os.path.basename(f) for f in got],
                [os.path.basename(f) for f in exp], present)
    cwd = os.getcwd()
    os.chdir(d)
    try:
        got = [os.path.normpath(f) for f in chainFiles('r')]
        require(got == [f for _, f in sorted((number(f, '_'), f) for f in present if number(f, '_') is not None)], 'files of root r without directory: %s', got)
    finally:
        os.chdir(cwd)
    want = any(number(f, s) in (0, 1) for f in present for s in '_.')
    require(chains.hasChainFiles(os.path.join(d, 'r')) == want, 'hasChainFiles is %s for %s', not want, present)
    ctx.step()
    return None


def load_gen():
    for n in (1, 2, 3):
        for c in itertools.combinations(range(len(CANDIDATES)), n):
            yield list(c)


def load_check(ctx, ixs):
    d = wipe(ctx, 'load')
    present = [CANDIDATES[i] for i in ixs]
    for i in ixs:
        with open(os.path.join(d, CANDIDATES[i]), 'w') as f:
            for k in range(3):
                f.write('%d %d %d %d\n' % (k + 1, 10 * i + k, 100 * i + k, k * k + i))
    with open(os.path.join(d, 'r.paramnames'), 'w') as f:
        f.write('x\ny\n')
    exp = sorted((number(f, '_'), f) for f in present if number(f, '_') is not None)
    if not exp:
        exp = sorted((number(f, '.'), f) for f in present if number(f, '.') is not None)
    for rev in (False, True):
        out = load_listed(ctx, d, present, exp, rev)
    return out


def load_listed(ctx, d, present, exp, rev):
    """with the directory listed in alphabetical or reverse order"""
    real = os.listdir
    os.listdir = lambda *a: sorted(real(*a), reverse=rev)
    try:
        s = loadMCSamples(os.path.join(d, 'r'), settings={'ignore_rows': 0}, no_cache=True)
    except IOError:
        os.listdir = real
        require(not exp, 'chains not found with files %s', present)
        return 'none'
    finally:
        os.listdir = real
    require(exp, 'samples loaded for root r, which has no files, from %s', present)
    want = [CANDIDATES.index(f) for _, f in exp]
    got = [int(x) // 100 for x in s.samples[::3, 0]]
    require(got == want, 'chains loaded from %s, expected %s', [CANDIDATES[i] for i in got], [CANDIDATES[i] for i in want])
    require([c.numrows for c in s.getSeparateChains()] == [3] * len(want), 'chain rows')
    ctx.step()
    return tuple(got)


# ---------------------------------------------------------------- ignored rows
IGN = [0, 1, 2, 4, 0.25, 0.3, 0.5]
SRC = ['settings', 'ini', 'iniobj', 'prop', 'prop_over', 'removed', 'removed_rows', 'kwarg', 'default', 'WS', 'Chains', 'arrays', 'Carrays']
LENS = [[5], [8], [5, 8], [8, 3, 6], [6, 1], [7, 0, 4]]


def ign_gen():
    for src, lens in itertools.product(SRC, LENS):
        for v in ([0] if src in ('default',) else IGN):
            if src in ('arrays', 'Carrays', 'kwarg') and min(lens) <= (v if v >= 1 else 1):
                continue
            yield [src, lens, v]


def ign_check(ctx, case):
    src, lens, v = case
    d = wipe(ctx, 'ign')
    root = os.path.join(d, 'r')
    data = []
    for c, n in enumerate(lens):
        rows = [[1 + (i + c) % 2, 0.5 * i + c, 10 * c + i + 0.5, ((3 * i + c) % 7) * 1.5] for i in range(n)]
        data.append(rows)
        with open(root + '_%d.txt' % (c + 1), 'w') as f:
            for r in rows:
                f.write('%g %g %g %g\n' % tuple(r))
    with open(root + '.paramnames', 'w') as f:
        f.write('x\ny\n')
    eff = v
    chs = None
    if src == 'default':
        eff = IniFile(getdist.default_getdist_settings).float('ignore_rows')
        s = loadMCSamples(root, no_cache=True)
    elif src == 'settings':
        s = loadMCSamples(root, no_cache=True, settings={'ignore_rows': v})
    elif src in ('ini', 'iniobj'):
        with open(os.path.join(d, 'my.ini'), 'w') as f:
            f.write('ignore_rows = %s\nnum_bins = 20\n' % v)
        ini = os.path.join(d, 'my.ini')
        s = loadMCSamples(root, no_cache=True, ini=ini if src == 'ini' else IniFile(ini))
    elif src in ('prop', 'prop_over'):
        with open(root + '.properties.ini', 'w') as f:
            f.write('ignore_rows = %s\n' % v)
        s = loadMCSamples(root, no_cache=True, settings={'ignore_rows': 3} if src == 'prop_over' else None)
    elif src in ('removed', 'removed_rows'):
        with open(root + '.properties.ini', 'w') as f:
            f.write('burn_removed = T\n' + ('ignore_rows = 0.5\n' if src == 'removed_rows' else ''))
        eff = 0
        s = loadMCSamples(root, no_cache=True, settings={'ignore_rows': v})
    elif src == 'kwarg':
        given = {'num_bins': 20}
        s = MCSamples(samples=[np.array(r)[:, 2:] for r in data], weights=[np.array(r)[:, 0] for r in data], loglikes=[np.array(r)[:, 1] for r in data], names=['x', 'y'], ignore_rows=v, settings=given)
        require(given == {'num_bins': 20}, 'constructing samples changed the settings dictionary given: %s', given)
    elif src == 'arrays':
        s = MCSamples(samples=[np.array(r)[:, 2:] for r in data], weights=[np.array(r)[:, 0] for r in data], loglikes=[np.array(r)[:, 1] for r in data], names=['x', 'y'],
                      settings={'ignore_rows': v})
    elif src == 'WS':
        if lens[0] <= v:
            return 'short'
        w = WeightedSamples(root + '_1.txt', ignore_rows=v)
        data, lens = data[:1], lens[:1]
        chs = [w]
    elif src == 'Chains':
        c = Chains(root, names=['x', 'y'], ignore_rows=v)
        c.loadChains(root, chainFiles(root))
        chs = c.chains
    else:
        c = Chains(names=['x', 'y'], ignore_rows=v)
        c.loadChains(None, [np.array(r)[:, 2:] for r in data], weights=[np.array(r)[:, 0] for r in data], loglikes=[np.array(r)[:, 1] for r in data])
        chs = c.chains
    skip = lambda n: int(eff) if eff >= 1 else int(round(n * eff))
    exp = [r[skip(len(r)):] for r in data if len(r) > (int(eff) if eff >= 1 else 0)]
    ctx.step()
    if chs is None:
        rows = [r for c in exp for r in c]
        require(s.numrows == len(rows), '%s rows are left instead of %s', s.numrows, len(rows))
        keep = [j for j in (2, 3) if len(set(r[j] for r in rows)) > 1]
        got = np.c_[s.weights, s.loglikes, s.samples]
        want = np.array([[r[0], r[1]] + [r[j] for j in keep] for r in rows])
        require(np.allclose(got, want, rtol=1e-9), 'rows left: %s, expected %s', got.tolist(), want.tolist())
        require([c.numrows for c in s.getSeparateChains()] == [len(c) for c in exp], 'rows of each chain %s', [c.numrows for c in s.getSeparateChains()])
    else:
        require(len(chs) == len(exp), '%s chains loaded instead of %s', len(chs), len(exp))
        for a, b in zip(chs, exp):
            require(np.array_equal(np.c_[a.weights, a.loglikes, a.samples], np.array(b)), 'rows left %s, expected %s', a.samples, b)
    return src, eff, len(lens)


# ---------------------------------------------------------------- metadata given when loading, saving after burn-in was removed
def meta_gen():
    for prop, kw, v, burned in itertools.product([{}, {'label': 'file label'}, {'sampler': 'nested'}, {'label': 'file label', 'sampler': 'uncorrelated', 'own': 'x y'}],
                                                 [{}, {'label': 'mine'}, {'sampler': 'uncorrelated'}, {'sampler': 'mcmc', 'label': 'mine', 'name_tag': 'tag'}], [0, 2, 0.3, 0.5], [None, True, False]):
        if (prop.get('sampler') == 'nested' or kw.get('sampler') == 'nested') and v:
            continue
        yield [prop, kw, v, burned]


def meta_check(ctx, case):
    prop, kw, v, burned = case
    d = wipe(ctx, 'meta')
    root = os.path.join(d, 'r')
    rows = []
    for c, n in enumerate((7, 10)):
        rows.append([[1 + (i + c) % 2, 0.5 * i + c, 10 * c + i + 0.5, ((3 * i + c) % 7) * 1.5] for i in range(n)])
        with open(root + '_%d.txt' % (c + 1), 'w') as f:
            for r in rows[-1]:
                f.write('%g %g %g %g\n' % tuple(r))
    with open(root + '.paramnames', 'w') as f:
        f.write('x\ny\n')
    p = dict(prop)
    if burned is not None:
        p['burn_removed'] = 'T' if burned else 'F'
    if p:
        with open(root + '.properties.ini', 'w') as f:
            f.write(''.join('%s = %s\n' % kv for kv in p.items()))
    s = MCSamples(root, settings={'ignore_rows': v}, **kw)
    s.readChains(chainFiles(root))
    ctx.step()
    skip = 0 if burned else v
    want = [r[int(skip) if skip >= 1 else int(round(len(r) * skip)):] for r in rows]
    require(s.numrows == sum(map(len, want)) and np.allclose(s.samples[:, 0], [r[2] for c in want for r in c]), 'rows %s, expected %s', s.samples[:, 0], want)
    lab, sam = kw.get('label') or prop.get('label'), kw.get('sampler') or prop.get('sampler', 'mcmc')
    require(s.label == lab and s.getLabel() == (lab or kw.get('name_tag') or 'r'), 'label %r, expected %r', s.label, lab)
    require(s.sampler == sam, 'sampler %r, expected %r', s.sampler, sam)
    # saved, the samples are those in memory whatever the burn-in settings when reading them
    s.saveChainsAsText(os.path.join(d, 'out'))
    for again in ({'ignore_rows': 0}, {'ignore_rows': 0.4}, {'ignore_rows': 3}):
        if sam == 'nested' and again['ignore_rows']:
            continue
        if not (burned or v):
            again = {'ignore_rows': 0}  # not known to be without burn-in
        t = loadMCSamples(os.path.join(d, 'out'), settings=again, no_cache=True)
        require(t.numrows == s.numrows and np.allclose(t.samples, s.samples, rtol=1e-8) and np.allclose(t.weights, s.weights), 'samples saved with %s rows read back with settings %s as %s rows', s.numrows, again, t.numrows)
        require(t.label == lab, 'label read back as %r, was %r', t.label, lab)
        require(not prop.get('own') or t.properties.string('own') == 'x y', 'other properties %r', t.properties.params)
        require([c.numrows for c in t.getSeparateChains()] == [len(c) for c in want], 'chains')
    return repr(case)


class Job(object):
    def __init__(self, d, imp, burned):
        self.isImportanceJob, self.b, self.batchPath, self.name, self.chainPath = imp, burned, d, 'r', d

    def isBurnRemoved(self):
        return self.b


def job_gen():
    for imp, burned, v, lens in itertools.product([False, True], [False, True], [0, 0.25, 0.3, 0.5], LENS[:4]):
        yield [imp, burned, v, lens]


def job_check(ctx, case):
    imp, burned, v, lens = case
    d = wipe(ctx, 'job')
    root = os.path.join(d, 'r')
    want = []
    for c, n in enumerate(lens):
        rows = [[1 + (i + c) % 2, 0.5 * i + c, 10 * c + i + 0.5, ((3 * i + c) % 7) * 1.5] for i in range(n)]
        with open(root + '_%d.txt' % (c + 1), 'w') as f:
            for r in rows:
                f.write('%g %g %g %g\n' % tuple(r))
        want += rows[0 if imp or burned else int(round(n * v)):]
    with open(root + '.paramnames', 'w') as f:
        f.write('x\ny\n')
    s = loadMCSamples(root, jobItem=Job(d, imp, burned), settings={'ignore_rows': v}, no_cache=True)
    ctx.step()
    require(s.numrows == len(want) and np.allclose(s.samples[:, 0], [r[2] for r in want]), 'burn-in of an %s (burn-in removed: %s): rows %s, expected %s', 'importance-sampled run' if imp else 'ordinary run', burned, s.samples[:, 0],
            [r[2] for r in want])
    return s.numrows


def scenarios(tier):
    return [Enum('roundtrip', rt_gen, rt_check), Enum('files', files_gen, files_check), Enum('load', load_gen, load_check), Enum('ignore', ign_gen, ign_check),
            Enum('meta', meta_gen, meta_check), Enum('job', job_gen, job_check)]
