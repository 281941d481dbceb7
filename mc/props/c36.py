"""CamSpec likelihood: datasets written by the harness, likelihood, co-added spectra and differences against the definition."""
import contextlib
import copy
import io
import itertools
import os
import shutil

import numpy as np

from mc.core import Enum, require

PROPERTY = 'C36'
LEVEL = 'model_checking'
RULE = ('select: every subset of the six spectra with every way of giving multipole ranges, in the dataset or as overrides, loaded twice (computed and cached inverse); nuisance: every single and pair of changed nuisance parameters; '
        'cache: every sequence up to the depth of loads of two selections, changed covariance and data files and removed caches; coadd: every subset of the temperature spectra, ranges, calibrations and given or computed foregrounds; diff: every pair of spectra and ranges')
ASSUMPTIONS = ['spectra are listed in the standard order', 'co-addition is of a temperature-only selection with every multipole of its range in some spectrum', 'differences are of spectra with contiguous ranges']
TT = ['100x100', '143x143', '217x217', '143x217']
NAMES = TT + ['TE', 'EE']
RANGES = {'100x100': (2, 7), '143x143': (3, 9), '217x217': (4, 10), '143x217': (3, 10), 'TE': (2, 6), 'EE': (3, 8)}
TOP = 14
TEMPL = ['sz143', 'ksz', 'tszxcib', 'cib217']
DUST = ['dust100', 'dust143', 'dust217', 'dust143x217']
PIVOT = 3000
FID = dict(aps100=200., aps143=45., aps217=90., psr=0.8, dust100=1.1, dust143=0.9, dust217=1.3, dust143x217=0.7, acib217=40., cibr=0.9, ncib=-0.3, cibrun=0.1, asz143=5., xi=0.3, aksz=3., calPlanck=1.002, cal0=0.99, cal2=1.01, calTE=1.02, calEE=0.98)
ALTV = dict(aps100=150., aps143=60., aps217=70., psr=0.6, dust100=2., dust143=1.7, dust217=2.4, dust143x217=1.6, acib217=25., cibr=0.5, ncib=0.8, cibrun=-0.2, asz143=2., xi=0.9, aksz=6., calPlanck=0.99, cal0=1.03, cal2=0.95, calTE=0.9, calEE=1.1, acib143=7.)


def template(name, L):
    k = (TEMPL + DUST).index(name)
    return (1.5 + k) * (1 + 0.1 * L * (1 + 0.2 * k) + 0.01 * L * ((L + k) % 4))


def norm(name, L):
    return 0. if L < 2 else template(name, L) / (template(name, PIVOT) if name in TEMPL else 1)


_files = {}


def template_text(name):
    if name not in _files:
        _files[name] = ''.join('%d %.15g\n' % (L, template(name, L)) for L in range(2, (PIVOT + 3 if name in TEMPL else TOP + 4)))
    return _files[name]


def spectra(seed=0):
    r = np.random.RandomState(11 + seed)
    return 30 + 5 * r.rand(TOP + 1, 6)


def present(absent):
    return [n for n in NAMES if n not in absent]


def full_cov(absent, seed=0):
    n = sum(RANGES[s][1] - RANGES[s][0] + 1 for s in present(absent))
    r = np.random.RandomState(7 + seed).standard_normal((n, n + 10))
    return (r.dot(r.T) / n + np.eye(n) * 0.5).astype(np.float32).astype(np.float64)


def write(d, absent, lines, bits='', seed=0):
    os.makedirs(d, exist_ok=True)
    for n in TEMPL + DUST:
        with open('%s/%s.dat' % (d, n), 'w') as f:
            f.write(template_text(n))
    np.savetxt(d + '/cl.dat', spectra(seed), fmt='%.17g')
    full_cov(absent, seed).astype(np.float64 if bits else np.float32).tofile('%s/cov%s.bin' % (d, bits))
    with open(d + '/ranges.dat', 'w') as f:
        for n in NAMES:
            f.write('%s %d %d\n' % ((n,) + ((0, 0) if n in absent else RANGES[n])))
        f.write('\n\n')
    with open(d + '/x.dataset', 'w') as f:
        f.write('\n'.join(['cl_hat_file = cl.dat', 'covmat_cl = ' + ' '.join(NAMES), 'data_ranges = ranges.dat', 'covmat_fiducial = cov%s.bin' % bits] +
                          ['%sfile = %s.dat' % (n, n) for n in TEMPL + DUST] + lines) + '\n')


def ells_of(text):
    out = []
    for x in text.split():
        a = [int(y) for y in x.split('-')]
        out += list(range(a[0], a[-1] + 1))
    return out


def used(sel, rng, absent=()):
    """list of (spectrum index, L, index in the full covariance)"""
    out, ix = [], 0
    for i, n in enumerate(NAMES):
        if n in absent:
            continue
        for L in range(RANGES[n][0], RANGES[n][1] + 1):
            r = rng.get(n) if isinstance(rng, dict) else rng
            if n in sel and (r is None or L in (ells_of(r) if isinstance(r, str) else list(r))):
                out.append((i, L, ix))
            ix += 1
    return out


def foreground(i, L, p):
    b100, c143, b143, c217 = 2.022, 1.134, 0.95, 1.33
    lr = np.log(L / float(PIVOT))
    cib = np.exp(p['ncib'] * lr + p['cibrun'] * lr ** 2 / 2) * norm('cib217', L)
    a143 = p.get('acib143', -1)
    if a143 < 0:
        a143 = .094 * p['acib217'] / c143 * c217
    k = p['aksz'] * norm('ksz', L)
    sz, x = norm('sz143', L), norm('tszxcib', L)
    A, B, S = a143 * c143, p['acib217'] * c217, p['asz143'] * b143
    ps = [p['aps100'], p['aps143'], p['aps217'], p['psr'] * np.sqrt(p['aps143'] * p['aps217'])][i] * 1e-6 / 9 * L * (L + 1)
    f = [k + p['asz143'] * b100 * sz, A * cib + k + S * sz - 2 * np.sqrt(A * S) * p['xi'] * x, B * cib + k, p['cibr'] * np.sqrt(A * B) * cib + k - np.sqrt(B * S) * p['xi'] * x][i]
    return f + p[['dust100', 'dust143', 'dust217', 'dust143x217'][i]] * norm(DUST[i], L) + ps


def cal(i, p):
    c = [p.get('cal0', 1), 1, p.get('cal2', 1), np.sqrt(p.get('cal2', 1)), p.get('calTE', 1), p.get('calEE', 1)][i]
    return c * p.get('calPlanck', 1) ** 2


def theory(seed):
    r = np.random.RandomState(90 + seed)
    return {s: {L: 30 + 4 * r.rand() for L in range(2, TOP + 3)} for s in ('TT', 'TE', 'EE')}


def theory_file(d, th):
    with open(d + '/th.dat', 'w') as f:
        f.write('# L TT EE TE\n' + ''.join('%d %.17g %.17g %.17g\n' % (L, th['TT'][L], th['EE'][L], th['TE'][L]) for L in sorted(th['TT'])))
    from CMBlikes import ClsArray
    return ClsArray(d + '/th.dat')


def predicted(i, L, th, p):
    if i < 4:
        return (th['TT'][L] + foreground(i, L, p)) / cal(i, p)
    return th['TE' if i == 4 else 'EE'][L] / cal(i, p)


def chi2(points, th, p, absent=(), seed=0):
    D = spectra(seed)
    delta = np.array([D[L, i] - predicted(i, L, th, p) for i, L, _ in points])
    ix = [k for _, _, k in points]
    return delta.dot(np.linalg.solve(full_cov(absent, seed)[np.ix_(ix, ix)], delta))


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
        yield


def load(fn, over):
    from planck.CMB_CamSpec import CamSpec_likelihood
    keep = copy.deepcopy(over)
    with quiet():
        like = CamSpec_likelihood(fn, over)
    require(list(over) == list(keep) and all(str(over[k]) == str(keep[k]) for k in keep), 'the settings passed were changed: %s', {k: v for k, v in over.items() if str(v) != str(keep.get(k))})
    return like


def near(a, b, what, *args, rtol=1e-8):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    require(a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=1e-9 * (1 + np.abs(b).max() if b.size else 1)), what + ': %s, expected %s', *(args + (np.round(a.ravel()[:6], 8).tolist(), np.round(b.ravel()[:6], 8).tolist())))


RSPEC = [None, '4-6 8', '5', '2 3-5 7-30', {'143x143': '4-7', 'TE': '3 5'}, {'100x100': '3', '217x217': '4-6 8-10', 'EE': '4-8', 'TE': '2-4'}, {'217x217': [4, 6, 7], '143x217': '5-5 6'}]
SUBSETS = [[n for k, n in enumerate(NAMES) if m & (1 << k)] for m in range(1, 64)]


def gen_select(tier):
    def gen():
        for m, r in itertools.product(range(63), range(len(RSPEC))):
            for where in ('over', 'file') if r < 4 else ('over',):
                for absent in ([], ['100x100'], ['143x217', 'TE']):
                    if tier == 'quick' and (m + r + len(absent)) % 2 and (absent or where == 'file'):
                        continue
                    yield [m, r, where, absent]
    return gen


def chk_select(ctx, case):
    m, r, where, absent = case
    sel, rng = SUBSETS[m], RSPEC[r]
    points = used(sel, rng, absent)
    if not points:
        return 'nothing'
    d = ctx.newdir()
    over, lines = {}, []
    if where == 'over':
        over['use_cl'] = ' '.join(sel)
        if rng is not None:
            over['use_range'] = copy.deepcopy(rng)
    else:
        lines.append('use_cl = ' + ' '.join(sel[::-1]))
        if rng is not None:
            lines.append('use_range = ' + rng)
    write(d, absent, lines, '64' if m % 3 == 0 else '')
    files = sorted(os.listdir(d))
    ths = [theory(0), theory(1)]
    ps = [dict(FID), dict(FID, **{k: ALTV[k] for k in ('aps143', 'ncib', 'cal2', 'calTE', 'calEE', 'xi')})]
    if not set(sel) & set(TT) - set(absent):
        ps.append({})
    cls = [theory_file(d, th) for th in ths]
    os.unlink(d + '/th.dat')
    for again in range(2):
        like = load(d + '/x.dataset', over)
        require(len(like.data_vector) == len(points), '%s data points, expected %s', len(like.data_vector), len(points))
        near(like.data_vector, [spectra()[L, i] for i, L, _ in points], 'data vector')
        for order in ((0, 1), (1, 0)):
            for t in order:
                if set(sel) & set(TT):
                    for p in ps[:2]:
                        q = dict(p)
                        with quiet():
                            got = like.chi_squared(cls[t], q)
                        ctx.step()
                        require(q == p, 'parameters changed')
                        near(got, chi2(points, ths[t], p, absent), 'chi-squared of %s in %s (%s)', sel, rng, ('computed', 'cached')[again])
                else:
                    for p in ps:
                        near(like.chi_squared(cls[t], dict(p)), chi2(points, ths[t], p, absent), 'chi-squared of %s in %s (%s)', sel, rng, ('computed', 'cached')[again])
    require(set(files) <= set(os.listdir(d)), 'files removed')
    shutil.rmtree(d)
    return '%s %s' % (len(points), r)


def gen_nuis():
    ks = list(ALTV)
    for k in ks:
        yield [k]
    for a, b in itertools.combinations(ks, 2):
        yield [a, b]
    yield ks


_base = {}


def fixed(ctx):
    if 'like' not in _base:
        d = ctx.newdir()
        write(d, [], [])
        _base['like'] = load(d + '/x.dataset', {})
        _base['ths'] = [theory(0), theory(1)]
        _base['cls'] = [theory_file(d, t) for t in _base['ths']]
    return _base['like'], _base['ths'], _base['cls']


def chk_nuis(ctx, keys):
    like, ths, cls = fixed(ctx)
    points = used(NAMES, None)
    for p in (dict(FID, **{k: ALTV[k] for k in keys}), {k: v for k, v in FID.items() if k not in keys or not k.startswith('cal')}):
        with quiet():
            f = like.get_foregrounds(p)
        ctx.step()
        for i in range(4):
            near([f[i][L] for L in range(RANGES[TT[i]][0], RANGES[TT[i]][1] + 1)], [foreground(i, L, p) for L in range(RANGES[TT[i]][0], RANGES[TT[i]][1] + 1)], 'foreground of %s', TT[i])
        near(like.get_cals(p), [cal(i, p) for i in range(6)], 'calibrations')
        for t in (0, 1):
            with quiet():
                near(like.chi_squared(cls[t], p), chi2(points, ths[t], p), 'chi-squared')
        with quiet():
            near(like.chi_squared(cls[0], FID), chi2(points, ths[0], FID), 'chi-squared of the first parameters again')
    return ' '.join(keys)


OPS = ['A', 'B', 'newcov', 'newbits', 'rmcache', 'copy']
SELS = {'A': ['143x143', 'TE'], 'B': ['143x143', '217x217', 'EE']}


def gen_cache(tier):
    def gen():
        for n in range(1, 5 if tier == 'quick' else 6):
            for seq in itertools.product(OPS, repeat=n):
                if seq[-1] in SELS and not any(x == y and x not in SELS for x, y in zip(seq, seq[1:])):
                    yield list(seq)
    return gen


def chk_cache(ctx, seq):
    d = ctx.newdir()
    seed, bits, k = 0, '', 0
    write(d, [], [], bits, seed)
    th = theory(0)
    cl = theory_file(d, th)
    for op in seq:
        ctx.step()
        if op == 'newcov':
            seed = 1 - seed
            write(d, [], [], bits, seed)
        elif op == 'newbits':
            bits = '' if bits else '64'
            write(d, [], [], bits, seed)
        elif op == 'rmcache':
            for f in os.listdir(d):
                if f.endswith('.npy'):
                    os.unlink(os.path.join(d, f))
        elif op == 'copy':
            k += 1
            e = ctx.newdir()
            shutil.rmtree(e)
            shutil.copytree(d, e)
            d = e
        else:
            like = load(d + '/x.dataset', {'use_cl': ' '.join(SELS[op])})
            with quiet():
                got = like.chi_squared(cl, FID)
            near(got, chi2(used(SELS[op], None), th, FID, seed=seed), 'chi-squared after %s', seq)
    return ' '.join(seq[-2:])


def gen_coadd():
    for m in range(1, 16):
        for r in (None, '4-6 8-30', '5', '4 6-7', {'143x143': '4-7', '143x217': '3-8'}):
            for how in ('params', 'foregrounds', 'cals', 'both'):
                for k in range(3):
                    yield [m, r, how, k]


def chk_coadd(ctx, case):
    m, rng, how, k = case
    sel = [n for j, n in enumerate(TT) if m & (1 << j)]
    points = used(sel, rng)
    Ls = sorted(set(L for _, L, _ in points))
    if not points or Ls != list(range(Ls[0], Ls[-1] + 1)):
        return 'gap'
    p = [FID, dict(FID, cal0=0.9, cal2=1.2, calPlanck=1.1), dict(FID, **{x: ALTV[x] for x in ('ncib', 'aps217', 'dust143', 'cal0')})][k]
    d = ctx.newdir()
    write(d, [], [])
    over = {'use_cl': ' '.join(sel)}
    if rng is not None:
        over['use_range'] = copy.deepcopy(rng)
    like = load(d + '/x.dataset', over)
    ctx.step()
    args = {}
    with quiet():
        if how in ('foregrounds', 'both'):
            args['foregrounds'] = like.get_foregrounds(p)
        if how in ('cals', 'both'):
            args['cals'] = like.get_cals(p)
        if how != 'both':
            args['data_params'] = p
    ix = [j for _, _, j in points]
    cinv = np.linalg.inv(full_cov([])[np.ix_(ix, ix)])
    A = np.zeros((len(points), len(Ls)))
    for a, (i, L, _) in enumerate(points):
        A[a, Ls.index(L)] = 1 / cal(i, p)
    cov = np.linalg.inv(A.T.dot(cinv).dot(A))
    before = like.data_vector.copy()

    def expect(vec, fg=True):
        y = np.array([v - fg * foreground(i, L, p) / cal(i, p) for v, (i, L, _) in zip(vec, points)])
        return cov.dot(A.T).dot(cinv).dot(y)
    vec = [spectra()[L, i] for i, L, _ in points]
    with quiet():
        C, pc = like.coadded_TT(**args)
        C2 = like.coadded_TT(want_cov=False, **args)
        other = np.arange(len(points)) * 0.7 + 3
        C3 = like.coadded_TT(want_cov=False, data_vector=other, **args)
    near(C[Ls], expect(vec), 'co-added spectrum')
    near(C2[Ls], expect(vec), 'co-added spectrum without covariance')
    near(C3[Ls], expect(other), 'co-added spectrum of other data')
    near(pc, cov, 'covariance of the co-added spectrum')
    require(not any(C[L] for L in range(len(C)) if L not in Ls), 'co-added spectrum outside the range')
    require(np.array_equal(like.data_vector, before) and other[0] == 3, 'data changed')
    if m == 15 and how == 'params':
        with quiet():
            W = like.get_weights(p)
        require(len(W) == 4, 'weights')
        for i, (ells, w) in enumerate(W):
            mine = [L for j, L, _ in points if j == i]
            require(list(ells) == mine, 'multipoles of the weights')
            near(w, expect([float(j == i) for j, _, _ in points], 0)[[Ls.index(L) for L in mine]], 'weights of %s', TT[i])
    shutil.rmtree(d)
    return str(len(Ls))


def gen_diff():
    for a, b in itertools.permutations(range(4), 2):
        for r in (None, '5-7', {'100x100': '3-6', '217x217': '5-9', '143x217': '4-9'}):
            for k in range(2):
                for rest in (False, True):
                    yield [a, b, r, k, rest]


def chk_diff(ctx, case):
    a, b, rng, k, rest = case
    sel = NAMES if rest else [TT[min(a, b)], TT[max(a, b)]]
    p = [FID, dict(FID, cal0=0.9, cal2=1.2, calPlanck=1.1)][k]
    d = ctx.newdir()
    write(d, [], [])
    over = {'use_cl': ' '.join(sel)}
    if rng is not None:
        over['use_range'] = copy.deepcopy(rng)
    like = load(d + '/x.dataset', over)
    ctx.step()
    points = used(sel, rng)
    ix = {(i, L): j for i, L, j in points}
    Ls = [L for L in range(2, TOP) if (a, L) in ix and (b, L) in ix]
    with quiet():
        ells, diff, cov = like.diff(TT[a], TT[b], p)
    require(list(ells) == Ls, 'multipoles %s, expected %s', list(ells), Ls)
    D = spectra()
    near(diff, [D[L, a] * cal(a, p) - foreground(a, L, p) - (D[L, b] * cal(b, p) - foreground(b, L, p)) for L in Ls], 'difference')
    F = full_cov([])
    near(cov, [[cal(a, p) ** 2 * F[ix[a, L], ix[a, M]] + cal(b, p) ** 2 * F[ix[b, L], ix[b, M]] - cal(a, p) * cal(b, p) * (F[ix[b, L], ix[a, M]] + F[ix[a, L], ix[b, M]]) for M in Ls] for L in Ls], 'covariance of the difference')
    shutil.rmtree(d)
    return str(Ls)


def scenarios(tier):
    return [Enum('select', gen_select(tier), chk_select), Enum('nuisance', gen_nuis, chk_nuis), Enum('cache', gen_cache(tier), chk_cache), Enum('coadd', gen_coadd, chk_coadd), Enum('diff', gen_diff, chk_diff)]
