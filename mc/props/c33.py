"""Supernova likelihood: datasets written by the harness, likelihoods against the definition."""
import contextlib
import io
import itertools
import os

import numpy as np

from mc.core import Enum, require

PROPERTY = 'C33'
LEVEL = 'model_checking'
RULE = ('every selection of covariance matrices, column order, spelling, matrix file format, host-mass split and peculiar velocity; every sequence up to the depth of evaluations of one likelihood '
        '(stretch and colour coefficients, distances); marginalisation over every grid size with and without precomputed matrices')
ASSUMPTIONS = ['coefficients that differ do so by more than one part in 1e5 (closer ones may share a covariance, as the code documents by its tolerance)', 'covariances are positive definite']
NAMES = ['mag', 'stretch', 'colour', 'mag_stretch', 'mag_colour', 'stretch_colour']
N = 4
COLS = ['name', 'zcmb', 'zhel', 'dz', 'mb', 'dmb', 'x1', 'dx1', 'color', 'dcolor', '3rdvar', 'd3rdvar', 'cov_m_s', 'cov_m_c', 'cov_s_c', 'set']
ALT = {'mb': 'mag', 'x1': 'stretch', 'color': 'colour', '3rdvar': 'third_var', 'd3rdvar': 'dthird_var', 'cov_m_s': 'cov_mag_stretch', 'cov_m_c': 'cov_mag_colour', 'cov_s_c': 'cov_stretch_colour'}


def data(split):
    r = np.random.RandomState(5)
    d = dict(name=['sn%d' % i for i in range(N)], zcmb=np.array([0.1, 0.25, 0.4, 0.8]), zhel=np.array([0.11, 0.24, 0.4, 0.82]), dz=np.zeros(N), mb=np.array([18., 20.1, 21.3, 23.4]))
    d['dmb'], d['dx1'], d['dcolor'] = 0.2 + 0.05 * r.rand(N), 0.15 + 0.1 * r.rand(N), 0.1 + 0.1 * r.rand(N)
    d['x1'], d['color'] = r.standard_normal(N), 0.2 * r.standard_normal(N)
    d['3rdvar'] = {'mixed': np.array([9., 11., 10., 12.]), 'low': np.array([9., 8., 10., 7.]), 'high': np.array([11., 12., 13., 14.])}[split]
    d['d3rdvar'] = np.full(N, 0.1)
    d['cov_m_s'], d['cov_m_c'], d['cov_s_c'] = 0.002 * np.arange(N), -0.001 * np.arange(N), 0.0005 * np.arange(1, N + 1)
    d['set'] = np.arange(1, N + 1)
    return d


def covs():
    out = {}
    for k, n in enumerate(NAMES):
        r = np.random.RandomState(50 + k).standard_normal((N, N))
        out[n] = 0.02 * (r.dot(r.T) / N) if k < 3 else 0.001 * (r + r.T)
    return out


def write(d, dd, use, order, alt, fmt, split, pecz, blank):
    cols = {'given': COLS, 'rev': COLS[1:][::-1] + ['name'], 'no3': [c for c in COLS if c not in ('3rdvar', 'd3rdvar', 'set')]}[order]
    os.makedirs(d, exist_ok=True)
    with open(d + '/lc.txt', 'w') as f:
        f.write('#' + ' '.join(ALT.get(c, c) if alt else c for c in cols) + '\n')
        for i in range(N):
            f.write(' '.join(dd[c][i] if c == 'name' else '%.17g' % dd[c][i] for c in cols) + '\n')
            if blank and i == 1:
                f.write('\n')
        if blank:
            f.write('\n\n')
    L = ['name = test', 'data_file = data/lc.txt' if fmt else 'data_file = lc.txt', 'twoscriptmfit = %s' % 'FT'[split is not None], 'scriptmcut = 10.0', 'intrinsicdisp = 0']
    if pecz is not None:
        L.append('pecz = %s' % pecz)
    C = covs()
    for n in NAMES:
        L.append('has_%s_covmat = %s' % (n, 'FT'[n in use]))
        if n in use:
            L.append('%s_covmat_file = data/%s.dat' % (n, n))
            if fmt:
                np.savetxt(d + '/%s.dat' % n, C[n])
            else:
                np.savetxt(d + '/%s.dat' % n, np.concatenate([[N], C[n].ravel()]))
    with open(d + '/x.dataset', 'w') as f:
        f.write('\n'.join(L) + '\n')
    return d + '/x.dataset'


def oracle(dd, use, split, pecz, dist, alpha, beta):
    C = covs()
    z = dd['zcmb']
    pz = 0.001 if pecz is None else pecz
    pre = dd['dmb'] ** 2 + (5 / np.log(10) * pz * (1 + z) / (z * (1 + z / 2))) ** 2
    M = np.zeros((N, N))
    if 'mag' in use:
        M = M + C['mag']
    r = dd['mb'] - 5 * np.log10((1 + dd['zhel']) * (1 + z) * dist)
    if set(use) != {'mag'}:
        fac = dict(stretch=alpha ** 2, colour=beta ** 2, mag_stretch=2 * alpha, mag_colour=-2 * beta, stretch_colour=-2 * alpha * beta)
        for n in fac:
            if n in use:
                M = M + fac[n] * C[n]
        pre = pre + alpha ** 2 * dd['dx1'] ** 2 + beta ** 2 * dd['dcolor'] ** 2 + 2 * alpha * dd['cov_m_s'] - 2 * beta * dd['cov_m_c'] - 2 * alpha * beta * dd['cov_s_c']
        r = r + alpha * dd['x1'] - beta * dd['color']
    Ci = np.linalg.inv(M + np.diag(pre))
    if split == 'mixed':
        A = np.array([dd['3rdvar'] <= 10, dd['3rdvar'] > 10], dtype=float).T
    else:
        A = np.ones((N, 1))
    # flat offsets (one for each group) integrated out of exp(-chi^2/2)
    F = A.T.dot(Ci).dot(A)
    b = A.T.dot(Ci).dot(r)
    return 0.5 * (r.dot(Ci).dot(r) - b.dot(np.linalg.solve(F, b)) + np.log(np.linalg.det(F / (2 * np.pi))))



DIST = [np.array([400., 800., 1100., 1500.]), np.array([380., 790., 1180., 1620.])]
AB = [(0.14, 3.1), (0.1, 2.5), (0.14, 2.5), (0.3, 3.1), (0.14, 3.105)]


def make(*a, **kw):
    from planck.SN import SN_likelihood
    with contextlib.redirect_stdout(io.StringIO()):
        return SN_likelihood(*a, **kw)


def sel_gen():
    for k in range(1, 7):
        for use in itertools.combinations(NAMES, k):
            for order, alt, fmt, blank in (('given', 0, 0, 0), ('rev', 0, 1, 0), ('given', 1, 1, 1), ('no3', 0, 0, 1)):
                for split in (None, 'mixed', 'low', 'high'):
                    if order == 'no3' and split:
                        continue
                    for pecz in (None, 0, 0.003):
                        yield [list(use), order, alt, fmt, blank, split, pecz]


def sel_check(ctx, case):
    use, order, alt, fmt, blank, split, pecz = case
    dd = data(split or 'mixed')
    fn = write(ctx.scratch + '/dir', dd, use, order, alt, fmt, split, pecz, blank)
    names = ['alpha', 'beta'] if not fmt else ['aa', 'bb']
    like = make(fn, alpha_beta_names=names, silent=bool(fmt))
    require(np.array_equal(like.get_redshifts(), dd['zcmb']), 'redshifts %s', like.get_redshifts())
    require(like.names == dd['name'], 'names %s', like.names)
    res = []
    for k, q in ((0, 0), (1, 1), (0, 2), (0, 0)):
        a, b = AB[q]
        p = {names[0]: a, names[1]: b, 'other': 1}
        o = dict(p)
        dist = DIST[k].copy()
        got = like.loglike(dist, p)
        want = oracle(dd, use, split, pecz, DIST[k], a, b)
        ctx.step()
        require(np.isfinite(want) and abs(got - want) < 1e-6 * (1 + abs(want)), '-log likelihood %s, by definition %s (coefficients %s)', got, want, (a, b))
        require(p == o and np.array_equal(dist, DIST[k]), 'the arguments were changed')
        res.append(round(float(want), 5))
    return tuple(res)


# ---- sequences of evaluations of one likelihood
def seq_gen(depth):
    def gen():
        for use in (['mag'], ['mag', 'stretch', 'colour'], NAMES):
            for seq in itertools.product(range(len(AB) * 2), repeat=depth):
                yield [use, list(seq)]
    return gen


def seq_check(ctx, case):
    use, seq = case
    dd = data('mixed')
    fn = write(ctx.scratch + '/dir', dd, use, 'given', 0, 0, 'mixed', 0, 0)
    like = make(fn, silent=True)
    res = []
    for q in seq:
        (a, b), dist = AB[q // 2], DIST[q % 2]
        got, want = like.loglike(dist, dict(alpha=a, beta=b)), oracle(dd, use, 'mixed', 0, dist, a, b)
        ctx.step()
        require(abs(got - want) < 1e-6 * (1 + abs(want)), 'evaluation %s of one likelihood: %s, by definition %s', q, got, want)
        res.append(round(float(want), 5))
    return tuple(res)


# ---- marginalisation over the coefficients
def mar_gen():
    for use in (['mag'], ['mag', 'stretch'], ['stretch', 'colour'], NAMES):
        for split in (None, 'mixed', 'high'):
            for steps in (0, 1, 2, 3):
                for wa, wb in ((0.003, 0.04), (0.02, 0.3)):
                    for ca, cb in ((0.14, 3.123), (0.2, 2.5)):
                        for pre in (True, False):
                            for full in (0, 1):
                                yield [use, split, steps, wa, wb, ca, cb, pre, full]


def mar_check(ctx, case):
    use, split, steps, wa, wb, ca, cb, pre, full = case
    from planck import SN
    dd = data(split or 'mixed')
    fn = write(ctx.scratch + '/dir', dd, use, 'given', 0, 1, split, None, 0)
    mp = dict(marge_steps=steps, step_width_alpha=wa, step_width_beta=wb, alpha_centre=ca, beta_centre=cb)
    if not full:
        for k, v in (('step_width_alpha', 0.003), ('step_width_beta', 0.04), ('alpha_centre', 0.14), ('beta_centre', 3.123)):
            if mp[k] == v:
                del mp[k]
    o, dflt = dict(mp), dict(SN._marge_params)
    like = make(fn, marginalize=True, marginalize_params=mp, precompute_covmats=pre, alpha_beta_names=None if full else ['alpha', 'beta'], silent=True)
    require(mp == o and SN._marge_params == dflt, 'the options given were changed')
    res = []
    for k in (0, 1, 0):
        t = [np.exp(-oracle(dd, use, split, None, DIST[k], ca + i * wa, cb + j * wb)) for i in range(-steps, steps + 1) for j in range(-steps, steps + 1) if i * i + j * j <= steps * steps]
        want = -np.log(np.sum(t) * wa * wb)
        got = like.loglike(DIST[k])
        ctx.step()
        require(abs(got - want) < 1e-6 * (1 + abs(want)), 'marginalised -log likelihood %s, by definition %s', got, want)
        res.append(round(float(want), 5))
    return tuple(res)


def scenarios(tier):
    return [Enum('selection', sel_gen, sel_check), Enum('sequence', seq_gen(3 if tier == 'quick' else 4), seq_check), Enum('marginal', mar_gen, mar_check)]
