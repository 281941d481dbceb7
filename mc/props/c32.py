"""CMB band-power likelihoods: datasets written by the harness, chi-squared against the definition."""
import contextlib
import io
import itertools
import os

import numpy as np

from mc.core import Enum, require

PROPERTY = 'C32'
LEVEL = 'model_checking'
RULE = ('every selection of fields or maps (and extra required maps), of bins, of spectra in the covariance, of column orders and of name orientation; every combination of noise flags, likelihood approximation, '
        'calibration and its prior, aberration and linear correction; every field selection and multipole range of unbinned exact likelihoods; every column selection of theory files; '
        'every option combination of forecast datasets; each likelihood evaluated for a sequence of theories and parameters')
ASSUMPTIONS = ['map names are longer than one character and do not contain the separator', 'band powers with noise are positive definite',
               'calibration applies to spectra of T, E and B only, as the code documents', 'the camb package is not available, so spectra are read from files']

F = 'TEBP'
PAIRS = [F[i] + F[j] for i in range(4) for j in range(i + 1)]
HAVE = ['TT', 'ET', 'EE', 'BB', 'PP', 'PT']       # in the theory
LMIN, LMAX = 3, 9


def mods():
    import CMBlikes
    return CMBlikes


def theory(k, lmin=2, lmax=LMAX + 3):
    """spectra of the harness: dict of pair (sorted as in PAIRS) -> array from 0"""
    L = np.arange(lmax + 1, dtype=float)
    on = (L >= lmin)
    out = {}
    for n, p in enumerate(HAVE):
        base = 5 + n if p[0] == p[1] else 0.6 + 0.2 * n
        out[p] = on * (base + (1 + 0.3 * k) * np.cos(L * (0.3 + 0.1 * n) + k) * (0.8 if p[0] == p[1] else 0.2))
    return out


def th(t, f1, f2):
    return t.get(f1 + f2, t.get(f2 + f1))


def write_cls(fn, t, cols, lmin=2, header=True):
    L = np.arange(lmin, len(next(iter(t.values()))))
    with open(fn, 'w') as f:
        if header:
            f.write('# made up\n#  L %s\n' % ' '.join(cols))
        for l in L:
            f.write(' '.join(['%d' % l] + ['%.17e' % th(t, c[0], c[1])[l] if th(t, c[0], c[1]) is not None else '7.5' for c in cols]) + '\n')


def spd(n, seed, scale=1.):
    r = np.random.RandomState(seed).standard_normal((n, n + 2))
    return scale * (np.dot(r, r.T) / (n + 2) + np.eye(n))


class World(object):
    """the data of one dataset: maps with fields, and per bin the band powers, noise and fiducial of every pair"""

    def __init__(self, names, fields, nb, names_given):
        self.names, self.fields, self.nb, self.given = names, fields, nb, names_given
        n = len(names)
        self.pairs = [(i, j) for i in range(n) for j in range(i + 1)]
        self.hat = [spd(n, 10 + b, 2) + 4 * np.eye(n) for b in range(nb)]
        self.noise = [np.diag(1.5 + 0.25 * np.arange(n)) + 0.125 * b for b in range(nb)]
        self.fid = [spd(n, 30 + b, 2) + 3 * np.eye(n) for b in range(nb)]
        self.Ls = np.arange(LMIN, LMAX + 1)

    def nm(self, i, j):
        return self.names[i] + ('x' if self.given else '') + self.names[j]

    def win(self, b, i, j, kind):
        w = np.exp(-(self.Ls - LMIN - 2. * b - 0.4 * (i + 1) - 0.3 * j) ** 2 / 4)
        return w / w.sum() if kind == 0 else 0.1 * w * (1 + i)

    def orient(self, order, flip):
        return [self.nm(j, i) if (flip + q) % 2 else self.nm(i, j) for q, (i, j) in enumerate(order)]

    def table(self, fn, mats, order, flip, header=True, first=1):
        with open(fn, 'w') as f:
            if header:
                f.write('# first comment\n# bin L_av %s\n' % ' '.join(self.orient(order, flip)))
            for b, m in enumerate(mats):
                f.write(' '.join(['%d' % (b + first)] + (['%d' % (b * 3)] if header else []) + ['%.17e' % m[i, j] for i, j in order]) + '\n')

    def windows(self, d, stem, ins, kind):
        for b in range(self.nb):
            with open(os.path.join(d, '%s%d.dat' % (stem, b + 1)), 'w') as f:
                for l in range(LMIN - 1, LMAX + 2):
                    ok = LMIN <= l <= LMAX
                    f.write(' '.join(['%d' % l] + ['%.17e' % (self.win(b, i, j, kind)[l - LMIN] if ok else 0) for i, j in ins]) + '\n')


def sqrtm(m):
    w, v = np.linalg.eigh(m)
    return (v * np.sqrt(w)).dot(v.T)


def g_of(x):
    return np.sign(x - 1) * np.sqrt(2 * np.maximum(0, x - np.log(x) - 1))


def hl(C, hat, fid):
    Ci = np.linalg.inv(sqrtm(C))
    w, v = np.linalg.eigh(Ci.dot(hat).dot(Ci))
    f = sqrtm(fid)
    return f.dot((v * g_of(w)).dot(v.T)).dot(f)


def adapted(t, pair, cal, aber):
    """spectrum of a pair of fields on LMIN..LMAX"""
    c = th(t, *pair)
    c = np.zeros(LMAX - LMIN + 1) if c is None else c[LMIN:LMAX + 1].copy()
    if 'P' not in pair:
        if aber:
            L = np.arange(LMIN, LMAX + 1)
            cl = c / (L * (L + 1.))
            dv = np.empty_like(cl)
            for q in range(len(cl)):
                a = min(max(q, 1), len(cl) - 2)
                dv[q] = (cl[a + 1] - cl[a - 1]) / 2
            c = c + aber * dv * L * (L + 1.) * L
        c = c / cal ** 2
    return c


def params_file(d, name):
    with open(os.path.join(d, name), 'w') as f:
        f.write('calA cal_A\n')


def build(ctx, w, used, required, bins, covcl, approx, hat_order, flip, hat_noise, fid_noise, cal, aber, corr, scale, mode, header=True):
    """write a dataset and return (likelihood, oracle)"""
    d = ctx.scratch
    n = len(w.names)
    req = sorted(set(used) | set(required))
    pairs = w.pairs
    order = {'all': pairs, 'rev': pairs[::-1], 'rot': pairs[2:] + pairs[:2]}[hat_order]
    w.table(d + '/hat.dat', w.hat, order, flip, header)
    w.table(d + '/noise.dat', w.noise, pairs[::-1], 0)
    w.table(d + '/fid.dat', w.fid, pairs, 1)
    ins = [(i, j) for i, j in order if i in req and j in req]
    w.windows(d, 'win', ins, 0)
    lines = ['cl_lmin = %d' % LMIN, 'cl_lmax = %d' % LMAX, 'binned = T', 'nbins = %d' % w.nb, 'like_approx = ' + approx,
             'cl_hat_file = hat.dat', 'bin_window_files = %s/win%%u.dat' % d if 0 else 'bin_window_files = win%u.dat', 'bin_window_in_order = ' + ' '.join(w.orient(ins, flip))]
    if not header:
        lines.append('cl_hat_order = ' + ' '.join(w.orient(order, flip)))
    if bins != (0, w.nb - 1):
        lines += ['use_min = %d' % (bins[0] + 1), 'use_max = %d' % (bins[1] + 1)]
    if w.given:
        lines += ['map_names = ' + ' '.join(w.names), 'map_fields = ' + ' '.join(w.fields)]
        if mode == 'maps':
            lines.append('maps_use = ' + ' '.join(w.names[i] for i in used[::-1]))
        elif mode == 'fields':
            lines.append('fields_use = ' + ' '.join(sorted(set(w.fields[i] for i in used))))
        if required:
            lines.append('maps_required = ' + ' '.join(w.names[i] for i in required))
    else:
        lines.append('fields_use = ' + ' '.join(w.names[i] for i in used))
        if required:
            lines.append('fields_required = ' + ' '.join(w.names[i] for i in required))
    if approx == 'HL' or hat_noise:
        lines += ['cl_noise_file = noise.dat', 'cl_hat_includes_noise = %s' % ('T' if hat_noise else 'F')]
    if approx == 'HL':
        lines += ['cl_fiducial_file = fid.dat', 'cl_fiducial_includes_noise = %s' % ('T' if fid_noise else 'F')]
    cp = [pairs[q] for q in covcl]
    ncov = len(cp)
    cov = spd(ncov * w.nb, 77)
    np.savetxt(d + '/cov.dat', cov)
    lines += ['covmat_fiducial = cov.dat', 'covmat_cl = ' + ' '.join(w.orient(cp, flip))]
    if scale != 1:
        lines.append('covmat_scale = %s' % scale)
    if cal:
        params_file(d, 'cal.paramnames')
        lines.append('calibration_param = cal.paramnames')
        if cal == 'prior':
            lines.append('log_calibration_prior = 0.05')
    if aber:
        lines.append('aberration_coeff = %s' % aber)
    cin, cout = [], []
    if corr:
        up = [(i, j) for i, j in pairs if i in used and j in used]
        cin = [(i, i) for i in req][:2]
        cout = [up[0], up[-1]][:len(cin)]
        w.windows(d, 'lin', cin, 1)
        w.table(d + '/lfid.dat', [0.1 * m for m in w.fid], pairs, 0)
        lines += ['linear_correction_fiducial_file = lfid.dat', 'linear_correction_bin_window_files = lin%u.dat', 'linear_correction_bin_window_in_order = ' + ' '.join(w.orient(cin, 0)),
                  'linear_correction_bin_window_out_order = ' + ' '.join(w.orient(cout, 0))]
    with open(d + '/x.dataset', 'w') as f:
        f.write('\n'.join(lines) + '\n')
    M = mods()
    with contextlib.redirect_stdout(io.StringIO()):
        like = M.DatasetLikelihood(d + '/x.dataset')
    bl = list(range(bins[0], bins[1] + 1))
    sel = [q for q, (i, j) in enumerate(cp) if i in used and j in used]
    ix = [b * ncov + q for b in bl for q in sel]
    ci = np.linalg.inv(scale * cov[np.ix_(ix, ix)])
    ug = np.ix_(used, used)
    pos = {m: k for k, m in enumerate(used)}

    def oracle(t, c):
        X, binned = [], []
        for b in bl:
            C = np.zeros((n, n))
            for i, j in ins:
                if i in used and j in used:
                    C[i, j] += w.win(b, i, j, 0).dot(adapted(t, (w.fields[i], w.fields[j]), c, aber))
            for (i, j), (o, p) in zip(cin, cout):
                C[o, p] += w.win(b, i, j, 1).dot(adapted(t, (w.fields[i], w.fields[j]), c, aber))
            if corr:
                for i, j in pairs:
                    C[i, j] -= 0.1 * w.fid[b][i, j]
            C = np.tril(C) + np.tril(C, -1).T
            C, hat, noise, fid = C[ug], w.hat[b][ug], w.noise[b][ug], w.fid[b][ug]
            binned.append([C[i, j] for i in range(len(used)) for j in range(i + 1)])
            if approx == 'gaussian':
                D = C - (hat - (noise if hat_noise else 0))
            else:
                D = hl(C + noise, hat + (0 if hat_noise else noise), fid + (0 if fid_noise else noise))
            X += [D[pos[cp[q][0]], pos[cp[q][1]]] for q in sel]
        X = np.array(X)
        chi = X.dot(ci).dot(X)
        if cal == 'prior':
            chi += (np.log(c) / 0.05) ** 2
        return chi, np.array(binned)

    return like, oracle


def cls_of(ctx, k):
    fn = os.path.join(ctx.scratch, 'theory%d.dat' % k)
    write_cls(fn, theory(k), HAVE if k % 2 else [p[::-1] for p in HAVE[::-1]])
    return mods().ClsArray(fn)


def near(a, b, what):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    require(a.shape == b.shape and np.allclose(a, b, rtol=1e-8, atol=1e-8), '%s: %s, by definition %s', what, a.tolist() if a.size < 7 else '', b.tolist() if b.size < 7 else '')


def evaluate(ctx, like, oracle, cal):
    arrs = [cls_of(ctx, 0), cls_of(ctx, 1)]
    before = [[None if q is None else q.copy() for q in a.cls_array.ravel()] for a in arrs]
    res = []
    for k, c in ((0, 1.), (1, 1.25), (0, 1.25), (0, 1.)):
        want, binned = oracle(theory(k), c if cal else 1.)
        p = {'calA': c, 'other': 3} if cal or c != 1 else {}
        got = like.chi_squared(arrs[k], p)
        near(got, want, 'chi-squared of theory %s with calibration %s' % (k, c))
        near(like.get_binned_theory(arrs[k], p), binned, 'binned theory %s' % k)
        g2 = like.chi_squared(arrs[k], p, return_binned_theory=True)
        near(g2[0], want, 'chi-squared again')
        near(g2[1], binned, 'binned theory returned')
        ctx.step(3)
        res.append(round(float(want), 6))
    for a, o in zip(arrs, before):
        require(all((x is None and y is None) or np.array_equal(x, y) for x, y in zip(a.cls_array.ravel(), o)), 'the theory spectra were changed')
    return tuple(res)


FIELDS = lambda nb: World(list(F), list(F), nb, False)
MAPS = lambda nb: World(['a1', 'b1', 'a2', 'c1'], ['T', 'E', 'T', 'P'], nb, True)


# ---- selections
def sel_gen(tier):
    def gen():
        for world in 'fm':
            for r in range(1, 5):
                for used in itertools.combinations(range(4), r):
                    if world == 'm':
                        modes = ['maps']
                        fl = [MAPS(1).fields[i] for i in used]
                        if set(used) == set(i for i in range(4) if MAPS(1).fields[i] in fl):
                            modes.append('fields')
                        if r == 4:
                            modes.append('none')
                    else:
                        modes = ['fields']
                    for mode in modes:
                        for extra in [[]] + [[i] for i in range(4) if i not in used][:2]:
                            up = [q for q, (i, j) in enumerate(FIELDS(1).pairs) if i in used and j in used]
                            covs = [list(range(10)), list(range(10))[::-1], up, up[::2]]
                            if r == 1:
                                covs = covs[:3]
                            for cov in covs:
                                for approx in ('gaussian', 'HL'):
                                    for order, flip in ((('all', 0), ('rev', 1)) if tier == 'quick' else itertools.product(('all', 'rev', 'rot'), (0, 1))):
                                        yield [world, list(used), extra, mode, cov, approx, order, flip]
    return gen


def sel_check(ctx, case):
    world, used, extra, mode, cov, approx, order, flip = case
    w = FIELDS(2) if world == 'f' else MAPS(2)
    like, oracle = build(ctx, w, used, extra, (0, 1), cov, approx, order, flip, False, False, None, 0, False, 1, mode)
    return evaluate(ctx, like, oracle, None)


# ---- bins and options
def opt_gen(tier):
    def gen():
        nb = 3
        for world, used, extra in (('f', [0], []), ('f', [0, 1], []), ('f', [0, 1], [2]), ('m', [0, 1], []), ('m', [0, 2], [1]), ('m', [1, 3], [0])):
            rng = [(a, b) for a in range(nb) for b in range(a, nb)]
            for bins in rng:
                for approx in ('gaussian', 'HL'):
                    for hn, fn in ((0, 0), (1, 0), (0, 1), (1, 1)):
                        if approx == 'gaussian' and fn:
                            continue
                        for cal, aber, corr in itertools.product((None, 'cal', 'prior'), (0, 0.01), (0, 1)):
                            if tier == 'quick' and bins != (0, 2) and (cal == 'cal' or aber and corr):
                                continue
                            yield [world, used, extra, list(bins), approx, hn, fn, cal, aber, corr]
    return gen


def opt_check(ctx, case):
    world, used, extra, bins, approx, hn, fn, cal, aber, corr = case
    w = FIELDS(3) if world == 'f' else MAPS(3)
    cov = [0, 1, 2, 5, 4] if not corr else [2, 0, 3, 5, 9, 8, 6]
    like, oracle = build(ctx, w, used, extra, tuple(bins), cov, approx, 'rot', hn, hn, fn, cal, aber, corr, 1 if hn else 2.5, 'maps', header=bool(fn or corr or bins[0]))
    return evaluate(ctx, like, oracle, cal)


# ---- unbinned, exact
def ex_gen():
    for r in range(1, 4):
        for used in itertools.combinations(range(4), r):
            for lo in (LMIN, LMIN + 2):
                for hi in (LMAX, LMAX - 1):
                    for hn in (0, 1):
                        for order in ('all', 'rev'):
                            for cal in (None, 'cal', 'prior'):
                                for fsky in (1, 0.6):
                                    yield [list(used), lo, hi, hn, order, cal, fsky]


def ex_check(ctx, case):
    used, lo, hi, hn, order, cal, fsky = case
    d = ctx.scratch
    w = World(list(F), list(F), LMAX - LMIN + 3, False)
    pairs = w.pairs[::-1] if order == 'rev' else w.pairs
    w.table(d + '/hat.dat', w.hat, pairs, hn, order == 'rev', first=LMIN - 1)
    w.table(d + '/noise.dat', w.noise, w.pairs, 0, first=LMIN - 1)
    lines = ['fields_use = ' + ' '.join(F[i] for i in used[::-1]), 'cl_lmin = %d' % LMIN, 'cl_lmax = %d' % LMAX, 'binned = F', 'like_approx = exact', 'cl_hat_file = hat.dat', 'cl_noise_file = noise.dat',
             'cl_hat_includes_noise = ' + 'FT'[hn], 'fullsky_exact_fksy = %s' % fsky]
    if order != 'rev':
        lines.append('cl_hat_order = ' + ' '.join(w.orient(pairs, hn)))
    if lo != LMIN:
        lines.append('use_min = %d' % lo)
    if hi != LMAX:
        lines.append('use_max = %d' % hi)
    if cal:
        params_file(d, 'n.paramnames')
        lines += ['nuisance_params = n.paramnames', 'calibration_paramname = calA']
        if cal == 'prior':
            lines.append('log_calibration_prior = 0.05')
    with open(d + '/x.dataset', 'w') as f:
        f.write('\n'.join(lines) + '\n')
    like = mods().DatasetLikelihood(d + '/x.dataset')
    arrs = [cls_of(ctx, 0), cls_of(ctx, 1)]
    ug = np.ix_(used, used)
    res = []
    for k, c in ((0, 1.), (1, 1.25), (0, 1.)):
        t = theory(k)
        want = 0
        for l in range(lo, hi + 1):
            C = np.array([[adapted(t, (F[i], F[j]), c if cal else 1., 0)[l - LMIN] for j in used] for i in used])
            b = l - LMIN + 1
            C = C + w.noise[b][ug]
            hat = w.hat[b][ug] + (0 if hn else w.noise[b][ug])
            m = np.linalg.solve(C, hat)
            want += (2 * l + 1) * fsky * (np.trace(m) - len(used) - np.log(np.linalg.det(m)))
        if cal == 'prior':
            want += (np.log(c) / 0.05) ** 2
        near(like.chi_squared(arrs[k], {'calA': c} if cal else {}), want, 'exact chi-squared of theory %s' % k)
        ctx.step()
        res.append(round(float(want), 6))
    return tuple(res)


# ---- theory files
def cls_gen():
    for n in range(1, 4):
        for cols in itertools.permutations(['TT', 'TE', 'EE', 'PT'][:4], n):
            for flip in (0, 1):
                for lmin in (0, 2):
                    for header in (0, 1):
                        for add in (None, ['TT', 'BB'], ['TE', 'PP']):
                            yield [list(cols), flip, lmin, header, add]


def cls_check(ctx, case):
    cols, flip, lmin, header, add = case
    M = mods()
    t = theory(0, lmin)
    t2 = theory(1, 3, LMAX if flip else LMAX + 6)
    fcols = [c[::-1] if flip else c for c in cols]
    fn = ctx.scratch + '/t.dat'
    write_cls(fn, t, fcols, lmin, bool(header))
    scale = 2.5 if lmin else None
    with contextlib.redirect_stdout(io.StringIO()):
        a = M.ClsArray(fn, cols=None if header else ['L'] + fcols if flip else 'L ' + ' '.join(fcols), **({'rescale': scale} if scale else {}))
        if add:
            fn2 = ctx.scratch + '/t2.dat'
            write_cls(fn2, t2, add, 3)
            a.add_from_file(fn2)
    ctx.step()
    require(a.lmax == LMAX + 3 and a.lmin == lmin, 'multipole range %s %s', a.lmin, a.lmax)
    n = LMAX + 4
    for i, j in itertools.product(range(4), repeat=2):
        p = [F[i] + F[j], F[j] + F[i]]
        if any(c in p for c in cols):
            want = th(t, F[i], F[j]) * (scale or 1)
        elif add and any(c in p for c in add):
            want = np.zeros(n)
            src = th(t2, F[i], F[j])
            m = min(n, len(src))
            want[:m] = src[:m]
        else:
            want = None
        got = a.get((i, j))
        require((got is None) == (want is None), '%s: %s', p[0], 'missing' if got is None else 'not in the files')
        if want is not None:
            near(got, want, p[0])
    return (tuple(cols), flip, str(add))


# ---- forecast datasets
def fc_gen():
    for have in (['TT'], ['TT', 'TE', 'EE'], ['TT', 'EE', 'BB', 'TE'], ['TT', 'TE', 'EE', 'BB', 'PP', 'PT']):
        for fields in (None, 'T', 'E', 'T E', 'T E B', 'T P', 'P'):
            if fields and any(f not in ''.join(have) for f in fields.split()):
                continue
            for noise in ('var', 'muk', 'mukp', 'none'):
                for lens in (0, 1, 2):
                    if noise == 'none' and (not lens or fields not in (None, 'P') or 'PP' not in have):
                        continue
                    if lens and 'PP' not in have or fields and 'P' in fields and not lens:
                        continue
                    for lmin, lmax in ((2, 8), (3, 9)):
                        for header in (0, 1):
                            yield [have, fields, noise, lens, lmin, lmax, header]


def fc_check(ctx, case):
    have, fields, noise, lens, lmin, lmax, header = case
    import makePerfectForecastDataset as mp
    d = ctx.scratch
    t = {p: c for p, c in theory(0).items() if p in have or p[::-1] in have}
    fn = d + '/fid_theory.dat'
    write_cls(fn, t, have, 2, bool(header))
    raw = open(fn).read()
    recon = 0.5 + 0.1 * np.arange(lmax + 1)
    kw = dict(lmin=lmin, lmax=lmax, fsky=0.7)
    if fields:
        kw['fields_use'] = fields
    if lens:
        kw['lens_recon_noise'] = recon if lens == 1 else list(recon)
    if not header:
        kw['cl_data_cols'] = ' '.join(have)
    nv, fac, fwhm = 0.02, 2, 600.
    if noise == 'var':
        kw.update(NoiseVar=nv, ENoiseFac=4, fwhm_arcmin=fwhm)
        fac = 4
    elif noise in ('muk', 'mukp'):
        kw.update(noise_muK_arcmin_T=500., fwhm_arcmin=fwhm)
        nv = (500 * np.pi / 180 / 60.) ** 2
        if noise == 'mukp':
            kw['noise_muK_arcmin_P'] = 750.
            fac = 2.25
    out = d + '/out/sub'
    mp.make_forecast_cmb_dataset(fn, 'sim', output_dir=out, **kw)
    ctx.step()
    require(open(fn).read() == raw, 'the input spectra were changed')
    require(sorted(os.listdir(out)) == ['sim.dat', 'sim.dataset', 'sim_Noise.dat'], 'files written: %s', sorted(os.listdir(out)))
    if fields:
        use = fields.split()
    elif noise == 'none':
        use = ['P']
    else:
        use = [f for f in 'TEB' if f + f in have] + (['P'] if lens and 'PP' in have else [])
    M = mods()
    with contextlib.redirect_stdout(io.StringIO()):
        like = M.DatasetLikelihood(out + '/sim.dataset')
    a0 = M.ClsArray(fn, cols=None if header else ['L'] + have)
    near(like.chi_squared(a0), 0, 'chi-squared of the fiducial model')
    tt = {p: c for p, c in theory(1).items() if p in t}
    fn1 = d + '/other.dat'
    write_cls(fn1, tt, have, 2)
    want = 0
    s2 = (fwhm / 60 * np.pi / 180) ** 2 / (8 * np.log(2))
    for l in range(lmin, lmax + 1):
        base = l * (l + 1.) / 2 / np.pi * nv * np.exp(l * (l + 1) * s2)
        N = np.diag([recon[l] if f == 'P' else base * (1 if f == 'T' else fac) for f in use])
        get = lambda s: np.array([[0 if th(s, f, g) is None else th(s, f, g)[l] for g in use] for f in use])
        m = np.linalg.solve(get(tt) + N, get(t) + N)
        want += (2 * l + 1) * 0.7 * (np.trace(m) - len(use) - np.log(np.linalg.det(m)))
    got = like.chi_squared(M.ClsArray(fn1))
    require(abs(got - want) < 3e-4 * (1 + abs(want)), 'chi-squared of another model %s, expected %s for fields %s', got, want, use)
    near(like.chi_squared(a0), 0, 'chi-squared of the fiducial model again')
    return (use, noise, round(float(want), 5))


def scenarios(tier):
    return [Enum('selection', sel_gen(tier), sel_check), Enum('options', opt_gen(tier), opt_check), Enum('exact', ex_gen, ex_check),
            Enum('spectra', cls_gen, cls_check), Enum('forecast', fc_gen, fc_check)]
