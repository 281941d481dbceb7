"""Kernel density estimates: symmetries of the samples, hard bounds, direct kernel sums, known distributions."""
import itertools
import logging

import numpy as np
from scipy.stats import norm

from mc.core import Enum, require
from mc.gridlib import quiet
from getdist.mcsamples import MCSamples

PROPERTY = 'C23'
LEVEL = 'model_checking'
RULE = ('1D: every sample shape (tail behaviour, hard bounds on none, either or both sides) x smoothing scale (automatic, fraction of the standard deviation, number of bins) x boundary correction order x multiplicative bias '
        'order x grid size x with/without likelihoods; 2D: every correlation x bounds of either parameter x the same settings; on each, every transformation (reorder, rescale weights, split weights, shift and scale, reflect either axis, exchange axes, '
        'add and reorder columns, settings given per call or per object) is applied and the result compared on the whole grid; fixed smoothing is compared with direct kernel sums and automatic smoothing with the distribution sampled; ranged: samples with isolated points and long tails, plotted ranges and contour levels against direct sums')
ASSUMPTIONS = ['samples lie within their bounds', 'fixed deterministic sample sets of 600-4000 points', 'automatic bandwidths are compared for samplers marked as uncorrelated (otherwise they depend on sample order by design), not under '
               'splitting of weights (fewer distinct samples need more smoothing)', 'automatic bandwidth comparisons allow for the tolerance of the bandwidth optimiser']

logging.disable(logging.WARNING)


def q(n):
    return (np.arange(n) + 0.5) / n


def perm(n, k):
    """fixed permutation"""
    return np.random.RandomState(k).permutation(n)


SHAPES = ('gauss', 'half', 'trunc', 'uniform', 'exp', 'bimodal', 'farbound', 'top', 'rising')
# settings for the range used: a wide quantile range with single samples beside the bounds; the projected region of high likelihood
RANGED = {'loner': dict(range_confidence=0.02), 'tails': dict(range_ND_contour=1), 'tails0': dict(range_ND_contour=0)}


def shape(kind, n):
    """deterministic samples of a known distribution; hard bounds; its density"""
    u = q(n)
    if kind == 'gauss':
        return norm.ppf(u), (None, None), norm.pdf
    if kind == 'farbound':
        return norm.ppf(u), (-20, 30), norm.pdf
    if kind == 'half':
        return norm.ppf(0.5 + u / 2), (0, None), norm.pdf
    if kind == 'top':
        return norm.ppf(u * norm.cdf(0.5)), (None, 0.5), norm.pdf
    if kind == 'trunc':
        a, b = norm.cdf(-1), norm.cdf(3)
        return norm.ppf(a + (b - a) * u), (-1, 3), norm.pdf
    if kind == 'uniform':
        return u, (0, 1), lambda x: np.ones(x.shape)
    if kind == 'exp':
        return -np.log(1 - u), (0, None), lambda x: np.exp(-x)
    if kind == 'rising':
        return np.sqrt(u), (0, 1), lambda x: x
    if kind == 'loner':
        return np.concatenate([0.5 * norm.ppf(q(n - 4)), [-8.995, -8.99, 6.98, 6.985]]), (-9, 7), None
    if kind in ('tails', 'tails0'):
        return -(-np.log(1 - u)) ** 1.5 + 0.1 * np.log(u), (None, None), None
    if kind == 'bimodal':
        return (np.concatenate([norm.ppf(q(n // 2)) - 3, 0.5 * norm.ppf(q(n - n // 2)) + 3]), (None, None),
                lambda x: norm.pdf(x + 3) + 2 * norm.pdf((x - 3) * 2))


def mk1(x, b, w, ll, extra=(), before=(), base={}, **settings):
    st = dict(base, ignore_rows=0)
    st.update(settings)
    cols = list(before) + [x] + list(extra)
    names = ['b%s' % i for i in range(len(before))] + ['x'] + ['e%s' % i for i in range(len(extra))]
    with quiet():
        return MCSamples(samples=np.array(cols).T.copy(), weights=None if w is None else w.copy(), loglikes=None if ll is None else ll.copy(), names=names, ranges={'x': b}, settings=st, sampler='uncorrelated')


def one_gen(shapes, fine):
    def gen():
        for kind in shapes:
            for ss, bco, mb, fb, ll in itertools.product((-1, -0.6, 0.3, 2.), (0, 1, 2, -1), (0, 1, 2), fine, (0, 1)):
                if not (kind.startswith('tails') and not ll or kind in RANGED and bco == 2):
                    yield [kind, ss, bco, mb, fb, ll]
    return gen


def diff(a, b):
    return float(np.max(np.abs(np.asarray(a) - np.asarray(b))))


def one_check(ctx, case):
    kind, ss, bco, mb, fb, like = case
    n = 1000
    x, b, _ = shape(kind, n)
    x = x[perm(n, 1)]
    w = 1. + np.arange(n) % 3
    ll = (x - 0.3) ** 2 / 2 + (np.arange(n) % 7) * 0.3 if like else None
    kw = dict(smooth_scale_1D=ss, boundary_correction_order=bco, mult_bias_correction_order=mb, fine_bins=fb)
    if like:
        kw['meanlikes'] = True
    base = RANGED.get(kind, {})
    s = mk1(x, b, w, ll, base=base)
    d = s.get1DDensity('x', **kw)
    require(np.all(np.isfinite(d.P)) and np.all(d.P >= 0) and abs(d.P.max() - 1) < 1e-12 and len(d.P) == fb, 'density not finite, non-negative with maximum one on the requested grid')
    lo, hi = d.x[0], d.x[-1]
    tight = [v is not None and kind != 'farbound' for v in b]
    if tight[0]:
        require(lo == b[0] and d.view_ranges[0] == b[0], 'density does not start at the hard bound: %r', lo)
    else:
        require(lo < x.min() and d.P[0] < 0.05, 'density does not fall off beyond the samples')
    if tight[1]:
        require(hi == b[1] and d.view_ranges[1] == b[1], 'density does not end at the hard bound: %r', hi)
    else:
        require(hi > x.max() and d.P[-1] < 0.05, 'density does not fall off beyond the samples')
    if kind != 'bimodal' and kind not in RANGED:  # never depends on which side the tails are
        require(d.view_ranges[0] >= lo and d.view_ranges[1] <= hi, 'view range outside the density')
    g = s.getBounds()
    for got, side in ((g.lower, 0), (g.upper, 1)):
        require(got == ({'x': b[side]} if tight[side] else {}), 'bounds %r, samples near the bounds %r: %r', got, b, tight)
    with np.errstate(all='ignore'):
        require(float(d.Prob(lo - 0.01)) == 0 and float(d.Prob(hi + 0.01)) == 0, 'density outside its range')
    t = np.linspace(lo, hi, 300)
    v = d(t)
    tol = 1e-9 if ss > 0 else 5e-3
    variants = {}
    p = perm(n, 2)
    variants['reordered'] = (mk1(x[p], b, w[p], ll[p] if like else None, base=base), 'x', lambda a: a, kw)
    variants['weights x4'] = (mk1(x, b, w * 4, ll, base=base), 'x', lambda a: a, kw)
    variants['weights / 2^30'] = (mk1(x, b, w / 2 ** 30, ll, base=base), 'x', lambda a: a, kw)
    if ss > 0:
        r = w.astype(int)
        variants['weights split'] = (mk1(np.repeat(x, r), b, None, np.repeat(ll, r) if like else None, base=base), 'x', lambda a: a, kw)
    rb = tuple(None if a is None else -a for a in b[::-1])
    variants['reflected'] = (mk1(-x, rb, w, ll, base=base), 'x', lambda a: -a, kw)
    for sc, off in ((4, 7), (2. ** -20, 0), (2 ** 20, -3)):
        sb = tuple(None if a is None else sc * a + off for a in b)
        variants['%s x + %s' % (sc, off)] = (mk1(sc * x + off, sb, w, ll, base=base), 'x', lambda a, sc=sc, off=off: sc * a + off, kw)
    variants['columns'] = (mk1(x, b, w, ll, extra=[x ** 2, np.cos(np.arange(n))], before=[np.sin(np.arange(n) * 2.)], base=base), 'x', lambda a: a, kw)
    variants['by index'] = (s, 0, lambda a: a, kw)
    st = dict(kw)
    st.pop('meanlikes', None)
    variants['settings in the object'] = (mk1(x, b, w, ll, **st, base=base), 'x', lambda a: a, dict(meanlikes=True) if like else {})
    for name, var in variants.items():
        ctx.step()
        s2, key, f, k = var
        d2 = s2.get1DDensity(key, **k)
        ends = sorted([float(f(lo)), float(f(hi))])
        require(diff(ends, [d2.x[0], d2.x[-1]]) < 1e-9 * (ends[1] - ends[0] + max(map(abs, ends))), '%s: grid %r, expected %r', name, [d2.x[0], d2.x[-1]], ends)
        ends = sorted([float(f(a)) for a in d.view_ranges])
        require(diff(ends, d2.view_ranges) < 1e-9 * (ends[1] - ends[0] + max(map(abs, ends))), '%s: view range %r, expected %r', name, d2.view_ranges, ends)
        require(d2.P.shape == d.P.shape and diff(v, d2(np.clip(f(t), d2.x[0], d2.x[-1]))) <= tol, '%s: density differs by %s', name, diff(v, d2(np.clip(f(t), d2.x[0], d2.x[-1]))))
        if like:
            l1 = d.likes if name != 'reflected' else d.likes[::-1]
            require(diff(l1, d2.likes) <= (1e-7 if ss > 0 else 0.05), '%s: mean likelihoods differ by %s', name, diff(l1, d2.likes))
    return [round(float(a), 3) for a in v[::60]]


# ---- direct kernel sums
def kde_gen(orders):
    def gen():
        for kind in SHAPES:
            for ss, bco, mb, wt in itertools.product((0.15, 0.3, 0.5), orders, (0, 1, 2), (0, 1)):
                yield [kind, ss, bco, mb, wt]
    return gen


def kde_check(ctx, case):
    kind, ss, bco, mb, wt = case
    n = 600
    x, b, _ = shape(kind, n)
    x = x[perm(n, 1)]
    w = 1. + (np.arange(n) % 4) * wt
    s = mk1(x, b, w, None)
    d = s.get1DDensity('x', smooth_scale_1D=ss, boundary_correction_order=bco, mult_bias_correction_order=mb, fine_bins=2048)
    mean = np.sum(w * x) / np.sum(w)
    err = np.sqrt(np.sum(w * (x - mean) ** 2) / np.sum(w))
    h = ss * err
    t = np.linspace(d.x[0], d.x[-1], 2001)
    lims = [None if (v is None or kind == 'farbound') else v for v in b]
    u = np.linspace(-2.5 * h, 2.5 * h, 4001)
    K = np.exp(-u ** 2 / (2 * h ** 2))
    K /= np.trapz(K, u)

    def ker(z):
        return np.where(np.abs(z) <= 2.5 * h, np.exp(-z ** 2 / (2 * h ** 2)), 0) / np.trapz(np.exp(-u ** 2 / (2 * h ** 2)), u)

    def moments(m, weights, points):
        z = points[:, None] - x[None, :]
        return (ker(z) * z ** m).dot(weights)

    def amom(m, points):
        """integral over the allowed region of z^m K(z), z = point - position"""
        Kc = np.concatenate([[0], np.cumsum((K[1:] * u[1:] ** m + K[:-1] * u[:-1] ** m) / 2 * (u[1] - u[0]))])
        zlo = np.full(points.shape, -2.5 * h) if lims[1] is None else np.maximum(-2.5 * h, points - lims[1])
        zhi = np.full(points.shape, 2.5 * h) if lims[0] is None else np.minimum(2.5 * h, points - lims[0])
        return np.interp(zhi, u, Kc) - np.interp(zlo, u, Kc)

    def pilot(points):
        P = moments(0, w, points)
        if lims != [None, None] and bco >= 0:
            a0 = amom(0, points)
            nrm = P / a0
            if bco == 0:
                return nrm
            a1, a2, P1 = amom(1, points), amom(2, points), moments(1, w, points)
            if bco == 1:
                cor = (P * a2 - P1 * a1) / (a0 * a2 - a1 ** 2)
            else:
                a3, a4, P2 = amom(3, points), amom(4, points), moments(2, w, points)
                den = a4 * a2 * a0 - a4 * a1 ** 2 - a2 ** 3 - a3 ** 2 * a0 + 2 * a1 * a2 * a3
                cor = (P * (a4 * a2 - a3 ** 2) + P1 * (a2 * a3 - a4 * a1) + P2 * (a3 * a1 - a2 ** 2)) / den
            with np.errstate(all='ignore'):
                return np.where(P > 0, nrm * np.exp(np.minimum(cor / np.where(nrm > 0, nrm, 1), 4) - 1), 0)
        if bco == 2:
            a2, a4 = amom(2, points), amom(4, points)
            cor = (P * a4 - a2 * moments(2, w, points)) / (a4 - a2 ** 2)
            with np.errstate(all='ignore'):
                return np.where(P > 0, P * np.exp(np.minimum(cor / np.where(P > 0, P, 1), 2) - 1), 0)
        return P

    with np.errstate(all='ignore'):
        ref = pilot(t)
        if mb:
            a0 = amom(0, t)
            at = pilot(x)
            for k in range(mb):
                ref, at = ref * moments(0, w / at, t) / a0, at * moments(0, w / at, x) / amom(0, x)
    if mb:  # outside bounds nothing contributes; inside, edges of an unbounded grid are renormalised too
        inner = (t > d.x[0] + (0 if lims[0] is not None else 2.6 * h)) & (t < d.x[-1] - (0 if lims[1] is not None else 2.6 * h))
    else:
        inner = np.ones(t.shape, dtype=bool)
    ref = ref / ref[inner].max()
    got = d(t)
    got = got / got[inner].max()
    e = diff(ref[inner], got[inner])
    require(e < TOLK[bco], 'density differs from the direct kernel sum by %s', e)
    return round(float(got[1000]), 3)


TOLK = {-1: 0.025, 0: 0.025, 1: 0.025, 2: 0.025}


# ---- against the distributions sampled
def acc_gen():
    for kind in SHAPES:
        for bco, mb, n, wt, like in itertools.product((1, 2), (0, 1), (1000, 4000), (0, 1), (0, 1)):
            yield [kind, bco, mb, n, wt, like]


def acc_check(ctx, case):
    kind, bco, mb, n, wt, like = case
    x, b, pdf = shape(kind, n)
    w = None
    if wt:  # importance weights: half of each sample's weight, spread over a second copy
        x, w = np.concatenate([x, x]), np.concatenate([np.full(n, 0.75), np.full(n, 0.25)])
    p = perm(len(x), 1)
    x, w = x[p], (w[p] if wt else None)
    s = mk1(x, b, w, -np.log(np.maximum(pdf(x), 1e-300)) if like else None)
    d = s.get1DDensity('x', boundary_correction_order=bco, mult_bias_correction_order=mb)
    t = np.linspace(d.x[0], d.x[-1], 500)
    ref = pdf(t)
    ref = ref / ref.max()
    got = d(t)
    lo, hi = d.getLimits(0.68)[:2]
    e = diff(ref, got)
    require(e < TOLA[mb], '%s: differs from the true distribution by %s', kind, e)
    return round(e, 3)


TOLA = {0: 0.15, 1: 0.15}


# ---- two dimensions
def pts2(n, corr, bx, by):
    """fixed samples of a correlated Gaussian cut by the bounds"""
    a, c = np.random.RandomState(17).standard_normal((2, n))
    x, y = a, corr * a + np.sqrt(1 - corr ** 2) * c
    y = 2 * y
    keep = np.ones(n, dtype=bool)
    for z, b in ((x, bx), (y, by)):
        if b[0] is not None:
            keep &= z >= b[0]
        if b[1] is not None:
            keep &= z <= b[1]
    return x[keep], y[keep]


BX = {'-': (None, None), 'l': (-0.7, None), 'u': (None, 0.9), 'lu': (-1, 1.2), 'far': (-50, 60)}
BY = {'-': (None, None), 'l': (-1.4, None), 'u': (None, 2.2), 'lu': (-2.2, 2.6), 'far': (-50, 60)}


def mk2(x, y, bx, by, w, ll, order='xy', sampler='uncorrelated', **settings):
    st = dict(ignore_rows=0)
    st.update(settings)
    cols = {'x': x, 'y': y, 'z': np.cos(np.arange(len(x)) * 1.)}
    with quiet():
        return MCSamples(samples=np.array([cols[c] for c in order]).T.copy(), weights=None if w is None else w.copy(), loglikes=None if ll is None else ll.copy(), names=list(order),
                         ranges={'x': bx, 'y': by}, settings=st, sampler=sampler)


def two_gen(corrs, bounds, sizes):
    def gen():
        for corr, (bx, by), ss, bco, mb, fb in itertools.product(corrs, bounds, (-1, 0.3, 2.), (0, 1, -1), (0, 1), sizes):
            yield [corr, bx, by, ss, bco, mb, fb]
    return gen


def neg(b):
    return tuple(None if a is None else -a for a in b[::-1])


def aff(b, sc, off):
    return tuple(None if a is None else sc * a + off for a in b)


def two_check(ctx, case):
    corr, bxn, byn, ss, bco, mb, fb = case
    bx, by = BX[bxn], BY[byn]
    x, y = pts2(1200, corr, bx, by)
    n = len(x)
    w = 1. + np.arange(n) % 3
    w[0] += 1 + 3 * (np.sum(w) % 10 == 9)  # no quantile used falls exactly between two samples
    ll = (x ** 2 + y ** 2 / 4) / 2 + (np.arange(n) % 5) * 0.2
    kw = dict(smooth_scale_2D=ss, boundary_correction_order=bco, mult_bias_correction_order=mb, fine_bins_2D=fb, meanlikes=True)
    s = mk2(x, y, bx, by, w, ll)
    d = s.get2DDensityGridData('x', 'y', num_plot_contours=2, **kw)
    require(np.all(np.isfinite(d.P)) and np.all(d.P >= -1e-9) and abs(d.P.max() - 1) < 1e-12, 'density not finite and non-negative with maximum one')
    for ax, b, nm in ((d.x, bx, bxn), (d.y, by, byn)):
        for side in (0, 1):
            if b[side] is not None and nm != 'far':
                require(ax[-side] == b[side], 'grid does not end at the hard bound: %r', ax[-side])
    for ax, z, b, nm in ((d.x, x, bx, bxn), (d.y, y, by, byn)):
        require((ax[0] < z.min() or ax[0] == b[0]) and (ax[-1] > z.max() or ax[-1] == b[1]), 'samples outside of the grid')
    require(len(d.contours) == 2 and d.contours[0] > d.contours[1], 'contour levels %r', d.contours)
    for k in (0, 1):
        one = s.get1DDensity('xy'[k]).view_ranges
        require(diff(one, d.view_ranges[k]) < 1e-9 * (one[1] - one[0]), 'range shown for %s is %r, in one dimension %r', 'xy'[k], d.view_ranges[k], one)
    require(diff(d.contours, d.getContourLevels([0.68, 0.95])) < 1e-12, 'contours %r are not those of the first two levels %r', d.contours, d.getContourLevels([0.68, 0.95]))
    tol, ltol = (1e-8, 1e-6) if ss > 0 else (0.06, None)
    variants = {}
    p = perm(n, 2)
    same = lambda P: P  # noqa
    ident = lambda a: a  # noqa
    minus = lambda a: -a  # noqa
    variants['reordered'] = (mk2(x[p], y[p], bx, by, w[p], ll[p]), 'xy', ident, ident, same)
    variants['weights x4'] = (mk2(x, y, bx, by, 4 * w, ll), 'xy', ident, ident, same)
    if ss > 0:
        r = w.astype(int)
        variants['weights split'] = (mk2(np.repeat(x, r), np.repeat(y, r), bx, by, None, np.repeat(ll, r)), 'xy', ident, ident, same)
    variants['reflected x'] = (mk2(-x, y, neg(bx), by, w, ll), 'xy', minus, ident, lambda P: P[:, ::-1])
    variants['reflected y'] = (mk2(x, -y, bx, neg(by), w, ll), 'xy', ident, minus, lambda P: P[::-1, :])
    variants['reflected both'] = (mk2(-x, -y, neg(bx), neg(by), w, ll), 'xy', minus, minus, lambda P: P[::-1, ::-1])
    variants['exchanged'] = (s, 'yx', ident, ident, lambda P: P.T)
    variants['columns'] = (mk2(x, y, bx, by, w, ll, order='zyx'), 'xy', ident, ident, same)
    variants['shifted and scaled'] = (mk2(4 * x + 3, y / 8 - 1, aff(bx, 4, 3), aff(by, 1 / 8, -1), w, ll), 'xy', lambda a: 4 * a + 3, lambda a: a / 8 - 1, same)
    variants['scaled extremely'] = (mk2(2.**30 * x, y / 2**30, aff(bx, 2.**30, 0), aff(by, 2.**-30, 0), w, ll), 'xy', lambda a: 2.**30 * a, lambda a: a / 2**30, same)
    variants['by index'] = (s, (0, 1), ident, ident, same)
    for name, (s2, keys, fx, fy, fP) in variants.items():
        ctx.step()
        d2 = s2.get2DDensityGridData(keys[0], keys[1], num_plot_contours=2, **kw)
        ex, ey = np.sort(fx(d.x)), np.sort(fy(d.y))
        views = [tuple(sorted(map(fx, d.view_ranges[0]))), tuple(sorted(map(fy, d.view_ranges[1])))]
        if name == 'exchanged':
            ex, ey = ey, ex
            views = views[::-1]
        for got, exp in ((d2.x, ex), (d2.y, ey), (d2.view_ranges[0], views[0]), (d2.view_ranges[1], views[1])):
            require(np.shape(got) == np.shape(exp) and diff(got, exp) < 1e-9 * (max(exp) - min(exp) + np.max(np.abs(exp))), '%s: axis %r, expected %r', name, got[:3], exp[:3])
        xt = 0.08 if name == 'exchanged' and ss < 0 else 0
        require(diff(fP(d.P), d2.P) <= tol + xt, '%s: density differs by %s', name, diff(fP(d.P), d2.P))
        require(diff(d.contours, d2.contours) <= tol + xt, '%s: contour levels differ by %s', name, diff(d.contours, d2.contours))
        if ss > 0:
            require(diff(fP(d.likes), d2.likes) <= ltol, '%s: mean likelihoods differ by %s', name, diff(fP(d.likes), d2.likes))
    return [round(float(a), 2) for a in np.asarray(d.contours)]


def acc2_gen(corrs, bounds):
    def gen():
        for corr, (bx, by), bco, mb in itertools.product(corrs, bounds, (1,), (0, 1)):
            yield [corr, bx, by, bco, mb]
    return gen


def acc2_check(ctx, case):
    corr, bxn, byn, bco, mb = case
    bx, by = BX[bxn], BY[byn]
    x, y = pts2(6000, corr, bx, by)
    s = mk2(x, y, bx, by, None, None)
    d = s.get2DDensity('x', 'y', boundary_correction_order=bco, mult_bias_correction_order=mb)
    X, Y = np.meshgrid(d.x, d.y)
    ref = np.exp(-(X ** 2 + (Y / 2) ** 2 - 2 * corr * X * Y / 2) / (1 - corr ** 2) / 2)
    ref /= ref.max()
    e, rms = diff(ref, d.P), float(np.sqrt(np.mean((ref - d.P) ** 2)))
    require(e < 0.6 and rms < (0.2 if bxn == byn == 'lu' else 0.1), 'differs from the true distribution by %s (rms %s)', e, rms)
    dn = s.get2DDensity('x', 'y', normalized=True, boundary_correction_order=bco, mult_bias_correction_order=mb)
    require(abs(np.trapz(np.trapz(dn.P, dn.x, axis=1), dn.y) - 1) < 1e-6 and diff(dn.P / dn.P.max(), d.P) < 1e-9, 'normalised density does not integrate to one')
    return round(e, 3)



def ker2_gen(corrs, bounds):
    def gen():
        for corr, (bx, by), ss, bco, mb, wt in itertools.product(corrs, bounds, (0.3, 0.5), (-1, 0, 1), (0, 1), (0, 1)):
            yield [corr, bx, by, ss, bco, mb, wt]
    return gen


TOLK2 = 0.08


def ker2_check(ctx, case):
    corr, bxn, byn, ss, bco, mb, wt = case
    bx, by = BX[bxn], BY[byn]
    x, y = pts2(700, corr, bx, by)
    n = len(x)
    w = 1. + (np.arange(n) % 4) * wt
    s = mk2(x, y, bx, by, w, None)
    d = s.get2DDensity('x', 'y', smooth_scale_2D=ss, boundary_correction_order=bco, mult_bias_correction_order=mb, fine_bins_2D=200)
    m = w / w.sum()
    ex, ey = np.sqrt(m.dot((x - m.dot(x)) ** 2)), np.sqrt(m.dot((y - m.dot(y)) ** 2))
    c = m.dot((x - m.dot(x)) * (y - m.dot(y))) / ex / ey
    c = 0. if abs(c) < 0.1 else c
    hx, hy = ss * ex, ss * ey
    wx, wy = d.x[1] - d.x[0], d.y[1] - d.y[0]
    half = int(round(2.5 * max(hx / wx, hy / wy)))
    Lx, Ly = (half + 0.5) * wx, (half + 0.5) * wy
    Ci = np.linalg.inv(np.array([[hx ** 2, c * hx * hy], [c * hx * hy, hy ** 2]]))

    def K(zx, zy):
        return np.where((np.abs(zx) <= Lx) & (np.abs(zy) <= Ly), np.exp(-(Ci[0, 0] * zx ** 2 + 2 * Ci[0, 1] * zx * zy + Ci[1, 1] * zy ** 2) / 2), 0)

    g = (np.arange(160) + 0.5) / 80 - 1
    GX, GY = np.meshgrid(g * Lx, g * Ly)
    KG = K(GX, GY)
    KG /= KG.sum()
    area = 4 * Lx * Ly / 160 ** 2
    nrm = K(GX, GY).sum() * area
    lx = [None, None] if bxn == 'far' else bx
    ly = [None, None] if byn == 'far' else by

    def mask(px, py):
        ok = np.ones(GX.shape, dtype=bool)
        for lim, P, G in ((lx, px, GX), (ly, py, GY)):
            if lim[0] is not None:
                ok &= P - G >= lim[0]
            if lim[1] is not None:
                ok &= P - G <= lim[1]
        return KG * ok

    def pilot(px, py):
        zx, zy = px - x, py - y
        kk = K(zx, zy) * w / nrm
        P = kk.sum()
        if [lx[0], lx[1], ly[0], ly[1]] == [None] * 4 or bco < 0:
            return P
        M = mask(px, py)
        a00 = M.sum()
        if bco == 0:
            return P / a00
        a10, a01, a20, a02, a11 = (M * GX).sum(), (M * GY).sum(), (M * GX ** 2).sum(), (M * GY ** 2).sum(), (M * GX * GY).sum()
        # local linear fit: solve for the constant term
        A = np.array([[a00, a10, a01], [a10, a20, a11], [a01, a11, a02]])
        cor = np.linalg.solve(A, np.array([P, (kk * zx).sum(), (kk * zy).sum()]))[0]
        return P / a00 * np.exp(min(cor / (P / a00), 4) - 1) if P > 0 else 0.

    size = len(d.x)
    ix = [0] + [int(size * f) for f in (.06, .3, .45, .55, .7, .94)] + [size - 1]
    pts = [(i, j) for i in ix for j in ix]
    if mb:
        at = np.array([pilot(a, b) for a, b in zip(x, y)])
    ref, got = [], []
    for i, j in pts:
        px, py = d.x[i], d.y[j]
        v = pilot(px, py)
        if mb:
            full = mask(px, py).sum()
            if full <= 0:
                continue
            if (lx[0] is None and i < half) or (lx[1] is None and i > size - 1 - half) or (ly[0] is None and j < half) or (ly[1] is None and j > size - 1 - half):
                continue  # by an open end of the grid, where there are few samples
            v = v * (K(px - x, py - y) * w / at / nrm).sum() / full
        ref.append(v)
        got.append(d.P[j, i])
    ref, got = np.array(ref), np.array(got)
    scale = ref.dot(got) / ref.dot(ref)
    e = diff(ref * scale, got) / max(1e-3, got.max())
    require(e < TOLK2, 'density differs from the direct kernel sum by %s of its peak', e)
    return round(e, 3)


ALLB = [(a, b) for a in BX for b in BY]
SOMEB = [('-', '-'), ('l', '-'), ('-', 'u'), ('lu', 'lu'), ('l', 'u'), ('far', 'lu')]


def scenarios(tier):
    deep = tier == 'thorough'
    return [
        Enum('symmetries1d', one_gen(SHAPES + tuple(RANGED), (512, 1024, 2048) if deep else (1024,)), one_check),
        Enum('kernelsum1d', kde_gen((-1, 0, 1, 2)), kde_check),
        Enum('accuracy1d', acc_gen, acc_check),
        Enum('symmetries2d', two_gen((0, .3, -.3, .6, -.6, .9, -.9, .97, -.97) if deep else (0, .5, -.5, .9, -.9), ALLB if deep else SOMEB, (96, 256) if deep else (128,)), two_check),
        Enum('tight2d', lambda: ([c, bx, by, -1, 1, 1, 128] for c, bx, by in [(.98,) + b for b in SOMEB[:3]] + [(.9995, '-', '-')]), two_check, timeout=300),
        Enum('kernelsum2d', ker2_gen((0, .5, -.5, .9, -.9), ALLB if deep else SOMEB), ker2_check),
        Enum('accuracy2d', acc2_gen((0, .5, -.5, .9, -.9), ALLB if deep else SOMEB), acc2_check),
    ]
