"""Confidence limits / quantiles of weighted samples."""
import itertools
import logging

import numpy as np
from mc.core import Enum, require
from getdist import MCSamples, chains
from getdist.chains import WeightedSamples, Chains

logging.disable(logging.CRITICAL)
chains.print_load_details = False
np.seterr(all='ignore')

PROPERTY = 'C09'
LEVEL = 'model_checking'
RULE = ('limits: every weighted sample set with up to 4 (thorough 5) rows over 3 values x 3 weights, every probability of the grid, lower and upper, array/scalar/precomputed/sub-range/other-weights forms; '
        'ranges: every start/end of 6-row sets; marge: every combination of sample shape, bounds, contours and one/two-tail settings, limits reported by getMargeStats vs their definition')
ASSUMPTIONS = ['finite values, non-negative weights with positive sum']

VALUES = [-1.0, 0.0, 2.5]
WEIGHTS = [1.0, 2.0, 0.5]
PROBS = [0.0625, 0.1, 0.25, 0.3, 0.5, 0.625, 0.75, 0.9, 0.96875]


def ok(x, w, v, p):
    """weight fraction below v is at most p, and up to and including v at least p"""
    tot = sum(w)
    below = sum(wi for xi, wi in zip(x, w) if xi < v)
    upto = sum(wi for xi, wi in zip(x, w) if xi <= v)
    return v in x and below <= p * tot + 1e-9 * tot and upto >= p * tot - 1e-9 * tot


def lim_gen(maxn):
    for n in range(1, maxn + 1):
        for vals in itertools.product(range(3), repeat=n):
            yield list(vals)


def lim_check(ctx, vals):
    x = np.array([VALUES[i] for i in vals])
    n = len(x)
    out = []
    for ws in itertools.product(WEIGHTS + ([0.0] if n == 3 else []), repeat=n):
        w = np.array(ws)
        if w.sum() == 0:
            continue
        s = WeightedSamples(samples=np.c_[x, x * 2 + 1], weights=w.copy(), min_weight_ratio=-1)
        data = s.initParamConfidenceData(0)
        prev = None
        lows = s.confidence(0, np.array(PROBS))
        ups = s.confidence(0, np.array(PROBS), upper=True)
        for p, lo, up in zip(PROBS, lows, ups):
            require(ok(x, w, lo, p), 'lower limit %s for %s of values %s weights %s', lo, p, x, w)
            require(ok(x, w, up, 1 - p), 'upper limit %s for %s of values %s weights %s', up, p, x, w)
            require(prev is None or lo >= prev, 'limits decrease with probability: values %s weights %s', x, w)
            prev = lo
            for form in (s.confidence(0, p), s.confidence(x, p), s.confidence(data, p), s.confidence(0, p, weights=w), s.confidence(0, p, start=0, end=n)):
                require(form == lo, 'forms differ: %s %s (values %s weights %s p %s)', form, lo, x, w, p)
            require(s.confidence(1, p) == 2 * lo + 1, 'limit of a rescaled parameter')
            require(s.confidence(data, p, upper=True) == up, 'upper limit from precomputed data')
        for c in (0.5, 0.75):
            t = s.twoTailLimits(0, c)
            require(t[0] == s.confidence(0, (1 - c) / 2) and ok(x, w, t[1], 1 - (1 - c) / 2) and t[0] <= t[1], 'two-tail limits %s of values %s weights %s', t, x, w)
        # order and repetition do not matter (all these numbers are exact in binary)
        dy = np.array([0.0625, 0.25, 0.5, 0.625, 0.75, 0.96875])
        base = s.confidence(0, dy)
        if n <= 3:
            for perm in itertools.permutations(range(n)):
                s2 = WeightedSamples(samples=x[list(perm)].reshape(-1, 1), weights=w[list(perm)], min_weight_ratio=-1)
                require(np.array_equal(s2.confidence(0, dy), base), 'limits depend on sample order: values %s weights %s', x, w)
        rep = [(xi, 0.5) for xi, wi in zip(x, w) for _ in range(int(wi * 2))]
        s3 = WeightedSamples(samples=np.array([[r[0]] for r in rep]), weights=np.array([r[1] for r in rep]))
        require(np.array_equal(s3.confidence(0, dy), base), 'limits change when weights are split into repeated rows: values %s weights %s', x, w)
        s4 = WeightedSamples(samples=x.reshape(-1, 1), weights=w * 4, min_weight_ratio=-1)
        require(np.array_equal(s4.confidence(0, dy), base), 'limits depend on the weight scale')
        ctx.step()
        out.append(tuple(base))
    return hash(tuple(out))


def range_gen():
    for k in range(12):
        yield k


def range_check(ctx, k):
    n = 6
    x = np.array([((i * 5 + k * 3) % 7) - 2.0 for i in range(n)])
    w = np.array([1 + (i * k + i) % 3 for i in range(n)], dtype=float)
    w2 = np.array([0.5 + (i + k) % 2 for i in range(n)])
    objs = [WeightedSamples(samples=np.c_[x, -x], weights=w), Chains(samples=np.c_[x, -x], weights=w, names=['a', 'b']),
            MCSamples(samples=np.c_[x, -x], weights=w, names=['a', 'b'], settings={'ignore_rows': 0})]
    for o in objs:
        for st in range(n):
            for en in list(range(st + 1, n + 1)) + [None]:
                for ww in (None, w2):
                    u = w if ww is None else w2
                    for p in PROBS:
                        for par in ([0, x] if o is objs[0] else [0, x, 'a']):
                            v = o.confidence(par, p, start=st, end=en, weights=ww)
                            require(ok(x[st:en], u[st:en], v, p), 'limit %s of rows %s:%s for %s (values %s weights %s)', v, st, en, p, x, u)
                            v = o.confidence(par, p, upper=True, start=st, end=en, weights=ww)
                            require(ok(x[st:en], u[st:en], v, 1 - p), 'upper limit %s of rows %s:%s for %s', v, st, en, p)
                ctx.step()
    return k


# ------------------------------------------------------------- limits in MargeStats
SHAPES = ['gauss', 'edge_low', 'edge_high', 'flat', 'skew', 'bimodal']
BOUNDS = ['none', 'low', 'high', 'both', 'far']


def sample_shape(shape):
    n = 400
    u = (np.arange(n) * 0.6180339887498949 + 0.5 / n) % 1
    if shape == 'gauss':
        from scipy.stats import norm
        x = norm.ppf(u * 0.998 + 0.001) + 3
    elif shape == 'edge_low':
        x = -np.log(1 - u * 0.999)
    elif shape == 'edge_high':
        x = 5 + np.log(1 - u * 0.999)
    elif shape == 'flat':
        x = u * 4
    elif shape == 'skew':
        x = (u ** 2 * 3 + u) * 1.2
    else:
        from scipy.stats import norm
        x = np.where(np.arange(n) % 2 == 0, 1, 4) + 0.4 * norm.ppf(u * 0.998 + 0.001)
    return x, 1.0 + np.arange(n) % 3


def marge_gen(th):
    for shape, b, cont, frac, force in itertools.product(SHAPES, BOUNDS, ['0.68 0.95', '0.5 0.9 0.99'], ['default', 0.5, 0.001, 'second'], [False, True]):
        yield [shape, b, cont, frac, force]


def marge_check(ctx, case):
    shape, b, cont, frac, force = case
    x, w = sample_shape(shape)
    lo, hi = float(np.floor(min(x))), float(np.ceil(max(x)))
    if shape in ('edge_low', 'flat', 'skew'):
        lo = 0.0
    if shape in ('edge_high',):
        hi = 5.0
    if shape == 'flat':
        hi = 4.0
    rng = {'none': [None, None], 'low': [lo, None], 'high': [None, hi], 'both': [lo, hi], 'far': [lo - 100, hi + 100]}[b]
    contours = [float(c) for c in cont.split()]
    settings = {'ignore_rows': 0, 'contours': cont, 'force_twotail': force}
    for i in range(len(contours)):
        if frac == 'second':
            settings['max_frac_twotail2'] = 2
        elif frac != 'default':
            settings['max_frac_twotail%d' % (i + 1)] = frac
    o = MCSamples(samples=np.c_[x, x + 0.1], weights=w, loglikes=(x - 3) ** 2 / 2, names=['x', 'y'], ranges={'x': rng}, settings=settings)
    m = o.getMargeStats()
    par = m.parWithName('x')
    d = o.get1DDensity('x')
    require(abs(par.mean - sum(w * x) / sum(w)) < 1e-9 and abs(par.err ** 2 - sum(w * (x - par.mean) ** 2) / sum(w)) < 1e-9, 'mean or error')
    require(len(par.limits) == len(contours), '%s limits for %s contours', len(par.limits), len(contours))
    width = []
    from scipy.stats import norm
    for i, (c, l) in enumerate(zip(contours, par.limits)):
        mf = settings.get('max_frac_twotail%d' % (i + 1), np.exp(-norm.ppf((1 - c) / 2) ** 2 / 2))
        open_lo = rng[0] is not None and abs(d.x[0] - rng[0]) < 1e-9 and not force and d.P[0] > mf
        open_hi = rng[1] is not None and abs(d.x[-1] - rng[1]) < 1e-9 and not force and d.P[-1] > mf
        if open_lo and open_hi:
            tag, lims = 'none', [rng[0], rng[1]]
            got = 'none' if l.limitType() == 'none' else l.limitType()
            require(got == 'none', 'limit type %s, expected no limit', got)
            require(abs(l.lower - rng[0]) + abs(l.upper - rng[1]) < 1e-9, 'limits %s %s of a parameter limited only by its range %s', l.lower, l.upper, rng)
            continue
        cl = d.getLimits(c)
        mb, mt = cl[2], cl[3]
        require(l.limitType() == {(True, True): 'none', (True, False): 'one tail upper limit', (False, True): 'one tail lower limit', (False, False): 'two tail'}[(mb, mt)],
                'limit type %s with open ends %s %s', l.limitType(), mb, mt)
        f = 1 - c
        if mb and not mt:
            require(abs(l.lower - d.x[0]) < 1e-9 and (rng[0] is None or l.lower >= rng[0] - 1e-9), 'one-tail limit starts from %s, the range from %s', l.lower, d.x[0])
            require(ok(x, w, l.upper, 1 - f), 'one-tail upper limit %s is not the %s quantile', l.upper, c)
        elif mt and not mb:
            require(abs(l.upper - d.x[-1]) < 1e-9 and (rng[1] is None or l.upper <= rng[1] + 1e-9), 'one-tail limit ends at %s, the range at %s', l.upper, d.x[-1])
            require(ok(x, w, l.lower, f), 'one-tail lower limit %s is not the %s quantile', l.lower, f)
        elif not mb and not mt:
            q = [o.confidence(0, f / 2), o.confidence(0, f / 2, upper=True)]
            dp = abs(d.Prob(q[0]) - d.Prob(q[1]))
            th = o.credible_interval_threshold
            eqt = abs(l.lower - q[0]) < 1e-9 and abs(l.upper - q[1]) < 1e-9
            dens = abs(l.lower - cl[0]) < 1e-9 and abs(l.upper - cl[1]) < 1e-9
            if abs(dp - th) > 1e-9:
                require(eqt if dp < th else dens, 'two-tail limits %s %s: quantiles %s, equal density limits %s, density difference %s', l.lower, l.upper, q, cl[:2], dp)
            width.append(l.upper - l.lower)
        ctx.step()
    require(width == sorted(width), 'limits are not nested: widths %s', width)
    return shape, b, tuple(l.limitType() for l in par.limits)


def scenarios(tier):
    th = tier == 'thorough'
    return [Enum('limits', lambda: lim_gen(5 if th else 4), lim_check, timeout=300), Enum('ranges', range_gen, range_check, timeout=300), Enum('marge', lambda: marge_gen(th), marge_check)]
