"""Gaussian mixtures: marginals, conditionals, moments, gridded densities, samples."""
import itertools

import numpy as np

from mc.core import Enum, require
from mc.gridlib import quiet
from getdist.gaussian_mixtures import Gaussian1D, Gaussian2D, GaussianND, Mixture1D, Mixture2D, MixtureND, make_2D_Cov

PROPERTY = 'C25'
LEVEL = 'model_checking'
RULE = ('every mixture of 1-3 components in 1-4 dimensions over the alphabet of weights, means and covariances: every ordered subset of parameters kept (in one step, and in every two-step order), every fixed subset and value '
        'of conditioning (one step, every two-step order, before and after marginalizing), moments, gridded 1D/2D densities; every assignment of hard limits; every constructor form; order: every order of the same components and of the names asked for; samples with limits for every size in the alphabet')
ASSUMPTIONS = ['covariances are positive definite', 'mixture densities are only normalised without limits (documented)', 'samples are drawn with ignore_rows=0']

WEIGHTS = {1: [None, [2.]], 2: [None, [1, 3], [0.2, 0.8], [0., 1.]], 3: [None, [1, 2, 5]]}


def cov(dim, k):
    """a positive definite matrix with all correlations different"""
    a = np.array([[1., .3, -.2, .1], [0, .8, .5, -.3], [0, 0, 1.3, .25], [0, 0, 0, .6]])[:dim, :dim]
    a = a * np.array([1, 2, .5, 3])[:dim, None]
    c = a @ a.T
    if k == 1:
        c = np.diag(np.diag(c)) * .5
    elif k == 2:
        c = c[::-1, ::-1] * 2.
    return np.ascontiguousarray(c)


def mean(dim, k):
    return np.array([[0, 0, 0, 0], [1, -2, .5, 3], [-.5, .3, 2, -1]], dtype=float)[k][:dim]


def names(dim):
    return ['a', 'b', 'c', 'd'][:dim]


def gauss(x, m, c):
    d = np.asarray(x) - m
    return np.exp(-d @ np.linalg.solve(c, d) / 2) / np.sqrt(np.linalg.det(2 * np.pi * c))


class Ref(object):
    """mixture by its definition"""

    def __init__(self, means, covs, w):
        n = len(means)
        w = np.ones(n) if w is None else np.array(w, dtype=float)
        self.w = w / w.sum()
        self.m, self.c = means, covs

    def pdf(self, x, idx=None):
        if idx is None:
            idx = range(len(self.m[0]))
        idx = list(idx)
        return sum(w * gauss(x, m[idx], c[np.ix_(idx, idx)]) for w, m, c in zip(self.w, self.m, self.c))


def gen(maxdim):
    def g():
        for dim in range(1, maxdim + 1):
            for n in (1, 2, 3):
                for wi in range(len(WEIGHTS[n])):
                    for cs in itertools.product(range(3), repeat=n):
                        for ms in itertools.product(range(3), repeat=n):
                            if n == 3 and (len(set(cs)) == 1 or len(set(ms)) == 1):
                                continue
                            yield [dim, n, wi, list(cs), list(ms)]
    return g


PTS = [np.array([.3, -.4, .2, .7]), np.array([-1.1, 2., .6, -.2]), np.array([0., 0, 0, 0])]


def near(a, b, tol=1e-8):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (np.abs(b) + np.max(np.abs(b), initial=0) * 1e-2 + 1e-30)))


def same_pdf(mix, ref, idx, what, keep=None):
    keep = keep or idx
    for p in PTS:
        x = p[keep]
        require(near(MixtureND.pdf(mix, x), ref(p)), '%s: density %r at %r, expected %r', what, MixtureND.pdf(mix, x), x, ref(p))


def check(ctx, case):
    dim, n, wi, cs, ms = case
    w = WEIGHTS[n][wi]
    means, covs = [mean(dim, k) for k in ms], [cov(dim, k) for k in cs]
    ref = Ref(means, covs, w)
    snap = [m.copy() for m in means], [c.copy() for c in covs]
    mix = MixtureND(means, covs, w, names=names(dim), label='L', labels=[x.upper() for x in names(dim)])
    allidx = list(range(dim))
    same_pdf(mix, lambda p: ref.pdf(p[allidx]), allidx, 'mixture')
    require(near(mix.pdf(np.array([p[:dim] for p in PTS])), [ref.pdf(p[:dim]) for p in PTS]), 'density of an array of points')
    # moments
    ctx.step()
    mu = sum(wt * m for wt, m in zip(ref.w, ref.m))
    C = sum(wt * (c + np.outer(m - mu, m - mu)) for wt, m, c in zip(ref.w, ref.m, ref.c))
    require(near(mix.total_mean, mu, 1e-10) or np.allclose(mix.total_mean, mu), 'mean %r expected %r', mix.total_mean, mu)
    require(np.allclose(mix.total_cov, C, rtol=1e-9, atol=1e-12), 'covariance %r expected %r', mix.total_cov, C)
    # marginals
    for r in range(1, dim + 1):
        for keep in itertools.permutations(allidx, r):
            keep = list(keep)
            for form in (keep, [names(dim)[i] for i in keep], [mix.paramNames.names[i] for i in keep]):
                ctx.step()
                one = mix.marginalizedMixture(form)
                require(one.names == [names(dim)[i] for i in keep], 'names of marginal %r', one.names)
            require([p.label for p in one.paramNames.names] == [names(dim)[i].upper() for i in keep], 'labels of marginal')
            require(one.label == 'L' and one.dim == r and isinstance(one, Mixture2D) == (r == 2), 'marginal')
            same_pdf(one, lambda p: ref.pdf(p[keep], keep), keep, 'marginal over all but %s' % keep)
            require(np.allclose(one.total_mean, mu[keep]) and np.allclose(one.total_cov, C[np.ix_(keep, keep)]), 'moments of the marginal %s', keep)
            if r < dim or dim <= 2:
                for sub in itertools.permutations(range(r), max(1, r - 1)):
                    sub = list(sub)
                    ctx.step()
                    two = one.marginalizedMixture([one.names[i] for i in sub])
                    final = [keep[i] for i in sub]
                    same_pdf(two, lambda p: ref.pdf(p[final], final), final, 'marginal in two steps %s %s' % (keep, final))
    for i in allidx:
        for form in (i, names(dim)[i]):
            x = np.array([-1., 0, .7])
            require(near(mix.pdf_marged(form, x), [ref.pdf([v], [i]) for v in x]), 'one dimensional marginal of %s', form)
        d = mix.density1D(names(dim)[i], num_points=64, sigma_max=6)
        ctx.step()
        require(near(d.P, [ref.pdf([v], [i]) for v in d.x], 1e-7), 'gridded one dimensional density of %s', i)
        require(len(d.x) == 64, 'number of points')
        d = mix.density1D(i, num_points=600, sigma_max=6)
        lo = min(m[i] - 6 * np.sqrt(c[i, i]) for m, c in zip(means, covs))
        hi = max(m[i] + 6 * np.sqrt(c[i, i]) for m, c in zip(means, covs))
        require(np.isclose(d.x[0], lo) and np.isclose(d.x[-1], hi), 'range %r-%r of the gridded density, expected %r-%r', d.x[0], d.x[-1], lo, hi)
        require(abs(d.norm_integral() - 1) < 1e-5, 'marginal integrates to %s', d.norm_integral())
    if dim >= 2 and sum(cs) < 3:
        for i, j in itertools.permutations(allidx, 2):
            ctx.step()
            d = mix.density2D([names(dim)[i], j], num_points=12)
            require(near(d.P, [[ref.pdf([x, y], [i, j]) for x in d.x] for y in d.y], 1e-7), 'gridded two dimensional density of %s,%s', i, j)
    # conditionals
    if n != 3 or dim <= 3:
        for r in range(1, dim):
            for fixed in itertools.permutations(allidx, r):
                keep = [i for i in allidx if i not in fixed]
                for at in PTS[:2]:
                    vals = [at[i] for i in fixed]
                    marg = ref.pdf(np.array(vals), fixed)

                    def slice_pdf(p):
                        q = p.copy()
                        q[list(fixed)] = vals
                        return ref.pdf(q[:dim]) / marg
                    ctx.step()
                    c1 = mix.conditionalMixture([names(dim)[i] for i in fixed], vals)
                    require(c1.names == [names(dim)[i] for i in keep], 'names of conditional')
                    require([q.label for q in c1.paramNames.names] == [names(dim)[i].upper() for i in keep], 'labels of conditional')
                    same_pdf(c1, slice_pdf, keep, 'conditional on %s=%s' % (fixed, vals))
                    if r > 1:
                        c2 = mix.conditionalMixture([fixed[0]], vals[:1])
                        c2 = c2.conditionalMixture([names(dim)[i] for i in fixed[1:]], vals[1:])
                        ctx.step()
                        same_pdf(c2, slice_pdf, keep, 'conditional in two steps on %s=%s' % (fixed, vals))
                    if len(keep) > 1:
                        for drop in keep:
                            k2 = [i for i in keep if i != drop]
                            ctx.step(2)
                            a = c1.marginalizedMixture([names(dim)[i] for i in k2])
                            b = mix.marginalizedMixture([names(dim)[i] for i in list(fixed) + k2]).conditionalMixture([names(dim)[i] for i in fixed], vals)
                            for p in PTS:
                                require(near(MixtureND.pdf(a, p[k2]), MixtureND.pdf(b, p[k2])), 'marginalizing and conditioning do not commute (fixed %s, dropped %s)', fixed, drop)
    # nothing changed
    same_pdf(mix, lambda p: ref.pdf(p[allidx]), allidx, 'mixture afterwards')
    require(all(np.array_equal(a, b) for a, b in zip(means + covs, snap[0] + snap[1])), 'arguments changed')
    return [round(float(C[0, 0]), 6), round(float(mu[-1]), 6), dim, n]


# ---- limits, constructors, samples
LIMS = [(None, None), (0.1, None), (None, .9), (-.4, 1.2), (0, .3), (-.2, 0), (None, 9.), (0., None)]


def lim_gen():
    for dim in (1, 2, 3):
        for lims in itertools.product(range(len(LIMS)), repeat=dim):
            for n in (1, 2):
                if dim < 3 or all(k < 4 for k in lims) or sum(k > 3 for k in lims) == 1 and lims.count(0) == 2:
                    yield [dim, list(lims), n]


def lim_check(ctx, case):
    dim, li, n = case
    lims = [LIMS[i] for i in li]
    means, covs = [mean(dim, k) for k in range(n)], [cov(dim, k) for k in range(n)]
    ref = Ref(means, covs, None)
    forms = [MixtureND(means, covs, lims=lims, names=names(dim))]
    if dim == 2:
        forms.append(Mixture2D(means, covs, names=names(2), xmin=lims[0][0], xmax=lims[0][1], ymin=lims[1][0], ymax=lims[1][1]))
        forms.append(Mixture2D(means, covs, lims=lims, names=names(2)))
        # each side given separately takes precedence over the same side of lims
        forms.append(Mixture2D(means, covs, lims=[(-77, lims[0][1]), (lims[1][0], 66)], xmin=lims[0][0] if lims[0][0] is not None else -5, ymax=lims[1][1] if lims[1][1] is not None else 6, names=names(2)))
        if lims[0][0] is None or lims[1][1] is None:
            del forms[-1]
        forms.append(Mixture2D(means, [[np.sqrt(c[0, 0]), np.sqrt(c[1, 1]), c[0, 1] / np.sqrt(c[0, 0] * c[1, 1])] for c in covs], lims=lims, names=names(2)))
        if n == 1:
            forms.append(Gaussian2D(means[0], covs[0], lims=lims, names=names(2)))
    if dim == 1:
        forms.append(Mixture1D([m[0] for m in means], [np.sqrt(c[0, 0]) for c in covs], lims=lims[0], name='a'))
        forms.append(Mixture1D([m[0] for m in means], [np.sqrt(c[0, 0]) for c in covs], xmin=lims[0][0], xmax=lims[0][1], name='a'))
        if None not in lims[0]:
            forms.append(Mixture1D([m[0] for m in means], [np.sqrt(c[0, 0]) for c in covs], lims=(-50, lims[0][1]), xmin=lims[0][0], name='a'))
            forms.append(Mixture1D([m[0] for m in means], [np.sqrt(c[0, 0]) for c in covs], lims=(lims[0][0], 50), xmax=lims[0][1], name='a'))
        if n == 1:
            forms.append(Gaussian1D(means[0][0], np.sqrt(covs[0][0, 0]), xmin=lims[0][0], xmax=lims[0][1], name='a'))
    if n == 1:
        forms.append(GaussianND(means[0], covs[0], lims=lims, names=names(dim)))
        forms.append(GaussianND(means[0], np.linalg.inv(covs[0]), is_inv_cov=True, lims=lims, names=names(dim)))
        forms.append(GaussianND(list(means[0]), np.linalg.inv(covs[0]).tolist(), is_inv_cov=True, lims=lims, names=names(dim)))
    out = []
    for fi, mix in enumerate(forms):
        ctx.step()
        for i, nm in enumerate(names(dim)):
            require((mix.getLower(nm), mix.getUpper(nm)) == lims[i], 'limits of %s: %r, expected %r', nm, (mix.getLower(nm), mix.getUpper(nm)), lims[i])
            others = any(lims[j] != (None, None) for j in range(dim) if j != i)
            for over in (False, True):
                try:
                    d = mix.density1D(nm, num_points=20, no_limit_marge=over)
                except Exception as e:
                    require(others and not over and 'limits' in str(e), 'density1D(%s) with limits %s: %r', nm, lims, e)
                    continue
                require(not others or over, 'marginalized over a limited parameter without being asked to')
                require(near(d.P, [ref.pdf([v], [i]) for v in d.x], 1e-7), 'density of %s', nm)
                for k, end in ((0, d.x[0]), (1, d.x[-1])):
                    if lims[i][k] is not None:
                        require(end == lims[i][k], 'density extends to %s, beyond limit %s', end, lims[i][k])
            try:
                m1 = mix.marginalizedMixture([nm])
                require(not others, 'marginalized over a limited parameter')
                require(list(map(tuple, m1.lims)) == [lims[i]], 'limits of marginal')
            except Exception as e:
                require(others and 'limits' in str(e), 'marginalizing: %r', e)
        for smax in (2, 4):
            for i, (lo, hi) in enumerate(mix.autoRanges(smax)):
                e = [min(m[i] - smax * np.sqrt(c[i, i]) for m, c in zip(means, covs)), max(m[i] + smax * np.sqrt(c[i, i]) for m, c in zip(means, covs))]
                require((lo == lims[i][0] or lims[i][0] is None and lo <= e[0] + 1e-9) and (hi == lims[i][1] or lims[i][1] is None and hi >= e[1] - 1e-9),
                        'range %s-%s of parameter %s with limits %s does not include %s', lo, hi, i, lims[i], e)
                if lims[i] == (None, None):
                    require(np.allclose([lo, hi], e), 'range %s-%s without limits, expected %s', lo, hi, e)
        if dim == 2:
            for swap in (0, 1):
                d = mix.density2D(names(2)[::-1] if swap else None, num_points=9)
                o = [1, 0] if swap else [0, 1]
                require(near(d.P, [[ref.pdf([x, y], o) for x in d.x] for y in d.y], 1e-7), 'two dimensional density')
                for q, ax in enumerate((d.x, d.y)):
                    for k in (0, 1):
                        if lims[o[q]][k] is not None:
                            require(ax[-k] == lims[o[q]][k], 'density extends beyond the limit')
            require(near(mix.pdf([.2, .3]), ref.pdf([.2, .3])), 'density at a point')
            if isinstance(mix, Mixture2D):
                require(near(mix.pdf(.2, .3), ref.pdf([.2, .3])) and near(mix.pdf(np.array([.2, .5]), np.array([.3, -1])), [ref.pdf([.2, .3]), ref.pdf([.5, -1])]), 'density at x,y')
        if dim == 1 and isinstance(mix, Mixture1D):
            require(near(mix.pdf(np.array([.2, .5])), [ref.pdf([.2]), ref.pdf([.5])]), 'density at x')
        for size in (1, 2, 7, 150):
            ctx.step()
            s = mix.sim(size, random_state=3)
            require(s.shape == (size, dim), 'asked for %s samples, got %s', size, s.shape)
            require(np.array_equal(s, mix.sim(size, random_state=3)), 'samples with the same seed differ')
            for i in range(dim):
                lo, hi = lims[i]
                require((lo is None or s[:, i].min() >= lo) and (hi is None or s[:, i].max() <= hi), 'samples outside the limits of %s', i)
        if fi == len(forms) - 1 or fi == 0:
            for newnames in (None, ['q', 'r', 's'][:dim]):
                with quiet():
                    mc = mix.MCSamples(40, names=newnames, logLikes=True, random_state=4, ignore_rows=0)
                nn = newnames or names(dim)
                ctx.step()
                require(mc.samples.shape == (40, dim) and mc.loglikes.shape == (40,), 'samples %s, likelihoods %s', mc.samples.shape, mc.loglikes.shape)
                require(mc.paramNames.list() == nn, 'names %s', mc.paramNames.list())
                require(near(mc.loglikes, [-np.log(ref.pdf(v)) for v in mc.samples], 1e-7), 'log likelihoods of the samples')
                require([(mc.ranges.getLower(q), mc.ranges.getUpper(q)) for q in nn] == lims, 'ranges of the samples')
                mc.paramNames.setLabels(['changed'] * dim)
                mc.paramNames.addDerived('extra')
                mc.updateRenames({nn[0]: ['another']})
                require(mix.names == names(dim) and mix.paramNames.list() == names(dim) and not mix.paramNames.getRenames() and 'changed' not in mix.paramNames.labels(), 'changing the samples changed the mixture: %s', mix.paramNames)
        out.append(mix.dim)
    return [dim, li, n]


def order_gen():
    for w in ([1, 1], [1, 3], [5, 1]):
        for lim in (None, 0, 1, 2):
            for size in (400, 1000):
                for seed in range(4):
                    yield [w, lim, size, seed]


def order_check(ctx, case):
    """samples are independent draws: the components mix in the given proportion in every part of the list"""
    w, lim, size, seed = case
    lims = None if lim is None else [[(None, 10.5), (None, None)], [(-0.3, None), (0., None)], [(None, None), (-.1, .1)]][lim]
    mix = Mixture2D([[0., 0.], [10., 0.]], [np.eye(2), np.eye(2)], weights=w, lims=lims)
    s = mix.sim(size, random_state=seed)
    keep = [1., 1.]
    from scipy.stats import norm
    if lim == 0:
        keep = [1., norm.cdf(.5)]
    elif lim == 1:
        keep = [norm.sf(-.3), 1.]
    p = w[1] * keep[1] / (w[0] * keep[0] + w[1] * keep[1])
    second = s[:, 0] > 5
    for a, b in ((0, size), (0, size // 4), (size // 4, size // 2), (size // 2, 3 * size // 4), (3 * size // 4, size), (size - 40, size)):
        n = b - a
        got = second[a:b].mean()
        ctx.step()
        require(abs(got - p) <= 5 * np.sqrt(p * (1 - p) / n), 'fraction %s of samples %s-%s is from the second component, expected %s', got, a, b, p)
    return [case[0], lim]


def scenarios(tier):
    deep = tier == 'thorough'
    return [Enum('mixtures', gen(4 if deep else 3), check, timeout=120), Enum('limits', lim_gen, lim_check), Enum('order', order_gen, order_check)]
