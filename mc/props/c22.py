"""Gridded densities: interpolation, normalisation, contour levels, limits; histories of one object."""
import itertools

import numpy as np
from scipy.interpolate import CubicSpline

from mc.core import Bfs, Enum, require
from getdist.densities import DensitiesError, Density1D, Density2D, getContourLevels

PROPERTY = 'C22'
LEVEL = 'model_checking'
RULE = ('every density whose values at 6 (7) knots are in the alphabet, interpolated smoothly to a grid, on three axes (offset, spacing), every requested probability and way of passing it, every accuracy factor; every '
        '1D/2D/3D array of small shape over the value alphabet for contour levels; every sequence of operations on one density object up to the depth, compared with a fresh object having the same values')
ASSUMPTIONS = ['grids are equally spaced with at least 4 points per axis', 'values are finite, non-negative and not all zero',
               'limits are compared within the probability of a few fine-grid cells', 'DensityND (documented as untested, not used by the package) is not covered']

PS = (0.02, 0.3, 0.5, 0.68, 0.9, 0.95, 0.99)
AXES = ((0., 1.), (-3.3, 0.01), (1e5, 10.))


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.max(np.abs(b), initial=0))))


def smooth(knots, sub):
    """raised-cosine interpolation of the knots, sub cells per interval"""
    k = np.array(knots, dtype=float)
    out = []
    for a, b in zip(k[:-1], k[1:]):
        t = np.arange(sub) / sub
        out.append(a + (b - a) * (1 - np.cos(np.pi * t)) / 2)
    return np.append(np.concatenate(out), k[-1])


# ---- limits of one dimensional densities
def lim_gen(alpha, n):
    def gen():
        for knots in itertools.product(alpha, repeat=n):
            if max(knots) > 0:
                for ax in range(len(AXES)):
                    yield [list(knots), ax]
    return gen


def level_of(vals, mass, p):
    """largest value v such that the mass of {P >= v} is at least p; None when the whole mass is less"""
    ix = np.argsort(vals)[::-1]
    c = np.cumsum(mass[ix])
    j = np.searchsorted(c, p)
    return vals[ix][j] if j < len(c) else -np.inf


def lim_check(ctx, case):
    knots, ax = case
    x0, dx = AXES[ax]
    P = smooth(knots, 5)
    n = len(P)
    x = x0 + dx * np.arange(n)
    orig = P.copy()
    d = Density1D(x, P)
    spl = CubicSpline(np.arange(n), orig)
    # interpolation
    off = np.arange(0, (n - 1) * 4) / 4. + 1 / 7.
    ctx.step()
    require(close(d.Prob(x0 + dx * off), spl(off), 1e-7), 'interpolated values differ from the spline through the grid values')
    require(close(d(list(x)), orig, 1e-9), 'values at the grid points are not the grid values')
    require(close(d.Prob(x[1]), [orig[1]], 1e-9), 'value at a single grid point')
    require(np.all(d.Prob(np.array([x[0] - dx / 2, x[-1] + dx / 2])) == 0), 'density outside the range is not zero')
    for off2 in (x[0] - dx / 2, x[-1] + dx / 2, float(x[-1] + 40 * dx)):
        require(list(d.Prob(off2)) == [0] and list(d([off2, x[1], off2]))[::2] == [0, 0], 'density outside the range is not zero')
    # normalisation
    trap = dx * (np.sum(orig) - (orig[0] + orig[-1]) / 2)
    require(close(d.norm_integral(), trap), 'integral %r, expected %r', d.norm_integral(), trap)
    require(tuple(d.bounds()) == (x[0], x[-1]), 'bounds')
    # reference mass on midpoints
    sub = 300
    u = (np.arange((n - 1) * sub) + 0.5) / sub
    v = spl(u)
    mass = np.clip(v, 0, None)
    mass = mass / mass.sum()
    prev = None
    scal = []
    mxmass = np.max(v) / (np.sum(v) / sub)  # probability of one grid cell at the peak
    for acc in (None, 1, 3):
        f = acc or max(2, 20000 // n)
        for p in PS:
            ctx.step()
            r = d.getLimits(p, accuracy_factor=acc) if acc else d.getLimits(p)
            mn, mx, bot, top = r
            if acc is None:
                scal.append(r)
            delta = 4e-3 + 2 * mxmass / f
            L1, L2 = level_of(v, mass, p + delta), level_of(v, mass, max(p - delta, 0))
            slack = (2. / f + 2. / sub)
            lt = 5e-2 if acc else 1e-4
            lo, hi = (mn - x0) / dx, (mx - x0) / dx
            inner = u[v > L2 * (1 + lt) + 1e-9]
            outer = u[v >= L1 * (1 - lt) - 1e-9]
            require(lo <= hi, 'limits %r-%r inverted (p=%s)', mn, mx, p)
            if len(inner):
                require(lo <= inner[0] + slack and hi >= inner[-1] - slack, 'p=%s: limits %r-%r do not enclose the region of highest density (cells %r-%r)', p, lo, hi, inner[0], inner[-1])
            require(lo >= outer[0] - slack and hi <= outer[-1] + slack, 'p=%s: limits %r-%r larger than the region enclosing that probability (cells %r-%r)', p, lo, hi, outer[0], outer[-1])
            if acc is None:
                inside = mass[(u >= lo) & (u <= hi)].sum()
                require(inside >= p - delta, 'limits for p=%s enclose only %s', p, inside)
                for flag, val, lim, end in ((bot, orig[0], mn, x[0]), (top, orig[-1], mx, x[-1])):
                    if val > L2 * (1 + 1e-6) + 1e-9:
                        require(flag and lim == end, 'p=%s: density has not fallen at the end %r but is given a limit there', p, end)
                    if val < L1 * (1 - 1e-6) - 1e-9:
                        require(not flag, 'p=%s: limit %r flagged open though the density has fallen', p, lim)
                if prev is not None:
                    require(mn <= prev[0] + 1e-12 * abs(x0) and mx >= prev[1] - 1e-12 * abs(x0), 'limits for p=%s %r not inside those for larger probability %r', p, prev, r)
                prev = mn, mx
    # every way of asking
    g = d.initLimitGrids()
    require(d.getLimits(PS[2], g) == scal[2], 'limits depend on passing a precomputed grid')
    for form in (list, tuple, np.array):
        ctx.step()
        require([tuple(a) for a in d.getLimits(form(PS), g)] == scal, 'limits from a %s differ from those one by one: %r %r', form.__name__, d.getLimits(form(PS), g), scal)
    for i, p in enumerate(PS):
        for form in (list, tuple, np.array):
            one = d.getLimits(form([p]), g)
            require(isinstance(one, list) and len(one) == 1 and tuple(one[0]) == scal[i], 'limits from a %s of one: %r, expected %r', form.__name__, one, scal[i])
    # ways of normalising
    for by in ('integral', 'max'):
        for inplace in (False, True):
            arr = orig.copy()
            dd = Density1D(x, arr)
            dd.Prob(x[0])
            dd.normalize(by, in_place=inplace)
            ctx.step()
            want = orig / (trap if by == 'integral' else orig.max())
            require(close(dd.P, want), 'normalize by %s', by)
            require(close(dd.Prob(x0 + dx * off), spl(off) * (want.max() / orig.max()), 1e-7), 'interpolation not normalized by %s', by)
            require(np.array_equal(arr, want if inplace else orig) or (inplace and close(arr, want)), 'normalize(in_place=%s) on the array given', inplace)
            if by == 'integral':
                require(close(dd.norm_integral(), 1.), 'integral after normalizing %r', dd.norm_integral())
    require(np.array_equal(P, orig), 'asking for limits changed the density')
    return [round(float(s[0]), 3) for s in scal[::2]]


# ---- contour levels
def lev_gen(shapes):
    def gen():
        for shape, alpha in shapes:
            for vals in itertools.product(alpha, repeat=int(np.prod(shape))):
                if max(vals) > 0:
                    for half in (1, 0):
                        yield [list(shape), list(vals), half]
    return gen


CONT = (0.2, 0.68, 0.95)


def lev_check(ctx, case):
    shape, vals, half = case
    P = np.array(vals, dtype=float).reshape(shape)
    w = np.ones(shape)
    if half:
        for a, s in enumerate(shape):
            e = np.ones(s)
            e[0] /= 2
            e[-1] /= 2
            w *= e.reshape([s if i == a else 1 for i in range(len(shape))])
    orig = P.copy()
    ctx.step()
    m = P * w
    tot = m.sum()
    if tot == 0:
        return
    vs = np.unique(P)
    out = []
    for c in CONT:
        try:
            got = float(getContourLevels(P, [c], half_edge=bool(half))[0])
        except DensitiesError:
            require((1 - c) * tot <= m[P == vs[0]].sum() + 1e-9, 'contour %s reported outside the grid though bins with density %s are not needed', c, vs[0])
            out.append(None)
            continue
        enc = [m[P >= v].sum() for v in vs]
        his = [v for v, e in zip(vs, enc) if e >= c * tot - 1e-9]
        hi = his[-1]
        los = [v for v, e in zip(vs, enc) if e >= c * tot + 1e-9]
        k = list(vs).index(los[-1] if los else vs[0])
        lo = vs[max(k - 1, 0)]
        require(lo - 1e-9 <= got <= hi + 1e-9, 'level %s for %s of the probability: between %s and %s expected', got, c, lo, hi)
        out.append(round(got, 6))
    require(np.array_equal(P, orig), 'finding contour levels changed the density')
    if None not in out:
        ctx.step()
        allc = list(getContourLevels(P, CONT, half_edge=bool(half)))
        require(close(allc, out, 1e-5), 'levels asked together %r, one by one %r', allc, out)
        require(all(a >= b - 1e-12 for a, b in zip(allc[:-1], allc[1:])), 'levels are not decreasing with probability: %r', allc)
        if half:
            # density classes use the same levels
            if len(shape) == 1 and shape[0] >= 2:
                d = Density1D(np.arange(float(shape[0])), P)
            elif len(shape) == 2:
                d = Density2D(np.arange(float(shape[1])), np.arange(float(shape[0])), P)
            else:
                return out
            require(close(d.getContourLevels(CONT), allc), 'levels of the density object differ')
            require(close(d.norm_integral(), tot), 'integral %r of the grid, expected %r', d.norm_integral(), tot)
    return out


# ---- two dimensional grids
def d2_gen():
    for nx, ny in itertools.product((4, 5, 7), repeat=2):
        for fx, fy in itertools.product(range(4), repeat=2):
            for ax in range(3):
                yield [nx, ny, fx, fy, ax]


FUN = [lambda t: 1 + t, lambda t: np.exp(-3 * t), lambda t: 1. + 0 * t, lambda t: t * (1.2 - t) + 0.1]


def d2_check(ctx, case):
    nx, ny, fx, fy, ax = case
    x0, dx = AXES[ax]
    y0, dy = AXES[(ax + 1) % 3]
    ux, uy = np.linspace(0, 1, nx), np.linspace(0, 1, ny)
    P = np.outer(FUN[fy](uy), FUN[fx](ux)) + 0.2 * np.outer(uy, ux ** 2)
    x, y = x0 + dx * np.arange(nx), y0 + dy * np.arange(ny)
    orig = P.copy()
    d = Density2D(x, y, P)
    ctx.step()
    for i in range(nx):
        for j in range(ny):
            require(close(d.Prob(x[i], y[j]), orig[j, i], 1e-8), 'value at grid point %s,%s', i, j)
            require(close(d(x[i], y[j], grid=False), orig[j, i], 1e-8), 'value at grid point %s,%s', i, j)
    require(close(d.Prob(x[:3], y[:3]), [orig[i, i] for i in range(3)], 1e-8), 'array of points')
    require(close(d.Prob(x[:3], y, grid=True), orig[:, :3].T, 1e-8), 'grid of points')
    t = Density2D(y, x, orig.T.copy())
    ox, oy = (x[:-1] + x[1:]) / 2, (y[:-1] + y[1:]) / 2
    require(close(d(ox, oy), t(oy, ox).T, 1e-8), 'interpolation differs when the axes are exchanged')
    cell = dx * dy
    wx, wy = np.ones(nx), np.ones(ny)
    wx[[0, -1]] = wy[[0, -1]] = .5
    integ = np.sum(orig * np.outer(wy, wx)) * cell
    require(close(d.norm_integral(), integ), 'integral %r expected %r', d.norm_integral(), integ)
    require([tuple(b) for b in d.bounds()] == [(x[0], x[-1]), (y[0], y[-1])], 'bounds %r', d.bounds())
    for by in ('integral', 'max'):
        for inplace in (False, True):
            arr = orig.copy()
            dd = Density2D(x, y, arr)
            dd(x[0], y[0])
            dd.normalize(by, in_place=inplace)
            f = 1 / (integ if by == 'integral' else orig.max())
            ctx.step()
            require(close(dd.P, orig * f), 'normalize by %s', by)
            require(close(dd(ox, oy), d(ox, oy) * f, 1e-8), 'interpolation not normalized by %s', by)
            require(close(arr, orig * f if inplace else orig), 'normalize(in_place=%s) on the array given', inplace)
    bad = 0
    for shp in ((ny + 1, nx), (ny, nx - 1), (nx, ny)):
        if shp == (ny, nx):
            continue
        try:
            Density2D(x, y, np.ones(shp))
        except DensitiesError:
            bad += 1
            continue
        require(False, 'array of shape %s accepted for axes of length %s, %s', shp, nx, ny)
    return [round(float(integ / cell), 6), bad]


# ---- histories of one object
OPS = [['prob'], ['limits'], ['levels'], ['norm', 'integral', 0], ['norm', 'integral', 1], ['norm', 'max', 0], ['norm', 'max', 1], ['setP', 0], ['setP', 1], ['setP', 2], ['setP', None]]
VALS = [[.1, .5, 1, 2, .7, .2], [2, 1, .5, .25, .12, .06], [1, 1, 3, 3, 1, 1]]


def arr1(k):
    return np.array(VALS[k], dtype=float)


def arr2(k):
    return np.outer(np.array(VALS[k][:5]) + .3, arr1((k + 1) % 3))


def hist_build(ctx, dim, hist):
    x, y = np.linspace(-1, 1, 6), np.linspace(3, 5, 5)
    P = arr1(0) if dim == 1 else arr2(0)
    d = Density1D(x, P) if dim == 1 else Density2D(x, y, P)
    P = P.copy()
    pts = np.linspace(-0.95, 0.95, 9)
    for op in hist:
        ctx.step()
        if op[0] == 'prob':
            d(0.1) if dim == 1 else d(0.1, 3.4)
        elif op[0] == 'limits':
            if dim == 1:
                d.getLimits(0.6)
        elif op[0] == 'levels':
            if np.sum(P):
                d.getContourLevels([0.5])
        elif op[0] == 'norm':
            if not np.sum(P):
                continue
            d.normalize(op[1], in_place=bool(op[2]))
            ref = (Density1D(x, P) if dim == 1 else Density2D(x, y, P)).norm_integral() if op[1] == 'integral' else P.max()
            P = P / ref
        elif op[1] is None:
            d.setP()
            P = np.zeros(P.shape)
        else:
            P = arr1(op[1]) if dim == 1 else arr2(op[1])
            d.setP(P)
            P = P.copy()
    f = Density1D(x, P.copy()) if dim == 1 else Density2D(x, y, P.copy())
    require(close(d.P, P), 'grid values after %r', hist)
    if dim == 1:
        require(close(d(pts), f(pts)), 'interpolation after %r differs from a new density with the same values', hist)
        if np.sum(P):
            require(close([float(a) for a in d.getLimits(.6)], [float(a) for a in f.getLimits(.6)]), 'limits after %r', hist)
    else:
        yy = np.linspace(3.1, 4.9, 6)
        require(close(d(pts, yy), f(pts, yy)), 'interpolation after %r differs from a new density with the same values', hist)
    if np.sum(P):
        require(close(d.getContourLevels([.5, .9]), f.getContourLevels([.5, .9])), 'levels after %r', hist)
    # the spline state is part of the state: replayed histories differ in it
    return dict(P=[round(float(a), 9) for a in P.ravel()], last=hist[-1:], dim=dim)


def scenarios(tier):
    deep = tier == 'thorough'
    return [
        Enum('limits', lim_gen((0, .2, .6, 1) if deep else (0, .3, 1), 6), lim_check),
        Enum('levels', lev_gen([((5,), (0, 1, 2, 5)), ((3, 3), (0, 1, 3)), ((2, 4), (0, 1, 3)), ((2, 2, 2), (0, 1, 3))] +
                               ([((6,), (0, 1, 2, 5)), ((3, 4), (0, 1, 3)), ((2, 2, 3), (1, 3))] if deep else [])), lev_check),
        Enum('grid2d', d2_gen, d2_check),
        Bfs('history', lambda: [1, 2], hist_build, lambda st: OPS, lambda st: st, 5 if deep else 4),
    ]
