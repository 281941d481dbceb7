"""Fast convolutions against direct summation: all sizes, modes, padding sizes, cache histories."""
import itertools

import numpy as np

from mc.core import Bfs, Enum, require
from getdist import convolve as cv

PROPERTY = 'C24'
LEVEL = 'model_checking'
RULE = ('every pair of input sizes up to the bound (1D, 2D), every mode, padding size, cache use (none, both, either argument) and value pattern; every auto-correlation length; every Gaussian width, padding and mode; '
        'every sequence of calls sharing one cache up to the depth, each compared with direct summation')
ASSUMPTIONS = ['the second argument is no larger than the first, except in full mode (as used by the density estimator)', 'arrays passed with a cache stay alive and unmodified (documented caveat of the cache)',
               'one cache is shared only by calls of the same function']


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.max(np.abs(b), initial=0))))


def pattern(n, k):
    i = np.arange(1, n + 1, dtype=float)
    return [i % 3 + i / 10, np.cos(i * 1.7) * 3, (i == n) * 2. + (i == 1), (-1.) ** i * i][k]


def direct(x, y, mode):
    """direct sums for any dimension"""
    s1, s2 = np.array(x.shape), np.array(y.shape)
    full = np.zeros(s1 + s2 - 1)
    for ix in np.ndindex(*y.shape):
        full[tuple(slice(i, i + s) for i, s in zip(ix, s1))] += x * y[ix]
    if mode == 'full':
        return full
    if mode == 'same':
        return full[tuple(slice((b - 1) // 2, (b - 1) // 2 + a) for a, b in zip(s1, s2))]
    return full[tuple(slice(b - 1, a) for a, b in zip(s1, s2))]


CACHES = [None, (1, 2), (1,), (2,), ()]


# ---- 1D
def d1_gen(maxn):
    def gen():
        sizes = list(range(1, maxn + 1))
        for n, m in itertools.product(sizes, repeat=2):
            for mode in ('same', 'full', 'valid'):
                if m > n and mode != 'full':
                    continue
                for k in range(4):
                    yield [n, m, mode, k]
        for n, m in ((1001, 1001), (1002, 1001), (1500, 1003), (2048, 1025), (1001, 1000), (3000, 5), (1999, 1002)):
            for mode in ('same', 'full', 'valid'):
                yield [n, m, mode, 1]
    return gen


def d1_check(ctx, case):
    n, m, mode, k = case
    x, y = pattern(n, k), pattern(m, (k + 1) % 4)
    x0, y0 = x.copy(), y.copy()
    ref = direct(x, y, mode)
    tol = 1e-9 * (n + m)
    for largest in (0, n + m + 3, 2 * (n + m)):
        for args in CACHES:
            cache = None if args is None else {}
            for rep in range(2):
                ctx.step(2)
                a = cv.convolve1D(x, y, mode, largest_size=largest, cache=cache, cache_args=args or ())
                require(close(a, ref, tol), 'convolve1D sizes %s,%s mode %s (call %s): %r expected %r', n, m, mode, rep, a, ref)
                a = cv.convolveFFT(x, y, mode, largest_size=largest, cache=cache, cache_args=args or ())
                require(close(a, ref, tol), 'convolveFFT sizes %s,%s mode %s (call %s): %r expected %r', n, m, mode, rep, a, ref)
    fs = cv.nearestFFTnumber(n + m - 1)
    require(fs >= n + m - 1, 'FFT size %s too small for %s', fs, n + m - 1)
    for a in (cv.convolveFFT(x, y, mode, yfft=np.fft.rfft(y, fs)), cv.convolveFFT(x, y, mode, xfft=np.fft.rfft(x, fs)), cv.convolveFFT(x, y, mode, xfft=np.fft.rfft(x, fs), yfft=np.fft.rfft(y, fs))):
        ctx.step()
        require(close(a, ref, tol), 'convolveFFT with given transforms, sizes %s,%s mode %s', n, m, mode)
    require(np.array_equal(x, x0) and np.array_equal(y, y0), 'arguments changed')
    return [n, m, mode]


# ---- 2D (and 3D for the n-dimensional routine)
def d2_gen(maxn):
    def gen():
        r = range(1, maxn + 1)
        for a, b, c, d in itertools.product(r, repeat=4):
            for mode in ('same', 'full', 'valid'):
                if (c > a or d > b) and mode != 'full':
                    continue
                yield [[a, b], [c, d], mode]
        for a in itertools.product((2, 3, 4), repeat=3):
            for b in itertools.product((1, 2), repeat=3):
                for mode in ('same', 'full', 'valid'):
                    yield [list(a), list(b), mode]
    return gen


def arr(shape, k):
    return pattern(int(np.prod(shape)), k).reshape(shape)


def d2_check(ctx, case):
    sa, sb, mode = case
    for k in (0, 3):
        x, y = arr(sa, k), arr(sb, 1)
        x0, y0 = x.copy(), y.copy()
        ref = direct(x, y, mode)
        for largest in (0, 9, 17):
            for args in CACHES:
                cache = None if args is None else {}
                for rep in range(2):
                    ctx.step()
                    a = cv.convolve2D(x, y, mode, largest_size=largest, cache=cache, cache_args=args or ())
                    require(close(a, ref), 'convolve2D %s,%s mode %s: %r expected %r', sa, sb, mode, a, ref)
        require(np.array_equal(x, x0) and np.array_equal(y, y0), 'arguments changed')
        fs = cv.nearestFFTnumber(np.array(sa) + np.array(sb) - 1)
        a = cv.convolveFFTn(x, y, mode, xfft=np.fft.rfftn(x, fs), yfft=np.fft.rfftn(y, fs), cache={})
        require(close(a, ref), 'convolveFFTn with given transforms %s,%s mode %s', sa, sb, mode)
    return case


# ---- auto correlations, sizes, cosine transforms
def auto_gen(maxn):
    def gen():
        for n in list(range(2, maxn + 1)) + [127, 128, 129, 1000]:
            for k in range(4):
                for m in sorted({None, 1, 2, n // 2, n - 1, n} - {0}, key=lambda a: -1 if a is None else a):
                    yield [n, k, m]
    return gen


def auto_check(ctx, case):
    n, k, m = case
    x = pattern(n, k)
    x0 = x.copy()
    size = m or n
    raw = np.array([np.sum(x[:n - j] * x[j:]) for j in range(size)])
    cnt = np.arange(n, n - size, -1)
    for norm in (True, False):
        ctx.step()
        a = cv.autoConvolve(x, m, normalize=norm)
        require(close(a, raw / cnt if norm else raw, 1e-9 * n), 'autoConvolve of %s points, n=%s normalize=%s: %r', n, m, norm, a)
    z = x - np.mean(x)
    cor = np.array([np.sum(z[:n - j] * z[j:]) for j in range(size)]) / cnt
    if cor[0] > 1e-6:
        for start in (0, 1):
            ctx.step()
            require(close(cv.autoCorrelation(x, m, start_index=start), (cor / cor[0])[start:], 1e-9 * n), 'autoCorrelation of %s points n=%s start=%s', n, m, start)
            require(close(cv.autoCorrelation(x, m, normalized=False, start_index=start), cor[start:], 1e-9 * n), 'autoCorrelation (not normalized) of %s points n=%s start=%s', n, m, start)
    require(np.array_equal(x, x0), 'argument changed')
    f = int(cv.nearestFFTnumber(n))
    require(f >= n and f % 2 == 0, 'FFT size for %s is %s', n, f)
    return [n, k, m, round(float(raw[-1]), 6)]


def size_gen():
    for b in range(0, 20000, 500):
        yield [b, b + 500]
    for e in range(14, 31):
        for f in (1, 1.25, 1.5, 1.75):
            yield [int(2 ** e * f) - 2, int(2 ** e * f) + 3]


def size_check(ctx, case):
    """transform sizes: never too small, even, the same for arrays of sizes as one by one"""
    r = np.arange(max(case[0], 1), min(case[1], 2013265920))
    a = cv.nearestFFTnumber(r)
    ctx.step(len(r))
    require(np.all(a >= r) and np.all(a % 2 == 0) and np.all(a <= np.maximum(1.5 * r, 2)), 'FFT sizes %r for %r', a, r)
    require(np.all(np.diff(a) >= 0), 'FFT size not increasing')
    require([int(cv.nearestFFTnumber(i)) for i in r[::50]] == [int(i) for i in a[::50]], 'FFT size of one number and of an array')
    return int(a[-1])


def dct_gen():
    for a, b in itertools.product(range(1, 7), repeat=2):
        yield [a, b]


def dct_check(ctx, case):
    a = arr(case, 0)
    n, m = case
    i, j = np.arange(n), np.arange(m)
    c1 = 2 * np.cos(np.pi * np.outer(i, 2 * i + 1) / (2 * n))
    c2 = 2 * np.cos(np.pi * np.outer(j, 2 * j + 1) / (2 * m))
    ctx.step(2)
    d = cv.dct2d(a)
    require(close(d, c1 @ a @ c2.T), 'dct2d of shape %s', case)
    require(close(cv.idct2d(d), a * 4 * n * m), 'idct2d of shape %s', case)
    return case


# ---- Gaussian smoothing
SIG = (0.1, 0.2, 0.5, 1.6, 2., 3.5, 6.)


def gauss_gen():
    for n in (1, 2, 3, 7, 10, 16, 31, 50, 97):
        for s in range(len(SIG)):
            for k in range(4):
                yield [n, s, k]


def gsum(x, sigma, images=0):
    """direct Gaussian sums; images: reflections from the ends (half sample)"""
    n = len(x)
    i = np.arange(n)
    tot = np.zeros(n)
    for im in range(-images, images + 1):
        src = i + 2 * n * im
        tot += np.exp(-((i[:, None] - src[None, :]) / sigma) ** 2 / 2) @ x
        if images:
            src = 2 * n * im - 1 - i
            tot += np.exp(-((i[:, None] - src[None, :]) / sigma) ** 2 / 2) @ x
    return tot / (sigma * np.sqrt(2 * np.pi))


def gauss_check(ctx, case):
    """direct sums, with one cache for each function (and each truncation mode may share its cache)"""
    n, si, k = case
    sigma = SIG[si]
    x = pattern(n, k)
    x0 = x.copy()
    ct, cg, cd = {}, {}, {}
    for caches in ((None, None, None), (ct, cg, cd), (ct, cg, cd)):
        for r in (4, 2.5):
            fill = int(r * sigma)
            pts = np.arange(-fill, fill + 1)
            w = np.exp(-(pts / sigma) ** 2 / 2.)
            w /= np.sum(w)
            full = np.convolve(x, w)
            for mode, ref in (('full', full), ('same', full[fill:fill + n]), ('valid', full[2 * fill:n])):
                if mode == 'valid' and n <= 2 * fill:
                    continue
                ctx.step()
                a = cv.convolveGaussianTrunc(x, sigma, sigma_range=r, mode=mode, cache=caches[0])
                require(close(a, ref), 'truncated Gaussian, %s points sigma %s range %s mode %s: %r expected %r', n, sigma, r, mode, a, ref)
        if sigma >= 1.6:
            ref = gsum(x, sigma)
            tol = (1e-5 if sigma < 2 else 1e-7) * n * np.max(np.abs(x))
            ctx.step(3)
            a = cv.convolveGaussian(x, sigma, cache=caches[1])
            require(close(a, ref, tol), 'Gaussian of %s points with sigma %s: %r expected %r', n, sigma, a, ref)
            a = cv.convolveGaussianDCT(x, sigma, cache=caches[2])
            require(close(a, ref, tol), 'cosine transform Gaussian of %s points with sigma %s: %r expected %r', n, sigma, a, ref)
            f = int(4 * sigma)
            if n > 2 * f:
                a = cv.convolveGaussianDCT(x, sigma, mode='valid', cache=caches[2])
                require(close(a, ref[f:n - f], tol), 'cosine transform Gaussian of %s points with sigma %s, valid: %r expected %r', n, sigma, a, ref)
            if n > 1:
                ref = gsum(x, sigma, images=int(8 * sigma / n) + 2)
                a = cv.convolveGaussianDCT(x, sigma, pad_sigma=0, cache=caches[2])
                require(close(a, ref, tol), 'reflecting Gaussian of %s points with sigma %s: %r expected %r', n, sigma, a, ref)
    require(np.array_equal(x, x0), 'argument changed')
    return [n, sigma]


# ---- histories sharing a cache
def hist_events(st):
    kind = st['kind']
    if kind == 'fft':
        return [[a, b, mode, args, big] for a, b in ((0, 1), (1, 0), (0, 0), (2, 1), (2, 3), (3, 2)) for mode in ('same', 'full') for args in ([1, 2], [1], [2]) for big in (0, 40)]
    if kind == 'fftn':
        return [[a, b, mode, args, big] for a, b in ((0, 1), (0, 2), (3, 1), (1, 1), (4, 6), (5, 6)) for mode in ('same', 'valid') for args in ([1, 2], [1], [2]) for big in (0, 20)]
    return [[n, s] for n in (5, 12, 13) for s in (2., 2.1, 3.)]


H1 = [pattern(9, 0), pattern(5, 1), pattern(9, 2), pattern(5, 3)]
H2 = [arr((6, 5), 0), arr((3, 4), 1), arr((3, 4), 2), arr((5, 6), 3), arr((9, 6), 1), arr((6, 9), 0), arr((3, 3), 3)]


def hist_build(ctx, kind, hist):
    cache = {}
    for ev in hist:
        ctx.step()
        if kind in ('fft', 'fftn'):
            a, b, mode, args, big = ev
            H = H1 if kind == 'fft' else H2
            x, y = H[a], H[b]
            if mode != 'full' and any(p > q for p, q in zip(y.shape, x.shape)):
                continue
            f = cv.convolveFFT if kind == 'fft' else cv.convolve2D
            r = f(x, y, mode, largest_size=big, cache=cache, cache_args=args)
            require(close(r, direct(x, y, mode)), 'after %r: %s wrong result %r', hist[:-1], ev, r)
        else:
            n, s = ev
            x = pattern(n, 1)
            if kind == 'trunc':
                r, w = cv.convolveGaussianTrunc(x, s, cache=cache), cv.convolveGaussianTrunc(x, s)
            elif kind == 'gauss':
                r, w = cv.convolveGaussian(x, s, cache=cache), cv.convolveGaussian(x, s)
            else:
                r, w = cv.convolveGaussianDCT(x, s, cache=cache), cv.convolveGaussianDCT(x, s)
            require(close(r, w), 'after %r: %s wrong result', hist[:-1], ev)
    return dict(kind=kind, keys=sorted(repr([i for i in k if not isinstance(i, int) or i < 10 ** 6]) + str([j for j, h in enumerate(H1 + H2) if id(h) in k]) for k in cache))


def scenarios(tier):
    deep = tier == 'thorough'
    return [
        Enum('size1d', d1_gen(32 if deep else 20), d1_check),
        Enum('size2d', d2_gen(6 if deep else 5), d2_check),
        Enum('auto', auto_gen(150 if deep else 40), auto_check),
        Enum('fftsize', size_gen, size_check),
        Enum('dct', dct_gen, dct_check),
        Enum('gauss', gauss_gen, gauss_check),
        Bfs('cache', lambda: ['fft', 'fftn', 'trunc', 'gauss', 'dct'], hist_build, hist_events, lambda st: st, 4 if deep else 3),
    ]
