"""Thinning of integer-weighted samples."""
import itertools
import logging
import os

import numpy as np
from mc.core import Enum, require
from mc.props.c06 import thin_ref
from getdist import MCSamples, chains
from getdist.chains import WeightedSamples, WeightedSampleError, Chains

logging.disable(logging.CRITICAL)
chains.print_load_details = False
np.seterr(all='ignore')

PROPERTY = 'C10'
LEVEL = 'model_checking'
RULE = ('thin: every weight vector of up to 5 rows (thorough 6) with weights 0..4 and every factor 1..9, through every thinning entry point, against the definition '
        '(row containing each factor-th unit of cumulative weight, plus the first weighted row when the factor is at least the largest weight); '
        'reject: non-integer weights or factors; single: unit-weight selection for every weight vector and 8 seeds; draws: every assignment of a grid of random draws to the rows, the number of selections of each row compared with its weight; write: thinned and cooled output files')
ASSUMPTIONS = ['at least one positive weight']


def gen(maxn):
    for n in range(1, maxn + 1):
        for w in itertools.product(range(5), repeat=n):
            if any(w):
                yield list(w)


def check(ctx, ws):
    n = len(ws)
    x = np.array([[10 * i + 1.5, i % 2] for i in range(n)])
    like = np.array([3.5 + (i * 5) % 7 for i in range(n)])
    w = np.array(ws, dtype=float)
    out = []
    for f in range(1, 10):
        exp = thin_ref(ws, f)
        s = WeightedSamples(samples=x.copy(), weights=w.copy(), loglikes=like.copy(), min_weight_ratio=-1)
        got = list(s.thin_indices(f))
        require(got == exp, 'weights %s factor %s select rows %s, expected %s', ws, f, got, exp)
        require(all(ws[i] > 0 for i in got), 'a row of zero weight was selected: weights %s factor %s rows %s', ws, f, got)
        for other in (list(s.thin_indices(f, np.array(ws))), list(WeightedSamples.thin_indices_single_samples(f, w)), list(s.thin_indices(float(f), w))):
            require(other == exp, 'entry points differ: %s %s', other, exp)
        if f < max(ws):
            require(len(got) == sum(ws) // f and all(ws[i] // f <= got.count(i) <= ws[i] // f + 1 for i in range(n)), 'selection is not in proportion')
        else:
            require(len(set(got)) == len(got), 'rows repeated for factor %s of weights %s', f, ws)
        u, c = WeightedSamples.thin_indices_and_weights(f, w)
        require(list(u) == sorted(set(exp)) and list(c) == [exp.count(i) for i in sorted(set(exp))], 'indices and weights %s %s', u, c)
        require(np.array_equal(s.weights, w) and np.array_equal(s.samples, x), 'computing thin indices changed the samples')
        s.thin(f)
        require(np.array_equal(s.samples, x[exp]) and np.array_equal(s.loglikes, like[exp]) and list(s.weights) == [1] * len(exp) and s.norm == len(exp) and s.numrows == len(exp),
                'thinned rows %s weights %s', s.samples, s.weights)
        t = Chains(samples=x.copy(), weights=w.copy(), names=['a', 'b'], min_weight_ratio=-1)
        t.weighted_thin(f)
        require(np.array_equal(t.samples, x[sorted(set(exp))]) and list(t.weights) == [exp.count(i) for i in sorted(set(exp))] and t.loglikes is None,
                'weighted thinning gives %s %s', t.samples, t.weights)
        require(t.get_norm() == len(exp), 'norm after weighted thinning')
        t = WeightedSamples(samples=x.copy(), weights=w.copy(), loglikes=like.copy(), min_weight_ratio=-1)
        t.weighted_thin(f)
        require(np.array_equal(t.loglikes, like[sorted(set(exp))]) and np.array_equal(t.samples, x[sorted(set(exp))]), 'weighted thinning gives likelihoods %s', t.loglikes)
        ctx.step()
        out.append(tuple(exp))
    return hash(tuple(out))


def rej_gen():
    for ws in ([0.5, 1, 2], [1.25, 2, 3], [1, 2, 2.001], [0.9, 0.1, 1]):
        yield [ws, 2]
    yield [[1, 2, 3], 1.5]
    yield [[1, 2, 3], 2.25]


def rej_check(ctx, case):
    ws, f = case
    ok = sum(ws) == sum(int(x) for x in ws)
    s = WeightedSamples(samples=np.arange(3.).reshape(-1, 1), weights=np.array(ws, dtype=float))
    for fun in (s.thin_indices, s.thin, s.weighted_thin):
        try:
            fun(f)
        except WeightedSampleError:
            require(list(s.weights) == ws, 'weights changed by a refused thinning')
            continue
        require(False, 'thinning weights %s by %s is not refused', ws, f)
    return repr(case)


def single_check(ctx, ws):
    n = len(ws)
    w = np.array(ws, dtype=float)
    s = WeightedSamples(samples=np.arange(float(n)).reshape(-1, 1), weights=w, min_weight_ratio=-1)
    for seed in range(8):
        for kw in (dict(), dict(thin=2), dict(max_samples=2)):
            got = list(s.random_single_samples_indices(random_state=seed, **kw))
            require(got == list(s.random_single_samples_indices(random_state=seed, **kw)), 'a fixed seed gives different selections')
            require(got == sorted(set(got)) and all(ws[i] > 0 for i in got), 'selection %s of weights %s', got, ws)
            if not kw:
                require(all(i in got for i in range(n) if ws[i] == max(ws)), 'a row of largest weight was not selected: %s of %s', got, ws)
        # monotonic in weight: the random numbers are the same, so a larger weight can only add rows
    ctx.step()
    return None


class Draws(np.random.Generator):
    """a generator whose uniform draws are given"""

    def __new__(cls, vals):
        return np.random.Generator.__new__(cls, np.random.PCG64(1))

    def __init__(self, vals):
        np.random.Generator.__init__(self, np.random.PCG64(1))
        self.vals, self.used = list(vals), 0

    def random(self, size=None, *args, **kwargs):
        self.used += 1
        if size is None:
            return self.vals.pop(0)
        k = int(np.prod(size))
        r, self.vals = self.vals[:k], self.vals[k:]
        return np.array(r).reshape(size)


GRID = 6


def draws_gen(th):
    for n in (1, 2, 3) + ((4,) if th else ()):
        for w in itertools.product([0, 1, 2, 3], repeat=n):
            if any(w):
                for thin in (None, 1, 2, 3):
                    yield [list(w), thin]


def draws_check(ctx, case):
    """over all draws (each row's on a grid), every row is selected with probability proportional to its weight, by all entry points"""
    ws, thin = case
    n = len(ws)
    x = np.array([[i + 0.5, (i * 3) % 4 + 0.25] for i in range(n)])
    w = np.array(ws, dtype=float)
    like = np.array([3.5 + ((i * 5) % 3) for i in range(n)])
    s = MCSamples(samples=x, weights=w, loglikes=like, names=['a', 'b'], settings={'ignore_rows': 0, 'min_weight_ratio': -1}) if n > 2 and np.all(np.ptp(x, axis=0) > 0) else None
    t = WeightedSamples(samples=x.copy(), weights=w, loglikes=like, min_weight_ratio=-1)
    fn = os.path.join(ctx.scratch, 'single.txt')
    calls = [lambda r: list(t.random_single_samples_indices(random_state=r, thin=thin))]

    def from_file(r):
        s.makeSingleSamples(fn, single_thin=thin, random_state=r)
        with open(fn) as f:
            rows = [[float(v) for v in l.split()] for l in f]
        ix = [int(q[2]) for q in rows]
        require(all(q[0] == 1 and q[1] == like[i] and q[2:] == list(x[i]) for q, i in zip(rows, ix)), 'rows written %s', rows)
        return ix
    if s is not None:
        calls += [lambda r: [int(q[0]) for q in s.makeSingleSamples(single_thin=thin, random_state=r)], from_file]
    for c, call in enumerate(calls):
        count = [0] * n
        for u in itertools.product([(k + 0.5) / GRID for k in range(GRID)], repeat=n):
            r = Draws(u)
            got = call(r)
            if not r.used:  # draws made otherwise are not controlled
                return 'other'
            require(got == sorted(set(got)), 'selection %s', got)
            for i in got:
                count[i] += 1
        exp = [GRID ** n * ws[i] / (max(ws) * (thin or 1)) for i in range(n)]
        tol = GRID ** (n - 1) * 0.51 if thin == 3 and max(ws) == 3 or max(ws) * (thin or 1) not in (1, 2, 3, 6) else 1e-9
        require(all(abs(a - b) <= tol for a, b in zip(count, exp)), 'entry point %s, weights %s, thin %s: of %s draws the rows are selected %s times, expected %s', c, ws, thin, GRID ** n, count, exp)
        ctx.step()
    if s is not None and thin is None:
        # no more than about max_scatter_points are wanted
        s.max_scatter_points = 1
        count = [0] * n
        for u in itertools.product([(k + 0.5) / GRID for k in range(GRID)], repeat=n):
            for q in s.makeSingleSamples(random_state=Draws(u)):
                count[int(q[0])] += 1
        require(all(abs(count[i] - GRID ** n * ws[i] / sum(ws)) <= GRID ** (n - 1) * 0.51 for i in range(n)), 'with max_scatter_points = 1 and weights %s rows are selected %s times of %s', ws, count, GRID ** n)
    return tuple(count)


def write_gen():
    for ws in itertools.product([1, 2, 5], repeat=4):
        for f in (1, 2, 3):
            for cool in (1, 2, 0.5):
                yield [list(ws), f, cool]


def write_check(ctx, case):
    ws, f, cool = case
    n = len(ws)
    x = np.array([[10 * i + 1.5, (i * 3) % 4 + 0.25] for i in range(n)])
    like = np.array([3.5 + ((i * 5) % 3) for i in range(n)])
    s = MCSamples(samples=x, weights=np.array(ws, dtype=float), loglikes=like, names=['a', 'b'], settings={'ignore_rows': 0})
    ix = s.thin_indices(f)
    fn = os.path.join(ctx.scratch, 'thin.txt')
    s.writeThinData(fn, ix, cool)
    rows = np.atleast_2d(np.loadtxt(fn))
    exp = thin_ref(ws, f)
    require(rows.shape == (len(exp), 4), 'thinned file has shape %s, expected %s rows', rows.shape, len(exp))
    require(np.allclose(rows[:, 2:], x[exp], rtol=1e-6), 'thinned file has rows %s, expected %s', rows[:, 2:], x[exp])
    require(np.allclose(rows[:, 1], like[exp] * cool, rtol=1e-6), 'likelihoods %s', rows[:, 1])
    wexp = np.exp(-(cool - 1) * like[exp])
    require(np.allclose(rows[:, 0] / rows[0, 0], wexp / wexp[0], rtol=1e-5), 'weights %s', rows[:, 0])
    big = np.array([3.5 + 900. * ((i * 5) % 3) for i in range(n)])
    s = MCSamples(samples=x, weights=np.array(ws, dtype=float), loglikes=big, names=['a', 'b'], settings={'ignore_rows': 0})
    s.writeThinData(fn, ix, cool)
    rows = np.atleast_2d(np.loadtxt(fn))
    require(np.all(np.isfinite(rows[:, 0])), 'weights %s', rows[:, 0])
    ctx.step()
    return tuple(exp), cool


def scenarios(tier):
    th = tier == 'thorough'
    return [Enum('thin', lambda: gen(6 if th else 5), check), Enum('reject', rej_gen, rej_check), Enum('single', lambda: gen(4), single_check), Enum('draws', lambda: draws_gen(th), draws_check), Enum('write', write_gen, write_check)]
