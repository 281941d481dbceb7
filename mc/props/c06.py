"""Sample statistics describe exactly the rows that remain, whatever was done and asked before."""
import copy
import logging

import numpy as np
from mc.core import Bfs, Enum, Violation, require
from getdist import MCSamples, chains
from getdist.chains import WeightedSamples, Chains

logging.disable(logging.CRITICAL)
chains.print_load_details = False
np.seterr(all='ignore')

PROPERTY = 'C06'
LEVEL = 'model_checking'
RULE = ('ops: BFS over all histories (quick: depth 3, thorough: 4) of operations on WeightedSamples, Chains and MCSamples (filter by mask/index/slice, burn removal by '
        'fraction and rows, minimum weight ratio, zero deletion, reweighting, cooling, thinning, weighted thinning, changed and replaced samples, derived parameters, fixed parameter '
        'deletion), with all statistics requested or not requested after each operation; after the last operation every statistic is asked first of its own '
        'deep copy and compared with the value computed from the reference rows; stats: MCSamples marginalized/likelihood statistics, covariance matrix, tables and '
        'densities after histories vs a fresh object built from the surviving rows; extreme: the same histories with likelihoods that would overflow and rows of negligible weight; '
        'inputs: every form of input array, and every pattern of (almost) constant columns for the deletion of fixed parameters')
ASSUMPTIONS = ['sample values are finite', 'relative tolerance 1e-9', 'at least three rows remain after each operation']

NAMES = ['a', 'b', 'c', 'd']
A = [0.25, 1.5, -0.75, 2.25, 1.0, 3.5, -1.25]
B = [2.0, 2.0, 5.5, -1.0, 3.25, 2.5, 0.5]
C = [1.5] * 7
D = [9.0, 9.5, 4.0, 4.0, 4.0, 4.0, 4.0]
L = [3.0, 1.25, 2.5, 1.75, 4.25, 1.5, 2.0]
SETS = {
    'int': ([1, 3, 2, 1, 4, 2, 1], L),
    'float': ([0.5, 0.125, 2.0, 1.25, 0.75, 0.375, 1.0], L),
    'zero': ([1, 0, 2, 3, 0, 1, 2], L),
    'nolike': ([2, 1, 1, 3, 1, 2, 5], None),
    'unit': (None, L),
}


class Ref:
    """the reference: a list of rows, nothing else"""

    def __init__(self, w, like, cols, names):
        n = len(cols[0])
        self.w = np.ones(n) if w is None else np.array(w, dtype=float)
        self.l = None if like is None else np.array(like, dtype=float)
        self.x = np.array(cols, dtype=float).T
        self.names = list(names)

    def take(self, ix):
        self.w, self.x = self.w[ix], self.x[ix]
        if self.l is not None:
            self.l = self.l[ix]

    def n(self):
        return len(self.w)

    def minratio(self, r):
        m = max(self.w)
        if min(self.w) < m * r:
            self.take([i for i in range(self.n()) if self.w[i] > m * r])

    def fixed(self):
        return [j for j in range(self.x.shape[1]) if len(set(self.x[:, j])) == 1]


def thin_ref(w, f):
    """row containing each f-th unit of weight; when no weight exceeds f, the first row starts the first block"""
    rows = [i for i, m in enumerate(w) for _ in range(int(m))]
    sel = rows[f - 1::f]
    if f >= max(w) and rows and sel[:1] != [rows[0]]:
        sel = [rows[0]] + sel
    return sel


class State:
    pass


def build_initial(kind, which, extreme=False):
    s = State()
    s.extreme = extreme
    w, l = SETS[which]
    mwr = -1 if which == 'zero' else 1e-30
    cols = [A, B, C, D]
    s.kind, s.ref = kind, Ref(w, l, cols, NAMES)
    arr = np.array(cols).T.copy()
    wa = None if w is None else np.array(w, dtype=float)
    la = None if l is None else np.array(l, dtype=float)
    s.inputs = [arr, wa, la]
    s.input_copies = [None if a is None else a.copy() for a in s.inputs]
    kw = dict(samples=arr, weights=wa, loglikes=la)
    if kind == 'W':
        s.obj = WeightedSamples(min_weight_ratio=mwr, **kw)
    elif kind == 'C':
        s.obj = Chains(names=NAMES, min_weight_ratio=mwr, **kw)
    else:
        s.obj = MCSamples(names=NAMES, settings={'ignore_rows': 0}, min_weight_ratio=mwr, **kw)
        for j in reversed(s.ref.fixed()):
            s.ref.x = np.delete(s.ref.x, j, 1)
            del s.ref.names[j]
    s.mwr = mwr
    s.alias = WeightedSamples(min_weight_ratio=-1, samples=s.obj.samples, weights=s.obj.weights, loglikes=s.obj.loglikes)
    s.alias_copy = [s.alias.samples.copy(), s.alias.weights.copy(), None if s.alias.loglikes is None else s.alias.loglikes.copy()]
    s.nder = 0
    s.primed = False
    return s


def events(s):
    r, n = s.ref, s.ref.n()
    ev = []
    if n >= 4:
        ev += [['mask'], ['index'], ['slice'], ['burn', 0.25], ['burn', 1]]
    if sum(r.x[:, 0] < max(r.x[:, 0])) >= 3:
        ev += [['where']]
    if n - int(round(n * 0.5)) >= 3:
        ev += [['burn', 0.5]]
    for ratio in (0.3,):
        if sum(r.w > max(r.w) * ratio) >= 3:
            ev.append(['minratio', ratio])
    if sum(r.w > 0) >= 3:
        ev.append(['delzero'])
    ev += [['reweight']]
    if r.l is not None:
        ev += [['cool', 0.5], ['cool', 2]]
    if all(r.w == np.round(r.w)) and max(r.w) >= 1:
        if len(thin_ref(r.w, 2)) >= 3:
            ev += [['thin', 2]]
        if len(set(thin_ref(r.w, 2))) >= 3:
            ev += [['wthin', 2]]
    if s.extreme:
        ev = [e for e in ev if e[0] in ('mask', 'slice', 'burn', 'delzero', 'minratio', 'cool')] + [['big']] + ([['row'], ['row2']] if n >= 5 else [])
    ev += [['change'], ['setsamples'], ['delfixed']]
    if s.extreme:
        left = lambda k: sum(r.w[k:] > max(r.w[k:]) * 1e-30)
        ev = [e for e in ev if e[0] not in ('change', 'delfixed', 'burn') or left((e[1] if e[1] >= 1 else int(round(n * e[1]))) if e[0] == 'burn' else 0) >= 3]
    if s.kind != 'W' and s.nder < 2:
        ev.append(['derived'])
    if s.kind == 'M':
        ev += [['copy'], ['settings']]
    return [e + [p] for e in ev for p in (0, 1)]


def apply(s, ev):
    r, o, op = s.ref, s.obj, ev[0]
    n = r.n()
    proportional = False
    if op == 'mask':
        m = np.array([i % 3 != 1 for i in range(n)])
        o.filter(m)
        r.take([i for i in range(n) if m[i]])
    elif op == 'where':
        m = o.samples[:, 0] < np.max(o.samples[:, 0])
        o.filter(m)
        r.take([i for i in range(n) if r.x[i, 0] < max(r.x[:, 0])])
    elif op == 'index':
        ix = [0, 2, n - 1] if n > 3 else [0, 2]
        o.filter(ix)
        r.take(ix)
    elif op == 'slice':
        o.filter(slice(1, None))
        r.take(list(range(1, n)))
    elif op == 'burn':
        o.removeBurn(ev[1])
        k = ev[1] if ev[1] >= 1 else int(round(n * ev[1]))
        r.take(list(range(k, n)))
        if s.mwr >= 0:
            r.minratio(s.mwr)
    elif op == 'minratio':
        o.setMinWeightRatio(ev[1])
        r.minratio(ev[1])
    elif op == 'delzero':
        o.deleteZeros()
        r.take([i for i in range(n) if r.w[i] > 0])
    elif op == 'reweight':
        add = np.array([0.5 * ((i * 5) % 3) + 0.25 * i for i in range(n)])
        keep = add.copy()
        o.reweightAddingLogLikes(add)
        require(np.array_equal(add, keep), 'the array passed to reweightAddingLogLikes was changed')
        r.w = r.w * np.exp(-add)
        if r.l is not None:
            r.l = r.l + add
        proportional = True
    elif op in ('big', 'row', 'row2'):
        add = np.array([2000 + 0.25 * ((i * 5) % 3) if op == 'big' else (300. if op == 'row' else 800.) * (i == 1) for i in range(n)])
        o.reweightAddingLogLikes(add)
        r.w = r.w * np.exp(-(add - min(add)))
        if r.l is not None:
            r.l = r.l + add
        proportional = True
    elif op == 'cool':
        o.cool(ev[1])
        r.w = r.w * np.exp(-(ev[1] - 1) * (r.l - min(r.l)))
        r.l = r.l * ev[1]
        proportional = True
    elif op == 'thin':
        o.thin(ev[1])
        r.take(thin_ref(r.w, ev[1]))
        r.w = np.ones(r.n())
    elif op == 'wthin':
        o.weighted_thin(ev[1])
        sel = thin_ref(r.w, ev[1])
        u = sorted(set(sel))
        r.take(u)
        r.w = np.array([sel.count(i) for i in u], dtype=float)
    elif op == 'change':
        o.changeSamples(o.samples * 2 + 0.5)
        r.x = r.x * 2 + 0.5
        if s.mwr >= 0:
            r.minratio(s.mwr)
    elif op == 'setsamples':
        k = r.x.shape[1]
        x = np.array([[(i * 3 + j * 5) % 7 + 0.5 * j for j in range(k)] for i in range(5)], dtype=float)
        w = np.array([1., 2, 2, 1, 3])
        l = None if r.l is None else np.array([4., 2, 3, 1.5, 2.25])
        o.setSamples(x, w, l)
        r.x, r.w, r.l = x.copy(), w.copy(), None if l is None else l.copy()
    elif op == 'delfixed':
        f = r.fixed()
        o.deleteFixedParams()
        r.x = np.delete(r.x, f, 1)
        r.names = [x for j, x in enumerate(r.names) if j not in f]
        if s.mwr >= 0:
            r.minratio(s.mwr)
    elif op == 'derived':
        s.nder += 1
        v = r.x[:, 0] ** 2 - 0.5 * s.nder
        o.addDerived(v.copy(), name='der%d' % s.nder, label='D')
        r.x = np.c_[r.x, v]
        r.names.append('der%d' % s.nder)
        if s.mwr >= 0:
            r.minratio(s.mwr)
    elif op == 'copy':
        old = o
        s.obj = o.copy(label='new')
        old.filter(np.arange(old.numrows) > 0)
        old.reweightAddingLogLikes(old.samples[:, 0])
        old.samples *= 0
    elif op == 'settings':
        o.updateSettings({'contours': '0.6 0.9', 'num_bins': 30})
    else:
        raise AssertionError(op)
    if proportional:
        w = np.asarray(s.obj.weights, dtype=float)
        require(w.shape == r.w.shape, 'rows lost in %s: %s rows instead of %s', op, len(w), len(r.w))
        scale = np.sum(w) / np.sum(r.w)
        require(np.isfinite(scale) and scale > 0 and np.allclose(w, r.w * scale, rtol=1e-9, atol=0),
                'weights after %s %s are not proportional to %s', op, w, r.w)
        r.w = w.copy()


# ---- queries: name -> (function of the real object, function of the reference)
def wmean(r, x, sel=None):
    w = r.w if sel is None else r.w[sel]
    x = x if sel is None else x[sel]
    return sum(w * x) / sum(w)


def wcov(r, cols, sel=None):
    w = r.w if sel is None else r.w[sel]
    cs = [c if sel is None else c[sel] for c in cols]
    ms = [sum(w * c) / sum(w) for c in cs]
    return np.array([[sum(w * (c - m) * (c2 - m2)) / sum(w) for c2, m2 in zip(cs, ms)] for c, m in zip(cs, ms)])


def corr(c):
    c = c.copy()
    sd = np.sqrt(np.diag(c))
    sd[sd == 0] = 1
    return c / np.outer(sd, sd)


def cols(r):
    return [r.x[:, j] for j in range(r.x.shape[1])]


def sel(r):
    return r.x[:, 0] >= np.sort(r.x[:, 0])[1]


def confid(r, x, p, upper):
    ix = np.argsort(x, kind='stable')
    cum = np.cumsum(r.w[ix])
    t = cum[-1] * (1 - p if upper else p)
    for i, c in zip(ix, cum):
        if c >= t * (1 - 1e-12):
            return x[i]
    return x[ix[-1]]


def autoc(r, x, maxoff):
    d = (x - wmean(r, x)) * r.w
    n = len(d)
    return np.array([sum(d[:n - k] * d[k:]) / (n - k) for k in range(maxoff + 1)]) / wcov(r, [x])[0, 0]


def q_mean_like(o):
    o.getMeans()
    return o.mean_loglike


def q_diff_stored(o):
    o.setDiffs()
    return np.array([o.mean_diff(i) for i in range(o.n)])


QW = [
    ('rows', lambda o: np.c_[o.weights, o.samples], lambda r: np.c_[r.w, r.x]),
    ('numrows', lambda o: [o.numrows, o.n, o.samples.shape[0], o.samples.shape[1]], lambda r: [r.x.shape[0], r.x.shape[1]] * 2),
    ('loglikes', lambda o: o.loglikes, lambda r: r.l),
    ('norm', lambda o: [o.get_norm(), o.norm], lambda r: [sum(r.w)] * 2),
    ('norm_where', lambda o: o.get_norm(o.samples[:, 0] >= np.sort(o.samples[:, 0])[1]), lambda r: sum(r.w[sel(r)])),
    ('getMeans', lambda o: o.getMeans(), lambda r: [wmean(r, c) for c in cols(r)]),
    ('getMeans_pars', lambda o: o.getMeans([1, 0]), lambda r: [wmean(r, cols(r)[1]), wmean(r, cols(r)[0])]),
    ('mean_loglike', q_mean_like, lambda r: None if r.l is None else wmean(r, r.l)),
    ('getVars', lambda o: o.getVars(), lambda r: np.diag(wcov(r, cols(r)))),
    ('sddev', lambda o: (o.getVars(), o.sddev)[1], lambda r: np.sqrt(np.diag(wcov(r, cols(r))))),
    ('getCov', lambda o: o.getCov(), lambda r: wcov(r, cols(r))),
    ('getCov1', lambda o: o.getCov(1), lambda r: wcov(r, cols(r)[:1])),
    ('getCov_pars', lambda o: o.getCov(pars=[1, 0]), lambda r: wcov(r, [cols(r)[1], cols(r)[0]])),
    ('corrmat', lambda o: o.getCorrelationMatrix(), lambda r: corr(wcov(r, cols(r)))),
    ('mean', lambda o: [o.mean(i) for i in range(o.n)], lambda r: [wmean(r, c) for c in cols(r)]),
    ('mean_list', lambda o: o.mean(list(range(o.n))), lambda r: [wmean(r, c) for c in cols(r)]),
    ('mean_vec', lambda o: o.mean(o.samples[:, 0] * 2), lambda r: wmean(r, r.x[:, 0] * 2)),
    ('mean_where', lambda o: o.mean([0, 1], o.samples[:, 0] >= np.sort(o.samples[:, 0])[1]), lambda r: [wmean(r, r.x[:, 0], sel(r)), wmean(r, r.x[:, 1], sel(r))]),
    ('var', lambda o: [o.var(i) for i in range(o.n)], lambda r: np.diag(wcov(r, cols(r)))),
    ('var_where', lambda o: o.var([0, 1], o.samples[:, 0] >= np.sort(o.samples[:, 0])[1]), lambda r: np.diag(wcov(r, cols(r)[:2], sel(r)))),
    ('std', lambda o: o.std(list(range(o.n))), lambda r: np.sqrt(np.diag(wcov(r, cols(r))))),
    ('std_where', lambda o: o.std(0, o.samples[:, 0] >= np.sort(o.samples[:, 0])[1]), lambda r: np.sqrt(wcov(r, cols(r)[:1], sel(r))[0, 0])),
    ('cov', lambda o: o.cov(), lambda r: wcov(r, cols(r))),
    ('cov_pars', lambda o: o.cov([1, 0, 1]), lambda r: wcov(r, [r.x[:, 1], r.x[:, 0], r.x[:, 1]])),
    ('cov_where', lambda o: o.cov(where=o.samples[:, 0] >= np.sort(o.samples[:, 0])[1]), lambda r: wcov(r, cols(r), sel(r))),
    ('corr', lambda o: o.corr([0, 1]), lambda r: corr(wcov(r, cols(r)[:2]))),
    ('mean_diff', lambda o: [o.mean_diff(0), o.mean_diff(1)], lambda r: [r.x[:, 0] - wmean(r, r.x[:, 0]), r.x[:, 1] - wmean(r, r.x[:, 1])]),
    ('mean_diff_where', lambda o: o.mean_diff(0, o.samples[:, 0] >= np.sort(o.samples[:, 0])[1]), lambda r: r.x[sel(r), 0] - wmean(r, r.x[:, 0], sel(r))),
    ('mean_diffs', lambda o: np.array(o.mean_diffs()), lambda r: np.array([c - wmean(r, c) for c in cols(r)])),
    ('stored_diffs', q_diff_stored, lambda r: np.array([c - wmean(r, c) for c in cols(r)])),
    ('wsum', lambda o: [o.weighted_sum(0), o.weighted_sum(0, o.samples[:, 0] >= np.sort(o.samples[:, 0])[1])], lambda r: [sum(r.w * r.x[:, 0]), sum((r.w * r.x[:, 0])[sel(r)])]),
    ('confidence', lambda o: [o.confidence(0, 0.31), o.confidence(0, 0.31, upper=True)], lambda r: [confid(r, r.x[:, 0], 0.31, False), confid(r, r.x[:, 0], 0.31, True)]),
    ('autocorr', lambda o: o.getAutocorrelation(0, 2, weight_units=False), lambda r: autoc(r, r.x[:, 0], 2)),
    ('autocorr_w', lambda o: o.getAutocorrelation(0, 2), lambda r: autoc(r, r.x[:, 0], 2) * r.n() / sum(r.w)),
    ('items', lambda o: [o[0], o[-2]], lambda r: [r.x[:, 0], r.w]),
]
QC = [
    ('named', lambda o: [o.mean(x) for x in o.paramNames.list()], lambda r: [wmean(r, c) for c in cols(r)]),
    ('names', lambda o: list(o.paramNames.list()), lambda r: r.names),
    ('vecs', lambda o: np.array([o[x] for x in o.paramNames.list()]), lambda r: r.x.T),
    ('getParams', lambda o: np.array([getattr(o.getParams(), x) for x in o.paramNames.list()]), lambda r: r.x.T),
    ('weightvec', lambda o: o['weight'], lambda r: r.w),
    ('rowdict', lambda o: None if o.loglikes is None else [o.getParamSampleDict(1)[x] for x in ['weight', 'loglike'] + o.paramNames.list()],
     lambda r: None if r.l is None else [r.w[1], r.l[1]] + list(r.x[1])),
    ('named_cov', lambda o: o.cov([o.paramNames.list()[-1], 'a']), lambda r: wcov(r, [r.x[:, -1], r.x[:, 0]])),
]


def likestats(o):
    ls = o.getLikeStats()
    if ls is None:
        return None
    return np.array([ls.logLike_sample, ls.meanLogLike, ls.logMeanInvLike, ls.logMeanLike, ls.complexity] + [p.bestfit_sample for p in ls.names])


def likestats_ref(r):
    if r.l is None:
        return None
    i = int(np.argmin(r.l))
    return np.array([r.l[i], wmean(r, r.l), np.log(wmean(r, np.exp(r.l))), -np.log(wmean(r, np.exp(-r.l))), 2 * (wmean(r, r.l) - r.l[i])] + list(r.x[i]))


def ndlims(o):
    ls = o.getLikeStats()
    if ls is None:
        return None
    return np.array([[p.ND_limit_bot[0], p.ND_limit_bot[1], p.ND_limit_top[0], p.ND_limit_top[1]] for p in ls.names])


def covmat(o):
    c = o.getCovMat()
    n = o.paramNames.numNonDerived()
    require(list(c.paramNames) == o.paramNames.list()[:n], 'covariance matrix names %s', c.paramNames)
    return c.matrix


def nnd(r):
    return len([x for x in r.names if not x.startswith('der')])


def pairs_ref(r):
    n = nnd(r)
    c = corr(wcov(r, cols(r)[:n]))
    vals = sorted([abs(c[i, j]) for i in range(n) for j in range(i + 1, n)], reverse=True)
    if any(abs(a - b) < 1e-6 for a, b in zip(vals, vals[1:])):
        return None  # equal correlations: no unique order
    return [round(v, 7) for v in vals[:2]]


def pairs(o):
    r = Ref(o.weights, None, o.samples.T, o.paramNames.list())
    c = corr(wcov(r, cols(r)))
    got = o.getCorrelatedVariable2DPlots(num_plots=2)
    ix = [(o.paramNames.list().index(a), o.paramNames.list().index(b)) for a, b in got]
    return None if pairs_ref(r) is None else [round(abs(c[i, j]), 7) for i, j in ix]


QM = [
    ('likestats', likestats, likestats_ref),
    ('bestdict', lambda o: None if o.loglikes is None else [o.getParamBestFitDict(best_sample=True)[x] for x in ['loglike'] + o.paramNames.list()],
     lambda r: None if r.l is None else [min(r.l)] + list(r.x[int(np.argmin(r.l))])),
    ('covmat', covmat, lambda r: wcov(r, cols(r)[:nnd(r)])),
    ('pairs', pairs, pairs_ref),
    ('latex_mean', lambda o: [o.mean('a'), o.std('a')], lambda r: [wmean(r, r.x[:, 0]), np.sqrt(wcov(r, cols(r)[:1])[0, 0])]),
    ('mult', lambda o: (o.mean(0), o.mean_mult, o.max_mult)[1:] if not o.needs_update else (o.updateBaseStatistics(), o.mean_mult, o.max_mult)[1:],
     lambda r: [sum(r.w) / r.n(), max(r.w)]),
]


def same(got, want):
    if got is None or want is None:
        return got is None and want is None
    if isinstance(want, list) and want and isinstance(want[0], str):
        return list(got) == want
    g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if not np.all(np.isfinite(w)):
        return True  # undefined for these rows (e.g. no weight in the selection)
    return g.shape == w.shape and np.allclose(g, w, rtol=1e-9, atol=1e-11 * max(1, np.max(np.abs(w), initial=0)))


def queries(kind):
    return QW + (QC if kind != 'W' else []) + (QM if kind == 'M' else [])


def check(s, full):
    r = s.ref
    if full:
        for name, real, ref in queries(s.kind):
            o = copy.deepcopy(s.obj)
            got, want = real(o), ref(r)
            require(same(got, want), '%s is %s, but the rows that remain give %s (rows: %s)', name, got, want,
                    np.c_[r.w, r.x].tolist())
            # and asking again gives the same
            require(same(real(o), want), '%s asked again differs', name)
        for a, c, nm in zip(s.inputs, s.input_copies, ['samples', 'weights', 'loglikes']):
            require(a is None or np.array_equal(a, c), 'the %s array given by the caller was changed', nm)
        al = [s.alias.samples, s.alias.weights, s.alias.loglikes]
        for a, c in zip(al, s.alias_copy):
            require(a is None or np.array_equal(a, c), 'another set of samples sharing the arrays was changed')
    else:
        for name, real, ref in queries(s.kind):
            real(s.obj)


def build(ctx, config, hist):
    s = build_initial(*config)
    for i, ev in enumerate(hist):
        if ev[0] == 'copy':
            s.alias.samples = None
            s.alias_copy = [None, s.alias.weights.copy(), s.alias.loglikes if s.alias.loglikes is None else s.alias.loglikes.copy()]
        apply(s, ev[:-1])
        ctx.step()
        s.primed = bool(ev[-1])
        if i == len(hist) - 1:
            check(s, True)
        if s.primed:
            check(s, False)
    if not hist:
        check(s, True)
    return s


def canon(s):
    r = s.ref
    return (np.round(r.w / np.sum(r.w), 10).tobytes(), None if r.l is None else np.round(r.l, 10).tobytes(), np.round(r.x, 10).tobytes(),
            tuple(r.names), s.primed, s.nder)


# ---------------------------------------------------------------- marginalized statistics
def big():
    n = 40
    x = [((i * 17) % 41) / 8. - 2.3 for i in range(n)]
    y = [((i * 11) % 29) / 7. + 0.3 * x[i] for i in range(n)]
    w = [1 + (i * 7) % 3 for i in range(n)]
    l = [0.5 * x[i] ** 2 + 0.3 * ((i * 5) % 7) for i in range(n)]
    return np.array([x, y]).T, np.array(w, dtype=float), np.array(l)


SOPS = ['mask', 'burn', 'reweight', 'cool', 'minratio', 'derived', 'change', 'thin', 'ranges', 'settings', 'setsamples']


def sgen(depth):
    import itertools
    for n in range(1, depth + 1):
        for ops in itertools.product(SOPS, repeat=n):
            if 'thin' in ops and any(o in ('reweight', 'cool') for o in ops[:ops.index('thin')]):
                continue
            if ops.count('derived') > 1 or ops.count('thin') > 1:
                continue
            for prime in ([0, 1] if n == 1 else [1]):
                yield [list(ops), prime]


def sapply(o, op):
    if op == 'mask':
        o.filter(o.samples[:, 0] > -1.8)
    elif op == 'burn':
        o.removeBurn(0.2)
    elif op == 'reweight':
        o.reweightAddingLogLikes(0.4 * o.samples[:, 1])
    elif op == 'cool':
        o.cool(0.8)
    elif op == 'minratio':
        o.setMinWeightRatio(0.34)
    elif op == 'derived':
        o.addDerived(o.samples[:, 0] + o.samples[:, 1] ** 2, 'der', label='q', range=(0, None))
    elif op == 'change':
        o.changeSamples(o.samples * 1.5 - 0.25)
    elif op == 'thin':
        o.thin(2)
    elif op == 'ranges':
        o.setRanges({'x': [-4.5, 5.5], 'y': [None, 9]})
    elif op == 'settings':
        o.updateSettings({'contours': '0.5 0.8', 'num_bins': 40})
    elif op == 'setsamples':
        k = o.samples.shape[1]
        o.setSamples(np.array([[((i * 13 + j * 7) % 31) / 6. + j * 0.1 * i for j in range(k)] for i in range(31)]), np.array([1. + i % 2 for i in range(31)]),
                     np.array([0.1 * ((i * 3) % 11) for i in range(31)]))


def summary(o, which):
    if which == 'marge':
        m = o.getMargeStats()
        return [(p.name, p.mean, p.err) + tuple((l.twotail, l.onetail_upper, l.onetail_lower, l.lower, l.upper) for l in p.limits) for p in m.names]
    if which == 'like':
        return likestats(o).tolist() + ndlims(o).tolist()
    if which == 'd1':
        return [list(o.get1DDensity(p).P[::9]) + [o.get1DDensity(p).x[0], o.get1DDensity(p).x[-1]] for p in o.paramNames.list()]
    if which == 'd2':
        d = o.get2DDensity('x', 'y')
        return [d.P[::7, ::11].tolist(), d.x[0], d.x[-1], d.y[0], d.y[-1]]
    if which == 'latex':
        return [o.getInlineLatex(p, limit=1) for p in o.paramNames.list()] + [o.getTable().tableTex()]
    if which == 'ess':
        return [float(o.getEffectiveSamplesGaussianKDE(0)), float(o.getEffectiveSamplesGaussianKDE_2d(0, 1))]


def flat(x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [x]


def scheck(ctx, case):
    ops, prime = case
    x, w, l = big()
    o = MCSamples(samples=x, weights=w, loglikes=l, names=['x', 'y'], labels=['X', 'Y'], settings={'ignore_rows': 0}, ranges={'x': [-5, 6]})
    kinds = ['marge', 'like', 'd1', 'd2', 'latex', 'ess']
    for op in ops:
        if prime:
            for k in kinds:
                summary(o, k)
        sapply(o, op)
        ctx.step()
    fresh = MCSamples(samples=o.samples.copy(), weights=np.array(o.weights), loglikes=o.loglikes.copy(), names=list(o.paramNames.list()),
                      labels=[p.label for p in o.paramNames.names], settings=dict({'ignore_rows': 0}, **({'contours': '0.5 0.8', 'num_bins': 40} if 'settings' in ops else {})),
                      ranges=copy.deepcopy(o.ranges))
    for a, b in zip(fresh.paramNames.names, o.paramNames.names):
        a.isDerived = b.isDerived
    for k in kinds:
        f1, f2 = flat(summary(copy.deepcopy(o), k)), flat(summary(copy.deepcopy(fresh), k))
        require(len(f1) == len(f2), '%s: different shape', k)
        for a, b in zip(f1, f2):
            ok = a == b if isinstance(b, (str, bool, np.bool_)) or b is None else a is not None and abs(a - b) <= 1e-7 * (abs(b) + 1e-3)
            require(ok, '%s after %s is %s, a fresh object with the same rows gives %s', k, ops, a, b)
    return round(float(o.norm), 6), o.numrows



# ---------------------------------------------------------------- forms of input, fixed parameters
def igen():
    import itertools
    for kind in 'WC':
        for form in ('array', 'list', 'tuple', 'vector', 'int', 'fortran'):
            for npar in ((1,) if form == 'vector' else (1, 2, 3)):
                for w in ('none', 'int', 'zero', 'float'):
                    for like in (0, 1):
                        for ig in (0, 1, 2, 3.0, 0.25, 0.5):
                            yield ['input', kind, form, npar, w, like, ig]
    for kind in 'CM':
        for n in (1, 2, 3):
            for names in itertools.permutations(('a', 'a.b', 'a.c', 'a.b.d', 'e'), n):
                for k in range(n + 1):
                    for der in itertools.combinations(range(n), k):
                        yield ['names', kind, list(names), list(der)]
    for n in (2, 3, 4, 5):
        for pat in itertools.product((0, 1, 2), repeat=n):
            if pat[0] == 0:
                for scale in (1, 1e-3, 1e-9):
                    for kind in 'WCMS':
                        yield ['fixed', kind, list(pat), scale]


def names_check(ctx, case):
    _, kind, names, derived = case
    x = np.array([A, B, D][:len(names)]).T
    given = [n + '*' * (i in derived) for i, n in enumerate(names)]
    o = (Chains if kind == 'C' else MCSamples)(samples=x.copy(), names=given, **({} if kind == 'C' else {'settings': {'ignore_rows': 0}}))
    ctx.step()
    p = o.getParams()
    for i, n in enumerate(names):
        path = n.split('.') + ['value'] * any(m.startswith(n + '.') for m in names)
        v = p
        for q in path:
            require(hasattr(v, q), 'getParams() has no %s', '.'.join(path))
            v = getattr(v, q)
        require(np.array_equal(v, x[:, i]), 'getParams().%s is %s, should be %s', '.'.join(path), v, x[:, i])
        require(np.array_equal(o[n], x[:, i]), '%s is %s', n, o[n])
    for ix in (0, 3):
        for want in (True, False):
            exp = [('weight', 1.0)] + [(n, x[ix, i]) for i, n in enumerate(names) if want or i not in derived]
            require(list(o.getParamSampleDict(ix, want_derived=want).items()) == exp, 'row %s is %s, should be %s', ix, o.getParamSampleDict(ix, want_derived=want), exp)
    return repr(case)


def icheck(ctx, case):
    if case[0] == 'names':
        return names_check(ctx, case)
    if case[0] == 'input':
        _, kind, form, npar, w, like, ig = case
        x = np.array([A, B, D][:npar]).T
        wt = {'none': None, 'int': np.array(SETS['int'][0]), 'zero': np.array(SETS['zero'][0], dtype=float), 'float': np.array(SETS['float'][0])}[w]
        l = np.array(L) if like else None
        arg = {'array': x, 'list': [c.copy() for c in x.T], 'tuple': tuple(c.copy() for c in x.T), 'vector': x[:, 0].copy(), 'int': np.round(x * 4).astype(int), 'fortran': np.asfortranarray(x)}[form]
        if form == 'int':
            x = np.round(x * 4)
        kw = dict(samples=arg, weights=wt, loglikes=l, ignore_rows=ig)
        o = WeightedSamples(**kw) if kind == 'W' else Chains(names=NAMES[:npar], **kw)
        r = Ref(wt, l, x.T, NAMES[:npar])
        if ig >= 1:
            r.take(list(range(int(ig), r.n())))
        r.minratio(1e-30)
        if 0 < ig < 1:
            r.take(list(range(int(round(r.n() * ig)), r.n())))
        ctx.step()
        for name, real, ref in QW + (QC if kind == 'C' else []):
            if npar == 1 and name in ('getMeans_pars', 'getCov_pars', 'mean_where', 'var_where', 'cov_pars', 'corr', 'mean_diff'):
                continue
            got, want = real(copy.deepcopy(o)), ref(r)
            require(same(got, want), '%s is %s, should be %s', name, got, want)
        return repr(case)
    _, kind, pat, scale = case
    n = len(pat)
    v = np.array([5 + scale * p for p in pat])
    x = np.c_[np.arange(n) * 1.5, v, v[::-1] - 5 + 7, np.arange(n)[::-1] ** 2 + 0.5]
    names = ['a', 'p', 'q', 'z']
    if kind == 'W':
        o = WeightedSamples(samples=x.copy())
        fixed, vals = o.deleteFixedParams()
    elif kind == 'S':                  # separate chains
        if n < 4:
            return None
        o = Chains(names=list(names))
        o.loadChains('r', [x[:2].copy(), x[2:].copy()])
        o.deleteFixedParams()
        o.makeSingle()
    else:
        o = Chains(samples=x.copy(), names=list(names)) if kind == 'C' else MCSamples(samples=x.copy(), names=list(names), settings={'ignore_rows': 0})
        o.deleteFixedParams()
    ctx.step()
    const = len(set(pat)) == 1
    left = [0, 3] if const else [0, 1, 2, 3]
    require(np.array_equal(o.samples, x[:, left]), 'parameters %s kept, should be %s', o.samples.shape, left)
    if kind == 'W':
        require(list(fixed) == ([1, 2] if const else []) and np.allclose(vals, [5, 7] if const else [], rtol=1e-12, atol=0), 'fixed parameters reported: %s %s', fixed, vals)
    else:
        require(o.paramNames.list() == [names[i] for i in left] and o.index == {names[i]: k for k, i in enumerate(left)}, 'names %s %s', o.paramNames.list(), o.index)
        if kind == 'M' and const:
            require(o.ranges.fixedValueDict() == {'p': 5, 'q': 7}, 'fixed values %s', o.ranges.fixedValueDict())
    return repr((const, kind))


def scenarios(tier):
    thorough = tier == 'thorough'
    deep = [['C', 'int'], ['C', 'nolike']]
    rest = [[k, x] for k in 'WC' for x in SETS if [k, x] not in deep]
    mc = [['M', x] for x in SETS if x != 'zero']
    res = [Bfs('ops', lambda: deep + (rest if thorough else []), build, events, canon, 4 if thorough else 3),
           Bfs('mcops', lambda: mc if thorough else [['M', 'int'], ['M', 'nolike'], ['W', 'zero'], ['C', 'zero'], ['W', 'float'], ['C', 'unit']], build, events, canon, 3 if thorough else 2),
           Bfs('extreme', lambda: [['W', 'int', True], ['C', 'float', True], ['C', 'nolike', True]], build, events, canon, 3 if thorough else 2), Enum('inputs', igen, icheck),
           Enum('stats', lambda: sgen(3 if thorough else 2), scheck, timeout=120)]
    return res
