"""Convergence tests, likelihood summaries and principal components against direct evaluation of their definitions."""
import itertools
import logging
import math
import re
import warnings

import numpy as np
from scipy import linalg

from mc.core import Enum, require
from mc.gridlib import quiet
from getdist.mcsamples import MCSamples
from getdist import chains as gchains

PROPERTY = 'C29'
LEVEL = 'model_checking'
RULE = ('converge: every combination of chain number (1-4), lengths, weight kind (unit, integer, fractional), autocorrelation and test confidence, and every subset of tests, each number printed compared with a direct evaluation of its definition (loops over rows); '
        'likes: every assignment of likelihood order and weights to a few rows; pca: every combination of parameter subset and order, log maps, normalising parameter and conditional parameters; lengths: all combinations of chain, cut and unit; steps: all combinations of chains, thinning, number of steps, with the summary of sample numbers; pcamap: every ordered subset of positive, negative, zero-crossing, near-zero and missing parameters')
ASSUMPTIONS = ['samples are fixed pseudo-random series; the quantile definition is that of C09 and thinning that of C10 (taken from the library)']
logging.disable(logging.WARNING)
NAMES = ['x', 'y', 'z', 'd*']
LABELS = ['X', 'Y_1', r'\zeta', 'D']


def series(seed, n, phi, wkind):
    r = np.random.RandomState(seed)
    e = r.standard_normal((n, 3))
    v = np.zeros((n, 3))
    v[0] = e[0]
    for i in range(1, n):
        v[i] = phi * v[i - 1] + math.sqrt(1 - phi ** 2) * e[i]
    x = v.dot(np.array([[1, .5, 0.2], [0, 1, .3], [0, 0, 1]])) + np.array([5., 9., 12.]) + 0.15 * seed
    x = np.column_stack([x, x[:, 0] * x[:, 1] - 2 * x[:, 2]])
    w = {'unit': np.ones(n), 'int': 1. + r.randint(0, 5, n), 'frac': 0.2 + r.random_sample(n), 'mixed': 1. + r.randint(0, 2 * seed, n)}[wkind]
    ll = np.sum((x[:, :3] - np.array([5., 9., 12.])) ** 2, axis=1) / 2 + 3
    return x, w, ll


LENS = {'equal': [60, 60, 60, 60], 'unequal': [95, 41, 60, 72], 'short': [33, 26, 41, 29]}


def build(nch, lens, phi, wkind, split=None, **settings):
    cs = [series(k + 1, LENS[lens][k], phi, wkind) for k in range(nch)]
    with quiet():
        s = MCSamples(samples=[c[0] for c in cs], weights=[c[1] for c in cs], loglikes=[c[2] for c in cs], names=NAMES, labels=LABELS, settings=dict(dict(ignore_rows=0, fine_bins=128), **settings))
    return s, cs


def quantile(x, w, target_frac):
    o = sorted(range(len(x)), key=lambda i: x[i])
    tot = sum(w)
    c = 0.
    for i in o:
        c += w[i]
        if c >= tot * target_frac * (1 - 1e-12):
            return x[i]
    return x[o[-1]]


def on_edge(x, w, frac):
    """the target falls on a sample boundary, so that rounding decides"""
    tot = sum(w)
    c = np.cumsum(np.asarray(w)[np.argsort(x)])
    return bool(np.min(np.abs(c - tot * frac)) < 1e-9 * tot)


def wmean(x, w):
    return sum(a * b for a, b in zip(x, w)) / sum(w)


def section(text, start):
    i = text.find(start)
    require(i >= 0, 'no section %r', start)
    return text[i:].splitlines()


def numbers(line):
    return [float(t) for t in line.split() if re.fullmatch(r'[-+]?\d+(\.\d*)?([eE][-+]?\d+)?|nan|[-+]?inf', t)]


def near(a, b, digit, what):
    require(abs(a - b) <= 0.6 * digit + 1e-7 * abs(b) + 1e-12, '%s: %s, direct evaluation %s', what, a, b)


def corr_len(cs, j, maxoff, cut, means, var):
    """chains (values, weights) with each its own mean; sum until the correlation first drops below the cut"""
    norm = sum(sum(w) for _, w in cs)
    corr = []
    for k in range(maxoff + 1):
        tot = 0.
        for (x, w), m in zip(cs, means):
            n = len(x)
            d = (x[:, j] - m[j]) * w
            tot += n * (np.dot(d[:n - k], d[k:]) / (n - k))
        corr.append(tot / (norm * var))
    N = corr[0]
    for k in range(1, maxoff + 1):
        if corr[k] <= cut * corr[0]:
            break
        N += 2 * corr[k]
    margin = min(abs(c - cut * corr[0]) for c in corr)
    return N, margin > 1e-9


def thin(w, f):
    return np.array(gchains.WeightedSamples.thin_indices_single_samples(f, np.asarray(w)))


def raftery(cs, lo_hi, conf):
    """(markov thin, independent thin, burn) for each chain, None where it fails"""
    eps = 0.001
    allx = np.concatenate([x for x, _ in cs])
    allw = np.concatenate([w for _, w in cs])
    out = []
    hardest, hardend = 0, 0
    for x, w in cs:
        f = int(round(max(w)))
        nburn = 0
        failed = False
        for j in range(3):
            for end in (0, 1):
                if on_edge(x[:, j], w, lo_hi[end]):
                    return None
                u = quantile(x[:, j], w, lo_hi[end])
                while True:
                    ix = thin(w, f)
                    m = len(ix)
                    if m < 2:
                        failed = True
                        break
                    b = [0 if x[i, j] >= u else 1 for i in ix]
                    t = np.zeros((2, 2, 2))
                    for i in range(2, m):
                        t[b[i - 2], b[i - 1], b[i]] += 1
                    g2 = 0.
                    for i1, i2, i3 in itertools.product((0, 1), repeat=3):
                        if t[i1, i2, i3]:
                            g2 += t[i1, i2, i3] * math.log(t[i1, i2, i3] * t[:, i2, :].sum() / (t[i1, i2, :].sum() * t[:, i2, i3].sum()))
                    if m <= 2:
                        return None
                    if 2 * g2 - 2 * math.log(m - 2) < 0:
                        break
                    f += 1
                if failed:
                    break
                if t[:, 0, 1].sum() == 0 or t[:, 1, 0].sum() == 0:
                    failed = True
                    break
                a = t[:, 0, 1].sum() / t[:, 0, :].sum()
                be = t[:, 1, 0].sum() / t[:, 1, :].sum()
                if a + be == 1:
                    return None
                burn = int(math.log((a + be) * eps / max(a, be)) / math.log(abs(1 - a - be)) + 1) * f
                if burn > nburn:
                    nburn, hardest, hardend = burn, j, end
            if failed:
                break
        if failed:
            out.append(None)
            continue
        mt = f
        u = quantile(allx[:, hardest], allw, 1 - (1 - conf) / 2 if hardend == 0 else (1 - conf) / 2)
        while True:
            ix = thin(w, f)
            m = len(ix)
            if m < 3:
                return None
            b = [0 if x[i, hardest] >= u else 1 for i in ix]
            t = np.zeros((2, 2))
            for i in range(1, m):
                t[b[i - 1], b[i]] += 1
            g2 = 0.
            for i1, i2 in itertools.product((0, 1), repeat=2):
                if t[i1, i2]:
                    g2 += t[i1, i2] * math.log(t[i1, i2] * (m - 1) / (t[i1, :].sum() * t[:, i2].sum()))
            if 2 * g2 - math.log(m - 1) < 0:
                break
            f += 1
        out.append((mt, f, nburn))
    return out


ALL = ('MeanVar', 'GelmanRubin', 'SplitTest', 'RafteryLewis', 'CorrLengths')


def conv_gen(deep):
    def gen():
        for nch, lens, phi, wkind, conf in itertools.product([1, 2, 3, 4], list(LENS), [0, 0.6, 0.95], ['unit', 'int', 'frac', 'mixed'], [0.93, 0.95] + ([0.81, 0.87, 0.99] if deep else [])):
            yield [nch, lens, phi, wkind, conf, list(ALL), 4]
        for r in range(len(ALL)):
            for what in itertools.combinations(ALL, r):
                for nch in (1, 3):
                    yield [nch, 'unequal', 0.6, 'int', 0.95, list(what), 2]
    return gen


def conv_check(ctx, case):
    nch, lens, phi, wkind, conf, what, splits = case
    s, cs = build(nch, lens, phi, wkind)
    s.max_split_tests = splits
    with quiet():
        ctx.step()
        text = s.getConvergeTests(conf, what=what)
    cw = [(x, w) for x, w, _ in cs]
    allx = np.concatenate([x for x, _ in cw])
    allw = np.concatenate([w for _, w in cw])
    norm = allw.sum()
    mean = np.array([wmean(allx[:, j], allw) for j in range(4)])
    var = np.array([wmean((allx[:, j] - mean[j]) ** 2, allw) for j in range(4)])
    cmeans = [np.array([wmean(x[:, j], w) for j in range(4)]) for x, w in cw]
    names = ['x', 'y', 'z', 'd']
    heads = {'CorrLengths': 'Parameter autocorrelation lengths', 'MeanVar': 'mean convergence stats', 'GelmanRubin': 'var(mean)/mean(var) for eigen', 'SplitTest': 'Split tests', 'RafteryLewis': 'Raftery&Lewis statistics'}
    for k, h in heads.items():
        want = k in what and (nch > 1 or k not in ('MeanVar', 'GelmanRubin')) and (k != 'RafteryLewis' or wkind != 'frac')
        require((h in text) == want, '%s: %s in the output', k, 'missing' if want else 'not expected')
    if 'CorrLengths' in what:
        maxoff = min(len(x) // 10 for x, _ in cw)
        lines = section(text, heads['CorrLengths'])[3:7]
        worst = 0
        for j, l in enumerate(lines):
            N, sure = corr_len(cw, j, maxoff, 0.05, cmeans, var[j])
            nums = numbers(l.split(None, 1)[1])
            require(l.split()[0] == names[j] and len(nums) == 3, 'correlation length line %r', l)
            worst = max(worst, N)
            if not sure:
                continue
            mm = norm / len(allw)
            near(nums[0], N, 0.01 if mm > 1 else 0.01 * 10 ** math.floor(math.log10(N)), 'correlation length of %s' % names[j])
            near(nums[1], N / mm, 0.01, 'sample length of %s' % names[j])
            require(abs(nums[2] - norm / N) <= 1 + 1e-6 * norm, 'effective samples of %s: %s, expected %s', names[j], nums[2], norm / N)
        require(abs(s.indep_thin - worst) < 1e-6 * worst, 'indep_thin %s is not the longest correlation length %s', s.indep_thin, worst)
    if nch > 1 and 'MeanVar' in what:
        lines = section(text, heads['MeanVar'])[3:7]
        for j, l in enumerate(lines):
            between = sum((m[j] - mean[j]) ** 2 for m in cmeans) / (nch - 1)
            within = sum(np.dot(w, (x[:, j] - m[j]) ** 2) for (x, w), m in zip(cw, cmeans)) / norm
            require(l.split()[0] == names[j] and l.split()[-1] == LABELS[j], 'line %r', l)
            near(float(l.split()[1]), math.sqrt(between / within), 1e-4, 'variance of means of %s' % names[j])
    if nch > 1 and 'GelmanRubin' in what:
        B = sum(np.outer(m[:3] - mean[:3], m[:3] - mean[:3]) for m in cmeans) / (nch - 1)
        W = sum((np.cov(x[:, :3].T, aweights=w, ddof=0)) for x, w in cw) / nch
        ev = linalg.eigh(B, W, eigvals_only=True)
        lines = section(text, heads['GelmanRubin'])[1:4]
        for j, l in enumerate(lines):
            near(numbers(l)[1], ev[j], 1e-5, 'Gelman-Rubin eigenvalue %s' % (j + 1))
        require(abs(s.GelmanRubin - ev[-1]) < 1e-8 and abs(s.getGelmanRubin() - ev[-1]) < 1e-8, 'Gelman-Rubin statistic %s, expected %s', s.GelmanRubin, ev[-1])
        one = s.getGelmanRubin(nparam=1)
        require(abs(one - B[0, 0] / W[0, 0]) < 1e-8, 'Gelman-Rubin statistic of one parameter %s, expected %s', one, B[0, 0] / W[0, 0])
    if 'SplitTest' in what:
        lines = section(text, heads['SplitTest'])
        require('limit=95%' in lines[0], 'split test heading %r', lines[0])
        cum = np.cumsum(allw)
        p = 0
        for j in range(4):
            for name, frac in (('upper', 1 - (1 - conf) / 2), ('lower', (1 - conf) / 2)):
                full = quantile(allx[:, j], allw, frac)
                l = lines[3 + p]
                p += 1
                require(l.split()[0] == names[j] and l.split()[-1] == name, 'split test line %r', l)
                for i, n in enumerate(range(2, splits + 1)):
                    edges = [int(np.searchsorted(cum, norm * k / n)) for k in range(n)] + [len(allw)]
                    edge = any(np.min(np.abs(cum - norm * k / n)) < 1e-9 * norm for k in range(1, n)) and n not in (2, 4)
                    if edge or on_edge(allx[:, j], allw, frac) or any(on_edge(allx[a:b, j], allw[a:b], frac) for a, b in zip(edges[:-1], edges[1:])):
                        continue
                    tot = sum((quantile(allx[a:b, j], allw[a:b], frac) - full) ** 2 for a, b in zip(edges[:-1], edges[1:]))
                    near(float(l.split()[1 + i]), math.sqrt(tot / n / var[j]), 1e-4, 'split test of %s %s n=%s' % (names[j], name, n))
    if 'RafteryLewis' in what and wkind != 'frac':
        exp = raftery(cw, [1 - (1 - conf) / 2, (1 - conf) / 2], conf)
        lines = section(text, heads['RafteryLewis'])[3:3 + nch]
        if exp is not None:
            for k, (l, e) in enumerate(zip(lines, exp)):
                if e is None:
                    require('Failed' in l and int(l.split()[0]) == k, 'Raftery-Lewis of chain %s: %r, expected failure', k, l)
                else:
                    require('Failed' not in l and [int(v) for v in l.split()] == [k] + list(e), 'Raftery-Lewis of chain %s: %r, expected %s', k, l, e)
            ctx.outcome(repr(exp))
    return text


# ---- correlations as a function of step separation, and the summary of numbers
def steps_gen():
    for nch, lens, phi, wkind, th, steps, lengths in itertools.product([1, 2, 3], list(LENS), [0, 0.9], ['unit', 'int', 'mixed'], [1, 2, 3, 0], [15, 3], [True, False]):
        yield [nch, lens, phi, wkind, th, steps, lengths]


def steps_check(ctx, case):
    nch, lens, phi, wkind, th, steps, lengths = case
    s, cs = build(nch, lens, phi, wkind, corr_length_thin=th, corr_length_steps=steps)
    allw = np.concatenate([w for _, w, _ in cs])
    allx = np.concatenate([x for x, _, _ in cs])
    mean = np.average(allx, axis=0, weights=allw)
    var = np.average((allx - mean) ** 2, axis=0, weights=allw)
    with quiet():
        ctx.step()
        text = s.getConvergeTests(0.95, what=(['CorrLengths'] if lengths else []) + ['CorrSteps'])
        summary = s.getNumSampleSummaryText()
    f = th or (20 if not lengths else 5 if s.indep_thin <= 30 else int(5 * (s.indep_thin / 30)))
    maxoff = int(min(steps, len(thin(allw, f)) // (2 * nch)))
    if maxoff > 0:
        maxoff = min([maxoff] + [len(thin(w, f)) // f for _, w, _ in cs])
    lines = section(text, 'Parameter auto-correlations as function')[2:]
    if maxoff > 0:
        require([int(v) for v in lines[0].split()] == [(i + 1) * f for i in range(maxoff)], 'steps %r, expected %s multiples of %s', lines[0], maxoff, f)
        for j, l in enumerate(lines[1:5]):
            require(l.split()[0] == 'xyzd'[j] and l.split()[-1] == LABELS[j], 'line %r', l)
            got = [float(v) for v in l.split()[1:-1]]
            require(len(got) == maxoff, 'line %r', l)
            for off in range(1, maxoff + 1):
                tot = 0.
                for x, w, _ in cs:
                    q = x[thin(w, f), j] - np.average(x[:, j], weights=w)
                    m = len(q)
                    tot += sum(q[i] * q[i + off] for i in range(m - off)) / (m - off) if m > off else 0
                near(got[off - 1], tot / nch / var[j], 1e-3, 'correlation of %s at %s steps' % ('xyzd'[j], off * f))
    exp = {'(sum w)/max(w)': allw.sum() / allw.max(), '(sum w)^2/sum(w^2)': allw.sum() ** 2 / np.dot(allw, allw)}
    if lengths:
        exp['N/corr length'] = allw.sum() / s.indep_thin
    require(('N/corr length' in summary) == lengths, 'summary %r', summary)
    for k, v in exp.items():
        l = [q for q in summary.splitlines() if k in q]
        require(len(l) == 1 and abs(float(l[0].split(':')[-1]) - v) <= 1, 'summary %r, expected %s = %s', summary, k, v)
    g = re.match(r'using (\d+) rows, (\d+) parameters; mean weight ([\d.e+-]+), tot weight ([\d.e+-]+)', summary)
    require(g and int(g.group(1)) == len(allw) and int(g.group(2)) == 4 and abs(float(g.group(3)) - allw.mean()) < 1e-9 and abs(float(g.group(4)) - allw.sum()) < 1e-6, 'summary %r', summary)
    return text


# ---- PCA maps and selections
def pmap_gen():
    ps = ['pos', 'neg', 'cross', 'small', 'missing']
    for r in (1, 2, 3, 4):
        for params in itertools.permutations(ps, r):
            if params[0] != 'missing' or r > 1:
                yield list(params)


def pmap_check(ctx, params):
    x, w, ll = series(3, 80, 0.2, 'int')
    x = x[:, :3] - np.array([5., 9., 12.])
    x = np.column_stack([5 + 0.5 * x[:, 0], -6 + 0.4 * x[:, 1], x[:, 2], 0.1 + x[:, 0] ** 2 + x[:, 2] ** 2])
    names = ['pos', 'neg', 'cross', 'small']
    with quiet():
        s = MCSamples(samples=x, weights=w, loglikes=ll, names=names, labels=names, settings={'ignore_rows': 0})
        n = MCSamples(samples=x * np.array([1, -1, 1, 1]), weights=w, loglikes=ll, names=names, labels=names, settings={'ignore_rows': 0})
        kept = [p for p in params if p != 'missing']
        want = s.PCA(kept, ['L' if p == 'pos' else 'N' for p in kept])
        ctx.step()
        require(s.PCA(params) == want, 'PCA of %s with the default map is not that of %s with logs of the positive parameter only', params, kept)
        comps = want[want.index('PC1 ('):want.index('Correlations of principle components')]
        comps = ['PC' + c for c in re.split(r'^PC', comps, flags=re.M)[1:]]
        require(len(comps) == len(kept), 'components %r', comps)
        for k in range(2, len(kept) + 2):
            got = s.PCA(kept, ['L' if p == 'pos' else 'N' for p in kept], n_best_only=k)
            require([g.strip() for g in got] == [c.strip() for c in comps[:k]], 'n_best_only=%s gives %r', k, got)
        m = s.PCA(kept, ['M' if p == 'neg' else 'N' for p in kept])
        l = n.PCA(kept, ['L' if p == 'neg' else 'N' for p in kept])
        m = re.sub(r'/-([\d.]+\)\^)', r'/\1', m.replace('ln(-neg)', 'ln(neg)'))
        # the correlation of the parameter itself with the components changes sign
        cut = lambda t: t[:t.index('Correlations of principle components')]
        require(cut(m) == cut(l), 'log of minus a negative parameter: %r, of the positive one %r', cut(m), cut(l))
    return repr(params)


# ---- likelihood statistics
def like_gen(n):
    def gen():
        for perm in itertools.permutations(range(n)):
            for w in ([1.] * n, [float(1 + (i * i) % 4) for i in range(n)], [0.3 + 0.2 * i for i in range(n)]):
                for span in (1., 9.):
                    yield [list(perm), w, span]
    return gen


def like_check(ctx, case):
    perm, w, span = case
    n = len(perm)
    x = np.array([[math.sin(3 * i + 1) + i, math.cos(5 * i) * 3, (i - 2.3) ** 2] for i in range(n)])
    w = np.array(w)
    ll = 100 + span * np.array([perm.index(i) ** 1.5 for i in range(n)])
    with quiet():
        for contours in ([0.68, 0.95], [0.4, 0.9]):
            s = MCSamples(samples=x, weights=w, loglikes=ll, names=['x', 'y', 'z*'], ranges={'fix': [2.5, 2.5]}, settings={'ignore_rows': 0, 'contours': contours}, sampler='uncorrelated')
            ctx.step()
            m = s.getLikeStats()
            best = min(range(n), key=lambda i: ll[i])
            W = w.sum()
            require(abs(m.logLike_sample - ll[best]) < 1e-12, 'best likelihood %s', m.logLike_sample)
            mean = float(np.dot(w, ll) / W)
            require(abs(m.meanLogLike - mean) < 1e-9, 'mean log likelihood %s, expected %s', m.meanLogLike, mean)
            require(abs(m.complexity - 2 * (mean - ll[best])) < 1e-9, 'complexity %s', m.complexity)
            require(abs(m.logMeanLike - (ll[best] - math.log(np.dot(w, np.exp(ll[best] - ll)) / W))) < 1e-9, 'log mean likelihood %s', m.logMeanLike)
            if max(ll) - ll[best] < 30:
                require(m.logMeanInvLike is not None and abs(m.logMeanInvLike - (ll[best] + math.log(np.dot(w, np.exp(ll - ll[best])) / W))) < 1e-9, 'log mean inverse likelihood %s', m.logMeanInvLike)
            else:
                require(m.logMeanInvLike is None, 'log mean inverse likelihood given although dominated by the tail')
            order = sorted(range(n), key=lambda i: ll[i])
            for c in (0, 1):
                # the most likely samples, as many as hold less than the fraction (at least the best)
                region, tot, clear = [], 0., True
                for i in order:
                    clear = clear and abs(tot + w[i] - contours[c] * W) > 1e-9
                    tot += w[i]
                    if tot >= contours[c] * W:
                        break
                    region.append(i)
                region = region or [best]
                if not clear:
                    continue
                for j, p in enumerate(m.names):
                    require(p.ND_limit_bot[c] == x[region, j].min() and p.ND_limit_top[c] == x[region, j].max(), 'limits of %s in the %s region: %s %s, expected those of rows %s', p.name, contours[c], p.ND_limit_bot[c], p.ND_limit_top[c], region)
            for j, p in enumerate(m.names):
                require(p.bestfit_sample == x[best, j], 'best-fit value of %s', p.name)
            txt = m.likeSummary().splitlines()
            vals = {l.split('=')[0].strip(): float(l.split('=')[1]) for l in txt}
            exp = {'Best fit sample -log(Like)': ll[best], 'mean(-Ln(like))': mean, '-Ln(mean like)': m.logMeanLike}
            if m.logMeanInvLike is not None:
                exp['Ln(mean 1/like)'] = m.logMeanInvLike
            require(set(vals) == set(exp) and all(abs(vals[k] - exp[k]) < 1e-5 for k in exp), 'summary %r', txt)
            d = s.getParamBestFitDict(best_sample=True)
            require(all(abs(d[q] - x[best, j]) < 1e-12 for j, q in enumerate('xyz')), 'best-fit dictionary %r', d)
            for der, fix in itertools.product((True, False), repeat=2):
                for d in (s.getParamBestFitDict(best_sample=True, want_derived=der, want_fixed=fix), s.getParamSampleDict(best, want_derived=der, want_fixed=fix)):
                    require({k: v for k, v in d.items() if k not in ('weight', 'loglike')} == {k: v for k, v in dict(x=x[best, 0], y=x[best, 1], z=x[best, 2], fix=2.5).items() if (k != 'z' or der) and (k != 'fix' or fix)}, 'best-fit dictionary with derived %s and fixed %s: %r', der, fix, d)
                    require(d['weight'] == w[best] and d['loglike'] == ll[best], 'weight or likelihood in %r', d)
    return [round(float(m.complexity), 6)]


# ---- PCA
def pca_gen():
    ps = ['x', 'y', 'z', 'd']
    for r in (1, 2, 3, 4):
        for params in itertools.permutations(ps, r):
            if r == 4 and params[0] > params[1]:
                continue
            for pmap in itertools.product('NL', repeat=r):
                if r > 2 and len(set(pmap)) > 1 and pmap[0] == 'L':
                    continue
                for norm in [None, params[-1]]:
                    for cond in [[]] + [[q] for q in ps if q not in params][:1]:
                        yield [list(params), ''.join(pmap), norm, cond]


_pca = []


def pca_check(ctx, case):
    params, pmap, norm, cond = case
    if not _pca:
        _pca.append(build(2, 'equal', 0.3, 'int'))
    s, cs = _pca[0]
    allx = np.concatenate([x for x, _, _ in cs])
    w = np.concatenate([q for _, q, _ in cs])
    with quiet():
        ctx.step()
        text = s.PCA(params, pmap, norm, conditional_params=cond)
        best = s.PCA(params, pmap, norm, conditional_params=cond, n_best_only=1)
    ix = ['xyzd'.index(p) for p in params]
    n = len(params)
    t = np.column_stack([np.log(allx[:, i]) if m == 'L' else allx[:, i] for i, m in zip(ix, pmap)] + [allx[:, 'xyzd'.index(c)] for c in cond])
    mean = np.average(t, axis=0, weights=w)
    sd = np.sqrt(np.average((t - mean) ** 2, axis=0, weights=w))
    u = (t - mean) / sd
    corr = (u * w[:, None]).T.dot(u) / w.sum()
    lines = section(text, 'Correlation matrix for reduced')[1:1 + n]
    for i, l in enumerate(lines):
        require(l.split()[0] == params[i], 'PCA correlation line %r', l)
        got = [float(v) for v in l.split(':')[1].split()]
        require(len(got) == len(corr) and np.allclose(got, corr[i], atol=6e-5), 'PCA correlations of %s: %s, expected %s', params[i], got, corr[i])
    C = linalg.inv(linalg.inv(corr)[:n, :n]) if cond else corr
    ev, vec = np.linalg.eigh(C)
    lines = section(text, 'e-values of corr')[1:1 + n]
    require(np.allclose([float(l.split(':')[1]) for l in lines], ev, atol=6e-5), 'PCA eigenvalues %s, expected %s', lines, ev)
    lines = section(text, 'e-vectors')[1:1 + n]
    got = np.array([[float(v) for v in l.split(':')[1].split()] for l in lines])
    require([int(l.split(':')[0]) for l in lines] == [i + 1 for i in ix], 'PCA eigenvector rows %r', lines)
    for k in range(n):
        require(min(np.max(np.abs(got[:, k] - vec[:, k])), np.max(np.abs(got[:, k] + vec[:, k]))) < 2e-3, 'PCA eigenvector %s: %s, expected %s', k, got[:, k], vec[:, k])
    lines = section(text, 'Principle components')[1:]
    require(text.count(best) == 1 and best.splitlines()[0] == lines[0], 'best component text')
    comps = []
    p = 0
    tie = False
    for k in range(n):
        require(lines[p].startswith('PC%i (e-value:' % (k + 1)) and abs(float(lines[p].split(':')[1].strip(' )')) - ev[k]) < 1e-6, 'component line %r', lines[p])
        v = vec[:, k]
        a = params.index(norm) if norm else int(np.argmax(np.abs(v)))
        ambiguous = not norm and n > 1 and np.sort(np.abs(v))[-1] - np.sort(np.abs(v))[-2] < 1e-6
        tie = tie or ambiguous
        coef = v / v[a] * sd[a]
        comp = u[:, :n].dot(coef)
        if 'L' in pmap:
            comp = np.exp(comp)
        comps.append(comp)
        m = np.average(comp, weights=w)
        tie = tie or not np.isfinite(m) or m > 1e6
        dev = math.sqrt(np.average((comp - m) ** 2, weights=w))
        for j in range(n):
            l = lines[p + 1 + j]
            c = float(l[l.index('[') + 1:l.index(']')])
            if not ambiguous:
                require(abs(c - coef[j]) < 1e-4 * (1 + abs(coef[j])), 'coefficient of %s in component %s: %s, expected %s', params[j], k + 1, c, coef[j])
                if pmap[j] == 'L':
                    g = re.search(r'\(%s/([-\d.e+]+)\)\^\{([-\d.e+]+)\}' % re.escape(LABELS[ix[j]]), l)
                    require(g and abs(float(g.group(1)) - math.exp(mean[j])) < 1e-5 * math.exp(mean[j]) and abs(float(g.group(2)) - coef[j] / sd[j]) < 1e-4 * (1 + abs(coef[j] / sd[j])), 'power law in %r', l)
                else:
                    g = re.search(r'\(%s-([-\d.e+]+)\)/([-\d.e+]+)\)' % re.escape(LABELS[ix[j]]), l)
                    require(g and abs(float(g.group(1)) - mean[j]) < 1e-5 and abs(float(g.group(2)) - sd[j] / coef[j]) < 2e-4 * (1 + abs(sd[j] / coef[j]) * (1 + abs(sd[j] / coef[j]))), 'linear form in %r', l)
        g = re.search(r'= ([-\d.e+]+) \+- ([-\d.e+]+)', lines[p + 1 + n])
        if not ambiguous and dev < 1e3:
            require(g and abs(float(g.group(1)) - m) < 2e-6 + 1e-5 * abs(m) and abs(float(g.group(2)) - dev) < 2e-6 + 1e-5 * dev, 'mean and deviation of component %s: %r, expected %s %s', k + 1, lines[p + 1 + n], m, dev)
        p += n + 3
    if tie:  # which of two equal components is the main one is not defined
        return text
    lines = section(text, 'Correlations of principle comp')[2:]
    std = np.column_stack([(c - np.average(c, weights=w)) for c in comps])
    std /= np.sqrt(np.average(std ** 2, axis=0, weights=w))
    allstd = (allx - np.average(allx, axis=0, weights=w))
    allstd /= np.sqrt(np.average(allstd ** 2, axis=0, weights=w))
    cc = (std * w[:, None]).T.dot(std) / w.sum()
    ca = (allstd * w[:, None]).T.dot(std) / w.sum()
    for k in range(n):
        got = [float(v) for v in re.findall(r'[-\d.]+', lines[k][4:])]
        require(np.allclose(got, cc[k], atol=2e-3), 'correlations of component %s: %s, expected %s', k + 1, got, cc[k])
    for j in range(4):
        got = [float(v) for v in lines[n + j].split('(')[0].split()[1:]]
        require(np.allclose(got, ca[j], atol=2e-3) and lines[n + j].rstrip().endswith('(%s)' % LABELS[j]), 'correlations of parameter %s with components: %r, expected %s', j, lines[n + j], ca[j])
    return text


# ---- correlation lengths and signal to noise
def len_gen():
    for seed, n, phi, wkind, cut, units in itertools.product([1, 2, 3], [40, 61, 110], [0, 0.6, 0.9, 0.98], ['unit', 'int', 'frac'], [0.05, 0.3], [True, False]):
        yield [seed, n, phi, wkind, cut, units]


def len_check(ctx, case):
    seed, n, phi, wkind, cut, units = case
    x, w, ll = series(seed, n, phi, wkind)
    with quiet():
        s = MCSamples(samples=x, weights=w, loglikes=ll, names=NAMES, settings={'ignore_rows': 0})
        for j in range(4):
            ctx.step()
            got = s.getCorrelationLength(j, weight_units=units, min_corr=cut)
            m = np.average(x, axis=0, weights=w)
            var = np.average((x[:, j] - m[j]) ** 2, weights=w)
            N, sure = corr_len([(x, w)], j, n // 10, cut, [m], var)
            if not units:
                N *= w.sum() / n
            require(not sure or abs(got - N) < 1e-7 * (1 + abs(N)), 'correlation length %s, direct sum %s', got, N)
            if units:
                eff = s.getEffectiveSamples(j, min_corr=cut)
                require(not sure or abs(eff - w.sum() / N) < 1e-6 * eff, 'effective samples %s, expected %s', eff, w.sum() / N)
        noise = np.diag([1., 2., 3.]) + 0.2
        C = np.cov(x[:, :3].T, aweights=w, ddof=0)
        ev, M = s.getSignalToNoise([0, 1, 2], noise)
        require(np.allclose(ev, linalg.eigh(C, noise, eigvals_only=True), rtol=1e-7) and np.allclose(M.dot(C).dot(M.T), np.diag(ev), atol=1e-7) and np.allclose(M.dot(noise).dot(M.T), np.eye(3), atol=1e-7), 'signal to noise eigenvalues %s', ev)
        require(np.allclose(s.getSignalToNoise([0, 1, 2], noise, eigs_only=True), ev), 'signal to noise eigenvalues')
    return round(float(got), 6)


def scenarios(tier):
    deep = tier == 'thorough'
    return [
        Enum('converge', conv_gen(deep), conv_check, timeout=120),
        Enum('likes', like_gen(6 if deep else 5), like_check),
        Enum('pca', pca_gen, pca_check),
        Enum('lengths', len_gen, len_check),
        Enum('steps', steps_gen, steps_check, timeout=120),
        Enum('pcamap', pmap_gen, pmap_check),
    ]
