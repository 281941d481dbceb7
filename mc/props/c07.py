"""Separate chains keep their identity through combining, filtering, burn removal, thinning and separation."""
import copy
import itertools
import logging

import numpy as np
import scipy.linalg
from mc.core import Bfs, Enum, require
from mc.props.c06 import thin_ref
from getdist import MCSamples, chains
from getdist.chains import WeightedSamples, Chains

logging.disable(logging.CRITICAL)
chains.print_load_details = False
np.seterr(all='ignore')

PROPERTY = 'C07'
LEVEL = 'model_checking'
RULE = ('chains: BFS over all histories of chain operations (combine, burn removal by fraction and by rows before or after combining, filtering one chain, filtering the combination by mask/index/slice, '
        'thinning, weighted thinning, reweighting, minimum weight, derived parameters, fixed parameters) for all listed chain-length combinations, with and without '
        'likelihoods; after each step chains, combination and Gelman-Rubin measures are compared with a list-of-lists reference; '
        'load: loading arrays or files, with every number of ignored rows given in either place, into a new object or one with other chains in any state; converge: MCSamples convergence test output after every pair of operations vs directly computed numbers')
ASSUMPTIONS = ['weights are positive', 'filters given as row numbers are in increasing order']

LENGTHS = [[1], [3], [2, 3], [3, 1], [4, 4], [1, 1, 2], [3, 2, 4], [2, 4, 3], [5, 3]]


def row(c, i):
    k = 5 * c + i
    return [((k * 7) % 11) / 2. - 1 + 0.01 * k, ((k * 3) % 7) * 0.75 + 0.3 * ((k * 7) % 11), 2.5 if c == 0 else 2.5 + 0.1 * (k % 2)]


class St:
    pass


def start(cls, lengths, like, wkind, how):
    s = St()
    s.ref = []  # list of chains, each a list of [w, l, x...]
    s.names = ['p', 'q', 'r']
    arrs, ws, ls = [], [], []
    for c, n in enumerate(lengths):
        rows = [row(c, i) for i in range(n)]
        w = [1.0 + (i * 2 + c) % 4 for i in range(n)] if wkind == 'int' else [0.25 + 0.5 * ((i + c) % 3) for i in range(n)]
        l = [2 + 0.3 * ((i * 3 + c) % 5) for i in range(n)]
        s.ref.append([[w[i], l[i] if like else 0.0] + rows[i] for i in range(n)])
        arrs.append(np.array(rows))
        ws.append(np.array(w))
        ls.append(np.array(l))
    s.like = like
    if cls == 'C':
        s.obj = Chains(names=s.names)
        s.obj.loadChains('root', arrs, weights=ws, loglikes=ls if like else None, ignore_lines=0)
        s.comb = False
    else:
        s.obj = MCSamples(samples=arrs, weights=ws, loglikes=ls if like else None, names=s.names, settings={'ignore_rows': 0})
        s.comb = True
        fixed(s)
    if how == 'combined' and not s.comb:
        s.obj.makeSingle()
        s.comb = True
    return s


def fixed(s):
    allrows = [r for c in s.ref for r in c]
    for j in reversed(range(len(s.names))):
        if len(set(r[2 + j] for r in allrows)) == 1:
            del s.names[j]
            for r in allrows:
                del r[2 + j]


def total(s):
    return sum(len(c) for c in s.ref)


def keep(s, ix):
    """rows of the combination (numbered through), possibly repeated, in order"""
    out, off = [], 0
    for c in s.ref:
        out.append([list(c[i - off]) for i in ix if off <= i < off + len(c)])
        off += len(c)
    s.ref = out


def events(s):
    n = total(s)
    allrows = [r for c in s.ref for r in c]
    ws = [r[0] for r in allrows]
    intw = all(w == round(w) for w in ws)
    ev = []
    if any(len(set(r[2 + j] for r in allrows)) > 1 for j in range(len(s.names))):
        ev += [['delfixed']]
    if s.comb:
        if n >= 3:
            ev += [['mask', 0], ['mask', 1], ['index'], ['slice'], ['burnfrac', 0.3], ['removeburn', 1], ['removeburn', 0.5]]
        big = [k for k, c in enumerate(s.ref) if c and n - len(c) >= 2]
        ev += [['dropchain', k] for k in big]
        if intw and len(thin_ref(ws, 2)) >= 2:
            ev += [['thin', 2], ['wthin', 2]]
        if sum(w > 0.4 * max(ws) for w in ws) >= 2:
            ev += [['minratio', 0.4]]
        ev += [['reweight']]
        if 'z' not in s.names:
            ev += [['derived']]
    else:
        ev += [['combine']]
        ms = [len(c) for c in s.ref]
        if all(m - int(round(m * 0.3)) >= 1 for m in ms):
            ev += [['burnfrac', 0.3]]
        if all(m - int(round(m * 0.5)) >= 1 for m in ms):
            ev += [['burnfrac', 0.5]]
        if all(m > 1 for m in ms):
            ev += [['burnfrac', 1]]
        if intw:
            ev += [['wthin', 2]]
        ev += [['chainfilter', k] for k, m in enumerate(ms) if m >= 2]
    return ev


def apply(s, ev):
    o, op = s.obj, ev[0]
    n = total(s)
    flatw = [r[0] for c in s.ref for r in c]
    if op == 'combine':
        o.makeSingle()
        s.comb = True
    elif op == 'mask':
        m = np.array([(i + ev[1]) % 3 != 0 for i in range(n)])
        o.filter(m)
        keep(s, [i for i in range(n) if m[i]])
    elif op == 'dropchain':
        lo = sum(len(c) for c in s.ref[:ev[1]])
        hi = lo + len(s.ref[ev[1]])
        o.filter(np.array([not lo <= i < hi for i in range(n)]))
        keep(s, [i for i in range(n) if not lo <= i < hi])
    elif op == 'index':
        ix = [i for i in range(n) if i % 2 == 0]
        o.filter(ix)
        keep(s, ix)
    elif op == 'slice':
        o.filter(slice(None, None, 2))
        keep(s, list(range(0, n, 2)))
    elif op in ('burnfrac', 'removeburn'):
        (o.removeBurnFraction if op == 'burnfrac' else o.removeBurn)(ev[1])
        nb = lambda m: ev[1] if ev[1] >= 1 else int(round(m * ev[1]))
        if s.comb:
            keep(s, list(range(nb(n), n)))
        else:
            s.ref = [c[nb(len(c)):] for c in s.ref]
    elif op == 'thin':
        o.thin(ev[1])
        keep(s, thin_ref(flatw, ev[1]))
        for c in s.ref:
            for r in c:
                r[0] = 1.0
    elif op == 'wthin':
        o.weighted_thin(ev[1])
        new = []
        for c in s.ref:
            sel = thin_ref([r[0] for r in c], ev[1]) if c else []
            new.append([[float(sel.count(i))] + c[i][1:] for i in sorted(set(sel))])
        s.ref = new
    elif op == 'minratio':
        o.setMinWeightRatio(ev[1])
        m = max(flatw)
        if min(flatw) < m * ev[1]:
            keep(s, [i for i in range(n) if flatw[i] > m * ev[1]])
    elif op == 'reweight':
        add = np.array([0.25 * (i % 4) for i in range(n)])
        o.reweightAddingLogLikes(add)
        w = np.asarray(o.weights)
        exp = np.array(flatw) * np.exp(-add)
        require(w.shape == exp.shape and np.allclose(w / sum(w), exp / sum(exp), rtol=1e-9), 'weights after reweighting %s', w)
        i = 0
        for c in s.ref:
            for r in c:
                r[0] = w[i]
                if s.like:
                    r[1] += add[i]
                i += 1
    elif op == 'derived':
        o.addDerived(o.samples[:, 0] * 2 + 1, 'z')
        s.names.append('z')
        for c in s.ref:
            for r in c:
                r.append(r[2] * 2 + 1)
    elif op == 'delfixed':
        o.deleteFixedParams()
        fixed(s)
    elif op == 'chainfilter':
        k = ev[1]
        m = len(s.ref[k])
        s.obj.chains[k].filter(np.arange(m) != m // 2)
        s.ref[k] = [r for i, r in enumerate(s.ref[k]) if i != m // 2]
    else:
        raise AssertionError(op)


def arr(rows, k):
    return np.array(rows, dtype=float).reshape(len(rows), 2 + k)


def gr_ref(chs, k, nparam):
    cm, cc, tot = [], [], arr([r for c in chs for r in c], k)
    mean = (tot[:, :1] * tot[:, 2:]).sum(0) / tot[:, 0].sum()
    B, W = np.zeros((nparam, nparam)), np.zeros((nparam, nparam))
    for c in chs:
        a = arr(c, k)
        w = a[:, 0]
        x = a[:, 2:2 + nparam]
        m = (w[:, None] * x).sum(0) / w.sum()
        W += ((x - m).T * w).dot(x - m) / w.sum()
        B += np.outer(m - mean[:nparam], m - mean[:nparam])
    W /= len(chs)
    B /= len(chs) - 1
    ev = np.linalg.eigvalsh(W)
    if ev[0] < 1e-8 * max(ev[-1], 1e-8):
        return None
    return scipy.linalg.eigh(B, W, eigvals_only=True)


def same(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-10)


def verify(s):
    o, k = s.obj, len(s.names)
    require(list(o.paramNames.list()) == s.names, 'parameter names %s, expected %s', o.paramNames.list(), s.names)
    exp = arr([r for c in s.ref for r in c], k)
    if s.comb:
        got = np.c_[o.weights, o.samples]
        require(same(got, np.delete(exp, 1, 1)), 'combined samples are %s, expected %s', got.tolist(), exp.tolist())
        if s.like:
            require(same(o.loglikes, exp[:, 1]), 'combined likelihoods are %s, expected %s', o.loglikes, exp[:, 1])
        require(same(o.getMeans(), (exp[:, :1] * exp[:, 2:]).sum(0) / exp[:, 0].sum()), 'means of the combination')
    obj = copy.deepcopy(o)
    chs = obj.getSeparateChains()
    require(len(chs) == len(s.ref), '%s separate chains instead of %s', len(chs), len(s.ref))
    for i, (c, r) in enumerate(zip(chs, s.ref)):
        e = arr(r, k)
        require(same(c.weights, e[:, 0]) and same(c.samples, e[:, 2:]), 'chain %s is %s, but its surviving rows are %s', i,
                np.c_[c.weights, c.samples].tolist(), np.delete(e, 1, 1).tolist())
        if s.like:
            require(same(c.loglikes, e[:, 1]), 'likelihoods of chain %s are %s, expected %s', i, c.loglikes, e[:, 1])
        else:
            require(c.loglikes is None, 'chain %s has got likelihoods', i)
    # recombining gives the same
    again = Chains(names=list(s.names))
    again.chains = [copy.deepcopy(c) for c in chs]
    again.makeSingle()
    require(same(np.c_[again.weights, again.samples], np.delete(exp, 1, 1)), 'recombined samples differ')
    if len(s.ref) > 1 and all(s.ref):
        comb = obj if s.comb else again
        nnd = len([x for x in s.names if x != 'z'])
        for nparam in [None, 1]:
            want = gr_ref(s.ref, k, nparam or nnd) if nnd else None
            if want is not None:
                for cl in (None, chs):
                    got = comb.getGelmanRubinEigenvalues(nparam, cl)
                    require(got is not None and np.allclose(np.sort(got), np.sort(want), rtol=1e-6, atol=1e-9), 'Gelman-Rubin eigenvalues %s, expected %s', got, want)
                require(abs(comb.getGelmanRubin(nparam) - max(want)) < 1e-6 * (1 + max(want)), 'getGelmanRubin')


def build(ctx, config, hist):
    s = start(*config)
    if not hist:
        verify(s)
    for i, ev in enumerate(hist):
        apply(s, ev)
        ctx.step()
        if i == len(hist) - 1:
            verify(s)
    return s


def canon(s):
    return (s.comb, tuple(s.names), tuple(tuple(tuple(round(float(x), 9) for x in r) for r in c) for c in s.ref))


def inits(thorough):
    for cls in 'CM':
        for lengths in LENGTHS:
            for like in (True, False):
                for wk in ('int', 'float'):
                    for how in (['sep', 'combined'] if cls == 'C' else ['combined']):
                        if cls == 'M' and (sum(lengths) < 4 or lengths in ([4, 4], [2, 4, 3])):
                            continue
                        if not thorough and (wk == 'float' and not like or cls == 'M' and wk == 'float'):
                            continue
                        yield [cls, lengths, like, wk, how]


# ------------------------------------------------ convergence tests of MCSamples
def conv_gen(depth):
    ops = ['none', 'mask', 'index', 'burn', 'thin', 'wthin', 'reweight', 'derived', 'minratio']
    for lens in ([20, 24], [21, 18, 30]):
        for seq in itertools.product(ops, repeat=depth):
            if seq.count('derived') > 1:
                continue
            bad = any(o == 'reweight' for o in seq[:-1]) and seq[-1] in ('thin', 'wthin') or 'reweight' in seq[:-1] and ('thin' in seq[1:] or 'wthin' in seq[1:])
            if bad:
                continue
            for prime in (0, 1):
                yield [lens, list(seq), prime]


def conv_check(ctx, case):
    lens, seq, prime = case
    arrs = [np.array([[((37 * c + i * 17) % 41) / 8. - 0.1 * c, ((19 * c + i * 11) % 29) / 7. + 0.02 * ((37 * c + i * 17) % 41)] for i in range(n)]) for c, n in enumerate(lens)]
    ws = [np.array([1. + (i * 7 + c) % 3 for i in range(n)]) for c, n in enumerate(lens)]
    ls = [np.array([0.3 * ((i * 5 + c) % 7) for i in range(n)]) for c, n in enumerate(lens)]
    o = MCSamples(samples=arrs, weights=ws, loglikes=ls, names=['x', 'y'], labels=['X', 'Y'], settings={'ignore_rows': 0})
    ref = [[[ws[c][i], ls[c][i]] + list(arrs[c][i]) for i in range(n)] for c, n in enumerate(lens)]
    s = St()
    s.ref, s.obj, s.comb, s.names, s.like = ref, o, True, ['x', 'y'], True
    tests = ('MeanVar', 'GelmanRubin', 'CorrLengths', 'SplitTest')
    for op in seq:
        if prime and all(len(c) >= 3 for c in s.ref):
            o.getConvergeTests(what=tests)
            o.getNumSampleSummaryText()
        if op == 'none':
            continue
        apply(s, {'mask': ['mask', 0], 'index': ['index'], 'burn': ['burnfrac', 0.3], 'thin': ['thin', 2], 'wthin': ['wthin', 2], 'reweight': ['reweight'],
                  'derived': ['derived'], 'minratio': ['minratio', 0.4]}[op])
        ctx.step()
    k = len(s.names)
    chs = [c for c in s.ref]
    if not all(len(c) >= 3 for c in chs):
        return 'short'
    text = o.getConvergeTests(what=tests)
    tot = arr([r for c in chs for r in c], k)
    W = tot[:, 0].sum()
    mean = (tot[:, :1] * tot[:, 2:]).sum(0) / W
    lines = text.split('\n')
    at = lines.index('param sqrt(var(chain mean)/mean(chain var))')
    for j, nm in enumerate(s.names):
        B = sum(((arr(c, k)[:, 0] * arr(c, k)[:, 2 + j]).sum() / arr(c, k)[:, 0].sum() - mean[j]) ** 2 for c in chs) / (len(chs) - 1)
        V = 0
        for c in chs:
            a = arr(c, k)
            m = (a[:, 0] * a[:, 2 + j]).sum() / a[:, 0].sum()
            V += (a[:, 0] * (a[:, 2 + j] - m) ** 2).sum()
        f = lines[at + 2 + j].split()
        require(f[0] == nm, 'convergence line %s is not for %s', lines[at + 2 + j], nm)
        require(abs(float(f[1]) - np.sqrt(B / (V / W))) < 2e-4, 'mean convergence of %s is %s, the surviving rows of the chains give %s', nm, f[1], np.sqrt(B / (V / W)))
    want = gr_ref(s.ref, k, 2)
    require(abs(o.GelmanRubin - max(want)) < 1e-6 * (1 + max(want)), 'R-1 is %s, the surviving rows of the chains give %s', o.GelmanRubin, max(want))
    # correlation lengths per chain
    at = [i for i, l in enumerate(lines) if 'Weight Length' in l][0]
    maxoff = min(len(c) // 10 for c in chs)
    for j, nm in enumerate(s.names):
        corr = np.zeros(maxoff + 1)
        for c in chs:
            a = arr(c, k)
            m = (a[:, 0] * a[:, 2 + j]).sum() / a[:, 0].sum()
            d = a[:, 0] * (a[:, 2 + j] - m)
            corr += np.array([sum(d[:len(d) - q] * d[q:]) / (len(d) - q) for q in range(maxoff + 1)]) * len(d)
        var = (tot[:, 0] * (tot[:, 2 + j] - mean[j]) ** 2).sum() / W
        corr /= W * var
        below = [q for q in range(len(corr)) if not corr[q] > 0.05 * corr[0]]
        ix = below[0] if below else len(corr)
        if any(abs(q - 0.05 * corr[0]) < 1e-6 for q in corr):
            continue
        N = corr[0] + 2 * sum(corr[1:ix])
        got = float(lines[at + 1 + j].split()[1])
        require(abs(got - N) <= 0.006 * max(1, abs(N)), 'correlation length of %s is %s, expected %s', nm, got, N)
    summ = o.getNumSampleSummaryText()
    require('using %s rows, %s parameters' % (len(tot), k) in summ, 'summary %s', summ)
    require(': %s\n' % round(W / max(tot[:, 0])) in summ, 'summary %s, expected %s single samples', summ, round(W / max(tot[:, 0])))
    return round(float(o.GelmanRubin), 8)



# ---------------------------------------------------------------- loading (again)
def lgen():
    for before in ('', 'separate', 'combined', 'filtered', 'one'):
        for form in ('arrays', 'one', 'files', 'file'):
            for lengths in ([4], [3, 5], [6, 3, 4]):
                if form in ('one', 'file') and len(lengths) > 1:
                    continue
                for own in (0, 1, 2, 0.3, 0.5):
                    for arg in (None, 0, 1, 0.5):
                        for like in (0, 1):
                            yield [before, form, lengths, own, arg, like]


def lcheck(ctx, case):
    before, form, lengths, own, arg, like = case
    o = Chains(names=['p', 'q', 'r'], ignore_rows=own)
    if before:
        a = [np.array([row(c, i) for i in range(n)]) for c, n in enumerate([4, 3])]
        if before == 'one':
            o.loadChains('old', a[0], ignore_lines=0)
        else:
            o.loadChains('old', a, ignore_lines=0)
            if before != 'separate':
                o.makeSingle()
                o.getMeans(), o.getCov()
                if before == 'filtered':
                    o.filter(np.arange(7) % 3 != 1)
    arrs = [np.array([row(c + 2, i) for i in range(n)]) for c, n in enumerate(lengths)]
    ws = [np.array([1.0 + (i + c) % 3 for i in range(n)]) for c, n in enumerate(lengths)]
    ls = [np.array([2 + 0.5 * i for i in range(n)]) for n in lengths]
    if form in ('files', 'file'):
        names = []
        for c, a in enumerate(arrs):
            names.append('%s/c_%d.txt' % (ctx.scratch, c + 1))
            np.savetxt(names[-1], np.c_[ws[c], ls[c], a], fmt='%.17g')
        o.loadChains('root', names if form == 'files' else names[0], ignore_lines=arg)
        like = 1
    elif form == 'one':
        o.loadChains('root', arrs[0], weights=ws[0], loglikes=ls[0] if like else None, ignore_lines=arg)
    else:
        o.loadChains('root', arrs, weights=ws, loglikes=ls if like else None, ignore_lines=arg)
    ctx.step()
    ig = own if arg is None else arg
    k = [int(ig) if ig >= 1 else int(round(n * ig)) for n in lengths]
    require((o.chains is None) == (form == 'one'), 'separate chains: %s', o.chains)
    if form == 'one':
        try:
            o.getSeparateChains()
            raise AssertionError
        except AssertionError:
            require(False, 'chains of earlier samples separate the new ones')
        except Exception:
            pass
        got = [o]
    else:
        got = o.getSeparateChains()
    require(len(got) == len(lengths), '%s chains', len(got))
    for j, g in enumerate(got):
        require(np.array_equal(g.samples, arrs[j][k[j]:]) and np.array_equal(g.weights, ws[j][k[j]:]) and (np.array_equal(g.loglikes, ls[j][k[j]:]) if like else g.loglikes is None),
                'chain %s has rows %s, should start at row %s of %s', j, g.samples, k[j], arrs[j])
    if form != 'one':
        o.makeSingle()
    x, w = np.vstack([a[b:] for a, b in zip(arrs, k)]), np.hstack([a[b:] for a, b in zip(ws, k)])
    require(np.array_equal(o.samples, x) and o.norm == sum(w) and np.allclose(o.getMeans(), w.dot(x) / sum(w), rtol=1e-10), 'combined samples %s', o.samples)
    return repr(case)


def scenarios(tier):
    th = tier == 'thorough'
    return [Enum('load', lgen, lcheck), Bfs('chains', lambda: list(inits(th)), build, events, canon, 4 if th else 3),
            Enum('converge', lambda: conv_gen(3 if th else 2), conv_check)]
