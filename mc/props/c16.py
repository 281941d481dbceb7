"""Result files: margestats, likestats, minimum, converge; tables."""
import itertools
import logging
import os

import numpy as np
from mc.core import Enum, require
from getdist import MCSamples, chains, loadMCSamples
from getdist.paramnames import ParamInfo, ParamNames
from getdist import loadMCSamples
from getdist.types import MargeStats, LikeStats, BestFit, ConvergeStats, ParamLimit, ResultTable, NumberFormatter, TableFormatter, OpenTableFormatter, NoLineTableFormatter

logging.disable(logging.CRITICAL)
chains.print_load_details = False
np.seterr(all='ignore')

PROPERTY = 'C16'
LEVEL = 'model_checking'
RULE = ('marge: every combination of 1-3 parameters over name/label/derived forms x limit types x number of contours x value scales written and read back; like: every combination of likelihood values; '
        'minimum: every combination of parameter blocks, fixed parameters and likelihood lists in the CosmoMC format, read with and without fixed parameters; '
        'tables: every column count x parameter subset x formatter x limit x best fit x reference for objects and for the same results read from files; samples: files written from samples over chain counts and labels; bestfit: best-fit tables and lookups over extra and missing parameters; missing: every pattern of parameters missing from each of the results of a table')
ASSUMPTIONS = ['values have two-digit exponents', 'labels contain no # or !, and are given in .minimum files']

FORMS = [['a', 'A', False], ['omegabh2', '\\Omega_b h^2', True], ['x_1', '', False], ['p.q', 'x y', True], ['a_rather_long_parameter_name', '', True]]
FORMS += [['f%d' % i, 'F_{%d}' % i, i % 2 == 0] for i in range(6, 12)]
TAGS = ['two', '>', '<', 'none']
SCALES = [1., -1e-5, 1e8]


def r8(x):
    return float('%15.7E' % x)


def mk(forms, tags, ncont, scale):
    m = MargeStats()
    m.limits = np.array([0.68, 0.95, 0.99][:ncont])
    m.hasBestFit = False
    for i, (k, t) in enumerate(zip(forms, tags)):
        n, l, d = FORMS[k]
        p = ParamInfo(name=n, derived=d)
        p.label = l
        p.mean, p.err = scale * (1.23456789 + i), abs(scale) * 0.123456789 * (i + 1)
        p.limits = [ParamLimit([p.mean - p.err * (j + 1), p.mean + p.err * (j + 1.5)], TAGS[(t + j) % 4]) for j in range(ncont)]
        m.names.append(p)
    return m


def view(m):
    return [[p.name, p.label, bool(p.isDerived), r8(p.mean), r8(p.err), [[r8(l.lower), r8(l.upper), l.limitTag(), l.limitType(), l.twotail, l.onetail_upper, l.onetail_lower] for l in p.limits]] for p in m.names]


TYPE = {'two': 'two tail', '>': 'one tail upper limit', '<': 'one tail lower limit', 'none': 'none'}


def marge_gen():
    for n in (1, 2, 3):
        for forms in itertools.permutations(range(5), n):
            for t in itertools.product(range(4), repeat=min(n, 2)):
                for ncont in (1, 2, 3):
                    for s in range(len(SCALES)):
                        if n == 3 and (ncont != 2 or t[0] == t[1]):
                            continue
                        yield [list(forms), (list(t) * 2)[:n], ncont, s]


def marge_check(ctx, case):
    forms, tags, ncont, s = case
    m = mk(forms, tags, ncont, SCALES[s])
    for p, k, t in zip(m.names, forms, tags):
        for j, l in enumerate(p.limits):
            tag = TAGS[(t + j) % 4]
            require(l.limitTag() == tag and l.limitType() == TYPE[tag] and [l.twotail, l.onetail_upper, l.onetail_lower] == [tag == 'two', tag == '>', tag == '<'], 'limit type %s', tag)
    fn = os.path.join(ctx.scratch, 'm.margestats')
    m.saveAsText(fn)
    q = MargeStats(fn)
    require(view(q) == view(m), 'read back %s, written %s', view(q), view(m))
    require(list(q.limits) == list(m.limits) and q.hasBestFit is False, 'limits read back %s', q.limits)
    q.saveAsText(fn + '2')
    with open(fn) as f, open(fn + '2') as g:
        require(f.read() == g.read(), 'second generation file differs')
    for lim in range(1, ncont + 1):
        require(q.limitText(lim) == m.limitText(lim) == ['68', '95', '99'][lim - 1], 'limit text %s', q.limitText(lim))
        f = NoLineTableFormatter()
        for p in m.names:
            a, b = m.texValues(f, p, limit=lim), q.texValues(f, p.name, limit=lim)
            require(a == b and len(a) == 1, 'tex values %s from file, %s from results', b, a)
        require(m.texValues(f, ParamInfo(name='zz'), limit=lim) is None, 'absent parameter')
    ctx.step()
    return repr(view(q))


# -------------------------------------------------------------- likelihood statistics
def like_gen():
    vals = [0.5, 1234.567891, -3.25, 1e-3]
    for a, b, c in itertools.product(vals, repeat=3):
        for inv in (None, 2.5, -1.5):
            for n in (0, 1, 2):
                yield [a, b, c, inv, n]


def like_check(ctx, case):
    a, b, c, inv, n = case
    m = LikeStats()
    m.logLike_sample, m.meanLogLike, m.logMeanLike, m.logMeanInvLike = a, b, c, inv
    for k in range(n):
        p = ParamInfo(name=FORMS[k + 1][0], derived=FORMS[k + 1][2])
        p.label = FORMS[k + 1][1]
        p.bestfit_sample, p.ND_limit_bot, p.ND_limit_top = 1.5, [0.5, 0.25], [2.5, 3.5]
        m.names.append(p)
    fn = os.path.join(ctx.scratch, 'm.likestats')
    if n:
        m.saveAsText(fn)
    else:
        with open(fn, 'w') as f:
            f.write(m.likeSummary())
    q = LikeStats(fn)
    for at in ('logLike_sample', 'meanLogLike', 'logMeanLike', 'logMeanInvLike'):
        x, y = getattr(m, at), getattr(q, at)
        require((x is None) == (y is None) and (x is None or abs(x - y) <= 0.51e-6), '%s written %s read %s', at, x, y)
    ctx.step()
    return repr(case)


# -------------------------------------------------------------- minimum files
LIKES = [[], [('CMB', 'plik', None, 801.5)], [('CMB', 'plik', None, 801.5), ('BAO', '6DF', None, 0.25), ('CMB', 'lowl', None, 10543.517), ('', 'prior', None, 4.5)], [('Lensing', 'smica', 'len', 9.5)], [('CMB', 'a', None, 1.5), ('CMBpol', 'b:c', None, 2.5), ('MB', 'd', 't', 3.5)]]


def min_gen():
    for np_ in (1, 2, 3):
        for nf in (0, 1, 2):
            for nd in (0, 1, 2):
                for lk in range(len(LIKES)):
                    for chi in (0, 1):
                        for w in (0, 1):
                            yield [np_, nf, nd, lk, chi, w]


def min_write(fn, case):
    np_, nf, nd, lk, chi, w = case
    blocks, num = [], 1
    for kind, n in (('p', np_), ('f', nf), ('d', nd)):
        b = []
        for i in range(n):
            v = (-1) ** num * 1.25 ** num * 10. ** (num % 3)
            b.append([num, v, '%s%d' % (kind, i), ['\\Omega_b h^2', 'H_0', 'x y z'][num % 3]])
            num += 1
        blocks.append(b)
    lines = []
    if w:
        lines.append(' weight    =    2.5')
    lines.append(' -log(Like) =    5672.84424605145     ')
    if chi:
        lines.append('  chi-sq    =    11345.6884921029     ')
    for b in blocks:
        lines.append(' ')
        for n, v, name, label in b:
            lines.append('%5d%15.7E   %-22s%s' % (n, v, name, label))
    lines.append(' ')
    if LIKES[lk]:
        lines.append(' -log(Like)     chi-sq   data')
        for kind, name, tag, c in LIKES[lk]:
            lines.append('%11.3f%11.3f   %s%s' % (c / 2, c, kind + ': ' if kind else '', (tag + ' = ' if tag else '') + name))
    with open(fn, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    return blocks


def min_check(ctx, case):
    fn = os.path.join(ctx.scratch, 'x.minimum')
    blocks = min_write(fn, case)
    for want in (False, True):
        b = BestFit(fn, want_fixed=want)
        exp = []
        for bi, bl in enumerate(blocks):
            if bi != 1 or want:
                exp += [[n, r8(v), name, label, bi == 1, bi > 0] for n, v, name, label in bl]
        got = [[p.number, p.best_fit, p.name, p.label, p.isFixed, p.isDerived] for p in b.names]
        require([g[:5] for g in got] == [e[:5] for e in exp], 'read %s, expected %s', got, exp)
        require([g[5] for g in got if not g[4]] == [e[5] for e in exp if not e[4]], 'derived flags')
        require(b.logLike == 5672.84424605145, 'likelihood %s', b.logLike)
        if case[5]:
            require(b.weight == 2.5, 'weight')
        lk = LIKES[case[3]]
        require([(k, c.name, c.tag, c.chisq) for k, c in b.chiSquareds] == [(k, n, t, round(c, 3)) for k, n, t, c in lk], 'likelihoods %s', [(k, c.name, c.chisq) for k, c in b.chiSquareds])
        for k, n, t, c in lk:
            require(b.chiSquareForKindName(k, n) == round(c, 3), 'chi square of %s', n)
        require(b.chiSquareForKindName('CMB', 'nope') is None, 'unknown likelihood')
        for k in ('CMB', 'CMBpol', 'MB', 'C', ''):
            for n in ('plik', 'a', 'b:c', 'd', 'b'):
                require(b.chiSquareForKindName(k, n) == ([round(x[3], 3) for x in lk if x[0] == k and x[1] == n] + [None])[0], 'chi square of %s %s', k, n)
        require([k for k, _ in b.sortedChiSquareds()] == sorted(set(x[0] for x in lk)) and [[c.name for c in v] for _, v in b.sortedChiSquareds()] == [[x[1] for x in lk if x[0] == k] for k in sorted(set(x[0] for x in lk))], 'sorted likelihoods')
        d = b.getParamDict()
        require({k: v for k, v in d.items() if k not in ('weight', 'loglike')} == {e[2]: e[1] for e in exp} and d['loglike'] == b.logLike, 'parameter dictionary %s', d)
        nd = b.getParamDict(include_derived=False)
        require({k for k in nd if k not in ('weight', 'loglike')} == {p.name for p in b.names if not p.isDerived}, 'dictionary without derived')
    ref = ParamNames()
    ref.names = [ParamInfo(name='p0', label='New'), ParamInfo(name='none', label='X')]
    require(BestFit(fn, setParamNameFile=ref).parWithName('p0').label == 'New', 'labels from another list')
    # tables of best fits
    b = BestFit(fn)
    t = ResultTable(1, [b])
    check_table(t, 1, [[p.getLabel(), not p.isDerived, [NumberFormatter().formatNumber(p.best_fit)]] for p in b.names])
    ctx.step()
    return repr(case)


# -------------------------------------------------------------- tables
def cells(line):
    require(line.endswith('\\\\'), 'row %s', line)
    return [c.strip() for c in line[:-2].split('&')]


def body(t):
    return [l for l in t.lines if '&' in l and '\\multicolumn' not in l]


def check_table(t, ncol, rows):
    """rows: [label, bold, [column texts]] in order; laid out down the first column first"""
    got = body(t)
    nrow = -(-len(rows) // ncol)
    require(len(got) == nrow + 1, 'table has %s rows, expected %s plus a header', len(got) - 1, nrow)
    per = 1 + len(rows[0][2])
    for i, line in enumerate(got[1:]):
        c = cells(line)
        require(len(c) == per * ncol, 'row has %s columns, expected %s: %s', len(c), per * ncol, line)
        for col in range(ncol):
            k = i + col * nrow
            block = c[col * per:(col + 1) * per]
            if k >= len(rows):
                require(not any(block), 'unexpected entry %s', block)
                continue
            label, bold, vals = rows[k]
            lab = block[0]
            require(lab.startswith('{\\boldmath') == bold, 'label %s', lab)
            if bold:
                lab = lab[len('{\\boldmath'):-1]
            require(lab.strip('$ ') == label.strip(), 'label %s, expected %s', lab, label)
            require([b.strip('$').strip() for b in block[1:]] == vals, 'row for %s has %s, expected %s', label, block[1:], vals)


def table_gen():
    for npar in range(1, 11):
        for ncol in (1, 2, 3, 4):
            if ncol > npar or ncol > 3 and npar < 6:
                continue
            for limit in (1, 2):
                for fmt in range(3):
                    for sel in ('all', 'list', 'names'):
                        for bf in (0, 1):
                            for nres in (1, 2):
                                for ref in (None, 'plain', 'indep', 'subset', 'both'):
                                    if npar < 6 or not (ref or fmt) and (bf or limit == 1):
                                        yield [npar, ncol, limit, fmt, sel, bf, nres, ref]


def table_check(ctx, case):
    npar, ncol, limit, fmt, sel, bf, nres, ref = case
    tags = ([0, 1, 2, 3, 0] * 2)[:npar]
    res = [mk(list(range(npar)), tags, 2, 1.), mk(list(range(npar)), [0] * npar, 2, 2.5)][:nres]
    refm = mk(list(range(npar)), [0] * npar, 2, 0.75)
    fn = os.path.join(ctx.scratch, 't.margestats')
    files = []
    for m in res + [refm]:
        m.saveAsText(fn)
        files.append(MargeStats(fn))
    if bf:
        best = BestFit()
        best.logLike = 3.5
        for i in range(npar):
            p = ParamInfo(name=FORMS[i][0], derived=FORMS[i][2])
            p.best_fit = 1.3 + i
            best.names.append(p)
        for m in res + files[:-1]:
            m.addBestFit(best)
            require(m.hasBestFit and m.logLike == 3.5 and [p.best_fit for p in m.names] == [1.3 + i for i in range(npar)], 'best fit values')
    kw = dict(limit=limit)
    order = list(range(npar))
    if sel == 'list':
        order = order[::2]
        kw['paramList'] = [FORMS[i][0] for i in order][::-1]
    elif sel == 'names':
        order = order[::-1]
        pn = ParamNames()
        pn.names = [ParamInfo(name=FORMS[i][0], label=FORMS[i][1], derived=FORMS[i][2]) for i in order]
        kw['tableParamNames'] = pn
    if ncol > len(order):
        return None
    if ref:
        kw.update(refResults=refm, shiftSigma_indep=ref in ('indep', 'both'), shiftSigma_subset=ref in ('subset', 'both'))
    texts = []
    for source, rr in (('objects', res), ('files', files[:-1])):
        if ref:
            kw['refResults'] = refm if source == 'objects' else files[-1]
        nf = NumberFormatter(sig_figs=5, err_sf=3) if fmt == 2 else None
        f = [NoLineTableFormatter, TableFormatter, OpenTableFormatter][fmt]()
        t = ResultTable(ncol, rr, formatter=f, numFormatter=nf, titles=['T%d' % i for i in range(nres)] if fmt else None, **kw)
        f2 = NoLineTableFormatter()
        if nf:
            f2.numberFormatter = nf
        rows = []
        for i in order:
            vals = []
            for m in rr:
                v = m.texValues(f2, FORMS[i][0], limit=limit)
                base, bfv = v[0], v[1:]
                p = m.parWithName(FORMS[i][0])
                if ref and base != f2.noConstraint:
                    q = kw['refResults'].parWithName(FORMS[i][0])
                    d = p.mean - q.mean
                    if ref == 'plain':
                        base += '\\quad(%+.1f \\sigma)' % (d / q.err)
                    elif ref == 'indep':
                        base += '\\quad(%+.1f \\sigma_i)' % (d / np.sqrt(p.err ** 2 + q.err ** 2))
                    else:
                        base += '\\quad(%+.1f \\sigma_s' % (d / max(np.sqrt(abs(p.err ** 2 - q.err ** 2)), q.err / 20)) + (', %+.1f \\sigma_i' % (d / np.sqrt(p.err ** 2 + q.err ** 2)) if ref == 'both' else '') + ')'
                vals += list(bfv) + [base]
            rows.append([rr[0].parWithName(FORMS[i][0]).getLabel() if sel != 'names' else FORMS[i][1] or FORMS[i][0], not FORMS[i][2], vals])
        check_table(t, ncol, rows)
        head = cells(body(t)[0])
        lab = ([] if not bf else ['Best fit']) + ['68\\% limits' if limit == 1 else '95\\% limits']
        require(head == (['Parameter'] + lab * nres) * ncol, 'header %s', head)
        t.write(fn + '.tex')
        with open(fn + '.tex', encoding='utf-8') as fh:
            require(fh.read() == t.tableTex() == '\n'.join(t.lines), 'table file')
        doc = t.tableTex(document=True)
        require(t.tableTex() in doc and doc.startswith('\\documentclass') and doc.rstrip().endswith('\\end{document}'), 'document')
        texts.append(t.tableTex())
    require(texts[0] == texts[1], 'tables from results and from their files differ:\n%s\n%s', *texts)
    ctx.step()
    return hash(texts[0])


# -------------------------------------------------------------- tables with missing parameters and other contours
def miss_gen():
    for nres in (1, 2, 3):
        for npar in (1, 2, 3):
            for masks in itertools.product(range(1 << npar), repeat=nres):
                for bf in (0, 1):
                    for ncol in (1, 2):
                        if ncol <= npar:
                            yield [nres, npar, list(masks), bf, ncol]


CONTS = [[0.29, 0.57], [0.68, 0.95], [0.6827, 0.9545], [0.55, 0.99]]


def miss_check(ctx, case):
    """a parameter that some results do not have leaves blank columns there, and the other results in their own columns"""
    nres, npar, masks, bf, ncol = case
    pn = ParamNames()
    pn.names = [ParamInfo(name=FORMS[i][0], label=FORMS[i][1], derived=FORMS[i][2]) for i in range(npar)]
    res = []
    conts = CONTS[(sum(masks) + nres) % 4]
    for r in range(nres):
        m = mk([i for i in range(npar) if masks[r] >> i & 1], [0] * npar, 2, 1. + r)
        m.limits = np.array(conts)
        if bf:
            best = BestFit()
            best.logLike = 3.5
            for i in range(npar):
                p = ParamInfo(name=FORMS[i][0], derived=FORMS[i][2])
                p.best_fit = 1.3 + i + r
                best.names.append(p)
            m.addBestFit(best)
        res.append(m)
    for limit in (1, 2):
        t = ResultTable(ncol, res, limit=limit, tableParamNames=pn)
        f = NoLineTableFormatter()
        rows = []
        for i in range(npar):
            vals = []
            for r, m in enumerate(res):
                v = m.texValues(f, FORMS[i][0], limit=limit)
                require((v is None) == (not masks[r] >> i & 1), 'values of %s: %s', FORMS[i][0], v)
                vals += [''] * (1 + bf) if v is None else list(v[1:]) + [v[0]]
            rows.append([FORMS[i][1] or FORMS[i][0], not FORMS[i][2], vals])
        check_table(t, ncol, rows)
        require(cells(body(t)[0]) == (['Parameter'] + (['Best fit'] * bf + ['%s\\%% limits' % int(round(conts[limit - 1] * 100))]) * nres) * ncol, 'header %s', body(t)[0])
        ctx.step()
    return hash(t.tableTex())


# -------------------------------------------------------------- from samples
def smp_gen():
    for nch in (1, 2, 3):
        for lab in (0, 1):
            for der in (0, 1):
                for scale in (1., 1e-4, 1e5):
                    yield [nch, lab, der, scale]


def smp_check(ctx, case):
    nch, lab, der, scale = case
    arrs = [np.array([[scale * (((i * 7 + c) % 31) + 0.37 * ((i * 5 + 2 * c) % 17)), ((i * 11 + c) % 23) - 0.2 * (i % 3), 1. + ((i * 3 + c) % 13)] for i in range(60)]) for c in range(nch)]
    names = ['a', 'bb', 'c' + '*' * der]
    s = MCSamples(samples=arrs, weights=[np.array([1. + (i % 3) for i in range(60)])] * nch, loglikes=[np.array([2.5 + (i % 9) for i in range(60)])] * nch, names=names, labels=['A', 'B b', 'C'] if lab else None,
                  settings={'ignore_rows': 0, 'corr_length_thin': 2, 'corr_length_steps': 4})
    root = os.path.join(ctx.scratch, 's')
    m = s.getMargeStats()
    m.saveAsText(root + '.margestats')
    q = MargeStats(root + '.margestats')
    require(view(q) == view(m), 'marginalized statistics read back %s, written %s', view(q), view(m))
    require(s.getTable(limit=1).tableTex() == ResultTable(1, [q], limit=1).tableTex(), 'tables differ')
    ls = s.getLikeStats()
    ls.saveAsText(root + '.likestats')
    r = LikeStats(root + '.likestats')
    for at in ('logLike_sample', 'meanLogLike', 'logMeanLike', 'logMeanInvLike'):
        require(abs(getattr(ls, at) - getattr(r, at)) < 0.51e-6, at)
    what = ('MeanVar', 'GelmanRubin', 'SplitTest', 'CorrLengths', 'CorrSteps')
    txt = s.getConvergeTests(writeDataToFile=True, filename=root + '.converge', what=what)
    with open(root + '.converge', encoding='utf-8') as f:
        require(f.read() == txt, 'converge file')
    c = ConvergeStats(root + '.converge')
    if nch > 1:
        D = sorted(s.getGelmanRubinEigenvalues())
        require([float(x) for x in c.R_eigs] == [round(x, 5) for x in D], 'eigenvalues read %s, expected %s', c.R_eigs, D)
        require(float(c.worstR()) == round(s.getGelmanRubin(), 5), 'worst %s', c.worstR())
    else:
        require(c.R_eigs == [], 'eigenvalues of a single chain')
    require(c.auto_correlation_steps == [2, 4, 6, 8], 'steps %s', c.auto_correlation_steps)
    require(c.auto_correlation_pars == ['a', 'bb', 'c'], 'parameters %s', c.auto_correlation_pars)
    require(all(len(x) == 4 for x in c.auto_correlations), 'correlations %s', c.auto_correlations)
    w = np.array([1. + (i % 3) for i in range(60)])
    from mc.props.c06 import thin_ref
    for j in range(3):
        X = np.vstack(arrs)[:, j]
        W = np.concatenate([w] * nch)
        mean = np.dot(W, X) / W.sum()
        var = np.dot(W, (X - mean) ** 2) / W.sum()
        for k in range(4):
            tot = 0
            for a in arrs:
                ix = thin_ref([int(z) for z in w], 2)
                d = (a[:, j] - np.dot(w, a[:, j]) / w.sum())[ix]
                off = k + 1
                tot += np.dot(d[off:], d[:-off]) / (len(ix) - off) / var
            require(abs(c.auto_correlations[j][k] - tot / nch) < 0.00051, 'auto-correlation of %s at %s: %s, expected %s', names[j], k, c.auto_correlations[j][k], tot / nch)
    ctx.step()
    return hash(txt)


# -------------------------------------------------------------- best fits of samples
def bf_gen():
    for have in range(4):
        for post in (True, False):
            for der in (True, False):
                for fix in (True, False):
                    yield [have, post, der, fix]


def bf_check(ctx, case):
    have, post, der, fix = case
    from getdist.mcsamples import MCSamplesError
    root = os.path.join(ctx.scratch, 'bf.v1')
    x = np.array([[((i * 7) % 31) + 0.37 * ((i * 5) % 17), ((i * 11) % 23) - 0.2 * (i % 3)] for i in range(60)])
    np.savetxt(root + '.txt', np.c_[np.ones(60), np.arange(60) % 9 + 2.5, x])
    with open(root + '.paramnames', 'w') as f:
        f.write('p0 A\nd0* B\n')
    with open(root + '.ranges', 'w') as f:
        f.write('p0 N N\nfix 3.5 3.5\n')
    vals = {}
    for k, (ext, v) in enumerate((('.minimum', 1.25), ('.bestfit', 7.5))):
        if os.path.exists(root + ext):
            os.remove(root + ext)
        if have >> k & 1:
            with open(root + ext, 'w') as f:
                f.write(' -log(Like) =    %s\n  chi-sq    =    %s\n\n    1  %.7E   p0                    A\n\n    2  %.7E   fix                   F\n\n    3  %.7E   d0                    B\n' % (v * 10, v * 20, v, 3.5, v + 1))
            vals[k == 0] = v
    s = loadMCSamples(root, settings={'ignore_rows': 0}, no_cache=True)
    ctx.step()
    try:
        b = s.getBestFit(max_posterior=post)
    except MCSamplesError:
        require(post not in vals, 'best fit not found')
    else:
        require(post in vals, 'best fit given from the file of the other kind')
        require(b.parWithName('p0').best_fit == vals[post] and abs(b.logLike - vals[post] * 10) < 1e-9, 'best fit read from the wrong file: %s', b.parWithName('p0').best_fit)
        d = s.getParamBestFitDict(max_posterior=post, want_derived=der, want_fixed=fix)
        exp = {'p0': vals[post]}
        if der:
            exp['d0'] = vals[post] + 1
        if fix:
            exp['fix'] = 3.5
        require({k: v for k, v in d.items() if k not in ('weight', 'loglike')} == exp, 'best-fit dictionary %s, expected %s', d, exp)
    try:
        m = s.getMargeStats(include_bestfit=True)
    except MCSamplesError:
        require(True not in vals, 'best fit not found')
    else:
        require(True in vals and m.hasBestFit and m.parWithName('p0').best_fit == vals[True] and m.parWithName('d0').best_fit == vals[True] + 1 and abs(m.logLike - 10 * vals[True]) < 1e-9, 'best fit in the statistics')
    return repr(case)


def scenarios(tier):
    return [Enum('marge', marge_gen, marge_check), Enum('like', like_gen, like_check), Enum('minimum', min_gen, min_check), Enum('tables', table_gen, table_check), Enum('missing', miss_gen, miss_check), Enum('samples', smp_gen, smp_check), Enum('bestfit', bf_gen, bf_check)]
