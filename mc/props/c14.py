"""Covariance matrices by parameter name."""
import contextlib
import io
import itertools
import logging
import os
import runpy
import shutil
import sys

import numpy as np
from mc.core import Enum, require
from getdist import MCSamples, chains
from getdist.covmat import CovMat

logging.disable(logging.CRITICAL)
chains.print_load_details = False
np.seterr(all='ignore')

PROPERTY = 'C14'
LEVEL = 'model_checking'
RULE = ('merge: every ordered pair of ordered subsets of 4 parameter names (also three-way for up to 3 names), directly and through the command-line tool, against a dictionary of parameter pairs; '
        'scale: every ordered subset x every sequence of two rescalings (including absent parameters), save/load round trip, correlations and the command-line tool; '
        'samples: every derived/non-derived pattern and order of 4 parameters, covariance taken from samples and written to file')
ASSUMPTIONS = ['files hold 8 significant digits']

NAMES = ['a', 'b', 'ab', 'c']
REPO = os.environ['MC_REPO']
IDX = {n: i for i, n in enumerate(NAMES)}


def entry(which, p, q):
    i, j = sorted([IDX[p], IDX[q]])
    base = 1.5 + 0.25 * i + 0.03125 * j
    if p == q:
        return (3 + i) * 2. ** which * (1e-4 if p == 'b' else 1)
    return (-1) ** (i + j + which) * base * 0.25 * (1e-3 if 'b' in (p, q) else 1) * (which + 1)


def make(which, names):
    return CovMat(matrix=np.array([[entry(which, p, q) for q in names] for p in names]), paramNames=list(names))


def subsets(maxn=4, minn=1, names=NAMES):
    for n in range(minn, maxn + 1):
        for s in itertools.permutations(names, n):
            yield list(s)


def as_dict(c):
    m = np.asarray(c.matrix)
    n = len(c.paramNames)
    require(m.shape == (n, n) and c.size == n, 'matrix of shape %s and size %s for %s', m.shape, c.size, c.paramNames)
    require(len(set(c.paramNames)) == n, 'repeated names %s', c.paramNames)
    return {(p, q): m[i, j] for i, p in enumerate(c.paramNames) for j, q in enumerate(c.paramNames)}


def close(got, exp, what):
    require(sorted(got) == sorted(exp), '%s: parameters %s, expected %s', what, sorted(got), sorted(exp))
    for k in exp:
        require(abs(got[k] - exp[k]) <= 1e-7 * abs(exp[k]), '%s: element %s is %s, expected %s', what, k, got[k], exp[k])


def ref_merge(mats):
    """mats: list of (names, dict); an earlier input has priority for every pair it has"""
    order, res = mats[0]
    for names, d in mats[1:]:
        new = order + [n for n in names if n not in order]
        res = {(p, q): res[p, q] if (p, q) in res else d.get((p, q), 0.) for p in new for q in new}
        order = new
    return order, res


def check_corr(c, d):
    m = c.correlation()
    require(m.shape == (len(c.paramNames),) * 2, 'correlation shape')
    for i, p in enumerate(c.paramNames):
        for j, q in enumerate(c.paramNames):
            e = d[p, q] / np.sqrt(d[p, p] * d[q, q])
            require(abs(m[i, j] - e) < 1e-6, 'correlation of %s and %s is %s, expected %s', p, q, m[i, j], e)
    require(np.allclose(m, m.T, atol=1e-12) and np.allclose(np.diag(m), 1, atol=1e-12), 'correlation is not symmetric with unit diagonal')


def merge_gen(th):
    for a in subsets(4 if th else 3):
        for b in subsets():
            yield [a, b]
    for a in subsets(2):
        for b in subsets(2):
            for c in subsets(2):
                yield [a, b, c]


def merge_check(ctx, case):
    mats = [make(k, names) for k, names in enumerate(case)]
    before = [(m.matrix.copy(), list(m.paramNames)) for m in mats]
    dicts = [(list(m.paramNames), as_dict(m)) for m in mats]
    c = mats[0]
    for m in mats[1:]:
        c = c.mergeCovmatWhereNew(m)
    order, exp = ref_merge(dicts)
    close(as_dict(c), exp, 'merged')
    require(list(c.paramNames) == order, 'order of merged parameters %s, expected %s', c.paramNames, order)
    check_corr(c, exp)
    close(as_dict(c), exp, 'merged, after getting correlations')
    c.rescaleParameter(order[0], 3.)
    for m, (mat, names) in zip(mats, before):
        require(np.array_equal(m.matrix, mat) and m.paramNames == names and m.size == len(names), 'an input matrix was changed')
    # file and tool
    if len(case) == 3 or case[1] == sorted(case[1]):
        files = []
        for k, m in enumerate(mats):
            fn = os.path.join(ctx.scratch, 'in%d.covmat' % k)
            m.saveToFile(fn)
            files.append(fn)
        out = os.path.join(ctx.scratch, 'out.covmat')
        old = [open(f).read() for f in files]
        run_tool('covcomb.py', [out] + files)
        require([open(f).read() for f in files] == old, 'an input file was changed')
        t = CovMat(out)
        close(as_dict(t), exp, 'merged by the tool')
        require(list(t.paramNames) == order, 'order in file')
    ctx.step()
    return repr((order, sorted(exp.items())))


def run_tool(name, args):
    argv = sys.argv
    sys.argv = [name] + args
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            runpy.run_path(os.path.join(REPO, 'python', 'getdist', name), run_name='__main__')
    finally:
        sys.argv = argv


def scale_gen():
    for a in subsets():
        for p, q in itertools.product(NAMES + ['no'], repeat=2):
            yield [a, p, q]


def scale_check(ctx, case):
    a, p, q = case
    c = make(0, a)
    exp = as_dict(c)

    def sc(d, name, f):
        return {(x, y): v * (f if x == name else 1) * (f if y == name else 1) for (x, y), v in d.items()}

    fn = os.path.join(ctx.scratch, 'x.covmat')
    with contextlib.redirect_stdout(io.StringIO()):
        c.rescaleParameter(p, 2.5)
        exp = sc(exp, p, 2.5)
        close(as_dict(c), exp, 'rescaled')
        c.saveToFile(fn)
        d = CovMat(fn)
        require(list(d.paramNames) == a, 'names in file %s', d.paramNames)
        close(as_dict(d), exp, 'read back')
        lines = open(fn).read().splitlines()
        for head in ('#' + ' '.join(a), ' #  ' + '\t'.join(a) + ' '):
            with open(fn, 'w') as f:
                f.write('\n'.join([head] + lines[1:]))
            h = CovMat(fn)
            require(list(h.paramNames) == a, 'names in a file with header %r: %s', head, h.paramNames)
            close(as_dict(h), exp, 'read back')
        d.rescaleParameter(q, -1e3)
        exp2 = sc(exp, q, -1e3)
        close(as_dict(d), exp2, 'rescaled after reading')
        close(as_dict(c), exp, 'the original')
    require(d.paramNameString() == ' '.join(a), 'names')
    check_corr(d, exp2)
    check_corr(CovMat(fn), exp)
    din, dout = os.path.join(ctx.scratch, 'cin'), os.path.join(ctx.scratch, 'cout')
    for z in (din, dout):
        shutil.rmtree(z, ignore_errors=True)
    os.makedirs(din)
    for n, k in (('one', 0), ('two', 1)):
        make(k, a).saveToFile(os.path.join(din, n + '.covmat'))
    with open(os.path.join(din, 'readme'), 'w') as f:
        f.write('x')
    old = {f: open(os.path.join(din, f)).read() for f in os.listdir(din)}
    run_tool('covscale.py', [din, dout, p + ':' + q, '2.5:4'])
    require(sorted(os.listdir(dout)) == ['one.covmat', 'two.covmat'], 'files written: %s', os.listdir(dout))
    require({f: open(os.path.join(din, f)).read() for f in os.listdir(din)} == old, 'the input directory was changed')
    for n, k in (('one', 0), ('two', 1)):
        close(as_dict(CovMat(os.path.join(dout, n + '.covmat'))), sc(sc(as_dict(make(k, a)), p, 2.5), q, 4.), 'rescaled by the tool')
    ctx.step()
    return repr(sorted(exp2.items()))


def samples_gen():
    for names in subsets(4, 1):
        for der in itertools.product([0, 1], repeat=len(names)):
            if not all(der):
                yield [names, list(der)]


def samples_check(ctx, case):
    names, der = case
    n = 7
    cols = {p: np.array([((i * (2 * k + 3) + k) % 7) * 1.25 + 0.5 * (i % (k + 2)) for i in range(n)]) for k, p in enumerate(NAMES)}
    w = np.array([1., 2, 1, 3, 1, 2, 5])
    x = np.array([cols[p] for p in names]).T
    s = MCSamples(samples=x, weights=w, names=[p + '*' * d for p, d in zip(names, der)], settings={'ignore_rows': 0})

    def cov(p, q):
        a, b = cols[p] - np.dot(w, cols[p]) / w.sum(), cols[q] - np.dot(w, cols[q]) / w.sum()
        return np.dot(w, a * b) / w.sum()

    run = [p for p, d in zip(names, der) if not d]
    exp = {(p, q): cov(p, q) for p in run for q in run}
    for rep in range(2):
        c = s.getCovMat()
        require(list(c.paramNames) == run, 'covariance of %s, expected %s', c.paramNames, run)
        got = as_dict(c)
        for k in exp:
            require(abs(got[k] - exp[k]) < 1e-9, 'covariance of %s is %s, expected %s', k, got[k], exp[k])
        c.rescaleParameter(run[0], 10.)   # must not affect the samples
    fn = os.path.join(ctx.scratch, 's.covmat')
    s.writeCovMatrix(fn)
    d = CovMat(fn)
    require(list(d.paramNames) == run, 'names written')
    for k, v in as_dict(d).items():
        require(abs(v - exp[k]) < 1e-6 * (1 + abs(exp[k])), 'covariance of %s written as %s, expected %s', k, v, exp[k])
    s.writeCorrelationMatrix(fn + '.corr')
    m = np.loadtxt(fn + '.corr', ndmin=2)
    require(m.shape == (len(names),) * 2, 'correlation shape')
    for i, p in enumerate(names):
        for j, q in enumerate(names):
            require(abs(m[i, j] - cov(p, q) / np.sqrt(cov(p, p) * cov(q, q))) < 1e-6, 'correlation of %s and %s is %s', p, q, m[i, j])
    ctx.step()
    return repr((names, der))


def scenarios(tier):
    th = tier == 'thorough'
    return [Enum('merge', lambda: merge_gen(th), merge_check), Enum('scale', scale_gen, scale_check), Enum('samples', samples_gen, samples_check)]
