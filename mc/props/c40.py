"""Python plik likelihood: every layout of channels, spectra, bins, components and names of a stand-in likelihood file, against a direct evaluation."""
import itertools
import os
import sys
import types

import numpy as np

from mc.core import Enum, require

PROPERTY = 'C40'
LEVEL = 'model_checking'
RULE = ('model: every combination of channels, spectra, binning, selection and order of the data, sequence of components, order of names and kind of names; coadd: the same layouts without noise, with noise and with missing bins; '
        'history: every sequence of calls up to the depth on one likelihood, each compared with a fresh one; match: every version of the likelihood files with the parameter names in the data directory')
ASSUMPTIONS = ['clik is replaced by a stand-in with the same interface', 'spectra of the theory are D_l in muK^2 from l=0']
NUIS = ['A_cib', 'A_sz', 'cal0', 'cal1', 'beam']
COSMO = ['acib', 'asz', 'calA', 'calB', 'bm']
VALS = {'acib': 60.5, 'asz': 5.25, 'calA': 0.99, 'calB': 1.02, 'bm': 0.3, 'other': 7.}
CH = [(1, 0), (2, 0), (3, 0), (0, 1), (0, 2), (1, 1), (2, 1), (1, 2), (2, 2)]
BINS = [(2, [1, 1, 1]), (2, [1, 2, 3]), (5, [3, 1]), (30, [2, 2, 1, 4]), (2, [4])]
SEL = ['all', 'nocross', 'cut', 'shuffled']
COMPS = [[], ['cib'], ['szT'], ['cib', 'szT'], ['szT', 'cib', 'cib']]
CONF = {}


class Comp(object):
    def __init__(self, name):
        self.name = name
        self.varpar = {'cib': ['A_sz', 'A_cib'], 'szT': ['A_sz']}[name]

    def get_name(self):
        return self.name

    def __call__(self, v):
        c = CONF
        n = c['m'] if self.name == 'cib' else max(c['mt'], 1) if c['mt'] else c['m']
        L = np.arange(c['lmin'], c['lmax'] + 1.)
        return comp_rq(self.name, n, L, list(v))


def comp_rq(name, n, L, v):
    a = (2 * v[0] + v[1]) if name == 'cib' else 3 * v[0]
    f = 1 + 0.1 * np.add.outer(np.arange(n), np.arange(n))
    return a * f[None] * (1 + 0.03 * L[:, None, None])


class Gain(object):
    def __init__(self, names, beam):
        self.varpar, self.beam = names, beam

    def __call__(self, v):
        return gain(self.beam, list(v))


def gain(beam, v):
    c = CONF
    if beam:
        return np.ones((c['nb'], c['m'], c['m'])) * (1 + 0.01 * v[0] * np.arange(1, c['nb'] + 1))[:, None, None]
    a = np.array([v[k % 2] * (1 + 0.1 * (k // 2)) for k in range(c['m'])])
    return np.ones((c['nb'], 1, 1)) * np.outer(a, a)[None]


def stubs():
    if 'clik' in sys.modules:
        return
    clik = types.ModuleType('clik')
    mods = {n: types.ModuleType('clik.' + n) for n in ('smicahlp', 'parobject', 'hpy')}

    class Likelihood(object):
        def __init__(self, fn):
            self.extra_parameter_names = list(CONF['nuis'])

        def __call__(self, vec):
            return -0.5 * float(np.dot(vec, np.arange(1, len(vec) + 1)))

    class File(object):
        def __init__(self, fn):
            self.fn = fn

        def __getitem__(self, k):
            if k == 'clik/lkl_0':
                return 'lkl'
            v = CONF['file'][k.replace('clik/lkl_0/', '')]
            return v.copy() if isinstance(v, np.ndarray) else v
    clik.clik = Likelihood
    mods['hpy'].File = File
    s = mods['smicahlp']
    s.calTP_from_smica = lambda fn: Gain(['cal1', 'cal0'], False)
    s.beamTP_from_smica = lambda fn: Gain(['beam'], True)
    s.parametric_from_smica = lambda fn: [Comp(n) for n in CONF['comps']]
    s.ordering_from_smica = lambda fn: (CONF['oo'].copy(), CONF['Jt'].copy())
    mods['parobject'].read_bins = lambda g: CONF['bns'].copy()
    sys.modules['clik'] = clik
    for n, m in mods.items():
        sys.modules['clik.' + n] = m
        setattr(clik, n, m)


PAIRS = [('T', 'T'), ('E', 'E'), ('B', 'B'), ('T', 'E'), ('T', 'B'), ('E', 'B')]


def setup(mt, mp, bb, bins, sel, comps, nuis, noise=1.):
    """describe the likelihood file; the reference below only uses this description"""
    c = CONF
    c.clear()
    lmin, widths = bins
    chans = ['T'] * mt + ['E'] * mp + ['B'] * (mp if bb else 0)
    has = [int(a in chans and b in chans) for a, b in PAIRS]
    if bb in ('noTE', 'noTB', 'noEB'):
        has[3 + ('noTE', 'noTB', 'noEB').index(bb)] = 0
    nb, m = len(widths), len(chans)
    lo = np.cumsum([0] + widths[:-1])
    hi = lo + np.array(widths) - 1
    lmax = lmin + sum(widths) - 1
    ell = np.arange(lmin, lmax + 1.)
    ws = np.concatenate([(1. + np.arange(w) * 0.25) / np.sum(1. + np.arange(w) * 0.25) for w in widths])
    c.update(m=m, mt=mt, nb=nb, lmin=lmin, lmax=lmax, chans=chans, has=has, lo=lo, hi=hi, ws=ws, comps=comps, nuis=nuis)
    ncl = sum(has)
    order = [k for k in range(6) if has[k]]
    c['order'] = order
    bns = np.zeros((ncl * nb, ncl * len(ell)))
    for s in range(ncl):
        for b in range(nb):
            bns[s * nb + b, s * len(ell) + lo[b]:s * len(ell) + hi[b] + 1] = ws[lo[b]:hi[b] + 1]
    c['bns'] = bns
    els = []
    for k in order:
        a, b = PAIRS[k]
        for i in range(m):
            for j in range(i, m):
                if sorted((chans[i], chans[j]), key='TEB'.index) == [a, b]:
                    if sel == 'nocross' and i != j and chans[i] == chans[j]:
                        continue
                    for q in range(nb):
                        if sel == 'cut' and nb > 1 and (q == 0 and k == order[-1] or q == nb - 1 and (i, j) == (0, 0) and m > 1):
                            continue
                        els.append((k, q, i, j))
    if sel == 'shuffled':
        els = els[1::2] + els[::2][::-1]
    c['els'] = els
    c['oo'] = np.array([q * m * m + i * m + j for k, q, i, j in els])
    J = np.zeros((ncl * nb, len(els)))
    for n, (k, q, i, j) in enumerate(els):
        J[order.index(k) * nb + q, n] = 1
    c['Jt'] = J
    n = len(els)
    r = np.arange(n)
    cov = np.diag(2. + r % 3) + 0.3 * np.exp(-0.5 * np.abs(np.subtract.outer(r, r)))
    c['cov'] = cov * noise
    rq = 10. + 3 * np.arange(nb)[:, None, None] + np.add.outer(np.arange(m), np.arange(m))[None] ** 2 * 0.7
    acmb = 1 + 0.01 * np.arange(m)
    c['acmb'] = acmb
    c['rqh'] = rq
    c['file'] = {'has_cl': np.array(has), 'lmin': lmin, 'lmax': lmax, 'm_channel_T': max(mt, 1) if not mt else mt, 'm_channel_P': mp if mp else 2, 'nbins': nb * ncl, 'bin_lmin': lo, 'bin_lmax': hi, 'bin_ws': ws,
                 'A_cmb': acmb, 'Rq_hat': rq.ravel(), 'criterion_gauss_mat': np.linalg.inv(c['cov']).ravel()}
    if not mp:
        c['file']['m_channel_P'] = 0


def theory(seed=0):
    from CMBlikes import ClsArray
    cl = ClsArray()
    L = np.arange(CONF['lmax'] + 4.)
    for n, (i, j) in enumerate([(0, 0), (1, 0), (1, 1), (2, 2)]):
        cl.cls_array[i, j] = 100. * (n + 1) * (1 + 0.1 * seed) + (7. - n) * L + 0.3 * (n + 1) * L ** 1.5
    cl.lmin, cl.lmax = 0, len(L) - 1
    return cl


def cl_of(cl, k):
    """C_l of spectrum k"""
    ix = {'T': 0, 'E': 1, 'B': 2}
    a, b = PAIRS[k]
    L = np.arange(CONF['lmax'] + 1.)
    if k > 3:
        return L * 0
    i, j = max(ix[a], ix[b]), min(ix[a], ix[b])
    D = cl.cls_array[i, j][:len(L)]
    return np.array([D[l] * 2 * np.pi / (l * (l + 1)) if l else D[0] for l in range(len(L))])


def ref_gain(P):
    c = CONF
    v = {n: P[COSMO[NUIS.index(n)]] for n in NUIS}
    return gain(False, [v['cal1'], v['cal0']]) * gain(True, [v['beam']]) * np.outer(c['acmb'], c['acmb'])[None]


def ref_fg(P):
    c = CONF
    L = np.arange(c['lmin'], c['lmax'] + 1.)
    out = np.zeros((c['nb'], c['m'], c['m']))
    for name in c['comps']:
        v = [P['asz'], P['acib']] if name == 'cib' else [P['asz']]
        n = c['m'] if name == 'cib' or not c['mt'] else c['mt']
        s = comp_rq(name, n, L, v)
        for b in range(c['nb']):
            for l in range(c['lo'][b], c['hi'][b] + 1):
                out[b, :n, :n] += s[l] * c['ws'][l]
    return out


def ref_cmb(spec):
    """spec(k) gives the binned spectrum k"""
    c = CONF
    out = np.zeros((c['nb'], c['m'], c['m']))
    for i in range(c['m']):
        for j in range(c['m']):
            k = PAIRS.index(tuple(sorted((c['chans'][i], c['chans'][j]), key='TEB'.index)))
            out[:, i, j] = spec(k) if CONF['has'][k] else 0
    return out


def binned(C):
    c = CONF
    return np.array([sum(C[c['lmin'] + l] * c['ws'][l] for l in range(c['lo'][b], c['hi'][b] + 1)) for b in range(c['nb'])])


def vec(x):
    return np.array([x[q, i, j] for k, q, i, j in CONF['els']])


def close(a, b, what, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    require(a.shape == b.shape, '%s has shape %s, expected %s', what, a.shape, b.shape)
    require(np.allclose(a, b, rtol=tol, atol=tol * max(1e-30, np.abs(b).max() if b.size else 1)), '%s is %s, expected %s', what, a.ravel()[:6], b.ravel()[:6])


def make(ctx, kind, nuis):
    stubs()
    from planck.CMB_plik import plik_likelihood
    names = [COSMO[NUIS.index(n)] for n in nuis]
    if kind == 'file':
        fn = os.path.join(ctx.newdir('p'), 'p.paramnames')
        with open(fn, 'w') as f:
            f.write(''.join('%s\t%s\n' % (n, n) for n in names))
        names = fn
    elif kind == 'tuple':
        names = tuple(names)
    return plik_likelihood('x/plik_test.clik', names)


def layouts(tier):
    for (mt, mp) in CH:
        for bb in ((False, True) + (('noTE', 'noTB', 'noEB') if mt and mp < 2 else ()) if mp else (False,)):
            for bins in BINS:
                yield mt, mp, bb, bins


def gen_model(tier):
    def gen():
        perms = [NUIS, NUIS[::-1], [NUIS[k] for k in (2, 0, 4, 1, 3)]] if tier == 'quick' else [list(p) for p in itertools.permutations(NUIS)][::3]
        for mt, mp, bb, bins in layouts(tier):
            for sel, comps, nuis, kind in itertools.product(SEL, COMPS, perms, ('list', 'tuple', 'file')):
                yield [mt, mp, bb, list(bins), sel, comps, nuis, kind]
    return gen


def chk_model(ctx, case):
    mt, mp, bb, bins, sel, comps, nuis, kind = case
    setup(mt, mp, bb, bins, sel, comps, nuis)
    c = CONF
    like = make(ctx, kind, nuis)
    P = dict(VALS)
    cl = theory()
    ctx.step()
    g = ref_gain(P)
    cmb = ref_cmb(lambda k: binned(cl_of(cl, k)))
    fg = ref_fg(P)
    close(like.lm, [sum((c['lmin'] + l) * c['ws'][l] for l in range(c['lo'][b], c['hi'][b] + 1)) for b in range(c['nb'])], 'mean l of the bins')
    close(like.get_calib(P), g, 'calibration')
    close(like.get_cmb_rq(cl), cmb, 'binned theory')
    f = like.get_nuisance_rq(P)
    require(len(f) == len(comps), '%s components, expected %s', len(f), comps)
    close(np.sum(f, 0) if len(comps) else np.zeros(cmb.shape), fg, 'binned foregrounds')
    close(like.get_model_vector(cl, P), g * (cmb + fg), 'model')
    d = vec(g * (cmb + fg) - c['rqh'])
    close(like.chi_squared(cl, P, clik=False), d.dot(np.linalg.solve(c['cov'], d)), 'chi-squared', 1e-7)
    v = np.concatenate([cl_of(cl, k) for k in c['order']] + [[P[COSMO[NUIS.index(n)]] for n in nuis]])
    close(like.get_clik_vector(cl, P), v, 'vector passed to clik')
    close(like.chi_squared(cl, P), np.dot(v, np.arange(1, len(v) + 1)), 'chi-squared from clik')
    require(P == VALS, 'parameters changed')
    close(cl.cls_array[0, 0], theory().cls_array[0, 0], 'theory after the calculation')
    return str([mt, mp, bb, len(bins[1]), sel, len(comps)])


def gen_coadd(tier):
    def gen():
        for mt, mp, bb, bins in layouts(tier):
            for sel in SEL:
                for comps in COMPS:
                    for kind in ('exact', 'noise'):
                        yield [mt, mp, bb, list(bins), sel, comps, kind]
    return gen


def chk_coadd(ctx, case):
    mt, mp, bb, bins, sel, comps, kind = case
    setup(mt, mp, bb, bins, sel, comps, NUIS)
    c = CONF
    P = dict(VALS)
    spec = {k: 50. * (k + 1) + np.arange(c['nb']) ** 2 for k in c['order']}
    g = ref_gain(P)
    data = g * (ref_cmb(lambda k: spec[k]) + ref_fg(P))
    if kind == 'noise':
        data = data + np.sin(np.arange(data.size)).reshape(data.shape)
    c['rqh'] = data
    c['file']['Rq_hat'] = data.ravel()
    like = make(ctx, 'list', NUIS)
    ctx.step()
    ls, co, covinv = like.coadd_spectra(P)
    ncl = len(c['order'])
    require(ls.shape == co.shape == (ncl, c['nb']), 'spectra have shape %s', co.shape)
    for k in range(ncl):
        close(ls[k], like.lm, 'l of the bins')
    # generalized least squares, by the normal equations of the elements used
    A = np.zeros((len(c['els']), ncl * c['nb']))
    for n, (k, q, i, j) in enumerate(c['els']):
        A[n, c['order'].index(k) * c['nb'] + q] = g[q, i, j]
    used = np.any(A != 0, axis=0)
    A = A[:, used]
    S = np.linalg.inv(c['cov'])
    y = vec(data - g * ref_fg(P))
    F = A.T.dot(S).dot(A)
    x = np.zeros(len(used))
    x[used] = np.linalg.solve(F, A.T.dot(S).dot(y))
    close(covinv, F, 'inverse covariance of the co-added spectra', 1e-8)
    close(co.ravel(), x, 'co-added spectra', 1e-7)
    if kind == 'exact':
        want = np.concatenate([spec[k] for k in c['order']]) * used
        close(co.ravel(), want, 'co-added spectra of data without noise', 1e-7)
    if mt and set(bins[1]) == {1} and used[:c['nb']].all():
        TT, cov = like.coadded_TT(P)
        fac = np.array([l * (l + 1) / (2 * np.pi) for l in range(c['lmin'], c['lmax'] + 1)])
        want = np.zeros(c['lmax'] + 1)
        want[c['lmin']:] = x[:c['nb']] * fac
        close(TT, want, 'co-added TT', 1e-7)
        close(cov, np.linalg.inv(F)[:c['nb'], :c['nb']] * np.outer(fac, fac), 'covariance of co-added TT', 1e-7)
        close(like.coadded_TT(P, want_cov=False), want, 'co-added TT without covariance', 1e-7)
    return str([mt, mp, bb, sel, kind])


OPS = ['chi', 'clik', 'coadd', 'other', 'cal']


def gen_history(tier):
    def gen():
        for mt, mp in ((2, 0), (1, 1), (2, 2)):
            for n in range(1, 4 if tier == 'quick' else 6):
                for h in itertools.product(OPS, repeat=n):
                    yield [mt, mp, list(h)]
    return gen


def run_op(like, op, P=None):
    P = {} if P is None else P
    P.update(VALS)
    if op == 'chi':
        return like.chi_squared(theory(), P, clik=False)
    if op == 'clik':
        return like.chi_squared(theory(1), P)
    if op == 'coadd':
        return like.coadd_spectra(P)[1]
    if op == 'cal':
        return like.get_calib(P)
    P.update(calA=1.1, asz=2.)
    return like.chi_squared(theory(2), P, clik=False)


def chk_history(ctx, case):
    mt, mp, h = case
    setup(mt, mp, False, BINS[1], 'all', ['cib', 'szT'], NUIS)
    like = make(ctx, 'list', NUIS)
    P = {}
    for op in h:
        got = run_op(like, op, P)
        ctx.step()
        close(got, run_op(make(ctx, 'list', NUIS), op), 'result of %s after %s' % (op, h))
    return str(len(h))


def gen_match():
    for fn in ('plik_dx11dr2_HM_v18', 'plik_rd12_HM_v22', 'plik_dx11dr2_DS_v18'):
        for letter in ('', 'a', 'b', 'c', 'd'):
            for spec in ('TT', 'TE', 'EE', 'TTTEEE'):
                for suffix in ('', '_bin1'):
                    yield [fn, letter, spec, suffix]


def chk_match(ctx, case):
    fn, letter, spec, suffix = case
    setup(1, 1, False, BINS[0], 'all', [], NUIS)
    stubs()
    from planck import CMB_plik
    ctx.step()
    data = os.path.join(os.path.dirname(CMB_plik.__file__), '..', '..', 'data')
    want = fn + '_' + spec + '.paramnames'
    require(os.path.exists(os.path.join(data, want)), 'no %s', want)
    like = CMB_plik.plik_likelihood('some.where/' + fn + letter + '_' + spec + suffix + '.clik')
    require(os.path.basename(like.paramnamefile) == want, 'parameter names of %s, expected %s', like.paramnamefile, want)
    with open(os.path.join(data, want)) as f:
        names = [l.split()[0] for l in f if l.strip()]
    require(like.parnames == names and like.name == fn + letter + '_' + spec + suffix, 'names %s', like.parnames)
    return letter


def scenarios(tier):
    return [Enum('model', gen_model(tier), chk_model), Enum('coadd', gen_coadd(tier), chk_coadd), Enum('match', gen_match, chk_match), Enum('history', gen_history(tier), chk_history)]
