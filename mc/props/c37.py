"""DES likelihood: datasets written by the harness, data selection, Limber theory and chi-squared against the definition."""
import copy
import itertools
import shutil
import sys
import types

import numpy as np

from mc.core import Enum, require

PROPERTY = 'C37'
LEVEL = 'model_checking'
RULE = ('select: every ordered set of data types with every set of used types, ways of cutting and orders of the rows, in the dataset or as overrides; theory: every single and pair of changed nuisance parameters for every combination of used types, '
        'with and without the lensing potential and intrinsic alignments; params: every change of one named parameter; sequence: every sequence of parameter points up to the depth on one likelihood')
ASSUMPTIONS = ['CAMB is replaced by a stand-in with smooth analytic distances, expansion rate and power spectra', 'lmax of some hundred', 'the text datasets (not the original FITS file), binned Bessel functions (not the Hankel transform)', 'the sum over redshift is over the redshifts of the dataset']
TYPES = ['xip', 'xim', 'gammat', 'wtheta']
NZ, NW, NT = 4, 5, 4
THETA = np.array([12., 30., 75., 190.])
ZMID = np.linspace(0.25, 2.05, 19)
LMAX = 1000
C = 299792458.


def camb_stub():
    if 'camb' in sys.modules:
        return sys.modules['camb']
    camb = types.ModuleType('camb')
    camb.model = types.ModuleType('camb.model')
    camb.correlations = types.ModuleType('camb.correlations')
    camb.model.Transfer_Weyl = 'Weyl'
    camb.set_params_cosmomc = lambda p: Pars(p['H0'])
    camb.CAMBparams = Pars
    camb.get_background = lambda pars: Results(pars)
    camb.calls = []

    def interp(pars, nonlinear=False, hubble_units=True, k_hunit=True, kmax=10, k_per_logint=None, var1=None, var2=None, zmax=10, extrap_kmax=None):
        camb.calls.append((nonlinear, hubble_units, k_hunit, var1, var2, zmax))
        return Power(pars, 'Weyl' if var1 == 'Weyl' else '')
    camb.get_matter_power_interpolator = interp
    sys.modules['camb'] = camb
    sys.modules['camb.model'] = camb.model
    sys.modules['camb.correlations'] = camb.correlations
    return camb


class Pars(object):
    def __init__(self, H0=70.):
        self.H0, self.omegab, self.omegac, self.omeganu = H0, 0.05, 0.24, 0.003


class Results(object):
    def __init__(self, pars):
        self.h = pars.H0 / 100

    def comoving_radial_distance(self, z):
        return 3000. / self.h * np.asarray(z) / (1 + 0.25 * np.asarray(z))

    def h_of_z(self, z):
        z = np.asarray(z)
        return self.h / 3000 * (1 + 0.25 * z) ** 2


class Power(object):
    def __init__(self, pars, kind='', kmax=100.):
        self.kmax, self.kind, self.h = kmax, kind, pars.H0 / 100

    def P(self, z, k, grid=None):
        z, k = np.asarray(z, dtype=float), np.asarray(k, dtype=float)
        x = k / (0.04 * self.h)
        p = 2e4 * x / (1 + x ** 2) ** 2 / (1 + z) ** 1.8 * (1 + 0.05 * z)
        if self.kind:
            p = p * 1e-14 * (1 + z) ** 2
        return p


def nz(b, gal):
    c, w = (0.3 + 0.15 * b, 0.12 + 0.01 * b) if gal else (0.4 + 0.25 * b, 0.2 + 0.02 * b)
    return np.exp(-(ZMID - c) ** 2 / 2 / w ** 2) / w * (1 + 0.1 * ZMID)


def pairs(tp):
    if tp == 'wtheta':
        return [(i, i) for i in range(NW)]
    if tp == 'gammat':
        return [(i, j) for i in range(NW) for j in range(NZ)]
    return [(i, j) for i in range(NZ) for j in range(i, NZ)]


def rows_of(tp, order, thin):
    ps = pairs(tp)
    if thin:
        ps = [p for k, p in enumerate(ps) if (k + TYPES.index(tp)) % 3 != 1]
    r = [(a, b, t) for a, b in ps for t in range(NT)]
    if order == 'theta':
        r.sort(key=lambda x: x[2])
    elif order == 'back':
        r = r[::-1]
    return r


def value(tp, a, b, t):
    return [2e-5, 1e-5, 3e-4, 5e-2][TYPES.index(tp)] * (1 + 0.3 * a - 0.17 * b + 0.011 * a * b) / (1 + t + 0.3 * TYPES.index(tp))


def cuts(kind):
    """(type, bin, bin) -> (min, max) used"""
    out = {}
    for k, tp in enumerate(TYPES):
        for j, (a, b) in enumerate(pairs(tp)):
            if kind == 'wide':
                out[tp, a, b] = (1., 250.)
            elif kind == 'edges':
                out[tp, a, b] = [(12., 190.), (12.0001, 190.1), (11.9, 75.), (30., 190.00001)][(j + k) % 4]
            elif kind == 'some' and (j + k) % 3:
                out[tp, a, b] = [(20., 250.), (5., 100.)][j % 2]
            elif kind == 'one' and (a, b) == ((1, 1) if k != 2 else (2, 3)):
                out[tp, a, b] = (20., 80.)
    return out


_cov = {}


def covariance(n):
    if n not in _cov:
        r = np.random.RandomState(n).standard_normal((n, n + 20))
        s = 1e-3 * (1 + np.arange(n) % 7)
        _cov[n] = (r.dot(r.T) / n + np.eye(n)) * s * s[:, None]
    return _cov[n]


def write(d, dtypes, lines, cut='wide', order='bins', thin=False):
    rows = [(tp,) + r for tp in dtypes for r in rows_of(tp, order, thin)]
    np.savetxt(d + '/cov.dat', covariance(len(rows)), fmt='%.17g')
    np.savetxt(d + '/theta.dat', THETA)
    for tp in dtypes:
        with open('%s/%s.dat' % (d, tp), 'w') as f:
            for t, a, b, i in rows:
                if t == tp:
                    f.write('%d %d %d %.17g\n' % (a + 1, b + 1, i + 1, value(tp, a, b, i)))
    for fn, gal, n in (('src', 0, NZ), ('gal', 1, NW)):
        np.savetxt('%s/%s.dat' % (d, fn), np.array([ZMID - 0.05, ZMID, ZMID + 0.05] + [nz(b, gal) for b in range(n)]).T, fmt='%.17g')
    with open(d + '/sel.dat', 'w') as f:
        f.write('#  type bin1 bin2 theta_min theta_max\n')
        for (tp, a, b), (mn, mx) in sorted(cuts(cut).items(), key=lambda x: x[0][1:] + x[0][:1]):
            if tp in dtypes:
                f.write('%s %d %d %s %s\n' % (tp, a + 1, b + 1, mn, mx))
    with open(d + '/x.dataset', 'w') as f:
        f.write('\n'.join(['cov_file = cov.dat', 'num_theta_bins = %d' % NT, 'theta_bins_file = theta.dat', 'data_types = ' + ' '.join(dtypes), 'data_selection = sel.dat', 'num_z_bins = %d' % NZ, 'num_gal_bins = %d' % NW,
                           'nz_file = src.dat', 'nz_gal_file = gal.dat'] + ['measurements[%s] = %s.dat' % (tp, tp) for tp in dtypes] + lines) + '\n')
    return rows


def load(d, over, **kw):
    camb_stub()
    from planck.DES import DES_like
    keep = copy.deepcopy(over)
    like = DES_like(d + '/x.dataset', over, lmax=kw.pop('lmax', LMAX), **kw)
    require(over == keep, 'the settings passed were changed')
    return like


DEF = dict(bin_bias=[1.45, 1.55, 1.65, 1.8, 2.0], shear_calibration_parameters=[0.012] * 4, intrinsic_alignment_A=1.0, intrinsic_alignment_alpha=1.0, intrinsic_alignment_z0=0.62,
           wl_photoz_errors=[0.002, -0.015, 0.007, -0.018], lens_photoz_errors=[0.002, 0.001, 0.003, 0.0, 0.0])


def correlation(tp, a, b, pars, p, weyl=False, ia=True, zs=ZMID, lmax=LMAX):
    """sum over every multipole of the Limber spectrum times the Bessel function"""
    from scipy.interpolate import CubicSpline
    from scipy.special import jv
    R, P = Results(pars), Power(pars)
    chi, H = R.comoving_radial_distance(zs), R.h_of_z(zs)
    dchi = np.empty(len(zs))
    dchi[0], dchi[1:-1], dchi[-1] = (chi[0] + chi[1]) / 2, (chi[2:] - chi[:-2]) / 2, chi[-1] - chi[-2]
    h2 = (pars.H0 / 100) ** 2
    om = pars.omegab + pars.omegac + pars.omeganu

    def density(i, gal):
        z = zs - p['lens_photoz_errors' if gal else 'wl_photoz_errors'][i]
        return np.where(z < 0, 0, H * CubicSpline(ZMID, nz(i, gal))(z))

    def lens(i):
        n = density(i, 0)
        g = np.array([(n * dchi * (1 - x / chi))[k:].sum() for k, x in enumerate(chi)])
        q = 1.5 * om * h2 * (1e5 / C) ** 2 * (1 + zs) * chi * g
        if ia:
            D = np.sqrt(P.P(zs, 0.001) / P.P(0, 0.001))
            q = q - om * p['intrinsic_alignment_A'] * ((1 + zs) / (1 + p['intrinsic_alignment_z0'])) ** p['intrinsic_alignment_alpha'] * 0.0134 / D * n
        return q / (1.5 * om * h2 * (1e5 / C) ** 2 * (1 + zs)) if weyl else q

    def gal(i):
        return density(i, 1) * p['bin_bias'][i]
    m = p['shear_calibration_parameters']
    if tp in ('xip', 'xim'):
        q, f = lens(a) * lens(b), (1 + m[a]) * (1 + m[b])
    elif tp == 'gammat':
        q, f = gal(a) * lens(b), 1 + m[b]
    else:
        q, f = gal(a) * gal(b), 1
    L = np.arange(2, lmax + 1.)
    k = (L[:, None] + 0.5) / chi
    W = Power(pars, 'Weyl' if weyl and tp in ('xip', 'xim') else '')
    cl = (W.P(zs, k) * (dchi / chi ** 2 * q)).sum(axis=1)
    nu = {'xip': 0, 'xim': 4, 'gammat': 2, 'wtheta': 0}[tp]
    return np.array([(L * cl * jv(nu, L * t / 60 * np.pi / 180)).sum() / 2 / np.pi * f for t in THETA])


def near(a, b, what, *args, rtol=1e-8, scale=None):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    require(a.shape == b.shape and np.all(np.abs(a - b) <= rtol * (np.abs(b) if scale is None else scale) + 1e-300), what + ': %s, expected %s', *(args + (a.ravel()[:5].tolist(), b.ravel()[:5].tolist())))


def arrays(seed, dtypes):
    out = []
    for tp in dtypes:
        c = np.empty((NW, NW), dtype=object)
        for a, b in pairs(tp):
            c[a, b] = np.array([value(tp, a, b, t) * (1 + 0.2 * np.sin(seed + a + 2 * b + 3 * t)) for t in range(NT)])
        out.append(c)
    return out


def gen_select(tier):
    def gen():
        orders = [list(o) for n in range(1, 5) for o in itertools.permutations(TYPES, n)]
        if tier == 'quick':
            orders = [o for k, o in enumerate(orders) if len(o) == 4 or o == sorted(o) or k % 3 == 0]
        for k, dt in enumerate(orders):
            for n in range(1, len(dt) + 1):
                for j, used in enumerate(itertools.combinations(dt, n)):
                    for w, (cut, order, thin, where) in enumerate(itertools.product(('wide', 'edges', 'some', 'one'), ('bins', 'theta', 'back'), (False, True), ('over', 'file', 'none'))):
                        if where == 'none' and n < len(dt):
                            continue
                        if (k + j + w) % (23 if tier == 'quick' else 3):
                            continue
                        yield [dt, list(used)[::-1] if k % 2 else list(used), cut, order, thin, where]
    return gen


def chk_select(ctx, case):
    dt, used, cut, order, thin, where = case
    d = ctx.newdir()
    lines = ['intrinsic_alignment_model = DES1YR']
    if where == 'file':
        lines.append('used_data_types = ' + ' '.join(used))
    elif where == 'over':
        lines.append('used_data_types = ' + dt[0])
    rows = write(d, dt, lines, cut, order, thin)
    cs = cuts(cut)
    points = [(i, r) for i, r in enumerate(rows) if r[0] in used and r[:3] in cs and cs[r[:3]][0] < THETA[r[3]] < cs[r[:3]][1]]
    if not points:
        return 'nothing'
    like = load(d, {'used_data_types': ' '.join(used)} if where == 'over' else {}, lmax=120)
    ctx.step()
    near(like.data_vector, [value(*r) for _, r in points], 'data vector')
    ix = [i for i, _ in points]
    F = covariance(len(rows))
    near(like.covmat, F[np.ix_(ix, ix)], 'covariance')
    near(like.thetas, [THETA[r[3]] for _, r in points], 'angles')
    near(like.make_thetas(None), [THETA[r[3]] for _, r in points], 'angles')
    for i, (tp, a, b, t) in enumerate(rows):
        near(like.errors[dt.index(tp)][a, b][t], np.sqrt(F[i, i]), 'error of %s', (tp, a, b, t))
    for s in (1, 2, 1):
        th = arrays(s, dt)
        vec = np.array([th[dt.index(r[0])][r[1:3]][r[3]] for _, r in points])
        delta = np.array([value(*r) for _, r in points]) - vec
        want = delta.dot(np.linalg.solve(F[np.ix_(ix, ix)], delta))
        near(like.chi_squared(th), want, 'chi-squared', rtol=1e-6)
        v, c = like.chi_squared(th, return_theory_vector=True)
        near(c, want, 'chi-squared', rtol=1e-6)
        near(v, vec, 'theory vector')
    pars = Pars()
    th = like.get_theory(pars, Results(pars), Power(pars))
    require(len(th) == len(dt), '%s sets of theory', len(th))
    vec = like.make_vector(th)
    for tp in used:
        mine = [k for k, (_, r) in enumerate(points) if r[0] == tp]
        for k in mine[:2] + mine[-1:]:
            r = points[k][1]
            want = correlation(tp, r[1], r[2], pars, DEF, lmax=120)
            near(vec[k], want[r[3]], 'theory of %s', r, rtol=4e-2, scale=np.abs(want).max())
    shutil.rmtree(d)
    return '%s %s' % (len(points), ' '.join(dt))


NUIS = [('bin_bias', i) for i in range(NW)] + [('shear_calibration_parameters', i) for i in range(NZ)] + [('wl_photoz_errors', i) for i in range(NZ)] + [('lens_photoz_errors', i) for i in range(NW)] + [('intrinsic_alignment_A', None), ('intrinsic_alignment_alpha', None), ('intrinsic_alignment_z0', None), ('H0', None)]
ALT = dict(bin_bias=1.2, shear_calibration_parameters=-0.1, wl_photoz_errors=0.27, lens_photoz_errors=0.26, intrinsic_alignment_A=-2.5, intrinsic_alignment_alpha=3., intrinsic_alignment_z0=0.2, H0=62.)


def changed(keys):
    p = copy.deepcopy(DEF)
    H0 = 70.
    for k, i in keys:
        if k == 'H0':
            H0 = ALT[k]
        elif i is None:
            p[k] = ALT[k]
        else:
            p[k][i] = ALT[k] * (1 + 0.1 * i)
    return Pars(H0), p


def gen_theory(tier):
    def gen():
        models = [(['xip', 'xim', 'gammat', 'wtheta'], False, True), (['gammat', 'wtheta'], False, False), (['xip', 'xim'], True, True), (['xim'], True, False), (['xim', 'wtheta'], False, False), (['wtheta', 'xip'], True, True)]
        for m, mod in enumerate(models):
            yield [mod, []]
            for n in (1, 2):
                for j, keys in enumerate(itertools.combinations(NUIS, n)):
                    if n == 1 or tier != 'quick' or (j + m) % 6 == 0:
                        yield [mod, [list(k) for k in keys]]
    return gen


_like = {}


def shared(ctx, used, weyl, ia):
    key = str((used, weyl, ia))
    if key not in _like:
        d = ctx.newdir()
        write(d, TYPES, ['intrinsic_alignment_model = ' + ('DES1YR' if ia else 'none'), 'used_data_types = ' + ' '.join(used)])
        _like[key] = load(d, {}, use_Weyl=weyl)
    return _like[key]


def chk_theory(ctx, case):
    (used, weyl, ia), keys = case
    like = shared(ctx, used, weyl, ia)
    pars, p = changed(keys)
    q = copy.deepcopy(p)
    args = [pars, Results(pars), Power(pars)] + ([Power(pars, 'Weyl')] if weyl else [])
    th = like.get_theory(*args, **q)
    ctx.step()
    require(q == p, 'parameters changed')
    for tp in used:
        for a, b in pairs(tp):
            want = correlation(tp, a, b, pars, p, weyl, ia)
            near(th[TYPES.index(tp)][a, b], want, '%s of bins %s with %s', tp, (a, b), keys, rtol=2e-3, scale=np.abs(want).max())
    if not keys:
        for x, y in zip(like.get_theory(*args), th):
            for c, e in zip(x.ravel(), y.ravel()):
                require((c is None) == (e is None) and (c is None or np.array_equal(c, e)), 'theory with default parameters differs')
        if weyl:
            bad = shared(ctx, TYPES, True, True)
            try:
                bad.get_theory(*args)
            except ValueError:
                pass
            else:
                require(False, 'galaxy-shear correlation from the lensing potential accepted')
    return '%s %s' % (len(used), len(keys))


PNAMES = ['DES_DzS%d' % i for i in range(1, 5)] + ['DES_DzL%d' % i for i in range(1, 6)] + ['DES_b%d' % i for i in range(1, 6)] + ['DES_m%d' % i for i in range(1, 5)] + ['DES_AIA', 'DES_alphaIA', 'H0']


def point(change):
    v = {}
    for n, (k, i) in zip(PNAMES, [('wl_photoz_errors', i) for i in range(4)] + [('lens_photoz_errors', i) for i in range(5)] + [('bin_bias', i) for i in range(5)] + [('shear_calibration_parameters', i) for i in range(4)] + [('intrinsic_alignment_A', None), ('intrinsic_alignment_alpha', None), ('H0', None)]):
        base = 70. if k == 'H0' else DEF[k] if i is None else DEF[k][i]
        v[n] = (ALT[k] * (1 if i is None else 1 + 0.1 * i)) if n in change else base
    p = dict(DEF, wl_photoz_errors=[v['DES_DzS%d' % i] for i in range(1, 5)], lens_photoz_errors=[v['DES_DzL%d' % i] for i in range(1, 6)], bin_bias=[v['DES_b%d' % i] for i in range(1, 6)],
             shear_calibration_parameters=[v['DES_m%d' % i] for i in range(1, 5)], intrinsic_alignment_A=v['DES_AIA'], intrinsic_alignment_alpha=v['DES_alphaIA'])
    return v, p


def gen_params(tier):
    def gen():
        for n in range(0, 2 if tier == 'quick' else 3):
            for change in itertools.combinations(PNAMES, n):
                for how in ('dict', 'pars', 'results'):
                    for weyl in (False, True):
                        yield [list(change), how, weyl]
    return gen


def chk_params(ctx, case):
    change, how, weyl = case
    used = ['xip', 'xim', 'wtheta'] if weyl else TYPES
    like = shared(ctx, used, weyl, True)
    camb = camb_stub()
    v, p = point(change)
    pars = Pars(v['H0'])
    del camb.calls[:]
    keep = dict(v)
    kw = {} if how == 'dict' else {'camb_pars': pars}
    if how == 'results':
        kw['camb_results'] = like.get_camb_theory(pars)
        del camb.calls[:]
    th = like.get_theory_for_params(v, **kw)
    ctx.step()
    require(v == keep, 'parameters changed')
    require(len(camb.calls) == (0 if how == 'results' else 1 + weyl), 'CAMB called %s times', len(camb.calls))
    require(all(c[:3] == (True, False, False) and c[5] == ZMID[-1] for c in camb.calls), 'units or redshift of the power spectra: %s', camb.calls)
    rows = [(tp,) + r for tp in TYPES for r in rows_of(tp, 'bins', False)]
    points = [i for i, r in enumerate(rows) if r[0] in used]
    data = np.array([value(*rows[i]) for i in points])
    cors = {(tp, a, b): correlation(tp, a, b, pars, p, weyl) for tp in used for a, b in pairs(tp)}
    vec = np.array([cors[rows[i][:3]][rows[i][3]] for i in points])
    got, chi2 = like.chi_squared(th, return_theory_vector=True)
    near(got, vec, 'theory vector', rtol=2e-3, scale=np.array([np.abs(cors[rows[i][:3]]).max() for i in points]))
    delta = data - got
    near(chi2, delta.dot(np.linalg.solve(covariance(len(rows))[np.ix_(points, points)], delta)), 'chi-squared', rtol=1e-6)
    return how


def gen_seq(tier):
    def gen():
        for n in range(2, 4 if tier == 'quick' else 5):
            for seq in itertools.product(range(4), repeat=n):
                yield list(seq)
    return gen


_alone = {}


def chk_seq(ctx, seq):
    pts = [[], ['DES_DzS2', 'DES_AIA'], ['DES_b3', 'H0'], ['DES_m1', 'DES_DzL4']]
    d = ctx.newdir()
    write(d, TYPES, ['intrinsic_alignment_model = DES1YR'], 'some')
    like = load(d, {}, lmax=150)
    for k in seq:
        got = like.chi_squared(like.get_theory_for_params(point(pts[k])[0]))
        ctx.step()
        if k not in _alone:
            fresh = load(d, {}, lmax=150)
            _alone[k] = fresh.chi_squared(fresh.get_theory_for_params(point(pts[k])[0]))
        near(got, _alone[k], 'chi-squared after %s', seq, rtol=1e-12)
    shutil.rmtree(d)
    return str(len(set(seq)))


def scenarios(tier):
    return [Enum('select', gen_select(tier), chk_select), Enum('theory', gen_theory(tier), chk_theory), Enum('params', gen_params(tier), chk_params), Enum('sequence', gen_seq(tier), chk_seq)]
