"""Number formatting."""
import itertools
import logging
import re
from decimal import Decimal, ROUND_HALF_UP, ROUND_HALF_EVEN, ROUND_HALF_DOWN, getcontext
from fractions import Fraction

import numpy as np
from mc.core import Enum, require
from getdist.paramnames import ParamInfo
from getdist import types
from getdist.types import numberFigs, NumberFormatter, MargeStats, ParamLimit, NoLineTableFormatter, TableFormatter, float_to_decimal

logging.disable(logging.CRITICAL)
getcontext().prec = 28

PROPERTY = 'C15'
LEVEL = 'model_checking'
RULE = ('figs: every decimal mantissa of up to 4 digits (thorough 5) x exponent -12..12 (and -300, 300) x sign x 1..6 significant figures, as float, int, numpy scalar and Decimal, plain and scientific, against exact decimal rounding; '
        'errors: every (value mantissa, value exponent, sign, error mantissa, error exponent, ratio of the lower error, figure count) on the grid through the value-with-errors formatter; '
        'tex: every limit type x limit number x value/error grid through the table formatter, the printed text parsed back and compared with the limits; snippets: every parameter x limit x error style through the inline latex texts and tables of a set of samples')
ASSUMPTIONS = ['errors are positive (lower error negative), values finite and |value| between 1e-300 and 1e300 or zero', 'the scientific form scales by a floating point power of ten, so exact ties may round either way']


def digits_shown(s):
    t = s.lstrip('+-')
    dp = len(t) - t.index('.') - 1 if '.' in t else 0
    return dp


def check_plain(s, d, sf, what, tol=Decimal(0)):
    """s must be d correctly rounded to sf significant figures (half up; ties may go either way if tol)"""
    require(re.fullmatch(r'-?(\d+|\d+\.\d+)', s) is not None, '%s gives invalid text %r', what, s)
    require(not re.match(r'-?0\d', s), '%s gives leading zero %r', what, s)
    if d == 0:
        require(s.lstrip('-') == ('0' if sf == 1 else '0.' + '0' * (sf - 1)), '%s gives %r', what, s)
        return
    require(s.startswith('-') == (d < 0), '%s gives sign %r', what, s)
    q = Decimal(1).scaleb(d.adjusted() - sf + 1)
    r = Decimal(s)
    ctx = getcontext().copy()
    ctx.prec = 2000
    err = ctx.abs(ctx.subtract(r, d))
    half = ctx.divide(q, Decimal(2))
    require(err <= ctx.add(half, ctx.multiply(ctx.abs(d), tol)), '%s gives %s: not the closest number with %s figures', what, s, sf)
    if not tol:
        # exact tie rounds away from zero
        if err == half:
            require(abs(r) > abs(d), '%s gives %s: a tie is rounded up in magnitude', what, s)
    # number of figures: exactly sf, counting from the first nonzero digit (integers may be padded by zeros)
    adj = r.adjusted()
    dp = max(0, sf - 1 - adj)
    require(digits_shown(s) == dp, '%s gives %s: %s decimals, expected %s', what, s, digits_shown(s), dp)


def figs_gen(th):
    top = 10000 if th else 1000
    for m in range(0, top):
        if m % 10 == 0 and m > 9 and m % 100 != 0:
            continue
        yield m
    for m in (9999, 99999, 99995, 99994, 10005, 10015, 12345, 12355, 123456789, 999999999, 5000001, 4999999, 1999995, 2999985):
        yield m + 10 ** 12  # marker: exact mantissa m


def figs_check(ctx, m):
    if m >= 10 ** 12:
        m -= 10 ** 12
    out = []
    for e in list(range(-12, 13)) + [-300, 290]:
        for sgn in (1, -1):
            f = float('%se%s' % (sgn * m, e))
            d = Decimal(f)
            for sf in range(1, 7):
                s = numberFigs(f, sf)
                check_plain(s, d, sf, '%r to %s figures' % (f, sf))
                fmt = NumberFormatter(sig_figs=sf)
                require(fmt.formatNumber(f) == s and fmt.formatNumber(f, sf) == s and NumberFormatter().formatNumber(f, sf) == s, 'formatters differ for %r', f)
                w = fmt.formatNumber(f, wantSign=True)
                require(w == ('+' + s if Decimal(s) > 0 else s), 'signed form %s of %s', w, s)
                if -5 <= e <= 5:
                    require(numberFigs(np.float64(f), sf) == s and numberFigs(d, sf) == s, 'type dependence for %r', f)
                    if f == int(f) and e >= 0:
                        require(numberFigs(int(f), sf) == s, 'int %r', f)
                        require(numberFigs(np.int64(int(f)), sf) == s, 'numpy int %r', f)
                # scientific form
                t, ex = numberFigs(f, sf, sci=True)
                if d == 0 or abs(d.adjusted()) <= 4:
                    require(ex == 0 and t == s, 'scientific form %s, %s of %r', t, ex, f)
                else:
                    require(ex == d.adjusted(), 'exponent %s of %r', ex, f)
                    check_plain(t, d.scaleb(-ex), sf, '%r in scientific form to %s figures' % (f, sf), tol=Decimal('1e-15'))
                t2, ex2 = fmt.formatNumber(f, wantSign=True, sci=True)
                require(ex2 == ex and t2.lstrip('+') == t, 'signed scientific form')
                ctx.step()
                if e == 0:
                    out.append(s)
    return hash(tuple(out))


# ---------------------------------------------------------------------- value with errors
def err_gen(th):
    vm = [0, 1, 1.5, 1.96, 2, 2.5, 4.44, 5, 9, 9.4, 9.5, 9.94, 9.95, 9.96, 9.994, 9.995, 9.996, 9.9996, 3.14159, 7.77777] + ([1.005, 1.015, 6.6666, 8.95, 8.05, 1.0001, 2.0049] if th else [])
    for m in vm:
        for e in range(-7, 8):
            yield [m, e]


def parts(s):
    return Decimal(s), digits_shown(s)


def err_check(ctx, case):
    m, e = case
    out = []
    for sgn in (1, -1):
        v = sgn * float('%se%s' % (m, e))
        for em in (1, 1.04, 1.05, 1.5, 2.3, 4.95, 5, 9.4, 9.5, 9.94, 9.96):
            for ee in range(-7, 8):
                p = float('%se%s' % (em, ee))
                for ratio in (1, 0.5, 3.7):
                    for esf in (1, 2, 3):
                        fmt = NumberFormatter(err_sf=esf)
                        one(ctx, fmt, v, p, -p * ratio, esf, out)
    return hash(tuple(out))


def one(ctx, fmt, v, p, mi, esf, out):
    what = '%r +%r %r' % (v, p, mi)
    res, plus, minus = fmt.namesigFigs(v, p, mi)
    use = 1 if v >= 20 and p / (abs(v) + p) > 0.1 and p >= 2 else esf
    require(plus.startswith('+') and minus.startswith('-'), '%s: signs of errors %s %s', what, plus, minus)
    check_plain(plus[1:], Decimal(p), use, what)
    check_plain(minus, Decimal(mi), use, what)
    check_value(res, plus, minus, Decimal(v), v, p, what, fmt.sig_figs)
    u = fmt.namesigFigs(v, p, p, wantSign=False)
    require(u[1] == u[2] == plus[1:], '%s: unsigned errors %s', what, u)
    check_value(u[0], plus, plus, Decimal(v), v, p, what, fmt.sig_figs)
    r2, p2, m2, ex = fmt.namesigFigs(v, p, mi, sci=True)
    big = max(abs(v - mi), abs(v + p))
    exb = Decimal(big).adjusted()
    require(ex == (exb if abs(exb) > 4 else 0), '%s: exponent %s, expected that of %s', what, ex, big)
    if ex == 0:
        require((r2, p2, m2) == (res, plus, minus), '%s: scientific form without exponent differs', what)
    else:
        tol = Decimal('1e-15')
        check_plain(p2[1:], Decimal(p).scaleb(-ex), use, what + ' (scientific)', tol)
        check_plain(m2, Decimal(mi).scaleb(-ex), use, what + ' (scientific)', tol)
        check_value(r2, p2, m2, Decimal(v).scaleb(-ex), v, p, what + ' (scientific)', fmt.sig_figs, tol)
    ctx.step()
    out.append(res)


def check_value(res, plus, minus, d, v, p, what, sf, tol=Decimal(0)):
    require(re.fullmatch(r'-?(\d+|\d+\.\d+)', res) is not None, '%s: value text %r', what, res)
    r, dp = parts(res)
    dpp, dpm = digits_shown(plus), digits_shown(minus)
    require(dpp <= dp <= max(dpp, dpm), '%s: printed as %s %s %s: value and errors have different numbers of decimals', what, res, plus, minus)
    # printed value is within half a unit of its last figure, and has the decimals of the errors or the significant figures asked for
    frac = p / (abs(v) + p)
    want = 2 if frac > 0.1 and 100 > v >= 20 else 3 if frac > 0.01 and v < 1000 else sf
    unit = Decimal(1).scaleb(-dp)
    if dp == 0 and d != 0:
        unit = max(unit, Decimal(1).scaleb(max(d.adjusted(), r.adjusted() if r else d.adjusted()) - want + 1))
    require(abs(r - d) <= unit / 2 + abs(d) * tol, '%s: printed as %s %s %s, off by more than half a unit of the last figure', what, res, plus, minus)
    if r != 0:
        require((r < 0) == (d < 0), '%s: sign of %s', what, res)
    else:
        require(d == 0 or not res.startswith('-'), '%s: written as %s', what, res)


# ---------------------------------------------------------------------- tables
def tex_gen():
    for tag in ('two', '>', '<', 'none'):
        for limit in (1, 2):
            for m in (0, 1.23456, -9.96, 2.345678, 7.7, 999.96):
                for e in (-8, -5, -3, 0, 1, 3, 6):
                    for esf in (None, 1, 3):
                        for name in ('p', 'chi2_x', 'my_chi2'):
                            yield [tag, limit, m, e, esf, name]


NUM = r'([-+]?\d+(?:\.\d+)?)'


def tex_check(ctx, case):
    tag, limit, m, e, esf, name = case
    v = m * 10. ** e
    out = []
    for sig in (0.01, 0.5, 0.094, 1.96, 30):
        err = sig * 10. ** e
        for skew in (0., 0.05, 0.4, -0.05, -0.3):
            st = MargeStats()
            st.limits = [0.68, 0.95]
            st.hasBestFit = False
            par = ParamInfo(name=name, label='P')
            par.mean, par.err = v, err
            par.limits = [ParamLimit([v - err, v + err * (1 + skew)], tag), ParamLimit([v - 2.1 * err, v + 2 * err * (1 + skew)], tag)]
            st.names = [ParamInfo(name='other', label='O'), par]
            st.names[0].mean, st.names[0].err, st.names[0].limits = 77., 1., [ParamLimit([76, 78], 'two')] * 2
            f = NoLineTableFormatter()
            if esf:
                f.numberFormatter.err_sf = esf
            got = st.texValues(f, name, limit=limit)
            require(got == st.texValues(f, par, limit=limit), 'by name and by parameter')
            require(len(got) == 1, 'values %s', got)
            t = got[0]
            lim = par.limits[limit - 1]
            if name.startswith('chi2'):
                mt = re.fullmatch(NUM + r'(?:\\pm ' + NUM + r'|\\,\(\{\\nu\\rm\{:\}\\,' + NUM + r'\}\))', t)
                require(mt is not None, 'text %s', t)
                close(mt.group(1), v, err, 1, 'mean')
                if limit == 1:
                    cerr(mt.group(2), err, esf, v, 1)
                else:
                    require(mt.group(3) is not None and abs(float(mt.group(3)) - err ** 2 / 2) <= 0.0501 + 1e-12 * err ** 2, 'degrees of freedom %s of %s', mt.group(3), err)
            elif tag == 'none':
                require(t == f.noConstraint, 'no limit gives %s', t)
            else:
                base = re.fullmatch(r'\\left\(\\,(.*)\\,\\right\)\\cdot 10\^\{(-?\d+)\}', t)
                ex = 0
                body = t
                if base:
                    body, ex = base.group(1), int(base.group(2))
                if tag == 'two':
                    mt = re.fullmatch(NUM + r'(?:\\pm ' + NUM + r'|\^\{' + NUM + r'\}_\{' + NUM + r'\})', body)
                    require(mt is not None, 'text %s', t)
                    close(mt.group(1), v, max(err, lim.upper - v, v - lim.lower), 10. ** ex, 'value')
                    symmetric = limit == 1 and abs(abs((lim.upper - v) / (lim.lower - v)) - 1) <= 0.1
                    require((mt.group(2) is not None) == symmetric, 'limits %s %s of %s written as %s', lim.lower, lim.upper, v, t)
                    if mt.group(2):
                        cerr(mt.group(2), err, esf, v, 10. ** ex)
                    else:
                        cerr(mt.group(3), lim.upper - v, esf, v, 10. ** ex)
                        cerr(mt.group(4), lim.lower - v, esf, v, 10. ** ex)
                else:
                    mt = re.fullmatch(r'([<>]) ' + NUM + r'(?:\\cdot 10\^\{(-?\d+)\})?', t)
                    require(mt is not None, 'text %s', t)
                    x = lim.upper if tag == '>' else lim.lower
                    require(mt.group(1) == ('<' if tag == '>' else '>'), 'one-tail %s limit written as %s', tag, t)
                    got = float(mt.group(2)) * 10. ** int(mt.group(3) or 0)
                    require(abs(got - x) <= 0.00501 * abs(x) + 1e-300, 'limit %s written as %s', x, t)
            # with a best fit: as precise as a tenth of the range of the limits
            st.hasBestFit = True
            par.best_fit = v + 0.123 * err
            got = st.texValues(f, name, limit=limit)
            require(len(got) == 2 and got[0] == t, 'values with a best fit %s, without %s', got, t)
            mt = re.fullmatch(NUM + r'(?:\\cdot 10\^\{(-?\d+)\})?', got[1])
            require(mt is not None, 'best fit written as %s', got[1])
            close(mt.group(1), par.best_fit, (lim.upper - lim.lower) / 10, 10. ** int(mt.group(2) or 0), 'best fit')
            ctx.step()
            out.append(t)
    return hash(tuple(out))


# ---------------------------------------------------------------------- snippets for samples
def snip_gen():
    for r in (1, 2, 3, 4):
        for pars in itertools.permutations(['x', 'z', 'd', 'missing'], r):
            for limit in (1, 2):
                for esf in (None, 1, 2, 3):
                    yield [list(pars), limit, esf]


_snip = []


def snip_check(ctx, case):
    """getLatex and getInlineLatex of samples give each parameter's own label and the text checked above"""
    pars, limit, esf = case
    if not _snip:
        r = np.random.RandomState(5)
        v = r.standard_normal((800, 2))
        from getdist import MCSamples
        _snip.append(MCSamples(samples=np.c_[v[:, 0] * 1.2345 + 7, np.abs(v[:, 1]), v[:, 0] * 0.0123 + v[:, 1] * 0.01 + 55.5], names=['x', 'z', 'd*'], labels=['X_1', r'\zeta', ''], ranges={'z': [0, None]}, settings={'ignore_rows': 0},
                               sampler='uncorrelated'))
    s = _snip[0]
    m = s.getMargeStats()
    f = NoLineTableFormatter()
    if esf:
        f.numberFormatter.err_sf = esf
    lab = {'x': 'X_1', 'z': r'\zeta', 'd': 'd', 'missing': None}
    exp = {p: None if p == 'missing' else m.texValues(f, p, limit=limit)[0] for p in lab}
    for arg in (pars, tuple(pars)) + (() if 'missing' in pars else ([m.parWithName(p) for p in pars],)):
        labels, texs = s.getLatex(arg, limit, esf)
        ctx.step()
        require(labels == [lab[p] for p in pars] and texs == [exp[p] for p in pars], 'snippets %s %s for %s, expected %s %s', labels, texs, pars, [lab[p] for p in pars], [exp[p] for p in pars])
    for p in pars:
        for get in (s.getInlineLatex, s.getLatex):
            if p == 'missing':
                try:
                    get(p, limit, esf)
                except ValueError:
                    continue
                require(False, 'a snippet is given for a parameter that does not exist')
            t = get(p, limit, esf)
            require(t == lab[p] + (' ' if exp[p][0] in '<>' else ' = ') + exp[p], 'snippet %r for %s', t, p)
    labels, texs = s.getLatex(limit=limit, err_sig_figs=esf)
    require(labels == [lab[p] for p in 'xzd'] and texs == [exp[p] for p in 'xzd'], 'snippets of all parameters %s', labels)
    return repr(texs)


def close(txt, x, err, scale, what):
    # a printed number is within half a unit of one significant figure of the error, or of three figures of its own
    got = float(txt) * scale
    tol = max(0.5 * 10. ** np.floor(np.log10(err * 1.06)), 0.006 * abs(x)) * 1.001 + 1e-9 * abs(x)
    require(abs(got - x) <= tol, '%s %r written as %s (x %s)', what, x, txt, scale)


def cerr(txt, x, esf, v, scale):
    sf = 1 if v >= 20 else esf or 2
    tol = 0.5 * 10. ** (np.floor(np.log10(abs(x))) - sf + 1) * (1 + 1e-9) + 1e-9 * abs(v)
    require(abs(float(txt) * scale - x) <= tol, 'error %r of value %r written as %s (x %s)', x, v, txt, scale)


def scenarios(tier):
    th = tier == 'thorough'
    return [Enum('figs', lambda: figs_gen(th), figs_check), Enum('errors', lambda: err_gen(th), err_check), Enum('tex', tex_gen, tex_check), Enum('snippets', snip_gen, snip_check)]
