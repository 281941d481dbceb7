"""Cache transparency of chain loading."""
import itertools
import logging
import os
import shutil
import tempfile
import time

import numpy as np
from mc.core import Enum, require
from mc import faults
import getdist
from getdist import IniFile, loadMCSamples, chains

logging.disable(logging.CRITICAL)
chains.print_load_details = False

PROPERTY = 'C05'
LEVEL = 'model_checking'
RULE = ('history: every sequence load, up to two file events, load (thorough: three loads), over all load variants (settings/ini/no-cache) and file events '
        '(content edits, additions, removals, with newer or older file times, cache truncated/removed), last load compared with a cache-free load; '
        'torn: every crash point/torn prefix of writing the cache (fault injector), and every truncation of the cache file')
ASSUMPTIONS = ['a content change changes the file time or size (as any real edit does)', 'cache files are only written by this code; damage = truncation']

NROWS = 12


def chain_text(seed, n=NROWS, fixed=1.5, vary=True):
    rows = []
    for i in range(n):
        k = i * 7 + seed * 5
        x = ((k * 13) % 17) / 4. - 2
        y = ((k * 5) % 11) / 3. + 0.1 * x
        rows.append('%d %.6f %.6f %.6f %.6f' % (1 + (k % 3), 3 + 0.37 * (k % 9), x, y, fixed))
    return '\n'.join(rows) + '\n'


PARAMNAMES = 'x\tX_1\ny*\tY_d\nz\tZ\n'
FILES = {'r_1.txt': chain_text(1), 'r_2.txt': chain_text(2), 'r.paramnames': PARAMNAMES, 'r.ranges': 'x -3 N\ny N 9\nz 0 5\n',
         'custom.ini': 'ignore_rows = 0.25\ncontours = 0.5 0.9\nlimits[x] = -2.5 N\nmarker[y] = 2\nnum_bins = 50\n',
         # a neighbouring root, that must never be mixed in
         'r_x_1.txt': chain_text(9), 'r_x.paramnames': PARAMNAMES, 'rr_1.txt': chain_text(8)}

LOADS = {
    'default': {}, 'norows': dict(settings={'ignore_rows': 0}), 'rows3': dict(settings={'ignore_rows': 3}),
    'contours': dict(settings={'contours': '0.3 0.6'}), 'limits': dict(settings={'limits[x]': '-1 1.5', 'marker[x]': '0.5'}),
    'bins': dict(settings={'num_bins': 33, 'smooth_scale_1D': 0.4}), 'minw': dict(settings={'min_weight_ratio': 0.5}),
    'ini': dict(ini='custom.ini'), 'inifile_obj': dict(ini='custom.ini', obj=True, settings={'max_frac_twotail1': 0.2}), 'nocache': dict(no_cache=True),
}
EDITS = {
    'chain1': ('r_1.txt', chain_text(5)), 'append2': ('r_2.txt', FILES['r_2.txt'] + chain_text(7, 3)),
    'del2': ('r_2.txt', None), 'add3': ('r_3.txt', chain_text(3, 9)), 'relabel': ('r.paramnames', PARAMNAMES.replace('X_1', 'X_2')),
    'rename': ('r.paramnames', PARAMNAMES.replace('y*', 'why*')), 'ranges': ('r.ranges', 'x -2.25 2\ny 0 N\n'), 'noranges': ('r.ranges', None),
    'props': ('r.properties.ini', 'label = lab\nsampler = nested\nburn_removed = T\n'), 'props_rows': ('r.properties.ini', 'ignore_rows = 2\nlabel = L2\n'),
    'noprops': ('r.properties.ini', None), 'unfix': ('r_1.txt', chain_text(1, fixed=1.75)), 'custom': ('custom.ini', 'ignore_rows = 0.25\nnum_bins = 20\n'),
}
EVENTS = [[e, t] for e in EDITS for t in ('new', 'old') if not (EDITS[e][1] is None and t == 'old')] + [['cache', 'del'], ['cache', 'half'], ['cache', 'empty']]


def fresh(ctx, name='case'):
    d = os.path.join(ctx.scratch, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/chains')
    os.makedirs(d + '/cache')
    os.makedirs(d + '/oracle')
    t0 = time.time() - 50000
    for i, (fn, text) in enumerate(FILES.items()):
        p = os.path.join(d, 'chains', fn)
        with open(p, 'w') as f:
            f.write(text)
        os.utime(p, (t0 + i, t0 + i))
    return d


def do_load(d, how, oracle=False):
    kw = dict(LOADS[how])
    if 'ini' in kw:
        kw['ini'] = os.path.join(d, 'chains', kw['ini'])
        if kw.pop('obj', False):
            kw['ini'] = IniFile(kw['ini'])
    if 'settings' in kw:
        kw['settings'] = dict(kw['settings'])
    getdist.cache_dir = os.path.join(d, 'oracle' if oracle else 'cache')
    if oracle:
        kw['no_cache'] = True
    return loadMCSamples(os.path.join(d, 'chains', 'r'), **kw)


def cachefiles(d):
    return [os.path.join(d, 'cache', f) for f in os.listdir(d + '/cache')]


_clock = [0]


def do_edit(d, ev):
    what, t = ev
    if what == 'cache':
        for c in cachefiles(d):
            if t == 'del':
                os.remove(c)
            else:
                st = os.stat(c)
                with open(c, 'r+b') as f:
                    f.truncate(0 if t == 'empty' else st.st_size // 2)
                os.utime(c, (st.st_mtime, st.st_mtime))
        return
    fn, text = EDITS[what]
    p = os.path.join(d, 'chains', fn)
    if text is None:
        if os.path.exists(p):
            os.remove(p)
        return
    with open(p, 'w') as f:
        f.write(text)
    _clock[0] += 1
    cs = cachefiles(d)
    newest = max([os.path.getmtime(c) for c in cs] + [time.time() - 100])
    tm = newest + 0.01 * _clock[0] if t == 'new' else time.time() - 90000 + _clock[0]
    os.utime(p, (tm, tm))


SETTINGS = ['ignore_rows', 'ignore_lines', 'ignore_frac', 'min_weight_ratio', 'num_bins', 'fine_bins', 'num_bins_2D', 'fine_bins_2D', 'smooth_scale_1D',
            'smooth_scale_2D', 'boundary_correction_order', 'mult_bias_correction_order', 'max_corr_2D', 'max_scatter_points', 'credible_interval_threshold',
            'range_ND_contour', 'range_confidence', 'converge_test_limit', 'force_twotail', 'sampler', 'label', 'name_tag', 'corr_length_thin',
            'max_frac_twotail', 'markers', 'plot_output', 'rootname']


def observe(s):
    ob = dict(samples=s.samples.tolist(), weights=s.weights.tolist(), loglikes=s.loglikes.tolist(), contours=[float(x) for x in s.contours])
    ob['names'] = [(p.name, p.label, p.isDerived, sorted(p.renames)) for p in s.paramNames.names]
    ob['bounds'] = [(p.name, s.getLower(p.name), s.getUpper(p.name)) for p in s.paramNames.names]
    ob['ranges'] = str(s.ranges)
    ob['getBounds'] = str(s.getBounds())
    ob['chains'] = [c.samples.tolist() for c in s.getSeparateChains()]
    for a in SETTINGS:
        ob['set:' + a] = repr(getattr(s, a, None))
    ob['properties'] = sorted((k, str(v)) for k, v in s.properties.params.items())
    ob['ini'] = sorted((k, str(v)) for k, v in s.ini.params.items())
    ob['means'] = np.round(s.getMeans(), 12).tolist()
    ob['cov'] = np.round(s.getCovMat().matrix, 12).tolist()
    ob['like'] = str(s.getLikeStats()) if s.getLikeStats() else None
    ob['label'] = s.getLabel()
    return ob


def compare(got, exp, what):
    for k in exp:
        require(got[k] == exp[k], '%s: %s from the cache is %.300r, from the files %.300r', what, k, got[k], exp[k])


def history_check(ctx, case):
    d = fresh(ctx)
    used = None
    last = case[-1]
    for i, ev in enumerate(case):
        if ev[0] == 'load':
            try:
                s = do_load(d, ev[1])
                err = None
            except Exception as e:
                s, err = None, e
            used = s
            ctx.step()
        elif ev[0] == 'mutate':
            # changing the returned object in memory must not leak into later loads
            used.filter(np.arange(used.numrows) % 2 == 0)
            used.paramNames.names[0].label = 'changed'
            used.ranges.setRange('x', [-9, 9])
            used.updateSettings({'num_bins': 17})
        else:
            do_edit(d, ev)
    try:
        ref = do_load(d, last[1], oracle=True)
        referr = None
    except Exception as e:
        ref, referr = None, e
    if referr is not None:
        require(err is not None and type(err) == type(referr), 'cached load gave %r, uncached fails with %r', s, referr)
        return 'error %s' % type(referr).__name__
    if err is not None:
        raise err
    ro = observe(ref)
    compare(observe(s), ro, str(case))
    return repr(sorted(ro.items()))


def history_cases(tier):
    L = list(LOADS)
    ld = lambda x: ['load', x]
    for a, b in itertools.product(L, L):
        yield [ld(a), ld(b)]
        yield [ld(a), ['mutate', ''], ld(b)]
    for a, b, c in itertools.product(L, L, L):
        yield [ld(a), ld(b), ld(c)]
    for a in (L if tier != 'quick' else ['default', 'ini', 'rows3']):
        for ev in EVENTS:
            for b in (L if tier != 'quick' else sorted({a, 'default', 'ini', 'bins', 'nocache'})):
                yield [ld(a), ev, ld(b)]
                if tier != 'quick' or b == a:
                    yield [ld(a), ev, ld(b), ld(a)]
                    yield [ev, ld(a), ld(b)]
    for e1, e2 in itertools.product(EVENTS, EVENTS):
        yield [ld('default'), e1, e2, ld('default')]
        if tier != 'quick':
            yield [ld('default'), e1, ld('default'), e2, ld('default')]
            yield [ld('ini'), e1, ld('limits'), e2, ld('ini')]
            yield [ld('rows3'), e1, e2, ld('bins')]
        elif e1[1] == 'new' or e1[0] == 'cache':
            yield [ld('default'), e1, ld('default'), e2, ld('default')]


# ---- torn cache files and crash points
def torn_cases(tier):
    d0 = tempfile.mkdtemp(prefix='c05g')

    class C(object):
        scratch = d0
    for how in ('default', 'ini'):
        d = fresh(C)
        res, text, ops = faults.run(d + '/cache', lambda: do_load(d, how))
        yield dict(how=how, fault=None)
        if res == 'ok':
            for f in faults.points(ops, 200 if tier == 'quick' else 20000):
                yield dict(how=how, fault=f)
        d = fresh(C)
        do_load(d, how)
        cs = cachefiles(d)
        size = os.path.getsize(cs[0]) if cs else 0
        for n in (range(0, size) if tier != 'quick' else sorted(set(list(range(0, size, 61)) + list(range(max(0, size - 40), size))))):
            yield dict(how=how, fault=None, truncate=n)


_ref = {}


def torn_check(ctx, case):
    how = case['how']
    if how not in _ref:
        d = fresh(ctx)
        _ref[how] = observe(do_load(d, how, oracle=True))
    d = fresh(ctx)
    f = case['fault']
    if f is not None:
        res, text, _ = faults.run(d + '/cache', lambda: do_load(d, how), **f)
        ctx.step()
        if f['err'] == 0:
            require(res == 'killed', 'replay did not reach the crash point: %s %s', res, text)
    else:
        do_load(d, how)
        res = ''
        if 'truncate' in case:
            for c in cachefiles(d):
                st = os.stat(c)
                with open(c, 'r+b') as fh:
                    fh.truncate(case['truncate'])
                os.utime(c, (st.st_mtime, st.st_mtime))
    compare(observe(do_load(d, how)), _ref[how], str(case))
    compare(observe(do_load(d, how)), _ref[how], str(case) + ' second load')
    ctx.step(2)
    return how, res, bool(f), f and f['err']


def scenarios(tier):
    return [Enum('history', lambda: history_cases(tier), history_check), Enum('torn', lambda: torn_cases(tier), torn_check)]
