"""Cobaya run descriptions: parameter classes, ranges, labels, aliases, burn in; reading never alters the description."""
import copy
import itertools
import os

import numpy as np
import pandas as pd
import yaml

from mc.core import Bfs, Enum, require
from mc.gridlib import quiet, write
import getdist
from getdist import cobaya_interface as ci
from getdist import loadMCSamples
from getdist.mcsamples import MCSamples
from getdist.paramnames import ParamNames
from getdist.parampriors import ParamBounds
from getdist.yaml_tools import yaml_load_file

PROPERTY = 'C27'
LEVEL = 'model_checking'
RULE = ('every ordered triple of parameter specifications (quick: every ordered pair) from an alphabet covering all forms of sampled, derived, dynamical and fixed parameters, read from a dictionary and from a file; every combination '
        'of additions and removals by post-processing; every chain file layout, burn-in and sampler setting loaded from files; every sequence of reading operations on one description up to the depth, each compared with the definitions, with the description compared before and after')
ASSUMPTIONS = ['descriptions are the updated ones written by the sampler (every likelihood and prior removed by post-processing exists)', 'PyYAML is available']

INF = float('inf')
# name: (specification, class, range, label or None, aliases, in the range file)
S = {
    's_list': ({'prior': [0, 1], 'ref': [0.4, 0.5], 'proposal': 0.01, 'latex': 'S_1'}, 's', (0, 1), 'S_1', []),
    's_minmax': ({'prior': {'min': -2, 'max': 2.5}, 'renames': ['sm', 'sm2']}, 's', (-2, 2.5), None, ['sm', 'sm2']),
    's_uni': ({'prior': {'dist': 'uniform', 'min': -1, 'max': 1}, 'latex': r'\omega'}, 's', (-1, 1), r'\omega', []),
    's_min': ({'prior': {'min': 0.5}, 'renames': 'alias'}, 's', (0.5, None), None, ['alias']),
    's_norm': ({'prior': {'dist': 'norm', 'loc': 1, 'scale': 2}, 'latex': 'N'}, 's', (None, None), 'N', []),
    's_loc': ({'prior': {'loc': 1, 'scale': 2}}, 's', (1, 3), None, []),
    's_half': ({'prior': {'dist': 'halfnorm', 'loc': 1, 'scale': 0.2}, 'ref': 1.1}, 's', (1, None), None, []),
    's_std': ({'prior': {'dist': 'norm'}}, 's', (None, None), None, []),
    's_inf': ({'prior': {'min': -INF, 'max': 3}, 'drop': True}, 's', (None, 3), None, []),
    's_min0': ({'prior': {'min': 0}, 'latex': 'M'}, 's', (0, None), 'M', []),
    's_max0': ({'prior': {'max': 0}}, 's', (None, 0), None, []),
    's_lim0': ({'prior': {'dist': 'uniform', 'min': 0, 'max': 4}}, 's', (0, 4), None, []),
    's_list0': ({'prior': [-3, 0], 'renames': ['l0']}, 's', (-3, 0), None, ['l0']),
    's_locscale': ({'prior': {'dist': 'uniform', 'loc': -1, 'scale': 3}}, 's', (-1, 2), None, []),
    'd_lim0': ({'derived': True, 'max': 0, 'latex': 'Q'}, 'd', (None, 0), 'Q', []),
    'd_none': (None, 'd', (None, None), None, []),
    'd_empty': ({}, 'd', (None, None), None, []),
    'd_latex': ({'latex': r'\sigma_8', 'renames': ['s8']}, 'd', (None, None), r'\sigma_8', ['s8']),
    'd_lim': ({'latex': 'D', 'min': 0, 'max': 10}, 'd', (0, 10), 'D', []),
    'd_flag': ({'derived': True, 'min': 0.1}, 'd', (0.1, None), None, []),
    'd_fun': ({'derived': 'lambda s_list: 2*s_list', 'latex': 'F'}, 'd', (None, None), 'F', []),
    'd_dyn': ({'value': 'lambda s_list: s_list**2', 'latex': 'Y', 'max': 7}, 'd', (None, 7), 'Y', []),
    'd_str': ('lambda s_list: 3*s_list', 'd', (None, None), None, []),
    'f_num': (0.06, 'f', (0.06, 0.06), None, []),
    'f_zero': (0, 'f', (0, 0), None, []),
    'f_zerof': ({'value': 0.0, 'latex': 'Z'}, 'f', (0, 0), 'Z', []),
    'f_int': (3, 'f', (3, 3), None, []),
    'f_dict': ({'value': -1.5, 'latex': 'w'}, 'f', (-1.5, -1.5), 'w', []),
    'h_dyn': ({'value': 'lambda s_list: 1-s_list', 'derived': False, 'latex': 'h'}, 'h', (None, None), 'h', []),
}
FUNC = {'d_call': ({'value': abs, 'latex': 'C'}, 'd', (None, None), 'C', []), 'h_call': ({'value': abs, 'derived': False}, 'h', (None, None), None, [])}
ALL = dict(S, **FUNC)
EXTRA = [('minuslogprior', r'-\log\pi'), ('chi2', r'\chi^2')]


def like_label(n):
    return r'\chi^2_\mathrm{' + n.replace('_', r'\ ') + '}'


def prior_label(n):
    return r'-\log\pi_\mathrm{' + n.replace('_', r'\ ') + '}'


def mkinfo(keys, **kw):
    info = {'params': {k: copy.deepcopy(ALL[k][0]) for k in keys}, 'likelihood': {'like_a': None, 'b': {'x': 1}}, 'sampler': {'mcmc': {'max': 10, 'burn_in': 20, 'skip': 3}}, 'label': 'my label'}
    info.update(copy.deepcopy(kw))
    return info


def table(keys, likes=('like_a', 'b'), priors=('0',)):
    """expected name -> (class, range, label, aliases)"""
    t = {}
    for k in keys:
        sp = ALL[k]
        t[k] = (sp[1], sp[2], k if sp[3] is None else sp[3], sp[4])
    t['minuslogprior'] = ('d', (None, None), r'-\log\pi', [])
    for p in priors:
        t['minuslogprior__' + p] = ('d', (None, None), prior_label(p), [])
    t['chi2'] = ('d', (None, None), r'\chi^2', [])
    for p in likes:
        t['chi2__' + p] = ('d', (None, None), like_label(p), [])
    return t


def columns(t):
    return [k for k in t if t[k][0] == 's'] + [k for k in t if t[k][0] == 'd']


def check_info(ip, t):
    require(list(ip) == list(t) or sorted(ip) == sorted(t), 'parameters %r, expected %r', list(ip), list(t))
    for k in t:
        cls, rng, label, al = t[k]
        got = (ci.is_sampled_param(ip[k]), bool(ci.is_derived_param(ip[k])), ci.is_fixed_param(ip[k]))
        exp = (cls == 's', cls == 'd', cls in 'fh' or k in ('d_dyn', 'd_str', 'd_call'))
        require(got == exp, '%s: sampled, derived, fixed = %r, expected %r', k, got, exp)
        r = ci.get_range(ip[k])
        require(tuple(r) == rng, '%s: range %r, expected %r', k, r, rng)
        require(ci.is_parameter_with_range(ip[k]) == (cls != 'h'), '%s has a range', k)


def check_names(pn, t):
    require(pn.list() == columns(t), 'names %r, expected %r', pn.list(), columns(t))
    for p in pn.names:
        cls, rng, label, al = t[p.name]
        require(p.label == label, 'label %r of %s, expected %r', p.label, p.name, label)
        require(bool(p.isDerived) == (cls == 'd'), '%s derived: %r', p.name, p.isDerived)
        require(list(p.renames) == al, 'aliases %r of %s, expected %r', p.renames, p.name, al)


def check_bounds(b, t):
    for k, (cls, rng, label, al) in t.items():
        if cls == 'h':
            continue
        require((b.getLower(k), b.getUpper(k)) == rng, 'range of %s: %r, expected %r', k, (b.getLower(k), b.getUpper(k)), rng)


class Collection(object):
    def __init__(self, df):
        self.data = df

    def __getitem__(self, k):
        return self.data[k]


def collection(t, n=1, order=0):
    cols = columns(t)
    if order:
        cols = cols[::-1]
    out = []
    for i in range(n):
        df = pd.DataFrame({'weight': [1., 2., 1.], 'minuslogpost': [3., 2., 1.]})
        for j, c in enumerate(cols):
            df[c] = [j + .1 + i, j + .2 + i, j + .4 + i]
        out.append(Collection(df))
    return out


def check_samples(mc, t, cols, n=1):
    require(mc.paramNames.list() == cols, 'names %r', mc.paramNames.list())
    for j, p in enumerate(mc.paramNames.names):
        cls, rng, label, al = t[p.name]
        require(p.label == label and bool(p.isDerived) == (cls == 'd') and list(p.renames) == al, 'parameter %s: label %r derived %r aliases %r', p.name, p.label, p.isDerived, p.renames)
        require(mc[p.name][0] == j + .1, 'values of %s', p.name)
        for a in al:
            q = mc.paramNames.parWithName(a)
            require(q is not None and q.name == p.name, 'parameter with alias %s', a)
    check_bounds(mc.ranges, t)
    require(list(mc.weights) == [1, 2, 1] * n and list(mc.loglikes) == [3, 2, 1] * n, 'weights')


# ---- forms
def form_gen(r):
    def gen():
        for keys in itertools.permutations(sorted(ALL), 2):
            yield list(keys)
        if r > 2:
            for keys in itertools.permutations(sorted(ALL), 3):
                yield list(keys)
    return gen


def form_check(ctx, case):
    if not any(ALL[k][1] in 'sd' for k in case):
        case = case + ['s_list']
    info = mkinfo(case)
    orig = copy.deepcopy(info)
    t = table(case)
    ctx.step(3)
    check_info(ci.get_info_params(info), t)
    check_info({k: info['params'][k] for k in case}, {k: t[k] for k in case})
    require(info == orig, 'reading parameters changed the description')
    for n, order in ((1, 0), (2, 1)):
        with quiet():
            mc = ci.MCSamplesFromCobaya(info, collection(t, n, order), ignore_rows=0)
        check_samples(mc, t, columns(t)[::-1] if order else columns(t), n)
        require(mc.label == 'my label' and mc.sampler == 'mcmc', 'label %r sampler %r', mc.label, mc.sampler)
        require(info == orig, 'making samples changed the description')
    # chains with their columns in different orders: refused, or each with its own values
    two = collection(t, 2)
    two[1].data = two[1].data[list(two[1].data)[:2] + list(two[1].data)[:1:-1]]
    try:
        with quiet():
            mc = ci.MCSamplesFromCobaya(info, two, ignore_rows=0)
    except ValueError:
        mc = None
    if mc is not None:
        for p in columns(t):
            require(list(mc[p]) == list(two[0].data[p]) + list(two[1].data[p]), 'values of %s from chains with columns in different orders', p)
    if not any(k in FUNC for k in case):
        d = ctx.scratch
        f = os.path.join(d, 'x.updated.yaml')
        write(f, yaml.dump(info, sort_keys=False))
        ctx.step(2)
        pn = ParamNames(f)
        check_names(pn, t)
        require(pn.info_dict == orig, 'description stored with the names is not that in the file')
        check_bounds(ParamBounds(f), t)
        check_info(ci.get_info_params(f), t)
        require(ci.get_sampler_type(f) == 'mcmc' and ci.get_sample_label(f) == 'my label' and not ci.get_burn_removed(f), 'sampler, label or burn-in')
    return [t[k][:2] for k in case]


# ---- post processing
def post_gen():
    for rp, rl, rpr, ap, al, apr, null in itertools.product(range(6), range(4), range(3), range(6), range(3), range(2), range(2)):
        yield [rp, rl, rpr, ap, al, apr, null]


RP = [None, ['d_latex'], 'd_latex', {'d_latex': None, 'd_lim': None}, ['missing', 'd_latex'], 'missing']
RL = [None, 'b', ['b', 'like_a'], 'like_a']
RPR = [None, 'p1', ['p1']]
AP = [None, {'new': {'latex': 'NEW', 'min': 1}}, {'new': None}, {'s_list': {'prior': {'min': .2, 'max': .8}}}, {'d_none': {'latex': 'now', 'max': 4}}, {'f_num': {'latex': 'fixed'}}]
AL = [None, {'c_c': None}, {'c_c': {'y': 2}, 'e': None}]


def post_check(ctx, case):
    rp, rl, rpr, ap, al, apr, null = case
    keys = ['s_list', 'd_latex', 'd_lim', 'd_none', 'f_num', 'd_dyn']
    remove, add = {}, {}
    for dct, k, v in ((remove, 'params', RP[rp]), (remove, 'likelihood', RL[rl]), (remove, 'prior', RPR[rpr]), (add, 'params', AP[ap]), (add, 'likelihood', AL[al]), (add, 'prior', [None, {'extra_p': 'lambda s_list: 0'}][apr])):
        if v is not None or null:
            dct[k] = v
    post = {'suffix': 'x'}
    if remove:
        post['remove'] = remove
    elif null:
        post['remove'] = None
    if add:
        post['add'] = add
    info = mkinfo(keys, post=post, prior={'p1': 'lambda s_list: 1', 'p2': 'lambda s_list: 2'})
    orig = copy.deepcopy(info)
    gone = [] if RP[rp] is None else [RP[rp]] if isinstance(RP[rp], str) else list(RP[rp])
    likes = [x for x in ('like_a', 'b') if x not in ([] if RL[rl] is None else [RL[rl]] if isinstance(RL[rl], str) else RL[rl])] + list(AL[al] or [])
    priors = ['0'] + [x for x in ('p1', 'p2') if not RPR[rpr] or x != 'p1'] + (['extra_p'] if apr else [])
    t = table([k for k in keys if k not in gone], likes, priors)
    base = {k: t[k] for k in t if k in keys}
    rest = {k: t[k] for k in t if k not in keys}
    if ap == 1:
        base['new'] = ('d', (1, None), 'NEW', [])
    elif ap == 2:
        base['new'] = ('d', (None, None), 'new', [])
    elif ap == 3:
        base['s_list'] = ('s', (.2, .8), 'S_1', [])
    elif ap == 4:
        base['d_none'] = ('d', (None, 4), 'now', [])
    t = dict(base, **rest)
    for rep in range(2):
        ctx.step()
        check_info(ci.get_info_params(info), t)
        require(info == orig, 'reading parameters changed the description')
    with quiet():
        mc = ci.MCSamplesFromCobaya(info, collection(t), ignore_rows=0)
    check_samples(mc, t, columns(t))
    require(info == orig, 'making samples changed the description')
    f = os.path.join(ctx.scratch, 'p.updated.yaml')
    write(f, yaml.dump(info, sort_keys=False))
    check_names(ParamNames(f), t)
    check_bounds(ParamBounds(f), t)
    return sorted(t)


# ---- loading chains described by such files
def load_gen():
    for layout in ('dot', 'full', 'dir', 'both', 'dirfull', 'dirboth', 'small'):
        for skip in (None, 0, 0.2, 5):
            for ign in (None, 0, 0.5, 2):
                for sampler in (None, 'mcmc', 'polychord'):
                    if sampler == 'polychord' and ign != 0:
                        continue
                    for label in (0, 1):
                        yield [layout, skip, ign, sampler, label]


def load_check(ctx, case):
    layout, skip, ign, sampler, label = case
    d = ctx.newdir('l')
    keys = ['s_list', 's_norm', 'd_lim', 'f_num', 'd_none']
    kw = {}
    if skip is not None:
        kw['post'] = {'suffix': 'p', 'skip': skip}
    info = mkinfo(keys, **kw)
    if sampler is None:
        del info['sampler']
    else:
        info['sampler'] = {sampler: {'burn_in': 5, 'skip': 4, 'ignore_rows': 0.4}}
    if not label:
        del info['label']
    t = table(keys)
    if layout == 'small':
        keys = ['s_norm', 'f_num']
        info['params'] = {'s_norm': {'prior': {'dist': 'norm', 'loc': 1, 'scale': 2}}, 'f_num': .06}
        info['likelihood'] = {'b': None}
        t = table(keys, ['b'])
        t['s_norm'] = ('s', (None, None), 's_norm', [])
    root = {'dirfull': d + '/', 'dirboth': d + '/', 'small': d + '/ch', 'dot': d + '/ch', 'full': d + '/ch', 'both': d + '/ch', 'dir': d + '/'}[layout]
    text = yaml.dump(info, sort_keys=False)
    if layout == 'dot':
        write(d + '/ch.updated.yaml', text)
    elif layout == 'full':
        write(d + '/ch__full.yaml', text)
    elif layout == 'dir':
        write(d + '/updated.yaml', text)
    elif layout == 'dirfull':
        write(d + '/full.yaml', text)
    elif layout == 'dirboth':
        write(d + '/full.yaml', yaml.dump(mkinfo(['s_min', 'd_latex'])))
        write(d + '/updated.yaml', text)
    else:
        write(d + '/ch.updated.yaml', text)
        write(d + '/ch__full.yaml', yaml.dump(mkinfo(['s_min', 'd_latex'])))
    want = {'dot': 'ch.updated.yaml', 'both': 'ch.updated.yaml', 'full': 'ch__full.yaml', 'dir': 'updated.yaml', 'dirfull': 'full.yaml', 'dirboth': 'updated.yaml', 'small': 'ch.updated.yaml'}[layout]
    got = ci.cobaya_params_file(root)
    require(got is not None and os.path.normpath(got) == d + '/' + want, 'description file %r', got)
    require(ci.cobaya_params_file(d + '/other') is None, 'description found for another root')
    cols = columns(t)
    n = 10
    rows = [[1 + i % 2, 10 + i] + [j + .1 * i for j in range(len(cols))] for i in range(n)]
    # a number of lines to ignore includes the heading line
    head = '' if (ign or 0) >= 1 else '# ' + ' '.join(['weight', 'minuslogpost'] + cols) + '\n'
    for c in (1, 2):
        write('%s%s%d.txt' % (root, '' if layout[:3] == 'dir' else '.', c), head + ''.join(' '.join('%.5f' % v for v in r) + '\n' for r in rows))
    ctx.step()
    require(ci.get_sample_label(info) == ('my label' if label else None), 'label')
    if layout[:3] == 'dir':
        pn = ParamNames(got)
        check_names(pn, t)
        check_bounds(ParamBounds(got), t)
        import shutil
        shutil.rmtree(d)
        return case[:2]
    with quiet():
        mc = loadMCSamples(root, settings=None if ign is None else {'ignore_rows': ign}, no_cache=True)
    check_names(mc.paramNames, t)
    check_bounds(mc.ranges, t)
    require(mc.ranges.fixedValue('f_num') == .06 and mc.getParamSampleDict(0)['f_num'] == .06, 'fixed value')
    require(mc.sampler == {None: 'mcmc', 'mcmc': 'mcmc', 'polychord': 'nested'}[sampler], 'sampler %r', mc.sampler)
    require(mc.getLabel() == ('my label' if label else 'ch'), 'label %r', mc.getLabel())
    ign = 0.3 if ign is None else ign
    if skip:
        drop = 0
    else:
        drop = int(ign) if ign >= 1 else int(round(n * ign))
    require(mc.numrows == 2 * (n - drop), '%s rows after loading, expected %s (already skipped %s, asked to ignore %s)', mc.numrows, 2 * (n - drop), skip, ign)
    require(np.allclose(mc['s_norm'][0], cols.index('s_norm') + .1 * drop), 'first row')
    out = d + '/saved'
    with quiet():
        mc.saveAsText(out)
    b = ParamBounds(out + '.ranges')
    for k in t:
        if t[k][0] != 'h':
            require((b.getLower(k), b.getUpper(k)) == t[k][1], 'saved range of %s', k)
    import shutil
    shutil.rmtree(d)
    return [drop, mc.sampler]


# ---- numbers in yaml files
NUM = {'1e2': 100., '1e-10': 1e-10, '-1.5E3': -1500., '3.': 3., '+2': 2, '-7': -7, '0.06': .06, '1E+2': 100., '.5': .5, '.inf': INF, '-.inf': -INF, '2.5e-3': .0025, '0': 0, '1_000': 1000, 'abc': 'abc', '1e': '1e', 'e5': 'e5', '': None, 'true': True, '"1e2"': '1e2'}


def num_gen():
    for a, b in itertools.product(sorted(NUM), repeat=2):
        yield [a, b]


def num_check(ctx, case):
    f = os.path.join(ctx.scratch, 'n.yaml')
    write(f, 'x: %s\ny:\n  - %s\nz: {q: [%s, 1]}\nfun: !!python/name:numpy.exp\n' % (case[0], case[1], case[0] or 'null'))
    ctx.step()
    r = yaml_load_file(f)
    a, b = NUM[case[0]], NUM[case[1]]
    require(r['x'] == a and type(r['x']) == type(a) and r['y'] == [b] and r['z']['q'][0] == a, 'numbers %r read as %r', case, r)
    require(r['fun'] is None, 'python object')
    return repr(a)


# ---- histories
def hist_build(ctx, cfg, hist):
    keys = cfg
    info = mkinfo(keys, post={'suffix': 'p', 'skip': 0.1, 'add': {'params': {'new': {'latex': 'n'}, keys[0]: {'latex': 'zz'}}}})
    orig = copy.deepcopy(info)
    t = table(keys)
    cls, rng, label, al = t[keys[0]]
    t[keys[0]] = (cls, rng, 'zz', al)
    base = {k: t[k] for k in keys}
    base['new'] = ('d', (None, None), 'n', [])
    t = dict(base, **{k: v for k, v in t.items() if k not in keys})
    ip = None
    for ev in hist:
        ctx.step()
        if ev == 'params':
            ip = ci.get_info_params(info)
            check_info(ip, t)
        elif ev == 'again' and ip is not None:
            check_info(ip, t)
        elif ev == 'spoil' and ip is not None:
            # a caller may change what it was given
            for v in ip.values():
                if isinstance(v, dict):
                    v['latex'] = 'spoilt'
                    v.setdefault('renames', []).append('spoilt') if isinstance(v.get('renames', []), list) else None
                    if isinstance(v.get('prior'), dict):
                        v['prior']['min'] = 99
            ip = None
        elif ev == 'raw':
            for k in keys:
                require(tuple(ci.get_range(info['params'][k])) == ALL[k][2], 'range of %s after %r', k, hist)
        elif ev == 'samples':
            with quiet():
                mc = ci.MCSamplesFromCobaya(info, collection(t), ignore_rows=0)
            check_samples(mc, t, columns(t))
        elif ev == 'burn':
            require(ci.get_burn_removed(info) == 0.1, 'burn-in removed')
        require(info == orig, '%s changed the description', ev)
    return dict(keys=keys, ip=ip is not None, last=hist[-1:], n=min(len(hist), 4))


def scenarios(tier):
    deep = tier == 'thorough'
    cfg = [['s_list', 'd_none'], ['s_norm', 'f_dict'], ['d_latex', 's_half'], ['d_empty', 's_loc'], ['s_minmax', 'd_str']]
    return [
        Enum('forms', form_gen(3 if deep else 2), form_check),
        Enum('post', post_gen, post_check),
        Enum('load', load_gen, load_check),
        Enum('numbers', num_gen, num_check),
        Bfs('history', lambda: cfg, hist_build, lambda st: ['params', 'again', 'spoil', 'raw', 'samples', 'burn'], lambda st: st, 5 if deep else 4),
    ]
