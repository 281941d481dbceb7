"""Expansion of grid definitions into jobs."""
import copy
import itertools
import os

from mc.core import Bfs, Enum, require, Violation
from mc import gridlib
from mc.gridlib import quiet
from paramgrid import batchjob

PROPERTY = 'C17'
LEVEL = 'model_checking'
RULE = ('expand: every definition with one group over alphabets of parameter lists, data-set lists, group importance runs (plain, conditional, classes, filters), global importance runs, '
        'importance filters and skipped names, and every definition with two groups over smaller alphabets, with extra jobs, expanded twice and compared job by job with a declarative expansion; '
        'datasets: BFS over operations on data sets built from shared lists, all objects compared with a model after every operation')
ASSUMPTIONS = ['a definition lists each full (non-importance) combination once', 'data and parameter names have no underscores',
               'conditions on importance runs depend on the parameters and data of the job only', 'importance filters for all jobs are not also listed as importance runs']

PATH = '/grid' + os.sep


def I(names, inis=None, form='list', want=None, dist=None, minimize=True):
    return dict(names=names, inis=inis if inis is not None else [n + '.ini' for n in names], form=form, want=want, dist=dist, min=minimize)


PARAMS = [[[]], [['mnu']], [[], ['mnu']], [['nnu', 'mnu'], []], [[], ['mnu'], ['nnu', 'mnu']]]
A, B, C = ['A', None, None], ['B', ['B.ini'], {'x': '1'}], ['C', ['c1', {'k': '2'}], None]
AB, BA, AC, CBA = [['A', 'B'], ['A.ini', 'B.ini'], {'y': '2'}], [['B', 'A'], None, None], [['A', 'C'], 'one', None], [['C', 'B', 'A'], {'z': '1'}, None]
DATA = [[A], [A, B], [A, AB], [AB, A, B, AC], [BA, A, C]]
GIMP = [[], [I(['B'])], [I(['B']), I(['C'], ['C'])], [I(['C', 'B']), I(['B'])], [I(['B'], form='setting', dist={'y': '5', 'w': '1'}, minimize=False)],
        [I(['B'], form='list3', want=['param', 'mnu'])], [I(['C'], 'C', form='setting', want=['nodata', 'B']), I(['h'], form='filter', dist={'l': '1'})],
        [I(['B'], {'q': '1'}), I(['B'])]]
IMP = [None, [], [I(['C'])], [I(['B']), I(['C'], form='list3', want=['data', 'A'])]]
FILTERS = [None, [I(['f'], form='filter')], [I(['f'], form='filter', want=['noparam', 'mnu']), I(['g'], form='filter', dist={'m': '2'})]]
SKIP = [[], ['base_A'], ['base_A_post_B'], ['base_mnu_A_post_B_f', 'base_A_B']]


def spec(groups, imp, filters, skip, jobs=None):
    s = dict(groups=groups, skip=skip)
    if imp is not None:
        s['imp'] = imp
    if filters is not None:
        s['filters'] = filters
    if jobs:
        s['jobs'] = jobs
    return s


def gen():
    for p, d, gi, im, fi, sk in itertools.product(range(len(PARAMS)), range(len(DATA)), range(len(GIMP)), range(len(IMP)), range(len(FILTERS)), range(len(SKIP))):
        yield ['one', p, d, gi, im, fi, sk]
    for p1, p2, d1, d2 in itertools.product((0, 2, 4), (1, 3, 4), range(len(DATA)), range(len(DATA))):
        names = [set(('_'.join(['base'] + q), tuple(sorted([x[0]] if isinstance(x[0], str) else x[0]))) for q in PARAMS[p] for x in DATA[d]) for p, d in ((p1, d1), (p2, d2))]
        if names[0] & names[1]:
            continue
        for g1, g2, im, fi, jobs in itertools.product((0, 2, 5), (1, 3, 6), (0, 2, 3), (0, 1), (0, 1)):
            yield ['two', p1, p2, d1, d2, g1, g2, im, fi, jobs]


JOBS = [[['w'], CBA, 'alt'], [[], ['X', ['X'], None], 'base']]


def mkspec(case):
    if case[0] == 'one':
        _, p, d, gi, im, fi, sk = case
        return spec([dict(name='g1', params=PARAMS[p], data=DATA[d], imp=GIMP[gi], extra={'o': '1'} if p % 2 else None, ctor=bool(d % 2))], IMP[im], FILTERS[fi], SKIP[sk])
    _, p1, p2, d1, d2, g1, g2, im, fi, jobs = case
    return spec([dict(name='g1', params=PARAMS[p1], data=DATA[d1], imp=GIMP[g1], extra={'o': '1'}, ctor=True),
                 dict(name='g2', params=PARAMS[p2], data=DATA[d2], imp=GIMP[g2], pextra={'mnu': {'n': '3'}})], IMP[im], FILTERS[fi], [], JOBS if jobs else None)


def snap(settings):
    out = []
    for g in settings.groups:
        out.append([g.groupName, copy.deepcopy(g.params), [[list(d.names), copy.deepcopy(d.params), d.tag, dict(d.dist_settings)] for d in g.datasets], [impsnap(i) for i in g.importanceRuns],
                    copy.deepcopy(getattr(g, 'extra_opts', None)), copy.deepcopy(getattr(g, 'param_extra_opts', None))])
    out.append([impsnap(i) for i in getattr(settings, 'importanceRuns', [])])
    out.append([impsnap(i) for i in getattr(settings, 'importance_filters', [])])
    return out


def impsnap(i):
    if isinstance(i, list):
        return [list(i[0]), copy.deepcopy(i[1])]
    return [list(i.names), None if isinstance(i, batchjob.importanceFilter) else copy.deepcopy(i.inis), dict(i.dist_settings), i.want_minimize]


def check_item(j, r, sp):
    for attr, val in (('name', r['name']), ('paramtag', r['paramtag']), ('datatag', r['datatag']), ('chainRoot', r['chainRoot']), ('distRoot', r['distRoot']),
                      ('relativePath', r['relativePath']), ('group', r['group']), ('isImportanceJob', r['imp']), ('want_minimize', r['minimize']), ('batchPath', PATH),
                      ('chainPath', PATH + r['relativePath']), ('distPath', PATH + r['relativePath'] + 'dist' + os.sep)):
        require(getattr(j, attr) == val, '%s of job %s is %r, should be %r', attr, r['name'], getattr(j, attr), val)
    require(dict(j.dist_settings) == r['dist'], 'dist settings of %s: %r not %r', r['name'], j.dist_settings, r['dist'])
    require(list(j.param_set) == r['params'], 'parameters of %s: %r', r['name'], j.param_set)
    require(list(j.data_set.names) == r['names'], 'data of %s: %r not %r', r['name'], j.data_set.names, r['names'])
    b, p, d = r['key']
    require(j.normed_name == '_'.join((b,) + p + d) and j.normed_params == '_'.join(p) and j.normed_data == '_'.join(d), 'normed names of %s: %s', r['name'], j.normed_name)
    sub = 'postIniFiles' if r['imp'] else 'iniFiles'
    require(j.iniFile() == PATH + sub + os.sep + r['name'] + '.ini' and j.iniFile('_minimize') == PATH + sub + os.sep + r['name'] + '_minimize.ini', 'settings file of %s: %s', r['name'], j.iniFile())
    require(j.chainName(3) == r['chainRoot'] + '_3.txt' and j.chainNames(2) == [r['chainRoot'] + '_1.txt', r['chainRoot'] + '_2.txt'], 'chain names of %s: %r', r['name'], j.chainNames(2))
    require(j.propertiesIniFile() == r['chainRoot'] + '.properties.ini', 'properties file of %s', r['name'])
    if r['imp']:
        require(j.parent.name == r['parent']['name'], 'parent of %s: %s', r['name'], j.parent.name)
        require(j.importanceTag == r['importanceTag'], 'importance tag of %s', r['name'])
        require((getattr(j, 'importanceFilter', None) is not None) == r['filter'], 'filter of %s', r['name'])
        if not r['filter']:
            require(list(j.importanceSettings) == r['inis'], 'importance settings of %s: %r not %r', r['name'], j.importanceSettings, r['inis'])
    else:
        require(j.data_set.params == r['data_params'], 'data settings of %s: %r not %r', r['name'], j.data_set.params, r['data_params'])
        require(getattr(j, 'extra_opts', None) == r['extra'] and getattr(j, 'param_extra_opts', None) == r['pextra'], 'extra options of %s', r['name'])


def check(ctx, case):
    sp = mkspec(case)
    settings = gridlib.mk_settings(sp)
    before = snap(settings)
    full = gridlib.ref_expand(sp, PATH)
    first = None
    for rep in range(2):
        if sp.get('jobs'):
            settings.jobItems = [batchjob.jobItem(PATH, list(p), gridlib.mk_data(d), base=b) for p, d, b in sp['jobs']]
        batch = batchjob.batchJob(PATH, 'ini/')
        batch.skip = list(sp['skip'])
        with quiet():
            batch.makeItems(settings)
        require(snap(settings) == before, 'expanding changed the definition')
        ctx.step(len(batch.jobItems))
        compare(sp, full, batch)
        res = [j.name for j in batch.items(wantImportance=True)]
        require(first in (None, res), 'second expansion differs')
        first = res
    return res


def compare(sp, full, batch):
    got = list(batch.items(wantImportance=True))
    names = [j.name for j in got]
    require(len(set(id(j) for j in got)) == len(got), 'job listed twice')
    require([j.name for j in batch.items()] == [r['name'] for r in full] and [j.name for j in batch.jobItems] == [r['name'] for r in full], 'full runs %r, should be %r', [j.name for j in batch.items()], [r['name'] for r in full])
    fullkeys = set(r['key'] for r in full)
    refs = list(gridlib.walk(full))
    # combinations that the definition describes and which are not hidden by name
    expected, maybe = set(), set()
    for r in refs:
        if r['imp'] and r['key'] not in fullkeys:
            (maybe if r['name'] in sp['skip'] or (r['parent']['imp'] and r['parent']['name'] in sp['skip']) else expected).add(r['key'])
    byname = {}
    for r in refs:
        byname.setdefault(r['name'], []).append(r)
    seen = {}
    for j in got:
        require(j.name in byname, 'job %s is not in the definition', j.name)
        require(j.name not in sp['skip'], 'skipped job %s listed', j.name)
        cands = [r for r in byname[j.name] if r['imp'] == j.isImportanceJob]
        require(cands, 'job %s importance flag', j.name)
        for n, r in enumerate(cands):
            # the same run may be described more than once, with different options: it must be one of them
            try:
                check_item(j, r, sp)
                break
            except Violation:
                if n == len(cands) - 1:
                    raise
        require(r['key'] not in seen, 'equal combinations %s and %s', j.name, seen.get(r['key']))
        seen[r['key']] = j.name
        if r['imp']:
            require(r['key'] not in fullkeys, 'importance job %s equals a full run', j.name)
    imps = set(k for k in seen if k not in fullkeys)
    require(expected <= imps, 'missing combinations %r', sorted(expected - imps))
    require(imps <= expected | maybe, 'unexpected combinations %r', sorted(imps - expected - maybe))
    # importance jobs follow their full run
    cur = None
    for j in got:
        if not j.isImportanceJob:
            cur = j
        else:
            top = j
            while top.isImportanceJob:
                top = top.parent
            require(top is cur, 'importance job %s listed after %s', j.name, cur.name)
    objs = [id(j.dist_settings) for j in got]
    require(len(set(objs)) == len(objs), 'jobs share settings')


# ---- data sets
OPS = [['add', 'N', None, True, None], ['add', 'N', ['n1', {'k': '1'}], True, {'s': '2'}], ['add', 'M', 'm.ini', False, None], ['add', None, {'d': '3'}, True, None],
       ['addEnd', 'E', ['e'], None, {'s': '3', 't': '4'}], ['addEnd', None, 'z', None, None]]


def dsinit():
    return [[n, p, d] for n in (['A', 'B'], 'A') for p in (None, ['a', {'k': '0'}], 'a') for d in (None, {'s': '1'})]


def dsbuild(ctx, config, hist):
    names, params, dist = copy.deepcopy(config)
    args = [names, params, dist]
    # two data sets from the same arguments, a copy, and an importance extension
    x = batchjob.dataSet(names, params=params, dist_settings=dist)
    y = batchjob.dataSet(names, params=params, dist_settings=dist)
    nm = [names] if isinstance(names, str) else list(names)
    m0 = [list(nm), ['%s.ini' % n for n in nm] if config[1] is None else gridlib.ini(config[1]), dict(config[2] or {})]
    objs = [[x, copy.deepcopy(m0)], [y, copy.deepcopy(m0)]]
    verify(objs, args, config)
    for ev in hist:
        ctx.step()
        i = ev[0]
        obj, m = objs[i]
        if ev[1] == 'copy':
            objs.append([obj.copy(), copy.deepcopy(m)])
        elif ev[1] == 'imp':
            impn, impp = ['I', 'J'], ['i', {'q': '1'}]
            keep = copy.deepcopy([impn, impp])
            e = obj.extendForImportance(impn, impp)
            require([impn, impp] == keep, 'importance settings changed to %r', [impn, impp])
            m2 = copy.deepcopy(m)
            m2[0] += impn
            m2[1] += gridlib.ini(impp)
            m2[3:] = [obj.tag + ('_' if '_post_' in obj.tag else '_post_') + 'I_J']
            objs.append([e, m2])
        else:
            _, op, name, p, over, d = ev[0], ev[1], *copy.deepcopy(OPS[ev[2]][1:])
            keep = copy.deepcopy([p, d])
            if op == 'add':
                r = obj.add(name, p, overrideExisting=over, dist_settings=d)
            else:
                r = obj.addEnd(name, p, dist_settings=d)
                over = False
            require(r is obj, 'add does not return the data set')
            require([p, d] == keep, 'arguments of add changed to %r', [p, d])
            new = gridlib.ini(name if p is None else p)
            m[1] = new + m[1] if over else m[1] + new
            m[2].update(d or {})
            if name is not None:
                m[0].append(name)
                del m[3:]
        verify(objs, args, config)
    st = objs
    return st


def verify(objs, args, config):
    require(args == config, 'arguments changed to %r', args)
    for n, (o, m) in enumerate(objs):
        require(list(o.names) == m[0], 'names of data set %d: %r not %r', n, o.names, m[0])
        require(o.params == m[1], 'params of data set %d: %r not %r', n, o.params, m[1])
        require(o.dist_settings == m[2], 'dist settings of data set %d: %r not %r', n, o.dist_settings, m[2])
        require(o.tag == (m[3] if len(m) > 3 else '_'.join(m[0])), 'tag of data set %d: %s', n, o.tag)


def dsevents(objs):
    ev = []
    for i in range(min(len(objs), 3)):
        ev += [[i, OPS[k][0], k] for k in range(len(OPS)) if len(objs[i][1]) < 4]
        if len(objs) < 4:
            ev += [[i, 'copy', 0], [i, 'imp', 0]]
    return ev


def scenarios(tier):
    return [Enum('expand', lambda: gen(), check),
            Bfs('datasets', dsinit, dsbuild, dsevents, lambda objs: repr([m for o, m in objs]), 3 if tier == 'quick' else 4)]
