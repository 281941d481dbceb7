"""Run files written when making a grid, opening grids again, and the files for analysing a grid."""
import itertools
import os
import shutil
import sys

from mc.core import Enum, require
from mc import gridlib
from mc.gridlib import quiet, write, tree, run_script
from paramgrid import batchjob, gridconfig
from getdist import IniFile
import getdist

PROPERTY = 'C20'
LEVEL = 'model_checking'
RULE = ('sources: every subset of the places where one setting can be given (data-set dictionary, group and grid options, group and grid options for a varied parameter, override files, data files, default files) '
        'for a grid with several jobs, every written run file resolved and compared with the precedence; importance: every subset of the importance sources; '
        'proposal: every subset of existing covariance files against the documented search order; reopen: every subset of existing chains, opening from the saved object or from the configuration, '
        'also after another grid with the same file names; analysis: getdist run files over burn-in options, properties and settings')
ASSUMPTIONS = ['dictionaries within one data set do not set the same key', 'the covariance directory is given by an absolute path']

sys.dont_write_bytecode = True


def I(names, inis, form='setting', want=None, minimize=True):
    return dict(names=names, inis=inis, form=form, want=want, dist=None, min=minimize)


def setup(ctx, tag):
    d = os.path.join(ctx.scratch, 'g20' + tag) + os.sep
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + 'mod')
    os.makedirs(d + 'inis')
    return d


def rel_ini(d):
    return os.path.relpath(d + 'inis', batchjob.getCodeRootPath()) + os.sep


_n = [0]


def make(ctx, d, spec, extra, name=None, sub='grid', **kw):
    """write a settings module and make the grid from it"""
    _n[0] += 1
    name = name or 'mcset_%d_%d' % (os.getpid(), _n[0])
    text = 'from mc import gridlib as _g\n_s = _g.mk_settings(%r)\ngroups = _s.groups\n' % (spec,)
    for k in ('imp', 'filters'):
        if k in spec:
            a = {'imp': 'importanceRuns', 'filters': 'importance_filters'}[k]
            text += '%s = _s.%s\n' % (a, a)
    if spec.get('covmat'):
        text += 'for _gr in groups:\n    for _d in _gr.datasets:\n        _d.covmat = %r\n' % spec['covmat']
    text += 'ini_dir = %r\n' % rel_ini(d)
    for k, v in extra.items():
        text += '%s = %s\n' % (k, v if k == 'covRenamer' else repr(v))
    mod = d + 'mod_' + sub
    write(mod + '/' + name + '.py', text)
    sys.path.insert(0, mod)
    try:
        with quiet():
            batch = gridconfig.makeGrid(d + sub, settingName=name, **kw)
    finally:
        sys.path.remove(mod)
        sys.modules.pop(name, None)
    return batch


def resolved(fname):
    return IniFile(fname)


# ---- precedence of the sources
SRC = ['datadict', 'gextra', 'extra', 'gpextra', 'pextra', 'override', 'dataini1', 'dataini2', 'default1', 'default2']


def src_gen():
    for mask in range(2 ** len(SRC)):
        yield [mask]


def src_check(ctx, case):
    on = [s for i, s in enumerate(SRC) if case[0] >> i & 1]
    d = setup(ctx, 's')

    def kv(s, more=''):
        return ('k = %s\n' % s if s in on else '') + more

    write(d + 'inis/d1.ini', kv('dataini1', 'only_d1 = 1\n'))
    write(d + 'inis/d2.ini', kv('dataini2', 'only_d1 = 2\nonly_d2 = 2\n'))
    write(d + 'inis/def1.ini', kv('default1', 'base = b1\n'))
    write(d + 'inis/def2.ini', kv('default2', 'base = b2\nbase2 = b2\nonly_d2 = 9\n'))
    write(d + 'inis/over.ini', kv('override', 'base2 = over\n'))
    write(d + 'inis/x.ini', 'onlyx = 1\n')

    def dic(s, other=None):
        r = dict(other or {})
        if s in on:
            r['k'] = s
        return r

    spec = dict(groups=[dict(name='g1', params=[[], ['mnu'], ['w', 'mnu']], data=[[['A', 'B'], ['d1', 'd2.ini', dic('datadict', {'dd': '1'})], None], ['X', ['x'], None]],
                             extra=dic('gextra', {'ge': '1'}), pextra={'mnu': dic('gpextra', {'gpe': '1'})}),
                        dict(name='g2', params=[['mnu']], data=[['Y', [{'yy': '1'}], None]])], skip=[])
    extra = dict(defaults=['def1.ini', 'def2.ini'], importanceDefaults=[], cov_dir=d + 'cov', params={'mnu': 'M 1 2', 'w': 'W 3'}, param_extra_opts={'mnu': dic('pextra', {'pe': '1'}), 'zz': {'k': 'wrong'}})
    if 'extra' in on or case[0] % 3 == 0:
        extra['extra_opts'] = dic('extra', {'e': '1'})
    if 'override' in on or case[0] % 5 == 0:
        extra['override_defaults'] = ['over.ini']
    batch = make(ctx, d, spec, extra)
    files = set()
    path = d + 'grid' + os.sep
    for r in gridlib.ref_expand(spec, path):
        g1 = r['group'] == 'g1'
        isAB = r['names'] == ['A', 'B']
        vary = 'mnu' in r['params']
        order = []
        if isAB:
            order.append('datadict')
        if g1:
            order.append('gextra')
        order.append('extra')
        if vary and g1:
            order.append('gpextra')
        if vary:
            order.append('pextra')
        order.append('override')
        if isAB:
            order += ['dataini1', 'dataini2']
        order += ['default1', 'default2']
        k = [s for s in order if s in on]
        over = 'override_defaults' in extra
        exp = dict(k=k[0] if k else None, base='b1', base2='over' if over else 'b2', file_root=r['chainRoot'], ge='1' if g1 else None, gpe='1' if g1 and vary else None, pe='1' if vary else None,
                   e='1' if 'extra_opts' in extra else None, dd='1' if isAB else None, only_d1='1' if isAB else None, only_d2='2' if isAB else '9', onlyx='1' if r['names'] == ['X'] else None,
                   yy='1' if r['names'] == ['Y'] else None, start_at_bestfit='F')
        exp['param[mnu]'] = 'M 1 2' if vary else None
        exp['param[w]'] = 'W 3' if 'w' in r['params'] else None
        exp['propose_matrix'] = None
        for variant in ('', '_minimize'):
            ctx.step()
            f = path + 'iniFiles' + os.sep + r['name'] + variant + '.ini'
            files.add(os.path.relpath(f, path))
            require(os.path.exists(f), 'no run file %s', f)
            ini = resolved(f)
            exp['action'] = '2' if variant else '0'
            for key, val in exp.items():
                got = ini.params.get(key)
                require((None if got is None else str(got)) == val, '%s%s: %s is %r, should be %r (sources %s)', r['name'], variant, key, got, val, ', '.join(on))
        require(os.path.isdir(os.path.dirname(r['chainRoot'])), 'no directory for %s', r['name'])
    got = set(k for k in tree(path) if k.startswith(('iniFiles', 'postIniFiles')) and k.endswith('.ini'))
    require(got == files, 'files %r, should be %r', sorted(got), sorted(files))
    require([j.name for j in batch.items()] == [r['name'] for r in gridlib.ref_expand(spec, path)], 'items of the grid')
    ini = IniFile(path + 'config/config.ini')
    require(os.path.exists(path + 'config/' + ini.string('setting_file')), 'settings not copied to the grid')
    return k


# ---- importance runs
ISRC = ['impdict', 'impini', 'impdef', 'parent']


def imp_gen():
    for mask in range(2 ** len(ISRC)):
        for form in ('list', 'setting', 'single'):
            for mini in (True, False):
                for sab in (False, True):
                    if form != 'setting' and not mini:
                        continue
                    yield [mask, form, mini, sab]


def imp_check(ctx, case):
    mask, form, mini, sab = case
    on = [s for i, s in enumerate(ISRC) if mask >> i & 1]
    d = setup(ctx, 'i')
    write(d + 'inis/I.ini', ('k = impini\n' if 'impini' in on else '') + 'imp = 1\n')
    write(d + 'inis/idef.ini', ('k = impdef\n' if 'impdef' in on else '') + 'idef = 1\n')
    write(d + 'inis/A.ini', ('k = parent\n' if 'parent' in on else '') + 'pa = 1\n')
    write(d + 'inis/def.ini', 'base = 1\n')
    dic = {'di': '1'}
    if 'impdict' in on:
        dic['k'] = 'impdict'
    inis = {'list': ['I', dic], 'setting': ['I.ini', dic], 'single': 'I' if 'impdict' not in on else dic}[form]
    has_ini = not isinstance(inis, dict)
    has_dict = not isinstance(inis, str)
    imps = [I(['I'], inis, 'setting' if form != 'list' else 'list', minimize=mini), I(['f'], None, 'filter')]
    spec = dict(groups=[dict(name='g', params=[[], ['mnu']], data=[['A', None, None], ['B', [{'kk': '1'}], None]], imp=imps)], skip=[])
    extra = dict(defaults=['def.ini'], importanceDefaults=['idef.ini'], cov_dir=d + 'cov', start_at_bestfit=sab)
    make(ctx, d, spec, extra)
    path = d + 'grid' + os.sep
    files = set()
    for p in gridlib.ref_expand(spec, path):
        for variant in ('',) if sab else ('', '_minimize'):
            files.add('iniFiles/' + p['name'] + variant + '.ini')
        ini = resolved(path + 'iniFiles/' + p['name'] + '.ini')
        require(ini.params.get('start_at_bestfit') == ('T' if sab else 'F'), 'start_at_bestfit %r', ini.params.get('start_at_bestfit'))
        for r in p['children']:
            if r['filter']:
                continue
            isA = p['names'] == ['A']
            for variant in [''] + ['_minimize'] * mini:
                ctx.step()
                f = 'postIniFiles/' + r['name'] + variant + '.ini'
                files.add(f)
                require(os.path.exists(path + f), 'no run file %s', f)
                ini = resolved(path + f)
                order = ['impdict'] * has_dict + ['impini'] * has_ini + ([] if variant else ['impdef']) + (['parent'] if isA else [])
                k = [s for s in order if s in on]
                exp = dict(k=k[0] if k else None, di='1' if has_dict else None, imp='1' if has_ini else None, idef=None if variant else '1', pa='1' if isA else None, kk=None if isA else '1', base='1')
                if variant:
                    exp.update(action='2', file_root=r['chainRoot'], redo_outroot=None)
                else:
                    exp.update(action='1', redo_outroot=r['chainRoot'], file_root=p['chainRoot'])
                for key, val in exp.items():
                    got = ini.params.get(key)
                    require((None if got is None else str(got)) == val, '%s%s: %s is %r, should be %r (sources %s)', r['name'], variant, key, got, val, ', '.join(on))
    got = set(k for k in tree(path) if k.startswith(('iniFiles', 'postIniFiles')) and k.endswith('.ini'))
    require(got == files, 'files %r, should be %r', sorted(got), sorted(files))
    return sorted(on)


# ---- proposal matrices
COV = ['name', 'normmap', 'mapped', 'data', 'default', 'renamer', 'without', 'fallback']


def cov_gen():
    for mask in range(2 ** len(COV)):
        for newcov in (None, False):
            yield [mask, newcov]


def cov_check(ctx, case):
    mask, newcov = case
    on = [s for i, s in enumerate(COV) if mask >> i & 1]
    d = setup(ctx, 'c')
    write(d + 'inis/def.ini', 'base = 1\n')
    names = {'name': 'base_mnu_plikHM_A_lens', 'normmap': 'base_mnu_A_lens_plik', 'mapped': 'base_mnu_plik_A_lens', 'renamer': 'base_mnu_plikHM_A_lens_ren', 'without': 'base_mnu_A_plikHM'}
    cov = d + 'cov/'
    fb = d + 'fb/'
    os.makedirs(cov)
    os.makedirs(fb)
    for s in on:
        if s in names:
            write((fb if s in ('renamer', 'without') else cov) + names[s] + '.covmat', '#\n')
        elif s == 'data':
            write(cov + 'dat.covmat', '#\n')
        elif s == 'default':
            write(cov + 'deflt.covmat', '#\n')
        else:
            # files that must not be found: similar names, and the fallback directory for the first searches
            for n in ('base_mnu_plikHM_A', 'base_plikHM_A_lens', 'base_mnu_plikHM_A_lens2'):
                write(cov + n + '.covmat', '#\n')
            write(fb + names['name'] + '.covmat', '#\n')
    spec = dict(groups=[dict(name='g', params=[['mnu']], data=[[['plikHM', 'A', 'lens'], [{'z': '1'}], None]])], skip=[], covmat='dat.covmat')
    extra = dict(defaults=['def.ini'], importanceDefaults=[], cov_dir=cov, cov_dir_fallback=fb, covNameMappings={'plikHM': 'plik'}, covmat='deflt.covmat',
                 covRenamer='lambda name: [name + "_ren"]', covWithoutNameOrder=['lens'])
    if newcov is not None:
        extra['newCovmats'] = newcov
    make(ctx, d, spec, extra)
    r = gridlib.ref_expand(spec, d + 'grid' + os.sep)[0]
    ini = resolved(d + 'grid/iniFiles/' + r['name'] + '.ini')
    order = [('name', cov + names['name']), ('normmap', cov + names['normmap']), ('mapped', cov + names['mapped']), ('data', cov + 'dat'), ('default', cov + 'deflt'),
             ('renamer', fb + names['renamer']), ('without', fb + names['without'])]
    exp = [f + '.covmat' for s, f in order if s in on]
    got = ini.params.get('propose_matrix')
    require((os.path.normpath(got) if got else None) == (os.path.normpath(exp[0]) if exp else None), 'proposal matrix %r, should be %r', got, exp[:1])
    specific = any(s in on for s in ('name', 'normmap', 'mapped', 'data', 'default'))
    exp20 = not specific or newcov is None
    require((str(ini.params.get('MPI_Max_R_ProposeUpdate')) == '20') == exp20, 'MPI_Max_R_ProposeUpdate %r', ini.params.get('MPI_Max_R_ProposeUpdate'))
    return got and os.path.basename(got)


# ---- opening again
def open_gen():
    for chains in range(16):
        for how in ('cached', 'config', 'other', 'broken', 'moved'):
            yield [chains, how]


def desc(items):
    return [[j.name, j.chainRoot, j.distRoot, j.group, list(j.param_set), list(j.data_set.names), j.isImportanceJob, dict(j.dist_settings)] for j in items]


def open_check(ctx, case):
    chains, how = case
    d = setup(ctx, 'o')
    write(d + 'inis/def.ini', 'base = 1\n')
    spec = dict(groups=[dict(name='g', params=[[], ['mnu']], data=[['A', [{'z': '1'}], {'x': '1'}], ['B', [{'z': '2'}], None]], imp=[I(['C'], [{'c': '1'}])])], skip=['base_B_post_C'])
    spec2 = dict(groups=[dict(name='gg', params=[['w']], data=[['Z', [{'z': '1'}], None]])], skip=[])
    extra = dict(defaults=['def.ini'], importanceDefaults=[], cov_dir=d + 'cov', skip=spec['skip'])
    name = 'mcsame_%d_%d' % (os.getpid(), chains)
    batch = make(ctx, d, spec, extra, name=name)
    path = d + 'grid' + os.sep
    full = desc(batch.items(wantImportance=True))
    require([x[0] for x in full] == ['base_A', 'base_A_post_C', 'base_mnu_A', 'base_mnu_A_post_C', 'base_B', 'base_mnu_B', 'base_mnu_B_post_C'], 'items %r', [x[0] for x in full])
    if how == 'other':
        b2 = make(ctx, d, spec2, extra, name=name, sub='grid2')
        write(b2.jobItems[0].chainName(), '1 1 1\n')
    items = list(batch.items())
    for i, j in enumerate(items):
        if chains >> i & 1:
            write(j.chainName(), '1 1 1\n')
        elif i % 2:
            write(j.chainName(), '')
    have = [j.name for i, j in enumerate(items) if chains >> i & 1]
    existing = [x for x in full if x[0] in have or any(x[0].startswith(h + '_post_') for h in have)]
    ctx.step()
    with quiet():
        if how == 'cached':
            got = desc(batchjob.readobject(path).items(wantImportance=True))
            require(got == full, 'opened grid has %r, should have %r', [x[0] for x in got], [x[0] for x in full])
            return 'cached'
        batchjob.resetGrid(path)
        if how == 'other':
            batchjob.resetGrid(d + 'grid2')
            o = batchjob.readobject(d + 'grid2')
            require([j.name for j in o.items()] == ['base_w_Z'], 'first grid has %r', [j.name for j in o.items()])
        if how == 'broken':
            write(batchjob.grid_cache_file(path), 'not a pickle')
        if how == 'moved':
            os.rename(d + 'grid', d + 'moved')
            path2 = d + 'moved' + os.sep
            batchjob.resetGrid(path2)
            existing = [[x[0], x[1].replace(path, path2, 1), x[2].replace(path, path2, 1)] + x[3:] for x in existing]
            path = path2
        for n in range(2):
            b = batchjob.readobject(path)
            require(b is not None, 'grid could not be opened')
            got = desc(b.items(wantImportance=True))
            require(got == existing, 'opened grid (%s, %d) has %r, should have %r', how, n, got, existing)
    require(gridconfig.pathIsGrid(path) and not gridconfig.pathIsGrid(d + 'inis'), 'pathIsGrid')
    sys.path[:] = [p for p in sys.path if not p.startswith(d)]
    return have


# ---- files for analysing the grid
def an_gen():
    for burned in (0, 1):
        for arg in (None, '--burn_removed', '0.2', '0'):
            for noplots in (0, 1):
                for gopt in ({}, {'ignore_rows': '0.4', 'g': '1'}):
                    for dist in (None, {'ignore_rows': '0.7', 'q': '2', 'g': '3'}):
                        for sel in ([], ['--noimportance'], ['--importance']):
                            yield [burned, arg, noplots, gopt, dist, sel]


def an_check(ctx, case):
    burned, arg, noplots, gopt, dist, sel = case
    d = setup(ctx, 'a')
    path = d + 'grid' + os.sep
    os.makedirs(path)
    spec = dict(groups=[dict(name='g', params=[[], ['mnu']], data=[['A', [{'z': '1'}], dist], ['B', [{'z': '2'}], None]], imp=[I(['C'], [{'c': '1'}])])], skip=[])
    b = batchjob.batchJob(path, rel_ini(d))
    s = gridlib.mk_settings(spec)
    s.getdist_options = dict(gopt)
    with quiet():
        b.makeItems(s)
    b.save()
    for j in b.items(wantImportance=True):
        os.makedirs(j.chainPath, exist_ok=True)
    write(d + 'inis/base.ini', 'ignore_rows = 0.3\nbase = 1\n')
    if burned:
        write(b.jobItems[0].chainRoot + '.properties.ini', 'burn_removed = T\n')
    write(d + 'inis/plots/base_mnu.ini', 'plot = mnu\n')
    write(d + 'inis/plots/base_mnu_B.ini', 'plot = mnuB\n')
    a = [path, '--norun', '--base_ini', d + 'inis/base.ini'] + sel + ['--no_plots'] * noplots
    if arg and arg.startswith('--'):
        a.append(arg)
    elif arg:
        a += ['--burn_remove', arg]
    before = tree(path)
    run_script('runGridGetdist.py', a, ctx.scratch)
    after = tree(path)
    exps = {}
    for r in gridlib.walk(gridlib.ref_expand(spec, path)):
        if (sel == ['--noimportance'] and r['imp']) or (sel == ['--importance'] and not r['imp']):
            continue
        f = 'getdist' + os.sep + r['name'] + '.ini'
        exps[f] = r
        require(f in after, 'no analysis settings for %s', r['name'])
        ini = resolved(path + f)
        ign = '0.3'
        if gopt:
            ign = '0.4'
        if r['imp'] or arg == '--burn_removed' or (burned and r['name'] == 'base_A'):
            ign = '0'
        elif arg:
            ign = str(float(arg))
        if r['dist']:
            ign = r['dist']['ignore_rows']
        require(float(ini.params['ignore_rows']) == float(ign), '%s: ignore_rows %r, should be %s', r['name'], ini.params['ignore_rows'], ign)
        exp = dict(file_root=r['chainRoot'], out_dir=os.path.dirname(r['distRoot']) + os.sep, base='1', g=(r['dist'] or {}).get('g', gopt.get('g')), q=(r['dist'] or {}).get('q'),
                   compare1=r['parent']['chainRoot'] if r['imp'] else None, no_plots='T' if noplots else None, plot='mnuB' if r['name'] == 'base_mnu_B' else 'mnu' if r['paramtag'] == 'base_mnu' else None)
        for k, v in exp.items():
            got = ini.params.get(k)
            require((None if got is None else str(got)) == v, '%s: %s is %r, should be %r', r['name'], k, got, v)
        ctx.step()
    new = set(k for k in after if k not in before and after[k] != 'dir')
    require(new == set(exps), 'files %r, should be %r', sorted(new), sorted(exps))
    require(all(after[k] == before[k] for k in before), 'other files changed')
    return len(exps)


def scenarios(tier):
    return [Enum('sources', src_gen, src_check), Enum('importance', imp_gen, imp_check), Enum('proposal', cov_gen, cov_check), Enum('reopen', open_gen, open_check), Enum('analysis', an_gen, an_check)]
