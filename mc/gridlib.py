"""Grid definitions for the paramgrid properties: specification values, the objects made from them and a reference expansion.

A specification is JSON-able:
 {'groups': [{'name', 'params': [[p..]..], 'data': [dataset spec..], 'imp': [imp spec..], 'extra': {..}|None, 'pextra': {..}|None, 'ctor': bool}],
  'imp': [...], 'filters': [...], 'skip': [...], 'jobs': [[params, dataset spec, base]]}
 dataset spec: [names, params or None, dist_settings or None]
 imp spec: {'names', 'inis', 'form': 'list'|'list3'|'setting'|'filter', 'want': None|['param', p]|['data', d]|['nodata', d], 'dist': {}, 'min': bool}
"""
import copy
import io
import contextlib
import os
import types as pytypes

from paramgrid import batchjob


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def wanted(want, params, names):
    if want is None:
        return True
    kind, x = want
    return {'param': x in params, 'noparam': x not in params, 'data': x in names, 'nodata': x not in names}[kind]


class Setting(batchjob.importanceSetting):
    want = None

    def wantImportance(self, jobItem):
        return wanted(self.want, jobItem.param_set, jobItem.data_set.names)


class Filter(batchjob.importanceFilter):
    want = None

    def wantImportance(self, jobItem):
        return wanted(self.want, jobItem.param_set, jobItem.data_set.names)


class Want(object):
    def __init__(self, want):
        self.want = want

    def wantImportance(self, jobItem):
        return wanted(self.want, jobItem.param_set, jobItem.data_set.names)


def mk_imp(s):
    s = copy.deepcopy(s)
    if s['form'] == 'list':
        return [s['names'], s['inis']]
    if s['form'] == 'list3':
        return [s['names'], s['inis'], Want(s['want'])]
    if s['form'] == 'filter':
        r = Filter(s['names'], dist_settings=s.get('dist') or None)
    else:
        r = Setting(s['names'], s['inis'], dist_settings=s.get('dist') or None, minimize=s.get('min', True))
    r.want = s.get('want')
    return r


def mk_data(d):
    d = copy.deepcopy(d)
    return batchjob.dataSet(d[0], params=d[1], dist_settings=d[2])


def mk_settings(spec):
    s = pytypes.SimpleNamespace()
    s.groups = []
    for g in spec['groups']:
        imp = [mk_imp(i) for i in g.get('imp', [])]
        data = [mk_data(d) for d in g['data']]
        if g.get('ctor'):
            grp = batchjob.jobGroup(g['name'], params=copy.deepcopy(g['params']), importanceRuns=imp, datasets=data)
        else:
            grp = batchjob.jobGroup(g['name'])
            grp.params = copy.deepcopy(g['params'])
            grp.datasets = data
            grp.importanceRuns = imp
        if g.get('extra') is not None:
            grp.extra_opts = copy.deepcopy(g['extra'])
        if g.get('pextra') is not None:
            grp.param_extra_opts = copy.deepcopy(g['pextra'])
        s.groups.append(grp)
    if 'imp' in spec:
        s.importanceRuns = [mk_imp(i) for i in spec['imp']]
    if 'filters' in spec:
        s.importance_filters = [mk_imp(i) for i in spec['filters']]
    return s


def ini(x):
    return [(p if isinstance(p, dict) or '.ini' in p else p + '.ini') for p in ([x] if isinstance(x, (str, dict)) else x)]


def ref_expand(spec, path):
    """every job of the definition before equal importance combinations are merged: list of dicts, parents before children.
    'key' identifies the combination (base, parameters, data) regardless of order"""
    full = []

    def children(p, runs):
        out = []
        for r in runs:
            if not wanted(r.get('want') if r['form'] != 'list' else None, p['params'], p['names']):
                continue
            if set(r['names']) & set(p['names']):
                continue
            tag = ('_' if '_post_' in p['name'] else '_post_') + '_'.join(r['names'])
            is_filter = r['form'] == 'filter'
            inis = None if is_filter else ini(r['inis'])
            c = dict(params=p['params'], names=p['names'] + r['names'], base=p['base'], name=p['name'] + tag, paramtag=p['paramtag'], datatag=p['datatag'] + tag,
                     chainRoot=p['chainRoot'] + tag, distRoot=p['distRoot'] + tag, relativePath=p['relativePath'], group=p['group'],
                     dist=dict(p['data_dist'], **(r.get('dist') or {}) if r['form'] in ('setting', 'filter') else {}), data_dist=p['data_dist'],
                     minimize={'filter': False, 'setting': r.get('min', True)}.get(r['form'], True), imp=True, filter=is_filter, importanceTag='_'.join(r['names']),
                     inis=inis, parent=p, children=[])
            c['key'] = key(c)
            out.append(c)
        p['children'] += out

    def key(c):
        return (c['base'], tuple(sorted(c['params'])), tuple(sorted(c['names'])))

    def item(params, d, base, group, extra, pextra):
        names = [d[0]] if isinstance(d[0], str) else d[0]
        pt, dt = '_'.join([base] + params), '_'.join(names)
        rel = pt + os.sep + dt + os.sep
        name = pt + '_' + dt
        it = dict(params=params, names=list(names), base=base, name=name, paramtag=pt, datatag=dt, relativePath=rel, chainRoot=path + rel + name,
                  distRoot=path + rel + 'dist' + os.sep + name, group=group, dist=dict(d[2] or {}), data_dist=dict(d[2] or {}), minimize=True, imp=False, filter=False,
                  parent=None, children=[], extra=extra, pextra=pextra, data_params=[n + '.ini' for n in names] if d[1] is None else ini(d[1]))
        it['key'] = key(it)
        return it

    for g in spec['groups']:
        for d in g['data']:
            for params in g['params']:
                it = item(params, d, 'base', g['name'], g.get('extra'), g.get('pextra'))
                if it['name'] in spec.get('skip', []):
                    continue
                children(it, g.get('imp', []))
                children(it, spec.get('imp', []))
                full.append(it)
    for params, d, base in spec.get('jobs', []):
        it = item(params, d, base, None, None, None)
        children(it, spec.get('imp', []))
        full.append(it)
    if 'filters' in spec:
        for it in full:
            for c in list(it['children']):
                children(c, spec['filters'])
            children(it, spec['filters'])
    return full


def walk(items):
    for i in items:
        yield i
        for c in walk(i['children']):
            yield c


# ---- running the scripts of the repository in-process, with destructive calls confined to a scratch directory
def repo():
    return os.environ.get('MC_REPO', '/repo')


@contextlib.contextmanager
def confined(root):
    """removals, renames and link making outside root raise instead of acting"""
    import shutil
    root = os.path.realpath(root) + os.sep
    saved = {}

    def wrap(mod, name, npaths):
        f = getattr(mod, name)
        saved[(mod, name)] = f

        def g(*args, **kwargs):
            if kwargs.get('dir_fd') is None:
                for a in args[:npaths]:
                    p = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(os.fspath(a)))), os.path.basename(os.fspath(a)))
                    if not (p + os.sep).startswith(root):
                        raise PermissionError('%s of %s is outside the scratch directory' % (name, p))
            return f(*args, **kwargs)
        setattr(mod, name, g)

    for name, n in (('remove', 1), ('unlink', 1), ('rmdir', 1), ('removedirs', 1), ('rename', 2), ('replace', 2), ('truncate', 1)):
        wrap(os, name, n)
    wrap(shutil, 'rmtree', 1)
    wrap(shutil, 'move', 2)
    try:
        yield
    finally:
        for (mod, name), f in saved.items():
            setattr(mod, name, f)


def run_script(name, argv, root):
    """runs a script of the repository; returns its output text"""
    import runpy
    import sys
    old, cwd = sys.argv, os.getcwd()
    out = io.StringIO()
    try:
        sys.argv = [name] + [str(a) for a in argv]
        with confined(root), contextlib.redirect_stdout(out):
            runpy.run_path(os.path.join(repo(), 'python', name), run_name='__main__')
    finally:
        sys.argv = old
        os.chdir(cwd)
    return out.getvalue()


def tree(root):
    res = {}
    for d, dirs, files in os.walk(root):
        for f in files + [x for x in dirs if os.path.islink(os.path.join(d, x))]:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, root)
            if os.path.islink(p):
                res[rel] = ('link', os.path.realpath(p))
            else:
                with open(p, 'rb') as fh:
                    res[rel] = fh.read()
        for x in dirs:
            if not os.path.islink(os.path.join(d, x)):
                res[os.path.relpath(os.path.join(d, x), root) + os.sep] = 'dir'
    return res


def write(path, text):
    d = os.path.dirname(path)
    if not os.path.exists(d):
        os.makedirs(d)
    with open(path, 'w') as f:
        f.write(text)


def restore(root, snap):
    """bring the tree back to snapshot (taken without links)"""
    now = tree(root)
    for rel in sorted(now, reverse=True):
        if rel not in snap:
            p = os.path.join(root, rel)
            if now[rel] == 'dir':
                os.rmdir(p)
            else:
                os.unlink(p)
    for rel in sorted(snap):
        p = os.path.join(root, rel)
        if snap[rel] == 'dir':
            if not os.path.isdir(p):
                os.makedirs(p)
        elif now.get(rel) != snap[rel]:
            if os.path.lexists(p):
                os.unlink(p)
            with open(p, 'wb') as f:
                f.write(snap[rel])
