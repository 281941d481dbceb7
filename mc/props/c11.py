"""Directories, nested grids of directories and lookups of chain roots."""
import contextlib
import itertools
import logging
import os
import shutil

import numpy as np
from mc.core import Enum, require
import getdist
from getdist import chains
from getdist.chain_grid import ChainDirGrid, get_chain_root_files, load_supported_grid
from getdist.chains import findChainFileRoot, hasChainFiles
from getdist.plots import MCSampleAnalysis

logging.disable(logging.CRITICAL)
chains.print_load_details = False

PROPERTY = 'C11'
LEVEL = 'model_checking'
RULE = ('tree: every assignment of 11 kinds of directory content (5 chain formats, folder roots, several roots sharing prefixes, incomplete roots) to the nested directories a, a/c, b/c, d '
        '(thorough: also the base directory and 13 kinds), absolute and relative base, each under three directory listing orders, against a reference table of which roots exist; '
        'single: every content alone in the base directory; locations: every pair of trees searched in order by the sample analyser, with and without getdist.ini, loading the real chain')
ASSUMPTIONS = ['root names do not end in _ or .; a chain has a first file (index absent, 0 or 1)']

# content name -> (files, {root: listed}) where every root in the table has chain files
KINDS = {
    '-': ([], {}),
    'P': (['x.paramnames', 'x_1.txt', 'x_2.txt'], {'x': True}),
    '0': (['x.paramnames', 'x.txt'], {'x': True}),
    'Y': (['x.updated.yaml', 'x.1.txt', 'x.2.txt'], {'x': True}),
    'B': (['x.updated.yaml', 'x.paramnames', 'x.1.txt'], {'x': True}),
    'U': (['x__updated.yaml', 'x_1.txt'], {'x': True}),
    'F': (['updated.yaml', '1.txt', '2.txt'], {'': True}),
    'n': (['x.paramnames', 'x.ranges', 'x_2.txt', 'x_1.txt.bak', 'xx_1.txt', 'x_q_1.txt'], {'xx': False, 'x_q': False}),
    'c': (['x_1.txt', 'y.paramnames'], {'x': False}),
    'S': (['x.paramnames', 'x_1.txt', 'x_y.paramnames', 'x_y_1.txt', 'y_x.paramnames', 'y_1.txt'], {'x': True, 'x_y': True, 'y': False}),
    'R': (['y_x.paramnames', 'y_x_1.txt', 'xx.paramnames', 'xx_1.txt'], {'y_x': True, 'xx': True}),
    'o': (['x_post_y.paramnames', 'x_post_y_1.txt'], {'x_post_y': True}),
    'm': (['x.paramnames', 'x_1.txt', 'updated.yaml', '1.txt', 'x.1.paramnames'], {'x': True, '': True}),
}
QUERIES = ['x', 'x_y', 'y_x', 'xx', 'y', 'x_post_y', 'c/x', 'a/x', 'a/c/x', 'b/c/x', 'd/x', 'b/x', 'a/', 'c/', 'a/c/', 'b/c/', 'd/', 'nodir/x', 'no', 'c/xx', 'x_', '*', 'c/x_y', 'q']


class _Scan(object):
    def __init__(self, it, order):
        items = sorted(it, key=lambda e: e.name)
        self.items = iter(items if order == 0 else items[::-1] if order == 1 else items[len(items) // 2:] + items[:len(items) // 2])

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.items)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


@contextlib.contextmanager
def listing(order):
    s, l = os.scandir, os.listdir

    def scandir(path='.'):
        with s(path) as it:
            return _Scan(list(it), order)

    def listdir(path='.'):
        with s(path) as it:
            return [e.name for e in _Scan(list(it), order)] if isinstance(path, str) else l(path)

    os.scandir, os.listdir = scandir, listdir
    try:
        yield
    finally:
        os.scandir, os.listdir = s, l


_num = [0]


def populate(d, kind, ident=None):
    os.makedirs(d, exist_ok=True)
    for f in KINDS[kind][0]:
        with open(os.path.join(d, f), 'w') as fh:
            if f.endswith('.txt'):
                tail = ' 1.5 1.5 3 3\n', ' 2.5 2.5 4 4\n'
                if kind not in 'YUF':
                    tail = '\n', '\n'
                fh.write('1 2 %s 4%s2 3 %s 5%s' % (ident or 3, tail[0], (ident or 3) + 0.5, tail[1]))
            elif f.endswith('.paramnames'):
                fh.write('p1\np2\n')
            elif f.endswith('.yaml'):
                fh.write('likelihood:\n  one:\nparams:\n  p1:\n    prior:\n      min: 0\n      max: 1000000\n  p2:\n    prior:\n      min: 0\n      max: 1\n')


def join(d, r):
    return os.path.join(d, r)


def dirs_under(base, rels):
    """all directories below base (relative), from the assigned ones and their parents"""
    res = set()
    for r in rels:
        while r:
            res.add(r)
            r = os.path.dirname(r)
    return sorted(res)


def tree_check(ctx, case):
    assign, rel = case['assign'], case['rel']
    d = os.path.join(ctx.scratch, 'tree')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(join(d, 'base'))
    base = 'base' if rel else join(d, 'base')
    for r, k in assign.items():
        populate(os.path.normpath(join(join(d, 'base'), r)), k)
    os.chdir(d)
    try:
        seen = None
        for order in (0, 1, 2):
            with listing(order):
                out = tree_queries(ctx, base, assign)
            require(seen is None or seen == out, 'the result depends on the order in which the directory is listed:\n%s\n%s', seen, out)
            seen = out
    finally:
        os.chdir(ctx.scratch)
    return hash(repr(seen))


def tree_queries(ctx, base, assign):
    allrels = dirs_under(base, assign)
    out = []
    have = set()  # (dir, root) with chain files
    listed = {}
    for r in [''] + allrels:
        kind = assign.get(r, '-')
        for root, l in KINDS[kind][1].items():
            have.add((r, root))
            if l:
                listed.setdefault(r, []).append(root)
    for r in [''] + allrels:
        dd = join(base, r) if r else base
        exp = sorted(join(dd, x) for x in listed.get(r, []))
        got = list(get_chain_root_files(dd))
        require(sorted(got) == exp, 'chains listed in %s: %s, expected %s', dd, got, exp)
        require(got == sorted(got), 'chains are not listed in order')
        out.append(got)
        ctx.step()
    # direct lookups
    for q in QUERIES:
        cands = []
        for r in [''] + allrels:
            p = os.path.normpath(join(r or '.', os.path.dirname(q))) if not q.endswith('/') else os.path.normpath(join(r or '.', q))
            p = '' if p == '.' else p
            name = '' if q.endswith('/') else os.path.basename(q)
            if (p, name) in have:
                cands.append(join(join(base, r) if r else base, q))
        got = findChainFileRoot(base, q)
        require((got is None) == (not cands), 'looking for %s finds %s; it exists as %s', q, got, cands)
        if cands:
            require(got in cands, 'looking for %s finds %s, not one of %s', q, got, cands)
            require(hasChainFiles(got), 'no files for the root found')
            direct = join(base, q)
            if direct in cands:
                require(got == direct, 'looking for %s in %s finds %s rather than its own %s', q, base, got, direct)
        top = findChainFileRoot(base, q, search_subdirectories=False)
        exp = join(base, q) if join(base, q) in cands else None
        require(top == exp, 'looking for %s without subdirectories finds %s, expected %s', q, top, exp)
        out.append(got)
        ctx.step()
    # the grid of all subdirectories
    g = ChainDirGrid(base)
    items = {}
    for r in allrels:
        for x in listed.get(r, []):
            # a folder root is called by its directory name
            items.setdefault(x or os.path.basename(r) + '/', []).append((r, join(join(base, r), x)))
    names = {}
    for root, lst in items.items():
        if len(lst) == 1:
            names[root] = lst[0]
        else:
            k = 2
            parts = [p.split('/') for _, p in lst]
            while len(set(tuple(p[-k:]) for p in parts)) < len(parts):
                k += 1
            for p, it in zip(parts, lst):
                names['/'.join(p[-k:])] = it
    require(sorted(g.roots) == sorted(names), 'names in the directory tree: %s, expected %s', sorted(g.roots), sorted(names))
    for name, (r, path) in names.items():
        it = g.roots[name]
        require(it.name == name and it.chainRoot == path, 'item %s has name %s and path %s, expected %s', name, it.name, it.chainRoot, path)
        require(it.paramtag == r.split('/')[0], 'item %s is in group %s', name, it.paramtag)
        require(it.batchPath == base, 'batch path %s', it.batchPath)
        require(g.resolve_root(name) is it and g.resolveRoot(name) is it, 'name %s resolves to something else', name)
    tops = sorted(set(r.split('/')[0] for r, _ in names.values()))
    require(sorted(g.base_dir_names) == tops, 'groups %s, expected %s', g.base_dir_names, tops)
    for t in tops + ['nope']:
        exp = sorted(n for n, (r, _) in names.items() if r.split('/')[0] == t)
        require(sorted(g.roots_for_dir(t)) == exp, 'names in group %s: %s, expected %s', t, g.roots_for_dir(t), exp)
    norm = {}
    for root, lst in items.items():
        norm.setdefault(tuple(sorted(root.replace('__', '_').replace('_post', '').split('_'))), []).extend(lst)
    for q in QUERIES + ['x__y', 'y_x_post', 'y__x_post']:
        if q in names:
            exp = names[q][1]
        else:
            lst = norm.get(tuple(sorted(q.replace('__', '_').replace('_post', '').split('_'))), [])
            exp = lst[0][1] if len(lst) == 1 else 'ambiguous' if lst else None
        try:
            got = g.resolve_root(q)
            got = got and got.chainRoot
        except ValueError:
            got = 'ambiguous'
        require(got == exp, 'name %s resolves to %s, expected %s', q, got, exp)
        ctx.step()
    out.append([list(g.roots), [i.chainRoot for i in g.roots.values()]])
    require(load_supported_grid(base) is None and load_supported_grid(g) is g, 'grid detection')
    return out


def tree_gen(th):
    kinds = '-P0YBUFncSR' + ('om' if th else '')
    if th:
        for k in itertools.product(kinds, repeat=4):
            yield dict(assign=dict(zip(['a', 'a/c', 'b/c', 'd'], k)), rel=(kinds.index(k[0]) + kinds.index(k[1])) % 2 == 1)
        for k in itertools.product('-PFBSc', repeat=5):
            yield dict(assign=dict(zip(['', 'a', 'a/c', 'b/c/c', 'b'], k)), rel=True)
    else:
        for k in itertools.product(kinds, repeat=3):
            yield dict(assign=dict(zip(['a', 'a/c', 'b/c'], k)), rel=(kinds.index(k[0]) + kinds.index(k[1])) % 2 == 1)
        for k in itertools.product('-PFSo', repeat=4):
            yield dict(assign=dict(zip(['', 'a', 'a/c', 'b/c/c'], k)), rel=True)
        for k in itertools.product('PFm', repeat=3):
            yield dict(assign=dict(zip(['a/c', 'b/c', 'd'], k)), rel=False)


def single_gen():
    for k in KINDS:
        for rel in (False, True):
            yield dict(assign={'': k}, rel=rel)


# ------------------------------------------------- several locations, real loading
LOC = [('', 'P'), ('', 'Y'), ('', '0'), ('', 'S'), ('', 'R'), ('s', 'P'), ('s', 'S'), ('s', 'F'), ('', 'n')]


def loc_gen():
    for (i, a), (j, b) in itertools.product(enumerate(LOC), repeat=2):
        for ini in ('', '1', '2', '12'):
            yield [i, j, ini]


def loc_check(ctx, case):
    i, j, ini = case
    d = os.path.join(ctx.scratch, 'loc')
    shutil.rmtree(d, ignore_errors=True)
    roots = []
    for n, ix in ((1, i), (2, j)):
        sub, kind = LOC[ix]
        populate(os.path.join(d, 'loc%d' % n, sub), kind, ident=100 * n)
        if str(n) in ini:
            with open(os.path.join(d, 'loc%d' % n, 'getdist.ini'), 'w') as f:
                f.write('smooth_scale_1D = %s\nfine_bins = %d\n' % (0.25 * n, 1000 + n))
        roots.append(set(KINDS[kind][1]))
    getdist.use_plot_data = False
    res = []
    an = MCSampleAnalysis([os.path.join(d, 'loc1'), os.path.join(d, 'loc2')], settings={'ignore_rows': 0, 'range_confidence': 0.01})
    for q in ('x', 'y_x', 'xx', 's/', 'x_q'):
        where = None
        for n, ix in ((1, i), (2, j)):
            sub, kind = LOC[ix]
            table = KINDS[kind][1]
            grid = not any(table.values()) or sub   # nothing listed in the location itself: searched as a tree of directories
            if grid:
                listed = {r or 's/': sub for r, l in table.items() if l and sub}
                norm = {tuple(sorted(r.split('_'))): r for r in listed}
                if q in listed or tuple(sorted(q.split('_'))) in norm:
                    where = n
                    break
            elif (q in table) or (q == 's/' and sub and '' in table):
                where = n
                break
        try:
            s = an.samples_for_root(q)
        except getdist.plots.GetDistPlotError:
            require(where is None, 'chain %s is not found, it is in location %s', q, where)
            continue
        require(where is not None, 'chain %s does not exist but was found', q)
        require(s.samples[0, 0] == 100 * where, 'chain %s was loaded from location %s, expected %s', q, s.samples[0, 0] / 100, where)
        exp = 0.25 * where if str(where) in ini else IniDefaults.smooth
        require(s.smooth_scale_1D == exp, 'chain %s found in location %s has smooth_scale_1D %s, expected %s (getdist.ini in %s)', q, where, s.smooth_scale_1D, exp, ini)
        require(s.fine_bins == (1000 + where if str(where) in ini else IniDefaults.fine), 'fine_bins %s', s.fine_bins)
        require(s.range_confidence == 0.01, 'settings of the analyser are lost')
        require(an.samples_for_root(q) is s, 'not cached')
        ctx.step()
        res.append((q, where))
    return repr(res)


class IniDefaults(object):
    from getdist.inifile import IniFile
    _i = IniFile(getdist.default_getdist_settings)
    smooth = _i.float('smooth_scale_1D')
    fine = _i.int('fine_bins')


def scenarios(tier):
    th = tier == 'thorough'
    return [Enum('single', single_gen, tree_check), Enum('tree', lambda: tree_gen(th), tree_check), Enum('locations', loc_gen, loc_check)]
