"""Selecting grid items by options, and finding them by name."""
import fnmatch
import io
import contextlib
import itertools
import os
import runpy
import sys

from mc.core import Enum, require
from mc import gridlib
from paramgrid import batchjob, batchjob_args

PROPERTY = 'C18'
LEVEL = 'model_checking'
RULE = ('filters: every combination of up to three selection options (each with every value of its alphabet) with and without sub-grids and existing chains, on a grid with colliding names, '
        'against the conjunction of the option predicates; lookup: every order of the parameter and data tags of every item, with and without importance markers, and every near-miss name; '
        'tags: every data replacement and tag list for every item; list: the listing script over options')
ASSUMPTIONS = ['a tag option is not combined with the name option it makes redundant (--datatag with --data or --skip_data, --paramtag with --param or --skip_param)',
               'names of data and parameters have no underscores']


def I(names, form='list', want=None):
    return dict(names=names, inis=[n + '.ini' for n in names], form=form, want=want, dist=None, min=True)


SPEC = dict(groups=[dict(name='g1', params=[[], ['mnu'], ['nnu', 'mnu']], data=[['A', None, None], [['A', 'B'], None, None], ['AB', None, None]], imp=[I(['B']), I(['C', 'B']), I(['C'])]),
                    dict(name='g2', params=[[], ['w']], data=[[['C', 'D'], None, None]], imp=[I(['A'])]),
                    dict(name='g11', params=[['m']], data=[[['D', 'A'], None, None]], imp=[])],
            filters=[I(['f'], 'filter', ['noparam', 'mnu'])], skip=['base_mnu_A_post_C'])
SUB = dict(groups=[dict(name='g1', params=[['w'], ['w', 'm']], data=[['A', None, None], ['E', None, None]], imp=[I(['B'])])], skip=[])

OPTS = [('name', [['base_A'], ['base_*'], ['*_post_*', 'base_mnu_A'], ['base_?nu_A', 'base_w_E'], ['A']]),
        ('param', [['mnu'], ['nnu', 'w'], ['m']]),
        ('paramtag', [['base'], ['base_mnu', 'base_nnu_mnu'], ['base_m']]),
        ('data', [['A'], ['B', 'C'], ['AB']]),
        ('datatag', [['A'], ['A_B', 'A_post_B'], ['A_post_B_f']]),
        ('musthave_data', [['A'], ['B', 'A'], ['AB']]),
        ('skip_data', [['B'], ['C', 'AB']]),
        ('skip_param', [['mnu'], ['w', 'nnu']]),
        ('group', [['g1'], ['g2', 'gx']]),
        ('skip_group', [['g1'], ['g2', 'g11']]),
        ('noimportance', [True]),
        ('importance', [[], ['B'], ['C', 'f']]),
        ('importancetag', [[], ['B'], ['C_B', 'C'], ['f']])]
CLASH = [('datatag', 'data'), ('datatag', 'skip_data'), ('paramtag', 'param'), ('paramtag', 'skip_param'), ('noimportance', 'importance')]

_grid = {}


def refitems(spec, path):
    full = gridlib.ref_expand(spec, path)
    fullkeys = set(r['key'] for r in full)
    out = []
    seen = set()

    def visit(r):
        # first the direct importance jobs, then those of each
        for c in r['children']:
            if c['key'] not in fullkeys and c['name'] not in spec['skip']:
                out.append(c)
        for c in r['children']:
            if c['key'] not in fullkeys:
                visit(c)

    for r in full:
        out.append(r)
        visit(r)
    last = {}
    for n, r in enumerate(out):
        last[r['key']] = n
    # of equal importance combinations only one is left: take the one listed by the grid
    return out, last


def grid(ctx):
    if ctx.scratch not in _grid:
        d = os.path.join(ctx.scratch, 'grid') + os.sep
        d2 = os.path.join(ctx.scratch, 'sub') + os.sep
        os.makedirs(d)
        os.makedirs(d2)
        res = []
        for spec, path in ((SPEC, d), (SUB, d2)):
            b = batchjob.batchJob(path, 'ini/')
            b.skip = spec['skip']
            with gridlib.quiet():
                b.makeItems(gridlib.mk_settings(spec))
            res.append(b)
        res[0].subBatches.append(res[1])
        refs = []
        for spec, path in ((SPEC, d), (SUB, d2)):
            rr, last = refitems(spec, path)
            bynames = {}
            for r in rr:
                bynames[r['name']] = r
            lst = []
            for j in res[0 if spec is SPEC else 1].items(wantSubItems=False, wantImportance=True):
                r = dict(bynames[j.name])
                r['exists'] = sum(map(ord, r['name'])) % 3 != 0
                if r['exists']:
                    os.makedirs(j.chainPath, exist_ok=True)
                    with open(j.chainName(), 'w') as f:
                        f.write('1 1 1\n')
                elif sum(map(ord, r['name'])) % 2:
                    os.makedirs(j.chainPath, exist_ok=True)
                    open(j.chainName(), 'w').close()
                lst.append(r)
            require(sorted(set(r['key'] for r in lst)) == sorted(set(r['key'] for r in rr)), 'grid items %r', [r['name'] for r in lst])
            refs.append(lst)
        res[0].save()
        res[1].save()
        _grid[ctx.scratch] = d, refs
    return _grid[ctx.scratch]


def impnames(r):
    return r['names'][len(r['parent']['names']):]


def selected(r, o):
    if r['imp']:
        if o.get('importancetag') and r['importanceTag'] not in o['importancetag']:
            return False
        if o.get('importance') and not set(o['importance']) & set(impnames(r)):
            return False
    elif o.get('importance') is not None:
        return False
    if 'name' in o and not any(fnmatch.fnmatchcase(r['name'], p) for p in o['name']):
        return False
    if 'param' in o and not set(o['param']) & set(r['params']):
        return False
    if 'skip_param' in o and set(o['skip_param']) & set(r['params']):
        return False
    if 'paramtag' in o and r['paramtag'] not in o['paramtag']:
        return False
    if 'data' in o and not set(o['data']) & set(r['names']):
        return False
    if 'datatag' in o and r['datatag'] not in o['datatag']:
        return False
    if 'musthave_data' in o and not set(o['musthave_data']) <= set(r['names']):
        return False
    if 'skip_data' in o and set(o['skip_data']) & set(r['names']):
        return False
    if 'group' in o and r['group'] not in o['group']:
        return False
    if 'skip_group' in o and r['group'] in o['skip_group']:
        return False
    return True


def gen(tier):
    n = 3 if tier == 'quick' else 4
    for k in range(n + 1):
        for c in itertools.combinations(range(len(OPTS)), k):
            names = [OPTS[i][0] for i in c]
            if any(a in names and b in names for a, b in CLASH):
                continue
            for vals in itertools.product(*[range(len(OPTS[i][1])) for i in c]):
                yield [[OPTS[i][0], v] for i, v in zip(c, vals)]


def argv(case):
    o, a = {}, []
    D = dict(OPTS)
    for name, v in case:
        val = D[name][v]
        o[name] = val
        a += ['--' + name] + (val if isinstance(val, list) else [])
    return o, a


def check(ctx, case):
    d, (main, sub) = grid(ctx)
    o, a = argv(case)
    opts = batchjob_args.batchArgs('test', importance=True, notExist=True, notall=True, converge=True)
    batch, args = opts.parseForBatch([d] + a)
    res = None
    for wantsub in (True, False):
        src = [r for r in main + (sub if wantsub else []) if not (r['imp'] and o.get('noimportance'))]
        for exist in (False, True):
            ctx.step()
            exp = [r['chainRoot'] for r in src if selected(r, o) and (not exist or r['exists'])]
            got = [j.chainRoot for j in opts.filteredBatchItems(wantSubItems=wantsub, chainExist=exist)]
            require(got == exp, 'options %s (sub grids %s, existing %s): selected %r, should be %r', ' '.join(a), wantsub, exist, [os.path.basename(x) for x in got], [os.path.basename(x) for x in exp])
            res = exp if res is None else res
    for exist in (True, False):
        src = [r for r in main + sub if not (r['imp'] and o.get('noimportance')) and selected(r, o) and (not exist or r['exists'])]
        exp = [(t, [r['chainRoot'] for r in src if r['paramtag'] == t]) for t in sorted(set(r['paramtag'] for r in src))]
        got = [(t, [j.chainRoot for j in js]) for t, js in opts.sortedParamtagDict(chainExist=exist)]
        require(got == exp, 'by parameter tag (%s): %r, should be %r', ' '.join(a), got, exp)
    return [os.path.basename(x) for x in res]


# ---- lookup
def lookup_gen():
    n = 0
    for spec in (SPEC, SUB):
        for r in gridlib.walk(gridlib.ref_expand(spec, '/')):
            n += 1
            yield [r['params'], r['names'], True]
    P = ['mnu', 'nnu', 'w', 'm', 'mnunnu', 'n']
    D = ['A', 'B', 'C', 'D', 'AB', 'E', 'f']
    for k in (0, 1, 2):
        for p in itertools.combinations(P, k):
            for kd in (1, 2, 3):
                for d in itertools.combinations(D, kd):
                    yield [list(p), list(d), False]


def lookup_check(ctx, case):
    d, (main, sub) = grid(ctx)
    params, names, _ = case
    batch = batchjob.readobject(d)
    for wantsub, wantimp in itertools.product((True, False), repeat=2):
        src = [r for r in main + (sub if wantsub else []) if wantimp or not r['imp']]
        match = [r for r in src if sorted(r['params']) == sorted(params) and sorted(r['names']) == sorted(names)]
        exp = match[0]['name'] if match else None
        for pp in itertools.permutations(params):
            for dd in itertools.permutations(names):
                tags = ['_'.join(dd)] + (['_'.join(dd[:1]) + '_post_' + '_'.join(dd[1:])] if len(dd) > 1 else [])
                for tag in tags:
                    for pt in (list(pp), '_'.join(pp)):
                        ctx.step()
                        got = batch.resolveName(pt, tag, wantSubItems=wantsub, wantImportance=wantimp, raiseError=False)
                        require(got == exp, 'resolveName(%r, %r, %s, %s): %r, should be %r', pt, tag, wantsub, wantimp, got, exp)
                        if exp:
                            it = batch.resolveName(pt, tag, wantSubItems=wantsub, wantImportance=wantimp, returnJobItem=True)
                            require(it.chainRoot == match[0]['chainRoot'], 'resolved item %s', it.chainRoot)
                        else:
                            try:
                                batch.resolveName(pt, tag, wantSubItems=wantsub, wantImportance=wantimp)
                                ok = False
                            except Exception:
                                ok = True
                            require(ok, 'no error for missing %r %r', pt, tag)
        normed = '_'.join(['base'] + sorted(params) + sorted(names))
        # another item may have the same normed text (names joined by _): none in this grid
        require(batch.has_normed_name(normed, wantsub, wantimp) == bool(match), 'has_normed_name(%s)', normed)
    name = '_'.join(['base'] + params + names)
    for txt in (name, name.replace('A_', 'A_post_', 1), '_'.join(['base'] + sorted(params) + sorted(names)), name + '_', name[:-1], 'base_' + name, name.upper()):
        allr = main + sub
        exp = [r for r in allr if r['name'] == txt] or [r for r in allr if '_'.join(['base'] + sorted(r['params']) + sorted(r['names'])) == txt]
        it = batch.resolveRoot(txt)
        require((it.chainRoot if it is not None else None) == (exp[0]['chainRoot'] if exp else None), 'resolveRoot(%s): %r, should be %r', txt, it and it.name, exp and exp[0]['name'])
        for ws in (True, False):
            require(batch.hasName(txt, ws) == any(r['name'] == txt for r in main + (sub if ws else []) if not r['imp']), 'hasName(%s, %s)', txt, ws)
    return exp and exp[0]['name']


# ---- tags
REPL = [None, {}, {'A': 'Z'}, {'A': '', 'B': 'Y'}, {'B': None, 'C': 'A'}, {'AB': 'B'}]
TAGS = [['A'], ['A_B'], ['A_post_B', 'Q'], ['B_A'], ['A_B_post_f'], ['C_D_A'], []]


def tag_gen():
    for i in range(60):
        yield [i]


def tag_check(ctx, case):
    d, (main, sub) = grid(ctx)
    allr = main + sub
    if case[0] >= len(allr):
        require(case[0] >= 20, 'grid has %d items', len(allr))
        return None
    r = allr[case[0]]
    batch = batchjob.readobject(d)
    j = batch.resolveRoot(r['name'])
    ds = j.data_set
    keep = list(ds.names)
    for rep in REPL:
        ctx.step()
        new = [x for x in ((rep or {}).get(n, n) for n in r['names']) if x]
        require(list(ds.namesReplacing(rep)) == new, 'names of %s with %r replaced: %r', r['name'], rep, ds.namesReplacing(rep))
        require(ds.makeNormedDatatag(rep) == '_'.join(sorted(new)), 'normed tag with %r replaced', rep)
        exp = ('_'.join(['base'] + sorted(r['params']) + ['_'.join(sorted(new))]), '_'.join(sorted(r['params'])), '_'.join(sorted(new)))
        require(tuple(j.makeNormedName(rep)) == exp, 'normed name of %s: %r not %r', r['name'], j.makeNormedName(rep), exp)
    for x, y in (('A', 'Z'), ('A', ''), ('AB', 'A'), ('Q', 'Z')):
        require(ds.tagReplacing(x, y) == '_'.join([z for z in (y if n == x else n for n in r['names']) if z]), 'tag of %s replacing %s by %r: %s', r['name'], x, y, ds.tagReplacing(x, y))
    for tags in TAGS:
        ctx.step()
        exp = r['datatag'] in tags or '_'.join(sorted(r['names'])) in tags or r['datatag'].replace('_post', '') in [t.replace('_post', '') for t in tags]
        require(j.matchesDatatag(tags) == exp, '%s matches data tags %r: %s', r['name'], tags, j.matchesDatatag(tags))
    for x in ('A', 'B', 'AB', 'f', ['A'], ['B', 'C'], ['AB', 'Q'], []):
        lst = [x] if isinstance(x, str) else x
        require(bool(ds.hasName(x)) == bool(set(lst) & set(r['names'])), 'hasName(%r) of %s', x, r['name'])
        require(bool(ds.hasAll(x)) == (set(lst) <= set(r['names'])), 'hasAll(%r) of %s', x, r['name'])
    for x in ('mnu', 'm', ['nnu', 'w'], []):
        lst = [x] if isinstance(x, str) else x
        require(bool(j.hasParam(x)) == bool(set(lst) & set(r['params'])), 'hasParam(%r) of %s', x, r['name'])
    require(list(ds.names) == keep, 'data names changed')
    return r['name']


def cmp_gen():
    T = ['A', 'A_B', 'B_A', 'A_post_B', 'A_post_C_B', 'C_D', 'D_C_post_A', 'AB', 'Z']
    for k in (1, 2):
        for t in itertools.permutations(T, k):
            for p in ([], ['--paramtag', 'base'], ['--noimportance']):
                yield [list(t), p]


def cmp_check(ctx, case):
    d, (main, sub) = grid(ctx)
    tags, a = case
    opts = batchjob_args.batchArgs('test')
    batch, args = opts.parseForBatch([d] + a)
    items = list(opts.filteredBatchItems())
    got = [j.chainRoot for j in opts.filterForDataCompare(items, tags)]
    exp = []
    for t in tags:
        nt = sorted(t.replace('_post', '').split('_'))
        exp += [r['chainRoot'] for r in main + sub if (not a or (a[0] == '--paramtag' and r['paramtag'] == 'base') or (a[0] == '--noimportance' and not r['imp']))
                and (r['datatag'] == t or sorted(r['names']) == nt)]
    require(got == exp, 'items to compare for %r: %r, should be %r', tags, got, exp)
    return [os.path.basename(x) for x in got]


def list_gen():
    for c in gen('quick'):
        if len(c) <= 1:
            for ex in (False, True):
                for nm in (False, True):
                    yield [c, ex, nm]


def list_check(ctx, case):
    d, (main, sub) = grid(ctx)
    c, ex, nm = case
    o, a = argv(c)
    script = os.path.join(os.environ.get('MC_REPO', '/repo'), 'python', 'listGrid.py')
    old = sys.argv
    out = io.StringIO()
    try:
        sys.argv = ['listGrid.py', d] + a + ['--exists'] * ex + ['--normed'] * nm
        with contextlib.redirect_stdout(out):
            runpy.run_path(script, run_name='__main__')
    finally:
        sys.argv = old
    src = [r for r in main + sub if not (r['imp'] and o.get('noimportance')) and selected(r, o) and (not ex or r['exists'])]
    src.sort(key=lambda r: r['paramtag'])
    exp = ['_'.join(['base'] + sorted(r['params']) + sorted(r['names'])) if nm else r['name'] for r in src]
    got = [line.split()[0] for line in out.getvalue().splitlines()]
    require(got == exp, 'listed %r, should be %r', got, exp)
    return got


def scenarios(tier):
    return [Enum('filters', lambda: gen(tier), check), Enum('lookup', lookup_gen, lookup_check), Enum('tags', tag_gen, tag_check), Enum('compare', cmp_gen, cmp_check), Enum('list', list_gen, list_check)]
