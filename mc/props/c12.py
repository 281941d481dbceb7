"""Parameter name lists: lookup, wildcards, edits, files and renames."""
import itertools
import logging
import os
import re

import numpy as np
from mc.core import Enum, Bfs, require
from getdist import MCSamples, chains
from getdist import plots
from getdist.paramnames import ParamNames, ParamInfo, ParamList, mergeRenames

logging.disable(logging.CRITICAL)
chains.print_load_details = False

PROPERTY = 'C12'
LEVEL = 'model_checking'
RULE = ('lookup: every ordered list of up to 3 distinct names with every assignment of aliases (list, string or tuple; also aliases equal to another name) and every query with and without a renames dictionary; '
        'glob: every ordered list of up to 4 names x every pattern, alone and in lists, through the list and through the plotter; edit: BFS over delete/add/filter/label/rename/save+load/copy '
        'histories; files: every list of up to 3 parameters over label/comment/derived forms written and read back, and built from strings; merge: every pair of small rename dictionaries against connected components; badnames: every three characters of a name, given in every way')
ASSUMPTIONS = ['names contain no blanks, * or ?', 'labels contain no # or !', 'a parameter name takes precedence over an alias of another parameter']

NAMES = ['a', 'ab', 'b', 'A', 'a_1']


# ------------------------------------------------------------------ lookup
def aslist(x):
    return [] if x is None else [x] if isinstance(x, str) else list(x)


def ref_lookup(pars, name, renames=None):
    """pars: list of (name, aliases)"""
    for i, (n, _) in enumerate(pars):
        if n == name:
            return i
    given = {name} | set(aslist((renames or {}).get(name)))
    for i, (n, al) in enumerate(pars):
        known = {n} | set(al) | set(aslist((renames or {}).get(n)))
        if known & given:
            return i
    return None


ALIAS = [None, [], 'z', ['z', 'y'], ('y',), ['b'], ['q', 'ab']]
RENAMES = [None, {}, {'a': 'w'}, {'a': ['w', 'v']}, {'w': ['a']}, {'w': 'b', 'a': ('x',)}, {'b': ['z']}, {'w': ['z']}, {'ab': 'a'}]
QUERIES = ['a', 'ab', 'b', 'A', 'a_1', 'z', 'y', 'w', 'v', 'x', 'q', 'nope', '', 'aa']


def lookup_gen():
    for n in (1, 2, 3):
        for names in itertools.permutations(NAMES, n):
            for al in itertools.product(range(len(ALIAS)), repeat=n):
                if n == 3 and (0 in al or al[2] in (1, 4)):
                    continue
                yield [list(names), list(al)]


def lookup_check(ctx, case):
    names, al = case
    pars = [(n, aslist(ALIAS[k])) for n, k in zip(names, al)]
    p = ParamNames()
    for n, k in zip(names, al):
        p.names.append(ParamInfo(name=n, renames=ALIAS[k]))
    out = []
    for q in QUERIES:
        for ri, ren in enumerate(RENAMES):
            exp = ref_lookup(pars, q, ren)
            got = p.parWithName(q, renames=ren)
            require((got is None) == (exp is None), 'name %s (renames %s) in %s: %s', q, ren, pars, got)
            if exp is not None:
                require(got is p.names[exp], 'name %s (renames %s) in %s gives %s, expected %s', q, ren, pars, got.name, pars[exp][0])
            res = p.parsWithNames([q, names[0]], renames=ren)
            require(len(res) == 2 and res[0] is got and res[1] is p.names[0], 'parsWithNames of %s: %s', q, res)
            out.append(exp)
            for err in (True, [False, True], (True, False)):
                try:
                    res = p.parsWithNames([names[0], q], error=err, renames=ren)
                except Exception:
                    res = None
                bad = exp is None and (err is True or list(err)[1])
                require((res is None) == bad, 'names %s with error=%s: %s', [names[0], q], err, res)
            if exp is None:
                try:
                    p.parWithName(q, error=True, renames=ren)
                except Exception:
                    pass
                else:
                    require(False, 'no error for the unknown name %s', q)
            else:
                require(p.parWithName(q, error=True, renames=ren) is got, 'error=True changes the result')
        ix = names.index(q) if q in names else -1
        require(p.numberOfName(q) == ix and p.hasParam(q) == (ix >= 0), 'number of %s is %s, expected %s', q, p.numberOfName(q), ix)
        ctx.step()
    require(p.list() == names, 'lookups changed the list')
    require(p.getRenames() == {n: ALIAS[k] if not isinstance(ALIAS[k], str) else [ALIAS[k]] for n, k in zip(names, al) if ALIAS[k]}, 'renames %s', p.getRenames())
    require(sorted(p.getRenames(keep_empty=True)) == sorted(names), 'renames with empty')
    return hash(tuple(out))


# ------------------------------------------------------------------ wildcards
PATTERNS = ['*', '?', 'a*', '*b', '?b', 'a?*', '*_*', 'A*', 'ab*', '*1', '??', 'z*', '*a*', 'a_?', '?*?']


def matches(pat, name):
    return re.fullmatch(''.join('.*' if c == '*' else '.' if c == '?' else re.escape(c) for c in pat), name) is not None


def glob_gen():
    for n in range(1, 5):
        for names in itertools.permutations(NAMES, n):
            yield list(names)


def glob_check(ctx, names):
    p = ParamNames(names=names)
    pl = plots.GetDistPlotter.__new__(plots.GetDistPlotter)
    dummy = type('D', (), {})()
    dummy.paramNames = p
    out = []
    for pat in PATTERNS:
        exp = [n for n in names if matches(pat, n)]
        require(p.getMatches(pat, strings=True) == exp, 'pattern %s of %s: %s', pat, names, p.getMatches(pat, strings=True))
        require([x.name for x in p.getMatches(pat)] == exp and [x.name for x in p.parsWithNames(pat)] == exp, 'pattern %s', pat)
        for other in (names[0], names[-1]):
            for spec, e in (([other, pat], [other] + exp), ([pat, other], exp + [other]), ([pat, pat], exp + exp)):
                require([x.name for x in p.parsWithNames(spec)] == e, 'names %s of %s: %s', spec, names, [x.name for x in p.parsWithNames(spec)])
                got = pl.get_param_array(dummy, spec)
                require([x.name for x in got] == e, 'plotter parameters %s of %s: %s, expected %s', spec, names, [x.name for x in got], e)
        require([x.name for x in pl.get_param_array(dummy, pat)] == exp, 'plotter pattern')
        out.append(tuple(exp))
        ctx.step()
    require([x.name for x in pl.get_param_array(dummy)] == names, 'all parameters')
    extra = ParamInfo(name='other', renames=[names[0]])
    got = pl.get_param_array(dummy, [extra, names[-1], ParamInfo(name='absent')])
    require([x.name for x in got] == [names[0], names[-1], 'absent'], 'plotter with ParamInfo: %s', [x.name for x in got])
    return hash(tuple(out))


# ------------------------------------------------------------------ edits
class St(object):
    pass


INIT = [[['a', 'A', '', False], ['b', '\\beta', 'com', True], ['ab', '', '', False]], [['a_1', 'x y', '', True]]]


def build_edit(ctx, config, hist):
    st = St()
    st.p = ParamNames()
    st.m = []
    for n, l, c, d in INIT[config]:
        st.p.names.append(ParamInfo(name=n, label=l, comment=c, derived=d))
        st.m.append(dict(name=n, label=l or n, comment=c, derived=d, renames=[]))
    for ev in hist:
        op = ev[0]
        p, m = st.p, st.m
        if op == 'del':
            p.deleteIndices(ev[1])
            st.m = [x for i, x in enumerate(m) if i not in ev[1]]
        elif op == 'add':
            kw = dict(ev[2])
            r = p.addDerived(ev[1], **kw)
            require(r is p.names[-1], 'the new parameter is not returned')
            m.append(dict(name=ev[1], label=kw.get('label') or ev[1], comment=kw.get('comment', ''), derived=kw.get('derived', True), renames=list(kw.get('renames', []))))
        elif op == 'filter':
            st.p = p.filteredCopy(list(ev[1]) if ev[2] == 'list' else ParamNames(names=ev[1]))
            require([x.name for x in p.names] == [x['name'] for x in m], 'filtering changed the original')
            st.m = [x for x in m if x['name'] in ev[1]]
        elif op == 'labels':
            p.setLabels(ev[1])
            for x, l in zip(m, ev[1]):
                x['label'] = l
        elif op == 'labelsfrom':
            q = ParamNames()
            q.names = [ParamInfo(name=n, label='from_' + n, derived=True) for n in ev[1]]
            fn = os.path.join(ctx.scratch, 'lab.paramnames')
            q.saveAsText(fn)
            if ev[2]:
                p.setLabelsAndDerivedFromParamNames(fn)
            else:
                p.setLabelsFromParamNames(fn)
            for n in ev[1]:
                k = ref_lookup([(x['name'], x['renames']) for x in m], n)
                if k is not None:
                    m[k]['label'] = 'from_' + n
                    if ev[2]:
                        m[k]['derived'] = True
        elif op == 'rename':
            ren = {k: list(v) for k, v in ev[1].items()}
            p.updateRenames(ren)
            require(ren == ev[1], 'the dictionary of renames was changed')
            # aliases of one parameter only (no alias connects two parameters): union
            for k, v in ev[1].items():
                i = ref_lookup([(x['name'], x['renames']) for x in m], k)
                j = [ref_lookup([(x['name'], x['renames']) for x in m], a) for a in v]
                hit = [z for z in [i] + j if z is not None]
                if hit:
                    names = set([k] + list(v)) | set(m[hit[0]]['renames'])
                    m[hit[0]]['renames'] = sorted(names - {m[hit[0]]['name']})
        elif op == 'file':
            fn = os.path.join(ctx.scratch, 'e.paramnames')
            p.saveAsText(fn)
            st.p = ParamNames(fn)
            for x in m:
                x['renames'] = []
        ctx.step()
        verify(st)
    return st


def verify(st):
    p, m = st.p, st.m
    names = [x['name'] for x in m]
    require(p.list() == names, 'names %s, expected %s', p.list(), names)
    require(p.labels() == [x['label'] for x in m], 'labels %s, expected %s', p.labels(), [x['label'] for x in m])
    require([x.comment for x in p.names] == [x['comment'] for x in m], 'comments')
    require([bool(x.isDerived) for x in p.names] == [x['derived'] for x in m], 'derived flags %s of %s', [x.isDerived for x in p.names], names)
    require(p.numParams() == len(m) and p.numDerived() == sum(x['derived'] for x in m) and p.numNonDerived() == sum(not x['derived'] for x in m), 'counts')
    require(p.getDerivedNames() == [x['name'] for x in m if x['derived']] and p.getRunningNames() == [x['name'] for x in m if not x['derived']], 'derived and running names')
    require([sorted(aslist(x.renames)) for x in p.names] == [sorted(x['renames']) for x in m], 'renames %s, expected %s', [x.renames for x in p.names], [x['renames'] for x in m])
    for i, x in enumerate(m):
        require(p.numberOfName(x['name']) == i and p.parWithName(x['name']) is p.names[i], 'lookup of %s', x['name'])
        require(p.name(i) == x['name'] and p.name(i, True) == x['name'] + '*' * x['derived'], 'name by index')
        for al in x['renames']:
            e = ref_lookup([(y['name'], y['renames']) for y in m], al)
            require(p.parWithName(al) is p.names[e], 'alias %s', al)
    require(p.listString() == ' '.join(names), 'listString')
    lines = str(p).split('\n')
    require(len(lines) == len(m) + 1, 'text form has %s lines', len(lines))


def edit_events(st):
    n = len(st.m)
    names = [x['name'] for x in st.m]
    ev = []
    if n:
        ev += [['del', [0]], ['del', [n - 1]], ['del', []]]
    if n > 1:
        ev += [['del', [0, n - 1]]]
    if n < 4:
        for nm, kw in (('z', {}), ('aa', {'label': 'L', 'derived': False}), ('b2', {'comment': 'cc', 'derived': True}), ('c3', {'renames': ['other_c']}), ('d4', {'derived': False, 'renames': ['o4', 'p4']})):
            if nm not in names:
                ev.append(['add', nm, kw])
    ev += [['filter', ['b', 'a'], 'list'], ['filter', ['z', 'ab', 'a_1'], 'pars'], ['labels', ['P', 'Q_1']], ['labelsfrom', ['b', 'nope', 'a'], True], ['labelsfrom', ['al', 'z'], False],
           ['rename', {'a': ['al']}], ['rename', {'al': ['al2', 'al3']}], ['rename', {'b': ['w'], 'q': ['r']}], ['rename', {'newname': ['a']}], ['rename', {'t': ['u', 'b']}], ['file']]
    return ev


def canon_edit(st):
    return repr(st.m)


# ------------------------------------------------------------------ files and construction
FORMS = [['a', '', ''], ['b', 'B', ''], ['c_1', '\\Omega_b h^2', 'a comment here'], ['d.e', 'x y  z', 'c#d'], ['\u03b1', '\u03b2^2', ''], ['f', 'f', 'x'], ['g_', 'G', '']]


def files_gen():
    for n in (1, 2, 3):
        for forms in itertools.permutations(range(len(FORMS)), n):
            for der in itertools.product([0, 1], repeat=n):
                yield [list(forms), list(der)]


def files_check(ctx, case):
    forms, der = case
    p = ParamNames()
    for k, d in zip(forms, der):
        n, l, c = FORMS[k]
        p.names.append(ParamInfo(name=n, label=l, comment=c, derived=bool(d)))
    fn = os.path.join(ctx.scratch, 'f.paramnames')
    p.saveAsText(fn)
    q = ParamNames(fn)
    with open(fn, encoding='utf-8') as f:
        txt = f.read()
    with open(os.path.join(ctx.scratch, 'g.paramnames'), 'w', encoding='utf-8-sig') as f:
        f.write('\n' + txt.replace('\n', '\n\n').replace('\t', '   ').replace('\\', '!'))
    r = ParamNames(os.path.join(ctx.scratch, 'g.paramnames'))
    lines = [FORMS[k][0] + '*' * d + '\t' + (FORMS[k][1] or FORMS[k][0]) + ('\t#' + FORMS[k][2] if FORMS[k][2] else '') for k, d in zip(forms, der)]
    s = ParamNames(names=lines)
    for what, x in (('file', q), ('file with blank lines, ! and byte order mark', r), ('strings', s)):
        got = [[y.name, y.label, y.comment, int(y.isDerived)] for y in x.names]
        exp = [[FORMS[k][0], FORMS[k][1] or FORMS[k][0], FORMS[k][2], d] for k, d in zip(forms, der)]
        require(got == exp, 'read from %s: %s, expected %s', what, got, exp)
        x.saveAsText(fn + '2')
        with open(fn + '2', encoding='utf-8') as f:
            require(f.read() == txt, 'second generation file differs')
    for k, d, line in zip(forms, der, lines):
        y = ParamInfo('old_name*\told label\t#old comment')
        y.isDerived = False
        require(y.setFromString(line) is y and [y.name, y.label, y.comment, int(y.isDerived)] == [FORMS[k][0], FORMS[k][1] or FORMS[k][0], FORMS[k][2], d], 'set again from %s: %s', line, y)
        require(str(y) == line and y.string(False) == line.split('\t#')[0], 'text form %s of %s', y, line)
    bare = ParamNames(names=[FORMS[k][0] + '*' * d for k, d in zip(forms, der)], labels=[FORMS[k][1] for k in forms])
    require([[y.name, y.label, int(y.isDerived)] for y in bare.names] == [[FORMS[k][0], FORMS[k][1], d] for k, d in zip(forms, der)], 'built from names and labels')
    require([y.getLabel() for y in bare.names] == [FORMS[k][1] or FORMS[k][0] for k in forms], 'labels fall back to names')
    require(ParamNames(fn, setParamNameFile=bare).labels() == bare.labels(), 'labels from another list')
    if all(der[i] <= der[i + 1] for i in range(len(der) - 1)):
        # keyword form has the sampled parameters first
        class KW(dict):
            def keyWord_int(self, k):
                return int(self[k][0])

            def keyWordAndComment(self, k):
                return self[k]

            def setKeyWord_int(self, k, v):
                self[k] = (str(v), 'NULL')

            def setKeyWord(self, k, v, c):
                self[k] = (v, c or 'NULL')

        kw = KW()
        p.saveKeyWords(kw)
        t = ParamNames()
        require(t.loadFromKeyWords(kw) == len(forms), 'number of parameters from keywords')
        require([[y.name, y.label, y.comment, int(y.isDerived)] for y in t.names] == exp, 'keyword form')
    # samples built from these names
    x = np.arange(3. * len(forms)).reshape(3, -1)
    m = MCSamples(samples=x, names=[FORMS[k][0] + '*' * d for k, d in zip(forms, der)], labels=[FORMS[k][1] for k in forms], settings={'ignore_rows': 0})
    require([[y.name, y.label, int(y.isDerived)] for y in m.getParamNames().names] == [[FORMS[k][0], FORMS[k][1], d] for k, d in zip(forms, der)], 'names of samples')
    for i, k in enumerate(forms):
        require(np.array_equal(m[FORMS[k][0]], x[:, i]) and m.mean(FORMS[k][0]) == x[:, i].mean(), 'column of %s', FORMS[k][0])
    ctx.step()
    return repr(exp)


# ------------------------------------------------------------------ merging
KEYS = ['a', 'b', 'c']
VALS = [None, [], 'b', ['b'], ('c', 'd'), ['d'], ['a'], ['d', 'e'], 'e']


def small_dicts():
    res = [{}]
    for k in KEYS:
        for v in range(len(VALS)):
            res.append({k: v})
    for k1, k2 in itertools.permutations(KEYS, 2):
        for v1, v2 in itertools.product([0, 2, 5, 7], [1, 3, 4, 8]):
            res.append({k1: v1, k2: v2})
    return res


def merge_gen():
    ds = small_dicts()
    for a in range(len(ds)):
        for b in range(len(ds)):
            for keep in (False, True):
                yield [ds[a], ds[b], keep]


def merge_check(ctx, case):
    a, b, keep = case
    dicts = [{k: VALS[v] for k, v in d.items()} for d in (a, b)]
    before = repr(dicts)
    got = mergeRenames(*dicts, keep_names_1st=keep) if keep else mergeRenames(*dicts)
    require(repr(dicts) == before, 'the input dictionaries were changed')
    comps = []
    for d in dicts:
        for k, v in d.items():
            s = {k} | set(aslist(v))
            for c in [c for c in comps if c & s]:
                s |= c
                comps.remove(c)
            comps.append(s)
    result = {k: set(aslist(v)) | {k} for k, v in got.items()}
    for k, v in got.items():
        require(k not in aslist(v) and len(set(v)) == len(v), '%s merged gives %s', dicts, got)
    for k, s in result.items():
        require(s in comps, 'merging %s gives %s: %s joins names that are not equivalent (or splits them)', dicts, got, sorted(s))
    require(len(set(map(frozenset, result.values()))) == len(result), 'merging %s gives %s', dicts, got)
    for c in comps:
        keys = [[k for k in d if k in c] for d in dicts]
        if all(len(k) <= 1 for k in keys):
            left = [k[0] for k in keys if k][0]
            if len(c) > 1 or keep:
                require(left in result and result[left] == c, 'merging %s gives %s: no entry %s for %s', dicts, got, left, sorted(c))
            else:
                require(not any(s == c for s in result.values()), 'trivial entry in %s', got)
    require(list(got) == list(mergeRenames(*dicts, keep_names_1st=keep)), 'not deterministic')
    ctx.step()
    return repr(sorted(got.items()))


# ------------------------------------------------------------------ names that cannot be written or looked up
def bad_gen():
    for chars in itertools.product(('a', 'b', ' ', '\t', '*', '?'), repeat=3):
        yield ''.join(chars)
    for x in ('é', 'a.b', 'a[1]', '#a', 'a,b'):
        yield x
    for x in (None, 3, ['a']):
        yield x


def bad_check(ctx, name):
    ok = isinstance(name, str) and not set(name) & set(' \t*?')
    for way in ('info', 'list', 'add', 'set'):
        ctx.step()
        p = ParamNames(names=['x', 'y'])
        try:
            if way == 'info':
                if not isinstance(name, str):
                    continue
                n = ParamInfo(name=name).name
            elif way == 'list':
                if not isinstance(name, str) or name.endswith('*') or name.split() != [name]:
                    continue  # name* marks a derived parameter there, and a blank separates the label
                p = ParamNames(names=['x', name])
                n = p.names[1].name
            elif way == 'add':
                n = p.addDerived(name).name
            else:
                p.names[1].setName(name)
                n = p.names[1].name
            done = True
        except (ValueError, TypeError):
            done = False
        require(done == ok, 'name %r was %s by %s', name, 'accepted' if done else 'refused', way)
        if done:
            require(n == name, 'name %r became %r', name, n)
        else:
            require(way == 'list' or [q.name for q in p.names] == ['x', 'y'], 'refused name %r changed the list: %r', name, p.list())
    return ok


def scenarios(tier):
    th = tier == 'thorough'
    return [Enum('lookup', lookup_gen, lookup_check), Enum('glob', glob_gen, glob_check), Enum('files', files_gen, files_check), Enum('merge', merge_gen, merge_check), Enum('badnames', bad_gen, bad_check),
            Bfs('edit', lambda: [0, 1], build_edit, edit_events, canon_edit, 5 if th else 3)]
