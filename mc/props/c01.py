"""Ini inheritance and typed reads: every small inheritance graph, every typed read."""
import itertools
import os

import numpy as np
from mc.core import Enum, require, Violation
from getdist.inifile import IniFile, IniError

PROPERTY = 'C01'
LEVEL = 'model_checking'
RULE = ('tree: every graph of main + files a (same dir), sub/b (other dir), sub/c with every ordered choice of up to two directives in '
        'main, 0/1 directives in a and b, every placement of a key over the four files; lists: settings given as lists, every pair of typed reads; typed: every accessor x value text x '
        'default; a state is a distinct (resolved settings or error) outcome, a transition one value compared')
ASSUMPTIONS = ['file-system reads are faithful', 'keys/values from a finite alphabet',
               'a key defined by an INCLUDE after it was already supplied by a DEFAULT nested in an earlier INCLUDE is not judged']

NODES = {'m': 'main.ini', 'a': 'a.ini', 'b': 'sub/b.ini', 'c': 'sub/c.ini'}


def rel(frm, to):
    return os.path.relpath(NODES[to], os.path.dirname(NODES[frm]) or '.')


def tree_cases():
    mains = [[]] + [[(d, t)] for d in 'ID' for t in 'ab']
    for d1, d2 in itertools.product('ID', repeat=2):
        mains += [[(d1, 'a'), (d2, 'b')], [(d1, 'b'), (d2, 'a')]]
    mains += [[(d1, 'a'), (d2, 'b'), (d3, 'c')] for d1 in 'ID' for d2 in 'ID' for d3 in 'ID']
    sub = [[], [('I', 'c')], [('D', 'c')]]
    for main, da, db in itertools.product(mains, sub, sub):
        for mask in range(16):
            for style in range(4):
                yield dict(main=main, a=da, b=db, mask=mask, style=style)


def reference(dirs, defs):
    """declarative: hard files = INCLUDE closure of main; soft files in depth-first order.
    returns dict, 'error', or None when the case is not judged"""
    res = {}
    hard_seen = []
    soft_supplied = {}
    ambiguous = [False]
    dup = [False]

    def visit(node, soft):
        for k, v in defs[node]:
            if soft:
                if k not in res:
                    res[k] = v
                    soft_supplied[k] = True
            else:
                if k in res:
                    if k in soft_supplied:
                        ambiguous[0] = True
                    else:
                        dup[0] = True
                else:
                    res[k] = v
        for d, t in dirs.get(node, []):
            if d == 'I':
                visit(t, soft)
        for d, t in dirs.get(node, []):
            if d == 'D':
                visit(t, True)

    visit('m', False)
    if ambiguous[0]:
        return None
    if dup[0]:
        return 'error'
    return res


def write_tree(d, case):
    dirs = dict(m=case['main'], a=case['a'], b=case['b'], c=[])
    defs = {}
    os.makedirs(os.path.join(d, 'sub'))
    style = case['style']
    for i, n in enumerate('mabc'):
        lines = []
        ds = []
        kv = []
        if case['mask'] & (1 << i):
            kv.append(('k1', 'from %s' % n))
        else:
            kv.append(('k2', '%s.dat' % n))
        if style == 3 and n in 'bc':
            kv.append(('k3', n))
        kv.append(('only_' + n, '1'))
        kv.append(('END_' + n, 'e'))
        kv.append(('INCLUDE_' + n, 'i=1'))
        defs[n] = kv
        for dd, t in dirs[n]:
            target = rel(n, t)
            if style == 1:
                target = os.path.join(d, NODES[t])
            ds.append(('INCLUDE(%s)' if dd == 'I' else 'DEFAULT(%s)') % target)
        kl = ['%s = %s' % kk for kk in kv]
        if style == 0:
            lines = ds + ['', '# comment = x'] + kl
        elif style == 1:
            lines = ['#k1 = commented'] + kl + ds
        elif style == 2:
            lines = kl[:1] + ['', '   '] + ['   ' + x for x in ds] + kl[1:] + ['END', 'k1 = after end', 'DEFAULT(nosuchfile.ini)']
        else:
            lines = [x.replace(' = ', '=') for x in kl] + ds + [' # only_z = 3']
        with open(os.path.join(d, NODES[n]), 'w', encoding='utf-8-sig' if style == 3 else 'utf-8') as f:
            f.write('\n'.join(lines) + ('\n' if style % 2 else ''))
    return dirs, defs


def snapshot(d):
    res = {}
    for root, _, files in os.walk(d):
        for fn in files:
            with open(os.path.join(root, fn), 'rb') as f:
                res[os.path.relpath(os.path.join(root, fn), d)] = f.read()
    return res


def tree_check(ctx, case):
    d = ctx.newdir()
    dirs, defs = write_tree(d, case)
    ref = reference(dirs, defs)
    before = snapshot(d)
    other = os.path.join(ctx.scratch, 'elsewhere')  # other files of the same names in the current directory
    if not os.path.isdir(other):
        os.makedirs(other)
        for n in 'mabc':
            with open(os.path.join(other, n + '.dat'), 'w') as f:
                f.write('wrong')
            with open(os.path.join(other, os.path.basename(NODES[n])), 'w') as f:
                f.write('wrong = 1\n')
    outs = []
    for how in range(2):
        fname = os.path.join(d, 'main.ini')
        cwd = os.getcwd()
        try:
            os.chdir(other)
            if how == 1:
                os.chdir(d)
                fname = 'main.ini'
            try:
                ini = IniFile(fname)
                got = dict(ini.params)
            except IniError:
                ini, got = None, 'error'
            ctx.step()
            if ref is None:
                continue
            require(got == ref, 'resolved settings %r, expected %r', got, ref)
            if ini is not None:
                for k, v in ref.items():
                    require(ini.string(k) == v, 'string(%s)', k)
                    ctx.step()
                require(not ini.hasKey('only_z') and not ini.isSet('only_z'), 'comment line was read as a setting')
                if 'k2' in ref:
                    got = os.path.normpath(os.path.abspath(ini.relativeFileName('k2')))
                    require(got == os.path.join(os.path.realpath(d), ref['k2']) or got == os.path.join(d, ref['k2']),
                            'relative file name resolved to %s (main file is in %s)', got, d)
                    require(ini.relativeFileName('nokey', '/abs/x') == '/abs/x', 'absolute name changed')
        finally:
            os.chdir(cwd)
    require(snapshot(d) == before, 'reading changed files')
    import shutil
    shutil.rmtree(d)
    return repr(ref if ref is None or ref == 'error' else sorted(ref.items()))


# ---- typed reads
TEXTS = ['', 'T', 'F', 'True', 'False', 'T F', 'F T T', '0', '1', '-3', '+7', '12', '1.5', '-1e-3', '1 2', '3  4\t5', '0.1 2 -3e2', 'abc',
         'a b', 'x=y', 'a #b', '"q"', 'k = v = w', '0 0', '00', '1e5', '[1 2]']
NOVALUE = '__missing__'


def parse_bool(t):
    if t[0] == 'T':
        return True
    if t[0] == 'F':
        return False
    raise ValueError


def listof(tp):
    return lambda t: [tp(x) for x in t.split()]


ACC = {
    # name: (call(ini, key, default or None), parse, defaults, empty_is_value, list-like)
    'string': (lambda i, k, *d: i.string(k, *d), str, ['dflt'], True),
    'string_noempty': (lambda i, k, *d: i.string(k, *d, allowEmpty=False) if d else i.string(k, allowEmpty=False), str, ['dflt'], False),
    'int': (lambda i, k, *d: i.int(k, *d), int, [0, 7], False),
    'float': (lambda i, k, *d: i.float(k, *d), float, [0.0, 2.5], False),
    'bool': (lambda i, k, *d: i.bool(k, *d), parse_bool, [True, False], False),
    'list': (lambda i, k, *d: i.list(k, *d), listof(str), [['z']], 'list'),
    'split': (lambda i, k, *d: i.split(k, *d), listof(str), [['z'], []], 'list'),
    'int_list': (lambda i, k, *d: i.int_list(k, *d), listof(int), [[9, 8]], 'list'),
    'float_list': (lambda i, k, *d: i.float_list(k, *d), listof(float), [[0.5]], 'list'),
    'bool_list': (lambda i, k, *d: i.bool_list(k, *d), listof(parse_bool), [[True, False]], 'list'),
    'ndarray': (lambda i, k, *d: list(i.ndarray(k, *d)), listof(float), [[0.5, 1.5]], 'list'),
    'array_int': (lambda i, k, *d: i.array_int(k, 2, *d), int, [0, 7], False),
    'array_float': (lambda i, k, *d: i.array_float(k, 2, *d), float, [0.0, 7.5], False),
    'array_bool': (lambda i, k, *d: i.array_bool(k, 2, *d), parse_bool, [True, False], False),
    'array_string': (lambda i, k, *d: i.array_string(k, 2, *d), str, ['q'], True),
    # without an index: the first entry
    'first_int': (lambda i, k, *d: i.array_int(k, **dict(default=d[0]) if d else {}), int, [0, 7], False),
    'first_float': (lambda i, k, *d: i.array_float(k, **dict(default=d[0]) if d else {}), float, [0.0, 7.5], False),
    'first_bool': (lambda i, k, *d: i.array_bool(k, **dict(default=d[0]) if d else {}), parse_bool, [True, False], False),
    'first_string': (lambda i, k, *d: i.array_string(k, **dict(default=d[0]) if d else {}), str, ['q'], True),
}
NODEF_OK = {'list': [], 'int_list': [], 'float_list': [], 'bool_list': [], 'bool': False}


def typed_cases():
    for acc in ACC:
        for t in [NOVALUE] + TEXTS:
            for d in [-1] + list(range(len(ACC[acc][2]))):
                for src in ('file', 'dict', 'default_file'):
                    yield dict(acc=acc, text=t, default=d, src=src)


def typed_check(ctx, case):
    call, parse, defaults, empty = ACC[case['acc']]
    key = 'key(2)' if case['acc'].startswith('array_') else 'key(1)' if case['acc'].startswith('first_') else 'key'
    ask = 'key'
    t = case['text']
    settings = {'key(2)' if key == 'key(1)' else 'key(1)': '41', 'key(3)': '43', 'key2': '44', 'ke': '45', 'KEY': 'x'}
    if key != 'key':
        settings['key'] = 'no'
    if t != NOVALUE:
        settings[key] = t
    if case['src'] == 'dict':
        ini = IniFile(settings)
        require(ini.relativeFileName('nokey', 'a/x') == 'a/x', 'file name relative to no file changed')
    else:
        d = ctx.newdir()
        body = '\n'.join('%s = %s' % kv for kv in settings.items())
        if case['src'] == 'file':
            with open(d + '/x.ini', 'w') as f:
                f.write(body)
        else:
            with open(d + '/y.ini', 'w') as f:
                f.write(body)
            with open(d + '/x.ini', 'w') as f:
                f.write('DEFAULT(y.ini)\nother = 3\n')
        ini = IniFile(d + '/x.ini')
        if t != NOVALUE:
            t = t.strip()
    nodef = case['default'] < 0
    dflt = None if nodef else defaults[case['default']]
    isset = t != NOVALUE and (t != '' or empty)
    if t != NOVALUE and t == '' and empty == 'list':
        # an empty list value: an empty list and the default are both legitimate readings
        got = call(ini, ask, *([] if nodef else [dflt]))
        require(len(got) == 0 or got == dflt, 'empty list value read as %r', got)
        return 'empty'
    if isset:
        try:
            exp = ('value', parse(t))
        except ValueError:
            exp = ('error', None)
    elif not nodef:
        exp = ('value', dflt)
    elif case['acc'] in NODEF_OK:
        exp = ('value', NODEF_OK[case['acc']])
    else:
        exp = ('error', None)
    try:
        got = ('value', call(ini, ask, *([] if nodef else [dflt])))
    except (IniError, ValueError, TypeError) as e:
        got = ('error', None)
    ctx.step()
    if exp[0] == 'error' and case['acc'] in ('ndarray',) and nodef and not isset:
        return 'undef'  # raising is required, the kind is not
    require(got[0] == exp[0], '%s(%r) gave %r, expected %r', case['acc'], t, got, exp)
    if got[0] == 'value':
        g, e = got[1], exp[1]
        require(g == e and (type(g) == type(e) or isinstance(g, (list, tuple))), '%s(%r) = %r, expected %r', case['acc'], t, g, e)
        if isinstance(e, list):
            require(all(type(x) == type(y) or isinstance(x, np.generic) for x, y in zip(g, e)), 'element types differ: %r', g)
    require(ini.isSet(key) == (t not in (NOVALUE, '')), 'isSet')
    require(ini.isSet(key, allowEmpty=True) == (t != NOVALUE) == ini.hasKey(key), 'hasKey')
    return repr(got)


# ---- $(VAR) placeholders
PIECES = ['a', '$(X)', '$(LONG_NAME)', '$(UNDEF)', '/', '$$', ' b']
ENV = {'X': 'xval', 'LONG_NAME': 'l$v', 'EMPTY': ''}


def ph_cases():
    for n in range(1, 4):
        for seq in itertools.product(range(len(PIECES)), repeat=n):
            yield list(seq)


def ph_check(ctx, seq):
    text = ''.join(PIECES[i] for i in seq).strip()
    has = any(1 <= i <= 3 for i in seq)
    exp = ''.join({'$(X)': 'xval', '$(LONG_NAME)': 'l$v', '$(UNDEF)': '', '$$': '$' if has else '$$'}.get(PIECES[i], PIECES[i]) for i in seq)
    d = ctx.newdir()
    with open(d + '/x.ini', 'w') as f:
        f.write('key = %s\nafter = 1\n' % text)
    os.environ.update(ENV)
    os.environ.pop('UNDEF', None)
    got = IniFile(d + '/x.ini').string('key')
    ctx.step()
    require(got.strip() == exp.strip(), 'expanded %r to %r, expected %r', text, got, exp)
    raw = IniFile(d + '/x.ini', expand_environment_variables=False).string('key')
    require(raw == text, 'unexpanded %r', raw)
    return got


# ---- attribute transfer
def attr_cases():
    for tp in ('int', 'float', 'bool', 'str', 'list', 'ndarray'):
        for has in (0, 1, 2, 3):
            for val in ('set', 'unset', 'empty'):
                yield dict(tp=tp, has=has, val=val)


class Obj(object):
    pass


def attr_check(ctx, case):
    vals = dict(int=(3, '4', 4), float=(1.5, '2', 2.0), bool=(True, 'F', False), str=('s', 'new', 'new'), list=(['p'], 'q r', ['q', 'r']),
                ndarray=(np.array([1.0]), '2 3.5', [2.0, 3.5]))
    cur, text, new = vals[case['tp']]
    o = Obj()
    args = []
    if case['has'] == 0:
        o.name = cur
    elif case['has'] == 1:
        args = [cur]
    elif case['has'] == 2:
        o.name = cur
        args = ['ignored default']
    else:
        cur = type(cur)() if case['tp'] != 'ndarray' else np.zeros(1)  # an existing zero, false or empty value
        o.name = cur
        args = [vals[case['tp']][0]]
    o.other = 5
    ini = IniFile({} if case['val'] == 'unset' else {'name': text if case['val'] == 'set' else ''})
    ini.setAttr('name', o, *args)
    ctx.step()
    exp = new if case['val'] == 'set' else cur
    require(np.array_equal(np.asarray(o.name), np.asarray(exp)) and o.other == 5, 'setAttr gave %r expected %r', o.name, exp)
    if not isinstance(o.name, (np.ndarray, list)):
        require(type(o.name) == type(exp), 'type %r', type(o.name))
    if case['tp'] == 'str':
        ini.setAttr('name', o, *args, allowEmpty=True)
        require(o.name == ('' if case['val'] == 'empty' else exp), 'setAttr allowing empty values gave %r', o.name)
    ini2 = IniFile()
    ini2.getAttr(o, 'name', comment=['c'])
    require(ini2.comments == {'name': ['c']}, 'comment given not kept')
    require(ini2.params['name'] is o.name or np.array_equal(ini2.params['name'], o.name), 'getAttr')
    return repr(o.name)


# ---- comments belong to the parameter that follows them directly
def lists_cases():
    for v in (['1', '2'], [1, 2.5], (3, 4), [True, False], ['T', 'F'], []):
        for acc in ('split', 'list', 'int_list', 'float_list', 'bool_list', 'ndarray'):
            for acc2 in ('split', 'float_list', 'int_list', 'ndarray'):
                yield [list(v), isinstance(v, tuple), acc, acc2]


def lists_check(ctx, case):
    """settings given as lists: each typed read converts without changing the setting"""
    v, tup, a1, a2 = case
    v = tuple(v) if tup else v
    ini = IniFile({'k': v, 'o': 1})
    first = repr(v)
    res = []
    for acc in (a1, a2, a1):
        tp = {'int_list': int, 'float_list': float, 'ndarray': float, 'bool_list': None}.get(acc, lambda x: x)
        try:
            exp = [parse_bool(x) if isinstance(x, str) else x if isinstance(x, bool) else {}['no'] for x in v] if tp is None else [tp(x) for x in v]
        except (ValueError, KeyError):
            exp = None
        try:
            got = list(getattr(ini, acc)('k'))
        except (IniError, ValueError, TypeError):
            got = None
        ctx.step()
        require((got is None) == (exp is None), '%s of %r gave %r', acc, v, got)
        require(got == exp and (got is None or [type(x) for x in got] == [type(x) for x in exp] or acc == 'ndarray'), '%s of %r gave %r', acc, v, got)
        require(repr(ini.params['k']) == first and ini.params['o'] == 1, 'reading %s changed the setting %s to %r', acc, first, ini.params['k'])
        res.append(got)
    return repr(res)


def comment_cases():
    return itertools.product(('#one', '  # two ', '', 'k%d = v', 'k%d=', 'text'), repeat=4)


def comment_check(ctx, case):
    lines, exp, cur = [], {}, []
    for i, l in enumerate(case):
        l = l % i if '%' in l else l
        lines.append(l)
        t = l.strip()
        if t.startswith('#'):
            cur = cur + [t[1:].rstrip()]
        else:
            if '=' in t and cur:
                exp[t.split('=')[0].strip()] = cur
            cur = []
    with open(ctx.scratch + '/x.ini', 'w') as f:
        f.write('\n'.join(lines) + '\n')
    ini = IniFile(ctx.scratch + '/x.ini')
    ctx.step()
    require(ini.comments == exp, 'comments %r, expected %r', ini.comments, exp)
    require(ini.params == {'k%d' % i: l.split('=')[1].strip() for i, l in enumerate(case) if '=' in l}, 'values %r', ini.params)
    return repr(exp)


def scenarios(tier):
    return [Enum('comments', comment_cases, comment_check), Enum('tree', tree_cases, tree_check), Enum('lists', lists_cases, lists_check), Enum('typed', typed_cases, typed_check),
            Enum('placeholders', ph_cases, ph_check), Enum('attributes', attr_cases, attr_check)]
