"""Ini editing/saving histories."""
import itertools
import os
import shutil

import numpy as np
from mc.core import Enum, Bfs, require
from mc.props.c01 import snapshot
from getdist.inifile import IniFile, IniError

PROPERTY = 'C02'
LEVEL = 'model_checking'
RULE = ('history: BFS over set/delete/replace-tag/save/save-as/reload events from every include layout and both include modes, '
        'state = (settings, files on disk); tags: every value made of up to three pieces of the alphabet x tag replaced; values: every value of the alphabet x location, saved and read back typed')
ASSUMPTIONS = ['values are single-line, without leading/trailing blanks or placeholders']

LAYOUTS = {
    'plain': {'main.ini': 'zz=1\naa=TAG x\nmm=T\n'},
    'include': {'main.ini': 'INCLUDE(inc.ini)\nzz=1\naa=TAG x\n', 'inc.ini': 'mm=T\nbb=3\n'},
    'default': {'main.ini': 'zz=1\nDEFAULT(sub/def.ini)\naa=TAG x\n', 'sub/def.ini': 'zz=5\nmm=F\ncc=1 2\n'},
    'nested': {'main.ini': 'zz=1\nDEFAULT(sub/def.ini)\nINCLUDE(inc.ini)\n', 'inc.ini': 'mm=T\nDEFAULT(inc2.ini)\n', 'inc2.ini': 'bb=4\nzz=4\n',
               'sub/def.ini': 'zz=5\nmm=F\ncc=1 2\nINCLUDE(d2.ini)\n', 'sub/d2.ini': 'dd=TAG\n'},
}
EVENTS = [['set', 'aa', 'new TAG'], ['set', 'yy', '5'], ['set', 'bb', ''], ['setobj', 'mm', False], ['del', 'zz'], ['del', 'nokey'],
          ['tags'], ['save'], ['saveas', 'out.ini'], ['reload', 'main.ini'], ['reload', 'out.ini']]


def full_reference(files, name, d=''):
    """order of keys as read (depth first), and values, from the texts"""
    order, vals = [], {}

    def visit(fn, soft):
        inc, dfl = [], []
        for line in files[fn].splitlines():
            line = line.strip()
            if line.startswith('INCLUDE('):
                inc.append(line[8:-1])
            elif line.startswith('DEFAULT('):
                dfl.append(line[8:-1])
            elif line:
                k, _, v = line.partition('=')
                if k in vals:
                    if not soft:
                        raise IniError('dup')
                else:
                    vals[k] = v
                    order.append(k)
        for x in inc:
            visit(os.path.normpath(os.path.join(os.path.dirname(fn), x)), soft)
        for x in dfl:
            visit(os.path.normpath(os.path.join(os.path.dirname(fn), x)), True)

    visit(name, False)
    return order, vals


def top_reference(files, name):
    order, vals, inc, dfl = [], {}, [], []
    for line in files[name].splitlines():
        line = line.strip()
        if line.startswith('INCLUDE('):
            inc.append(line[8:-1])
        elif line.startswith('DEFAULT('):
            dfl.append(line[8:-1])
        elif line:
            k, _, v = line.partition('=')
            vals[k] = v
            order.append(k)
    return order, vals, inc, dfl


def text(v):
    if isinstance(v, bool):
        return 'T' if v else 'F'
    return str(v)


class St(object):
    pass


def build(ctx, config, hist):
    layout, keep = config
    d = os.path.join(ctx.scratch, 'bfs')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/sub')
    st = St()
    st.files = dict(LAYOUTS[layout])
    for fn, t in st.files.items():
        with open(os.path.join(d, fn), 'w') as f:
            f.write(t)

    def load(fn):
        ini = IniFile(os.path.join(d, fn), keep_includes=keep)
        if keep:
            order, vals, inc, dfl = top_reference(st.files, fn)
        else:
            order, vals = full_reference(st.files, fn)
            inc, dfl = [], []
        require(ini.includes == inc and ini.defaults == dfl, 'include lists %s %s', ini.includes, ini.defaults)
        return ini, order, vals, inc, dfl, fn

    def compare(what):
        got = {k: text(v) for k, v in st.ini.params.items()}
        require(got == {k: text(v) for k, v in st.vals.items()}, '%s: settings %r expected %r', what, got, st.vals)

    def disk(what):
        snap = {k: v.decode() for k, v in snapshot(d).items()}
        require(set(snap) == set(st.files), '%s: files on disk %s, expected %s', what, sorted(snap), sorted(st.files))
        for k in st.files:
            if k != st.just:
                require(snap[k] == st.files[k], '%s: content of %s changed to %r', what, k, snap[k])
        return snap

    st.just = None
    st.ini, st.order, st.vals, st.inc, st.dfl, st.origin = load('main.ini')
    compare('load')
    for ev in hist:
        st.just = None
        ctx.step()
        if ev[0] == 'set' or ev[0] == 'setobj':
            st.ini.params[ev[1]] = ev[2]
            st.vals[ev[1]] = ev[2]
        elif ev[0] == 'del':
            st.ini.delete_keys([ev[1]])
            st.vals.pop(ev[1], None)
        elif ev[0] == 'tags':
            if all(isinstance(v, str) for v in st.vals.values()):
                st.ini.replaceTags('TAG', 'rep')
                st.vals = {k: v.replace('TAG', 'rep') for k, v in st.vals.items()}
        elif ev[0] in ('save', 'saveas'):
            if ev[0] == 'save':
                st.ini.saveFile()
                target = st.origin
            else:
                st.ini.saveFile(os.path.join(d, ev[1]))
                target = ev[1]
            st.just = target
            st.files.setdefault(target, None)
            snap = disk(str(ev))
            st.files[target] = snap[target]
            order, vals, inc, dfl = top_reference(st.files, target)
            require(vals == {k: text(v) for k, v in st.vals.items()}, '%s wrote %r, expected settings %r', ev, snap[target], st.vals)
            require(inc == st.inc and dfl == st.dfl, '%s wrote includes %s %s expected %s %s', ev, inc, dfl, st.inc, st.dfl)
            expect = [k for k in st.order if k in st.vals]
            require([k for k in order if k in st.order] == expect, '%s: key order %s, expected %s', ev, order, expect)
            require(len(order) == len(set(order)), 'keys repeated in saved file')
        elif ev[0] == 'reload':
            if ev[1] in st.files:
                try:
                    if not keep:
                        full_reference(st.files, ev[1])
                    ok = True
                except IniError:
                    ok = False
                if ok:
                    st.ini, st.order, st.vals, st.inc, st.dfl, st.origin = load(ev[1])
        compare(str(ev))
        if st.just is None:
            disk(str(ev))
    return st


def canon(st):
    return repr((sorted((k, text(v)) for k, v in st.vals.items()), sorted(st.files.items()), st.origin, st.order))


VALUES = ['txt', '', 'two words', 'a=b', '#x', 'END', 'T', 0, 3, -7, 10 ** 12, 0.0, 2.5, -1e-20, 1e300, 0.1 + 0.2, True, False,
          [1, 2], [0.1, 1e-9], ['x', 'y'], [True, False, True], [3], {'tuple': [1.5, 2]}, {'array': [0.68, 0.95]}, {'np': 2.5}]


def mkval(v):
    if isinstance(v, dict):
        if 'tuple' in v:
            return tuple(v['tuple'])
        if 'array' in v:
            return np.array(v['array'])
        return np.float64(v['np'])
    return v


def value_cases():
    for v in VALUES:
        for how in ('params', 'dict', 'getAttr', 'edit_loaded'):
            for twice in (0, 1):
                yield dict(v=v, how=how, twice=twice)


class Obj(object):
    pass


def value_check(ctx, case):
    d = ctx.newdir()
    v = mkval(case['v'])
    fn = d + '/s.ini'
    with open(d + '/base.ini', 'w') as f:
        f.write('other=1\nkey=old\nlast=2\n')
    if case['how'] == 'dict':
        ini = IniFile({'other': '1', 'key': v, 'last': 2})
    elif case['how'] == 'edit_loaded':
        ini = IniFile(d + '/base.ini')
        ini.params['key'] = v
    else:
        ini = IniFile()
        ini.params['other'] = '1'
        ini.params['last'] = 2
        if case['how'] == 'params':
            ini.params['key'] = v
        else:
            o = Obj()
            o.key = v
            ini.getAttr(o, 'key', comment='some comment')
    ini.saveFile(fn)
    back = IniFile(fn)
    if case['twice']:
        back.saveFile()
        back = IniFile(fn)
    ctx.step()
    require(set(back.params) == {'other', 'key', 'last'}, 'keys %s', sorted(back.params))
    require(back.int('other') == 1 and back.int('last') == 2, 'other keys')
    if isinstance(v, bool):
        got = back.bool('key')
    elif isinstance(v, int):
        got = back.int('key')
    elif isinstance(v, (float, np.floating)):
        got = back.float('key')
    elif isinstance(v, str):
        got = back.string('key')
    elif isinstance(v[0], bool):
        got = back.bool_list('key')
    elif isinstance(v[0], int) and all(isinstance(x, int) for x in v):
        got = back.int_list('key')
    elif isinstance(v[0], str):
        got = back.list('key')
    else:
        got = back.float_list('key')
    exp = list(v) if isinstance(v, (list, tuple, np.ndarray)) else v
    require(got == exp, 'saved %r, read back %r', v, got)
    return repr(got)


TAGS = ['$T', 'a', '_', '%', 'b$Tc']


def tags_cases():
    for n in (1, 2, 3):
        for parts in itertools.product(range(len(TAGS)), repeat=n):
            for tag, new in (('$T', 'X'), ('$T', ''), ('$T', 'y$T'), ('_', '__')):
                yield [list(parts), tag, new]


def tags_check(ctx, case):
    """every occurrence of a placeholder is replaced, once, in every value, and the result saved"""
    parts, tag, new = case
    v = ''.join(TAGS[i] for i in parts)
    ini = IniFile({'$T': v, 'k2': 'x', 'k3': v[::-1], 'k4': tag})
    ini.replaceTags(tag, new)
    exp = {'$T': new.join(v.split(tag)), 'k2': 'x', 'k3': new.join(v[::-1].split(tag)), 'k4': new}
    require(ini.params == exp, 'replacing %s by %s in %r gives %r', tag, new, v, ini.params)
    ini.saveFile(ctx.scratch + '/t.ini')
    back = IniFile(ctx.scratch + '/t.ini', expand_environment_variables=False)
    require(back.params == exp, 'saved %r, read %r', exp, back.params)
    ctx.step()
    return exp['$T']


def scenarios(tier):
    depth = 4 if tier == 'quick' else 5
    return [Enum('values', value_cases, value_check), Enum('tags', tags_cases, tags_check),
            Bfs('history', lambda: [[l, k] for l in LAYOUTS for k in (False, True)], build, lambda st: EVENTS, canon, depth)]
